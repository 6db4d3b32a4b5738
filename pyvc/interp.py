"""Symbolic interpreter for the subset of Python used by the code under verification."""
import ast, os
import builtins as _bi
import z3
from .values import *
from .machine import *
from .seqs import SeqOps, I, simp
from .strs import StrOps
from .loops import LoopOps
from . import prims

MAXDEPTH = 60


class Interp(SeqOps, StrOps, LoopOps):
    def __init__(self, root):
        self.m = Machine()
        self.m.joins = []
        self.root = root            # directory containing the package
        self.modules = {}
        self.ext = dict(prims.EXTERNAL)
        self.dispatch = None
        self.active = []            # functions being executed
        self.m.trail = Trail([])

    # --- modules -----------------------------------------------------------
    def load(self, name):
        if name in self.modules: return self.modules[name]
        path = os.path.join(self.root, *name.split('.'))
        path = os.path.join(path, '__init__.py') if os.path.isdir(path) else path + '.py'
        return self.load_file(name, path)

    def load_file(self, name, path):
        mod = Module(name)
        self.modules[name] = mod
        src = open(path).read()
        tree = ast.parse(src, path)
        mod.ns['__name__'] = name
        if name == 'gopher_render':
            return mod                       # the package itself only re-exports
        fr = Frame(mod); fr.locals = mod.ns
        self.m.frames.append(fr)
        try: self.body(tree.body, fr)
        finally: self.m.frames.pop()
        return mod

    def func(self, qual):
        """'gopher_render._selectors:tag_matches' or '...:Box.__init__'"""
        mod, _, path = qual.partition(':')
        v = self.load(mod)
        v = v.ns
        for k in path.split('.'):
            if isinstance(v, Class): v = v.ns.get(k)
            else: v = v.get(k)
            if v is None: raise Unsupported('%s not found' % qual)
        return v

    # --- errors --------------------------------------------------------------
    def raise_(self, cls, *args):
        raise PyExc(ExcV(Ext('builtins.' + cls) if isinstance(cls, str) else cls, args))

    def unsup(self, node, why=''):
        raise Unsupported('%s at line %s %s' % (type(node).__name__, getattr(node, 'lineno', '?'), why))

    # --- basic values ----------------------------------------------------------
    def force(self, v):
        """Decide which alternative a value is."""
        while True:
            if isinstance(v, Ch):
                alts = v.alts
                for k, (c, x) in enumerate(alts):
                    if k == len(alts) - 1 or self.m.choose(c):
                        if k == len(alts) - 1: self.m.assume(c, 'ctx') if not z3.is_true(c) else None
                        v = x; break
            elif isinstance(v, Lazy):
                v = v.thunk()
            elif isinstance(v, Poison):
                raise ReadCarried(v.loc)
            else: return v

    def force_static(self, v):
        return v.alts[0][1] if isinstance(v, Ch) else v

    def truth(self, v):
        """Python truth value as bool or SB (no decision unless needed)."""
        v = self.force(v)
        if v is None: return False
        if isinstance(v, (bool, SB)): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, SI): return mkB(v.e != 0)
        if isinstance(v, str): return v != ''
        if isinstance(v, R): return mkB(self.s_len(v) > 0)
        if isinstance(v, tuple): return len(v) > 0
        if isinstance(v, LV): return mkB(self.nonempty(v))
        if isinstance(v, (Ref, SField, Frozen)):
            c = self.content(v)
            if isinstance(c, LCell): return mkB(self.nonempty(c.lv))
            if isinstance(c, DCell): return self.dict_truth(c)
            cls = c.cls
            if isinstance(cls, Class):
                f = self.class_lookup(cls, '__bool__')
                if f is not None: return self.truth(self.call(f, [v], {}))
                f = self.class_lookup(cls, '__len__')
                if f is not None: return self.truth(self.call(f, [v], {}))
            return True
        if isinstance(v, Sym):
            t = v.schema.truth(self, v)
            if t is None: raise Unsupported('truth value of %r' % v)
            return t
        if isinstance(v, (Func, Bound, Class, Prim, Ext, Module, ExcV)): return True
        raise Unsupported('truth value of %r' % (v,))

    def nonempty(self, lv):
        """formula: the sequence is not empty (flattened ranges not allowed)"""
        return self.lv_len(lv) > 0

    def dict_truth(self, c):
        if any(l[0] == 'c' and l[1] for l in c.layers): return True
        if not c.layers: return False
        raise Unsupported('truth value of an arbitrary dictionary')

    def content(self, v):
        if isinstance(v, Ref): return self.m.cell(v)
        if isinstance(v, SField): return LCell(self.sfield_get(v))
        if isinstance(v, Frozen):
            if v.cls == 'list': return LCell(v.fields)
            if v.cls == 'dict': return v.fields
            return OCell(v.cls, v.fields)
        raise Unsupported('content of %r' % (v,))

    # mutable list attributes of symbolic objects: a chain of updates over the initial content
    def sfield_get(self, f):
        chain = self.m.heap.get(('sf', f.attr), ())
        if isinstance(chain, Poison): raise ReadCarried(chain.loc)
        for t, v in chain:
            if t.eq(f.sym.term) or self.m.choose(simp(t == f.sym.term)): return v
        return f.sym.schema.field_init(self, f.sym, f.attr)

    def sfield_set(self, f, v):
        chain = self.m.heap.get(('sf', f.attr), ())
        if isinstance(chain, Poison): raise ReadCarried(chain.loc)
        self.m.heap[('sf', f.attr)] = ((f.sym.term, v),) + tuple(x for x in chain if not x[0].eq(f.sym.term))

    def as_lv(self, v):
        """Sequence value of an iterable."""
        v = self.force(v)
        if isinstance(v, LV): return v
        if isinstance(v, tuple): return self.lv(v)
        if isinstance(v, (Ref, SField, Frozen)):
            c = self.content(v)
            if isinstance(c, LCell): return c.lv
            if isinstance(c, DCell): return self.dict_keys(c)
            if isinstance(c, OCell) and isinstance(c.cls, Class):
                f = self.class_lookup(c.cls, '__iter__')
                if f is not None: return self.as_lv(self.call(f, [v], {}))
        if isinstance(v, str): return self.lv(list(v))
        if isinstance(v, R):
            z = self.zs(v)
            i = z3.Int(self.m.fname('c'))
            return LV([Sg(I(0), self.s_len(v), i, mkR([self.char_at(z, i)]))])
        if isinstance(v, Sym):
            r = v.schema.iterate(self, v)
            if r is not None: return r
        if v is None or is_int(v) or is_bool(v): self.raise_('TypeError', 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def dict_keys(self, c):
        if any(l[0] != 'c' for l in c.layers):
            return c.fields['keys'] if 'keys' in c.fields else self._unsup('iteration over an arbitrary dictionary')
        keys = {}
        for l in c.layers:
            for k in l[1]: keys[k] = 1
        return self.lv(list(keys))

    # --- dictionaries -------------------------------------------------------------
    def dkey(self, k):
        k = self.force(k)
        if k is None or isinstance(k, (str, int, bool, tuple, Ext, Class)): return k
        return k

    def d_lookup(self, c, k):
        """(present: bool, value) after deciding presence; k a value"""
        m = self.m
        k = self.dkey(k)
        conc = k is None or isinstance(k, (str, int, bool, Ext))
        for l in reversed(c.layers):
            if l[0] == 'c':
                if conc and k in l[1]: 
                    v = l[1][k]
                    if isinstance(v, Poison): raise ReadCarried(v.loc)
                    if isinstance(v, prims.Deleted): return False, None
                    return True, v
                for kk, v in reversed(list(l[1].items())):
                    if conc and not isinstance(kk, (R, SI, SB)): continue
                    if m.choose(self.py_eq(kk, k)):
                        if isinstance(v, prims.Deleted): return False, None
                        return True, v
            elif l[0] == 's':
                if not is_str(k): continue
                zk = self.zs(k)
                if m.choose(l[1].has(zk)): return True, l[1].val(zk)
            elif l[0] == 'g':                       # updates by a range of dictionaries, the last one wins
                seg = l[1]
                if not is_str(k): raise Unsupported('key')
                def has(e):
                    return zb(self.d_has(e.fields, k))
                v0 = seg.var
                i = z3.Int(m.fname('i'))
                m.index_vars.append(i)
                try: hc = simp(z3.And(z3.substitute(seg.guard, (v0, i)), has(subst(seg.elem, [(v0, i)]))))
                finally: m.index_vars.pop()
                cnt, sel, rank = self.filt(seg.lo, seg.hi, i, hc)
                if m.choose(simp(cnt > 0)):
                    e = subst(seg.elem, [(v0, sel(cnt - 1))])
                    ok, v = self.d_lookup(e.fields, k)
                    if not ok: raise Infeasible()
                    return True, v
            elif l[0] == 'x':                       # guarded update
                if m.choose(l[1]):
                    ok, v = self.d_lookup(DCell([l[2]]), k)
                    if ok: return ok, v
            elif l[0] == 'pre': raise ReadCarried(l[1])
            else: raise Unsupported('dict layer')
        return False, None

    def d_has(self, c, k):
        """presence as a value (no decision kept)"""
        return self.summ(lambda: self.d_lookup(c, k)[0])

    def d_set(self, ref, k, v):
        c = self.mut_cell(ref)
        k = self.dkey(k)
        if isinstance(k, (R, SI, Sym)): 
            ls = list(c.layers) + [('c', SymKeyDict([(k, v)]))]
        else:
            ls = list(c.layers)
            if ls and ls[-1][0] == 'c' and not isinstance(ls[-1][1], SymKeyDict):
                d = dict(ls[-1][1]); d[k] = v; ls[-1] = ('c', d)
            else: ls.append(('c', {k: v}))
        self.m.heap[ref.id] = DCell(ls, c.cls, c.fields)

    def mut_cell(self, ref):
        if isinstance(ref, Frozen):
            self.m.fail('frame', 'modifies an object that must not change: %r' % (ref,))
            raise Infeasible()
        if not isinstance(ref, Ref): raise Unsupported('mutation of %r' % (ref,))
        return self.m.cell(ref)

    def d_update(self, ref, other):
        other = self.force(other)
        c = self.mut_cell(ref)
        o = self.content(other) if isinstance(other, (Ref, Frozen)) else None
        if o is None and isinstance(other, (tuple, LV)) or isinstance(o, LCell):
            for p in self.as_lv(other).parts:
                if isinstance(p, Sg) and not p.flat:
                    kv = self.as_lv(p.elem)
                    e = Frozen('dict', DCell([('c', SymKeyDict([(self.lv_index(kv, 0), self.lv_index(kv, 1))]))]))
                    c = self.m.cell(ref)
                    self.m.heap[ref.id] = DCell(c.layers + (('g', Sg(p.lo, p.hi, p.var, e, p.guard)),), c.cls, c.fields)
                    continue
                if not (isinstance(p, It) and z3.is_true(p.guard)): raise Unsupported('update')
                kv = self.as_lv(p.val)
                self.d_set(ref, self.lv_index(kv, 0), self.lv_index(kv, 1))
            return
        if not isinstance(o, DCell): 
            if other is None or is_int(other): self.raise_('TypeError', 'not iterable')
            raise Unsupported('update with %r' % (other,))
        c = self.m.cell(ref)
        ls = list(c.layers)
        for l in o.layers:
            if l[0] == 'c' and ls and ls[-1][0] == 'c' and not isinstance(ls[-1][1], SymKeyDict) and not isinstance(l[1], SymKeyDict):
                d = dict(ls[-1][1]); d.update(l[1]); ls[-1] = ('c', d)
            else: ls.append(l)
        self.m.heap[ref.id] = DCell(ls, c.cls, c.fields)

    # --- equality --------------------------------------------------------------------
    def py_eq(self, a, b):
        """a == b as bool or SB"""
        a, b = self.force(a), self.force(b)
        if a is b and not isinstance(a, (Ref,)): return True
        if is_str(a) and is_str(b): return self.str_eq(a, b)
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            if not isinstance(a, (SI, SB)) and not isinstance(b, (SI, SB)): return a == b
            if is_bool(a) and is_bool(b): return mkB(zb(a) == zb(b))
            return mkB(zi(a) == zi(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            r = True
            for x, y in zip(a, b):
                e = self.py_eq(x, y)
                if e is False: return False
                r = e if r is True else r if e is True else mkB(z3.And(zb(r), zb(e)))
            return r
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            r = s.schema.eq(self, s, o)
            if r is not None: return r
            raise Unsupported('comparison of %r with %r' % (a, b))
        if a is None or b is None: return a is b
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id: return True
        for x, y, op in ((a, b, '__eq__'), (b, a, '__eq__')):
            if isinstance(x, (Ref, Frozen)):
                c = self.content(x)
                if isinstance(c, OCell) and isinstance(c.cls, Class):
                    f = self.class_lookup(c.cls, '__eq__')
                    if isinstance(f, Func): return self.truth(self.call(f, [x, y], {}))
        ka, kb = self.kind(a), self.kind(b)
        if ka == kb == 'list':
            la, lb = self.as_lv(a), self.as_lv(b)
            if all(isinstance(p, It) and z3.is_true(p.guard) for p in la.parts + lb.parts):
                if len(la.parts) != len(lb.parts): return False
                return self.py_eq(tuple(p.val for p in la.parts), tuple(p.val for p in lb.parts))
            if not la.parts or not lb.parts:
                return mkB(self.lv_len(la if la.parts else lb) == 0)
            raise Unsupported('list comparison')
        if ka != kb: return False
        if ka == 'object': return False if (isinstance(a, Ref) and isinstance(b, Ref)) else self._unsup('object comparison')
        if ka in ('func', 'class', 'ext'): return a is b or (isinstance(a, Ext) and a == b)
        if ka == 'bound': return same(a, b)
        raise Unsupported('comparison of %r with %r' % (a, b))

    def kind(self, v):
        if v is None: return 'none'
        if is_str(v): return 'str'
        if is_bool(v): return 'bool'
        if is_int(v): return 'int'
        if isinstance(v, tuple): return 'tuple'
        if isinstance(v, SField): return 'list'
        if isinstance(v, LV): return 'iter'
        if isinstance(v, (Ref, Frozen)):
            c = self.content(v)
            return 'list' if isinstance(c, LCell) else 'dict' if isinstance(c, DCell) else 'object'
        if isinstance(v, Func): return 'func'
        if isinstance(v, Bound): return 'bound'
        if isinstance(v, Class): return 'class'
        if isinstance(v, (Ext, Prim)): return 'ext'
        if isinstance(v, Sym): return 'sym'
        return type(v).__name__

    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is None or b is None: 
            if isinstance(a, Sym) or isinstance(b, Sym):
                s, o = (a, b) if isinstance(a, Sym) else (b, a)
                r = s.schema.eq(self, s, o)
                return r if r is not None else False
            return a is None and b is None
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, SB) or isinstance(b, SB):
            if is_bool(a) and is_bool(b): return self.py_eq(a, b)
            return False
        if isinstance(a, Sym) and isinstance(b, Sym): return mkB(a.term == b.term)
        if isinstance(a, Sym) or isinstance(b, Sym): return False
        if isinstance(a, Ref) and isinstance(b, Ref): return a.id == b.id
        if isinstance(a, SField) and isinstance(b, SField): return a.attr == b.attr and self.m.choose(simp(a.sym.term == b.sym.term))
        if isinstance(a, (Class, Func, Ext)) or isinstance(b, (Class, Func, Ext)): return a is b or (isinstance(a, Ext) and a == b)
        if is_int(a) and is_int(b) or is_str(a) and is_str(b): return self.py_eq(a, b)
        if type(a) is not type(b): return False
        raise Unsupported('is')

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(op, ast.NotEq):
                x = self.force(a)
                if isinstance(x, (Ref, Frozen)):
                    c = self.content(x)
                    if isinstance(c, OCell) and isinstance(c.cls, Class):
                        f = self.class_lookup(c.cls, '__ne__')
                        if isinstance(f, Func): return self.truth(self.call(f, [x, b], {}))
            r = self.py_eq(a, b)
            return r if isinstance(op, ast.Eq) else self.not_(r)
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot): return self.not_(self.is_(a, b))
        if isinstance(op, ast.In): return self.contains_(b, a)
        if isinstance(op, ast.NotIn): return self.not_(self.contains_(b, a))
        a, b = self.force(a), self.force(b)
        return self.order(type(op).__name__, a, b)

    def order(self, op, a, b):
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            x, y = zi(a), zi(b)
            return mkB({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str): return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            x, y = self.zs(a), self.zs(b)
            return mkB({'Lt': x < y, 'LtE': x <= y, 'Gt': y < x, 'GtE': y <= x}[op])
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                e = self.py_eq(x, y)
                if e is True: continue
                if self.m.choose(e): continue
                return self.order({'LtE': 'Lt', 'GtE': 'Gt'}.get(op, op), self.force(x), self.force(y))
            return self.order(op, len(a), len(b))
        meth = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
        refl = {'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}
        for x, y, n in ((a, b, meth[op]), (b, a, refl[op])):
            if isinstance(x, (Ref, Frozen)):
                c = self.content(x)
                if isinstance(c, OCell) and isinstance(c.cls, Class):
                    f = self.class_lookup(c.cls, n)
                    if f is not None: return self.truth(self.call(f, [x, y], {}))
        if self.kind(a) != self.kind(b) or self.kind(a) in ('none',): self.raise_('TypeError', 'not supported between instances')
        raise Unsupported('ordering of %r and %r' % (a, b))

    def not_(self, v):
        if isinstance(v, bool): return not v
        if isinstance(v, SB): return mkB(z3.Not(v.e))
        return self.not_(self.truth(v))

    def contains_(self, s, x):
        s, x = self.force(s), self.force(x)
        if is_str(s):
            if not is_str(x): self.raise_('TypeError', 'in <string> requires string')
            return self.contains(s, x)
        if isinstance(s, (tuple, LV)):
            lv = self.as_lv(s)
            r = []
            if all(isinstance(p, It) and z3.is_true(p.guard) for p in lv.parts):
                for p in lv.parts:
                    e = self.py_eq(p.val, x)
                    if e is True: return True
                    if e is not False: r.append(zb(e))
                return mkB(z3.Or(r)) if r else False
            return self.lv_contains(lv, x)
        if isinstance(s, (Ref, SField, Frozen)):
            c = self.content(s)
            if isinstance(c, LCell): return self.contains_(c.lv, x)
            if isinstance(c, DCell):
                f = self.class_lookup(c.cls, '__contains__') if c.cls is not None else None
                if isinstance(f, Func): return self.truth(self.call(f, [s, x], {}))
                return self.d_has(c, x)
            f = self.class_lookup(c.cls, '__contains__') if isinstance(c.cls, Class) else None
            if f is not None: return self.truth(self.call(f, [s, x], {}))
        if isinstance(s, Sym):
            r = s.schema.contains(self, s, x)
            if r is not None: return r
        if s is None or is_int(s): self.raise_('TypeError', 'argument is not iterable')
        raise Unsupported('in %r' % (s,))

    # --- arithmetic -------------------------------------------------------------------
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        n = type(op).__name__ if not isinstance(op, str) else op
        num = lambda v: is_int(v) or is_bool(v)
        if num(a) and num(b):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                if n in ('FloorDiv', 'Mod') and b == 0: self.raise_('ZeroDivisionError', '')
                if n == 'Add': return a + b
                if n == 'Sub': return a - b
                if n == 'Mult': return a * b
                if n == 'FloorDiv': return a // b
                if n == 'Mod': return a % b
                if n == 'BitAnd': return a & b
                if n == 'BitOr': return a | b
                if n == 'Pow' and b >= 0: return a ** b
                raise Unsupported('operator ' + n)
            if n in ('BitAnd', 'BitOr', 'BitXor') and is_bool(a) and is_bool(b):
                x, y = zb(a), zb(b)
                return mkB({'BitAnd': z3.And(x, y), 'BitOr': z3.Or(x, y), 'BitXor': z3.Xor(x, y)}[n])
            x, y = zi(a), zi(b)
            if n == 'Add': return mkI(x + y)
            if n == 'Sub': return mkI(x - y)
            if n == 'Mult': return mkI(x * y)
            if n in ('FloorDiv', 'Mod'):
                if self.m.choose(simp(y == 0)): self.raise_('ZeroDivisionError', '')
                if self.m.choose(simp(y > 0)): return mkI(x / y) if n == 'FloorDiv' else mkI(x % y)
                q = (-x) / (-y)
                return mkI(q) if n == 'FloorDiv' else mkI(x - q * y)
            raise Unsupported('operator ' + n)
        if n == 'Add':
            if is_str(a) and is_str(b): return self.s_cat(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if self.kind(a) == 'list' and self.kind(b) == 'list':
                return self.m.new_list(LV(self.as_lv(a).parts + self.as_lv(b).parts))
            if is_str(a) or is_str(b) or self.kind(a) != self.kind(b): self.raise_('TypeError', 'unsupported operand types for +')
        if n == 'Mult':
            if num(a) and not num(b): a, b = b, a
            if num(b):
                if is_str(a):
                    if isinstance(b, (int, bool)): return mkR(list(rparts(a)) * max(0, int(b))) if not isinstance(a, str) else a * b
                    if a == '': return ''
                    return mkR([Rep(a, zi(b))])
                if self.kind(a) in ('list', 'tuple'):
                    lv = self.as_lv(a)
                    if isinstance(b, int):
                        r = LV(lv.parts * max(0, b))
                        if isinstance(a, tuple): return a * b
                        return self.m.new_list(r)
                    if len(lv.parts) == 1 and isinstance(lv.parts[0], It) and z3.is_true(lv.parts[0].guard):
                        v = z3.Int(self.m.fname('i'))
                        return self.m.new_list(LV([Sg(I(0), simp(z3.If(zi(b) > 0, zi(b), 0)), v, lv.parts[0].val)]))
                    raise Unsupported('list repetition')
            self.raise_('TypeError', "can't multiply")
        if n == 'Mod' and is_str(a):
            if self.kind(b) == 'dict' and isinstance(a, str):
                c = self.content(b)
                if len(c.layers) == 1 and c.layers[0][0] == 'c' and all(isinstance(x, (str, int)) for kv in c.layers[0][1].items() for x in kv): return a % dict(c.layers[0][1])
            args = b if isinstance(b, tuple) else (b,)
            return self.percent(a, list(args))
        if n == 'BitOr' and self.kind(a) == self.kind(b) == 'dict':
            r = self.m.alloc(self.content(a)); self.d_update(r, b); return r
        if a is None or b is None: self.raise_('TypeError', 'unsupported operand types')
        raise Unsupported('operator %s on %r and %r' % (n, a, b))

    def percent(self, t, args):
        if not isinstance(t, str): raise Unsupported('% formatting')
        out, i, k = [], 0, 0
        while i < len(t):
            if t[i] == '%':
                c = t[i + 1]
                if c == '%': out.append('%')
                elif c in 'sd':
                    if k >= len(args): self.raise_('TypeError', 'not enough arguments for format string')
                    out.extend(rparts(self.str_of(args[k]))); k += 1
                elif c == 'r': out.append('?'); k += 1
                else: raise Unsupported('% formatting')
                i += 2
            else: out.append(t[i]); i += 1
        if k < len(args): self.raise_('TypeError', 'not all arguments converted during string formatting')
        return mkR(out)

    # --- classes and attributes ----------------------------------------------------------
    def class_lookup(self, cls, name, after=None):
        mro = cls.mro if isinstance(cls, Class) else [cls]
        if after is not None: mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, Class):
                if name in c.ns: return c.ns[name]
            elif isinstance(c, Ext):
                f = prims.EXT_METHODS.get(c.name, {}).get(name)
                if f is not None: return Prim(c.name + '.' + name, f)
        f = prims.OBJECT_METHODS.get(name)
        return Prim('object.' + name, f) if f is not None else None

    def bind(self, f, obj, cls):
        f = self.force(f)
        if isinstance(f, (Func, Prim)): return Bound(f, obj)
        if isinstance(f, Prop): return self.call(f.fget, [obj], {})
        if isinstance(f, StaticM): return f.fn
        if isinstance(f, ClassM): return Bound(f.fn, cls)
        return f

    MISSING = object()

    def getattr_(self, v, name, default=MISSING):
        """attribute access; raises PyExc(AttributeError) unless a default is given"""
        v = self.force(v)
        try:
            return self.getattr1(v, name)
        except PyExc as x:
            if default is not self.MISSING and self.exc_is(x.val, Ext('builtins.AttributeError')): return default
            raise

    def noattr(self, v, name): self.raise_('AttributeError', name)

    def getattr1(self, v, name):
        m = self.m
        if isinstance(v, Module):
            if name in v.ns: return v.ns[name]
            sub = v.name + '.' + name
            if sub in self.modules: return self.modules[sub]
            self.noattr(v, name)
        if isinstance(v, Ext): 
            r = prims.ext_attr(self, v, name)
            return r
        if isinstance(v, Ref):
            c = m.cell(v)
            if isinstance(c, OCell):
                cls = c.cls
                ga = self.class_lookup(cls, '__getattribute__')
                if isinstance(ga, Func) and ga not in self.in_getattribute:
                    return self.call(ga, [v, name], {})
                return self.obj_getattr(v, name)
            if isinstance(c, DCell):
                if c.cls is not None: return self.obj_getattr(v, name)
                return self.prim_method(v, 'dict', name)
            return self.prim_method(v, 'list', name)
        if isinstance(v, Frozen):
            if v.cls == 'list': return self.prim_method(v, 'list', name)
            if v.cls == 'dict':
                if v.fields.cls is not None: return self.obj_getattr(v, name)
                return self.prim_method(v, 'dict', name)
            return self.obj_getattr(v, name)
        if isinstance(v, SField): return self.prim_method(v, 'list', name)
        if isinstance(v, LV): return self.prim_method(v, 'iter', name)
        if is_str(v): return self.prim_method(v, 'str', name)
        if isinstance(v, tuple): return self.prim_method(v, 'tuple', name)
        if isinstance(v, Sym): return v.schema.get(self, v, name)
        if isinstance(v, SuperV): return self.super_attr(v, name)
        if isinstance(v, Class):
            if name == '__name__': return v.name
            if name == '__mro__': return prims.getmro(self, v)
            if name == 'mro' and self.class_lookup(v, 'mro') is None: return Prim('mro', lambda it, a, k: self.m.new_list(self.as_lv(prims.getmro(self, v))))
            if name == '__dict__': return Frozen('dict', DCell([('c', dict(v.ns))]))
            f = self.class_lookup(v, name)
            if f is None: self.noattr(v, name)
            if isinstance(f, StaticM): return f.fn
            if isinstance(f, ClassM): return Bound(f.fn, v)
            return f
        if isinstance(v, ExcV):
            if name == 'args': return tuple(v.args)
            self.noattr(v, name)
        if isinstance(v, (Func, Bound)) and name in ('__name__',): return (v if isinstance(v, Func) else v.fn).name
        if v is None or is_int(v) or is_bool(v):
            self.noattr(v, name)
        if isinstance(v, Func): self.noattr(v, name)
        if isinstance(v, Prim) and v.name == 'dict' and name == 'fromkeys':
            def fromkeys(it, a, k):
                r = m.new_dict()
                for p in it.as_lv(a[0]).parts:
                    if not (isinstance(p, It) and z3.is_true(p.guard)): raise Unsupported('dict.fromkeys')
                    it.d_set(r, p.val, a[1] if len(a) > 1 else None)
                return r
            return Prim('dict.fromkeys', fromkeys)
        if isinstance(v, Prim) and v.name == 'str' and not name.startswith('_') and hasattr(str, name):
            def method(it, a, k):
                s = it.force(a[0])
                if not is_str(s): raise Unsupported('str.%s of %r' % (name, s))
                return it.call(it.getattr_(s, name), list(a[1:]), k)
            return Prim('str.' + name, method)
        raise Unsupported('attribute %s of %r' % (name, v))

    in_getattribute = ()

    def prim_method(self, v, kind, name):
        f = prims.METHODS[kind].get(name)
        if f is None:
            if hasattr(getattr(_bi, kind, object), name): raise Unsupported('%s.%s' % (kind, name))
            self.noattr(v, name)
        return Bound(Prim('%s.%s' % (kind, name), f), v)

    def obj_getattr(self, v, name):
        """default attribute lookup"""
        c = self.content(v)
        cls = c.cls
        fields = c.fields
        if isinstance(name, R):
            # precondition of the contract: no class attribute has this name
            for k, x in fields.items():
                if self.m.choose(self.py_eq(k, name)): return x
            g = self.class_lookup(cls, '__getattr__')
            if isinstance(g, Func): return self.call(g, [v, name], {})
            self.noattr(v, name)
        if name == '__class__': return cls
        f = self.class_lookup(cls, name)
        if isinstance(f, Prop): return self.call(f.fget, [v], {})
        if name in fields:
            x = fields[name]
            if isinstance(x, Poison): raise ReadCarried(x.loc)
            return x
        if name == '__dict__': raise Unsupported('__dict__')
        if f is not None: return self.bind(f, v, cls)
        if isinstance(c, DCell) and name in prims.METHODS['dict']:
            return Bound(Prim('dict.' + name, prims.METHODS['dict'][name]), v)
        if isinstance(c, DCell) and hasattr(dict, name): raise Unsupported('dict.' + name)
        g = self.class_lookup(cls, '__getattr__')
        if isinstance(g, Func): return self.call(g, [v, name], {})
        if any(isinstance(b, Ext) and b.name not in prims.KNOWN_BASES for b in cls.mro):
            raise Unsupported('attribute %s, possibly of an external base class' % name)
        self.noattr(v, name)

    def super_attr(self, s, name):
        obj = self.force(s.obj)
        if isinstance(obj, Class):                       # in __new__ or a class method
            cls = obj
            meta = getattr(cls, 'meta', None)
        else:
            c = self.content(obj); cls = c.cls
        base = cls if isinstance(cls, Class) and s.cls in cls.mro else None
        if base is None: 
            if isinstance(obj, Class) and s.cls.mro and any(isinstance(b, Ext) and b.name == 'builtins.type' for b in s.cls.mro):
                f = prims.TYPE_METHODS.get(name)
                return Prim('type.' + name, f)
            raise Unsupported('super()')
        f = self.class_lookup(base, name, after=s.cls)
        if f is None:
            if not isinstance(obj, Class) and isinstance(self.content(obj), DCell) and name in prims.METHODS['dict']:
                return Bound(Prim('dict.' + name, prims.METHODS['dict'][name]), obj)
            self.noattr(s, name)
        if name == '__new__': return f
        if isinstance(f, (Func, Prim)): return Bound(f, obj)
        return self.bind(f, obj, cls)

    def setattr_(self, v, name, x):
        v = self.force(v)
        m = self.m
        if isinstance(v, Ref):
            c = m.cell(v)
            if isinstance(c, LCell): self.noattr(v, name)
            if c.cls is None: self.noattr(v, name)
            sa = self.class_lookup(c.cls, '__setattr__')
            if isinstance(sa, Func): self.call(sa, [v, name, x], {}); return
            f = self.class_lookup(c.cls, name) if isinstance(name, str) else None
            if isinstance(f, Prop):
                if f.fset is None: self.noattr(v, name)
                self.call(f.fset, [v, x], {}); return
            self.obj_setattr(v, name, x)
            return
        if isinstance(v, Class):
            m.heap[('cls', v.qual)] = m.heap.get(('cls', v.qual), ()) + ((name, x),)
            m.fail('frame', 'modifies class %s' % v.name); raise Infeasible()
        if isinstance(v, Sym):
            v.schema.set(self, v, name, x); return
        if isinstance(v, Frozen):
            m.fail('frame', 'sets attribute %s of an object that must not change: %r' % (name, v)); raise Infeasible()
        if isinstance(v, Module):
            m.fail('frame', 'sets the global %s.%s' % (v.name, name)); raise Infeasible()
        self.noattr(v, name)

    def obj_setattr(self, v, name, x):
        c = self.m.cell(v)
        f = dict(c.fields); f[name] = x
        self.m.heap[v.id] = OCell(c.cls, f) if isinstance(c, OCell) else DCell(c.layers, c.cls, f)

    def isinstance_(self, v, cls):
        v, cls = self.force(v), self.force(cls)
        if isinstance(cls, tuple):
            r = False
            for c in cls:
                x = self.isinstance_(v, c)
                if x is True: return True
                if isinstance(x, SB): r = x if r is False else mkB(z3.Or(r.e, x.e))
            return r
        if isinstance(cls, Prim) and cls.name in prims.TYPES:
            k = self.kind(v)
            t = cls.name
            if isinstance(v, Sym): 
                r = v.schema.isinstance(self, v, cls)
                if r is None: raise Unsupported('isinstance')
                return r
            if t == 'int': return k in ('int', 'bool')
            if t == 'object': return True
            if t == 'type': return k == 'class'
            return k == t
        if isinstance(v, Sym):
            r = v.schema.isinstance(self, v, cls)
            if r is None: raise Unsupported('isinstance')
            return r
        if isinstance(v, ExcV): return self.exc_is(v, cls)
        if isinstance(v, (Ref, Frozen)):
            c = self.content(v)
            if isinstance(c, LCell): return False
            if c.cls is None: return False
            return cls in c.cls.mro
        if isinstance(cls, (Class, Ext)): return False
        raise Unsupported('isinstance')

    def exc_is(self, exc, cls):
        cls = self.force(cls)
        if isinstance(cls, tuple): return any(self.exc_is(exc, c) for c in cls)
        ec = exc.cls
        if isinstance(ec, Class): return cls in ec.mro or any(isinstance(b, Ext) and self.ext_sub(b, cls) for b in ec.mro)
        return self.ext_sub(ec, cls)

    def ext_sub(self, a, b):
        if a == b: return True
        if not isinstance(b, Ext): return False
        x, y = getattr(_bi, a.name.split('.')[-1], None), getattr(_bi, b.name.split('.')[-1], None)
        return isinstance(x, type) and isinstance(y, type) and issubclass(x, y)

    # --- calls -----------------------------------------------------------------------------
    def call(self, f, args, kwargs):
        f = self.force(f)
        if isinstance(f, Bound): return self.call(f.fn, [f.obj] + list(args), kwargs)
        if isinstance(f, Func): return self.call_func(f, list(args), kwargs)
        if isinstance(f, Prim): return f.fn(self, list(args), kwargs)
        if isinstance(f, Class): return self.instantiate(f, list(args), kwargs)
        if isinstance(f, Ext): return prims.ext_call(self, f, list(args), kwargs)
        if isinstance(f, Sym):
            return f.schema.call(self, f, list(args), kwargs)
        if isinstance(f, (Ref, Frozen)):
            c = self.content(f)
            if isinstance(c, OCell):
                g = self.class_lookup(c.cls, '__call__')
                if g is not None: return self.call(g, [f] + list(args), kwargs)
        if isinstance(f, (StaticM, ClassM)): return self.call(f.fn, args, kwargs)
        if f is None or is_str(f) or is_int(f) or isinstance(f, tuple): self.raise_('TypeError', 'object is not callable')
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kwargs):
        m = self.m
        stub = m.stubs.get('new:' + cls.qual)
        if stub is not None:
            m.stub_used.add('new:' + cls.qual)
            return stub(self, cls, args, kwargs)
        if any(isinstance(b, Ext) and b.name == 'builtins.type' for b in cls.mro): raise Unsupported('metaclass call')
        new = self.class_lookup(cls, '__new__')
        if isinstance(new, Func) or isinstance(new, Prim) and new.name == '__new__': obj = self.call(new, [cls] + args, kwargs)
        else: obj = prims.object_new(self, [cls], {})
        if isinstance(obj, Ref):
            init = self.class_lookup(cls, '__init__')
            if init is not None: self.call(init, [obj] + args, kwargs)
        return obj

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        loc = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        for k, p in enumerate(params):
            if k < len(args):
                if p in kwargs and k >= len(a.posonlyargs): self.raise_('TypeError', 'multiple values for ' + p)
                loc[p] = args[k]
            elif p in kwargs: loc[p] = kwargs.pop(p)
            else:
                d = k - (len(params) - len(f.defaults))
                if d < 0: self.raise_('TypeError', 'missing argument ' + p)
                loc[p] = f.defaults[d]
        if len(args) > len(params):
            if a.vararg is None: self.raise_('TypeError', 'too many arguments for ' + f.name)
            loc[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None: loc[a.vararg.arg] = ()
        for p in a.kwonlyargs:
            if p.arg in kwargs: loc[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults: loc[p.arg] = f.kwdefaults[p.arg]
            else: self.raise_('TypeError', 'missing argument ' + p.arg)
        extra_layers = kwargs.pop('**', None)
        if a.kwarg is not None:
            r = self.m.new_dict(kwargs)
            if extra_layers is not None: self.m.heap[r.id] = DCell(tuple(extra_layers) + ((('c', dict(kwargs)),) if kwargs else ()))
            loc[a.kwarg.arg] = r
        elif kwargs or extra_layers:
            if extra_layers: raise Unsupported('** of an arbitrary dictionary')
            self.raise_('TypeError', 'unexpected keyword argument ' + next(iter(kwargs)))
        return loc

    def call_func(self, f, args, kwargs, top=False):
        m = self.m
        key = f.qual
        if not top:
            stub = m.stubs.get(key)
            if stub is not None:
                r = stub(self, f, args, kwargs)
                if r is not NotImplemented:
                    m.stub_used.add(key)
                    return r
            if m.rec_hook is not None:
                r = m.rec_hook(self, f, args, kwargs)
                if r is not NotImplemented: return r
        if m.depth > MAXDEPTH: raise Unsupported('recursion in %s without a contract' % key)
        loc = self.bind_args(f, args, kwargs)
        fr = Frame(f.env, f.closure, f)
        fr.locals = loc
        m.executed.add(key)
        m.frames.append(fr)
        d0 = m.depth
        m.depth += 1
        old_ga = self.in_getattribute
        if f.name == '__getattribute__': self.in_getattribute = tuple(old_ga) + (f,)
        elif old_ga: self.in_getattribute = ()
        try:
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, fr)
            if f.isgen:
                fr.yields = m.new_list()
                h0 = {k: v for k, v in m.heap.items() if k != fr.yields.id}
                try: self.body(f.node.body, fr)
                except ReturnX: pass
                for k, v in h0.items():
                    if m.heap.get(k) is not v: raise Unsupported('generator with effects')
                return m.cell(fr.yields).lv
            try:
                self.body(f.node.body, fr)
            except ReturnX as r: return r.val
            return None
        finally:
            self.in_getattribute = old_ga
            m.depth = d0
            if m.frames and m.frames[-1] is fr: m.frames.pop()
            else: m.frames = [x for x in m.frames if x is not fr]

    # --- frames -----------------------------------------------------------------------------
    def name_load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison): raise ReadCarried(v.loc)
                if isinstance(v, Lazy):
                    v = v.thunk(); f.locals[name] = v
                return v
            if f.func is not None and not f.iscomp and not isinstance(f.func.node, ast.Lambda) and name in self.local_names(f.func.node):
                self.raise_('UnboundLocalError', name)
            f = f.parent
        if name in fr.module.ns: return fr.module.ns[name]
        if name in prims.BUILTINS: return prims.BUILTINS[name]
        if hasattr(_bi, name):
            x = getattr(_bi, name)
            if isinstance(x, type) and issubclass(x, BaseException): return Ext('builtins.' + name)
            raise Unsupported('builtin ' + name)
        self.raise_('NameError', name)

    _ln = {}
    def local_names(self, node):
        r = self._ln.get(node)
        if r is None:
            r = set(); gl = set()
            def go(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)): r.add(c.name); continue
                    if isinstance(c, ast.Lambda): continue
                    if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)): continue
                    if isinstance(c, (ast.Global, ast.Nonlocal)): gl.update(c.names)
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)): r.add(c.id)
                    if isinstance(c, ast.ExceptHandler) and c.name: r.add(c.name)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for a in c.names: r.add((a.asname or a.name).split('.')[0])
                    go(c)
            go(node)
            r -= gl
            self._ln[node] = r
        return r

    def store(self, name, v, fr):
        f = fr
        while f.iscomp and f.parent is not None and name not in f.locals: f = f.parent
        if name in f.globals_:
            self.m.fail('frame', 'assigns the global ' + name); raise Infeasible()
        if name in f.nonlocals:
            g = f.parent
            while g is not None and name not in g.locals: g = g.parent
            g.locals[name] = v; return
        f.locals[self.class_mangle(name, f)] = v

    # --- expressions ---------------------------------------------------------------------------
    def ev(self, e, fr):
        return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e, fr)

    def e_unknown(self, e, fr): self.unsup(e)

    def e_Constant(self, e, fr):
        if e.value is None or isinstance(e.value, (bool, int, str)): return e.value
        if e.value is Ellipsis: return None
        self.unsup(e)

    def e_Name(self, e, fr): return self.name_load(e.id, fr)

    def e_Attribute(self, e, fr): return self.getattr_(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None:
                if f.func is not None and f.func.cls is not None: return '_%s%s' % (f.func.cls.name.lstrip('_'), name)
                f = f.parent
        return name

    def e_Subscript(self, e, fr):
        v = self.force(self.ev(e.value, fr))
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo, hi, st = [self.force(self.ev(x, fr)) if x is not None else None for x in (s.lower, s.upper, s.step)]
            return self.slice_(v, lo, hi, st)
        return self.item(v, self.ev(e.slice, fr))

    def slice_(self, v, lo, hi, st):
        if is_str(v): return self.s_slice(v, lo, hi, st)
        if isinstance(v, tuple):
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)): return v[slice(lo, hi, st)]
            raise Unsupported('tuple slice')
        if isinstance(v, LV): return self.lv_slice(v, lo, hi, st)
        if isinstance(v, (Ref, SField, Frozen)) and self.kind(v) == 'list':
            return self.m.new_list(self.lv_slice(self.as_lv(v), lo, hi, st))
        self.raise_('TypeError', 'not subscriptable')

    def item(self, v, k):
        v = self.force(v)
        k = self.force(k)
        if is_str(v): return self.s_index(v, k)
        if isinstance(v, tuple):
            if isinstance(k, bool): k = int(k)
            if isinstance(k, int):
                try: return v[k]
                except IndexError: self.raise_('IndexError', 'tuple index out of range')
            return self.lv_index(self.lv(v), k)
        if isinstance(v, LV): raise Unsupported('subscript of an iterator')
        if isinstance(v, (Ref, SField, Frozen)):
            c = self.content(v)
            if isinstance(c, LCell):
                if is_bool(k): k = mkI(zi(k))
                if not is_int(k): self.raise_('TypeError', 'list indices must be integers')
                return self.lv_index(c.lv, k)
            if isinstance(c, DCell):
                f = self.class_lookup(c.cls, '__getitem__') if c.cls is not None else None
                if isinstance(f, Func): return self.call(f, [v, k], {})
                ok, x = self.d_lookup(c, k)
                if not ok:
                    f = self.class_lookup(c.cls, '__missing__') if c.cls is not None else None
                    if isinstance(f, Func): return self.call(f, [v, k], {})
                    self.raise_('KeyError', k)
                return x
            f = self.class_lookup(c.cls, '__getitem__') if isinstance(c.cls, Class) else None
            if f is not None: return self.call(f, [v, k], {})
            self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(v, Sym): return v.schema.item(self, v, k)
        if v is None or is_int(v) or is_bool(v) or isinstance(v, (Class, Func, Bound, Prim)): self.raise_('TypeError', 'object is not subscriptable')
        raise Unsupported('subscript of %r' % (v,))

    def e_BinOp(self, e, fr): return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.force(self.ev(e.operand, fr))
        if isinstance(e.op, ast.Not): return self.not_(self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, bool)): return -v
            if isinstance(v, SI): return mkI(-v.e)
            self.raise_('TypeError', 'bad operand')
        if isinstance(e.op, ast.UAdd): return v
        self.unsup(e)

    def e_BoolOp(self, e, fr):
        last = None
        for k, x in enumerate(e.values):
            last = self.ev(x, fr)
            if k == len(e.values) - 1: return last
            t = self.truth(last)
            d = self.m.choose(t)
            if isinstance(e.op, ast.And) and not d: return self.decided(last, False)
            if isinstance(e.op, ast.Or) and d: return self.decided(last, True)

    def decided(self, v, d):
        if isinstance(v, SB): return d
        return v

    def e_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        for k, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(x, fr)
            r = self.compare(op, a, b)
            if k == len(e.ops) - 1: return r
            if not self.m.choose(self.truth(r)): return False
            a = b

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.m.choose(self.truth(self.ev(e.test, fr))) else e.orelse, fr)

    def seq_parts(self, elts, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred): parts.extend(self.as_lv(self.ev(x.value, fr)).parts)
            else: parts.append(It(self.ev(x, fr)))
        return parts

    def e_List(self, e, fr): return self.m.new_list(LV(self.seq_parts(e.elts, fr)))

    def e_Tuple(self, e, fr):
        ps = self.seq_parts(e.elts, fr)
        if not all(isinstance(p, It) and z3.is_true(p.guard) for p in ps): self.unsup(e, 'tuple of unknown length')
        return tuple(p.val for p in ps)

    def e_Set(self, e, fr): return tuple(p.val for p in self.seq_parts(e.elts, fr))      # only membership is used

    def e_Dict(self, e, fr):
        r = self.m.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None: self.d_update(r, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.d_set(r, kk, self.ev(v, fr))
        return r

    def e_Lambda(self, e, fr):
        return Func(node=e, name='<lambda>', env=fr.module, closure=fr, cls=self.cur_cls(fr), defaults=[self.ev(d, fr) for d in e.args.defaults], kwdefaults={}, qual='<lambda>:%d' % e.lineno, isgen=False)

    def cur_cls(self, fr):
        while fr is not None:
            if fr.func is not None and fr.func.cls is not None: return fr.func.cls
            fr = fr.parent
        return None

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ''
                if spec or v.conversion not in (-1, 115):
                    x = self.force(x)
                    if isinstance(x, (str, int)) and isinstance(spec, str): x = ('{' + ('!r' if v.conversion == 114 else '') + ':' + spec + '}').format(x)
                    else: self.unsup(e, 'format spec')
                out.extend(rparts(self.str_of(x)))
        return mkR(out)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store(e.target.id, v, fr)
        return v

    def e_Call(self, e, fr):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if e.args: return SuperV(self.ev(e.args[0], fr), self.ev(e.args[1], fr))
            f = fr
            while f.func is None or f.iscomp: f = f.parent
            a = f.func.node.args
            first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
            return SuperV(self.cur_cls(f), f.locals[first])
        if isinstance(e.func, ast.Name) and e.func.id == 'locals' and not e.args:
            f = fr
            while f.iscomp: f = f.parent
            return self.m.new_dict(dict(f.locals))
        fn = self.force(self.ev(e.func, fr))
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                lv = self.as_lv(self.ev(a.value, fr))
                for p in lv.parts:
                    if not (isinstance(p, It) and z3.is_true(p.guard)): self.unsup(e, '* of unknown length')
                    args.append(p.val)
            else: args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is not None:
                if k.arg in kwargs: self.raise_('TypeError', 'multiple values for keyword')
                kwargs[k.arg] = v
            else:
                c = self.content(self.force(v))
                if not isinstance(c, DCell): self.unsup(e, '**')
                if all(l[0] == 'c' and not isinstance(l[1], SymKeyDict) for l in c.layers):
                    d = {}
                    for l in c.layers: d.update(l[1])
                    d = {x: y for x, y in d.items() if not isinstance(y, prims.Deleted)}
                    if set(d) & set(kwargs): self.raise_('TypeError', 'multiple values for keyword')
                    kwargs.update(d)
                else: kwargs['**'] = tuple(kwargs.get('**', ())) + c.layers
        return self.call(fn, args, kwargs)

    # comprehensions
    def comp(self, e, fr, elt):
        """LV of elt over the generators"""
        def gen(k, cf):
            if k == len(e.generators):
                return ('one', elt(cf))
            g = e.generators[k]
            src = self.as_lv(self.ev(g.iter, cf))
            def each(v):
                c2 = Frame(cf.module, cf, cf.func); c2.iscomp = True
                self.m.frames.append(c2)
                try:
                    self.assign(g.target, v, c2, new=True)
                    for i in g.ifs:
                        if not self.m.choose(self.truth(self.ev(i, c2))): return None
                    return gen(k + 1, c2)
                finally:
                    if self.m.frames and self.m.frames[-1] is c2: self.m.frames.pop()
            return ('many', self.lv_map(src, each))
        c1 = Frame(fr.module, fr, fr.func); c1.iscomp = True
        self.m.frames.append(c1)
        try: r = gen(0, c1)
        finally:
            if self.m.frames and self.m.frames[-1] is c1: self.m.frames.pop()
        return r[1]

    def e_ListComp(self, e, fr): return self.m.new_list(self.comp(e, fr, lambda f: self.ev(e.elt, f)))
    def e_GeneratorExp(self, e, fr): return self.comp(e, fr, lambda f: self.ev(e.elt, f))
    def e_SetComp(self, e, fr):
        lv = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        return lv
    def e_DictComp(self, e, fr):
        lv = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        r = self.m.new_dict()
        for p in lv.parts:
            if isinstance(p, It) and z3.is_true(p.guard): self.d_set(r, p.val[0], p.val[1])
            else: self.unsup(e, 'dictionary over an unknown range')
        return r

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        f = fr
        while f.yields is None: f = f.parent
        c = self.m.cell(f.yields)
        self.m.heap[f.yields.id] = LCell(LV(c.lv.parts + (It(v),)))
        return None

    def e_YieldFrom(self, e, fr):
        lv = self.as_lv(self.ev(e.value, fr))
        f = fr
        while f.yields is None: f = f.parent
        c = self.m.cell(f.yields)
        self.m.heap[f.yields.id] = LCell(LV(c.lv.parts + lv.parts))
        return None

    # --- statements -----------------------------------------------------------------------------
    def body(self, stmts, fr):
        for s in stmts: self.ex(s, fr)

    def ex(self, s, fr):
        return getattr(self, 's_' + type(s).__name__, self.e_unknown)(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr): pass
    def s_Return(self, s, fr): raise ReturnX(self.ev(s.value, fr) if s.value is not None else None)
    def s_Break(self, s, fr): raise BreakX()
    def s_Continue(self, s, fr): raise ContinueX()
    def s_Global(self, s, fr): fr.globals_ = tuple(fr.globals_) + tuple(s.names)
    def s_Nonlocal(self, s, fr): fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr, new=False):
        if isinstance(t, ast.Name):
            if new: fr.locals[t.id] = v
            else: self.store(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            lv = self.as_lv(v)
            ps = lv.parts
            stars = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                k = stars[0]; after = len(t.elts) - k - 1
                for j in range(k): self.assign(t.elts[j], self.lv_index(lv, j), fr, new)
                mid = self.lv_slice(lv, k, -after if after else None, None)
                self.assign(t.elts[k].value, self.m.new_list(mid), fr, new)
                for j in range(after): self.assign(t.elts[k + 1 + j], self.lv_index(lv, j - after), fr, new)
                return
            if all(isinstance(p, It) and z3.is_true(p.guard) for p in ps):
                if len(ps) != len(t.elts): self.raise_('ValueError', 'unpacking')
                for x, p in zip(t.elts, ps): self.assign(x, p.val, fr, new)
            else:
                if not self.m.choose(simp(self.lv_len(lv) == len(t.elts))): self.raise_('ValueError', 'unpacking')
                for k, x in enumerate(t.elts): self.assign(x, self.lv_index(lv, k), fr, new)
        elif isinstance(t, ast.Attribute): self.setattr_(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript): self.set_sub(t, v, fr)
        else: self.unsup(t)

    def lset(self, ref, lv):
        ref = self.force(ref)
        if isinstance(ref, SField): self.sfield_set(ref, lv); return
        self.mut_cell(ref)
        self.m.heap[ref.id] = LCell(lv)

    def set_sub(self, t, v, fr):
        o = self.force(self.ev(t.value, fr))
        if isinstance(t.slice, ast.Slice):
            if self.kind(o) != 'list': self.unsup(t)
            lo, hi = [self.force(self.ev(x, fr)) if x is not None else None for x in (t.slice.lower, t.slice.upper)]
            lv = self.as_lv(o)
            a = self.slice_bound(lv, lo, lambda n: I(0)); b = self.slice_bound(lv, hi, lambda n: n)
            if not self.m.choose(simp(a <= b)): b = a
            head, _ = self.take(lv, a); _, tail = self.take(lv, b)
            self.lset(o, LV(head.parts + self.as_lv(v).parts + tail.parts)); return
        k = self.force(self.ev(t.slice, fr))
        self.setitem(o, k, v)

    def setitem(self, o, k, v):
        if isinstance(o, (Ref, SField, Frozen)):
            c = self.content(o)
            if isinstance(c, DCell):
                f = self.class_lookup(c.cls, '__setitem__') if c.cls is not None else None
                if isinstance(f, Func): self.call(f, [o, k, v], {}); return
                self.d_set(o, k, v); return
            if isinstance(c, LCell):
                idx = self.norm_index(c.lv, k)
                head, rest = self.take(c.lv, idx); _, tail = self.take(rest, I(1))
                self.lset(o, LV(head.parts + (It(v),) + tail.parts)); return
            f = self.class_lookup(c.cls, '__setitem__')
            if f is not None: self.call(f, [o, k, v], {}); return
        if isinstance(o, Sym):
            o.schema.setitem(self, o, k, v); return
        self.raise_('TypeError', 'does not support item assignment')

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.force(self.name_load(t.id, fr))
            r = self.augop(s.op, old, self.ev(s.value, fr))
            self.store(t.id, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            n = self.mangle(t.attr, fr)
            old = self.force(self.getattr_(o, n))
            self.setattr_(o, n, self.augop(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            o = self.force(self.ev(t.value, fr)); k = self.ev(t.slice, fr)
            self.setitem(o, self.force(k), self.augop(s.op, self.force(self.item(o, k)), self.ev(s.value, fr)))
        else: self.unsup(s)

    def augop(self, op, old, v):
        if isinstance(op, ast.Add) and self.kind(old) == 'list':
            self.lset(old, LV(self.as_lv(old).parts + self.as_lv(v).parts)); return old
        if isinstance(op, ast.BitOr) and self.kind(old) == 'dict':
            self.d_update(old, v); return old
        return self.binop(op, old, v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): del fr.locals[t.id]
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value, fr))
                self.delattr_(o, self.mangle(t.attr, fr))
            elif isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, fr))
                if isinstance(t.slice, ast.Slice):
                    lo, hi = [self.force(self.ev(x, fr)) if x is not None else None for x in (t.slice.lower, t.slice.upper)]
                    lv = self.as_lv(o)
                    a = self.slice_bound(lv, lo, lambda n: I(0)); b = self.slice_bound(lv, hi, lambda n: n)
                    if not self.m.choose(simp(a <= b)): b = a
                    head, _ = self.take(lv, a); _, tail = self.take(lv, b)
                    self.lset(o, LV(head.parts + tail.parts)); continue
                self.delitem(o, self.force(self.ev(t.slice, fr)))
            else: self.unsup(s)

    def delattr_(self, o, name):
        if isinstance(o, Ref):
            c = self.m.cell(o)
            if not isinstance(c, LCell) and c.cls is not None:
                f = self.class_lookup(c.cls, '__delattr__')
                if isinstance(f, Func): self.call(f, [o, name], {}); return
                self.obj_delattr(o, name); return
        raise Unsupported('del of attribute of %r' % (o,))

    def obj_delattr(self, o, name):
        c = self.m.cell(o)
        if isinstance(name, R):
            for k in c.fields:
                if self.m.choose(self.py_eq(k, name)): name = k; break
        if name not in c.fields: self.noattr(o, name)
        f = dict(c.fields); del f[name]
        self.m.heap[o.id] = OCell(c.cls, f) if isinstance(c, OCell) else DCell(c.layers, c.cls, f)

    def delitem(self, o, k):
        if isinstance(o, (Ref, SField)):
            c = self.content(o)
            if isinstance(c, LCell):
                idx = self.norm_index(c.lv, k, 'list assignment index out of range')
                head, rest = self.take(c.lv, idx); _, tail = self.take(rest, I(1))
                self.lset(o, LV(head.parts + tail.parts)); return
            if isinstance(c, DCell):
                f = self.class_lookup(c.cls, '__delitem__') if c.cls is not None else None
                if isinstance(f, Func): self.call(f, [o, k], {}); return
                ok, _ = self.d_lookup(c, k)
                if not ok: self.raise_('KeyError', k)
                k = self.dkey(k)
                if not (k is None or isinstance(k, (str, int, bool, Ext))):
                    self.m.heap[o.id] = DCell(c.layers + (('c', SymKeyDict([(k, prims.Deleted())])),), c.cls, c.fields); return
                if all(l[0] == 'c' and not isinstance(l[1], SymKeyDict) for l in c.layers):
                    ls = [('c', {x: y for x, y in l[1].items() if x != k}) for l in c.layers]
                    self.m.heap[o.id] = DCell(ls, c.cls, c.fields)
                else:
                    self.m.heap[o.id] = DCell(c.layers + (('c', {k: prims.Deleted()}),), c.cls, c.fields)
                return
        raise Unsupported('del of item of %r' % (o,))

    def s_If(self, s, fr):
        t = self.truth(self.ev(s.test, fr))
        if isinstance(t, SB) and not s.orelse and self.try_merge_if(t, s.body, fr): return
        if self.m.choose(t): self.body(s.body, fr)
        else: self.body(s.orelse, fr)

    def s_For(self, s, fr):
        lv = self.as_lv(self.ev(s.iter, fr))
        def step(v):
            self.assign(s.target, v, fr)
            self.body(s.body, fr)
        try:
            self.run_for(lv, step, s)
        except BreakX: return
        self.body(s.orelse, fr)

    def s_While(self, s, fr):
        for h in self.m.loop_rules:
            rule = h(self, s, fr)
            if rule is not None: return self.by_invariant(s, fr, rule)
        def cond(): return self.m.choose(self.truth(self.ev(s.test, fr)))
        try:
            self.run_while(cond, lambda: self.body(s.body, fr), s)
        except BreakX: return
        self.body(s.orelse, fr)

    def carried(self, stmts):
        """the variables that these statements set otherwise than in a branch that leaves the loop"""
        out = set()
        for x in stmts:
            if isinstance(x, ast.If):
                for b in (x.body, x.orelse):
                    if not (b and isinstance(b[-1], (ast.Break, ast.Return, ast.Raise))): out |= self.carried(b)
            else: out |= {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        return out

    def by_invariant(self, s, fr, rule):
        """A while loop by the invariant that the contract gives: it holds before the loop, every iteration that starts
        from an arbitrary state in which it holds keeps it, and what follows starts from such a state or from where an
        iteration leaves.  rule.havoc makes the arbitrary state and names what it set: the variables and the heap cells."""
        m = self.m
        rule.check(True)
        names, cells = rule.havoc()
        assigned = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        kept = {n: fr.locals[n] for n in assigned - set(names) - self.carried(s.body) if n in fr.locals}      # only set where the loop is left
        for n in assigned - set(names) - set(kept): fr.locals[n] = Poison(('l', fr, n))
        snap = m.snapshot()
        if not m.choose(self.truth(self.ev(s.test, fr))):
            self.body(s.orelse, fr)
            return
        try: self.body(s.body, fr)
        except ContinueX: pass
        except BreakX: return
        for l in self.diff(snap, m.snapshot()):
            if l[0] == 'l' and l[1] is fr and l[2] in assigned - set(kept) or l[0] == 'h' and l[1] in cells: continue
            raise Unsupported('loop: changes %s' % (l,))
        rule.check(False)
        raise Infeasible()

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyExc(self.current_exc[-1])
        v = self.force(self.ev(s.exc, fr))
        if isinstance(v, Ext): v = ExcV(v)
        elif isinstance(v, Class): v = ExcV(v)
        elif isinstance(v, Ref): v = ExcV(self.m.cell(v).cls)
        raise PyExc(v)

    current_exc = ()

    def s_Try(self, s, fr):
        try:
            try:
                self.body(s.body, fr)
            except PyExc as x:
                for h in s.handlers:
                    if h.type is None or self.exc_is(x.val, self.ev(h.type, fr)):
                        if h.name: fr.locals[h.name] = x.val
                        old = self.current_exc
                        self.current_exc = tuple(old) + (x.val,)
                        try: self.body(h.body, fr)
                        finally: self.current_exc = old
                        break
                else: raise
            else: self.body(s.orelse, fr)
        except (PyExc, ReturnX, BreakX, ContinueX):
            self.body(s.finalbody, fr)
            raise
        else: self.body(s.finalbody, fr)

    def s_Assert(self, s, fr):
        if not self.m.choose(self.truth(self.ev(s.test, fr))): self.raise_('AssertionError')

    def s_FunctionDef(self, s, fr):
        cls = getattr(fr, 'globals_', None) and None
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            f = self.call(dv, [f], {})
        fr.locals[self.class_mangle(s.name, fr)] = f

    def class_mangle(self, name, fr):
        """private names in a class body"""
        if name.startswith('__') and not name.endswith('__') and self.class_frames and fr is self.class_frames[-1]:
            return '_%s%s' % (self.class_stack[-1].lstrip('_'), name)
        return name

    def make_func(self, s, fr):
        outer = fr.func.qual.partition(':')[2] + '.<locals>.' if fr.func is not None else ''
        cn = self.class_stack[-1] + '.' if self.class_stack and fr is self.class_frames[-1] else ''
        q = '%s:%s%s%s' % (fr.module.name, outer, cn, s.name)
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(s))
        closure = fr if (fr.func is not None) else (None if fr is not None and not fr.iscomp else fr)
        if self.class_frames and fr is self.class_frames[-1]: closure = fr.parent
        return Func(node=s, name=s.name, env=fr.module, closure=closure, cls=None,
                    defaults=[self.ev(d, fr) for d in s.args.defaults],
                    kwdefaults={p.arg: self.ev(d, fr) for p, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}, qual=q, isgen=isgen)

    class_stack = ()
    class_frames = ()

    def s_ClassDef(self, s, fr):
        bases, meta = [], None
        for b in s.bases: bases.append(self.ev(b, fr))
        for k in s.keywords:
            if k.arg == 'metaclass': meta = self.ev(k.value, fr)
        cf = Frame(fr.module, fr if fr.func is not None else None)
        old = self.class_stack, self.class_frames
        self.class_stack = tuple(old[0]) + (s.name,)
        self.class_frames = tuple(old[1]) + (cf,)
        self.m.frames.append(cf)
        try: self.body(s.body, cf)
        finally:
            self.class_stack, self.class_frames = old
            self.m.frames.pop()
        ns = dict(cf.locals)
        bases = [b for b in (self.norm_base(b) for b in bases)]
        if meta is None:
            for b in bases:
                if isinstance(b, Class) and getattr(b, 'meta', None) is not None: meta = b.meta; break
        cls = None
        if meta is not None and isinstance(meta, Class) and isinstance(self.class_lookup(meta, '__new__'), Func):
            nsr = self.m.new_dict(ns)
            cls = self.call(self.class_lookup(meta, '__new__'), [meta, s.name, tuple(bases), nsr], {})
            if not isinstance(cls, Class): raise Unsupported('metaclass')
        else: cls = Class(s.name, bases, ns, fr.module)
        cls.meta = meta
        cls.module = fr.module
        cls.qual = '%s:%s' % (fr.module.name, s.name)
        for v in cls.ns.values(): self.own(v, cls)
        for d in reversed(s.decorator_list): cls = self.call(self.ev(d, fr), [cls], {})
        fr.locals[s.name] = cls

    def own(self, v, cls):
        if isinstance(v, Func) and v.cls is None: v.cls = cls
        elif isinstance(v, (StaticM, ClassM)): self.own(v.fn, cls)
        elif isinstance(v, Prop):
            if v.fget is not None: self.own(v.fget, cls)
            if v.fset is not None: self.own(v.fset, cls)

    def norm_base(self, b):
        b = self.force(b)
        if isinstance(b, Prim): return Ext('builtins.' + b.name)
        if isinstance(b, (Class, Ext)): return b
        raise Unsupported('base class %r' % (b,))

    def s_Import(self, s, fr):
        for a in s.names:
            n = a.name
            fr.locals[(a.asname or n.split('.')[0])] = self.import_(n if a.asname else n.split('.')[0])

    def import_(self, n):
        if n.split('.')[0] == 'gopher_render': return self.load(n)
        if n in self.modules: return self.modules[n]
        return Ext(n)

    def s_ImportFrom(self, s, fr):
        if s.level:
            base = fr.module.name.split('.')[:-s.level]
            mod = '.'.join(base + ([s.module] if s.module else []))
        else: mod = s.module
        own = mod.split('.')[0] == 'gopher_render'
        for a in s.names:
            if own:
                sub = mod + '.' + a.name
                if os.path.exists(os.path.join(self.root, *sub.split('.')) + '.py'): v = self.load(sub)
                else:
                    md = self.load(mod)
                    if a.name not in md.ns: self.raise_('ImportError', a.name)
                    v = md.ns[a.name]
            elif mod in self.modules: v = self.modules[mod].ns[a.name]
            else: v = prims.import_ext(self, mod, a.name)
            fr.locals[a.asname or a.name] = v

    # --- summaries ------------------------------------------------------------------------------
    def summ(self, thunk):
        """Value of an effect-free computation over all its paths, as one value (no decision on the outer path)."""
        m = self.m
        h0 = dict(m.heap)
        rs = m.explore(thunk)
        if not rs: raise Infeasible()
        for p in rs:
            for k, v in h0.items():
                if p.snap[0].get(k) is not v and not same(p.snap[0].get(k), v): raise Unsupported('effects in an expression over a range')
        if any(p.kind != 'val' for p in rs):
            if len(rs) == 1: 
                if rs[0].kind == 'raise': raise PyExc(rs[0].val)
            raise SummRaise(rs)
        for p in rs:
            if p.facts: self.lift_facts(p)
        if len(rs) == 1: return self.freeze(rs[0].val, rs[0].snap[0], h0)
        return mkCh([(p.cond, self.freeze(p.val, p.snap[0], h0)) for p in rs])

    def lift_facts(self, p):
        """Facts established on a path hold under its decisions."""
        f = z3.And(p.facts)
        if p.dec: f = z3.Implies(p.cond, f)
        self.m.assume(f)

    def freeze(self, v, heap, h0):
        """Copy what was allocated on the explored path into an immutable value."""
        if isinstance(v, Ref):
            if v.id in h0: return v
            c = heap[v.id]
            if isinstance(c, LCell): return Frozen('list', LV([self.freeze_part(p, heap, h0) for p in c.lv.parts]))
            if isinstance(c, DCell):
                return Frozen('dict', DCell([('c', mapitems(l[1], lambda x: self.freeze(x, heap, h0))) if l[0] == 'c' else l for l in c.layers], c.cls, c.fields))
            return Frozen(c.cls, {k: self.freeze(x, heap, h0) for k, x in c.fields.items()})
        if isinstance(v, tuple): return tuple(self.freeze(x, heap, h0) for x in v)
        if isinstance(v, Ch): return Ch([(c, self.freeze(x, heap, h0)) for c, x in v.alts])
        if isinstance(v, LV): return LV([self.freeze_part(p, heap, h0) for p in v.parts])
        if isinstance(v, Bound): return Bound(v.fn, self.freeze(v.obj, heap, h0))
        return v

    def freeze_part(self, p, heap, h0):
        if isinstance(p, It): return It(self.freeze(p.val, heap, h0), p.guard)
        if isinstance(p, Sg): return Sg(p.lo, p.hi, p.var, self.freeze(p.elem, heap, h0), p.guard, p.flat)
        return p

    # --- proving --------------------------------------------------------------------------------
    def eq_val(self, a, b):
        """True if a and b are provably the same value (lists and dicts by content), else a reason."""
        a, b = self.force(a), self.force(b)
        if same(a, b): return True
        if is_str(a) and is_str(b): return self.eq_rope(a, b)
        if (is_int(a) and is_int(b)) or (is_bool(a) and is_bool(b)):
            if self.m.valid((zi(a) == zi(b)) if is_int(a) else (zb(a) == zb(b))): return True
            return 'values differ: %r / %r' % (a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return 'tuples of different length'
            for x, y in zip(a, b):
                r = self.eq_val(x, y)
                if r is not True: return r
            return True
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.schema is b.schema and self.m.valid(a.term == b.term): return True
            return 'objects differ: %r / %r' % (a, b)
        ka, kb = self.kind(a), self.kind(b)
        if ka in ('list', 'iter') and kb in ('list', 'iter'): return self.eq_lv(self.as_lv(a), self.as_lv(b))
        if ka == kb == 'dict': return self.eq_dict(self.content(a), self.content(b))
        if isinstance(a, (Ref, Frozen)) and isinstance(b, (Ref, Frozen)) and ka == kb == 'object':
            if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id: return True
            ca, cb = self.content(a), self.content(b)
            if ca.cls is not cb.cls: return 'objects of different classes'
            if ca.fields.keys() != cb.fields.keys(): return 'objects with different attributes: %s' % (set(ca.fields) ^ set(cb.fields))
            for k in ca.fields:
                r = self.eq_val(ca.fields[k], cb.fields[k])
                if r is not True: return 'attribute %s: %s' % (k, r)
            return True
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn: return self.eq_val(a.obj, b.obj)
        return 'values differ: %r / %r' % (a, b)

    def eq_dict(self, a, b):
        conc = all(l[0] == 'c' and not isinstance(l[1], SymKeyDict) for l in a.layers + b.layers)
        keys = {}
        for c in (a, b):
            for l in c.layers:
                if l[0] == 'c': keys.update(dict.fromkeys(k for k in l[1] if not isinstance(k, (R, SI))))
        for k in keys:
            r = self.same_key(a, b, k)
            if r is not True: return 'key %r: %s' % (k, r)
        if conc: return True
        k = mkR([self.m.fresh('key', STR)])
        return self.isolated(lambda: self.same_key(a, b, k))

    def same_key(self, a, b, k):
        pa, va = self.d_lookup(a, k)
        pb, vb = self.d_lookup(b, k)
        if pa != pb: return 'present in one of them only'
        return self.eq_val(va, vb) if pa else True

    def prove_eq(self, name, a, b, detail=''):
        return self.m.oblige(name, lambda: self.isolated(lambda: self.eq_val(a, b)), detail or 'result equals its specification')

    def oblige(self, name, fn, detail=''): return self.m.oblige(name, fn, detail)

    def prove(self, name, e, detail=''):
        if not isinstance(e, (bool, SB)) and not z3.is_expr(e): e = self.truth(e)
        return self.m.prove(name, e, detail)


class SummRaise(Exception):
    """A computation over a range may raise on some of its paths."""
    def __init__(self, paths): self.paths = paths


def walk_own(node):
    """nodes of a function body without nested functions"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        yield n
        todo.extend(ast.iter_child_nodes(n))
