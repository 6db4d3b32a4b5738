"""Values of the symbolic interpreter.

Concrete Python None/bool/int/str/tuple stand for themselves.  Everything else
is one of the immutable classes below; mutable objects live in heap cells and
are reached through Ref.
"""
import z3

Obj = z3.DeclareSort('Obj')
INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class SI:                       # symbolic int
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'SI(%s)' % self.e


class SB:                       # symbolic bool
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'SB(%s)' % self.e


class R:                        # rope: symbolic string
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = parts
    def __repr__(self): return 'R%r' % (self.parts,)


class Rep:                      # unit string (one character) repeated n times
    __slots__ = ('unit', 'n')
    def __init__(self, unit, n): self.unit, self.n = unit, n
    def __repr__(self): return 'Rep(%r,%s)' % (self.unit, self.n)


class Join:                     # sep.join(lv)
    __slots__ = ('sep', 'lv')
    def __init__(self, sep, lv): self.sep, self.lv = sep, lv
    def __repr__(self): return 'Join(%r,%r)' % (self.sep, self.lv)


class Cond:                     # rope part: if c then a else b
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return 'Cond(%s,%r,%r)' % (self.c, self.a, self.b)


class Ch:                       # exactly one alternative holds: [(cond, value)]
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = tuple(alts)
    def __repr__(self): return 'Ch%r' % (self.alts,)


class Ref:                      # heap cell
    __slots__ = ('id',)
    def __init__(self, id): self.id = id
    def __repr__(self): return 'Ref(%s)' % (self.id,)
    def __eq__(self, o): return isinstance(o, Ref) and o.id == self.id
    def __hash__(self): return hash(self.id)


class SField:                   # mutable list-valued attribute of a symbolic object
    __slots__ = ('sym', 'attr')
    def __init__(self, sym, attr): self.sym, self.attr = sym, attr
    def __repr__(self): return 'SField(%r.%s)' % (self.sym, self.attr)


class Sym:                      # symbolic model object
    __slots__ = ('schema', 'term')
    def __init__(self, schema, term): self.schema, self.term = schema, term
    def __repr__(self): return 'Sym(%s,%s)' % (self.schema.name, self.term)


class Frozen:                   # object or list created in an iteration, no longer mutable
    __slots__ = ('cls', 'fields')
    def __init__(self, cls, fields): self.cls, self.fields = cls, fields
    def __repr__(self): return 'Frozen(%s,%r)' % (self.cls, self.fields)


class LV:                       # immutable sequence value
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = tuple(parts)
    def __repr__(self): return 'LV%r' % (self.parts,)


class It:                       # item, present if guard
    __slots__ = ('val', 'guard')
    def __init__(self, val, guard=TRUE): self.val, self.guard = val, guard
    def __repr__(self): return 'It(%r%s)' % (self.val, '' if z3.is_true(self.guard) else ' if %s' % self.guard)


class Sg:                       # elem[var] for var in lo..hi-1 if guard[var]; flat: elem is an LV
    __slots__ = ('lo', 'hi', 'var', 'elem', 'guard', 'flat')
    def __init__(self, lo, hi, var, elem, guard=TRUE, flat=False):
        self.lo, self.hi, self.var, self.elem, self.guard, self.flat = lo, hi, var, elem, guard, flat
    def __repr__(self):
        return 'Sg(%s..%s,%s%s%s:%r)' % (self.lo, self.hi, self.var, '' if z3.is_true(self.guard) else ' if %s' % self.guard, '*' if self.flat else '', self.elem)


class PreL:                     # what a list contained before the loop being summarised
    __slots__ = ('id',)
    def __init__(self, id): self.id = id
    def __repr__(self): return 'PreL(%s)' % (self.id,)


class ZS:                       # z3 sequence of strings as part of a list
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'ZS(%s)' % self.e


class Func:
    __slots__ = ('node', 'name', 'env', 'closure', 'cls', 'defaults', 'kwdefaults', 'qual', 'isgen')
    def __init__(self, **k):
        for a in self.__slots__: setattr(self, a, k.get(a))
    def __repr__(self): return '<func %s>' % self.qual


class Bound:
    __slots__ = ('fn', 'obj')
    def __init__(self, fn, obj): self.fn, self.obj = fn, obj
    def __repr__(self): return '<bound %r of %r>' % (self.fn, self.obj)


class Prim:                     # primitive: fn(m, args, kwargs)
    __slots__ = ('name', 'fn')
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return '<prim %s>' % self.name


class Ext:                      # external name (module attribute, class, exception class)
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return '<ext %s>' % self.name
    def __eq__(self, o): return isinstance(o, Ext) and o.name == self.name
    def __hash__(self): return hash(self.name)


class Class:
    chain = None                # its classes in order of precedence, if they are not to be mro
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = _mro(self)
        self.qual = name
    def __repr__(self): return '<class %s>' % self.name


class Prop:
    __slots__ = ('fget', 'fset')
    def __init__(self, fget, fset=None): self.fget, self.fset = fget, fset


class StaticM:
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn


class ClassM:
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn


class SuperV:
    __slots__ = ('cls', 'obj')
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class ExcV:                     # exception instance
    __slots__ = ('cls', 'args')
    def __init__(self, cls, args=()): self.cls, self.args = cls, args
    def __repr__(self): return 'ExcV(%s,%r)' % (getattr(self.cls, 'name', self.cls), self.args)


class Module:
    def __init__(self, name): self.name, self.ns = name, {}
    def __repr__(self): return '<module %s>' % self.name


class Poison:                   # a variable whose value before the iteration is not known yet
    __slots__ = ('loc',)
    def __init__(self, loc): self.loc = loc


class Lazy:                     # variable whose value after a loop is computed when it is read
    __slots__ = ('thunk',)
    def __init__(self, thunk): self.thunk = thunk


class LCell:
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv
    def __repr__(self): return 'LCell(%r)' % (self.lv,)


class DCell:
    """Dictionary: layers, later ones win.
    ('c', {key: value})          literal entries (insertion order kept)
    ('s', SymDict)               an arbitrary dictionary
    ('g', Sg of updates, ...)    see loops
    cls: class for dict subclasses
    """
    __slots__ = ('layers', 'cls', 'fields')
    def __init__(self, layers, cls=None, fields=None): self.layers, self.cls, self.fields = tuple(layers), cls, fields or {}
    def __repr__(self): return 'DCell(%r)' % (self.layers,)


class OCell:
    __slots__ = ('cls', 'fields')
    def __init__(self, cls, fields): self.cls, self.fields = cls, fields
    def __repr__(self): return 'OCell(%s,%r)' % (self.cls, self.fields)


class SymDict:
    """An arbitrary dictionary with keys in String: has(key) / val(key)."""
    __slots__ = ('name', 'has', 'val')
    def __init__(self, name, has, val): self.name, self.has, self.val = name, has, val
    def __repr__(self): return '<dict %s>' % self.name


class SymKeyDict(dict):
    """literal layer with symbolic keys (kept in an association list)"""
    def __init__(self, pairs): super().__init__(); self.pairs = list(pairs)
    def items(self): return self.pairs
    def __iter__(self): return iter([k for k, _ in self.pairs])
    def __contains__(self, k): return False
    def __len__(self): return len(self.pairs)
    def __bool__(self): return True


def mapitems(d, f, fk=lambda k: k):
    if isinstance(d, SymKeyDict): return SymKeyDict([(fk(k), f(x)) for k, x in d.pairs])
    return {k: f(x) for k, x in d.items()}


def _mro(cls):
    seqs = [list(b.mro) if isinstance(b, Class) else [b] for b in cls.bases] + [list(cls.bases)]
    res = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise TypeError('no MRO')
        res.append(h)
        for s in seqs:
            if s[0] == h:
                del s[0]


def mkI(e):
    if isinstance(e, int): return e
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    return SI(e)


def mkB(e):
    if isinstance(e, bool): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SB(e)


def zi(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, SI): return v.e
    if isinstance(v, SB): return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise TypeError('not an int: %r' % (v,))


def zb(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, SB): return v.e
    raise TypeError('not a bool: %r' % (v,))


def z3str(s):
    # z3 reads \u{..} escapes in literals
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))


def unz3str(e):
    s = e.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16))); i = j + 1
        else:
            out.append(s[i]); i += 1
    return ''.join(out)


def mkR(parts):
    out = []
    def add(p):
        if isinstance(p, str):
            if p == '': return
            if out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
        elif isinstance(p, R):
            for q in p.parts: add(q)
        elif isinstance(p, Rep):
            n = z3.simplify(p.n) if not isinstance(p.n, int) else z3.IntVal(p.n)
            if z3.is_int_value(n): add(p.unit * max(0, n.as_long()))
            else: out.append(Rep(p.unit, n))
        elif isinstance(p, (Join, Cond)):
            out.append(p)
        else:                                   # z3 string
            if z3.is_string_value(p): add(unz3str(p))
            elif z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for c in p.children(): add(c)
            else: out.append(p)
    for p in parts: add(p)
    if not out: return ''
    if len(out) == 1 and isinstance(out[0], str): return out[0]
    return R(tuple(out))


def mkStr(e):
    return mkR([z3.simplify(e)])


def rparts(v):
    if isinstance(v, str): return (v,) if v else ()
    if isinstance(v, R): return v.parts
    raise TypeError('not a string: %r' % (v,))


def is_str(v): return isinstance(v, (str, R))
def is_int(v): return isinstance(v, (int, SI)) and not isinstance(v, bool)
def is_bool(v): return isinstance(v, (bool, SB))


# --- substitution and structural equality -------------------------------

def subst(v, pairs):
    """Replace z3 constants in a value. pairs: [(from, to)]"""
    if not pairs: return v
    def ze(e): return z3.substitute(e, *pairs)
    def go(v):
        if v is None or isinstance(v, (bool, int, str)): return v
        if isinstance(v, SI): return mkI(ze(v.e))
        if isinstance(v, SB): return mkB(ze(v.e))
        if isinstance(v, R): return mkR([rp(p) for p in v.parts])
        if isinstance(v, tuple): return tuple(go(x) for x in v)
        if isinstance(v, Ch): return mkCh([(ze(c), go(x)) for c, x in v.alts])
        if isinstance(v, Sym): return Sym(v.schema, ze(v.term))
        if isinstance(v, LV): return LV(tuple(lp(p) for p in v.parts))
        if isinstance(v, Frozen): return Frozen(v.cls, fld(v.fields))
        if isinstance(v, SField): return SField(go(v.sym), v.attr)
        if isinstance(v, Bound): return Bound(v.fn, go(v.obj))
        if isinstance(v, DCell): return DCell([sd(l) for l in v.layers], v.cls, v.fields)
        return v
    def sd(l):
        if l[0] == 's': return ('s', subst_dict(l[1], pairs))
        if l[0] == 'c': return ('c', mapitems(l[1], go, go))
        if l[0] == 'x': return ('x', ze(l[1]), sd(l[2]))
        return (l[0], lp(l[1])) + l[2:]
    def fld(f):
        if isinstance(f, dict): return {k: go(x) for k, x in f.items()}
        return go(f)
    def rp(p):
        if isinstance(p, str): return p
        if isinstance(p, Rep): return Rep(go(p.unit), ze(p.n))
        if isinstance(p, Join): return Join(go(p.sep), go(p.lv))
        if isinstance(p, Cond): return Cond(ze(p.c), go(p.a), go(p.b))
        return ze(p)
    def lp(p):
        if isinstance(p, It): return It(go(p.val), z3.simplify(ze(p.guard)))
        if isinstance(p, Sg):
            # bound variables are unique, no capture
            return Sg(z3.simplify(ze(p.lo)), z3.simplify(ze(p.hi)), p.var, go(p.elem), ze(p.guard), p.flat)
        if isinstance(p, ZS): return ZS(ze(p.e))
        return p
    return go(v)


def subst_dict(d, pairs):
    return SymDict(d.name, lambda k: z3.substitute(d.has(k), *pairs), lambda k: subst(d.val(k), pairs))


def mkCh(alts):
    out = []
    for c, v in alts:
        if not isinstance(c, bool): c = z3.simplify(c)
        else: c = z3.BoolVal(c)
        if z3.is_false(c): continue
        if isinstance(v, Ch):
            for c2, v2 in v.alts: out.append((z3.simplify(z3.And(c, c2)), v2))
        else: out.append((c, v))
    out = [(c, v) for c, v in out if not z3.is_false(c)]
    # merge equal values
    res = []
    for c, v in out:
        for k, (c2, v2) in enumerate(res):
            if same(v, v2):
                res[k] = (z3.simplify(z3.Or(c2, c)), v2); break
        else: res.append((c, v))
    if not res: return Ch(alts)
    if len(res) == 1: return res[0][1]
    if all(is_bool(v) for _, v in res):
        return mkB(z3.Or([z3.And(c, zb(v)) for c, v in res]))
    if all(is_int(v) for _, v in res):
        e = zi(res[-1][1])
        for c, v in reversed(res[:-1]): e = z3.If(c, zi(v), e)
        return mkI(e)
    if all(isinstance(v, Sym) for _, v in res) and len({v.schema for _, v in res}) == 1:
        e = res[-1][1].term
        for c, v in reversed(res[:-1]): e = z3.If(c, v.term, e)
        return Sym(res[0][1].schema, z3.simplify(e))
    return Ch(res)


def zeq(a, b):
    return a is b or (a.get_id() == b.get_id() if hasattr(a, 'get_id') and hasattr(b, 'get_id') else a == b)


def same(a, b):
    """Structural equality of values (sufficient for semantic equality)."""
    if a is b: return True
    if type(a) is not type(b): return False
    if a is None or isinstance(a, (bool, int, str)): return a == b
    if isinstance(a, (SI, SB)): return a.e.eq(b.e)
    if isinstance(a, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, R): return len(a.parts) == len(b.parts) and all(_samep(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, Ref): return a.id == b.id
    if isinstance(a, Sym): return a.schema is b.schema and a.term.eq(b.term)
    if isinstance(a, SField): return a.attr == b.attr and same(a.sym, b.sym)
    if isinstance(a, Ch): return len(a.alts) == len(b.alts) and all(c.eq(d) and same(x, y) for (c, x), (d, y) in zip(a.alts, b.alts))
    if isinstance(a, LV): return len(a.parts) == len(b.parts) and all(_samep(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, Bound): return same(a.fn, b.fn) and same(a.obj, b.obj)
    if isinstance(a, Frozen):
        if a.cls is not b.cls: return False
        if isinstance(a.fields, dict): return a.fields.keys() == b.fields.keys() and all(same(a.fields[k], b.fields[k]) for k in a.fields)
        return same(a.fields, b.fields)
    if isinstance(a, Ext): return a.name == b.name
    if isinstance(a, Poison): return a.loc == b.loc
    if isinstance(a, LCell): return same(a.lv, b.lv)
    if isinstance(a, OCell): return a.cls is b.cls and a.fields.keys() == b.fields.keys() and all(same(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, DCell):
        return a.cls is b.cls and len(a.layers) == len(b.layers) and all(_samelayer(x, y) for x, y in zip(a.layers, b.layers)) and a.fields.keys() == b.fields.keys() and all(same(a.fields[k], b.fields[k]) for k in a.fields)
    return False


def _samelayer(x, y):
    if x[0] != y[0]: return False
    if x[0] == 'c' and isinstance(x[1], SymKeyDict): return isinstance(y[1], SymKeyDict) and len(x[1].pairs) == len(y[1].pairs) and all(same(a, c) and same(b, d) for (a, b), (c, d) in zip(x[1].pairs, y[1].pairs))
    if x[0] == 'c': return list(x[1]) == list(y[1]) and all(same(x[1][k], y[1][k]) for k in x[1])
    return x[1] is y[1]


def _samep(x, y):
    if type(x) is not type(y): return False
    if isinstance(x, str): return x == y
    if isinstance(x, Rep): return same(x.unit, y.unit) and x.n.eq(y.n)
    if isinstance(x, Join): return same(x.sep, y.sep) and same(x.lv, y.lv)
    if isinstance(x, Cond): return x.c.eq(y.c) and same(x.a, y.a) and same(x.b, y.b)
    if isinstance(x, It): return same(x.val, y.val) and x.guard.eq(y.guard)
    if isinstance(x, Sg):
        if x.flat != y.flat or not (x.lo.eq(y.lo) and x.hi.eq(y.hi)): return False
        if x.var.eq(y.var): return same(x.elem, y.elem) and x.guard.eq(y.guard)
        p = [(y.var, x.var)]
        return z3.substitute(y.guard, *p).eq(x.guard) and same(x.elem, subst(y.elem, p))
    if isinstance(x, PreL): return x.id == y.id
    if isinstance(x, ZS): return x.e.eq(y.e)
    return x.eq(y)


def free_consts(e, acc=None, seen=None):
    """0-ary uninterpreted constants in a z3 expression."""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()] = x
        todo.extend(x.children())
    return acc
