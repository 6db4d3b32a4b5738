"""Built-in functions, methods and the external names the code uses.

What is modelled here is the trusted base for the standard library: every function is either
computed on the symbolic values or uninterpreted with an assumed contract (see strs.py)."""
import z3
from .values import *
from .machine import Unsupported, PyExc, Infeasible, ReadCarried
from .seqs import I, simp


class Deleted: pass


TYPES = {'int', 'str', 'bool', 'list', 'dict', 'tuple', 'object', 'type', 'set', 'float'}
KNOWN_BASES = {'builtins.object', 'builtins.dict', 'builtins.type', 'builtins.str', 'builtins.Exception', 'html.parser.HTMLParser', 'textwrap.TextWrapper'}
EXTERNAL = {}
BUILTINS = {}
METHODS = {'str': {}, 'list': {}, 'dict': {}, 'tuple': {}, 'iter': {}}
EXT_METHODS = {}
OBJECT_METHODS = {}
TYPE_METHODS = {}


def builtin(name):
    def deco(f):
        BUILTINS[name] = Prim(name, f)
        return f
    return deco


def method(kind, *names):
    def deco(f):
        for n in names: METHODS[kind][n] = f
        return f
    return deco


def argn(it, args, kwargs, names, defaults=()):
    """bind positional/keyword arguments of a primitive"""
    out = list(args)
    if len(out) > len(names): it.raise_('TypeError', 'too many arguments')
    for k, n in enumerate(names[len(out):], len(out)):
        if n in kwargs: out.append(kwargs[n])
        else:
            d = k - (len(names) - len(defaults))
            if d < 0: it.raise_('TypeError', 'missing argument ' + n)
            out.append(defaults[d])
    return out


# --- builtins -----------------------------------------------------------------

@builtin('len')
def b_len(it, a, k):
    v = it.force(a[0])
    if isinstance(v, str): return len(v)
    if isinstance(v, R): return mkI(it.s_len(v))
    if isinstance(v, tuple): return len(v)
    if isinstance(v, (Ref, SField, Frozen)):
        c = it.content(v)
        if isinstance(c, LCell): return mkI(it.lv_len(c.lv))
        if isinstance(c, DCell): return mkI(it.lv_len(it.dict_keys(c)))
        f = it.class_lookup(c.cls, '__len__') if isinstance(c.cls, Class) else None
        if f is not None: return it.call(f, [v], {})
    if isinstance(v, Sym):
        r = v.schema.length(it, v)
        if r is not None: return r
        lv = v.schema.iterate(it, v)
        if lv is not None: return mkI(it.lv_len(lv))
    if isinstance(v, LV): it.raise_('TypeError', 'object of type generator has no len()')
    if v is None or is_int(v) or is_bool(v): it.raise_('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (v,))


@builtin('range')
def b_range(it, a, k):
    a = [it.force(x) for x in a]
    for x in a:
        if not (is_int(x) or is_bool(x)): it.raise_('TypeError', 'range')
    lo, hi, st = 0, None, 1
    if len(a) == 1: hi = a[0]
    elif len(a) == 2: lo, hi = a
    else: lo, hi, st = a
    if all(isinstance(x, int) for x in (lo, hi, st)): return it.lv(list(range(lo, hi, st)))
    lo, hi = zi(lo), zi(hi)
    v = z3.Int(it.m.fname('i'))
    if st == 1:
        if not it.m.choose(simp(lo <= hi)): return LV(())
        return LV([Sg(lo, hi, v, mkI(v))])
    if st == -1:
        if not it.m.choose(simp(hi <= lo)): return LV(())
        return LV([Sg(I(0), simp(lo - hi), v, mkI(lo - v))])
    raise Unsupported('range step')


@builtin('enumerate')
def b_enumerate(it, a, k):
    src, start = argn(it, a, k, ['iterable', 'start'], [0])
    lv = it.as_lv(src)
    st = zi(it.force(start))
    out, off = [], I(0)
    for p in lv.parts:
        if isinstance(p, It):
            if not it.m.choose(p.guard): continue
            out.append(It((mkI(st + off), p.val))); off = simp(off + 1)
        elif isinstance(p, Sg) and not p.flat:
            p = it.unguard(p)
            out.append(Sg(p.lo, p.hi, p.var, (mkI(st + off + p.var - p.lo), p.elem)))
            off = simp(off + p.hi - p.lo)
        elif isinstance(p, PreL): raise ReadCarried(p.id)
        else: raise Unsupported('enumerate')
    return LV(out)


@builtin('zip')
def b_zip(it, a, k):
    m = it.m
    lvs = [list(it.nparts(it.as_lv(x)).parts) for x in a]
    out = []
    if not lvs: return LV(())
    for _ in range(100):
        if any(not l for l in lvs): return LV(out)
        heads = [l[0] for l in lvs]
        if any(isinstance(p, Sg) and p.flat for p in heads): raise Unsupported('zip')
        heads = [it.unguard(p) if isinstance(p, Sg) else p for p in heads]
        if any(isinstance(p, It) for p in heads):
            vals = []
            skip = False
            for n, p in enumerate(heads):
                if isinstance(p, It):
                    if not m.choose(p.guard): lvs[n].pop(0); skip = True; break
                else:
                    if not m.choose(simp(p.hi > p.lo)): lvs[n].pop(0); skip = True; break
            if skip: continue
            for n, p in enumerate(heads):
                if isinstance(p, It): vals.append(p.val); lvs[n].pop(0)
                else:
                    vals.append(subst(p.elem, [(p.var, p.lo)]))
                    lvs[n][0] = Sg(simp(p.lo + 1), p.hi, p.var, p.elem)
            out.append(It(tuple(vals)))
            continue
        lens = [it.part_len(p) for p in heads]
        n = lens[0]
        for x in lens[1:]:
            if m.choose(simp(x < n)): n = x
        v = z3.Int(m.fname('i'))
        out.append(Sg(I(0), simp(n), v, tuple(subst(p.elem, [(p.var, simp(p.lo + v))]) for p in heads)))
        for j, p in enumerate(heads):
            if lens[j].eq(n) or m.valid(lens[j] == n): lvs[j].pop(0)
            else: lvs[j][0] = Sg(simp(p.lo + n), p.hi, p.var, p.elem)
    raise Unsupported('zip')


def truth_formula(it, v):
    return zb(it.summ(lambda: it.truth(v)))


def any_all(it, lv, isany):
    m = it.m
    fs = []
    for p in lv.parts:
        if isinstance(p, It):
            t = it.truth(p.val)
            fs.append(z3.And(p.guard, zb(t)) if isany else z3.Implies(p.guard, zb(t)))
        elif isinstance(p, Sg):
            j = z3.Int(m.fname('j'))
            m.index_vars.append(j)
            n0 = len(m.pc)
            try:
                m.assume(z3.And(j >= p.lo, j < p.hi, z3.substitute(p.guard, (p.var, j))), 'ctx')
                e = subst(p.elem, [(p.var, j)])
                t = zb(any_all(it, e, isany)) if p.flat else truth_formula(it, e)
                facts = [x for kd, x in m.pc[n0:] if kd == 'fact']
            except Infeasible:
                continue
            finally:
                del m.pc[n0:]; m.index_vars.remove(j)
            rng = z3.And(j >= p.lo, j < p.hi, z3.substitute(p.guard, (p.var, j)))
            if facts: m.assume(z3.ForAll([j], z3.Implies(rng, z3.And(facts))))
            fs.append(z3.Exists([j], z3.And(rng, t)) if isany else z3.ForAll([j], z3.Implies(rng, t)))
        elif isinstance(p, PreL): raise ReadCarried(p.id)
        else: raise Unsupported('any/all')
    return mkB(z3.Or(fs) if isany else z3.And(fs)) if fs else (not isany)


@builtin('any')
def b_any(it, a, k): return any_all(it, it.as_lv(a[0]), True)

@builtin('all')
def b_all(it, a, k): return any_all(it, it.as_lv(a[0]), False)


@builtin('sum')
def b_sum(it, a, k):
    m = it.m
    src, start = argn(it, a, k, ['iterable', 'start'], [0])
    lv = it.as_lv(src)
    start = it.force(start)
    if not (is_int(start) or is_bool(start)):
        if it.kind(start) in ('list', 'tuple'):
            r = m.new_list(it.as_lv(start))
            def step(v): m.heap[r.id] = LCell(LV(m.cell(r).lv.parts + it.as_lv(v).parts))
            it.run_for(lv, step)
            return r
        raise Unsupported('sum')
    tot = zi(start)
    for p in lv.parts:
        if isinstance(p, It):
            v = it.force(p.val)
            if not (is_int(v) or is_bool(v)): it.raise_('TypeError', 'sum')
            tot = tot + z3.If(p.guard, zi(v), 0)
        elif isinstance(p, Sg) and not p.flat:
            v = it.force_static(p.elem) if not isinstance(p.elem, Ch) else p.elem
            if isinstance(v, Ch):
                if not all(is_int(x) or is_bool(x) for _, x in v.alts): raise Unsupported('sum')
                e = I(0)
                for c, x in v.alts: e = z3.If(c, zi(x), e)
            else:
                if not (is_int(v) or is_bool(v)): raise Unsupported('sum of %r' % (v,))
                e = zi(v)
            e = simp(e)
            dep = p.var.decl().name() in free_consts(e)
            if not dep and z3.is_int_value(e):
                tot = tot + e * z3.If(it.part_len(p) > 0, it.part_len(p), 0); continue
            if not z3.is_true(p.guard): e = z3.If(p.guard, e, 0)
            tot = tot + it.sum_term(p.lo, p.hi, p.var, simp(e))
        elif isinstance(p, PreL): raise ReadCarried(p.id)
        else: raise Unsupported('sum')
    return mkI(tot)


def minmax(it, a, k, mx):
    if k and set(k) - {'default', 'key'}: it.raise_('TypeError', 'unexpected keyword')
    if 'key' in k: raise Unsupported('max key')
    if len(a) == 1:
        lv = it.as_lv(a[0])
        ps = []
        for p in lv.parts:
            if isinstance(p, It):
                if it.m.choose(p.guard): ps.append(p.val)
            elif isinstance(p, Sg) and not p.flat: ps.append(it.unguard(p))
            else: raise Unsupported('max')
        vals = []
        for p in ps:
            if isinstance(p, Sg):
                if not it.m.choose(simp(p.lo < p.hi)): continue
                m = it.m
                e = p.elem
                es = e if isinstance(e, tuple) else (e,)      # numbers, or tuples of as many numbers
                if not es or not all(is_int(x) for x in es): raise Unsupported('max of %r' % (e,))
                k0, j = m.fresh('arg', INT), z3.Int(m.fname('j'))
                bs = [m.fresh('best', INT) for _ in es]
                at = lambda x: [z3.substitute(zi(y), (p.var, x)) for y in es]
                def lex(u, v):                                # u >= v, or u <= v
                    r = u[-1] >= v[-1] if mx else u[-1] <= v[-1]
                    for x, y in list(zip(u, v))[-2::-1]: r = z3.Or(x > y if mx else x < y, z3.And(x == y, r))
                    return r
                m.assume(z3.And(k0 >= p.lo, k0 < p.hi, *[b == y for b, y in zip(bs, at(k0))]))
                m.assume(z3.ForAll([j], z3.Implies(z3.And(j >= p.lo, j < p.hi), lex(bs, at(j)))))
                vals.append(tuple(map(SI, bs)) if isinstance(e, tuple) else SI(bs[0]))
            else: vals.append(p)
        if not vals:
            if 'default' in k: return k['default']
            it.raise_('ValueError', 'empty sequence')
        a = vals
    best = it.force(a[0])
    for x in a[1:]:
        x = it.force(x)
        if is_int(best) and is_int(x):
            best = mkI(z3.If(zi(x) > zi(best), zi(x), zi(best)) if mx else z3.If(zi(x) < zi(best), zi(x), zi(best)))
        elif it.m.choose(it.order('Gt' if mx else 'Lt', x, best)): best = x
    return best


@builtin('max')
def b_max(it, a, k): return minmax(it, a, k, True)

@builtin('min')
def b_min(it, a, k): return minmax(it, a, k, False)


@builtin('abs')
def b_abs(it, a, k):
    v = it.force(a[0])
    if isinstance(v, int): return abs(v)
    return mkI(z3.If(zi(v) < 0, -zi(v), zi(v)))


@builtin('divmod')
def b_divmod(it, a, k):
    return (it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1]))


@builtin('sorted')
def b_sorted(it, a, k):
    r = it.m.new_list(it.as_lv(a[0]))
    list_sort(it, [r], k)
    return r


@builtin('reversed')
def b_reversed(it, a, k): return it.lv_reverse(it.as_lv(a[0]))


@builtin('list')
def b_list(it, a, k): return it.m.new_list(it.as_lv(a[0])) if a else it.m.new_list()


@builtin('tuple')
def b_tuple(it, a, k):
    if not a: return ()
    v = it.force(a[0])
    if isinstance(v, tuple): return v
    lv = it.as_lv(v)
    if all(isinstance(p, It) and z3.is_true(p.guard) for p in lv.parts): return tuple(p.val for p in lv.parts)
    return Frozen('list', lv)


@builtin('set')
def b_set(it, a, k): return it.as_lv(a[0]) if a else it._unsup('set')

BUILTINS['frozenset'] = Prim('frozenset', b_set)


@builtin('iter')
def b_iter(it, a, k): return it.as_lv(a[0])


@builtin('dict')
def b_dict(it, a, k):
    r = it.m.new_dict()
    if a: it.d_update(r, a[0])
    for n, v in k.items():
        if n == '**': it.m.heap[r.id] = DCell(it.m.heap[r.id].layers + tuple(v))
        else: it.d_set(r, n, v)
    return r


@builtin('str')
def b_str(it, a, k): return it.str_of(a[0]) if a else ''


@builtin('repr')
def b_repr(it, a, k):
    v = it.force(a[0])
    if isinstance(v, (int, str)) or v is None: return repr(v)
    raise Unsupported('repr')


@builtin('int')
def b_int(it, a, k):
    from . import strs
    if not a: return 0
    v, base = argn(it, a, k, ['x', 'base'], [10])
    v = it.force(v)
    if is_int(v): return v
    if is_bool(v): return mkI(zi(v))
    if isinstance(v, str):
        try: return int(v, base)
        except ValueError: it.raise_('ValueError', 'invalid literal for int()')
    if isinstance(v, R):
        z = it.zs(v)
        if base == 10:
            if it.m.choose(strs.f_isint(z)): return mkI(strs.f_sint(z))
        elif base == 16:
            hexd = z3.Union(z3.Range('0', '9'), z3.Range('a', 'f'), z3.Range('A', 'F'))
            it.gax(('hex', z.get_id()), z3.Implies(z3.InRe(z, z3.Plus(hexd)), strs.f_ishex(z)), z)
            if it.m.choose(strs.f_ishex(z)): return mkI(strs.f_hex(z))
        else: raise Unsupported('int base')
        it.m.assumed.add('int(text): an integer or ValueError')
        it.raise_('ValueError', 'invalid literal for int()')
    if isinstance(v, Sym):
        r = v.schema.to_int(it, v)
        if r is not None: return r
        raise Unsupported('int of %r' % (v,))
    it.raise_('TypeError', 'int() argument')


@builtin('bool')
def b_bool(it, a, k): return it.truth(a[0]) if a else False


@builtin('type')
def b_type(it, a, k):
    if len(a) != 1: raise Unsupported('type()')
    v = it.force(a[0])
    if isinstance(v, (Ref, Frozen)):
        c = it.content(v)
        if isinstance(c, OCell): return c.cls
        if isinstance(c, DCell): return c.cls if c.cls is not None else BUILTINS['dict']
        return BUILTINS['list']
    if isinstance(v, Sym):
        r = v.schema.type_of(it, v)
        if r is not None: return r
        raise Unsupported('type of %r' % (v,))
    n = it.kind(v)
    if n in BUILTINS: return BUILTINS[n]
    raise Unsupported('type of %r' % (v,))


@builtin('isinstance')
def b_isinstance(it, a, k): return it.isinstance_(a[0], a[1])


@builtin('issubclass')
def b_issubclass(it, a, k):
    c, d = it.force(a[0]), it.force(a[1])
    if isinstance(c, Class) and isinstance(d, (Class, Ext)): return d in c.mro
    raise Unsupported('issubclass')


@builtin('callable')
def b_callable(it, a, k):
    v = it.force(a[0])
    return isinstance(v, (Func, Bound, Prim, Class))


@builtin('hasattr')
def b_hasattr(it, a, k):
    n = it.force(a[1])
    v = it.force(a[0])
    if not isinstance(n, str) and not (isinstance(v, Ref) and it.m.cell(v).cls is not None): raise Unsupported('hasattr')
    if isinstance(v, Sym):
        r = v.schema.has(it, v, n)
        if r is not None: return r
    miss = object()
    return it.getattr_(v, n, miss) is not miss


@builtin('getattr')
def b_getattr(it, a, k):
    n = it.force(a[1])
    if not isinstance(n, str): raise Unsupported('getattr with a computed name')
    v = it.force(a[0])
    if len(a) > 2 and isinstance(v, Sym):
        h = v.schema.has(it, v, n)
        if h is not None:
            if not it.m.choose(h): return a[2]
            return it.getattr_(v, n)
    return it.getattr_(v, n, a[2]) if len(a) > 2 else it.getattr_(v, n)


@builtin('setattr')
def b_setattr(it, a, k):
    n = it.force(a[1])
    if not isinstance(n, str): raise Unsupported('setattr with a computed name')
    it.setattr_(a[0], n, a[2])


@builtin('delattr')
def b_delattr(it, a, k): it.delattr_(it.force(a[0]), it.force(a[1]))


@builtin('map')
def b_map(it, a, k):
    f = a[0]
    if len(a) == 2: return it.lv_map(it.as_lv(a[1]), lambda v: ('one', it.call(f, [v], {})))
    return it.lv_map(b_zip(it, a[1:], {}), lambda v: ('one', it.call(f, list(it.force(v)), {})))


@builtin('filter')
def b_filter(it, a, k):
    f = a[0]
    def each(v):
        t = it.truth(v) if f is None else it.truth(it.call(f, [v], {}))
        return ('one', v) if it.m.choose(t) else None
    return it.lv_map(it.as_lv(a[1]), each)


@builtin('next')
def b_next(it, a, k):
    v = it.force(a[0])
    if not isinstance(v, LV): raise Unsupported('next')
    # only on a fresh iterator used once: its first element
    for p in v.parts:
        if isinstance(p, It):
            if it.m.choose(p.guard): return p.val
        elif isinstance(p, Sg) and not p.flat:
            p = it.unguard(p)
            if it.m.choose(simp(p.lo < p.hi)): return subst(p.elem, [(p.var, p.lo)])
        elif isinstance(p, PreL): raise ReadCarried(p.id)
        else: raise Unsupported('next')
    if len(a) > 1: return a[1]
    it.raise_('StopIteration')


@builtin('print')
def b_print(it, a, k): return None


@builtin('id')
def b_id(it, a, k): raise Unsupported('id')


@builtin('property')
def b_property(it, a, k):
    fget, fset, _, _ = argn(it, a, k, ['fget', 'fset', 'fdel', 'doc'], [None, None, None, None])
    return Prop(fget, fset)


@builtin('staticmethod')
def b_static(it, a, k): return StaticM(a[0])

@builtin('classmethod')
def b_classm(it, a, k): return ClassM(a[0])


@builtin('object')
def b_object(it, a, k): raise Unsupported('object()')


@builtin('chr')
def b_chr(it, a, k):
    v = it.force(a[0])
    if isinstance(v, int): return chr(v)
    raise Unsupported('chr')


@builtin('ord')
def b_ord(it, a, k):
    v = it.force(a[0])
    if isinstance(v, str): return ord(v)
    raise Unsupported('ord')


# --- object / type ---------------------------------------------------------------

def object_new(it, a, k):
    cls = it.force(a[0])
    if not isinstance(cls, Class): raise Unsupported('object.__new__ of %r' % (cls,))
    names = [b.name for b in cls.mro if isinstance(b, Ext)]
    if 'builtins.dict' in names: return it.m.alloc(DCell([], cls))
    return it.m.new_obj(cls)


OBJECT_METHODS['__new__'] = object_new


def object_init(it, a, k):
    v = it.force(a[0])
    c = it.content(v)
    if isinstance(c, DCell) and len(a) > 1: it.d_update(v, a[1])
    if isinstance(c, DCell):
        for n, x in k.items(): it.d_set(v, n, x)
    elif len(a) > 1 or k:
        new = it.class_lookup(c.cls, '__new__')
        if not isinstance(new, Func) and not (isinstance(new, Prim) and new.name == '__new__'): it.raise_('TypeError', 'object.__init__() takes no arguments')
    return None


OBJECT_METHODS['__init__'] = object_init
OBJECT_METHODS['__setattr__'] = lambda it, a, k: it.obj_setattr(it.force(a[0]), it.force(a[1]), a[2])
OBJECT_METHODS['__delattr__'] = lambda it, a, k: it.obj_delattr(it.force(a[0]), it.force(a[1]))
OBJECT_METHODS['__getattribute__'] = lambda it, a, k: it.obj_getattr(it.force(a[0]), it.force(a[1]))


def type_new(it, a, k):
    meta, name, bases, ns = a[:4]
    c = it.m.cell(it.force(ns))
    d = {}
    for l in c.layers:
        if l[0] != 'c': raise Unsupported('class namespace')
        d.update(l[1])
    d = {n: v for n, v in d.items() if not isinstance(v, Deleted)}
    cls = Class(it.force(name), [it.norm_base(b) for b in bases], d, None)
    cls.meta = meta
    return cls


TYPE_METHODS['__new__'] = type_new
TYPE_METHODS['__init__'] = lambda it, a, k: None


# --- str methods ---------------------------------------------------------------

def need_str(it, v):
    v = it.force(v)
    if not is_str(v): it.raise_('TypeError', 'must be str')
    return v


@method('str', 'join')
def str_join(it, a, k): return it.s_join(a[0], it.as_lv(a[1]))

@method('str', 'format')
def str_format(it, a, k): return it.s_format(a[0], a[1:], k)

@method('str', 'format_map')
def str_format_map(it, a, k):
    c = it.content(it.force(a[1]))
    if not isinstance(c, DCell) or any(l[0] != 'c' for l in c.layers): raise Unsupported('format_map')
    d = {}
    for l in c.layers: d.update(l[1])
    return it.s_format(a[0], [], d)

@method('str', 'upper')
def str_upper(it, a, k): return it.s_upper(a[0])

def _case(name):
    from . import strs
    def f(it, a, k):
        if isinstance(a[0], str): return getattr(a[0], name)()
        return it.s_upper(a[0], strs.f_lower if name == 'lower' else strs.UF(name, STR, STR), name) if name in ('lower', 'casefold', 'swapcase') else mkR([strs.UF(name, STR, STR)(it.zs(a[0]))])
    return f
for _n in ('lower', 'casefold', 'swapcase', 'title', 'capitalize'): METHODS['str'][_n] = (lambda n: lambda it, a, k: _case(n)(it, a, k))(_n)

for _n in ('strip', 'lstrip', 'rstrip'):
    METHODS['str'][_n] = (lambda n: lambda it, a, k: it.s_strip(a[0], it.force(a[1]) if len(a) > 1 else None, n))(_n)

@method('str', 'replace')
def str_replace(it, a, k):
    if len(a) != 3: raise Unsupported('replace count')
    return it.s_replace(a[0], need_str(it, a[1]), need_str(it, a[2]))

@method('str', 'split')
def str_split(it, a, k):
    s, sep, mx = argn(it, a, k, ['self', 'sep', 'maxsplit'], [None, -1])
    sep = it.force(sep)
    if mx != -1:
        if isinstance(s, str) and isinstance(sep, (str, type(None))) and isinstance(mx, int): return it.m.new_list(it.lv(s.split(sep, mx)))
        raise Unsupported('split maxsplit')
    if sep is None: return it.m.new_list(it.s_words(s))
    if sep == '': it.raise_('ValueError', 'empty separator')
    return it.m.new_list(it.s_split(s, sep))

@method('str', 'rsplit')
def str_rsplit(it, a, k):
    from . import strs
    s, sep, mx = argn(it, a, k, ['self', 'sep', 'maxsplit'], [None, -1])
    sep, mx = it.force(sep), it.force(mx)
    if isinstance(s, str): return it.m.new_list(it.lv(s.rsplit(sep, mx)))
    if mx == -1: return str_split(it, [s, sep], {})
    if mx == 1 and sep is not None:
        h, p, t = partition(it, s, sep, True)
        if p == '': return it.m.new_list(it.lv([t]))
        return it.m.new_list(it.lv([h, t]))
    raise Unsupported('rsplit')

def partition(it, s, sep, last):
    from . import strs
    m = it.m
    if isinstance(s, str) and isinstance(sep, str): return s.rpartition(sep) if last else s.partition(sep)
    if not isinstance(sep, str) or len(sep) != 1: raise Unsupported('partition')
    z, zs = it.zs(s), it.zs(sep)
    if not m.choose(simp(z3.Contains(z, zs))): return ('', '', s) if last else (s, '', '')
    n = strs.f_splitn(z, zs)
    f_rest = z3.Function('rpartition_head' if last else 'partition_tail', STR, STR, STR)(z, zs)
    if last: h, t = f_rest, strs.f_split(z, zs, simp(n - 1))
    else: h, t = strs.f_split(z, zs, I(0)), f_rest
    m.assume(n >= 2)
    m.assume(z3.And(z == z3.Concat(h, zs, t), z3.Not(z3.Contains(t if last else h, zs))), 'heavy')
    m.assumed.add('str.partition / rpartition: around the first / last separator')
    return (mkR([h]), sep, mkR([t]))

@method('str', 'partition')
def str_partition(it, a, k): return partition(it, a[0], need_str(it, a[1]), False)

@method('str', 'rpartition')
def str_rpartition(it, a, k): return partition(it, a[0], need_str(it, a[1]), True)

@method('str', 'splitlines')
def str_splitlines(it, a, k):
    s, keep = argn(it, a, k, ['self', 'keepends'], [False])
    return it.m.new_list(it.s_splitlines(s, it.m.choose(it.truth(keep))))

for _n in ('rjust', 'ljust', 'center'):
    def _pad(n):
        def f(it, a, k):
            w = it.force(a[1]); fill = it.force(a[2]) if len(a) > 2 else ' '
            if isinstance(a[0], str) and isinstance(w, int) and isinstance(fill, str): return getattr(a[0], n)(w, fill)
            return it.s_pad(a[0], w, fill, n)
        return f
    METHODS['str'][_n] = _pad(_n)

@method('str', 'startswith')
def str_startswith(it, a, k):
    p = it.force(a[1])
    if isinstance(p, tuple): return mkB(z3.Or([zb(str_startswith(it, [a[0], x], {})) for x in p]))
    if not is_str(p): it.raise_('TypeError', 'startswith')
    if isinstance(a[0], str) and isinstance(p, str): return a[0].startswith(p)
    return mkB(z3.PrefixOf(it.zs(p), it.zs(a[0])))

@method('str', 'endswith')
def str_endswith(it, a, k):
    p = it.force(a[1])
    if isinstance(p, tuple): return mkB(z3.Or([zb(str_endswith(it, [a[0], x], {})) for x in p]))
    if not is_str(p): it.raise_('TypeError', 'endswith')
    if isinstance(a[0], str) and isinstance(p, str): return a[0].endswith(p)
    return mkB(z3.SuffixOf(it.zs(p), it.zs(a[0])))

@method('str', 'isspace')
def str_isspace(it, a, k):
    from . import strs
    if isinstance(a[0], str): return a[0].isspace()
    z = it.zs(a[0])
    return mkB(z3.And(strs.f_blank(z), z != z3str('')))

def _pred(n):
    from . import strs
    def f(it, a, k):
        if isinstance(a[0], str): return getattr(a[0], n)()
        return mkB(strs.UF(n, STR, BOOL)(it.zs(a[0])))
    return f
for _n in ('isdigit', 'isalpha', 'isupper', 'isdecimal', 'isnumeric', 'isalnum', 'islower'): METHODS['str'][_n] = (lambda n: lambda it, a, k: _pred(n)(it, a, k))(_n)

@method('str', 'find')
def str_find(it, a, k):
    if isinstance(a[0], str) and all(isinstance(it.force(x), (str, int)) for x in a[1:]): return a[0].find(*a[1:])
    if len(a) != 2: raise Unsupported('find')
    return mkI(z3.IndexOf(it.zs(a[0]), it.zs(need_str(it, a[1])), 0))

@method('str', 'rfind')
def str_rfind(it, a, k):
    if isinstance(a[0], str) and all(isinstance(it.force(x), (str, int)) for x in a[1:]): return a[0].rfind(*a[1:])
    m = it.m
    z, n, what = it.zs(a[0]), it.s_len(a[0]), it.zs(need_str(it, a[1]))
    lo, hi = (zi(it.force(a[j])) if len(a) > j else d for j, d in ((2, I(0)), (3, n)))
    lo, hi = (simp(z3.If(x < 0, z3.If(x + n < 0, 0, x + n), x)) for x in (lo, hi))
    r = m.fresh('rfind', INT)
    m.assume(z3.Or(r == -1, z3.And(lo <= r, r + z3.Length(what) <= hi, r + z3.Length(what) <= n, z3.SubString(z, r, z3.Length(what)) == what)))
    m.assumed.add('str.rfind: -1 or where the text is found between the bounds')
    return mkI(r)

@method('str', 'index')
def str_index(it, a, k):
    r = str_find(it, a, k)
    if it.m.choose(mkB(zi(r) < 0)): it.raise_('ValueError', 'substring not found')
    return r

@method('str', 'count')
def str_count(it, a, k):
    if isinstance(a[0], str) and isinstance(a[1], str): return a[0].count(a[1])
    lv = it.s_split(a[0], need_str(it, a[1]))
    return mkI(it.lv_len(lv) - 1)

@method('str', 'removeprefix')
def str_removeprefix(it, a, k):
    p = need_str(it, a[1])
    if it.m.choose(str_startswith(it, a, {})): return it.s_slice(a[0], mkI(it.s_len(p)), None, None)
    return a[0]

@method('str', 'removesuffix')
def str_removesuffix(it, a, k):
    p = need_str(it, a[1])
    if p != '' and it.m.choose(str_endswith(it, a, {})): return it.s_slice(a[0], 0, mkI(it.s_len(a[0]) - it.s_len(p)), None)
    return a[0]

@method('str', 'zfill')
def str_zfill(it, a, k):
    if isinstance(a[0], str) and isinstance(a[1], int): return a[0].zfill(a[1])
    raise Unsupported('zfill')

@method('str', 'expandtabs')
def str_expandtabs(it, a, k):
    if isinstance(a[0], str): return a[0].expandtabs()
    raise Unsupported('expandtabs')

@method('str', 'translate')
def str_translate(it, a, k): raise Unsupported('translate')


# --- list methods ---------------------------------------------------------------

def lparts(it, v): return it.content(v).lv.parts

@method('list', 'append')
def list_append(it, a, k): it.lset(a[0], LV(lparts(it, a[0]) + (It(a[1]),)))

@method('list', 'extend')
def list_extend(it, a, k): it.lset(a[0], LV(lparts(it, a[0]) + it.as_lv(a[1]).parts))

@method('list', 'insert')
def list_insert(it, a, k):
    i = it.force(a[1])
    if i == 0 and isinstance(i, int): it.lset(a[0], LV((It(a[2]),) + lparts(it, a[0]))); return
    lv = LV(lparts(it, a[0]))
    pos = it.slice_bound(lv, i, lambda n: n)
    h, t = it.take(lv, pos)
    it.lset(a[0], LV(h.parts + (It(a[2]),) + t.parts))

@method('list', 'pop')
def list_pop(it, a, k):
    lv = LV(lparts(it, a[0]))
    i = it.force(a[1]) if len(a) > 1 else -1
    ps = it.nparts(lv).parts
    if i == -1 and isinstance(i, int):
        if ps and isinstance(ps[-1], It) and z3.is_true(ps[-1].guard):
            it.lset(a[0], LV(ps[:-1])); return ps[-1].val
    if i == 0 and isinstance(i, int) and ps and isinstance(ps[0], It) and z3.is_true(ps[0].guard):
        it.lset(a[0], LV(ps[1:])); return ps[0].val
    idx = it.norm_index(lv, i, 'pop from empty list')
    h, r = it.take(lv, idx)
    x = it.lv_get(lv, idx)
    _, t = it.take(r, I(1))
    it.lset(a[0], LV(h.parts + t.parts))
    return x

@method('list', 'remove')
def list_remove(it, a, k):
    lv = LV(lparts(it, a[0]))
    r = it.lv_find(lv, lambda e: it.eq_cond(e, a[1]))
    if r is None: it.raise_('ValueError', 'list.remove(x): x not in list')
    h, rest = it.take(lv, r[0]); _, t = it.take(rest, I(1))
    it.lset(a[0], LV(h.parts + t.parts))

@method('list', 'index')
@method('tuple', 'index')
def list_index(it, a, k):
    if len(a) > 2: raise Unsupported('index')
    r = it.lv_find(it.as_lv(a[0]), lambda e: it.eq_cond(e, a[1]))
    if r is None: it.raise_('ValueError', 'is not in list')
    return mkI(r[0])

@method('list', 'count')
@method('tuple', 'count')
def list_count(it, a, k):
    lv = it.lv_map(it.as_lv(a[0]), lambda v: ('one', 1) if it.m.choose(it.py_eq(v, a[1])) else None)
    return mkI(it.lv_len(lv))

@method('list', 'reverse')
def list_reverse(it, a, k): it.lset(a[0], it.lv_reverse(LV(lparts(it, a[0]))))

@method('list', 'copy')
def list_copy(it, a, k): return it.m.new_list(LV(lparts(it, a[0])))

@method('list', 'clear')
def list_clear(it, a, k): it.lset(a[0], LV(()))

@method('list', 'sort')
def list_sort(it, a, k):
    m = it.m
    hook = getattr(it, 'sort_hook', None)
    if hook is not None:
        r = hook(it, a, k)
        if r is not NotImplemented: return r
    lv = it.nparts(LV(lparts(it, a[0])))
    if all(isinstance(p, It) and z3.is_true(p.guard) for p in lv.parts) and len(lv.parts) <= 1: return None
    raise Unsupported('sort')


# --- dict methods ---------------------------------------------------------------

def dcell(it, v):
    v = it.force(v)
    c = it.content(v)
    if not isinstance(c, DCell): raise Unsupported('dict method')
    return c

@method('dict', 'get')
def dict_get(it, a, k):
    ok, v = it.d_lookup(dcell(it, a[0]), a[1])
    return v if ok else (a[2] if len(a) > 2 else k.get('default'))

@method('dict', 'update')
def dict_update(it, a, k):
    if len(a) > 1: it.d_update(it.force(a[0]), a[1])
    if k: it.d_update(it.force(a[0]), it.m.new_dict(k))

@method('dict', 'copy')
def dict_copy(it, a, k):
    c = dcell(it, a[0])
    return it.m.alloc(DCell(c.layers, None))

@method('dict', 'pop')
def dict_pop(it, a, k):
    o = it.force(a[0])
    ok, v = it.d_lookup(dcell(it, o), a[1])
    if not ok:
        if len(a) > 2: return a[2]
        it.raise_('KeyError', a[1])
    it.delitem(o, it.force(a[1]))
    return v

@method('dict', 'setdefault')
def dict_setdefault(it, a, k):
    o = it.force(a[0])
    ok, v = it.d_lookup(dcell(it, o), a[1])
    if ok: return v
    v = a[2] if len(a) > 2 else None
    it.d_set(o, a[1], v)
    return v

def conc_items(it, c):
    d = {}
    if any(l[0] != 'c' or type(l[1]) is not dict for l in c.layers):
        if 'items' in c.fields: return c.fields['items']
        raise Unsupported('iteration over an arbitrary dictionary')
    for l in c.layers: d.update(l[1])
    return it.lv([(x, v) for x, v in d.items() if not isinstance(v, Deleted)])

@method('dict', 'items')
def dict_items(it, a, k): return conc_items(it, dcell(it, a[0]))

@method('dict', 'keys')
def dict_keys(it, a, k): return it.dict_keys(dcell(it, a[0]))

@method('dict', 'values')
def dict_values(it, a, k):
    lv = conc_items(it, dcell(it, a[0]))
    return it.lv_map(lv, lambda v: ('one', v[1]))

@method('dict', 'clear')
def dict_clear(it, a, k):
    o = it.force(a[0]); c = it.mut_cell(o)
    it.m.heap[o.id] = DCell([], c.cls, c.fields)

@method('dict', '__getitem__')
def dict_getitem(it, a, k):
    ok, v = it.d_lookup(dcell(it, a[0]), a[1])
    if not ok: it.raise_('KeyError', a[1])
    return v

@method('dict', '__setitem__')
def dict_setitem(it, a, k): it.d_set(it.force(a[0]), a[1], a[2])

@method('dict', '__delitem__')
def dict_delitem(it, a, k): it.delitem(it.force(a[0]), it.force(a[1]))

@method('dict', '__contains__')
def dict_contains(it, a, k): return it.d_has(dcell(it, a[0]), a[1])

EXT_METHODS['builtins.dict'] = {n: METHODS['dict'][n] for n in METHODS['dict']}
EXT_METHODS['builtins.dict']['__init__'] = object_init


# --- external modules -------------------------------------------------------------

def html_init(it, a, k): return None
def html_reset(it, a, k): it.setattr_(a[0], 'rawdata', '')      # the state of HTMLParser
def html_feed(it, a, k): it.setattr_(a[0], 'rawdata', mkR([it.m.fresh('rawdata', STR)]))
def html_close(it, a, k):
    f = it.m.stubs.get('html close')           # what is left of the text
    if f is not None: f(it, a[0])

EXT_METHODS['html.parser.HTMLParser'] = {
    '__init__': lambda it, a, k: it.call(it.getattr_(a[0], 'reset'), [], {}),
    'reset': html_reset,
    'close': html_close,
    'feed': html_feed,
}


def import_ext(it, mod, name):
    full = mod + '.' + name
    if full == 'collections.namedtuple': return Prim('namedtuple', namedtuple)
    if full == 'textwrap.TextWrapper' and getattr(it, 'stdlib', None): return it.load_file('textwrap', it.stdlib + '/textwrap.py').ns[name]
    return Ext(full)


def namedtuple(it, a, k):
    """a class with the given fields, all set by the constructor"""
    name = it.force(a[0])
    fields = [it.force(x.val) if isinstance(x, It) else x for x in it.as_lv(a[1]).parts] if not isinstance(it.force(a[1]), str) else it.force(a[1]).replace(',', ' ').split()
    def new(it2, args, kw):
        vals = argn(it2, args[1:], kw, fields)
        return it2.m.new_obj(args[0], **dict(zip(fields, vals)))
    def it_(it2, args, kw):
        c = it2.content(it2.force(args[0]))
        return tuple(c.fields[f] for f in fields)
    def eq(it2, args, kw):
        o = it2.force(args[1])
        if isinstance(o, (Ref, Frozen)) and isinstance(it2.content(o), OCell) and hasattr(it2.content(o).cls, 'ntfields'):
            return it2.py_eq(it_(it2, args, {}), tuple(it2.content(o).fields.values()))
        return False
    cls = Class(name, [Ext('builtins.object')], {}, None)
    cls.ntfields = fields
    cls.ns['__iter__'] = Prim('__iter__', it_)
    cls.ns['__getitem__'] = Prim('__getitem__', lambda it2, args, kw: it2.item(it_(it2, args[:1], {}), args[1]))
    cls.ns['__len__'] = Prim('__len__', lambda it2, args, kw: len(fields))
    cls.ns['__new__'] = Prim('__new__', new)
    cls.nt_new = new
    return cls


def ext_attr(it, v, name):
    full = v.name + '.' + name
    if full == 'inspect.getmro': return Prim('getmro', lambda it2, a, k: getmro(it2, a[0]))
    if full == 're.compile': return Prim('re.compile', re_compile)
    if full == 're.escape': return Prim('re.escape', lambda it, a, k: __import__('re').escape(a[0]) if isinstance(a[0], str) else it._unsup('re.escape'))
    if full == 're.sub': return Prim('re.sub', re_sub)
    if name.isupper() and v.name == 're':
        import re
        if isinstance(getattr(re, name, None), int): return int(getattr(re, name))
    if full in EXTERNALS: return EXTERNALS[full]
    h = getattr(it, 'ext_hook', None)
    if h is not None:
        r = h(it, full)
        if r is not None: return r
    return Ext(full)


def itemgetter(it, a, k):
    if len(a) == 1: return Prim('itemgetter', lambda it2, a2, k2: it2.item(it2.force(a2[0]), a[0]))
    return Prim('itemgetter', lambda it2, a2, k2: tuple(it2.item(it2.force(a2[0]), x) for x in a))


def attrgetter(it, a, k):
    if len(a) != 1 or not isinstance(a[0], str) or '.' in a[0]: raise Unsupported('attrgetter')
    return Prim('attrgetter', lambda it2, a2, k2: it2.getattr_(a2[0], a[0]))


def partial(it, a, k):
    return Prim('partial', lambda it2, a2, k2: it2.call(a[0], list(a[1:]) + list(a2), dict(k, **k2)))


def total_ordering(it, a, k):
    """as the library does it, from __lt__"""
    c = it.force(a[0])
    import ast
    if not isinstance(c, Class) or '__lt__' not in c.ns: raise Unsupported('total_ordering')
    neg = lambda it2, v: it2.not_(it2.truth(v))
    lt = lambda it2, x, y: it2.truth(it2.call(c.ns['__lt__'], [x, y], {}))
    if '__gt__' not in c.ns: c.ns['__gt__'] = Prim('__gt__', lambda it2, x, k2: False if it2.m.choose(lt(it2, *x)) else it2.compare(ast.NotEq(), *x))
    if '__le__' not in c.ns: c.ns['__le__'] = Prim('__le__', lambda it2, x, k2: True if it2.m.choose(lt(it2, *x)) else it2.compare(ast.Eq(), *x))
    if '__ge__' not in c.ns: c.ns['__ge__'] = Prim('__ge__', lambda it2, x, k2: neg(it2, lt(it2, *x)))
    return c


def chain(it, a, k):
    return LV([p for x in a for p in it.as_lv(x).parts])


EXTERNALS = {'operator.itemgetter': Prim('itemgetter', itemgetter), 'operator.attrgetter': Prim('attrgetter', attrgetter), 'functools.partial': Prim('partial', partial),
             'functools.total_ordering': Prim('total_ordering', total_ordering), 'itertools.chain': Prim('chain', chain)}


def getmro(it, c):
    c = it.force(c)
    if isinstance(c, Class): return c.chain if c.chain is not None else tuple(c.mro)
    if isinstance(c, Sym):
        r = c.schema.mro(it, c)
        if r is not None: return r
    raise Unsupported('getmro of %r' % (c,))


def re_compile(it, a, k):
    pat = it.force(a[0])
    flags = it.force(a[1] if len(a) > 1 else k.get('flags', 0))
    if isinstance(pat, Frozen): return pat
    if not isinstance(pat, str) or not isinstance(flags, int): raise Unsupported('re.compile(%r)' % (pat,))
    return Frozen(Ext('re.Pattern'), {'pattern': pat, 'flags': flags})


def regex(it, pat):
    '''(parse tree, compiled) of a pattern: what it means, not how it is written'''
    import re, re._parser as rp
    pat = it.force(pat)
    flags = 0
    if isinstance(pat, Frozen): flags, pat = pat.fields['flags'], pat.fields['pattern']
    if not isinstance(pat, str): raise Unsupported('regular expression %r' % (pat,))
    return repr(rp.parse(pat, flags)), re.compile(pat, flags)


def re_sub(it, a, k):
    pat, rep, s = [it.force(x) for x in a[:3]]
    if len(a) > 3 or k: raise Unsupported('re.sub with count')
    tree, comp = regex(it, pat)
    if isinstance(rep, str) and isinstance(s, str): return comp.sub(rep, s)
    h = getattr(it, 'resub_hook', None)
    if h is not None:
        r = h(it, comp.pattern, rep, s, tree)
        if r is not None: return r
    raise Unsupported('re.sub(%r)' % (pat,))


def re_match(it, a, k):
    tree, comp = regex(it, a[0])
    h = getattr(it, 'rematch_hook', None)
    if h is not None:
        r = h(it, tree, [it.force(x) for x in a[1:]])
        if r is not NotImplemented: return r
    raise Unsupported('re.match(%r)' % (comp.pattern,))


def ext_call(it, f, a, k):
    if f.name in ('builtins.object',): return Sym_object(it)
    h = it.m.stubs.get('ext:' + f.name)
    if h is not None:
        it.m.stub_used.add('ext:' + f.name)
        return h(it, f, a, k)
    if f.name.startswith('builtins.'): return ExcV(f, tuple(a))
    raise Unsupported('call of %s' % f.name)


def Sym_object(it): raise Unsupported('object()')


EXT_METHODS['re.Pattern'] = {'sub': re_sub, 'match': re_match}


# --- schemas: what a symbolic object is ------------------------------------------

class Schema:
    """Meaning of the operations on symbolic objects of one kind.  None: not supported."""
    name = 'obj'
    def truth(self, it, s): return True
    def eq(self, it, s, o):
        if isinstance(o, Sym) and o.schema is self: return mkB(s.term == o.term)
        if o is None or is_str(o) or is_int(o) or is_bool(o) or isinstance(o, tuple): return False
        return None
    def get(self, it, s, name): raise Unsupported('attribute %s of a symbolic %s' % (name, self.name))
    def has(self, it, s, name): return None
    def set(self, it, s, name, v):
        it.m.fail('frame', 'sets attribute %s of a %s' % (name, self.name)); raise Infeasible()
    def item(self, it, s, k): raise Unsupported('item of a symbolic %s' % self.name)
    def setitem(self, it, s, k, v):
        it.m.fail('frame', 'sets an item of a %s' % self.name); raise Infeasible()
    def contains(self, it, s, x): return None
    def iterate(self, it, s): return None
    def length(self, it, s): return None
    def isinstance(self, it, s, cls): return None
    def type_of(self, it, s): return None
    def call(self, it, s, a, k): raise Unsupported('call of a symbolic %s' % self.name)
    def field_init(self, it, s, attr): raise Unsupported('field %s' % attr)
    def to_int(self, it, s): return None
    def mro(self, it, s): return None


class AnySchema(Schema):
    """A value about which nothing is known but its identity."""
    name = 'any'
    def truth(self, it, s): return mkB(z3.Function('truth_of', Obj, BOOL)(s.term))
    def eq(self, it, s, o):
        if isinstance(o, Sym) and o.schema is self: return mkB(s.term == o.term)
        if isinstance(o, bool): return mkB(z3.Function('is_true' if o else 'is_false', Obj, BOOL)(s.term))
        if o is None: return mkB(z3.Function('is_none', Obj, BOOL)(s.term))
        if is_str(o): return mkB(z3.And(z3.Function('is_text', Obj, BOOL)(s.term), z3.Function('text_of', Obj, STR)(s.term) == it.zs(o)))
        return None

ANY = AnySchema()

EXT_METHODS['builtins.type'] = TYPE_METHODS
