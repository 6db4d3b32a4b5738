"""C05: the most specific matching mapping decides renderer and settings.

get_for_tag is run on any number of mappings: every one with any selector, which matches or not with any specificity
(C01-C04), with or without a renderer, with or without any settings. What it gives is compared with the most specific
mapping that names a renderer, and for any key with the most specific one that sets it."""
import ast
from .parserkit import *

ASSUMPTIONS = ['list.sort and sorted are stable and order by < of the keys (assumed contract of the built-ins)',
               'of finitely many mappings one comes last in the order of precedence']
S = 'gopher_render._selectors:'

matches = z3.Function('matches', INT, BOOL)
spec = [z3.Function('specificity_%s' % c, INT, INT) for c in 'abc']
plain = z3.Function('is_plain', INT, BOOL)            # a renderer alone, not a pair
names = z3.Function('names_renderer', INT, BOOL)
sets = z3.Function('has_settings', INT, BOOL)
cls_of = z3.Function('renderer_named', INT, INT)
has_key, val_of = z3.Function('sets_key', INT, STR, BOOL), z3.Function('setting', INT, STR, Obj)


class Cls(Schema):
    """a renderer class"""
    name = 'renderer class'
    def truth(self, it, s): return True
    def item(self, it, s, k): it.raise_('TypeError', 'not subscriptable')
    def length(self, it, s): it.raise_('TypeError', 'has no len()')
    def iterate(self, it, s): it.raise_('TypeError', 'not iterable')
    def isinstance(self, it, s, c): return getattr(c, 'name', None) in ('type', 'object') or getattr(c, '__name__', None) in ('type', 'object')
    def eq(self, it, s, o): return SB(s.term == o.term) if isinstance(o, Sym) and isinstance(o.schema, Cls) else False

CLS = Cls()


class Selectors(Schema):
    name = 'selector'
    def eq(self, it, s, o): return SB(s.term == o.term) if isinstance(o, Sym) and isinstance(o.schema, Selectors) else False

SEL = Selectors()


def settings_of(i):
    return Frozen('dict', DCell([('s', SymDict('settings %s' % i, lambda k: has_key(i, k), lambda k: Sym(ANY, val_of(i, k))))]))


def configured(i):
    """what mapping i has: a renderer, or a pair of a renderer or None and settings or None"""
    r = mkCh([(names(i), Sym(CLS, cls_of(i))), (z3.Not(names(i)), None)])
    s = mkCh([(sets(i), settings_of(i)), (z3.Not(sets(i)), None)])
    return mkCh([(plain(i), r), (z3.Not(plain(i)), (r, s))])


def lex(a, b):
    """specificity of mapping a below that of mapping b"""
    x, y = [f(a) for f in spec], [f(b) for f in spec]
    return z3.Or(x[0] < y[0], z3.And(x[0] == y[0], z3.Or(x[1] < y[1], z3.And(x[1] == y[1], x[2] < y[2]))))


def stable_sort(it, a, k):
    """list.sort on matching things in a range: a permutation in the order of <, equal ones as they were"""
    m = it.m
    parts = it.as_lv(a[0]).parts
    if len(parts) == 0: return None
    if len(parts) != 1 or not isinstance(parts[0], Sg) or parts[0].flat: return NotImplemented
    if set(k) - {'key', 'reverse'}: raise Unsupported('sort')
    if 'reverse' in k and it.truth(k['reverse']): raise Unsupported('sort in reverse')
    p = parts[0]
    key = k.get('key')
    def less(x, y):
        e = [subst(p.elem, [(p.var, v)]) for v in (x, y)]
        f = [it.call(key, [v], {}) for v in e] if key is not None else e
        return it.truth(it.compare(ast.Lt(), f[0], f[1]))
    x, y = m.fresh('x', INT), m.fresh('y', INT)
    g = lambda v: simp(z3.And(p.lo <= v, v < p.hi, z3.substitute(p.guard, (p.var, v))))
    def pair():
        m.assume(z3.And(g(x), g(y)))
        return less(x, y)
    low = FALSE
    for path in m.explore(pair):
        if path.kind != 'val': raise Unsupported('comparison raises')
        v = path.val
        if not is_bool(v): raise Unsupported('comparison')
        low = z3.Or(low, z3.And(path.cond, zb(v)))
    low = simp(low)
    lt = lambda u, v: z3.substitute(low, (x, u), (y, v))
    cnt, sel, rank = it.filt(p.lo, p.hi, p.var, p.guard)
    to, at = m.fresh_fn('sorted', INT, INT), m.fresh_fn('place', INT, INT)     # place in the sorted list <-> index
    # instances are asked for where they are needed: place t of the sorted list, indices i and j of the list
    it.sorts.append((to, at, lambda t: z3.Implies(z3.And(0 <= t, t < cnt), z3.And(g(to(t)), at(to(t)) == t)),
                     lambda i: z3.Implies(g(i), z3.And(0 <= at(i), at(i) < cnt, to(at(i)) == i)),
                     lambda i, j: z3.Implies(z3.And(g(i), g(j), at(i) < at(j)), z3.And(z3.Not(lt(j, i)), z3.Or(lt(i, j), i < j)))))
    v = z3.Int(m.fname('k'))
    it.m.heap[a[0].id] = LCell(LV([Sg(I(0), cnt, v, subst(p.elem, [(p.var, to(v))]), TRUE)]))


f_key, f_index = z3.Function('key', INT, STR), z3.Function('index_of_key', STR, INT)


def index_of(it, k):
    """the index of a key of the configuration"""
    t = it.zs(it.force(k))
    if z3.is_app(t) and t.decl().eq(f_key): return t.arg(0)
    raise Unsupported('another key')


class Config(Schema):
    """a dictionary of any number of selectors and what is configured for them"""
    name = 'configuration'
    def keys(self, it, s): return LV(it.sym_list(s.term, lambda i: mkR([f_key(i)]), 'keys').parts)
    def iterate(self, it, s): return self.keys(it, s)
    def length(self, it, s): return SI(s.term)
    def truth(self, it, s): return SB(s.term > 0)
    def item(self, it, s, k): return configured(index_of(it, k))
    def get(self, it, s, n):
        if n == 'keys': return Prim(n, lambda it, a, k: Frozen('list', self.keys(it, s)))
        if n == 'items': return Prim(n, lambda it, a, k: Frozen('list', it.sym_list(s.term, lambda i: (mkR([f_key(i)]), configured(i)), 'items')))
        if n == 'get': return Prim(n, lambda it, a, k: self.item(it, s, a[0]))
        raise Unsupported('%s of a configuration' % n)


def setup(it):
    m = it.m
    n = m.fresh('mappings', INT)
    m.assume(n >= 0)
    m.small.append(n <= 3)
    m.stubs['ext:cssselect.parse'] = lambda it, f, a, k: Sym(SEL, index_of(it, a[0]))
    rm = it.call(it.func(P + 'RendererMap'), [Sym(Config(), n)], {})
    node = Sym(NODEX, m.fresh('node', INT))
    def match(it, f, a, k):
        it.oblige('asks whether the element matches', lambda: same(a[0], node) or 'another')
        s = a[1]
        if not (isinstance(s, Sym) and s.schema is SEL): raise Unsupported('matches %r' % (s,))
        i = s.term
        return (SB(matches(i)), mkCh([(matches(i), tuple(SI(f(i)) for f in spec)), (z3.Not(matches(i)), None)]))
    m.stubs[S + 'tag_matches'] = match
    it.sort_hook = stable_sort
    it.sorts = []
    return rm, node, n


def last(it, n, cond, name):
    """the last in the order of precedence of the mappings that ..., if there is one: (there is one, it)"""
    m = it.m
    b, some = m.fresh('last ' + name, INT), m.fresh('some ' + name, BOOL)
    c = lambda i: z3.And(0 <= i, i < n, matches(i), cond(i))
    m.assume(z3.Implies(some, c(b)))
    if not it.sorts: m.imprecise.add('ordered in another way')          # ordered in another way: a failure would only mean that too little is known of it
    is_last = lambda i: z3.And(z3.Implies(z3.And(some, c(i)), z3.Or(lex(i, b), z3.And(z3.Not(lex(b, i)), i <= b))), z3.Implies(z3.Not(some), z3.Not(c(i))))
    # what is needed of it and of the sorted list: for it, and for the last of every selection the code makes
    places = []
    for key, f in list(m.filters):
        if f.ndeps == 0:
            cnt, sel, rank = f([])
            places.append(simp(sel(cnt - 1)))
    for to, at, place, index, order in it.sorts:
        xs = [b] + [to(t) for t in places]
        for t in places: m.assume(place(t))
        for x in xs: m.assume(index(x))
        for x in xs[1:]: m.assume(z3.And(is_last(x), order(b, x), order(x, b)))
        places = places + [at(b)]
    for t in places + [b]:
        for (lo, hi, g), f in list(m.filters):
            if f.ndeps == 0: m.assume(z3.Implies(z3.And(lo <= t, t < hi), f([])[2](t) >= 0))
    return some, b


@contract('C05', 'renderer of an element', modules=MODS)
def renderer(it):
    m = it.m
    rm, node, n = setup(it)
    got = it.force(it.call(it.getattr_(rm, 'get_for_tag'), [node], {}))
    some, b = last(it, n, names, 'that names one')
    if got is None:
        it.prove('one is found if there is one', z3.Not(some))
        m.cover('none')
        return
    it.prove('none is made up', some)
    r = it.force(it.item(got, 0))
    it.oblige('a renderer', lambda: isinstance(r, Sym) and r.schema is CLS or '%r' % (r,))
    if isinstance(r, Sym) and r.schema is CLS: it.prove('of the most specific that names one', r.term == cls_of(b))
    m.cover('found')


@contract('C05', 'settings of an element', modules=MODS)
def settings(it):
    m = it.m
    rm, node, n = setup(it)
    key = sstr(it, 'key')
    zk = it.zs(key)
    got = it.force(it.call(it.getattr_(rm, 'get_for_tag'), [node], {}))
    if got is None: return
    st = it.item(got, 1)
    present = m.choose(it.contains_(st, key))
    v = it.force(it.item(st, key)) if present else None
    some, b = last(it, n, lambda i: z3.And(z3.Not(plain(i)), sets(i), has_key(i, zk)), 'that sets it')
    if present:
        it.prove('set by a mapping', some)
        it.oblige('a setting', lambda: isinstance(v, Sym) and v.schema is ANY or '%r' % (v,))
        if isinstance(v, Sym): it.prove('by the most specific that sets it', v.term == val_of(b, zk))
        m.cover('set')
    else:
        it.prove('not lost', z3.Not(some))
        m.cover('not set')


def parsers(it):
    """(what the built-in maps are made of, what those of a parser with any options are made of, the options, both parsers)"""
    m = it.m
    given = []
    field(it, it.func(P + 'RendererMap'), 'get_for_tag')
    def new(it, cls, a, k):
        given.append(a[0] if a else k.get('renderer_dict'))
        return m.new_obj(cls)
    m.stubs['new:' + P + 'RendererMap'] = new
    builtin = parser(it)
    if len(given) != 2: raise Unsupported('made in another way')
    own = []
    for n in ('renderers', 'links'):
        has, val = z3.Function('given_has_' + n, STR, BOOL), z3.Function('given_' + n, STR, Obj)
        own.append(SymDict(n, lambda k, has=has: has(k), lambda k, val=val: Sym(ANY, val(k))))
    p = parser(it, renderers=Frozen('dict', DCell([('s', own[0])])), extracted_link_renderers=Frozen('dict', DCell([('s', own[1])])))
    return given[:2], given[2:], own, builtin, p


def configured_parser(which):
    def run(it):
        m = it.m
        before, after, own, _, p = parsers(it)
        it.oblige('a map for each', lambda: not same(field(it, p, '_renderer_map'), field(it, p, '_extracted_link_renderer_map')) or 'one for both')
        d, before, mine = after[which], before[which], own[which]
        literals = [p.val for p in it.as_lv(before).parts if isinstance(p, It)]
        if len(literals) != len(it.as_lv(before).parts) or not all(isinstance(k, str) for k in literals): raise Unsupported('the built-in mappings are made in another way')
        key = choice(it, 'key', [k for k in literals if k] + [None])
        if key is None:
            key = sstr(it, 'key')
            m.assume(z3.And([it.zs(key) != k for k in literals + ['']]))
        zk = it.zs(key)
        if m.choose(mine.has(zk)):
            there = m.choose(it.contains_(d, key))
            it.oblige('a mapping that is given is used', lambda: there or 'is lost')
            if there: it.oblige('as it is given', lambda: same(it.force(it.item(d, key)), mine.val(zk)) or 'another')
            m.cover('given')
            return
        known = m.choose(it.contains_(before, key))
        there = m.choose(it.contains_(d, key))
        it.oblige('otherwise the built-in ones', lambda: there == known or ('is lost' if known else 'is made up'))
        if there and known: it.oblige('unchanged', lambda: equal(it, it.item(d, key), it.item(before, key)) or 'changed')
        m.cover('built in')
    return run


contract('C05', 'what is configured for elements', modules=MODS)(configured_parser(0))
contract('C05', 'what is configured for extracted links', modules=MODS)(configured_parser(1))


@contract('C05', 'default renderer', modules=MODS)
def default(it):
    """what is given for the empty selector is the default renderer, and not a mapping"""
    m = it.m
    before, after, own, builtin, p = parsers(it)
    dflt = it.force(field(it, p, '_default_renderer'))
    none = z3.StringVal('')
    if m.choose(own[0].has(none)): it.oblige('default renderer given', lambda: same(dflt, own[0].val(none)) or 'another')
    else: it.oblige('built-in default renderer', lambda: equal(it, dflt, it.force(it.getattr_(builtin, '_default_renderer'))) or 'another')
    it.prove('no mapping of it', z3.Not(zb(it.contains_(after[0], ''))))
    m.cover('default')


def equal(it, a, b):
    a, b = it.force(a), it.force(b)
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(equal(it, x, y) for x, y in zip(a, b))
    if isinstance(a, Ref) and isinstance(b, Ref) and not same(a, b):
        x, y = it.m.cell(a), it.m.cell(b)
        if isinstance(x, DCell) and isinstance(y, DCell) and all(l[0] == 'c' for c in (x, y) for l in c.layers):
            x, y = [{k: v for l in c.layers for k, v in l[1].items()} for c in (x, y)]
            return set(x) == set(y) and all(equal(it, x[k], y[k]) for k in x)
        if isinstance(x, LCell) and isinstance(y, LCell): return len(x.lv.parts) == len(y.lv.parts) and all(isinstance(p, It) and isinstance(q, It) and equal(it, p.val, q.val) for p, q in zip(x.lv.parts, y.lv.parts))
        raise Unsupported('comparison')
    return same(a, b)
