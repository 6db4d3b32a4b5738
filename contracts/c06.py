"""C06: settings are inherited key by key and never leak between renderers.

A renderer is made of a class with any number of classes behind it, each with or without any settings, and with any
settings configured for it; any key is looked up in what it ends up with."""
from .parserkit import *

R_ = 'gopher_render.rendering:'
MODS_R = ['_namedict', '_textwrap', 'rendering']
ASSUMPTIONS = ['the classes in the inheritance chain of a renderer are those inspect.getmro, __mro__ and mro() give',
               'no key of the settings is the name of an attribute of dict or object']
has_set = z3.Function('class_has_settings', INT, BOOL)
has_key, val_of = z3.Function('class_sets_key', INT, STR, BOOL), z3.Function('class_setting', INT, STR, Obj)


class Klass(Schema):
    """a class in the inheritance chain"""
    name = 'class'
    def settings(self, i): return Frozen('dict', DCell([('s', SymDict('settings of class', lambda k: has_key(i, k), lambda k: Sym(ANY, val_of(i, k))))]))
    def get(self, it, s, n):
        if n == 'settings':
            if it.m.choose(has_set(s.term)): return self.settings(s.term)
            it.raise_('AttributeError', n)
        if n == '__dict__': return mkCh([(has_set(s.term), Frozen('dict', DCell([('c', {'settings': self.settings(s.term)})]))), (z3.Not(has_set(s.term)), Frozen('dict', DCell([])))])
        raise Unsupported('attribute %s of a class' % n)
    def has(self, it, s, n):
        if n == 'settings': return SB(has_set(s.term))
        raise Unsupported('attribute %s of a class' % n)

KLASS = Klass()


def renderer_class(it):
    """a class with any number of classes behind it: (class, how many)"""
    m = it.m
    base = it.func(R_ + 'Renderer')
    field(it, base, '__new__')
    n = m.fresh('classes', INT)
    m.assume(n >= 1)
    m.small.append(n <= 3)
    cls = Class('AnyRenderer', [base], {}, base.module)
    cls.meta = getattr(base, 'meta', None)
    cls.chain = Frozen('list', it.sym_list(n, lambda i: Sym(KLASS, i), 'chain'))
    return cls, n


def configured(it, name='conf'):
    """settings for one renderer: any, None, or nothing at all: (keyword arguments, has, value)"""
    how = choice(it, name, ['any', None, 'absent'])
    if how == 'any':
        h, v = it.m.fresh_fn(name + '_sets', STR, BOOL), it.m.fresh_fn(name + '_value', STR, Obj)
        return dict(settings=Frozen('dict', DCell([('s', SymDict(name, lambda k: h(k), lambda k: Sym(ANY, v(k))))]))), h, v
    return (dict(settings=None) if how is None else {}), (lambda k: z3.BoolVal(False)), None


@contract('C06', 'settings of a new renderer', modules=MODS_R)
def new(it):
    m = it.m
    cls, n = renderer_class(it)
    kw, h, v = configured(it)
    r = it.call(cls, [sany(it, 'tag')], kw)
    st = it.force(it.getattr_(r, 'settings'))
    key = sstr(it, 'key')
    k = it.zs(key)
    there = m.choose(it.contains_(st, key))
    got = it.force(it.item(st, key)) if there else None
    it.oblige('a setting', lambda: not there or isinstance(got, Sym) or '%r' % (got,))
    if m.choose(h(k)):
        it.oblige('the configured one is there', lambda: there or 'is lost')
        if there: it.prove('the configured one', got.term == v(k))
        m.cover('configured')
        return
    b, some = m.fresh('most derived', INT), m.fresh('some', BOOL)
    c = lambda i: z3.And(0 <= i, i < n, has_set(i), has_key(i, k))
    m.assume(z3.Implies(some, c(b)))
    # instances for what the code selects: no class before b sets the key
    fs = [f([]) for _, f in list(m.filters) if f.ndeps == 0]
    chosen = [simp(sel(cnt - 1)) for cnt, sel, rank in fs]
    chosen += [simp(sel(x)) for x in chosen for _, sel, _ in fs]
    for x in chosen + [simp(n - 1 - x) for x in chosen]:
        m.assume(z3.And(z3.Implies(z3.And(some, c(x)), b <= x), z3.Implies(z3.Not(some), z3.Not(c(x)))))
    for x in (b, n - 1 - b):
        for cnt, sel, rank in fs: m.assume(z3.Implies(z3.And(0 <= x, x < n), rank(x) >= 0))
    if there:
        it.prove('some class gives it', some)
        it.prove('the most derived class that gives one', got.term == val_of(b, k))
        m.cover('inherited')
    else:
        it.prove('not lost', z3.Not(some))
        m.cover('none')


@contract('C06', 'settings of its own', modules=MODS_R)
def own(it):
    """what happens to one renderer and its settings does not change those of another"""
    m = it.m
    cls, n = renderer_class(it)
    kw, _, _ = configured(it, 'first')
    kw2 = choice(it, 'second', ['same', 'other'])
    kw2 = kw if kw2 == 'same' else configured(it, 'other')[0]
    r1 = it.call(cls, [sany(it, 'tag')], kw)
    before = m.cell(it.getattr_(r1, 'settings'))
    r2 = it.call(cls, [sany(it, 'tag2')], kw2)
    st = it.getattr_(r2, 'settings')
    it.setitem(st, sstr(it, 'key'), sany(it, 'value'))
    it.call(it.getattr_(st, 'update'), [Frozen('dict', DCell([('s', SymDict('more', lambda k: z3.Function('more_has', STR, BOOL)(k), lambda k: Sym(ANY, z3.Function('more', STR, Obj)(k))))]))], {})
    it.setattr_(st, 'template', 'x')
    it.oblige('settings of the other renderer', lambda: m.cell(it.getattr_(r1, 'settings')) is before or 'change')
    m.cover('own')


@contract('C06', 'settings of any kind', modules=MODS_R)
def kinds(it):
    """whatever kinds of values the class and the configuration have, the one configured is taken as it is"""
    m = it.m
    base = it.func(R_ + 'Renderer')
    field(it, base, '__new__')
    KINDS = ['dict', 'list', 'tuple', 'text', 'number', 'None']
    def value(kind, name):
        x = lambda k: sany(it, name + k)
        return {'dict': lambda: m.new_dict({'a': x('a'), name: x('n')}), 'list': lambda: m.new_list([x('a'), x('b')]), 'tuple': lambda: (x('a'), x('b')),
                'text': lambda: sstr(it, name), 'number': lambda: sint(it, name), 'None': lambda: None}[kind]()
    k1, k2 = choice(it, 'of the class', KINDS), choice(it, 'configured', KINDS + ['absent'])
    v1, v2 = value(k1, 'class'), value(k2, 'conf') if k2 != 'absent' else None
    mine, conf = m.new_dict({'k': v1, 'other': sany(it, 'other')}), m.new_dict({'k': v2} if k2 != 'absent' else {})
    cls = Class('Mine', [base], {'settings': m.alloc(DCell(m.cell(mine).layers, it.func('gopher_render._namedict:namedict')))}, base.module)
    cls.meta = getattr(base, 'meta', None)
    cls.chain = Frozen('list', it.lv([cls] + list(base.mro)))
    seen = {}
    for v in (mine, conf, cls.ns['settings'], base.ns['settings']): content(it, v, seen)
    r = it.call(cls, [sany(it, 'tag')], dict(settings=conf))
    st = it.force(it.getattr_(r, 'settings'))
    got = it.force(it.item(st, 'k'))
    want = v1 if k2 == 'absent' else v2
    def is_it(a, b):
        if isinstance(b, Ref): return isinstance(a, Ref) and (a.id == b.id or same_cell(m.cell(a), m.cell(b)))
        return same(a, b)
    it.oblige('the value given', lambda: is_it(got, want) or '%r instead of %r' % (got, want))
    bad = [k for k, c in seen.items() if not same_cell(m.heap[k], c)]
    it.oblige('settings of classes and configuration', lambda: not bad or 'change: %r' % [m.heap[k] for k in bad])
    m.cover(k1 + ' ' + k2)


# --- settings of a class -------------------------------------------------------------

@contract('C06', 'settings of a new class', modules=MODS_R)
def klass(it):
    """every class has a dictionary of its own, with the settings it was given"""
    m = it.m
    base = it.func(R_ + 'Renderer')
    meta = getattr(base, 'meta', None)
    if meta is None: raise Unsupported('classes are made in another way')
    how = choice(it, 'given', ['none', 'dict', 'namedict'])
    key = sstr(it, 'key')
    zk = it.zs(key)
    h, v = m.fresh_fn('given_has', STR, BOOL), m.fresh_fn('given', STR, Obj)
    ns = {'__module__': 'x'}
    any_ = [('s', SymDict('given', lambda k: h(k), lambda k: Sym(ANY, v(k))))]
    if how == 'dict': ns['settings'] = m.alloc(DCell(any_))
    if how == 'namedict': ns['settings'] = m.alloc(DCell(any_, it.func('gopher_render._namedict:namedict')))
    mid = it.call(it.class_lookup(meta, '__new__'), [meta, 'Mid', (base,), m.new_dict({'__module__': 'x'})], {})
    mid.meta = meta
    olds = [m.cell(c.ns['settings']) for c in (base, mid)]
    cls = it.call(it.class_lookup(meta, '__new__'), [meta, 'Mine', (mid,), m.new_dict(ns)], {})
    st = it.force(cls.ns.get('settings'))
    it.oblige('a dictionary of its own', lambda: isinstance(st, Ref) and isinstance(m.cell(st), DCell) and all(st.id != c.ns['settings'].id for c in (base, mid)) or '%r' % (st,))
    there = m.choose(it.contains_(st, key))
    it.prove('exactly the settings given', zb(there) == (h(zk) if how != 'none' else z3.BoolVal(False)))
    if there and how != 'none':
        got = it.force(it.item(st, key))
        it.oblige('as they are given', lambda: same(got, Sym(ANY, v(zk))) or 'another')
    it.setitem(st, key, 1)
    for c, o in zip((base, mid), olds):
        it.oblige('the settings of another class', lambda: m.cell(c.ns['settings']) is o or 'change')
    m.cover(how)


# --- rendering ---------------------------------------------------------------------------

def renderers(it):
    mod = it.func(R_ + 'Renderer').module
    base = it.func(R_ + 'Renderer')
    return [c for c in mod.ns.values() if isinstance(c, Class) and base in c.mro]


def content(it, v, seen):
    """what is in a value: cells by identity and the cells themselves"""
    v = it.force(v)
    if isinstance(v, tuple):
        for x in v: content(it, x, seen)
    if not isinstance(v, Ref) or v.id in seen: return
    c = it.m.cell(v)
    seen[v.id] = c
    if isinstance(c, LCell):
        for p in c.lv.parts:
            if isinstance(p, It): content(it, p.val, seen)
    if isinstance(c, DCell):
        for l in c.layers:
            if l[0] == 'c':
                for x in l[1].values(): content(it, x, seen)
    if isinstance(c, OCell):
        for x in c.fields.values(): content(it, x, seen)


def rendering(name, form='text'):
    def run(it):
        m = it.m
        cls = it.func(R_ + name)
        m.FEAS_MS, m.PROVE_MS = 100, 200        # only what changes matters here, not what is rendered
        f_line, n = m.fresh_fn('line', INT, STR), m.fresh('nlines', INT)
        m.assume(n >= 0)
        from . import esc
        esc.hook(it)
        m.stubs['gopher_render._textwrap:wrap'] = lambda it, f, a, k: m.new_list(it.sym_list(n, lambda i: mkR([f_line(i)]), 'lines'))
        for j in ('left', 'right', 'full', 'center'):
            for q in (j, j + '_justify'): m.stubs[R_ + q] = lambda it, f, a, k: sstr(it, 'justified')
        side = lambda s, f: m.new_list([f(it, '%s%d' % (s, k)) for k in range(4)])
        conf = m.new_dict(dict(margin=side('margin', sint), padding=side('padding', sint), border=m.new_list(['-', '', sstr(it, 'border'), '|'])))
        fmt = form
        tag = it.call(it.func('gopher_render._parser:TagParser'), ['h2' if 'Header' in name else 'li', Sym(NODEX, m.fresh('parent', INT)), m.new_list([])], {})
        if name == 'OrderedListItemRenderer':
            field(it, cls, '_get_ordinal')
            m.stubs[R_ + name + '._get_ordinal'] = lambda it, f, a, k: sint(it, 'number')      # C18
        ctx = dict(output_format=fmt, href='/x', title=choice(it, 'title', ['t', None]) if 'Link' in name or 'Image' in name else None,
                   gopher_link=m.new_dict(dict(type=sstr(it, 'type'), selector=sstr(it, 'selector'), host=sstr(it, 'host'), port=sint(it, 'port'))),
                   link_reference=sint(it, 'ref'), link_placement=choice(it, 'placement', ['inline', 'footer']) if name == 'LinkRenderer' else 'footer', image_placement=choice(it, 'placement', ['inline', 'footer']) if name == 'ImageRenderer' else 'footer',
                   settings=conf, parent_box=any_box(it))
        other = it.call(cls, [tag], dict(ctx))
        seen = {}
        for c in renderers(it): content(it, c.ns['settings'], seen)
        content(it, conf, seen)
        content(it, it.getattr_(other, 'settings'), seen)
        r = it.call(cls, [tag], dict(ctx))
        it.call(it.getattr_(r, 'render'), [sstr(it, 'content')], {})
        bad = [k for k, c in seen.items() if not same_cell(m.heap[k], c)]
        it.oblige('settings of classes, configuration and other renderers', lambda: not bad or 'change: %r' % [m.heap[k] for k in bad])
        m.cover('rendered')
    return run


def same_cell(a, b): return a is b or type(a) is type(b) and repr(a) == repr(b)


for _n in 'Renderer NonRenderer InlineRenderer BlockRenderer HeaderRenderer MarkdownHeaderRenderer ParagraphRenderer CodeRenderer PreRenderer LinkRenderer ExtractedLinkRenderer ImageRenderer ExtractedImageLinkRenderer EmRenderer StrongRenderer UnderlineRenderer StrikethroughRenderer BreakRenderer BlockQuoteRenderer ListRenderer ListItemRenderer OrderedListItemRenderer DefinitionListRenderer DefinitionListTermHeaderRenderer DefinitionListItemRenderer AnsiEscapeCodeRenderer'.split():
    contract('C06', 'rendering with ' + _n, modules=MODS)(rendering(_n))
    if 'Extracted' in _n: contract('C06', 'rendering with %s in a gophermap' % _n, modules=MODS)(rendering(_n, 'gophermap'))
