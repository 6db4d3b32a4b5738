"""C07: the tree holds every tag and text once, in document order, properly nested.

The invariant of a parser: what is open is on the stack, innermost last, none of it closed and none of it br or img.
Each handler, from any such state, does what the property says to the innermost open element and keeps the invariant."""
from .parserkit import *


def look(it, p, tree, top):
    """everything a handler could change in the tree"""
    out = dict(stack=it.as_lv(it.getattr_(p, '_tag_stack')), document=it.as_lv(it.getattr_(tree, 'children')), tree=it.getattr_(p, 'tree'))
    if top is not None:
        out['kids'] = it.as_lv(it.getattr_(top, 'children'))
        for n in ('tag', 'parent', 'closed'): out[n] = it.getattr_(top, n)
    return out


def compare(it, before, after, plus, less=()):
    for k, want in before.items():
        got = after[k]
        if isinstance(want, LV):
            if k in plus: want = LV(list(want.parts) + [It(plus[k])])
            if k in less: want = LV(list(want.parts)[:-1])
            it.oblige({'stack': 'what is open', 'document': 'the nodes of the document', 'kids': 'the children of the innermost open element'}[k],
                      lambda: same_lists(it, got, want) or 'is %r' % (got,))
        elif k in plus: it.prove('closed', zb(it.py_eq(got, plus[k])))
        else: it.oblige('%s stays' % k, lambda: same(got, want) or 'it changes')


def added(it, before, after, top):
    k = 'kids' if top is not None else 'document'
    a, b = before[k].parts, after[k].parts
    if len(b) == len(a) + 1 and isinstance(b[-1], It): return k, b[-1].val
    it.oblige('one node is added', lambda: 'not to the end of the innermost open element'); return k, None


@contract('C07', 'start tag', modules=MODS, budget=40)
def start(it):
    m = it.m
    stub_url(it)
    m.stubs[P + 'LinkParser._parse_href'] = lambda it, f, a, k: m.new_dict({})
    o, p, tree, top, n = state(it)
    tag = choice(it, 'tag', ['a', 'img', 'br', 'pre', None]) or sstr(it, 'tag')
    if not isinstance(tag, str): m.assume(z3.Not(z3.Or(*[zb(it.py_eq(tag, t)) for t in ('a', 'img', 'br', 'pre')])))
    if choice(it, 'attributes', [True, False]): attrs = m.new_list([('class', sstr(it, 'class')), ('id', None), ('href', sstr(it, 'href'))])
    else: attrs = m.new_list()
    before = look(it, p, tree, top)
    it.call(it.getattr_(p, 'handle_starttag'), [tag, attrs], {})
    after = look(it, p, tree, top)
    k, t = added(it, before, after, top)
    if t is None: return
    void = tag in ('br', 'img') if isinstance(tag, str) else False
    plus = {k: t}
    if not void: plus['stack'] = t
    compare(it, before, after, plus)
    it.prove_eq('its name', it.getattr_(t, 'tag'), tag)
    it.prove('it is open unless it is br or img', zb(it.py_eq(it.getattr_(t, 'closed'), void)))
    it.oblige('its parent', lambda: same(it.getattr_(t, 'parent'), top if top is not None else tree) or 'another')
    v = it.as_lv(it.getattr_(t, 'children'))
    it.oblige('it is empty', lambda: not v.parts or 'it has children')
    m.cover('start')


@contract('C07', 'text', modules=MODS)
def data(it):
    m = it.m
    quiet_constructors(it)
    o, p, tree, top, n = state(it)
    before = look(it, p, tree, top)
    x = sstr(it, 'text')
    it.call(it.getattr_(p, 'handle_data'), [x], {})
    after = look(it, p, tree, top)
    k, t = added(it, before, after, top)
    if t is None: return
    compare(it, before, after, {k: t})
    it.oblige('a text', lambda: it.m.cell(t).cls.name == 'DataParser' or 'something else')
    m.cover('text')


@contract('C07', 'end tag', modules=MODS)
def end(it):
    m = it.m
    o, p, tree, top, n = state(it)
    tag = choice(it, 'tag', ['img', 'br', None]) or sstr(it, 'tag')
    if not isinstance(tag, str): m.assume(z3.Not(z3.Or(*[zb(it.py_eq(tag, t)) for t in ('img', 'br')])))
    before = look(it, p, tree, top)
    it.call(it.getattr_(p, 'handle_endtag'), [tag], {})
    after = look(it, p, tree, top)
    if top is not None and not isinstance(tag, str) and m.choose(zb(it.py_eq(before['tag'], tag))):
        compare(it, before, after, dict(closed=True), ['stack'])
    else: compare(it, before, after, {})
    m.cover('end')


def quiet(name):
    def run(it):
        quiet_nodes(it); quiet_constructors(it)
        o, p, tree, top, n = state(it)
        before = look(it, p, tree, top)
        h = dict(handlers(it, p))
        if name not in h: it.prove('not overridden', z3.BoolVal(True)); return
        h[name]()
        after = look(it, p, tree, top)
        if name == 'close': before['stack'] = after['stack']
        compare(it, before, after, {})
        it.m.cover(name)
    return run


# a document is not changed by anything else, nor by being finished
for _n in ('handle_comment', 'handle_decl', 'handle_pi', 'unknown_decl', 'feed', 'close'): contract('C07', _n + ' leaves the tree alone', modules=MODS)(quiet(_n))


@contract('C07', 'empty elements', modules=MODS)
def startend(it):
    """<x/> is a start tag and an end tag"""
    p = parser(it)
    f = it.class_lookup(it.m.cell(p).cls, 'handle_startendtag')
    if isinstance(f, Func):
        done = []
        for n in ('handle_starttag', 'handle_endtag'):
            it.m.stubs[P + 'GopherHTMLParser.' + n] = lambda it, f, a, k, n=n: done.append((n, a[1]))
        t = sstr(it, 'tag')
        it.call(it.getattr_(p, 'handle_startendtag'), [t, it.m.new_list()], {})
        it.oblige('a start tag and an end tag', lambda: [n for n, x in done if same(x, t)] == ['handle_starttag', 'handle_endtag'] or 'handled as %r' % (done,))
    else: it.prove('as the standard library has it', z3.BoolVal(True))


@contract('C07', 'new parser', modules=MODS)
def new(it):
    p = parser(it)
    for o, n in ((p, '_tag_stack'), (field(it, p, 'tree'), 'children')):
        v = it.as_lv(field(it, o, n))
        it.oblige('nothing is open and nothing there', lambda: not v.parts or 'something is')
