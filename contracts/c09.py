"""C09: links are numbered in document order and each is listed exactly once.

A start tag gives a link the next number and puts it on exactly one list (its block's, the document's or the footer);
nothing else touches numbers or lists; every list is rendered exactly once, at the end of its element or the document,
and never within the listing of another link."""
import ast
from .parserkit import *
from . import c23

def check(it, before, after, plus):
    for k in before:
        want = before[k]
        if k == 'number': want = it.binop(ast.Add(), want, plus.get(k, 0)); it.prove_eq('the next number', text(it, after[k]), text(it, want)); continue
        if k in plus: want = LV(list(want.parts) + [It(plus[k])])
        it.oblige('the links of the ' + k, lambda: same_lists(it, after[k], want) or 'the list is another: %r' % (after[k],))


@contract('C09', 'start tag', modules=MODS, budget=40)
def start(it):
    m = it.m
    stub_url(it)
    m.stubs[P + 'LinkParser._parse_href'] = lambda it, f, a, k: m.new_dict({})     # C11
    o, p, tree, top, n = state(it)
    tag = choice(it, 'tag', ['a', 'img', None]) or sstr(it, 'tag')
    link = isinstance(tag, str)
    if not link: m.assume(z3.Not(z3.Or(zb(it.py_eq(tag, 'a')), zb(it.py_eq(tag, 'img')))))
    place = {'a': o['link_placement'], 'img': o['image_placement']}[tag] if link else 'inline'
    before = lists(it, p, tree, top)
    parent = top if top is not None else tree
    k0 = it.as_lv(it.getattr_(parent, 'children'))
    it.call(it.getattr_(p, 'handle_starttag'), [tag, m.new_list([('href', sstr(it, 'href')), ('src', sstr(it, 'src'))])], {})
    k1 = it.as_lv(it.getattr_(parent, 'children'))
    if len(k1.parts) != len(k0.parts) + 1 or not isinstance(k1.parts[-1], It): it.oblige('one node is added', lambda: 'not to the innermost open element'); return
    t = k1.parts[-1].val
    plus = dict(number=0 if place == 'inline' else 1)
    if place == 'footer': plus['footer'] = t
    if place == 'after_block': plus['block' if top is not None else 'document'] = t
    check(it, before, lists(it, p, tree, top), plus)
    m.cover('start')
    if not link: return
    # the number it has been given is the one its renderers are told
    made = []
    r = (c23.maker(it, None, made, []), m.new_dict({'margin': 1}))
    it.call(it.getattr_(t, 'assign_renderer'), [(r, r)], {})
    it.call(it.getattr_(t, 'render'), [any_box(it)], {})
    it.call(it.getattr_(t, 'link_render'), [any_box(it)], {})
    for _, k in made:
        if place != 'inline': it.prove_eq('its number', text(it, k['link_reference']), text(it, n))


def quiet(name):
    def run(it):
        m = it.m
        quiet_nodes(it); quiet_constructors(it)
        o, p, tree, top, n = state(it)
        before = lists(it, p, tree, top)
        h = dict(handlers(it, p))
        if name not in h: raise Unsupported('no ' + name)
        h[name]()
        check(it, before, lists(it, p, tree, top), {})
        m.cover(name)
    return run


for _n in ('handle_endtag', 'handle_data'): contract('C09', _n + ' leaves the links alone', modules=MODS)(quiet(_n))


@contract('C09', 'new parser', modules=MODS)
def new(it):
    p = parser(it)
    it.prove_eq('the first number', text(it, field(it, p, '_next_link_number')), '1')
    tree = field(it, p, 'tree')
    for o, n in ((p, '_footer_pending_links'), (tree, '_pending_links')):
        v = it.as_lv(field(it, o, n))
        it.oblige('nothing waits', lambda: not v.parts or 'something does')
    for c in ('TagParser', 'LinkParser'):
        it.m.stubs[P + 'LinkParser._parse_href'] = lambda it, f, a, k: it.m.new_dict({})
        t = it.call(it.func(P + c), ['a', tree, it.m.new_list()], {})
        v = it.as_lv(field(it, t, '_pending_links'))
        it.oblige('nothing waits for the end of a new element', lambda: not v.parts or 'something does')


contract('C09', 'listed at the end of an element', modules=MODS)(c23.run('tag', None))
contract('C09', 'listed at the end of the document', modules=MODS)(c23.document)
contract('C09', 'nothing is listed inside a listing: element', modules=MODS)(c23.run('tag', None, again=True, listed=False))
for _k, _p in (('a', 'inline'), ('img', 'inline'), ('a', 'footer'), ('img', 'footer'), ('a', 'after_block')):
    contract('C09', 'listed at the end of %s, %s' % (_k, _p), modules=MODS)(c23.run(_k, _p))
    contract('C09', 'nothing is listed inside a listing: %s, %s' % (_k, _p), modules=MODS)(c23.run(_k, _p, again=True, listed=False))
    if _p != 'inline': contract('C09', 'listing of %s, %s' % (_k, _p), modules=MODS)(c23.run(_k, _p, True))
