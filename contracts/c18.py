"""C18: list items carry the right marker and ordinal and align under it."""
from .nodes import *
from .c13 import any_box

R = 'gopher_render.rendering:'
MODS = ['_namedict', '_textwrap', 'rendering', '_selectors', '_parser']
f_just = z3.Function('justified', STR, STR, INT, STR)
JUST = dict(left='left_justify', full='full_justify', right='right_justify', center='center_justify')
ASSUMPTIONS = ['line templates have the form before{}after (before{0}between{1}after for ordered lists), without other braces',
               'the tree is one the parser built (C07): every element is one of the children of its parent, once']


def justify(it, kind):
    def just(it, f, args, kw):
        s, w = args[0], args[1] if len(args) > 1 else kw.get('width')
        return mkR([f_just(it.zs(kind), it.zs(s), zi(w))])
    for k, n in JUST.items():
        it.m.stubs[R + n] = just if k == kind else (lambda it, f, args, kw: it.m.fail('justification', 'another justification is used') or '')


def create(it, cls, st, tag):
    box = any_box(it)
    return it.call(it.func(R + cls), [tag], dict(parent_box=box, settings=it.m.new_dict(st)))


def shown(it, r, c, kind, before, after):
    got = text(it, it.call(field(it, r, '_inner_render'), [c], {}))
    w = zi(it.getattr_(it.getattr_(r, 'box'), 'inner_width_excluding_line_template'))
    body = c if kind == 'none' else mkR([f_just(it.zs(kind), it.zs(c), w)])
    lines = it.m.new_list(it.as_lv(it.s_split(body, '\n')))
    it.prove_eq('first line behind the marker, others under it', got, spec(it, 'c18')('item', lines, before, after))
    # the text has the width of the box less the marker
    it.prove('width of the text', w == zi(it.getattr_(it.getattr_(it.getattr_(r, 'box'), 'parent'), 'inner_width_excluding_line_template')) - it.s_len(before) - it.s_len(after))


def plain(cls, default):
    def run(it):
        m = it.m
        st, before, after = {}, default, ''
        if m.choose(m.fresh('own template', BOOL)):
            before, after = sstr(it, 'before'), sstr(it, 'after')
            for x in (before, after): m.assume(no_chars(it, x, '{}'))
            st['line_template'] = it.s_cat(before, '{}', after)
        kind = choice(it, 'justification', ['left', 'full', 'right', 'center', 'none'])
        if kind != 'left' or m.choose(m.fresh('named', BOOL)): st['justification'] = kind
        justify(it, kind)
        r = create(it, cls, st, sany(it, 'tag'))
        shown(it, r, sstr(it, 'content'), kind, before, after)
    return run


contract('C18', 'list item', modules=MODS)(plain('ListItemRenderer', '* '))
contract('C18', 'definition', modules=MODS)(plain('DefinitionListItemRenderer', ': '))


def template3(it, st):
    a, b, c = '', '. ', ''
    if it.m.choose(it.m.fresh('own template', BOOL)):
        a, b, c = sstr(it, 'before'), sstr(it, 'between'), sstr(it, 'after')
        for x in (a, b, c): it.m.assume(no_chars(it, x, '{}'))
        st['line_template'] = it.s_cat(a, '{0}', b, '{1}', c)
    return a, b, c


def ordinal(it, own_step):
    """the number in the marker of an element of an ordered list"""
    m = it.m
    n = element(it)
    t = n.term
    NODE.attached(it, t)
    start, step = 1, 1
    st = {}
    if m.choose(m.fresh('own start', BOOL)): start = st['start_index'] = sint(it, 'start')
    if own_step: step = st['step'] = sint(it, 'step')
    p = parent_of(t)
    v = z3.Int('p!')
    cnt, sel, rank = it.filt(I(0), nchild(p), v, z3.Not(is_text(child(p, v))))
    before = rank(pos(t))                       # elements in front of this one in the list
    num = it.str_of(mkI(zi(start) + before * zi(step)))
    a, b, c = sstr(it, 'before'), sstr(it, 'between'), sstr(it, 'after')
    for x in (a, b, c): it.m.assume(no_chars(it, x, '{}'))
    st['line_template'] = it.s_cat(a, '{0}', b, '{1}', c)
    r = create(it, 'OrderedListItemRenderer', st, n)
    got = text(it, field(it, field(it, r, 'settings'), 'line_template'))
    it.prove_eq('number and marker', got, it.s_cat(a, num, b, '{}', c))
    it.prove('width of the marker', zi(it.getattr_(it.getattr_(r, 'box'), 'line_template_padding')) == it.s_len(got) - 2)


contract('C18', 'ordinal by steps of one', modules=MODS)(lambda it: ordinal(it, False))
contract('C18', 'ordinal', modules=MODS)(lambda it: ordinal(it, True))


@contract('C18', 'ordered list item', modules=MODS)
def ordered(it):
    """the same, for any number (which number it is: 'ordinal')"""
    st = {}
    a, b, c = template3(it, st)
    num = sint(it, 'number')
    q = R + 'OrderedListItemRenderer._get_ordinal'
    field(it, it.func(R + 'OrderedListItemRenderer'), '_get_ordinal')
    it.m.stubs[q] = lambda it, f, args, kw: num
    justify(it, 'left')
    r = create(it, 'OrderedListItemRenderer', st, sany(it, 'tag'))
    if q not in it.m.stub_used: raise Unsupported('the number is computed elsewhere')
    shown(it, r, sstr(it, 'content'), 'left', it.s_cat(a, it.str_of(num), b), c)
