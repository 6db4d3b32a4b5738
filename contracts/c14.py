"""C14: a framed block is a rectangle of the right size around unchanged content."""
from pyvc.contract import *
from . import esc

R = 'gopher_render.rendering:'
MODS = ['_namedict', '_textwrap', 'rendering']


def four(it, name, f=sint): return it.m.new_list([f(it, '%s%d' % (name, k)) for k in range(4)])


def nest(it):
    """a box of any size inside others (what boxes compute is C13)"""
    from .c13 import any_box
    return any_box(it)


def block(it, cls='BlockRenderer'):
    border, margin, padding = four(it, 'border', sstr), four(it, 'margin'), four(it, 'padding')
    for k in range(4): it.m.assume(zi(it.item(padding, k)) >= 0)       # the property is about frames, which have no negative paddings
    st = dict(border=border, margin=margin, padding=padding)
    r = it.call(it.func(R + cls), [sany(it, 'tag')], dict(parent_box=nest(it), settings=it.m.new_dict(st)))
    return r, border, margin, padding


@contract('C14', 'rows', modules=MODS)
def rows(it):
    esc.hook(it)
    r, border, margin, padding = block(it)
    c = sstr(it, 'content')
    got = text(it, it.call(field(it, r, '_border_render'), [c], {}))
    box = it.getattr_(r, 'box')
    lines = it.s_split(c, '\n')
    vis = Prim('visible', lambda it, a, k: esc.visible(it, a[0]))
    want = spec(it, 'c14')('frame', lines, border, padding, it.getattr_(box, 'padded_width'), it.getattr_(box, 'bordered_width'), vis)
    it.prove_eq('rows in order', got, want)


@contract('C14', 'margins', modules=MODS)
def margins(it):
    r, border, margin, padding = block(it)
    c = sstr(it, 'block')
    got = text(it, it.call(field(it, r, '_outer_render'), [c], {}))
    it.prove_eq('margins around the block', got, spec(it, 'c14')('margins', c, margin))


@contract('C14', 'width', modules=MODS)
def width(it):
    """lemma: the rows of the specification have the outer width"""
    m = it.m
    esc.hook(it)
    r, border, margin, padding = block(it)
    box = it.getattr_(r, 'box')
    inner, outer = it.getattr_(box, 'padded_width'), it.getattr_(box, 'bordered_width')
    line = sstr(it, 'line')
    m.assume(esc.f_whole(it.zs(line)))
    for k in (1, 3):
        m.assume(no_chars(it, it.item(border, k), esc.ESC))
    L, Rt = (zi(it.item(padding, k)) for k in (3, 1))
    m.assume(z3.And(L >= 0, Rt >= 0))
    vis = lambda s: it.call(it.func('gopher_render._textwrap:_len'), [s], {})
    m.assume(zi(vis(line)) + L + Rt <= zi(inner))
    row = spec(it, 'c14')('row', line, border, padding, inner, Prim('visible', lambda it, a, k: esc.visible(it, a[0])))
    it.prove('width of a row', zi(vis(row)) == zi(outer))
    pad = it.s_cat(it.item(border, 3), mkR([Rep(' ', zi(inner))]), it.item(border, 1))
    it.prove('width of a padding row', zi(vis(pad)) == zi(outer))
    one = sstr(it, 'char')
    m.assume(z3.Length(it.zs(one)) == 1)
    m.assume(no_chars(it, one, esc.ESC))
    it.prove('width of a border row', zi(vis(mkR([Rep(one, zi(outer))]))) == zi(outer))
    # and that width is the content width of the parent less the markers and the margins of the block
    it.prove('outer width of the box', zi(outer) == zi(it.getattr_(it.getattr_(box, 'parent'), 'inner_width')) - zi(it.item(margin, 3)) - zi(it.item(margin, 1))
             - zi(it.getattr_(it.getattr_(box, 'parent'), 'total_line_template_padding')))


def composed(cls):
    def run(it):
        """render = margins around the frame around the content of the element"""
        esc.hook(it)
        r, border, margin, padding = block(it, cls)
        c = sstr(it, 'content')
        got = text(it, it.call(it.getattr_(r, 'render'), [c], {}))
        a = it.call(field(it, r, '_border_render'), [c], {})
        it.prove_eq('composition', got, it.call(field(it, r, '_outer_render'), [a], {}))
    return run


for _c in ('BlockRenderer', 'ListRenderer', 'DefinitionListRenderer'):
    contract('C14', 'composition: ' + _c, modules=MODS)(composed(_c))
