"""C13: nested boxes divide the width of the document exactly."""
from pyvc.contract import *

BOX = 'gopher_render.rendering:Box'


def four(it, name):
    return it.m.new_list([sint(it, '%s%d' % (name, k)) for k in range(4)])


def havoc_box(it, b):
    """The same object with every number in it replaced by an arbitrary one."""
    c = it.m.cell(b)
    f = {}
    for k, v in c.fields.items():
        v = it.force(v)
        if is_int(v): f[k] = sint(it, 'box_' + k)
        elif it.kind(v) == 'list':
            f[k] = it.m.new_list([sint(it, 'box_%s_%d' % (k, n)) if is_int(it.force(p.val)) else p.val for n, p in enumerate(it.as_lv(v).parts)])
        else: f[k] = v
    it.m.heap[b.id] = OCell(c.cls, f)


def any_box(it):
    """A box with any numbers in it, as one in the boxes of any number of elements around it has."""
    side = lambda n: it.m.new_list([sint(it, 'outer_%s%d' % (n, k)) for k in range(4)])
    b = it.call(it.func(BOX), [], dict(width=sint(it, 'W'), margin=side('margin'), padding=side('padding'), border=side('border')))
    havoc_box(it, b)
    return b


def geometry(it, with_parent):
    Box = it.func(BOX)
    get = lambda b, n: it.getattr_(b, n)
    W = sint(it, 'W')
    pm, pp, pb = four(it, 'pm'), four(it, 'pp'), four(it, 'pb')
    parent = it.call(Box, [], dict(width=W, margin=pm, padding=pp, border=pb))
    if with_parent: havoc_box(it, parent)
    m_, p_, b_ = four(it, 'm'), four(it, 'p'), four(it, 'b')
    tmpl_len = sint(it, 'tl')
    before = {r: it.as_lv(r) for r in (m_, p_, b_)}
    hb = it.m.cell(parent)
    kw = dict(margin=m_, padding=p_, border=b_)
    marker = 0
    if with_parent:
        tmpl = sstr(it, 'template')
        it.m.assume(it.s_len(tmpl) >= 2)
        kw.update(parent=parent, line_template=tmpl)
        marker = mkI(it.s_len(tmpl) - 2)
    else:
        kw['width'] = W
    box = it.call(Box, [], kw)
    side = lambda r, k: zi(it.item(r, k))
    L, Rt = 3, 1
    own_m = side(m_, L) + side(m_, Rt)
    own_p = side(p_, L) + side(p_, Rt)
    own_b = side(b_, L) + side(b_, Rt)
    if with_parent:
        outer = zi(get(parent, 'inner_width')); outer_x = zi(get(parent, 'inner_width_excluding_line_template'))
    else:
        outer = outer_x = zi(W)
    it.prove('content-width', zi(get(box, 'inner_width')) == outer - own_m - own_p - own_b)
    it.prove('text-width', zi(get(box, 'inner_width_excluding_line_template')) == outer_x - own_m - own_p - own_b - zi(marker))
    it.prove('outer-width', zi(get(box, 'bordered_width')) == outer_x - own_m)
    it.prove('padded-width', zi(get(box, 'padded_width')) == outer_x - own_m - own_b)
    for n, r in (('margin', m_), ('padding', p_), ('border', b_)):
        it.prove_eq('own-' + n, get(box, n), r)
    # frame: the arguments and the parent are as they were
    for r, lv in before.items(): it.prove_eq('argument-unchanged', it.as_lv(r), lv)
    it.oblige('parent-unchanged', lambda: same(it.m.cell(parent), hb) or 'the parent box was modified')
    # no aliasing: changing the arguments afterwards changes nothing
    names = ('inner_width', 'inner_width_excluding_line_template', 'bordered_width', 'padded_width')
    old = {n: get(box, n) for n in names}
    oldl = {n: it.as_lv(get(box, n)) for n in ('margin', 'padding', 'border')}
    for r in (m_, p_, b_):
        for k in range(4): it.setitem(r, k, sint(it, 'changed'))
    for n in names: it.prove('no-alias ' + n, zi(get(box, n)) == zi(old[n]))
    for n in oldl: it.prove_eq('no-alias ' + n, it.as_lv(get(box, n)), oldl[n])


@contract('C13', 'box in an arbitrary parent box', modules=['rendering'])
def nested(it):
    it.m.cover('arbitrary parent')
    geometry(it, True)


@contract('C13', 'outermost box', modules=['rendering'])
def root(it): geometry(it, False)


@contract('C13', 'defaults are not shared', modules=['rendering'])
def defaults(it):
    Box = it.func(BOX)
    b1 = it.call(Box, [], {})
    for n in ('margin', 'padding', 'border'):
        for k in range(4): it.setitem(it.getattr_(b1, n), k, sint(it, 'x'))
    W = sint(it, 'W')
    for kw in ({}, dict(margin=None, padding=None, border=None)):
        b2 = it.call(Box, [], dict(kw, width=W))
        it.prove('content-width', zi(it.getattr_(b2, 'inner_width')) == zi(W))
        it.prove('outer-width', zi(it.getattr_(b2, 'bordered_width')) == zi(W))
        for n in ('margin', 'padding', 'border'):
            it.prove_eq('zero ' + n, it.getattr_(b2, n), it.m.new_list([0, 0, 0, 0]))
