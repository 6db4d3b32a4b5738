import common
RULE = 'random chains of up to 6 nested boxes with random margins, paddings, borders and line templates: the widths of every box against sums over the chain; lists given to a box changed afterwards'
def gen(g):
    return [g.choice([0, 1, 20, 67, 80, 1000]), [[g.four(5), g.four(5), g.four(3), g.choice([None, '{}', '> {}', '* {}', '10. {}', '>>>> {}'])] for _ in range(g.choice([1, 2, 3, 4, 5, 6, 6, 30]))], g.randint(0, 3)]
def check(case):
    from gopher_render.rendering import Box
    W, bs, how = case
    outer = outer_x = W
    parent = None
    boxes, want, given = [], [], []
    for k, (m, p, b, t) in enumerate(bs):
        m, p, b = list(m), list(p), list(b)
        if parent is None: t = None
        args = dict(margin=m, padding=p, border=b)
        if how == 1 and not any(m): args['margin'] = None
        if how == 2 and not any(p): del args['padding']
        box = Box(width=W, **args) if parent is None else Box(parent=parent, line_template=t, **args)
        mk = len(t) - 2 if t else 0
        own = m[1] + m[3] + p[1] + p[3] + b[1] + b[3]
        ix = outer_x - own - mk
        want.append((outer - own, ix, outer_x - m[1] - m[3], outer_x - m[1] - m[3] - b[1] - b[3], [list(m), list(p), list(b)]))
        boxes.append(box); given.append((m, p, b, list(m), list(p), list(b)))
        outer, outer_x, parent = outer - own, ix, box
    for rnd in (0, 1):
        for k, (box, w) in enumerate(zip(boxes, want)):
            got = (box.inner_width, box.inner_width_excluding_line_template, box.bordered_width, box.padded_width, [list(box.margin), list(box.padding), list(box.border)])
            if got != w: return 'box %d of %r%s: (content, text, outer, padded width, sides) %r, should be %r' % (k, case, ' after the lists it was given were changed' if rnd else '', got, w)
        for m, p, b, m0, p0, b0 in given:
            if (m, p, b) != (m0, p0, b0): return 'creating the boxes changed a list: %r' % case
            for l in (m, p, b):
                for j in range(4): l[j] += 7
            m0[:], p0[:], b0[:] = m, p, b
    x = Box(width=9)
    if (x.inner_width, x.bordered_width) != (9, 9): return 'a box without margins in width 9: %r' % (x,)
    for l in (x.margin, x.padding, x.border):
        for j in range(4): l[j] = 3
    if Box(width=9).inner_width != 9 or any(Box(width=9).margin): return 'the defaults are shared between boxes'
    return None
