import common
RULE = 'blocks with random margin, padding, border strings and content (with escape codes, lines of all lengths, empty lines) in a nest of boxes: every row against the expected one'
def gen(g):
    bl = lambda n: ''.join(g.choice('-=#|+*') for _ in range(n))
    outer = [[g.four(3), g.four(3), g.four(2)] for _ in range(g.randint(0, 3))]
    w = g.choice([30, 67, 40, 25, 150, 300, 600])
    lines = [' '.join(g.words(g.randint(0, 4)))[:g.choice([5, 10, 15, 20, 60])] for _ in range(g.choice([1, 1, 2, 4, 40]))]
    lines = [g.ansi(l) if g.p(0.4) else l for l in lines]
    return [w, outer, g.four(3), g.four(3), [bl(g.choice([0, 0, 1, 2, 3])) for _ in range(4)], lines]
def check(case):
    w, outer, m, p, b, lines = case
    from gopher_render import rendering as R
    box = R.Box(width=w)
    for mm, pp, bb in outer: box = R.Box(margin=mm, padding=pp, border=bb, parent=box)
    inner = w - sum(x[1] + x[3] for o in outer for x in o)
    total = inner - m[1] - m[3]                       # outer width of the block
    class Tag: tag = 'div'; parent = None; children = []
    class Body(R.BlockRenderer):
        def _inner_render(self, content): return content
    r = R.BlockRenderer(Tag(), parent_box=box, settings=dict(margin=m, padding=p, border=b))
    content = '\n'.join(lines)
    out = r.render(content)
    room = total - len(b[1]) - len(b[3]) - p[3]       # for the line and the filling after it
    exp = []
    for c in reversed(b[0]): exp.insert(0, c * total)
    exp = [c * total for c in b[0]]
    row = lambda l: b[3] + ' ' * p[3] + l + ' ' * (room - common.vlen(l)) + b[1]
    exp += [b[3] + ' ' * (total - len(b[1]) - len(b[3])) + b[1]] * p[0]
    exp += [row(l) for l in lines]
    exp += [b[3] + ' ' * (total - len(b[1]) - len(b[3])) + b[1]] * p[2]
    exp += [c * total for c in b[2]]
    body = '\n'.join(exp)
    # margins: the lines of the body, each behind the left margin
    want = '\n' * m[0] + ''.join(' ' * m[3] + l for l in body.splitlines(keepends=True)) + '\n' * m[2]
    if out != want: return 'rendered as\n%s\nshould be\n%s' % (out, want)
    if total >= 0 and all(common.vlen(l) <= room for l in lines):
        for l in exp:
            if common.vlen(l) != total: return None
    return None
