import common
RULE = 'random documents in random document boxes, with and without optimising: margins around and before the lines of the body rendered without margins'
def gen(g):
    return [g.doc(3, 4, ['p', 'div', 'ul', 'li', 'em', 'pre', 'h1', 'blockquote', 'a', 'code'], attrs=False), [g.int(0, 4) for _ in range(4)], g.choice([30, 67]), g.p(0.5), [g.text(g.choice([5, 5, 5, 60]), ' \n\t\x0b\x1c\u2028\r') for _ in range(3)]]
def cases():
    for m in ([0, 0, 0, 0], [1, 2, 3, 4], [2, 0, 0, 0], [0, 0, 2, 0], [0, 0, 0, 1]):
        for o in (True, False):
            for b in ([], ['x'], [['p', [], ['a b']], ['pre', [], [' x \n\n  y ']]]): yield [b, m, 30, o, ['a \n b\t\n\n', ' \n', '']]
def check(case):
    doc, m, width, opt, raw = case
    from gopher_render import rendering as R
    class Raw(R.Renderer):
        def render(self, content): return raw[int(self.tag.attrs['n'])]
    h = common.html(doc)
    for src, rs in ((h, {}), ('<x-r n="0"></x-r><x-r n="1"></x-r><x-r n="2"></x-r>', {'x-r': Raw})):
        body = common.render(src, box=R.Box(width=width), optimise=False, renderers=rs) if not rs else ''.join(raw)
        got = common.render(src, box=R.Box(width=width + (m[1] + m[3]), margin=list(m)), optimise=opt, renderers=rs)
        want = '\n' * m[0] + ''.join(' ' * m[3] + l for l in body.splitlines(True)) + '\n' * m[2]
        if opt: want = '\n'.join(l.rstrip() for l in want.split('\n'))
        if got != want: return '%s in a box with margin %r%s: %r, should be %r' % (src if not rs else raw, m, ', optimised' if opt else '', got, want)
    return None
