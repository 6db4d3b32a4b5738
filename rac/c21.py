import common
RULE = 'random combinations of effects, font, foreground and background colours in every notation, with and without reset, against a table of codes; every single setting and every pair by itself'
EFF = {'bold': (1, 22), 'faint': (2, 22), 'italic': (3, 23), 'fraktur': (20, 23), 'underline': (4, 24), 'slow_blink': (5, 25), 'rapid_blink': (6, 25), 'invert': (7, 27), 'conceal': (8, 28), 'crossed_out': (9, 29), 'framed': (51, 54), 'encircled': (52, 54), 'overlined': (53, 55)}
COL = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']
def colour(g):
    q = g.randint(0, 5)
    if q == 0: return g.choice(['', 'bright_']) + g.choice(COL)
    if q == 1: return g.choice([0, 1, 15, 16, 255, 200, 30, 97])
    if q == 2: return [g.choice([0, 1, 255, 128]) for _ in range(3)]
    h = '0123456789abcdefABCDEF'
    n = 3 if q == 3 else 6
    return g.choice(['#', '#', '']) + ''.join(g.choice(h) for _ in range(n))
def gen(g):
    st = {e: True for e in EFF if g.p(0.15)}
    for e in EFF:
        if g.p(0.05): st[e] = False
    if g.p(0.4): st['foreground_colour'] = colour(g)
    if g.p(0.4): st['background_colour'] = colour(g)
    if g.p(0.2): st['font'] = g.choice([0, 1, 5, 9])
    if g.p(0.3): st['normalise'] = True
    if g.p(0.2): st['template'] = g.choice(['[{}]', '{}'])
    if g.p(0.2): st['capitalized'] = True
    return [st, g.choice(['x', '', 'a b', '{}', 'Mixed Case', 'a\x1b[1mb\x1b[22m', '\n'])]
def cases():
    import itertools
    one = [{e: True} for e in EFF] + [{k: v} for k in ('foreground_colour', 'background_colour') for v in COL + ['bright_' + c for c in COL] + [0, 7, 255, [0, 0, 0], [1, 2, 3], '#fff', '#012', '#a1B2c3', 'abc', '00ff10', '#000000']] + [{'font': n} for n in range(10)]
    for a in one:
        for n in ({}, {'normalise': True}): yield [dict(a, **n), 'x']
    for a, b in itertools.combinations(one, 2):
        if not set(a) & set(b): yield [dict(a, **b), 'x']
    yield [{}, 'x']; yield [{'normalise': True}, 'x']
def code(c, bg):
    c = tuple(c) if isinstance(c, list) else c
    if isinstance(c, str) and (c in COL or c.startswith('bright_')): return str((30 if not c.startswith('bright_') else 90) + COL.index(c.replace('bright_', '')) + (10 if bg else 0))
    if isinstance(c, int): return '%d;5;%d' % (48 if bg else 38, c)
    if isinstance(c, str):
        h = c.lstrip('#')
        if len(h) == 3: h = ''.join(x + x for x in h)
        c = tuple(int(h[i:i + 2], 16) for i in (0, 2, 4))
    return '%d;2;%d;%d;%d' % ((48 if bg else 38,) + c)
def check(case):
    from gopher_render import rendering as R
    st, content = case
    conf = {k: tuple(v) if isinstance(v, list) else v for k, v in st.items()}
    class Tag: tag = 'span'; parent = None; children = []
    got = R.AnsiEscapeCodeRenderer(Tag(), settings=dict(conf)).render(content)
    on, off = [], []
    for e in EFF:
        if st.get(e): on.append(str(EFF[e][0])); off.append(str(EFF[e][1]))
    if 'font' in st: on.append(str(10 + st['font'])); off.append('10')
    if 'foreground_colour' in st: on.append(code(st['foreground_colour'], False)); off.append('39')
    if 'background_colour' in st: on.append(code(st['background_colour'], True)); off.append('49')
    if st.get('normalise'): off = ['0']
    inner = st.get('template', '{}').replace('{}', content.upper() if st.get('capitalized') else content)
    if len(got) < len(inner): return '%r: %r' % (st, got)
    i = sum(len(x) + 3 for x in on)
    a, m, b = got[:i], got[i:i + len(inner)], got[i + len(inner):]
    f = lambda xs: sorted('\x1b[%sm' % x for x in xs)
    parts = lambda s: sorted(common.ESC.findall(s)) if common.vis(s) == '' else None
    if m != inner or parts(a) != f(on) or parts(b) != f(off): return '%r on %r: %r, should be %s + %r + %s' % (st, content, got, f(on), inner, f(off))
    return None
