import css, common, re
RULE = 'random document x random mapping of selectors (or groups) to renderers and settings: the renderer that renders each element and the settings it has, against the definition; default renderer alone or with settings'
KEYS = ['k1', 'k2', 'k3']
VALS = [0, 1, 2, 3, 4, 5, None, None, '', 'v', [], False]
TAGS = ['x-a', 'x-b', 'x-c']
def selector(a, b, c):
    """a selector of this specificity that matches the innermost element of deep(t), t >= c"""
    s = ['compound', 'x-a' if c else None, [['id', 'i']] * a + [['class', 'c']] * b]
    if c > 1:
        left = ['compound', 'x-a', []]
        for _ in range(c - 2): left = ['comb', left, ' ', ['compound', 'x-a', []]]
        s = ['comb', left, ' ', s]
    return s
def deep(t):
    doc = ['x']
    for _ in range(t): doc = [['x-a', [['id', 'i'], ['class', 'c']], doc]]
    return doc
def heavy(g):
    t = g.choice([1, 2, 12])
    maps = []
    for _ in range(g.randint(2, 4)):
        a, b, c = [g.choice([0, 0, 1, 2, g.randint(9, 12)]) for _ in range(3)]
        r = g.choice([None, 'A', 'B', 'C'])
        maps.append([[selector(a, b, min(c, t))], r, {k: g.choice(VALS) for k in KEYS if g.p(0.4)} if g.p(0.6) or r is None else None, g.p(0.3)])
    return [deep(t), maps, None]
def cases():
    S = [(a, b, c) for a in (0, 1, 11) for b in (0, 1, 11) for c in (0, 1, 11)]
    for x in S:
        for y in S:
            if x != y: yield [deep(max(1, x[2], y[2])), [[[selector(*x)], 'A', {'k1': 1}, False], [[selector(*y)], 'B', {'k1': 2}, False]], None]
def gen(g):
    if g.p(0.2): return heavy(g)
    maps = []
    for _ in range(g.randint(1, 7)):
        sels = [css.gen_sel(g, ['class', 'id', 'ps', 'not', 'attr'], 1, (' ', '>'), 1, TAGS) for _ in range(1 if g.p(0.8) else 2)]
        r = g.choice([None, 'A', 'B', 'C'])
        st = {k: g.choice(VALS) for k in KEYS if g.p(0.4)} if g.p(0.6) or r is None else None
        maps.append([sels, r, st, g.p(0.3)])
    return [g.doc(3, 4, TAGS, void=False), maps, g.choice([None, {'k1': 77}])]
def check(case):
    import cssselect
    from gopher_render.rendering import Renderer
    doc, maps, dflt = case
    out = []
    def mk(name, base):
        class X(base):
            def render(self, content):
                out.append((self.tag, name, {k: self.settings[k] for k in self.settings if k in KEYS}))
                return ''
        return X
    cls = {}
    for n, b in ('A', Renderer), ('B', 'A'), ('C', Renderer), ('D', 'A'): cls[n] = mk(n, cls.get(b, b))   # a renderer may extend another
    conf, keys = {'': cls['D'] if dflt is None else (cls['D'], dflt)}, []
    for sels, r, st, tup in maps:
        text = ', '.join(css.to_s(s) for s in sels)
        try: cssselect.parse(text)
        except cssselect.SelectorError: return None
        if text in conf or text in ('a', 'p'): continue
        v = cls[r] if r else None
        conf[text] = (v, dict(st) if st is not None else None) if (st is not None or tup or r is None) else v
        keys.append((sels, r, st))
    before = repr({k: v for k, v in conf.items()})
    p = common.parser(renderers=conf)
    src = common.html(doc)
    if len(src) % 3 == 0:
        cut = re.sub(r'(</[-\w]+>)+$', '', src)                   # ends inside its last elements
        if cut.endswith('>'): src = cut
    p.feed(src)
    pr = common.pairs(doc, p)
    if pr is None: return None
    p.close()
    if repr({k: v for k, v in conf.items()}) != before: return 'the mapping was changed: %r' % conf
    got = {}
    for t, n, s in out: got[id(t)] = (n, s)
    seen = [id(t) for t, _, _ in out]
    for m, r in pr[1]:
        if m.tag is None: continue
        ms = []
        for k, (sels, rn, st) in enumerate(keys):
            sp = [css.spec(s) for s in sels if css.match(m, s)]
            if sp: ms.append((max(sp), k, rn, st))
        ms.sort(key=lambda x: x[:2])
        named = [x[2] for x in ms if x[2]]
        if named:
            want, ws = named[-1], {}
            for x in ms: ws.update(x[3] or {})
        else: want, ws = 'D', dict(dflt or {})
        if got.get(id(r)) != (want, ws): return 'element %r: rendered by %r, should be %r (mappings %r)' % (m.raw[:2], got.get(id(r)), (want, ws), [(', '.join(map(css.to_s, a)), b, c) for a, b, c in keys])
    return None
