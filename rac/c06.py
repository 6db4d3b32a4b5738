import common, copy
RULE = 'random hierarchies of renderer classes (up to 4 deep, multiple inheritance) with random settings, values that compare equal but differ included; instances made in random order, with and without configured settings, some with settings of their own changed; and all renderers of the library on a random document: settings of classes and configurations before and after'
KEYS = ['k1', 'k2', 'k3', 'template']
VALS = [0, False, 1, True, None, '', 'x', [], [0, 0], 5, 1.0, 'y', {}, {'a': 1}, {'b': 2}, {'a': 3, 'b': [1]}, [1], (1,)]
def gen(g):
    if g.p(0.25): return ['lib', g.doc(3, 4), g.choice([None, {'p': {'justification': 'full', 'margin': [1, 1, 1, 1]}, 'div': {'padding': [1, 1, 1, 1], 'border': ['-', '|', '-', '|']}}])]
    cl = []
    for k in range(g.randint(1, 6)):
        bases = g.sample(range(k), min(k, g.choice([0, 1, 1, 1, 2])))
        st = {x: g.randint(0, len(VALS) - 1) for x in KEYS if g.p(0.5)} if g.p(0.8) else None
        cl.append([g.choice(['Renderer', 'InlineRenderer', 'BlockRenderer']) if not bases else None, sorted(bases, reverse=True), st, g.p(0.5)])
    ins = [[g.randint(0, len(cl) - 1), {x: g.randint(0, len(VALS) - 1) for x in KEYS if g.p(0.4)} if g.p(0.5) else None, g.p(0.3)] for _ in range(g.randint(1, 5))]
    return ['cls', cl, ins]
def alls(R):
    out, todo = [], [R]
    while todo:
        c = todo.pop(); out.append(c); todo.extend(c.__subclasses__())
    return out
def check(case):
    from gopher_render import rendering as R
    if case[0] == 'lib':
        _, doc, conf = case
        cs = alls(R.Renderer)
        before = [copy.deepcopy(dict(c.settings)) for c in cs]
        rs = {k: (None, copy.deepcopy(v)) for k, v in (conf or {}).items()}
        kept = copy.deepcopy({k: v[1] for k, v in rs.items()})
        h = common.html(doc)
        p1 = common.render(h, renderers=rs)
        if {k: v[1] for k, v in rs.items()} != kept: return 'configured settings were changed: %r' % rs
        for c, b in zip(cs, before):
            if dict(c.settings) != b: return 'settings of class %s were changed' % c.__name__
        if common.render(h, renderers=rs) != p1: return 'the same document is rendered differently the second time'
        return None
    _, cl, ins = case
    same = lambda a, b: type(a) is type(b) and a == b
    classes, confs = [], []
    for k, (b0, bases, st, nd) in enumerate(cl):
        bs = tuple(classes[b] for b in bases) if bases else (getattr(R, b0),)
        ns = {} if st is None else {'settings': {x: copy.deepcopy(VALS[v]) for x, v in st.items()}}
        try: classes.append(type(R.Renderer)('K%d' % k, bs, ns))
        except TypeError: return None
    base = {}
    for c in (R.Renderer, R.InlineRenderer, R.BlockRenderer): base[c] = copy.deepcopy(dict(c.settings))
    own = {c: {x: VALS[v] for x, v in (cl[k][2] or {}).items()} for k, c in enumerate(classes)}
    own.update(base)
    made = []
    class Tag: tag = 'x'; parent = None; children = []
    def wanted(c, conf):
        w = {}
        for b in reversed(c.__mro__): w.update(own.get(b, {}))
        w.update({x: VALS[v] for x, v in (conf or {}).items()})
        return w
    def bad(o, w, c):
        s = o.settings
        if set(s) != set(w): return 'settings of an instance of %s: keys %r, should be %r' % (c.__name__, sorted(s), sorted(w))
        for x in w:
            if not same(s[x], w[x]): return 'setting %r of an instance of %s (mro %s): %r, should be %r' % (x, c.__name__, [b.__name__ for b in c.__mro__], s[x], w[x])
            if not same(getattr(s, x), w[x]): return 'setting %r as attribute: %r, should be %r' % (x, getattr(s, x), w[x])
    for k, conf, change in ins:
        c = classes[k]
        cf = None if conf is None else {x: copy.deepcopy(VALS[v]) for x, v in conf.items()}
        keep = copy.deepcopy(cf)
        o = c(Tag(), **({} if cf is None else {'settings': cf}))
        w = wanted(c, conf)
        r = bad(o, w, c)
        if r: return r
        if cf != keep: return 'configured settings were changed'
        made.append((o, w, c))
        if change:
            o.settings['k1'] = 'changed'; o.settings.extra = 9
            made[-1] = (o, dict(w, k1='changed', extra=9), c)
            if cf != keep: return 'changing the settings of a renderer changed those it was configured with'
        for o2, w2, c2 in made:
            r = bad(o2, w2, c2)
            if r: return 'after creating another renderer: ' + r
    for c, b in own.items():
        for x in b:
            if x not in c.settings or not same(c.settings[x], b[x]): return 'setting %r of class %s was changed' % (x, c.__name__)
        if set(c.settings) != set(b): return 'settings of class %s: keys %r, should be %r' % (c.__name__, sorted(c.settings), sorted(b))
    return None
