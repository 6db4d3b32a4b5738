import css, common
RULE = 'random document x random selector groups of 1-5 selectors: match and reported specificity against the definition; random pairs of specificities against tuple order'
def gen(g):
    if g.p(0.2):
        return ['order', [[g.choice([0, 0, 1, 2, 3, 9, 10, 11]) for _ in range(3)] for _ in range(6)]]
    return ['group', css.small_doc(g), [css.gen_sel(g, ['class', 'id', 'attr', 'not', 'ps'], 2, (' ', '>'), 2) for _ in range(g.randint(1, 5))]]
def check(case):
    if case[0] == 'order':
        from gopher_render import _selectors
        S = getattr(_selectors, 'Specificity', None)
        if S is None: return None
        import operator as o
        for a in case[1]:
            for b in case[1]:
                for f in (o.lt, o.le, o.gt, o.ge, o.eq, o.ne):
                    if bool(f(S(tuple(a)), S(tuple(b)))) != f(a, b): return 'Specificity(%s) %s Specificity(%s) is %s' % (a, f.__name__, b, not f(a, b))
        return None
    import cssselect
    from gopher_render._selectors import tag_matches
    _, doc, sels = case
    p = common.feed(common.html(doc))
    pr = common.pairs(doc, p)
    if pr is None: return None
    text = ', '.join(css.to_s(s) for s in sels)
    try: parsed = cssselect.parse(text)
    except cssselect.SelectorError: return None
    for m, r in pr[1]:
        ms = [css.spec(s) for s in sels if css.match(m, s)]
        want = (bool(ms), max(ms) if ms else None)
        got = tag_matches(r, parsed)
        got = (bool(got[0]), tuple(got[1]) if got[1] is not None else None)
        if got != want: return 'group %s on %r: %r, should be %r' % (text, m.raw if m.tag is None else m.raw[:2], got, want)
    return None
def cases():
    import itertools
    yield ['order', [list(t) for t in itertools.product((0, 1, 2), repeat=3)]]
    c = lambda t, *ps: ['compound', t, [list(p) for p in ps]]
    d = [['p', [['class', 'a b'], ['id', 'x1']], [['em', [['class', 'c']], ['t']]]], 'z', ['em', [], []]]
    ss = [c('p'), c(None, ('class', 'a')), c(None, ('id', 'x1')), c(None, ('class', 'a'), ('class', 'b')), c('em'), c(None), c('zz'), ['comb', c('p'), ' ', c('em')], c('p', ('id', 'x1'))]
    for n in (1, 2, 3):
        for t in itertools.permutations(ss, n): yield ['group', d, list(t)]
