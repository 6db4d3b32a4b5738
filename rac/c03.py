import css, common
RULE = 'random document x selectors with positional pseudo-classes for n in -3..12; every node x every selector is compared with the definition'
def check(case): return css.check_matches(case)
def gen(g):
    tags = g.choice([common.TAGS[:6], ['p', 'em']])
    return [g.doc(3, 9, tags) if g.p(0.8) else css.wide_doc(g, tags), [css.gen_sel(g, ['nth', 'ps', 'nth', 'class'], 2, (' ', '>', '+'), g.choice([0, 0, 1]), tags) for _ in range(6)]]
def cases():
    for k in (99, 100, 101, 130, 257, 300):
        yield [[['p', [], []]] * k, [['compound', None, [['nth', f, n]]] for f in ('nth-child', 'nth-last-child') for n in (1, 99, 100, 101, 128, 129, 256, 257, k, k + 1)]]
    for k in (0, 1, 2, 3, 5):
        d = ['t'] + [x for i in range(k) for x in ([['p', 'em'][i % 2], [], []], 'text')]
        d = d + [['div', [], d]]
        yield [d, [['compound', t, [['nth', f, n]]] for t in (None, 'p') for f in ('nth-child', 'nth-last-child') for n in range(-3, 8)] + [['compound', None, [['ps', f]]] for f in ('first-child', 'last-child')]]
