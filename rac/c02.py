import css, common
RULE = 'random document x random selectors with up to 4 combinators; every node x every selector is compared with the definition of CSS'
def check(case): return css.check_matches(case)
def gen(g):
    tags = g.choice([common.TAGS[:6], common.TAGS[:3], ['p'], ['p', 'em']])
    return [css.small_doc(g, tags), [css.gen_sel(g, g.choice([[], ['class'], ['ps', 'nth'], ['not', 'class']]), 1, (' ', '>', '~', '+'), 4, tags) for _ in range(5)]]
def cases():
    P = lambda *k: ['p', [], list(k)]; E = lambda *k: ['em', [], list(k)]
    docs = [[P(P(E('x'), 't', E()), E()), 'text', E(P(E()))], [P(), P(), E(), P()], ['a', P('b', E('c'), 'd', P(), 'e', E())], [E()]]
    for d in docs:
        for op in ' >~+':
            for op2 in ' >~+':
                c = lambda t: ['compound', t, []]
                for a in (None, 'p', 'em'):
                    yield [d, [['comb', c(a), op, c(b)] for b in (None, 'p', 'em')] + [['comb', ['comb', c(a), op, c(b)], op2, c(e)] for b in (None, 'p') for e in (None, 'em')]]
