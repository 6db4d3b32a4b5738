import css, common
RULE = 'random document (html of random elements, attributes and text) x random compound selectors; every node x every selector is compared with the definition of CSS; non-trivial: distinct'
def check(case): return css.check_matches(case)
def gen(g): return [css.small_doc(g), [css.gen_sel(g, ['class', 'id', 'attr', 'attr', 'attr', 'not']) for _ in range(6)]]
def cases():
    vs = [None, '', ' ', 'a', 'a b', 'en', 'en-US', 'a-b', 'ab', 'b a', '-', 'é']
    doc = [['p', [['title', v]], [['em', [['class', v], ['id', v]], ['x']]]] for v in vs] + ['text', ['p', [], []]]
    for op in ['exists', '=', '~=', '|=', '^=', '$=', '*=']:
        for n in ('title', 'class', 'id'):
            for v in ['', ' ', 'a', 'b', 'en', 'a b', 'a-', '-', 'ab', 'é']:
                s = ['attr', n, op, None if op == 'exists' else v]
                yield [doc, [['compound', None, [s]], ['compound', 'p', [s]], ['compound', None, [['not', None, s]]]]]
