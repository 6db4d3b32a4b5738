import common
RULE = 'random text (words and runs of blanks, tabs, line feeds, other whitespace) in random nestings of elements, inside and outside pre, with closed and unclosed elements'
def gen(g):
    ev, stack = [], []
    for _ in range(g.randint(2, 9)):
        q = g.random()
        if q < 0.3:
            t = g.choice(['pre', 'pre', 'p', 'code', 'div', 'br']); ev.append(['s', t])
            if t != 'br': stack.append(t)
        elif q < 0.5: 
            t = stack.pop() if stack and g.p(0.8) else g.choice(['pre', 'p', 'br'])
            ev.append(['e', t])
        else: ev.append(['t', g.text(g.choice([5, 5, 5, 30, 100]), g.choice([' \n\t', ' \n\t\r\x0b\x0c\xa0', '\n', ' ', '\t', ' \n']))])
    return ev
def check(ev):
    p = common.parser()
    stack, texts = [], []
    def data(ts):
        for t in ts:
            if t.tag is None: yield t
            yield from data(t.children)
    n = 0
    for e in ev:
        if e[0] == 's':
            p.handle_starttag(e[1], [])
            if e[1] != 'br': stack.append(e[1])
        elif e[0] == 'e':
            p.handle_endtag(e[1])
            if stack and e[1] == stack[-1] and e[1] != 'br': stack.pop()
        else:
            old = {id(t): t.data for t in data(p.tree.children)}
            p.handle_data(e[1])
            new = [t for t in data(p.tree.children) if id(t) not in old]
            if len(new) != 1: return None
            d, s = new[0].data, e[1]
            if 'pre' in stack:
                if d != s: return 'preformatted text %r became %r' % (s, d)
            else:
                if d.split() != s.split(): return 'words of %r became %r' % (s, d.split())
                for x in ('\n', '\t', '  '):
                    if x in d: return 'text %r became %r, with %r in it' % (s, d, x)
                if d[:1].isspace() != s[:1].isspace() or d[-1:].isspace() != s[-1:].isspace(): return 'text %r became %r: whitespace at the ends' % (s, d)
    return None
def cases():
    import itertools
    for n in (5, 9, 20, 40, 70, 130, 300):
        for w in ('  ', '\n', '\t', ' \n ', '\n\n', ' \t'):
            yield [['t', ('x' + w) * n]]
            yield [['s', 'pre'], ['t', ('x' + w) * n], ['e', 'pre'], ['t', ('x y' + w) * n]]
            yield [['t', ' ' * n + 'x' + w * n + 'y']]
    for n in range(0, 6):
        for t in itertools.product('x \n\t', repeat=n):
            s = ''.join(t)
            yield [['t', s]]
            if n < 4: yield [['s', 'pre'], ['s', 'code'], ['e', 'code'], ['t', s], ['s', 'pre'], ['e', 'pre'], ['t', s], ['e', 'pre'], ['t', s]]
