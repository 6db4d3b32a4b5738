import common
RULE = 'inline elements of every kind, nested in each other and with any text (braces, percent signs, templates), with default and configured templates, capitalised or not; line breaks with and without content; code inside and outside pre'
DEC = {'em': ('_', '_'), 'i': ('_', '_'), 'strong': ('**', '**'), 'b': ('**', '**'), 'u': ('_', '_'), 'ins': ('_', '_'), 's': ('~~', '~~'), 'del': ('~~', '~~'), 'span': ('', ''), 'code': ('`', '`')}
def tree(g, d):
    out = []
    for _ in range(g.randint(1, 3)):
        if d and g.p(0.5): out.append([g.choice(list(DEC) + ['br']), tree(g, d - 1)])
        elif not (out and isinstance(out[-1], str)): out.append(' '.join(g.words(g.randint(1, 3))))
    return out
def gen(g):
    conf = {}
    for t in DEC:
        if t != 'code' and g.p(0.2): conf[t] = [g.choice(['', '<', '{{', '[[', '//', '%', '\\', '*']), g.choice(['', '>', '}}', ']]', '//', '\n']), g.p(0.4)]
    return ['doc', tree(g, 3), conf] if g.p(0.7) else ['one', g.choice(['em', 'strong', 'span', 'br', 'code', 'pre>code', 'none']), g.choice(common.WORDS + ['a{b}c', '{content}', '', '\n', 'a\nb', '{', '}}', '{:d}', '%d']) + g.choice(['', 'x', ' {}']), g.p(0.3)]
def cases():
    for t in ['em', 'strong', 'span', 'br', 'code', 'pre>code', 'none', 'under', 'strike']:
        for c in ['', 'x', '{}', '{0}', '{', '}', '{{}}', 'a\nb', 'ß', '%s', '\\1', 'x' * 200]:
            for cap in (False, True): yield ['one', t, c, cap]
def check(case):
    from gopher_render import rendering as R
    if case[0] == 'one':
        _, t, c, cap = case
        class P: tag = 'pre'
        class Tag: tag = 'x'; parent = None; children = []
        if t == 'pre>code': Tag.parent = P()
        cls = {'em': R.EmRenderer, 'strong': R.StrongRenderer, 'span': R.InlineRenderer, 'br': R.BreakRenderer, 'code': R.CodeRenderer, 'pre>code': R.CodeRenderer, 'none': R.Renderer, 'under': R.UnderlineRenderer, 'strike': R.StrikethroughRenderer}[t]
        got = cls(Tag(), **({'settings': {'capitalized': True}} if cap and t != 'none' else {})).render(c)
        u = c.upper() if cap else c
        want = {'em': '_%s_', 'strong': '**%s**', 'under': '_%s_', 'strike': '~~%s~~', 'span': '%s', 'none': None}.get(t)
        want = c if t in ('none', 'pre>code') else '\n' if t == 'br' else ('```\n' + c + '\n```\n' if '\n' in c else '`' + c + '`') if t == 'code' else want.replace('%s', '\0').replace('\0', u)
        return None if got == want else '%s of %r%s: %r, should be %r' % (t, c, ' capitalised' if cap else '', got, want)
    _, tr, conf = case
    cls = {'em': R.EmRenderer, 'i': R.EmRenderer, 'strong': R.StrongRenderer, 'b': R.StrongRenderer, 'u': R.UnderlineRenderer, 'ins': R.UnderlineRenderer, 's': R.StrikethroughRenderer, 'del': R.StrikethroughRenderer, 'span': R.InlineRenderer}
    rs = {t: (cls[t], dict(template=a.replace('{', '{{').replace('}', '}}') + '{}' + b.replace('{', '{{').replace('}', '}}'), capitalized=c)) for t, (a, b, c) in conf.items()}
    def src(ns): return ''.join(common.esc(n) if isinstance(n, str) else '<br>' if n[0] == 'br' else '<%s>%s</%s>' % (n[0], src(n[1]), n[0]) for n in ns)
    def want(ns):
        s = ''
        for n in ns:
            if isinstance(n, str): s += n
            elif n[0] == 'br': s += '\n'
            else:
                c = want(n[1])
                a, b, cap = conf.get(n[0]) or (*DEC[n[0]], False)
                if n[0] == 'code' and '\n' in c: a, b = '```\n', '\n```\n'
                s += a + (c.upper() if cap else c) + b
        return s
    got, w = common.render(src(tr), renderers=rs, optimise=False), want(tr)
    return None if got == w else '%s is rendered as %r, should be %r (templates %r)' % (src(tr), got, w, conf)
