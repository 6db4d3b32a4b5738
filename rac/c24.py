import common
RULE = 'random options used by other parsers before, against a newly loaded copy of the package; random histories (documents fed, also unfinished, and closed or not, then reset) of one parser against a new parser with the same options; options and other parsers before and after'
TAGS = common.TAGS + ['img', 'a', 'pre']
def opts(g): return [g.choice(['footer', 'after_block', 'inline']), g.choice(['footer', 'after_block', 'inline']), g.choice([30, 67]), g.p(0.7), g.p(0.3), g.p(0.3)]
def piece(g):
    h = common.html(g.doc(3, 4, TAGS))
    if g.p(0.5): h = h[:g.randint(0, len(h))]        # cut off anywhere
    if g.p(0.2): h = g.choice(['<pre>', '<pre><code>x', '<a href="/x">y', '<!-- ', '<p', '&am', '<script>', '<img src="a"><ul><li>']) + h
    return h
def style(g):
    return {k: v for k, v in [['p', ['p', g.choice(['left', 'full', 'right', 'center'])]], ['em', ['em', g.choice(['<{}>', '({})', '_{}_'])]], ['ul > li', ['l', g.choice(['- {}', '+ {}'])]], ['blockquote', ['l', g.choice(['> {}', '| {}'])]],
                              ['h1', ['m', g.choice([0, 1, 2])]], ['ol > li', ['o', g.choice([1, 5, 99])]], ['x-y', ['r', g.choice('ABC')]], ['p.a, em', ['m', g.choice([0, 1])]]] if g.p(0.5)}
def styles(g):
    a = style(g); b = style(g)
    for k in list(a):
        if k not in b and g.p(0.5): b[k] = a[k]
    return [a, b, opts(g)]
def gen(g):
    if g.p(0.4): return [opts(g), [], common.html(g.doc(3, 4, TAGS)), False, styles(g)]
    return [opts(g), [[piece(g) for _ in range(g.randint(0, 2))] + [g.p(0.5)] for _ in range(g.randint(0, 3))], common.html(g.doc(3, 4, TAGS)), g.p(0.4), piece(g)]
def cases():
    A = {'em': ['em', '<{}>'], 'p': ['p', 'left'], 'x-y': ['r', 'A']}; B = {'em': ['em', '({})'], 'p': ['p', 'right'], 'x-y': ['r', 'B']}
    o = ['footer', 'footer', 40, True, False, False]
    for k in list(A) + [None]:
        yield [o, [], '<p>a <em>b</em> c</p><x-y>d</x-y>', False, [{x: A[x] for x in A if k in (None, x)}, {x: B[x] for x in B if k in (None, x)}, o]]
    h = '<p>a <a href="/x">b</a>  c\n d</p><img src="/y"><ol><li>z</ol>'
    for pre in ['<pre>x', '<a href="q">l', '<img src="q">', '<p><div><ul>', '<!-- c', '<script>x', 'text', h, '<pre>\n a</pre>', '<p']:
        for closed in (True, False):
            for pl in ('footer', 'after_block', 'inline'): yield [[pl, pl, 67, True, False, False], [[pre, closed]], h, False, '']
            yield [['footer', 'footer', 67, True, False, True], [[pre, closed], [pre, closed]], h, True, pre]
def load():
    import sys, importlib
    old = {n: m for n, m in sys.modules.items() if n.split('.')[0] == 'gopher_render'}
    for n in old: del sys.modules[n]
    try:
        import gopher_render
        import gopher_render.rendering
        return gopher_render
    finally:
        for n in [n for n in sys.modules if n.split('.')[0] == 'gopher_render']: del sys.modules[n]
        sys.modules.update(old)
def styled(G, o, st, doc, twice=False):
    R = G.rendering
    (lp, ip, width, opt, boxed, gm) = o
    if gm and lp == 'inline': lp = 'footer'
    def own(k):
        class X(R.Renderer):
            def render(self, content): return k + content
        return X
    rs = {}
    for k, (w, v) in st.items():
        rs[k] = {'p': lambda: (R.ParagraphRenderer, dict(justification=v)), 'em': lambda: (R.EmRenderer, dict(template=v)), 'l': lambda: (R.BlockQuoteRenderer if k == 'blockquote' else R.ListItemRenderer, dict(line_template=v)), 'm': lambda: (None, dict(margin=[v, 0, 0, v])),
                 'o': lambda: (R.OrderedListItemRenderer, dict(start_index=v)), 'r': lambda: own(v)}[w]()
    kw = dict(renderers=rs, link_placement=lp, image_placement=ip, optimise=opt)
    if boxed: kw['box'] = R.Box(width=width, margin=[1, 0, 1, 2])
    else: kw['width'] = width
    if gm: kw.update(output_format='gophermap', gopher_host='h', gopher_port=71)
    p = G.GopherHTMLParser(**kw)
    p.feed(doc); p.close()
    return p.parsed
def others(case):
    o, _, doc, _, (st, st2, o2) = case
    import gopher_render as G
    want = styled(load(), o, st, doc)
    for a, b in (o2, st2), (o, st2), (o, st):
        got = styled(G, a, b, doc)
    if got != want: return 'with the styles %r, %r is rendered as %r after a parser with other options was used, as %r otherwise' % (st, doc, got, want)
    return None
def check(case):
    if isinstance(case[4], list): return others(case)
    from gopher_render import rendering as R
    import copy
    (lp, ip, width, opt, boxed, gm), hist, doc, mixed, other = case
    if gm and lp == 'inline': lp = 'footer'
    rs = {'p': (None, dict(justification='full', margin=[1, 0, 1, 0])), 'x-y': R.StrongRenderer}
    xs = {'a.ext': R.ExtractedLinkRenderer} if mixed else {}
    kw = dict(renderers=rs, extracted_link_renderers=xs, link_placement=lp, image_placement=ip, optimise=opt)
    if boxed: kw['box'] = R.Box(width=width, margin=[1, 0, 1, 2])
    else: kw['width'] = width
    if gm: kw.update(output_format='gophermap', gopher_host='h', gopher_port=71)
    kept = repr(sorted((k, repr(v)) for k, v in kw.items()))
    def new(): return common.parser(**kw)
    def run(p): p.feed(doc); p.close(); return p.parsed
    want = run(new())
    p = new()
    o = new() if mixed else None
    for h in hist:
        for x in h[:-1]:
            p.feed(x)
            if o is not None: o.feed(other)
        if h[-1]: p.close()
        p.reset()
        if p.parsed != '': return 'output left after a reset: %r' % p.parsed
    if o is not None: o.feed(other)
    got = run(p)
    if o is not None: o.close()
    if got != want: return 'after %r and a reset, %r is rendered as %r, by a new parser as %r' % (hist, doc, got, want)
    if run(new()) != want: return 'a new parser renders %r differently after others have been used' % doc
    if repr(sorted((k, repr(v)) for k, v in kw.items())) != kept: return 'the options were changed'
    return None
