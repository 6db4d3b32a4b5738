import common, re
RULE = 'random documents with links and images (nested too) in random elements or at the top, all 9 placements; recording renderers: numbers, order and place of references and list entries'
PL = ['footer', 'after_block', 'inline']
TAGS = ['p', 'div', 'li', 'em', 'a', 'img', 'a', 'ul', 'code', 'br', 'h2']
def gen(g):
    return [g.choice(PL), g.choice(PL), g.doc(g.randint(1, 4), g.choice([2, 4]), TAGS, True, False), g.p(0.5), g.p(0.3)]
def cases():
    A = lambda *k: ['a', [], list(k)]; I = ['img', [], []]; P = lambda *k: ['p', [], list(k)]
    docs = [[A('x')], [I], [P(A('x'), I), A(I)], [A(P(I), 'y'), P('z'), I, A()], [P(), P(P(A(A('q'), I)))], [], ['t'], [P(*[A(str(k)) for k in range(12)], I)]]
    for n in (25, 70, 130): docs += [[P(*[A('x') for k in range(n)])], [P(A(*[I] * n), I)], [P(A('x')) for k in range(n)], [A('x')] * n]
    for l in PL:
        for i in PL:
            for d in docs: yield [l, i, d, True, False]; yield [l, i, d, True, True]
def check(case):
    lp, ip, doc, real, unclosed = case
    from gopher_render import rendering as R
    num = {}
    def rec(kind, base):
        class X(base):
            def render(self, content):
                c = self.context
                if kind == 'ref':
                    pl = ip if self.tag.tag == 'img' else lp
                    if pl == 'inline': return '(i%s)%s(/i)' % (self.tag.attrs.get('n'), content)
                    return '(r%s:%s)%s(/r)' % (self.tag.attrs.get('n'), c.get('link_reference'), content)
                if kind == 'list': return '(l%s:%s)%s(/l)' % (self.tag.attrs.get('n'), c.get('link_reference'), content)
                return '(b)' + content + '(e%s)' % self.tag.attrs.get('n')
        return X
    base = R.Renderer
    rs = {t: rec('el', base) for t in ['p', 'div', 'li', 'em', 'ul', 'code', 'h2']}
    rs.update({'a': rec('ref', base), 'img': rec('ref', base), 'br': base})
    xs = {'a': rec('list', base), 'img': rec('list', base)}
    cnt = [0]
    def mark(d):
        out = []
        for n in d:
            if isinstance(n, str): out.append('w'); continue
            k = cnt[0]; cnt[0] += 1
            out.append([n[0], [['n', str(k)], ['href' if n[0] == 'a' else 'src', 'u%d' % (k if real else k % 2)]], mark(n[2]) if n[0] not in ('br', 'img') else []])
        return out
    d = mark(doc)
    # reference numbers in document order (of start tags)
    ref, nxt, footer = {}, 1, []
    def number(ns):
        nonlocal nxt
        for n in ns:
            if isinstance(n, str): continue
            if n[0] in ('a', 'img'):
                pl = ip if n[0] == 'img' else lp
                if pl != 'inline': ref[n[1][0][1]] = nxt; nxt += 1
                if pl == 'footer': footer.append(n)
            number(n[2])
    number(d)
    def entry(n): return '(l%s:%d)%s(/l)' % (n[1][0][1], ref[n[1][0][1]], body(n[2], False))
    def body(ns, lists=True):
        s, after = '', []
        for n in ns:
            if isinstance(n, str): s += 'w'; continue
            k, t = n[1][0][1], n[0]
            if t == 'br': continue
            inner = body(n[2], lists)
            if t in ('a', 'img'):
                pl = ip if t == 'img' else lp
                if pl == 'inline': s += '(i%s)%s(/i)' % (k, inner)
                else: s += '(r%s:%d)%s(/r)' % (k, ref[k], inner)
                if pl == 'after_block': after.append(n)
            else: s += '(b)%s(e%s)' % (inner, k)
        return s + (''.join(entry(n) for n in after) if lists else '')
    want = body(d) + ''.join(entry(n) for n in footer)
    source = common.html(d)
    if unclosed: source = re.sub(r'(</\w+>)+$', '', source)        # the document ends inside these elements
    got = common.render(source, renderers=rs, extracted_link_renderers=xs, link_placement=lp, image_placement=ip)
    got = re.sub(r'\s+', '', got)
    if got != want: return 'links %s, images %s: %s is rendered as %s, should be %s' % (lp, ip, source, got, want)
    # the default renderers: the numbers shown
    def flat(ns, inside):
        return all(isinstance(n, str) or (not inside or n[0] == 'em') and flat(n[2], inside or n[0] in ('a', 'h2', 'code')) for n in ns)
    if real and flat(d, False) and lp != 'inline' and ip != 'inline':
        html2 = common.html(d)
        out = common.render('<div>' + html2 + '</div>', width=500, link_placement=lp, image_placement=ip)
        shown = [int(x) for x in re.findall(r'^ *\[(\d+)\] .*?: u\d+', out, re.M)]
        if sorted(shown) != list(range(1, nxt)): return 'list entries %r for %d links in %s: %r' % (shown, nxt - 1, html2, out)
        if lp == ip == 'footer' and shown != list(range(1, nxt)): return 'footer entries in the order %r' % shown
    return None
