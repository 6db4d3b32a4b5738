import common
RULE = 'random documents with links and images whose text, title and target contain tabs, line ends, braces and any other characters, in gophermap output, entry renderers with random margins, paddings and borders; every entry is looked at as a line of four fields'
def txt(g):
    q = g.random()
    if q < 0.1: return ''
    return g.text(4, '\t\n\r \x0b\x0c\x85\u2028') if q < 0.75 else g.choice(['a\tb', '\t', '\n', 'x\r\ny', '{description}', '{', '}', '{0}', 'a\nb\nc\td', '\x85', '\x1c', '\x0b'])
def gen(g):
    return [[[g.choice(['a', 'img']), txt(g), g.choice([None, txt(g), '']), g.choice(['/f.txt', 'http://h/a b', '/a b.html', 'gopher://h/x.gif', 'mailto:x', 'http://h/\tx', '/p\nq.txt', 'http://h/{x}', 'http://[\t', '', '#top', '?q', 'gopher://h', ' ']) + g.choice(['', '', 'z'])] for _ in range(g.randint(1, 12) if g.p(0.95) else 110)],
            g.four(3), g.four(3), [g.choice(['', '', '-', '|', '##']) for _ in range(4)], g.choice([None, 0, 3, 40]), g.choice(['footer', 'after_block'])]
def check(case):
    items, m, pd, b, mx, place = case
    from gopher_render import rendering as R
    st = dict(margin=m, padding=pd, border=b)
    if mx is not None: st['max_link_description'] = mx
    out = []
    def rec(base):
        class X(base):
            def render(self, content):
                r = super().render(content); out.append((self.tag, self.context['link_reference'], r)); return r
        return X
    xs = {'a': (rec(R.ExtractedLinkRenderer), st), 'img': (rec(R.ExtractedImageLinkRenderer), st)}
    p = common.parser(output_format='gophermap', gopher_host='own', gopher_port=7070, link_placement=place, image_placement=place, extracted_link_renderers=xs)
    nodes = []
    for t, c, ti, href in items:
        p.handle_starttag(t, ([('href', href)] if t == 'a' else [('src', href)]) + ([] if ti is None else [('title' if t == 'a' else 'alt', ti)]))
        if t == 'a':
            if c: p.handle_data(c)
            p.handle_endtag('a')
    p.close()
    if [x[1] for x in out] != list(range(1, len(items) + 1)): return 'entries %r' % [x[1] for x in out]
    for (t, c, ti, href), (tag, ref, r) in zip(items, out):
        top, bot = '\n' * m[0], '\n' * m[2]
        if not r.startswith(top) or not r.endswith('\n' + bot): return 'entry %r of %r: margins' % (r, href)
        line = r[len(top):len(r) - len(bot) - 1]
        if '\n' in line or '\r' in line: return 'entry of %r is not one line: %r' % ((t, c, ti, href), r)
        f = line.split('\t')
        if len(f) != 4: return 'entry of %r has %d fields: %r' % ((t, c, ti, href), len(f), r)
        g = tag.gopher_link
        if not f[0].startswith('%s[%d] ' % (g['type'], ref)): return 'entry of %r begins with %r' % ((t, c, ti, href), f[0])
        sel = str(g['selector'])
        want = [sel if not any(x in sel for x in '\t\r\n') else f[1], str(g['host']), str(g['port'])]
        if f[1:] != want: return 'entry of %r: fields %r, should be %r' % ((t, c, ti, href), f[1:], want)
        if t == 'a' and ti is not None and f[0] != '%s[%d] ' % (g['type'], ref) + ''.join(' ' if x in '\t\r\n' else x for x in ti): return 'description of %r: %r' % ((t, c, ti, href), f[0])
    return None
