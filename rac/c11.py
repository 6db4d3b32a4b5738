import common
RULE = 'targets composed of scheme, host, port, path and query, by construction of known parts, and malformed ones, as links and images, against the expected gopher item'
EXT = ['html', 'htm', 'gif', 'jpg', 'jpeg', 'png', 'bmp', 'tiff', 'txt', 'csv', 'tsv', 'md', 'pdf', 'zip', 'HTML', 'Gif', 'xhtml', 'jp', 'htmlx', '', 'tif', 'text', 'mp3', 'log']
SCH = ['', 'http', 'https', 'gopher', 'ftp', 'mailto', 'gemini', 'telnet', 'HTTP', 'Gopher', 'gophers', 'httpx', 'file', 'a.b', 'x+y', 'svn+ssh', 'h2', 'urn', 'sftp', 'wss', 'x-y', 'g', 'irc6', 'Z39.50']
def path(g):
    segs = [g.choice(['a', 'b.c', 'dir', 'x.y.z', '1', 'file name', 'ü', 'A', '..', '.', '~u']) for _ in range(g.choice([0, 1, 2, 3, 20]))]
    last = g.choice(['', 'f', 'index', '.hidden', 'a.b', 'f.', '.'])
    e = g.choice(EXT)
    if g.p(0.75): last = (last if g.p(0.8) else '') + '.' + e
    return '/'.join(segs + [last])
def gen(g):
    s = g.choice(SCH)
    p = path(g)
    if g.p(0.08): return [g.choice(['a', 'img']), 'raw', g.choice(['http://[', 'http://h:x/', 'gopher://h:99999/x', 'gopher://[::1', 'http://h:-1/', '//[', 'gopher://h:abc/a.txt']), g.choice(['own', 'x.org']), g.choice([70, 7070])]
    host = g.choice(['h', 'example.org', 'a-b.c', '1.2.3.4', 'H.Org'])
    port = g.choice([None, None, 70, 80, 7070, 1, 65535, 0])
    return [g.choice(['a', 'img']), 'parts', [s, host, port, p, g.choice(['', '', '?q=1', '?a.txt', '#f', '#f.gif'])], g.choice(['own', 'x.org']), g.choice([70, 7070, 1])]
def kind(path):
    i = path.rfind('.')
    if i <= 0: return '1'
    e = path[i + 1:]
    return {'html': 'h', 'htm': 'h', 'gif': 'g'}.get(e) or ('I' if e in ('jpg', 'jpeg', 'png', 'bmp', 'tiff') else '0' if e in ('txt', 'csv', 'tsv', 'md') else '9')
def check(case):
    tag, how, x, host, port = case
    if how == 'raw':
        href, want = x, ['h', 'URL:' + x, host, str(port)]
    else:
        s, h, po, p, tail = x
        sl = s.lower()
        if s == '':
            if ':' in p or p.startswith('//') or p.strip() != p or (p == '' and tail == ''): return None
            href = p + tail
            want = [kind(p), p, host, str(port)]
        else:
            if sl == 'mailto': href = s + ':' + p
            else: href = s + '://' + h + ('' if po is None else ':%d' % po) + ('/' + p if p or tail else '') + tail
            pp = '/' + p if p or tail else ''
            if sl == 'gopher': want = [kind(pp), pp, h.lower(), '70' if po is None else str(po)]
            else: want = ['h', 'URL:' + href, host, str(port)]
    html = '<a href="%s">T</a>' % common.esca(href) if tag == 'a' else '<img src="%s" alt="T">' % common.esca(href)
    p = common.parser(output_format='gophermap', gopher_host=host, gopher_port=port, link_placement='footer', image_placement='footer', width=2000)
    p.feed(html)
    p.close()
    line = [l for l in p.parsed.split('\n') if '\t' in l]
    if len(line) != 1: return 'no single item for %r: %r' % (href, p.parsed)
    f = line[0].split('\t')
    got = [f[0][:1]] + f[1:]
    if f[0][1:] != '[1] T' or got != want: return 'target %r: item %r, should be %r' % (href, line[0], want)
    return None
def cases():
    for tag in ('a', 'img'):
        for s in SCH:
            for e in EXT: yield [tag, 'parts', [s, 'h', None, 'a/f.' + e, ''], 'own', 7070]
            for p in ['', 'f', 'a.b/c', '.txt', '/.txt', '/x', 'x.', '.', '..', 'a.txt.html', 'a.b.txt', 'v1.2/docs', 'a.txt/x', 'a.txt/', 'd.d/.txt', 'f.tar.md', 'f.HTM', 'f.md5']: yield [tag, 'parts', [s, 'H.x', 105, p, ''], 'own', 70]
