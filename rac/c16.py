import common, c15
RULE = c15.RULE.replace('visible width of every line, no sequence cut', 'characters and word boundaries of the lines against those of the text')
def gen(g): return c15.gen(g)
def check(case):
    from gopher_render import _textwrap as T
    t, w, kw = case
    lines = T.wrap(t, w, **kw)
    ii, si = kw.get('initial_indent', ''), kw.get('subsequent_indent', '')
    body = []
    for k, l in enumerate(lines):
        ind = ii if k == 0 else si
        if not l.startswith(ind): return 'line %d of %r is not indented: %r' % (k, t, l)
        body.append(l[len(ind):])
    nows = lambda s: ''.join(s.split())
    if nows(''.join(body)) != nows(t): return 'characters of %r in width %d (%r): %r' % (t, w, kw, lines)
    # words separated by whitespace stay separated
    words = t.split()
    text = '\n'.join(body)
    pieces = text.split()
    k = 0
    ends, pos = set(), 0
    for x in pieces: pos += len(x); ends.add(pos)
    pos = 0
    for x in words:
        pos += len(x)
        if pos not in ends: return 'the word %r of %r is joined with the next one in width %d (%r): %r' % (x, t, w, kw, lines)
    if kw.get('drop_whitespace', True):
        W = ' \t\n\r\x0b\x0c'
        for k, l in enumerate(body):
            if l != l.rstrip(W): return 'line %d of %r in width %d (%r) ends with whitespace: %r' % (k, t, w, kw, l)
            if k and l != l.lstrip(W): return 'line %d of %r in width %d (%r) begins with whitespace: %r' % (k, t, w, kw, l)
    return None
def cases():
    import itertools
    for n in range(0, 6):
        for c in itertools.product('x -\n', repeat=n):
            for w in (1, 2, 4): yield [''.join(c), w, {}]
