import common
RULE = 'random links and images (content, title, alternative text, target, number, cut length, placement) with the default templates against the expected reference and list entry'
PL = ['footer', 'after_block', 'inline']
def word(g): return ' '.join(g.words(g.choice([1, 1, 1, 2, 3])))
def pad(g, s): return g.choice(['', '', '', ' ']) + s + g.choice(['', '', '', ' '])
def gen(g):
    items = []
    for _ in range(g.randint(1, 4)):
        items.append([g.choice(['a', 'img']), pad(g, word(g)) if g.p(0.9) else '', g.choice([None, None, '', pad(g, word(g))]), 'http://h/' + g.choice(['', 'a', 'a?b=c&d', '{x}', 'ä', 'x.png'])])
    return [g.choice(PL), g.choice(PL), g.choice([None, None, 0, 1, 3, 9, 10, 11, 25]), items]
def cases():
    for t in ('a', 'img'):
        for pl in PL:
            for n in (1, 9, 10, 11, 12):
                for ti in (None, '', 'T', 'Title of it {}'):
                    if t == 'a' or n == 9:
                        for mx in (None, 3): yield [pl, pl, mx, [[t, 'abcdefghijkl'[:n], ti, 'http://h/x']]]
                    if t == 'img': yield [pl, pl, None, [[t, '', 'abcdefghijkl'[:n], 'http://h/x'], [t, '', ti, '/y']]]
def check(case):
    lp, ip, mx, items = case
    body, refs, lists, n = '', [], [], 1
    cut = lambda s, m: s.strip()[:m] + '...' if len(s.strip()) > m else s.strip()
    m = 10 if mx is None else mx
    after = []
    for t, c, ti, href in items:
        pl = lp if t == 'a' else ip
        if t == 'a':
            body += '<div><a href="%s"%s>%s</a></div>' % (common.esca(href), '' if ti is None else ' title="%s"' % common.esca(ti), common.esc(c))
            if pl == 'inline': refs.append('[%s](%s "%s")' % (c, href, ti) if ti else '[%s](%s)' % (c, href))
            else:
                refs.append('[%s][%d]' % (c, n))
                lists.append((len(refs) - 1, pl, '[%d] %s: %s' % (n, cut(c, m), href) + (' "%s"' % ti if ti else '')))
                n += 1
        else:
            alt = ti or 'Image'
            body += '<div><img src="%s"%s></div>' % (common.esca(href), '' if ti is None else ' alt="%s"' % common.esca(ti))
            if pl == 'inline': refs.append('![%s](%s)' % (alt, href))
            else:
                refs.append('[%s][%d]' % (alt, n))
                lists.append((len(refs) - 1, pl, '[%d] %s: %s' % (n, cut(alt, m), href) + (' "%s"' % alt if len(alt.strip()) > m else '')))
                n += 1
    from gopher_render import rendering as R
    xs = {} if mx is None else {'a': (R.ExtractedLinkRenderer, dict(max_link_description=mx)), 'img': (R.ExtractedImageLinkRenderer, dict(max_link_description=mx))}
    got = common.render(body, width=2000, link_placement=lp, image_placement=ip, extracted_link_renderers=xs, renderers={'div': R.BlockRenderer})
    lines = [' '.join(l.split()) for l in got.split('\n') if l.strip()]
    got1 = ' '.join(lines)
    # every expected piece, in order
    want = []
    for k, r in enumerate(refs):
        want.append(r)
        want += [e for q, pl, e in lists if q == k and pl == 'after_block']
    want += [e for q, pl, e in lists if pl == 'footer']
    norm = lambda s: ' '.join(s.split()).replace(' ', '')
    if norm(got1) != norm(''.join(want)): return '%s (links %s, images %s, cut at %s) is shown as %r, should be %r' % (body, lp, ip, m, got1, want)
    return None
