import common
RULE = 'random texts (long words, hyphens, escape codes anywhere, whitespace runs) x widths x indents x options: visible width of every line, no sequence cut'
KW = ['break_long_words', 'break_on_hyphens', 'drop_whitespace', 'replace_whitespace', 'fix_sentence_endings', 'expand_tabs']
def gen(g, long=True):
    t = g.text(g.choice([12, 12, 12, 80]), ' \n\t' if g.p(0.4) else ' ')
    if g.p(0.6): t = g.ansi(t, g.choice([0.2, 0.8]))
    if g.p(0.1): t = ''.join(g.choice(['\x1b[1m', 'x', 'abc', ' ', '-', '\x1b[38;5;1m', 'word ']) for _ in range(g.randint(1, 25)))
    w = g.int(1, 12) if g.p(0.5) else g.int(1, 80) if g.p(0.9) else g.randint(80, 400)
    kw = {}
    for k in KW:
        if g.p(0.25): kw[k] = g.p(0.5)
    if w > 1 and g.p(0.4): kw['initial_indent'] = ' ' * g.randint(0, min(w - 1, 8))
    if w > 1 and g.p(0.4): kw['subsequent_indent'] = ' ' * g.randint(0, min(w - 1, 8))
    for n in ('initial_indent', 'subsequent_indent'):
        if n in kw and g.p(0.2): kw[n] = g.choice(['\x1b[1m', '\x1b[0;31m']) + kw[n] + g.choice(['', '\x1b[0m'])
    return [t, w, kw]
def check(case):
    from gopher_render import _textwrap as T
    t, w, kw = case
    lines = T.wrap(t, w, **kw)
    whole = common.ESC.findall(t)
    for i in ('initial_indent', 'subsequent_indent'):
        if common.ESC.search(kw.get(i, '')):
            plain = {n: common.vis(v) if n == i else v for n, v in kw.items()}
            if [common.vis(l) for l in lines] != [common.vis(l) for l in T.wrap(t, w, **plain)]: return 'escape codes in the %s take up width: %r in width %d (%r): %r' % (i, t, w, kw, lines)
            kw = plain
            lines = T.wrap(t, w, **kw)
    got = []
    if '-' not in t and '\t' not in t and not kw.get('fix_sentence_endings') and whole and '\x1b' not in common.vis(t) and all(common.vis(x) for x in t.split()):
        # the codes take up no width: the lines are those of the text without them
        plain = T.wrap(common.vis(t), w, **kw)
        if [common.vis(l) for l in lines] != plain: return 'escape codes take up width: %r in width %d (%r): %r' % (t, w, kw, lines)
    for k, l in enumerate(lines):
        if '\n' in l and kw.get('replace_whitespace', True): return 'line with a line feed: %r' % l
        if kw.get('break_long_words', True) and common.vlen(l) > w: return 'line %d of %r in width %d (%r) has %d visible characters: %r' % (k, t, w, kw, common.vlen(l), l)
        got += common.ESC.findall(l)
        if '\x1b' in common.vis(l) and '\x1b' not in common.vis(t): return 'line %d of %r in width %d has a part of an escape code: %r' % (k, t, w, l)
    if got != whole: return 'escape codes of %r in width %d: %r' % (t, w, got)
    return None
def cases():
    import itertools
    for n in range(0, 5):
        for c in itertools.product(['\x1b[1m', 'x', 'ab', ' '], repeat=n):
            for w in (1, 2, 3): yield [''.join(c), w, {}]
