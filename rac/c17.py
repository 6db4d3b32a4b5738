import common
RULE = 'random texts with escape codes x widths x the four justifications, with indents and options, against the wrapped lines'
def gen(g):
    t = g.text(g.choice([12, 12, 12, 60]), ' ')
    if g.p(0.4): t = g.ansi(t)
    w = g.int(5, 30) if g.p(0.5) else g.int(1, 90) if g.p(0.85) else g.randint(90, 400)
    kw = {}
    if w > 4 and g.p(0.3): kw['initial_indent'] = ' ' * g.randint(0, 3)
    if w > 4 and g.p(0.3): kw['subsequent_indent'] = ' ' * g.randint(0, 3)
    if g.p(0.3): kw['fix_sentence_endings'] = True
    if g.p(0.2): kw['break_long_words'] = False
    return [t, w, kw]
def cases():
    for t in ['', 'a', 'a b', 'a b c d e f g h', 'aa bb cc dd ee ff', ' a b c', 'a\x1b[1mb c\x1b[22m d e', 'word ' * 20, 'abcdefghij klm', 'a  b  c. d', 'a ' * 9 + 'bbbbbbbbbbbbb c']:
        for w in (1, 2, 3, 5, 6, 7, 8, 10, 11, 20): yield [t, w, {}]
def check(case):
    from gopher_render import rendering as R, _textwrap as T
    t, w, kw = case
    lines = T.wrap(t, w, **kw)
    vl = common.vlen
    for how in ('left', 'full', 'center', 'right'):
        out = R.justifications[how](t, w, **kw)
        got = out.split('\n') if lines else ([] if out == '' else [out])
        if how == 'left':
            if got != lines: return 'left: %r, wrapped %r' % (got, lines)
            continue
        if len(got) != len(lines): return '%s: %d lines, wrapped %d (%r in width %d)' % (how, len(got), len(lines), t, w)
        for k, (a, b) in enumerate(zip(got, lines)):
            where = '%s: line %d of %r in width %d (%r): %r from %r' % (how, k, t, w, kw, a, b)
            if a.split() != b.split(): return where + ': other words'
            if vl(b) >= w:
                if a != b: return where + ': changed though it is full'
                continue
            if how == 'full':
                if k == len(lines) - 1 or len(b.split()) < 2:
                    if a != b: return where + ': changed'
                elif vl(a) != w: return where + ': width %d' % vl(a)
            elif vl(a) != w: return where + ': width %d' % vl(a)
            else:
                lead, trail = len(a) - len(a.lstrip(' ')), len(a) - len(a.rstrip(' '))
                if how == 'right' and not a.endswith(b): return where
                if how == 'center':
                    i = a.find(b); 
                    if i < 0 or abs(i - (len(a) - len(b) - i)) > 1: return where + ': not in the middle'
    return None
