import common
RULE = 'block quotes and preformatted blocks with any lines (blank, indented, long, with braces and escape codes), paragraphs with explicit breaks, headings of all levels, rendered and compared line by line'
def line(g):
    q = g.random()
    if q < 0.12: return ''
    s = ' '.join(g.words(g.randint(1, 12)))
    if q < 0.3: s = ' ' * g.randint(1, 5) + s
    if q > 0.85: s = s + ' ' * g.randint(1, 3)
    if 0.3 < q < 0.4: s = '\t' + s
    return g.ansi(s) if g.p(0.2) else s
def gen(g):
    kind = g.choice(['quote', 'pre', 'pre2', 'p', 'p', 'h'])
    conf = {}
    if kind == 'quote' and g.p(0.4): conf['line_template'] = g.choice(['| {}', '> {}', '{}', '>> {} <'])
    if kind in ('pre', 'pre2'):
        if g.p(0.4): conf['indent'] = g.choice([0, 1, 2, 4, 8])
        if g.p(0.2): conf['line_template'] = g.choice(['| {}', '{}'])
    if kind == 'p' and g.p(0.4): conf['justification'] = g.choice(['left', 'full', 'right', 'center', 'none'])
    if kind == 'h': return [kind, g.choice(['h1', 'h2', 'h3', 'h4', 'h5', 'h6']), ' '.join(g.words(g.randint(0, 8))), conf, g.choice([10, 67])]
    return [kind, None, [line(g) for _ in range(g.choice([1, 2, 3, 4, 5, 6, 6, 40, 110]))], conf, g.choice([10, 20, 67])]
def cases():
    for h in '123456':
        for t in ('', 'x', 'a {} b', 'word ' * 20): yield ['h', 'h' + h, t.strip(), {}, 30]
    for k in ('quote', 'pre', 'pre2', 'p'):
        for n in (33, 70, 130, 300):
            yield [k, None, ['a b'] * n, {}, 20]; yield [k, None, ['a b', ''] * n, {}, 20]; yield [k, None, ['x' * n, 'y' * n], {}, 67]
        for ls in (['a'], ['a', '', 'b'], ['', 'a'], ['a', ''], ['  a', 'b  ', '{}'], ['x' * 50, 'y ' * 40], ['{', '}', '{0}', '{x}']): yield [k, None, ls, {}, 20]
def check(case):
    kind, tag, lines, conf, width = case
    from gopher_render import rendering as R
    class Tag: parent = None; children = []
    Tag.tag = tag or {'quote': 'blockquote', 'pre': 'pre', 'pre2': 'pre', 'p': 'p'}[kind]
    Tag.attrs = {}
    box = R.Box(width=width)
    st = dict(conf, margin=[0, 0, 0, 0])
    def run(cls, content): return cls(Tag(), parent_box=box, settings=dict(st)).render(content)
    if kind == 'h':
        got = run(R.MarkdownHeaderRenderer, lines).rstrip(' ')
        want = ('#' * int(tag[1]) + ' ' + lines + ' ' + '#' * int(tag[1]))
        return None if got == want else 'heading %r of level %s: %r' % (lines, tag, got)
    content = '\n'.join(lines)
    got = None
    if kind == 'quote':
        tm = conf.get('line_template', '> {}').split('{}')
        out = run(R.BlockQuoteRenderer, content).split('\n')
        src = content.splitlines()
        want = [tm[0] + l + tm[1] for l in src] or ['']
        if [l.rstrip() for l in out] != [l.rstrip() for l in want] or any(not o.startswith(x) for o, x in zip(out, want)): return 'quote of %r: %r, should be %r' % (lines, out, want)
        return None
    if kind == 'pre':
        ind = conf.get('indent', 4); tm = conf.get('line_template', '{}').split('{}')
        out = run(R.PreRenderer, content).split('\n')
        src = content.splitlines()
        want = [' ' * ind + tm[0] + l + tm[1] for l in src] or ['']
        if len(out) != len(want) or any(not o.startswith(x) or o[len(x):].strip() for o, x in zip(out, want)): return 'preformatted %r: %r, should be %r' % (lines, out, want)
        return None
    if kind == 'pre2':
        ind = conf.get('indent', 4)
        rs = {'pre': (R.PreRenderer, dict(st, line_template='{}'))}
        if any('\r' in l or '\x0b' in l for l in lines): return None
        src = content.splitlines()
        src = [l for l in src]
        out = common.render('<pre><code>' + common.esc(content) + '</code></pre>', width=width, renderers=rs, optimise=False).split('\n')
        want = [' ' * ind + l for l in src]
        if content.startswith('\n'): return None
        if len([o for o in out]) < len(want) or any(not o.startswith(x) or o[len(x):].strip() for o, x in zip(out, want)): return 'pre of %r: %r, should be %r' % (lines, out, want)
        return None
    # paragraph: the words of every line, none of them on a line with those of another
    out = run(R.ParagraphRenderer, content).split('\n')
    seq = []
    k = 0
    nows = lambda s: ''.join(s.split())
    just = conf.get('justification', 'left')
    for l in lines:
        want = nows(l)
        if not want:
            if k >= len(out) or out[k].strip(): return 'paragraph %r: the empty line is lost: %r' % (lines, out)
            k += 1; continue
        acc = ''
        while k < len(out) and acc != want:
            acc += nows(out[k]); k += 1
            if not want.startswith(acc): return 'paragraph %r (%s, width %d): %r' % (lines, just, width, out)
        if acc != want: return 'paragraph %r (%s, width %d): %r' % (lines, just, width, out)
    if k != len(out): return 'paragraph %r: surplus lines in %r' % (lines, out)
    return None
