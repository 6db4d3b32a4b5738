import common
RULE = 'random ordered, unordered and definition lists with text between the items, start, step and marker configured or not, at random widths, inside nothing or quotes, and single items with any lines: markers, ordinals and alignment of every item'
def gen(g):
    if g.p(0.35):
        ls = [' '.join(g.words(g.randint(0, 4))) for _ in range(g.choice([1, 2, 3, 4, 4, 40]))]
        return ['one', [g.choice(['ListItemRenderer', 'DefinitionListItemRenderer']), g.choice(['none', 'none', 'left', 'full', 'right', 'center']), ls], g.choice(['* {}', '{}', '  {}', ' {}:', '-> {}', g.text(2, ' ').replace('{', '').replace('}', '') + '{}']), g.choice([20, 30, 67]), g.randint(0, 2)]
    kind = g.choice(['ol', 'ol', 'ul', 'dl'])
    items = []
    for _ in range(g.choice([1, 2, 3, 12, 12, 40, 110])):
        if g.p(0.4): items.append(g.choice(['\n', ' ', 'text', '\n  \n']))
        items.append([g.choice(['li'] * 4 + ['x']) if kind != 'dl' else 'dd', ' '.join(g.words(g.randint(1, 15)))])
    conf = {}
    if kind == 'ol':
        if g.p(0.4): conf['start_index'] = g.choice([0, 1, 2, 9, 10, 99, -3, 5])
        if g.p(0.3): conf['step'] = g.choice([1, 2, 10, 0, -1])
        if g.p(0.3): conf['line_template'] = g.choice(['({0}) {1}', '{0}: {1}', '{0} {1}', '>>{0}> {1}'])
    elif g.p(0.3): conf['line_template'] = g.choice(['- {}', '+{}', '---> {}', '{}'])
    if g.p(0.3): conf['margin'] = [0, 0, 0, 0]
    if g.p(0.2): conf['justification'] = g.choice(['left', 'none'])
    return [kind, items, conf, g.choice([20, 30, 67, 40])]
def cases():
    for c in ('ListItemRenderer', 'DefinitionListItemRenderer'):
        for ls in (['aa'] * 3, ['', 'a', 'b'], ['a', '', 'b'], ['a', 'b', ''], ['aa bb cc ' * 5]):
            for tm in ('* {}', '  {}', '{}'):
                for j in ('none', 'left', 'right'):
                    for d in (0, 1, 2): yield ['one', [c, j, ls], tm, 30, d]
    for k in ('ol', 'ul', 'dl'):
        it = 'dd' if k == 'dl' else 'li'
        yield [k, ['\n'] + [y for x in range(12) for y in ([it, 'word ' * 12], '\n')], {}, 30]
        yield [k, [y for x in range(3) for y in ('t', [it, 'w'])], {}, 30]
    for s in (0, 1, 7, 99):
        for st in (0, 1, 5, -2): yield ['ol', [['li', 'aa bb cc dd ee ff gg'], ' ', ['li', 'x'], ['x', 'q'], ['li', 'z']], {'start_index': s, 'step': st}, 20]
def one(case):
    _, (cls, just, ls), tm, width, depth = case
    from gopher_render import rendering as R
    if '\n' in tm or '\r' in tm or '\n' in ''.join(ls): return None
    box = R.Box(width=width)
    for _ in range(depth): box = R.Box(parent=box, line_template='> {}')
    if width - 2 * depth - (len(tm) - 2) < 1: return None
    st = dict(margin=[0, 0, 0, 0], justification=just, line_template=tm)
    got = getattr(R, cls)(None, parent_box=box, settings=st).render('\n'.join(ls)).split('\n')
    w = width - 2 * depth - (len(tm) - 2)
    kw = dict(initial_indent='', subsequent_indent='', fix_sentence_endings=True, break_long_words=True)
    lines = R.justifications[just]('\n'.join(ls), w, **kw).split('\n')
    a, b = tm.split('{}')
    want = [a + lines[0] + b] + [' ' * (len(tm) - 2) + l for l in lines[1:]]
    if [l.rstrip() for l in got] != [l.rstrip() for l in want] or any(not x.startswith(y) for x, y in zip(got, want)): return '%s in %d quotes: %r, should be %r' % (cls, depth, got, want)
    return None


def check(case):
    if case[0] == 'one': return one(case)
    kind, items, conf, width = case
    from gopher_render import rendering as R
    outs = []
    base = {'ol': R.OrderedListItemRenderer, 'ul': R.ListItemRenderer, 'dl': R.DefinitionListItemRenderer}[kind]
    class X(base):
        def render(self, content):
            r = super().render(content); outs.append((content, r)); return r
    it = 'dd' if kind == 'dl' else 'li'
    doc = [x if isinstance(x, str) else [x[0], [], [x[1]]] for x in items]
    st = dict(dict(margin=[0, 0, 0, 0]), **conf)
    st['margin'] = [0, 0, 0, 0]
    key = 'ol > li' if kind == 'ol' else it
    try: p = common.feed('<%s>%s</%s>' % (kind, common.html(doc), kind), width=width, renderers={key: (X, st)})
    except Exception: raise
    p.close()
    els = [x for x in items if not isinstance(x, str)]
    lis = [(k, x) for k, x in enumerate(els) if x[0] == it]
    if len(outs) != len(lis): return '%d items rendered, should be %d' % (len(outs), len(lis))
    for (k, x), (content, r) in zip(lis, outs):
        tm = conf.get('line_template') or {'ol': '{0}. {1}', 'ul': '* {}', 'dl': ': {}'}[kind]
        n = conf.get('start_index', 1) + k * conf.get('step', 1)
        mark = tm.replace('{0}', str(n)).replace('{1}', '') if kind == 'ol' else tm.replace('{}', '')
        lines = r.split('\n')
        if not lines[0].startswith(mark): return 'item %d (%r) begins with %r, should begin with %r' % (k, x, lines[0], mark)
        for l in lines[1:]:
            if l[:len(mark)] != ' ' * len(mark): return 'item %d: line %r is not indented by %d' % (k, l, len(mark))
            if l[len(mark):len(mark) + 1] == ' ' and conf.get('justification', 'left') == 'left': return 'item %d: line %r is indented by more than %d' % (k, l, len(mark))
        text = ' '.join([lines[0][len(mark):]] + [l[len(mark):] for l in lines[1:]])
        if ''.join(text.split()) != ''.join(x[1].split()): return 'item %d: text %r became %r' % (k, x[1], text)
        if conf.get('justification', 'left') == 'left' and any(common.vlen(l) > width for l in lines): return 'item %d is wider than %d: %r' % (k, width, r)
    return None
