import common
RULE = 'random sequences of start tags, end tags (matching, mismatched, surplus, of void elements) and texts, given by method calls or as html, against a stack machine'
TAGS = ['p', 'div', 'a', 'pre', 'li', 'br', 'img', 'em', 'code', 'ul', 'br', 'img', 'hr', 'link', 'input', 'td', 'span', 'b']
def gen(g):
    ev, stack = [], []
    for k in range(g.choice([3, 8, 20, 60])):
        q = g.random()
        if q < 0.4: t = g.choice(TAGS); ev.append(['s', t, g.attrs()]); stack.append(t)
        elif q < 0.75:
            t = g.choice(TAGS) if not stack or g.p(0.3) else stack[-1]
            if stack and t == stack[-1]: stack.pop()
            ev.append(['e', t])
        elif not (ev and ev[-1][0] == 't'): ev.append(['t', g.text(4) or 'x'])
    return [g.choice(['call', 'html']), g.choice(['footer', 'after_block', 'inline']), ev]
def check(case):
    how, place, ev = case
    p = common.parser(link_placement=place, image_placement=place)
    root = []                                       # [tag, attrs, children, parent] or text
    stack = []
    for e in ev:
        if how == 'call':
            if e[0] == 's': p.handle_starttag(e[1], [tuple(a) for a in e[2]])
            elif e[0] == 'e': p.handle_endtag(e[1])
            else: p.handle_data(e[1])
        top = stack[-1] if stack else None
        kids = top[2] if top else root
        if e[0] == 's':
            n = [e[1], dict(map(tuple, e[2])), []]
            kids.append(n)
            if e[1] not in ('br', 'img'): stack.append(n)
        elif e[0] == 'e':
            if e[1] not in ('br', 'img') and top and top[0] == e[1]: stack.pop()
        else: kids.append(e[1])
        if how == 'call':
            r = same(root, p.tree.children, p.tree, True)
            if r: return 'after %r: %s' % (e, r)
    if how == 'html':
        out = []
        for e in ev:
            if e[0] == 's': out.append('<%s%s>' % (e[1], ''.join(' ' + k if v is None else ' %s="%s"' % (k, common.esca(v)) for k, v in e[2])))
            elif e[0] == 'e': out.append('</%s>' % e[1])
            else: out.append(common.esc(e[1]))
        p.feed(''.join(out) + '<p>')                 # flushes pending text
        (stack[-1][2] if stack else root).append(['p', {}, []])
        r = same(root, p.tree.children, p.tree, False)
        if r: return r
    return None
def same(ms, rs, parent, exact):
    if len(ms) != len(rs): return '%d children of %s, should be %d' % (len(rs), getattr(parent, 'tag', 'the document'), len(ms))
    for m, r in zip(ms, rs):
        if isinstance(m, str):
            if r.tag is not None or r.data.split() != m.split(): return 'text %r instead of %r' % (getattr(r, 'data', r.tag), m)
            continue
        if r.tag != m[0]: return 'element %s instead of %s' % (r.tag, m[0])
        if r.parent is not parent: return 'parent of %s is %r' % (r.tag, r.parent)
        a = dict(r.attrs)
        if 'class' in m[1]: a['class'] = m[1]['class']
        if a != m[1] or r.id != m[1].get('id') or list(r.classes) != (m[1].get('class') or '').split(): return 'attributes of %s: %r, should be %r' % (r.tag, r.attrs, m[1])
        e = same(m[2], r.children, r, exact)
        if e: return e
    return None
def cases():
    import itertools
    evs = [['s', 'p', []], ['s', 'br', []], ['e', 'p'], ['e', 'div'], ['e', 'br'], ['t', 'x y'], ['s', 'div', [['class', None]]]]
    for n in (1, 2, 3, 4):
        for t in itertools.product(evs, repeat=n): yield ['call', 'footer', list(t)]
    for n in (40, 130, 300):
        kid = [['s', 'em', []], ['t', 'x'], ['e', 'em'], ['s', 'br', []], ['t', 'y']]
        deep = [['s', ['p', 'div', 'a', 'ul'][k % 4], []] for k in range(n)]
        for how in ('call', 'html'):
            for t in ('p', 'div', 'ul'): yield [how, 'footer', [['s', t, []]] + kid * n + [['e', t], ['s', 'div', []], ['t', 'z']]]
            yield [how, 'footer', kid * n]
            yield [how, 'footer', deep + [['t', 'x']] + [['e', e[1]] for e in deep[::-1]] + [['s', 'p', []]]]
            yield [how, 'footer', deep + [['t', 'x']] + [['e', e[1]] for e in deep[:4:-1]] + [['e', 'li'], ['s', 'p', []], ['t', 'y']]]
