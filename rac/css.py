"""CSS oracle: selectors as trees, what they match by definition, and random ones."""
import re
import common

# compound: ['el', tag|None] then list of simple parts; selector = ['compound', tag|None, parts] | ['comb', left selector, op, compound]
# parts: ['class', n] ['id', n] ['attr', n, op, v] ['not', tag|None, part|None] ['ps', name] ['nth', name, n]


def q(v): return '"' + v.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\a ') + '"'


def part_s(p):
    k = p[0]
    if k == 'class': return '.' + p[1]
    if k == 'id': return '#' + p[1]
    if k == 'attr': return '[%s]' % p[1] if p[2] == 'exists' else '[%s%s%s]' % (p[1], p[2], q(p[3]))
    if k == 'not': return ':not(%s)' % (p[1] if p[2] is None else part_s(p[2]))
    if k == 'ps': return ':' + p[1]
    if k == 'nth': return ':%s(%d)' % (p[1], p[2])


def to_s(s):
    if s[0] == 'comb':
        op = s[2]
        return to_s(s[1]) + (' ' if op == ' ' else ' %s ' % op) + to_s(s[3])
    t, ps = s[1], s[2]
    return (t or '') + ''.join(part_s(p) for p in ps) if (t or ps) else '*'


def part_m(n, p):
    k = p[0]
    if k == 'class': return p[1] in (n.attrs.get('class') or '').split()
    if k == 'id': return n.attrs.get('id') == p[1]
    if k == 'attr':
        if p[1] not in n.attrs: return False
        v = n.attrs[p[1]] or ''
        if p[1] == 'class': v = ' '.join(v.split())
        op, w = p[2], p[3]
        if op == 'exists': return True
        if op == '=': return v == w
        if op == '~=': return w in v.split()
        if op == '|=': return v == w or v.startswith(w + '-')
        if w == '': return False
        return v.startswith(w) if op == '^=' else v.endswith(w) if op == '$=' else w in v
    if k == 'not': return not (n.tag == p[1] if p[2] is None else part_m(n, p[2]))
    if k == 'ps':
        es = n.parent.elements
        return (es[0] if p[1] == 'first-child' else es[-1]) is n
    if k == 'nth':
        es = n.parent.elements
        if p[1] == 'nth-last-child': es = es[::-1]
        return 1 <= p[2] <= len(es) and es[p[2] - 1] is n


def match(n, s):
    if n.tag is None: return False
    if s[0] == 'comb':
        if not match(n, s[3]): return False
        op, pa = s[2], n.parent
        if op == '>': return pa.tag is not None and match(pa, s[1])
        if op == ' ':
            while pa is not None and pa.tag is not None:
                if match(pa, s[1]): return True
                pa = pa.parent
            return False
        es = pa.elements
        k = next(i for i, e in enumerate(es) if e is n)
        if op == '+': return k > 0 and match(es[k - 1], s[1])
        return any(match(e, s[1]) for e in es[:k])
    return (s[1] is None or s[1] == n.tag) and all(part_m(n, p) for p in s[2])


def spec(s):
    if s[0] == 'comb':
        return tuple(x + y for x, y in zip(spec(s[1]), spec(s[3])))
    def one(p):
        if p[0] == 'id': return (1, 0, 0)
        if p[0] == 'not': return (0, 0, 1) if p[2] is None else one(p[2])
        return (0, 1, 0)
    r = [(0, 0, 1 if s[1] else 0)] + [one(p) for p in s[2]]
    return tuple(map(sum, zip(*r)))


def gen_part(g, kinds, nn=True):
    k = g.choice(kinds)
    if k == 'class': return ['class', g.choice(common.CLASSES)]
    if k == 'id': return ['id', g.choice(common.IDS)]
    if k == 'attr': 
        n = g.choice(common.ATTRS)
        op = g.choice(['exists', '=', '~=', '|=', '^=', '$=', '*='])
        v = '' if g.p(0.1) else (g.attr_value(n) or 'a')
        if g.p(0.4) and len(v) > 1:
            a = g.randint(0, len(v) - 1); b = g.randint(a, len(v)); v = v[a:b]
        return ['attr', n, op, None if op == 'exists' else v]
    if k == 'not':
        if g.p(0.3): return ['not', g.choice(common.TAGS[:6]), None]
        return ['not', None, gen_part(g, [x for x in kinds if x != 'not'] or ['class'])]
    if k == 'ps': return ['ps', g.choice(['first-child', 'last-child'])]
    if k == 'nth': return ['nth', g.choice(['nth-child', 'nth-last-child']), g.choice([-2, -1, 0, 1, 1, 2, 2, 3, 4, 5, 9, 10, 11, 17, 32, 40, 50])]


def gen_compound(g, kinds, n, tags):
    ps = [gen_part(g, kinds) for _ in range(g.randint(0, n))] if kinds else []
    return ['compound', g.choice(tags) if g.p(0.5) else None, ps]


def gen_sel(g, kinds, n=2, ops=(), depth=0, tags=common.TAGS[:6]):
    s = gen_compound(g, kinds, n, tags)
    if ops:
        for _ in range(g.randint(0, depth)):
            s = ['comb', s, g.choice(ops), gen_compound(g, kinds, n, tags)]
    return s


def chain_doc(g, tags):
    """deep nesting, a few siblings on the way"""
    d = []
    for _ in range(g.randint(5, 60)):
        d = [[g.choice(tags), g.attrs(), d]]
        if g.p(0.2): d.insert(0, [g.choice(tags), [], []])
        if g.p(0.2): d.insert(g.randint(0, len(d)), 't')
    return d


def wide_doc(g, tags):
    d = []
    for _ in range(g.randint(8, 60)):
        d.append([g.choice(tags), g.attrs() if g.p(0.3) else [], [['em', [], []]] if g.p(0.1) else []])
        if g.p(0.3): d.append('t')
    return d if g.p(0.5) else [['div', [], d]]


def small_doc(g, tags=None):
    q = g.random()
    if q < 0.06: return chain_doc(g, tags or common.TAGS[:6])
    if q < 0.12: return wide_doc(g, tags or common.TAGS[:6])
    return g.doc(depth=4, width=4, tags=tags or common.TAGS[:6], void=g.p(0.3))


def check_matches(case, fn=None):
    """case: [doc, [selector, ...]]: every node against every selector"""
    doc, sels = case
    h = common.html(doc)
    for src in (h, re.sub(r'(</[-\w]+>)+$', '', h)):              # the document may end inside its last elements
        if src == h or src.endswith('>'):
            r = check_in(src, doc, sels)
            if r: return r
    return None


def check_in(src, doc, sels):
    import cssselect
    from gopher_render._selectors import tag_matches
    p = common.feed(src)
    pr = common.pairs(doc, p)
    if pr is None: return None
    root, nodes = pr
    for s in sels:
        text = to_s(s)
        try: parsed = cssselect.parse(text)
        except cssselect.SelectorError: continue
        for m, r in nodes:
            got, want = bool(tag_matches(r, parsed)[0]), match(m, s)
            if got != want: return 'selector %s on %r: %s, by definition %s' % (text, m.raw if m.tag is None else m.raw[:2], got, want)
        if tag_matches(p.tree, parsed)[0]: return 'selector %s matches the document' % text
    return None
