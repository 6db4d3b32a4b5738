import common
RULE = 'random documents rendered by recording renderers, some with boxes and some without, links and images in all placements: output composed of all parts once and in order, box and settings every renderer received'
TAGS = ['p', 'div', 'li', 'em', 'a', 'img', 'ul', 'br', 'x-y']
PL = ['footer', 'after_block', 'inline']
def gen(g): return [g.doc(g.randint(1, 4), 4, TAGS, True, False), g.choice(PL), g.choice(PL), {t: [g.p(0.5), g.four(2), g.randint(0, 9) if g.p(0.6) else None] for t in TAGS}, g.choice([90, 90, 40, 5, 2])]
def cases():
    for l in PL:
        for i in PL:
            for k in (True, False): yield [[['p', [], ['a', ['a', [], ['b', ['img', [], []]]], 'c', ['ul', [], [['li', [], ['x']], ' ', ['li', [], []]]]]], ['img', [], []], 't'], l, i, {t: [k, [1, 1, 1, 1], 3] for t in TAGS}, 3 if k and l == i else 90]
def check(case):
    doc, lp, ip, conf, width = case
    from gopher_render import rendering as R
    cnt = [0]
    blank = len(doc) % 2 or len(str(conf)) % 2
    def mark(d):
        out = []
        for n in d:
            if isinstance(n, str): out.append(' ' if blank and cnt[0] % 3 else 'w%d.' % cnt[0]); cnt[0] += 1; continue
            k = cnt[0]; cnt[0] += 1
            out.append([n[0], [['n', str(k)], ['href', '/u%d' % k]], mark(n[2])])
        return out
    d = mark(doc)
    log = []
    def rec(t, boxed, listing):
        base = R.BlockRenderer if boxed else R.Renderer
        class X(base):
            def __init__(self, tag, **kw):
                super().__init__(tag, **kw)
                log.append((listing, tag.attrs['n'], kw.get('parent_box'), getattr(self, 'box', None), self.settings.get('mark'), tag))
            def render(self, content):
                return ('{L%s:' if listing else '{%s:') % self.tag.attrs['n'] + content + '}'
        return X
    rs, xs = {}, {}
    for t in TAGS:
        boxed, m, mark_ = conf[t]
        st = dict(margin=list(m))
        if mark_ is not None: st['mark'] = mark_
        rs[t] = (rec(t, boxed, False), st)
        if t in ('a', 'img'): xs[t] = (rec(t, boxed, True), dict(st, mark=(mark_ or 0) + 100))
    box = R.Box(width=width)
    p = common.parser(renderers=rs, extracted_link_renderers=xs, link_placement=lp, image_placement=ip, box=box, optimise=False)
    p.feed(common.html(d))
    pr = common.pairs(d, p)
    if pr is None: return None
    p.close()
    pl = lambda n: ip if n[0] == 'img' else lp
    foot = []
    def body(ns):
        s, after = '', []
        for n in ns:
            if isinstance(n, str): s += n; continue
            s += '{%s:%s}' % (n[1][0][1], body(n[2]))
            if n[0] in ('a', 'img'):
                if pl(n) == 'footer': foot.append(n)
                if pl(n) == 'after_block': after.append(n)
        if after: s += '\n' + ''.join(entry(n) for n in after)
        return s
    def entry(n): return '{L%s:%s}' % (n[1][0][1], plain(n[2]))
    def plain(ns): return ''.join(n if isinstance(n, str) else '{%s:%s}' % (n[1][0][1], plain(n[2])) for n in ns)     # nothing is listed again in a listing
    def order(ns):
        for n in ns:
            if isinstance(n, str): continue
            if n[0] in ('a', 'img') and pl(n) == 'footer': yield n
            yield from order(n[2])
    want = body(d)
    fl = list(order(d))
    if fl: want += '\n' + ''.join(entry(n) for n in fl)
    if p.parsed.replace('\n', '') != want.replace('\n', ''): return '%s is rendered as %r, should be %r' % (common.html(d), p.parsed, want)
    # boxes and settings
    boxes = {}                                       # box of the renderer of an element (or the box it was given)
    byn = {r.attrs['n']: r for m, r in pr[1] if m.tag is not None}
    for listing, n, pb, bx, mk, tag in log:
        if tag is not byn[n]: return 'element %s is rendered by a renderer of another element' % n
        t = tag.tag
        w = conf[t][2] if not listing else (conf[t][2] or 0) + 100
        if mk != w: return 'the renderer of %s %s has the setting %r, should be %r' % (t, n, mk, w)
        boxes.setdefault((listing, n), []).append((pb, bx if bx is not None else pb))
    for m, r in pr[1]:
        if m.tag is None: continue
        given = [x for x, _ in boxes.get((False, r.attrs['n']), [])]
        if m.parent.tag is None: ok = [box]
        else: ok = [y for l in (False, True) for _, y in boxes.get((l, r.parent.attrs['n']), [])]
        for x in given:
            if not any(x is o for o in ok): return 'element %s %s is laid out in %r' % (m.tag, r.attrs['n'], x)
        if not given: return 'element %s is not rendered' % r.attrs['n']
    return None
