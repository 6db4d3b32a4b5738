import common
RULE = 'random sequences of reads, writes, deletions and other dictionary operations by attribute and by key against an ordinary dictionary'
NAMES = ['a', 'b', 'k1', 'margin', 'x_y', '_p', '__q', 'template', 'font', 'class_', 'é', 'name', 'tag']
def gen(g):
    ops = []
    for _ in range(g.choice([3, 10, 30])):
        ops.append([g.choice(['ga', 'gk', 'sa', 'sk', 'da', 'dk', 'in', 'get', 'has', 'up', 'pop']), g.choice(NAMES[:4] if g.p(0.7) else NAMES), g.choice([0, 1, None, False, 'v', '', [], 'w', {}, {'a': 1}, [1]])])
    return [{g.choice(NAMES): g.randint(0, 3) for _ in range(g.randint(0, 3))}, ops]
def cases():
    import itertools
    ops = [[o, n, v] for o in ('ga', 'gk', 'sa', 'sk', 'da', 'dk', 'has') for n in ('a', '_p') for v in (None, 1)]
    for t in itertools.product(ops, repeat=2): yield [{}, list(t)]
    for o in ops: yield [{'a': None, 'b': 2}, [o]]; yield [{'a': 0}, [['da', 'a', 0], o]]
def check(case):
    from gopher_render._namedict import namedict
    init, ops = case
    d, w = namedict(init), dict(init)
    if dict(d) != w or dict(namedict(**init)) != w or dict(namedict(d)) != w: return 'contents after creation with %r' % init
    M = object()
    for o, n, v in ops:
        def val(f):
            try: return 'value', f()
            except (KeyError, AttributeError) as x: return 'raises', type(x).__name__
        if o in ('ga', 'gk'):
            got = val(lambda: getattr(d, n) if o == 'ga' else d[n]); want = ('value', w[n]) if n in w else ('raises', 'AttributeError' if o == 'ga' else 'KeyError')
        elif o in ('sa', 'sk'):
            got = val(lambda: setattr(d, n, v) if o == 'sa' else d.__setitem__(n, v)); w[n] = v; want = ('value', None)
        elif o in ('da', 'dk'):
            got = val(lambda: delattr(d, n) if o == 'da' else d.__delitem__(n)); want = ('value', None) if n in w else ('raises', 'AttributeError' if o == 'da' else 'KeyError'); w.pop(n, None)
        elif o == 'in': got, want = n in d, n in w
        elif o == 'has': got, want = hasattr(d, n), n in w
        elif o == 'get': got, want = d.get(n, 'none'), w.get(n, 'none')
        elif o == 'up': d.update({n: v}); w.update({n: v}); got = want = 0
        elif o == 'pop': got, want = d.pop(n, M), w.pop(n, M)
        if got != want or type(got) is not type(want): return '%r: %r %s: %r, should be %r' % (case, o, n, got, want)
        if dict(d) != w or list(d) != list(w) or len(d) != len(w): return '%r: contents after %r %s: %r, should be %r' % (case, o, n, dict(d), w)
        for k in NAMES:
            a = getattr(d, k, M)
            b = w[k] if k in w else M
            if not (a is b): return '%r: after %r %s, .%s is %r' % (case, o, n, k, a)
        if getattr(d, '__dict__', None): return '%r: attribute besides the contents: %r' % (case, d.__dict__)
    return None
