"""C21: ANSI styling switches on what is configured and off what it switched on.

The renderer is created with every effect on or off (symbolic), any font, and the colours in every
notation; its output is taken apart into escape codes before and after the text.  The codes are
compared as multisets, each with the condition under which it is emitted."""
from pyvc.contract import *

R = 'gopher_render.rendering:'
MODS = ['_namedict', '_textwrap', 'rendering']
EFFECTS = {'bold': (1, 22), 'faint': (2, 22), 'italic': (3, 23), 'fraktur': (20, 23), 'underline': (4, 24), 'slow_blink': (5, 25), 'rapid_blink': (6, 25), 'invert': (7, 27),
           'conceal': (8, 28), 'crossed_out': (9, 29), 'framed': (51, 54), 'encircled': (52, 54), 'overlined': (53, 55)}
NAMES = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']
NAMES += ['bright_' + n for n in NAMES]


def tokens(it, rope, guard=TRUE):
    """the escape codes in a rope, each with the condition under which it is there; None: something else is there"""
    out, cur = [], []
    for p in rparts(rope):
        if isinstance(p, str):
            bits = p.split('m')
            for b in bits[:-1]:
                cur.append(b + 'm')
                out.append((guard, mkR(cur))); cur = []
            if bits[-1]: cur.append(bits[-1])
        elif isinstance(p, Join) and p.sep == '' and not cur:
            for x in p.lv.parts:
                if not isinstance(x, It) or not is_str(x.val): return None
                t = tokens(it, x.val, simp(z3.And(guard, x.guard)))
                if t is None: return None
                out += t
        elif isinstance(p, Cond) and not cur:
            for c, v in ((p.c, p.a), (z3.Not(p.c), p.b)):
                t = tokens(it, v, simp(z3.And(guard, c)))
                if t is None: return None
                out += t
        elif isinstance(p, (Rep, Join, Cond)): return None
        else: cur.append(p)
    return out if not cur else None


def simp(e): return z3.simplify(e)


def compare(it, name, got, want):
    m = it.m
    got = [t for t in got if m.feasible(t[0])]
    want = [t for t in want if m.feasible(t[0])]
    left = list(got)
    for g, w in want:
        for t in left:
            if same(t[1], w) or (not (isinstance(t[1], str) and isinstance(w, str)) and m.quick_valid(it.zs(t[1]) == it.zs(w))):
                if m.valid(t[0] == g): left.remove(t); break
        else:
            m.fail(name, '%r is not among the codes when it is configured (%s): %r' % (w, g, got)); return
    if left: m.fail(name, 'codes that are not configured: %r' % left)
    else: it.oblige(name, lambda: True)


def styled(it, st, on, off, tmpl=None):
    """renders with the settings st; on, off: the codes expected, as (condition, number or text)"""
    m = it.m
    a = b = ''
    if tmpl:
        a, b = sstr(it, 'before'), sstr(it, 'after')
        for x in (a, b): m.assume(no_chars(it, x, '{}'))
        st = dict(st, template=it.s_cat(a, '{}', b))
    r = it.call(it.func(R + 'AnsiEscapeCodeRenderer'), [sany(it, 'tag')], dict(settings=m.new_dict(st)))
    c = sstr(it, 'content')
    inner = list(rparts(it.s_cat(a, c, b)))
    got = list(rparts(text(it, it.call(it.getattr_(r, 'render'), [c], {}))))
    for k in range(len(got) - len(inner) + 1):
        if all(same(x, y) for x, y in zip(got[k:], inner)): break
    else: m.fail('content', 'the content is not there as it was: %r' % got); return
    it.oblige('content', lambda: True)
    full = lambda cs: [(g, it.s_cat('\x1b[', text(it, x), 'm')) for g, x in cs]
    for name, rope, want in (('codes before the content', got[:k], on), ('codes after the content', got[k + len(inner):], off)):
        t = tokens(it, mkR(rope))
        if t is None: m.fail(name, 'something else than escape codes: %r' % rope)
        else: compare(it, name, t, full(want))


def ends(norm, off):
    n = norm if isinstance(norm, bool) else None
    if n is None: return [(z3.And(g, z3.Not(norm.e)), x) for g, x in off] + [(norm.e, 0)]
    return [(TRUE, 0)] if n else off


def colour(it, name, background, kinds):
    """(value of the setting, code) or None"""
    m = it.m
    s = spec(it, 'c21')
    k = choice(it, name, kinds)
    if k in ('unset', 'none'): return k, None, None
    if k == 'name':
        n = choice(it, name + '_name', NAMES)
        return n, n, s('name_code', n, background)
    if k == 'palette':
        n = sint(it, name)
        m.assume(n.e >= 0)
        return k, n, s('palette_code', n, background)
    if k == 'tuple':
        c = tuple(sint(it, name) for _ in range(3))
        return k, c, s('rgb_code', *c, background)
    ds = []
    for x in range(3 if k == 'html3' else 6):
        d = z3.Unit(m.fresh('digit', z3.CharSort()))
        m.assume(z3.InRe(d, z3.Union(z3.Range('0', '9'), z3.Range('a', 'f'), z3.Range('A', 'F'))))
        ds.append(d)
    h = mkR(ds)
    v = it.s_cat('#', h) if m.choose(m.fresh('hash', BOOL)) else h
    return k, v, s('html_code', h, background)


@contract('C21', 'effects', modules=MODS)
def effects(it):
    st = {e: sbool(it, e) for e in EFFECTS}
    norm = st['normalise'] = sbool(it, 'normalise')
    on = [(st[e].e, EFFECTS[e][0]) for e in EFFECTS]
    off = [(st[e].e, EFFECTS[e][1]) for e in EFFECTS]
    styled(it, st, on, ends(norm, off), tmpl=True)


def one_effect(e, f):
    def run(it):
        st = {x: sbool(it, x) for x in (e, f)}
        on, off = [(st[x].e, EFFECTS[x][0]) for x in st], [(st[x].e, EFFECTS[x][1]) for x in st]
        norm = it.m.choose(it.m.fresh('normalise', BOOL))
        if norm: st['normalise'] = True
        styled(it, st, on, ends(norm, off))
    return run


for _e, _f in zip(EFFECTS, list(EFFECTS)[1:] + ['bold']): contract('C21', '%s and %s' % (_e, _f), modules=MODS)(one_effect(_e, _f))


@contract('C21', 'font', modules=MODS)
def font(it):
    n = sint(it, 'font')
    st = dict(font=n, bold=sbool(it, 'bold'))
    norm = it.m.choose(it.m.fresh('normalise', BOOL))
    if norm: st['normalise'] = True
    styled(it, st, [(TRUE, SI(n.e + 10)), (st['bold'].e, 1)], ends(norm, [(TRUE, 10), (st['bold'].e, 22)]))


def coloured(background, *kinds):
    def run(it):
        k, v, code = colour(it, 'colour', background, list(kinds))
        which = ('background' if background else 'foreground') + '_colour'
        st = {} if k == 'unset' else {which: v}
        norm = it.m.choose(it.m.fresh('normalise', BOOL))
        if norm: st['normalise'] = True
        styled(it, st, [(TRUE, code)] if code is not None else [], ends(norm, [(TRUE, 49 if background else 39)] if code is not None else []))
    return run


for _b, _n in ((False, 'foreground'), (True, 'background')):
    contract('C21', _n + ' colour by name', modules=MODS)(coloured(_b, 'unset', 'none', 'name'))
    contract('C21', _n + ' colour by number', modules=MODS)(coloured(_b, 'palette', 'tuple'))
    contract('C21', _n + ' colour, #rgb', modules=MODS)(coloured(_b, 'html3'))
    contract('C21', _n + ' colour, #rrggbb', modules=MODS)(coloured(_b, 'html6'))


@contract('C21', 'everything at once', modules=MODS)
def everything(it):
    st = {e: sbool(it, e) for e in EFFECTS}
    norm = st['normalise'] = sbool(it, 'normalise')
    f, a, b = sint(it, 'font'), sint(it, 'fg'), tuple(sint(it, 'bg') for _ in range(3))
    it.m.assume(a.e >= 0)
    s = spec(it, 'c21')
    st.update(font=f, foreground_colour=a, background_colour=b)
    on = [(st[e].e, EFFECTS[e][0]) for e in EFFECTS] + [(TRUE, SI(f.e + 10)), (TRUE, s('palette_code', a, False)), (TRUE, s('rgb_code', *b, True))]
    off = [(st[e].e, EFFECTS[e][1]) for e in EFFECTS] + [(TRUE, 10), (TRUE, 39), (TRUE, 49)]
    styled(it, st, on, ends(norm, off))
