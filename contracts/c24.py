"""C24: a reset parser is as good as new and parsers do not affect each other.

S is the set of places of a parser that `reset` writes.  Every handler, from a state in which S is arbitrary, changes
nothing but S and what belongs to S; reset from any such state gives what a new parser with the same options is; two
parsers have nothing in common that a handler changes; and what was passed to the constructor stays what it was."""
from .parserkit import *

ASSUMPTIONS = ['renderers given by the caller keep no state of their own']


def options(it, boxed):
    m = it.m
    R_ = 'gopher_render.rendering:'
    class Settings(Schema): name = 'settings'
    st = Sym(Settings(), m.fresh('settings', INT))
    rs = m.new_dict({'p': (None, st), 'x-y': it.func(R_ + 'StrongRenderer')})
    xs = m.new_dict({'a': (it.func(R_ + 'ExtractedLinkRenderer'), st)})
    o = dict(renderers=rs, extracted_link_renderers=xs, optimise=sbool(it, 'optimise'), gopher_port=sint(it, 'port'), gopher_host=sstr(it, 'host'),
             link_placement=sstr(it, 'links'), image_placement=sstr(it, 'images'), output_format=sstr(it, 'format'))
    m.assume(z3.Not(zb(it.py_eq(o['gopher_host'], ''))))
    m.assume(z3.Not(z3.And(zb(it.py_eq(o['output_format'], 'gophermap')), zb(it.py_eq(o['link_placement'], 'inline')))))
    if boxed: o['box'] = any_box(it)
    else: o['width'] = sint(it, 'width')
    return o


def at(it, p, path):
    v = p
    for k in path: v = it.m.cell(v).fields[k]
    return v


def anything(it, v, name, top):
    """any value of this kind"""
    m = it.m
    if isinstance(v, Ref):
        c = m.cell(v)
        if isinstance(c, LCell):
            if name == '_parsed':
                f = m.fresh_fn('texts', INT, STR); n = m.fresh('n', INT); m.assume(n >= 0)
                return m.new_list(it.sym_list(n, lambda i: mkR([f(i)]), 'texts'))
            if name == '_tag_stack':
                if not top: return m.new_list()
                return m.new_list(LV(list(it.as_lv(nodes_list(it, 'open', NODEX)[0]).parts) + [It(open_node(it, SB(m.fresh('closed', BOOL))))]))
            return nodes_list(it, name, NODEX)[0]
        if isinstance(c, OCell): return m.new_obj(c.cls, **{n: anything(it, x, n, top) for n, x in c.fields.items()})
    elif is_bool(v): return sbool(it, 'any')
    elif is_int(v): return sint(it, 'any')
    elif is_str(v): return sstr(it, 'any')
    elif v is None: return None
    raise Unsupported('arbitrary value of %s: %r' % (name, v))


def put(it, p, path, x):
    o = at(it, p, path[:-1])
    c = it.m.cell(o)
    it.m.heap[o.id] = OCell(c.cls, dict(c.fields, **{path[-1]: x}))


def copy_cells(it, v, memo, depth=0):
    """the same values in other cells"""
    m = it.m
    if not isinstance(v, Ref): return v
    if v.id in memo: return memo[v.id]
    c = m.heap[v.id]
    if isinstance(c, LCell): return m.new_list(c.lv)
    if isinstance(c, OCell) and depth < 3:
        return m.new_obj(c.cls, **{n: copy_cells(it, x, memo, depth + 1) for n, x in c.fields.items()})
    return v


def reset_places(it, p):
    """the places reset writes"""
    m = it.m
    snap0 = m.snapshot()
    for n, v in sorted(m.cell(p).fields.items()):
        if is_bool(v) or is_int(v) or is_str(v): put(it, p, (n,), anything(it, v, n, True))
        elif isinstance(v, Ref): put(it, p, (n,), copy_cells(it, v, {}))
    snap = m.snapshot()
    here = locations(it, p)
    out = set()
    for r in m.explore(lambda: it.call(it.getattr_(p, 'reset'), [], {})):
        for l in it.diff(snap, r.snap):
            if l[0] == 'f' and l[1] in here: out.add(here[l[1]] + (l[2],))
            elif l[0] == 'h' and l[1] in here: out.add(here[l[1]])
            elif l[0] == 'l': pass
            else: raise Unsupported('reset changes %r' % (l,))
    m.restore(snap0)
    out = {q for q in out if not any(len(b) < len(q) and q[:len(b)] == b for b in out)}
    for q in out:
        if any(isinstance(k, int) for k in q): raise Unsupported('reset changes %r' % (q,))
        try: at(it, p, q)
        except (KeyError, AttributeError): raise Unsupported('reset changes %r' % (q,))
    return sorted(out)


def reach(it, v, stop=()):
    """the cells reachable from v, not by way of the places in stop, [(cell id, field)]"""
    out, todo = set(), [v]
    while todo:
        v = todo.pop()
        if isinstance(v, tuple): todo.extend(v); continue
        if not isinstance(v, Ref) or v.id in out: continue
        out.add(v.id)
        c = it.m.heap[v.id]
        if isinstance(c, (OCell, DCell)): todo.extend(x for n, x in c.fields.items() if (v.id, n) not in stop)
        if isinstance(c, DCell):
            for l in c.layers:
                if l[0] == 'c': todo.extend(l[1].values())
        if isinstance(c, LCell): todo.extend(p.val for p in c.lv.parts if isinstance(p, It))
    return out


def owned(it, p, S):
    """(the fields and cells of a parser that may change, the cells that may not)"""
    stop = {(at(it, p, q[:-1]).id, q[-1]) for q in S}
    kept = reach(it, p, stop)
    mine = set()
    for q in S: mine |= reach(it, at(it, p, q))
    return stop, mine - kept, kept


def history(it, p, S, top):
    """a parser to which anything has happened"""
    for q in S: put(it, p, q, anything(it, at(it, p, q), q[-1], top))


def frame(it, name, p, S, thunk, before=None):
    """a piece of code changes nothing but S and what belongs to it"""
    m = it.m
    stop, mine, kept = owned(it, p, S)
    snap = m.snapshot()
    names = locations(it, p)
    try: thunk()
    except RaiseX: it.oblige('%s raises nothing' % name, lambda: 'raises')
    after = m.snapshot()
    bad = []
    for l in it.diff(snap, after):
        if l[0] == 'l' or l[0] == 'h' and l[1] in mine or l[0] == 'f' and (l[1] in mine or (l[1], l[2]) in stop): continue
        bad.append('.'.join(map(str, names[l[1]])) + ('.' + l[2] if l[0] == 'f' else '') if l[0] in 'fh' and l[1] in names else 'something that does not belong to the parser')
    it.oblige('%s changes nothing that reset does not restore' % name, lambda: not bad or 'changes ' + ', '.join(sorted(bad)))
    m.cover(name)


def alike(it, a, b, memo, where, out):
    """the same state: [(where, formula or False)]"""
    m = it.m
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.id in memo or b.id in memo.values():
            out.append((where, memo.get(a.id) == b.id)); return
        memo[a.id] = b.id
        if a.id == b.id: return
        c, d = m.heap[a.id], m.heap[b.id]
        if type(c) is not type(d): out.append((where, False)); return
        if isinstance(c, OCell):
            if c.cls is not d.cls or set(c.fields) != set(d.fields): out.append((where, False)); return
            for n in sorted(c.fields): alike(it, c.fields[n], d.fields[n], memo, where + '.' + n, out)
            return
        if isinstance(c, LCell):
            if len(c.lv.parts) != len(d.lv.parts) or not all(isinstance(x, It) and isinstance(y, It) for x, y in zip(c.lv.parts, d.lv.parts)):
                out.append((where, bool(same(c.lv, d.lv)))); return
            for k, (x, y) in enumerate(zip(c.lv.parts, d.lv.parts)): alike(it, x.val, y.val, memo, '%s[%d]' % (where, k), out)
            return
        if isinstance(c, DCell):
            if len(c.layers) != len(d.layers): out.append((where, False)); return
            for x, y in zip(c.layers, d.layers):
                if x[0] == 'c' and y[0] == 'c':
                    if list(x[1]) != list(y[1]): out.append((where, False)); return
                    for k in x[1]: alike(it, x[1][k], y[1][k], memo, '%s[%r]' % (where, k), out)
                else: out.append((where, bool(same(x, y))))
            return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)): alike(it, x, y, memo, '%s[%d]' % (where, k), out)
        return
    if same(a, b): return
    if isinstance(a, Ref) or isinstance(b, Ref): out.append((where, False)); return
    out.append((where, zb(it.py_eq(a, b))))


def setup(it, boxed):
    quiet_nodes(it)
    quiet_constructors(it)
    o = options(it, boxed)
    p = parser(it, **o)
    S = reset_places(it, p)
    return o, p, S


@contract('C24', 'reset gives a new parser', modules=MODS, budget=60)
def reset(it):
    m = it.m
    o, p, S = setup(it, choice(it, 'boxed', [True, False]))
    q = parser(it, **o)
    kept = owned(it, q, S)[1:] + ((q.id,),)
    history(it, p, S, True)
    it.call(it.getattr_(p, 'reset'), [], {})
    out = []
    alike(it, p, q, {}, 'parser', out)
    def check():
        bad = [w for w, f in out if f is False or f is not True and not m.valid(f)]
        return not bad or 'differs in ' + ', '.join(bad)
    it.oblige('a reset parser is in the state of a new one', check)
    mine, theirs = owned(it, p, S), owned(it, q, S)
    it.oblige('parsers share nothing that changes', lambda: not ((mine[1] | {p.id}) & (theirs[1] | theirs[2]) or (theirs[1] | {q.id}) & mine[2]) or 'share a list or an object')
    it.oblige('the state of a parser is its own', lambda: not {i for i, _ in mine[0]} & (theirs[1] | theirs[2]) or 'share an object')
    m.cover('reset')


@contract('C24', 'making a parser changes nothing', modules=MODS, budget=40)
def construct(it):
    m = it.m
    quiet_nodes(it)
    o = options(it, choice(it, 'boxed', [True, False]))
    if choice(it, 'plain', [False, True]): o = {k: v for k, v in o.items() if k == 'width'}
    snap = m.snapshot()
    p = parser(it, **o)
    it.oblige('the options stay what they were', lambda: not [l for l in it.diff(snap, m.snapshot()) if l[0] != 'l'] or 'changes an option')
    mine = owned(it, p, reset_places(it, p))
    old = set(k for k in snap[0] if isinstance(k, int))
    it.oblige('its state is its own', lambda: not (mine[1] | {i for i, _ in mine[0]}) & old or 'an object that was there before')
    m.cover('made')


def handler(name):
    @contract('C24', 'frame of ' + name, modules=MODS, budget=60)
    def run(it):
        it.m.stubs['html close'] = None
        o, p, S = setup(it, True)
        c = dict(handlers(it, p))
        if name not in c:
            it.prove('not overridden', z3.BoolVal(True)); it.m.cover(name); return
        history(it, p, S, choice(it, 'open', [True, False]))
        frame(it, name, p, S, c[name])
    return run


for _n in ('handle_starttag', 'handle_startendtag', 'handle_endtag', 'handle_data', 'handle_comment', 'handle_decl', 'handle_pi', 'unknown_decl', 'handle_charref', 'handle_entityref', 'feed', 'close'):
    globals()['frame_' + _n] = handler(_n)


@contract('C24', 'nodes have nothing in common', modules=MODS, budget=40)
def nodes(it):
    """a new node is made of new objects only, and making it changes nothing"""
    m = it.m
    stub_url(it)
    parent = open_node(it)
    which = choice(it, 'node', ['tag', 'link', 'image', 'text'])
    value = lambda n: choice(it, n, [True, False]) and sstr(it, n) or None
    attrs = m.new_list([(n, value(n)) for n in ('class', 'id', 'href', 'src')]) if choice(it, 'attributes', [True, False]) else m.new_list()
    snap = m.snapshot()
    if which == 'text': n = it.call(it.func(P + 'DataParser'), [parent, sstr(it, 'data')], dict(in_pre=True))
    elif which == 'tag': n = it.call(it.func(P + 'TagParser'), [sstr(it, 'tag'), parent, attrs], {})
    else:
        it.m.stubs[P + 'LinkParser._parse_href'] = lambda it, f, a, k: m.new_dict({})
        kw = dict(output_format=sstr(it, 'format'), link_placement=sstr(it, 'links'), image_placement=sstr(it, 'images'), link_reference=sint(it, 'number'), gopher_host=sstr(it, 'host'), gopher_port=sint(it, 'port'))
        n = it.call(it.func(P + 'LinkParser'), ['a' if which == 'link' else 'img', parent, attrs], kw)
    it.oblige('making a node changes nothing', lambda: not [l for l in it.diff(snap, m.snapshot()) if l[0] != 'l'] or 'changes something')
    got = reach(it, n, {(n.id, 'parent')})
    old = set(k for k in snap[0] if isinstance(k, int))
    it.oblige('a node is made of new objects', lambda: not (got & old) or 'shares an object')
    m.cover(which)
