"""C23: every node is rendered once, in order, inside the box of its parent.

Renderers and children are anything that has the interface of one: what is shown is what they are given and what
becomes of what they return."""
from .parserkit import *

f_done = z3.Function('rendered_content', STR, STR)


class Made(Schema):
    """a renderer for one element: with a box of its own or without"""
    name = 'renderer'
    def __init__(self, box, log): self.box, self.log = box, log
    def get(self, it, s, n):
        if n == 'box':
            if self.box is None: it.raise_('AttributeError', n)
            return self.box
        if n == 'render': return Prim('render', self.render)
        raise Unsupported('attribute %s of a renderer' % n)
    def render(self, it, a, k):
        self.log.append(a[0] if a else k.get('content'))
        return mkR([f_done(it.zs(text(it, self.log[-1])))])


def maker(it, box, made, log):
    def create(it, a, k):
        made.append((a, dict(k)))
        return Sym(Made(box, log), I(len(made)))
    return Prim('renderer', create)


def unused(name): return Prim(name, lambda it, a, k: it.oblige('no other renderer is used', lambda: 'uses ' + name))


def number(it, t): return SI(z3.Int('the number'))


def element(it, kind, place=None):
    """an element with any children and any links waiting for the end of it: (node, its parts as texts)"""
    m = it.m
    stub_url(it)
    m.stubs[P + 'LinkParser._parse_href'] = lambda it, f, a, k: m.new_dict({})     # C11
    parent = Sym(NODEX, m.fresh('parent', INT))
    if kind == 'tag': t = it.call(it.func(P + 'TagParser'), [sstr(it, 'tag'), parent, m.new_list()], {})
    else:
        other = choice(it, 'other', ['inline', 'footer', 'after_block'])
        a, i = (place, other) if kind == 'a' else (other, place)
        t = it.call(it.func(P + 'LinkParser'), [kind, parent, m.new_list([('href' if kind == 'a' else 'src', sstr(it, 'href'))])],
                    dict(output_format='text', link_placement=a, image_placement=i, link_reference=SI(z3.Int('the number')), gopher_host='h', gopher_port=70))
    sch = Rendered(None)
    kids_, n, f = nodes_list(it, 'children', sch)
    links, nl, fl = nodes_list(it, 'links', sch)
    field(it, t, 'children'); field(it, t, '_pending_links')
    it.setattr_(t, 'children', kids_); it.setattr_(t, '_pending_links', links)
    part = lambda k, g, h: it.m.new_list(it.sym_list(k, lambda i: mkR([g(h(i))]), 'texts'))
    return t, sch, part(n, f_rendering, f), part(nl, f_entry, fl), nl


def run(kind, place, listing=False, again=False, listed=True):
    def go(it):
        m = it.m
        how = listing_mode(it) if again else ()
        t, sch, kids_, links, nl = element(it, kind, place)
        given, own = any_box(it), any_box(it) if choice(it, 'box of its own', [True, False]) else None
        made, log = [], []
        rend = maker(it, own, made, log)
        sch.box = own if own is not None else given
        sch.mode = None if listing else how
        settings = m.new_dict({'margin': 1}) if choice(it, 'settings', [True, False]) else None
        mine = (rend, settings) if settings is not None else rend
        other = (unused('the other one'), m.new_dict({'margin': 2})) if choice(it, 'settings of the other', [True, False]) or kind != 'tag' else None
        if kind == 'tag': arg = mine
        elif listing: arg = (other, (rend, settings))
        else: arg = (mine, other)
        it.call(it.getattr_(t, 'assign_renderer'), [arg], {})
        before = {n: it.getattr_(t, n) for n in ('tag', 'parent')}
        got = it.call(it.getattr_(t, 'link_render' if listing else 'render'), [given], dict(how))
        it.oblige('one renderer', lambda: len(made) == 1 or '%d are made' % len(made))
        it.oblige('used once', lambda: len(log) == 1 or 'render is called %d times' % len(log))
        if len(made) != 1 or len(log) != 1: return
        a, k = made[0]
        it.oblige('it is for this element', lambda: (a and same(a[0], t)) or same(k.get('tag'), t) or 'another')
        it.oblige('inside the box it was given', lambda: same(k.get('parent_box'), given) or 'another box')
        if settings is None: it.oblige('no settings', lambda: k.get('settings') is None or 'others')
        else: it.oblige('with its settings', lambda: same(k.get('settings'), settings) or 'others')
        want = it.s_join('', it.as_lv(kids_))
        if not listing and (not again or listed and how == ()) and m.choose(nl > 0): want = it.s_cat(want, '\n', it.s_join('', it.as_lv(links)))
        if kind != 'tag': it.prove_eq('with its number', text(it, k['link_reference']), text(it, number(it, t)))
        it.prove_eq('made of its children', text(it, log[0]), want)
        it.prove_eq('its rendering is what its renderer makes of them', text(it, got), mkR([f_done(it.zs(text(it, log[0])))]))
        m.cover('%s %s' % (kind, place))
    return go


def listing_mode(it):
    """how what is in a link is rendered for the listing of the link"""
    m = it.m
    t, sch, kids_, links, nl = element(it, 'a', 'footer')
    m.assume(it.lv_len(it.as_lv(kids_)) > 0)
    sch.box = sch.mode = None
    it.call(it.getattr_(t, 'assign_renderer'), [((unused('the renderer in the text'), m.new_dict({'margin': 2})), (maker(it, None, [], []), m.new_dict({'margin': 1})))], {})
    it.call(it.getattr_(t, 'link_render'), [any_box(it)], {})
    return sch.mode


# in the document, and inside the listing of a link
contract('C23', 'element', modules=MODS)(run('tag', None))
contract('C23', 'element in a listing', modules=MODS)(run('tag', None, again=True))
for _k, _p in (('a', 'inline'), ('img', 'inline'), ('a', 'footer'), ('img', 'after_block')):
    contract('C23', '%s, %s, in a listing' % (_k, _p), modules=MODS)(run(_k, _p, again=True))
for _k in ('a', 'img'):
    for _p in ('inline', 'footer', 'after_block'):
        contract('C23', '%s, %s' % (_k, _p), modules=MODS)(run(_k, _p))
        if _p != 'inline': contract('C23', 'listing of %s, %s' % (_k, _p), modules=MODS)(run(_k, _p, True))


@contract('C23', 'text', modules=MODS)
def data(it):
    how = dict(listing_mode(it)) if choice(it, 'in a listing', [True, False]) else {}
    d = it.call(it.func(P + 'DataParser'), [None, sstr(it, 'data')], dict(in_pre=True))
    want = field(it, d, 'data')
    it.prove_eq('a text is rendered as it is', it.call(it.getattr_(d, 'render'), [any_box(it)], how), want)


@contract('C23', 'document', modules=MODS)
def document(it):
    """the document is made of all its top-level nodes, in the box of the document"""
    m = it.m
    box = any_box(it)
    p = parser(it, box=box, optimise=False)
    (top, after, foot), na, nf = finished(it, p, box)
    got = []
    field(it, p, '_indent_body')
    m.stubs[P + 'GopherHTMLParser._indent_body'] = lambda it, f, a, k: got.append(it.s_join('', it.as_lv(it.getattr_(a[0], '_parsed')))) or 'BODY'
    field(it, p, '_parsed')
    it.call(it.getattr_(p, 'close'), [], {})
    if not got: raise Unsupported('the body is made in another way')
    body = it.s_join('', it.as_lv(top))
    if m.choose(na > 0): body = it.s_cat(body, '\n', it.s_join('', it.as_lv(after)))
    if m.choose(nf > 0): body = it.s_cat(body, '\n', it.s_join('', it.as_lv(foot)))
    it.prove_eq('all its nodes once and in order', text(it, got[0]), body)


# --- the renderer every node is assigned -----------------------------------------------

class Given(Schema):
    """what the mapping gives for an element"""
    name = 'chosen renderer'
    def eq(self, it, s, o): return SB(s.term == o.term) if isinstance(o, Sym) and isinstance(o.schema, Given) else False

GIVEN = Given()
f_given, f_given_link = z3.Function('renderer_of', INT, INT), z3.Function('link_renderer_of', INT, INT)


class Assigned(Schema):
    """a node that notes what renderer it is assigned"""
    name = 'node'
    tag = z3.Function('n_tag', INT, STR)
    is_text = z3.Function('n_is_text', INT, BOOL)
    def __init__(self, ghost): self.ghost = ghost
    def get(self, it, s, n):
        t = s.term
        if n == 'tag': return mkCh([(self.is_text(t), None), (z3.Not(self.is_text(t)), mkR([self.tag(t)]))])
        if n == 'children': return kids(it, self, t)
        if n == 'assign_renderer':
            return Prim(n, lambda it, a, k: it.call(it.getattr_(self.ghost, 'append'), [(s, a[0])], {}))
        raise Unsupported('attribute %s of a node' % n)
    def eq(self, it, s, o): return SB(s.term == o.term) if isinstance(o, Sym) and isinstance(o.schema, Assigned) else False


@contract('C23', 'every node gets its renderer', modules=MODS)
def assign(it):
    m = it.m
    p = parser(it)
    G = P + 'GopherHTMLParser.'
    for q in ('_get_renderer', '_get_extracted_link_renderer', '_assign_renderers'): field(it, p, q)
    m.stubs[G + '_get_renderer'] = lambda it, f, a, k: Sym(GIVEN, f_given(a[1].term))
    m.stubs[G + '_get_extracted_link_renderer'] = lambda it, f, a, k: Sym(GIVEN, f_given_link(a[1].term))
    done, below = m.new_list(), m.new_list()
    sch = Assigned(done)
    ns, n, f = nodes_list(it, 'nodes', sch)
    class Below(Schema):
        name = 'children of a node'
        def eq(self, it, s, o): return SB(s.term == o.term) if isinstance(o, Sym) and isinstance(o.schema, Below) else False
    B = Below()
    old = sch.get
    def get(it, s, n): return Sym(B, s.term) if n == 'children' else old(it, s, n)
    sch.get = get
    first = []
    def again(it, fn, a, k):
        if not first: first.append(1); return NotImplemented
        if not (isinstance(a[1], Sym) and a[1].schema is B): raise Unsupported('descends in another way')
        it.call(it.getattr_(below, 'append'), [a[1]], {})
    m.stubs[G + '_assign_renderers'] = again
    it.call(it.getattr_(p, '_assign_renderers'), [ns], {})
    link = lambda i: z3.And(z3.Not(sch.is_text(f(i))), z3.Or(sch.tag(f(i)) == 'a', sch.tag(f(i)) == 'img'))
    one = lambda i: Sym(GIVEN, f_given(f(i)))
    want = it.sym_list(n, lambda i: (Sym(sch, f(i)), mkCh([(link(i), (one(i), Sym(GIVEN, f_given_link(f(i))))), (z3.Not(link(i)), one(i))])), 'assigned')
    it.prove_eq('each node once, with what is chosen for it', done, m.new_list(want))
    it.prove_eq('and so below each node', below, m.new_list(it.sym_list(n, lambda i: Sym(B, f(i)), 'below')))


@contract('C23', 'chosen by the mapping', modules=MODS)
def chosen(it):
    """a node is rendered with what the mapping gives, or with the default if it gives nothing"""
    m = it.m
    p = parser(it)
    node = Sym(NODEX, m.fresh('node', INT))
    found = choice(it, 'matches', [True, False])
    pair = (it.func('gopher_render.rendering:EmRenderer'), m.new_dict({}))
    asked = []
    def get(it, f, a, k):
        asked.append((a[0], a[1]))
        return pair if found else None
    m.stubs[P + 'RendererMap.get_for_tag'] = get
    link = choice(it, 'link', [True, False])
    got = it.call(field(it, p, '_get_extracted_link_renderer' if link else '_get_renderer'), [node], {})
    if not asked: raise Unsupported('chosen in another way')
    it.oblige('asks for the node', lambda: all(same(n, node) for _, n in asked) or 'for another')
    it.oblige('in the mapping of the parser', lambda: all(same(r, field(it, p, '_extracted_link_renderer_map' if link else '_renderer_map')) for r, _ in asked) or 'another')
    if found: it.oblige('what the mapping gives', lambda: same(it.force(got), pair) or 'something else')
    elif not link: it.oblige('the default', lambda: same(it.force(got), it.func('gopher_render.rendering:Renderer')) or 'something else')
    m.cover('chosen')
