"""The parser under contract: HTMLParser (the standard library's) is an assumed contract, cssselect.parse too."""
from .nodes import *
from .c13 import any_box

P = 'gopher_render._parser:'
MODS = ['_namedict', '_textwrap', 'rendering', '_selectors', '_parser']
TRUSTED = ['html.parser.HTMLParser: __init__ calls reset; reset and close keep to attributes of their own; close may report what is left of the text by the handlers',
           'cssselect.parse: any list of selectors']


class SelectorList(Schema):
    name = 'parsed selector'
    def eq(self, it, s, o): return SB(s.term == o.term) if isinstance(o, Sym) and isinstance(o.schema, SelectorList) else False


def parser(it, **kw):
    m = it.m
    def parse(it, f, a, k):
        t = a[0]
        return Sym(SelectorList(), z3.Int('parsed(%s)' % t) if isinstance(t, str) else m.fresh('parsed', INT))
    m.stubs['ext:cssselect.parse'] = parse
    return it.call(it.func(P + 'GopherHTMLParser'), [], kw)


f_rendering = z3.Function('rendering', INT, STR)
f_up = z3.Function('parent_of_open', INT, INT)
f_data = z3.Function('n_data', INT, STR)
f_entry = z3.Function('entry', INT, STR)


def mode_of(it, fn, a, k):
    """(box, the other arguments that are not the defaults) of a call of a render method"""
    loc = it.bind_args(fn, [None] + list(a), k)
    dflt = it.bind_args(fn, [None, None], {})
    names = [x.arg for x in fn.node.args.args]
    out = []
    for n in loc:
        v = it.force(loc[n])
        if n in names[:2]: continue
        if n not in dflt or not same(v, it.force(dflt[n])): out.append((n, v))
    return loc[names[1]], tuple(out)


class Rendered(Schema):
    """a node or link in the finished tree: what it is rendered as is up to C23 and C09"""
    name = 'node'
    def __init__(self, box=None): self.box, self.mode = box, ()
    def get(self, it, s, n):
        def r(f, what):
            def run(it, a, k):
                fn = it.class_lookup(it.func(P + 'LinkParser'), n)
                box, mode = mode_of(it, fn, a, k)
                if self.box is not None: it.oblige('%s in the box of the document' % what, lambda: same(box, self.box) or 'another box')
                if n == 'render' and self.mode is None: self.mode = mode          # one way for all of them
                if n == 'link_render' or mode != self.mode:
                    if n == 'render': it.oblige('rendered in the same way', lambda: 'called with %s instead of %s' % (mode, self.mode))
                    if n == 'render' or mode: return mkR([z3.Function(f.name() + ' ' + str(mode), INT, STR)(s.term)])
                return mkR([f(s.term)])
            return Prim(what, run)
        if n == 'render': return r(f_rendering, 'rendered')
        if n == 'link_render': return r(f_entry, 'listed')
        if n == 'parent': return Sym(self, f_up(s.term))      # an open element has a parent (C07)
        if n == 'tag': return mkCh([(Node.text_(s.term), None), (z3.Not(Node.text_(s.term)), mkR([Node.tag(s.term)]))])
        if n == 'data': return mkR([f_data(s.term)])
        raise Unsupported('attribute %s of a node' % n)


def nodes_list(it, name, schema):
    """any number of nodes"""
    f = it.m.fresh_fn(name, INT, INT)
    n = it.m.fresh('n_' + name, INT)
    it.m.assume(n >= 0)
    return it.m.new_list(it.sym_list(n, lambda i: Sym(schema, f(i)), name)), n, f


def finished(it, p, box):
    """a parser that has read a document: any nodes at the top, any links waiting; nothing left open"""
    m = it.m
    q = P + 'GopherHTMLParser._assign_renderers'
    field(it, it.func(P + 'GopherHTMLParser'), '_assign_renderers')
    m.stubs[q] = lambda it, f, a, k: None
    tree = field(it, p, 'tree')
    sch = Rendered(box)
    top, n, f = nodes_list(it, 'top', sch)
    after, na, fa = nodes_list(it, 'after', sch)
    foot, nf, ff = nodes_list(it, 'footer', sch)
    field(it, tree, 'children'); field(it, tree, '_pending_links'); field(it, p, '_footer_pending_links')
    it.setattr_(tree, 'children', top)
    it.setattr_(tree, '_pending_links', after)
    it.setattr_(p, '_footer_pending_links', foot)
    field(it, p, '_tag_stack')
    it.setattr_(p, '_tag_stack', nodes_list(it, 'open', sch)[0])
    parts = [it.m.new_list(it.sym_list(k, lambda i, g=g, h=h: mkR([g(h(i))]), 'texts')) for k, g, h in ((n, f_rendering, f), (na, f_entry, fa), (nf, f_entry, ff))]
    return parts, na, nf


# --- arbitrary states --------------------------------------------------------------

class Node(Schema):
    """a node somewhere in the tree"""
    name = 'tree node'
    tag = z3.Function('n_tag', INT, STR)
    text_ = z3.Function('n_is_text', INT, BOOL)
    closed = z3.Function('n_closed', INT, BOOL)
    def get(self, it, s, n):
        t = s.term
        if n == 'tag': return mkCh([(self.text_(t), None), (z3.Not(self.text_(t)), mkR([self.tag(t)]))])
        if n == 'closed': return SB(self.closed(t))
        if n == 'parent': return Sym(self, f_up(t))
        if n == 'children': return kids(it, self, t)
        if n in ('href', 'title'): return mkCh([(z3.Function('n_has_' + n, INT, BOOL)(t), mkR([z3.Function('n_' + n, INT, STR)(t)])), (z3.Not(z3.Function('n_has_' + n, INT, BOOL)(t)), None)])
        if n == 'assign_renderer': return Prim(n, lambda it, a, k: None)
        if n == 'render': return Prim(n, lambda it, a, k: mkR([f_rendering(t)]))
        if n == 'link_render': return Prim(n, lambda it, a, k: mkR([f_entry(t)]))
        raise Unsupported('attribute %s of a node' % n)

NODEX = Node()
f_kids, f_kid = z3.Function('n_children', INT, INT), z3.Function('n_child', INT, INT, INT)


def kids(it, sch, t):
    n = f_kids(t)
    it.gax(('kids', n.get_id()), n >= 0, n)
    return Frozen('list', it.sym_list(n, lambda i: Sym(sch, f_kid(t, i)), 'kids'))


class Bytes(Schema):
    """parts of the result of parsing None: bytes"""
    name = 'bytes'
    def truth(self, it, s): return False
    def eq(self, it, s, o): return False


class NoUrl(Schema):
    name = 'url of None'
    def get(self, it, s, n):
        if n in ('port', 'hostname'): return None
        return Sym(Bytes(), I(0))


def stub_url(it):
    from . import c11
    def url(it, f, a, k):
        if it.force(a[0]) is None: return Sym(NoUrl(), I(0))
        return c11.urlparse(it, f, a, k)
    for n in ('urlparse', 'urlsplit'): it.m.stubs['ext:urllib.parse.' + n] = url


def attributes(it):
    """the attributes of a start tag: any names, values or None"""
    m = it.m
    n, v, has = m.fresh_fn('attr_name', INT, STR), m.fresh_fn('attr_value', INT, STR), m.fresh_fn('attr_has_value', INT, BOOL)
    return slist(it, 'attrs', lambda i: (mkR([n(i)]), mkCh([(has(i), mkR([v(i)])), (z3.Not(has(i)), None)])))[0]


def open_node(it, closed=False):
    """one node of the tree whose fields may be anything"""
    m = it.m
    lists = {n: nodes_list(it, 'of_open', NODEX)[0] for n in ('children', '_pending_links')}
    return m.new_obj(it.func(P + 'LinkParser'), tag=sstr(it, 'tag'), parent=Sym(NODEX, m.fresh('parent', INT)), closed=closed, attrs=m.new_dict({}), renderer=None, renderer_settings=None, **lists)


def quiet_constructors(it):
    """nodes are created with any contents (what they are is C01, C08 and C11)"""
    m = it.m
    classes = {n: it.func(P + n) for n in ('TagParser', 'LinkParser', 'DataParser')}
    def new(it, cls, a, k):
        t = m.new_obj(cls, tag=None, parent=None, children=m.new_list(), closed=SB(m.fresh('closed', BOOL)), _pending_links=m.new_list(), attrs=m.new_dict({}), renderer=None, renderer_settings=None)
        names = ('parent', 'data') if cls is classes['DataParser'] else ('tag', 'parent', 'attrs')
        vals = dict(zip(names, a), **{n: v for n, v in k.items() if n in names})
        if cls is classes['DataParser']: vals['closed'] = True
        vals.pop('attrs', None)
        c = m.cell(t)
        m.heap[t.id] = OCell(cls, dict(c.fields, **vals))
        return t
    for c in classes.values(): m.stubs['new:' + c.qual] = new


def locations(it, root):
    """{cell id: path} of what belongs to an object (not the nodes in lists)"""
    out, todo = {}, [(root, ())]
    while todo:
        v, path = todo.pop(0)
        if isinstance(v, tuple):
            for k, x in enumerate(v): todo.append((x, path + (k,)))
            continue
        if not isinstance(v, Ref) or v.id in out: continue
        out[v.id] = path
        c = it.m.heap[v.id]
        if isinstance(c, OCell) or isinstance(c, DCell):
            for n, x in c.fields.items(): todo.append((x, path + (n,)))
        if isinstance(c, DCell):
            for l in c.layers:
                if l[0] == 'c':
                    for n, x in l[1].items(): todo.append((x, path + (n,)))
        if isinstance(c, LCell):
            for k, p in enumerate(c.lv.parts):
                if isinstance(p, It) and not is_node(it, p.val): todo.append((p.val, path + (k,)))
    return out


def is_node(it, v):
    """a node of the tree: an object with a tag and a parent"""
    if isinstance(v, Sym): return isinstance(v.schema, Node)
    return isinstance(v, Ref) and isinstance(it.m.heap[v.id], OCell) and {'tag', 'parent', 'children'} <= set(it.m.heap[v.id].fields)


def handlers(it, p):
    """(name, thunk) for everything that may happen to a parser"""
    cls = it.m.cell(p).cls
    s = lambda n: sstr(it, n)
    known = dict(handle_starttag=lambda: [s('start'), attributes(it)], handle_startendtag=lambda: [s('start'), attributes(it)], handle_endtag=lambda: [s('end')], handle_data=lambda: [s('data')],
                 handle_comment=lambda: [s('comment')], handle_decl=lambda: [s('decl')], handle_pi=lambda: [s('pi')], unknown_decl=lambda: [s('decl')], handle_charref=lambda: [s('ref')],
                 handle_entityref=lambda: [s('ref')], feed=lambda: [s("fed")], close=lambda: [])
    for n, args in known.items():
        if n == 'feed' or isinstance(it.class_lookup(cls, n), Func): yield n, lambda n=n, args=args: it.call(it.getattr_(p, n), args(), {})


def quiet_nodes(it):
    """what happens inside the nodes is up to their own contracts"""
    m = it.m
    stub_url(it)
    for q, r in (('TagParser.render', True), ('LinkParser.render', True), ('DataParser.render', True), ('LinkParser.link_render', True), ('TagParser.assign_renderer', False), ('LinkParser.assign_renderer', False)):
        m.stubs[P + q] = lambda it, f, a, k, r=r: sstr(it, 'rendering') if r else None
    for q in ('_indent_body', '_optimise_parsed'):
        m.stubs[P + 'GopherHTMLParser.' + q] = lambda it, f, a, k: sstr(it, 'text')
    q = P + 'GopherHTMLParser._assign_renderers'
    m.stubs[q] = lambda it, f, a, k: None if any(fr.func is not None and fr.func.qual == q for fr in m.frames) else NotImplemented
    class Chosen(Schema): name = 'renderer'
    m.stubs[P + 'RendererMap.get_for_tag'] = lambda it, f, a, k: None if m.choose(m.fresh('none matches', BOOL)) else (Sym(Chosen(), m.fresh('renderer', INT)), Sym(ANY, m.fresh('settings', Obj)))


# --- a parser at any point of any document ---------------------------------------------

PLACES = ('inline', 'footer', 'after_block')


def state(it):
    """a parser at any point of any document"""
    m = it.m
    o = dict(link_placement=choice(it, 'links', PLACES), image_placement=choice(it, 'images', PLACES), output_format='text', gopher_host='h', gopher_port=sint(it, 'port'))
    p = parser(it, **o)
    tree = field(it, p, 'tree')
    for q, ns in ((p, ('_next_link_number', '_footer_pending_links', '_tag_stack', '_in_pre')), (tree, ('children', '_pending_links'))):
        for n in ns: field(it, q, n)
    n = sint(it, 'next')
    it.setattr_(p, '_next_link_number', n)
    it.setattr_(p, '_in_pre', sbool(it, 'in_pre'))
    it.setattr_(p, '_footer_pending_links', nodes_list(it, 'footer', NODEX)[0])
    it.setattr_(tree, 'children', nodes_list(it, 'top', NODEX)[0])
    it.setattr_(tree, '_pending_links', nodes_list(it, 'after', NODEX)[0])
    top = open_node(it) if choice(it, 'open', [True, False]) else None
    below = list(it.as_lv(nodes_list(it, 'open', NODEX)[0]).parts) if top is not None else []
    it.setattr_(p, '_tag_stack', it.m.new_list(LV(below + ([It(top)] if top is not None else []))))
    return o, p, tree, top, n


def lists(it, p, tree, top):
    out = dict(number=it.getattr_(p, '_next_link_number'), footer=it.as_lv(it.getattr_(p, '_footer_pending_links')), document=it.as_lv(it.getattr_(tree, '_pending_links')))
    if top is not None: out['block'] = it.as_lv(it.getattr_(top, '_pending_links'))
    return out


def same_lists(it, a, b):
    if len(a.parts) != len(b.parts): return False
    for x, y in zip(a.parts, b.parts):
        if isinstance(x, It) and isinstance(y, It):
            if not same(x.val, y.val): return False
        elif not same(LV([x]), LV([y])): return False
    return True
