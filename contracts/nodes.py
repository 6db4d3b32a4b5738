"""Symbolic documents and selectors.

NODE: a node of a document tree as the parser builds it: the document itself (DocumentParser),
text (DataParser) or an element (TagParser, LinkParser for a and img).  Its attributes are
uninterpreted functions of the node; its methods are those of its class in the current source,
executed.  That the constructors establish the facts used here is proved in the contracts
'... nodes ...' of C01 and C07.

SEL: a selector as cssselect parses it, of any kind."""
import ast
from pyvc.contract import *
from pyvc.prims import Schema

F = z3.Function
P = 'gopher_render._parser:'
is_root, is_text = F('is_root', Obj, BOOL), F('is_text', Obj, BOOL)
tag_of = F('tag_of', Obj, STR)
parent_of = F('parent_of', Obj, Obj)
top_text = F('text_without_parent', Obj, BOOL)
depth = F('depth', Obj, INT)
child, nchild, pos = F('child', Obj, INT, Obj), F('nchild', Obj, INT), F('pos', Obj, INT)
has_attr, attr_none, attr_val = F('has_attr', Obj, STR, BOOL), F('attr_none', Obj, STR, BOOL), F('attr_val', Obj, STR, STR)
nclass, class_at = F('nclass', Obj, INT), F('class_at', Obj, INT, STR)
data_of = F('data_of', Obj, STR)
is_elem = lambda n: z3.And(z3.Not(is_root(n)), z3.Not(is_text(n)))
ABSENT = {'root': ('tag', 'parent', 'id', 'classes', 'attrs', 'data', 'closed', 'renderer', 'renderer_settings', 'title', 'href', 'gopher_link', 'link_renderer'), 'element': ('data',)}
NOWS = ' \t\n\r\x0b\x0c'


class NodeSchema(Schema):
    name = 'node'

    def kind(self, it, s):
        t = s.term
        if it.m.choose(is_root(t)): return 'root'
        if it.m.choose(is_text(t)): return 'text'
        return 'element'

    def classes(self, it, s):
        k = self.kind(it, s)
        if k == 'root': return [it.func(P + 'DocumentParser')]
        if k == 'text': return [it.func(P + 'DataParser')]
        return [it.func(P + 'TagParser'), it.func(P + 'LinkParser')]

    def link(self, s): return z3.Or(tag_of(s.term) == 'a', tag_of(s.term) == 'img')

    def truth(self, it, s):
        for c in self.classes(it, s):
            if it.class_lookup(c, '__bool__') or it.class_lookup(c, '__len__'): raise Unsupported('truth of a node')
        return True

    def eq(self, it, s, o):
        if isinstance(o, Sym) and o.schema is self: return mkB(s.term == o.term)
        if o is None or is_str(o) or is_int(o) or is_bool(o) or isinstance(o, (tuple, Ref)): return False
        return None

    def has(self, it, s, name):
        t = s.term
        if name in ('tag', 'parent', 'id', 'classes', 'attrs', 'closed'): return mkB(z3.Not(is_root(t)))
        if name == 'data': return mkB(z3.And(z3.Not(is_root(t)), is_text(t)))
        if name == 'children': return True
        k = self.kind(it, s)
        if name in ABSENT.get(k, ()): return False
        if all(it.class_lookup(c, name) is not None for c in self.classes(it, s)): return True
        raise Unsupported('hasattr of a node: %s' % name)

    def facts(self, it, t):
        m = it.m
        key = ('node', t.get_id())
        if key in m.axioms: return
        e = is_elem(t)
        def ax(n, f):
            if not m.index_vars: m.axiom(key + (n,) if n else key, f)
            else: m.assume(f)
        m.keep.append(t)
        ax('', z3.And(nchild(t) >= 0, depth(t) >= 0, nclass(t) >= 0, z3.Implies(z3.Not(has_attr(t, z3.StringVal('class'))), nclass(t) == 0),
                      z3.Implies(is_root(t), z3.Not(is_text(t))), z3.Implies(is_text(t), nchild(t) == 0),
                      z3.Implies(z3.Not(is_root(t)), z3.And(depth(parent_of(t)) < depth(t), z3.Not(is_text(parent_of(t)))))))
        if getattr(m, 'walkers', None) is not None and not m.index_vars:        # the definition of ANC
            s, p = z3.Const('s!', Obj), parent_of(t)
            m.axiom(key + ('anc',), z3.ForAll([s], ANC(t, s) == z3.And(z3.Not(is_root(t)), z3.Or(M(p, s), ANC(p, s))), patterns=[ANC(t, s)]))

    def node(self, it, t):
        self.facts(it, t)
        return Sym(self, t)

    def attached(self, it, t):
        """t is the pos-th child of its parent; the children of a node are distinct"""
        m = it.m
        p = parent_of(t)
        m.assume(z3.And(0 <= pos(t), pos(t) < nchild(p), child(p, pos(t)) == t))
        j = z3.Int('j!')
        n = z3.Const('n!', Obj)
        m.axiom('children', z3.ForAll([n, j], z3.Implies(z3.And(0 <= j, j < nchild(n)), z3.And(pos(child(n, j)) == j, z3.Not(is_root(child(n, j))))), patterns=[child(n, j)]))

    def get(self, it, s, name):
        t = s.term
        self.facts(it, t)
        if name == 'children': return SField(s, 'children')
        k = self.kind(it, s)
        if name == '__class__': return self.type_of(it, s)
        if name in ABSENT.get(k, ()): it.noattr(s, name)
        if name == 'tag' and k != 'root': return mkR([tag_of(t)]) if k == 'element' else None
        if name == 'parent':
            if k == 'text': return mkCh([(top_text(t), None), (z3.Not(top_text(t)), self.node(it, parent_of(t)))])
            return self.node(it, parent_of(t))
        if name == 'attrs' and k != 'root': return self.attrs(it, s) if k == 'element' else Frozen('dict', DCell([]))
        if name == 'classes' and k != 'root': return self.class_list(it, s) if k == 'element' else Frozen('list', LV(()))
        if name == 'id' and k != 'root':
            if k == 'text': return None
            i = z3.StringVal('id')
            has = z3.And(has_attr(t, i), z3.Not(attr_none(t, i)))
            return mkCh([(has, mkR([attr_val(t, i)])), (z3.Not(has), None)])
        if name == 'data' and k == 'text': return mkR([data_of(t)])
        cs = self.classes(it, s)
        fs = [it.class_lookup(c, name) for c in cs]
        if len(fs) > 1 and fs[0] is not fs[1]:
            c, f = (cs[1], fs[1]) if it.m.choose(self.link(s)) else (cs[0], fs[0])
        else: c, f = cs[0], fs[0]
        if f is None: raise Unsupported('attribute %s of a node' % name)
        if isinstance(f, Prop): return it.call(f.fget, [s], {})
        return it.bind(f, s, c)

    def field_init(self, it, s, attr):
        if attr != 'children': raise Unsupported('field %s' % attr)
        t = s.term
        v = z3.Int(it.m.fname('c'))
        n = z3.If(z3.Or(is_root(t), z3.Not(is_text(t))), nchild(t), 0)
        return LV([Sg(I(0), nchild(t), v, Sym(self, child(t, v)))])

    def class_list(self, it, s):
        v = z3.Int(it.m.fname('c'))
        t = s.term
        return Frozen('list', LV([Sg(I(0), nclass(t), v, mkR([class_at(t, v)]))]))

    def attrs(self, it, s):
        t = s.term
        def val(k):
            if it.m.choose(k == 'class'): return self.class_list(it, s)
            return mkCh([(attr_none(t, k), None), (z3.Not(attr_none(t, k)), mkR([attr_val(t, k)]))])
        return Frozen('dict', DCell([('s', SymDict('attrs', lambda k: has_attr(t, k), val))]))

    def isinstance(self, it, s, cls):
        t = s.term
        if isinstance(cls, Prim): return cls.name == 'object'
        if isinstance(cls, Ext): return cls.name == 'builtins.object'
        if not isinstance(cls, Class): return None
        k = self.kind(it, s)
        cs = [cls in c.mro for c in self.classes(it, s)]
        if len(cs) == 1 or cs[0] == cs[1]: return cs[0]
        return mkB(self.link(s)) if cs[1] else mkB(z3.Not(self.link(s)))

    def type_of(self, it, s):
        cs = self.classes(it, s)
        if len(cs) == 1: return cs[0]
        return cs[1] if it.m.choose(self.link(s)) else cs[0]


NODE = NodeSchema()


def element(it, name='tag'):
    """an arbitrary element, attached to its parent"""
    t = it.m.fresh(name, Obj)
    it.m.assume(is_elem(t))
    n = NODE.node(it, t)
    NODE.attached(it, t)
    return n


# --- selectors ---------------------------------------------------------------------
CSS = 'cssselect.parser.'
KINDS = ['Element', 'Class', 'Hash', 'Attrib', 'Negation', 'CombinedSelector', 'Pseudo', 'Function']
sel_kind = F('sel_kind', Obj, INT)
sub, subsub, size = F('sel_selector', Obj, Obj), F('sel_subselector', Obj, Obj), F('sel_size', Obj, INT)
s_text = {n: F('sel_' + n, Obj, STR) for n in ('element', 'class_name', 'id', 'attrib', 'operator', 'value', 'combinator', 'ident', 'name')}
s_nth = F('sel_argument', Obj, INT)
any_type = F('sel_any_type', Obj, BOOL)
OPERATORS = ['exists', '=', '~=', '|=', '^=', '$=', '*=']
FIELDS = {'Element': ('element', 'namespace'), 'Class': ('selector', 'class_name'), 'Hash': ('selector', 'id'), 'Attrib': ('selector', 'namespace', 'attrib', 'operator', 'value'), 'Negation': ('selector', 'subselector'),
          'CombinedSelector': ('selector', 'combinator', 'subselector'), 'Pseudo': ('selector', 'ident'), 'Function': ('selector', 'name', 'arguments')}


class Token(Schema):
    name = 'token'
    def get(self, it, s, name):
        if name == 'value': return mkR([s.term])
        raise Unsupported('token.%s' % name)
TOKEN = Token()


class SelSchema(Schema):
    name = 'selector'

    def kind(self, it, s):
        for k, n in enumerate(KINDS[:-1]):
            if it.m.choose(sel_kind(s.term) == k): return n
        return KINDS[-1]

    def isinstance(self, it, s, cls):
        if isinstance(cls, Prim): return cls.name == 'object'
        if isinstance(cls, Ext) and cls.name.startswith('cssselect.'):
            n = cls.name.split('.')[-1]
            return mkB(sel_kind(s.term) == KINDS.index(n)) if n in KINDS else False
        return None

    def type_of(self, it, s): return Ext(CSS + self.kind(it, s))

    def has(self, it, s, name): return name in FIELDS[self.kind(it, s)]

    def get(self, it, s, name):
        t = s.term
        k = self.kind(it, s)
        if name == '__class__': return Ext(CSS + k)
        if name not in FIELDS[k]:
            if any(name in f for f in FIELDS.values()): it.noattr(s, name)
            raise Unsupported('attribute %s of a selector' % name)
        for f in (sub, subsub): it.m.axiom(('size', f.name(), t.get_id()), size(f(t)) < size(t))
        it.m.keep.append(t)
        if name == 'selector': return Sym(self, sub(t))
        if name == 'subselector': return Sym(self, subsub(t))
        if name == 'element': return mkCh([(any_type(t), None), (z3.Not(any_type(t)), mkR([s_text['element'](t)]))])
        if name == 'namespace': return None
        if name == 'value':
            if it.m.choose(s_text['operator'](t) == 'exists'): return None
            return Sym(TOKEN, s_text['value'](t))
        if name == 'arguments': return Frozen('list', it.lv([Sym(TOKEN, it.zs(it.str_of(SI(s_nth(t)))))]))
        return mkR([s_text[name](t)])


SEL = SelSchema()


def selector(it, kind, name='sel'):
    t = it.m.fresh(name, Obj)
    it.m.assume(sel_kind(t) == KINDS.index(kind))
    it.m.assume(size(t) >= 0)
    return Sym(SEL, t)


class GroupSchema(Schema):
    """one selector of a group"""
    name = 'parsed selector'
    tree, spec = F('parsed_tree', Obj, Obj), [F('specificity_%d' % k, Obj, INT) for k in range(3)]
    def get(self, it, s, name):
        if name == 'parsed_tree': return Sym(SEL, self.tree(s.term))
        if name == 'pseudo_element': return None
        if name == 'specificity': return Prim('specificity', lambda it2, a, k: tuple(SI(f(s.term)) for f in self.spec))
        raise Unsupported('selector.%s' % name)
GROUP = GroupSchema()

# --- matching: the induction hypothesis ------------------------------------------------
M = F('matches', Obj, Obj, BOOL)            # node, selector
ANC = F('ancestor_matches', Obj, Obj, BOOL)


def hypothesis(it):
    """Recursive calls f(node, selector) of the function that decides matching are replaced by the
    specification M, for smaller selectors; those of a function that walks up the tree (reached
    again with the parent) by ANC, which is proved of it separately (ancestors())."""
    m = it.m
    n, s = z3.Const('n!', Obj), z3.Const('s!', Obj)
    m.axiom('M', z3.ForAll([n, s], z3.Implies(M(n, s), is_elem(n)), patterns=[M(n, s)]))
    m.axiom('ANC', z3.ForAll([n, s], z3.Implies(ANC(n, s), z3.Not(is_root(n))), patterns=[ANC(n, s)]))
    m.walkers, m.matchers, m.walking = [], [], None
    def unfold(t, s):
        p = parent_of(t)
        NODE.facts(it, p)
        return z3.If(is_root(t), False, z3.Or(M(p, s), ANC(p, s)))
    it.unfold = unfold
    m.loop_rules = [walk]
    def hook(it2, f, args, kw):
        if kw or len(args) != 2: return NotImplemented
        a, b = it2.force(args[0]), it2.force(args[1])
        if not (isinstance(a, Sym) and a.schema is NODE and isinstance(b, Sym) and b.schema is SEL): return NotImplemented
        on = [fr for fr in m.frames if fr.func is f]
        if not on:
            if f in m.matchers and m.walking is not None:
                m.prove('decreases: no larger selector', size(b.term) <= size(m.walking))
                return SB(M(a.term, b.term))
            return NotImplemented
        m.assumed.add('induction hypothesis: recursive calls satisfy their contract (their arguments are proved smaller)')
        params = [x.arg for x in f.node.args.args]
        a0, b0 = it2.force(on[-1].locals.get(params[0])), it2.force(on[-1].locals.get(params[1]))
        if b.term.eq(b0.term):
            m.prove('decreases: nearer to the root', depth(a.term) < depth(a0.term))
            if f not in m.walkers: m.walkers.append(f)
            return SB(ANC(a.term, b.term))
        m.prove('decreases: smaller selector', size(b.term) < size(b0.term))
        if f not in m.matchers: m.matchers.append(f)
        return SB(M(a.term, b.term))
    m.rec_hook = hook


class Walk:
    """A loop that walks up the tree from x0: looking from any x on its way finds what looking from x0 does.
    If x itself is yet to be looked at (here), that is x or an ancestor of x, and otherwise an ancestor of x."""
    def __init__(self, it, fr, name, sel, here):
        self.it, self.fr, self.name, self.sel, self.here = it, fr, name, sel, here
        self.x0 = it.force(fr.locals[name])
        self.x = self.x0.term

    def found(self, t):
        s = self.sel
        u = self.it.unfold(t, s)
        NODE.facts(self.it, t)
        self.it.m.assume(ANC(t, s) == u)
        return z3.Or(M(t, s), ANC(t, s)) if self.here else ANC(t, s)

    def check(self, first):
        if first: return
        it = self.it
        x = it.force(self.fr.locals[self.name])
        if x is None: now = FALSE
        elif isinstance(x, Sym) and x.schema is NODE:
            now = self.found(x.term)
            it.prove('decreases: nearer to the root', depth(x.term) < depth(self.x))
        else: raise Unsupported('loop: %s is no node' % self.name)
        it.prove('on the way up', self.found(self.x0.term) == now)

    def havoc(self):
        it, m = self.it, self.it.m
        if m.choose(m.fresh('at_the_end', BOOL)):
            m.assume(z3.Not(self.found(self.x0.term)))
            self.fr.locals[self.name] = None
        else:
            t = self.x = m.fresh('x', Obj)
            m.assume(z3.Not(is_text(t)))
            self.fr.locals[self.name] = NODE.node(it, t)
            m.assume(z3.And(self.found(self.x0.term) == self.found(t), depth(t) <= depth(self.x0.term)))
        return [self.name], []


def walk(it, node, fr):
    """which variable walks up the tree and what is looked for, if this loop looks like that (a guess: what it leads to is proved)"""
    stores = [n.id for s in node.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
    for name in dict.fromkeys(stores):
        if name not in fr.locals: continue
        x = it.force(fr.locals[name])
        if not (isinstance(x, Sym) and x.schema is NODE): continue
        first = min(n.lineno for s in node.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name)
        for c in [n for s in node.body for n in ast.walk(s) if isinstance(n, ast.Call)]:
            if len(c.args) != 2 or c.keywords or not (isinstance(c.args[0], ast.Name) and c.args[0].id == name): continue
            if {n.id for n in ast.walk(c.args[1]) if isinstance(n, ast.Name)} & set(stores): continue
            sel = it.force(it.ev(c.args[1], fr))
            if isinstance(sel, Sym) and sel.schema is SEL: return Walk(it, fr, name, sel.term, c.lineno < first)
    return None


def matching(it, tag, sel):
    """what tag_matches says about one selector"""
    g = Sym(GROUP, it.m.fresh('parsed', Obj))
    it.m.assume(GROUP.tree(g.term) == sel.term)
    it.m.axiom('tree', TRUE)
    class G(GroupSchema):
        def get(self, it2, s, name):
            if name == 'parsed_tree': return sel
            return GROUP.get(it2, s, name)
    g = Sym(G(), g.term)
    r = it.call(it.func('gopher_render._selectors:tag_matches'), [tag, it.m.new_list([g])], {})
    return it.item(r, 0)


def ancestors(it):
    """every function that was found to walk up the tree decides whether some ancestor matches"""
    for f in list(it.m.walkers):
        t, s = it.m.fresh('n', Obj), it.m.fresh('s', Obj)
        NODE.facts(it, t)
        it.m.assume(z3.Not(is_text(t)))
        it.m.assume(size(s) >= 0)
        it.m.walking = s
        got = it.call(f, [Sym(NODE, t), Sym(SEL, s)], {})
        it.m.walking = None
        it.prove('some ancestor matches', zb(got) == it.unfold(t, s))
