"""C01: type, class, id, attribute and negation selectors match as CSS defines them.

tag_matches is run on an arbitrary node and an arbitrary selector of each kind; for the parts of
the selector, matching is what the specification says (induction on the size of the selector)."""
from pyvc.contract import *
from .nodes import *
from .nodes import F

MODS = ['_selectors', '_parser']
ASSUMPTIONS = ['selectors are those cssselect 1.1.0 produces: a kind and its fields, without namespaces']


def any_node(it):
    t = it.m.fresh('node', Obj)
    n = NODE.node(it, t)
    return n, t


def check(it, sel, want):
    n, t = any_node(it)
    got = matching(it, n, sel)
    it.prove('matches as defined', zb(got) == z3.And(is_elem(t), want(n, t)))


@contract('C01', 'type and universal selector', modules=MODS)
def typ(it):
    hypothesis(it)
    s = selector(it, 'Element')
    check(it, s, lambda n, t: z3.Or(any_type(s.term), tag_of(t) == s_text['element'](s.term)))


@contract('C01', 'class selector', modules=MODS)
def klass(it):
    hypothesis(it)
    s = selector(it, 'Class')
    j = z3.Int('c!')
    check(it, s, lambda n, t: z3.And(M(t, sub(s.term)), z3.Exists([j], z3.And(0 <= j, j < nclass(t), class_at(t, j) == s_text['class_name'](s.term)))))


@contract('C01', 'id selector', modules=MODS)
def hash_(it):
    hypothesis(it)
    s = selector(it, 'Hash')
    i = z3.StringVal('id')
    check(it, s, lambda n, t: z3.And(M(t, sub(s.term)), has_attr(t, i), z3.Not(attr_none(t, i)), attr_val(t, i) == s_text['id'](s.term)))


@contract('C01', 'negation', modules=MODS)
def neg(it):
    hypothesis(it)
    s = selector(it, 'Negation')
    check(it, s, lambda n, t: z3.And(M(t, sub(s.term)), z3.Not(M(t, subsub(s.term)))))


def attribute(op, klass):
    def run(it):
        hypothesis(it)
        s = selector(it, 'Attrib')
        z = s.term
        it.m.assume(s_text['operator'](z) == op)
        name = s_text['attrib'](z)
        it.m.assume((name == 'class') if klass else (name != 'class'))
        n, t = any_node(it)
        got = matching(it, n, s)
        if it.m.choose(z3.Not(is_elem(t))): it.prove('no element: no match', z3.Not(zb(got))); return
        if klass: txt = it.s_join(' ', it.as_lv(NODE.class_list(it, n)))
        elif it.m.choose(attr_none(t, name)): txt = ''
        else: txt = mkR([attr_val(t, name)])
        if not klass and name is not None: it.m.assume(z3.Implies(z3.Not(has_attr(t, name)), TRUE))
        val = None if op == 'exists' else mkR([s_text['value'](z)])
        want = it.truth(spec(it, 'c01')('attribute', mkB(has_attr(t, name)), txt, op, val))
        it.prove('matches as defined', zb(got) == z3.And(M(t, sub(z)), zb(want)))
    return run


for _o in OPERATORS:
    for _k in (False, True): contract('C01', 'attribute selector %s%s' % (_o, ' of the class' if _k else ''), modules=MODS)(attribute(_o, _k))


def constructed(cls, what):
    def run(it):
        """an element is built with its name, its attributes and the words of its class"""
        m = it.m
        n = m.fresh('n', INT)
        if cls == 'TagParser' and what in ('none', 'class', 'id'):          # a list of pairs
            nm, hasv, val, at = m.fresh_fn('name', INT, STR), m.fresh_fn('valued', INT, BOOL), m.fresh_fn('value', INT, STR), m.fresh_fn('at', STR, INT)
            m.assume(n >= 0)
            i = z3.Int('i!')
            m.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), at(nm(i)) == i), patterns=[nm(i)]))       # names are distinct
            present = lambda k: z3.And(0 <= at(k), at(k) < n, nm(at(k)) == k)
            value = lambda k: mkR([val(at(k))]) if m.choose(hasv(at(k))) else None
            v = z3.Int(m.fname('a'))
            attrs = m.new_list(LV([Sg(I(0), n, v, (mkR([nm(v)]), mkCh([(hasv(v), mkR([val(v)])), (z3.Not(hasv(v)), None)])))]))
        else:                                                               # anything dict() takes
            present, hasv, val = m.fresh_fn('has', STR, BOOL), m.fresh_fn('valued', STR, BOOL), m.fresh_fn('value', STR, STR)
            value = lambda k: mkR([val(k)]) if m.choose(hasv(k)) else None
            attrs = m.alloc(DCell([('s', SymDict('attrs', present, lambda k: mkCh([(hasv(k), mkR([val(k)])), (z3.Not(hasv(k)), None)])))]))
        tag, parent = sstr(it, 'tag'), sany(it, 'parent')
        ctx = {}
        C, D = z3.StringVal('class'), z3.StringVal('id')
        k = m.fresh('k', STR)
        if what == 'class': m.assume(present(C))
        if what == 'none': m.assume(z3.Not(present(C))); m.assume(z3.Not(present(D)))
        if what == 'id': m.assume(z3.Not(present(C))); m.assume(present(D))
        if what == 'other': m.assume(present(k)); m.assume(k != C)
        if what == 'missing': m.assume(z3.Not(present(k)))
        if cls == 'LinkParser':
            tag = choice(it, 'tag', ['a', 'img'])
            ctx = dict(gopher_host=sstr(it, 'host'), gopher_port=sint(it, 'port'), output_format='text', link_placement='footer', image_placement='footer', link_reference=sint(it, 'ref'))
            m.stubs[P + 'LinkParser._parse_href'] = lambda it, f, a, k: sany(it, 'link')
        t = it.call(it.func(P + cls), [tag, parent, attrs], ctx)
        d = it.getattr_(t, 'attrs')
        if what == 'none':
            it.prove_eq('name', it.getattr_(t, 'tag'), tag)
            it.prove_eq('parent', it.getattr_(t, 'parent'), parent)
            it.prove_eq('no children yet', it.as_lv(it.getattr_(t, 'children')), LV(()))
            it.prove_eq('no class, no classes', it.as_lv(it.getattr_(t, 'classes')), LV(()))
            it.prove_eq('no id', it.getattr_(t, 'id'), None)
        elif what == 'class':
            w = value(C)
            ws = it.s_words(w) if w is not None else LV(())
            it.prove_eq('classes are the words of the class', it.as_lv(it.getattr_(t, 'classes')), ws)
            it.prove_eq('class attribute', it.as_lv(it.item(d, 'class')), ws)
        elif what == 'id': it.prove_eq('id', it.getattr_(t, 'id'), value(D))
        elif what == 'other': it.prove_eq('value', it.item(d, mkR([k])), value(k))
        else: it.prove('only the attributes given', z3.Not(zb(it.contains_(d, mkR([k])))))
    return run


for _w in ('none', 'class', 'id', 'other', 'missing'):
    contract('C01', 'elements have the attributes given: ' + _w, modules=MODS)(constructed('TagParser', _w))
    contract('C01', 'links have the attributes given: ' + _w, modules=MODS)(constructed('LinkParser', _w))


@contract('C01', 'text and document have no attributes', modules=MODS)
def others(it):
    p = sany(it, 'parent')
    t = it.call(it.func(P + 'DataParser'), [p, sstr(it, 'data')], dict(in_pre=True))
    for n, w in (('tag', None), ('id', None)): it.prove_eq('text: ' + n, field(it, t, n), w)
    it.prove_eq('text: classes', it.as_lv(field(it, t, 'classes')), LV(()))
    it.prove_eq('text: children', it.as_lv(field(it, t, 'children')), LV(()))
    it.prove('text: attributes', z3.Not(zb(it.contains_(field(it, t, 'attrs'), sstr(it, 'k')))))
    miss = object()
    it.oblige('text has data', lambda: it.getattr_(t, 'data', miss) is not miss or 'none')
    d = it.call(it.func(P + 'DocumentParser'), [], {})
    for n in ('tag', 'parent', 'id', 'classes', 'attrs', 'data'): it.oblige('document: no ' + n, lambda n=n: it.getattr_(d, n, miss) is miss or 'it has one')
