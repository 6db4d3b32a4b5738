"""C02: combinators relate an element to the right ancestors and siblings."""
from pyvc.contract import *
from .nodes import *

MODS = ['_selectors', '_parser']
ASSUMPTIONS = ['selectors are those cssselect 1.1.0 produces: a kind and its fields, without namespaces',
               'the tree is one the parser built (C07): every element is one of the children of its parent, once']


def combinator(op, want):
    def run(it):
        hypothesis(it)
        s = selector(it, 'CombinedSelector')
        z = s.term
        it.m.assume(s_text['combinator'](z) == op)
        if it.m.choose(it.m.fresh('element', BOOL)):
            n = element(it)
            t = n.term
            got = matching(it, n, s)
            it.prove('related as defined', zb(got) == z3.And(M(t, subsub(z)), want(it, t, sub(z))))
            ancestors(it)
        else:
            t = it.m.fresh('node', Obj)
            it.m.assume(z3.Not(is_elem(t)))
            got = matching(it, NODE.node(it, t), s)
            it.prove('text and document match nothing', z3.Not(zb(got)))
    contract('C02', 'combinator %r' % op, modules=MODS)(run)


def sibling(it, t, s):
    j = z3.Int('j!')
    p = parent_of(t)
    return z3.Exists([j], z3.And(0 <= j, j < pos(t), M(child(p, j), s)))


def adjacent(it, t, s):
    j, k = z3.Ints('j! k!')
    p = parent_of(t)
    return z3.Exists([j], z3.And(0 <= j, j < pos(t), M(child(p, j), s), z3.ForAll([k], z3.Implies(z3.And(j < k, k < pos(t)), is_text(child(p, k))))))


combinator(' ', lambda it, t, s: it.unfold(t, s))
combinator('>', lambda it, t, s: M(parent_of(t), s))
combinator('~', sibling)
combinator('+', adjacent)
