"""C03: positional pseudo-classes pick exactly the element child at that position.

The position of an element among the element children of its parent is the number of element
children before (after) it, counted by the rank of the filtered range of children."""
from pyvc.contract import *
from .nodes import *

MODS = ['_selectors', '_parser']
ASSUMPTIONS = ['selectors are those cssselect 1.1.0 produces: a kind and its fields, without namespaces; the argument is an integer in decimal',
               'the tree is one the parser built (C07): every element is one of the children of its parent, once']


def counts(it, t):
    """number of element children of the parent of t: in all, before t"""
    p = parent_of(t)
    v = z3.Int('p!')
    cnt, sel, rank = it.filt(I(0), nchild(p), v, z3.Not(is_text(child(p, v))))
    return cnt, rank(pos(t))


def positional(kind, name, want):
    def run(it):
        hypothesis(it)
        s = selector(it, kind)
        z = s.term
        it.m.assume(s_text['name' if kind == 'Function' else 'ident'](z) == name)
        if it.m.choose(it.m.fresh('element', BOOL)):
            n = element(it)
            t = n.term
            got = matching(it, n, s)
            cnt, before = counts(it, t)
            it.prove('at that position', zb(got) == z3.And(M(t, sub(z)), want(s_nth(z), cnt, before)))
        else:
            t = it.m.fresh('node', Obj)
            it.m.assume(z3.Not(is_elem(t)))
            got = matching(it, NODE.node(it, t), s)
            it.prove('text and document match nothing', z3.Not(zb(got)))
    contract('C03', ':' + name, modules=MODS)(run)


positional('Function', 'nth-child', lambda n, cnt, before: before == n - 1)
positional('Function', 'nth-last-child', lambda n, cnt, before: cnt - 1 - before == n - 1)
positional('Pseudo', 'first-child', lambda n, cnt, before: before == 0)
positional('Pseudo', 'last-child', lambda n, cnt, before: before == cnt - 1)
