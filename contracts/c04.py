"""C04: selector groups: any match counts, with the greatest specificity that matched."""
import ast
from pyvc.contract import *
from pyvc.loops import InvModel
from .nodes import *

S = 'gopher_render._selectors:'
MODS = ['_selectors', '_parser']
ASSUMPTIONS = ['_selector_matches decides matching of single selectors (C01, C02, C03)']


def lex_le(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], z3.Or(a[1] < b[1], z3.And(a[1] == b[1], a[2] <= b[2]))))


def lex_lt(a, b): return z3.And(lex_le(a, b), z3.Not(z3.And([x == y for x, y in zip(a, b)])))


class Group:
    """a group of any number of selectors, one of which is greatest among the matching ones before k"""
    def __init__(self, it):
        m = it.m
        self.it = it
        self.n = m.fresh('n', INT)
        m.assume(self.n >= 0)
        self.g = m.fresh_fn('group', INT, Obj)
        self.tag = NODE.node(it, m.fresh('tag', Obj))
        self.lv = it.sym_list(self.n, lambda i: Sym(GROUP, self.g(i)), 'group')
        v = z3.Int('m!')
        self.cnt, self.sel, self.rank = it.filt(I(0), self.n, v, self.match(v))
        self.B = [m.fresh_fn('best', INT, INT) for _ in range(3)]
        self.W = m.fresh_fn('which', INT, INT)
        j = z3.Int('j!')
        m.assume(z3.ForAll([j], z3.And([f(self.g(j)) >= 0 for f in GROUP.spec]), patterns=[self.g(j)]))

    def match(self, k): return M(self.tag.term, GROUP.tree(self.g(k)))
    def spec(self, k): return [f(self.g(k)) for f in GROUP.spec]
    def greatest(self, k, b, witnesses):
        j = z3.Int('j!')
        return z3.And(z3.Or([z3.And(0 <= w, w < k, self.match(w), *[x == y for x, y in zip(self.spec(w), b)]) for w in witnesses]),
                      z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k, self.match(j)), lex_le(self.spec(j), b)), patterns=[self.g(j)]))

    def shape_best(self, k): return mkCh([(self.rank(k) > 0, tuple(SI(b(k)) for b in self.B)), (z3.Not(self.rank(k) > 0), None)])
    def inv_best(self, k, v):
        alts = v.alts if isinstance(v, Ch) else [(TRUE, v)]
        out = []
        for c, x in alts:
            if x is None: out.append(z3.Implies(c, self.rank(k) == 0))
            elif isinstance(x, tuple) and len(x) == 3 and all(is_int(e) for e in x): out.append(z3.Implies(c, z3.And(self.rank(k) > 0, self.greatest(k, [zi(e) for e in x], [simp(k - 1), self.W(simp(k - 1))]))))
            else: raise Unsupported('loop: the greatest specificity so far is %r' % (x,))
        return z3.And(out)

    def fact_best(self, k): return z3.Implies(self.rank(k) > 0, self.greatest(k, [b(k) for b in self.B], [self.W(k)]))

    def hint(self, L, loc, base):
        if base is None: return InvModel(L, loc, base, self.shape_best, self.inv_best, self.fact_best)
        if base is False: return InvModel(L, loc, base, lambda k: mkB(self.rank(k) > 0), lambda k, v: zb(v) == (self.rank(k) > 0) if is_bool(v) else self.it._unsup('flag'))
        return None


@contract('C04', 'tag_matches', modules=MODS)
def group(it):
    m = it.m
    if not isinstance(it.modules['gopher_render._selectors'].ns.get('_selector_matches'), Func): raise Unsupported('the contract needs _selector_matches')
    m.stubs[S + '_selector_matches'] = lambda it2, f, a, k: SB(M(it2.force(a[0]).term, it2.force(a[1]).term))
    g = Group(it)
    m.loop_hints.append(g.hint)
    r = it.call(it.func(S + 'tag_matches'), [g.tag, m.new_list(g.lv)], {})
    matched, best = it.item(r, 0), it.item(r, 1)
    it.prove('matches if any of them does', zb(matched) == (g.cnt > 0))
    best = it.force(best)
    if best is None: it.prove('None if none does', g.cnt == 0)
    else:
        ok = isinstance(best, tuple) and len(best) == 3
        it.oblige('a specificity of three parts', lambda: ok or repr(best))
        if not ok: return
        b = [zi(x) for x in best]
        j = z3.Int('j!')
        it.prove('that of one that matches', z3.Exists([j], z3.And(0 <= j, j < g.n, g.match(j), *[x == y for x, y in zip(g.spec(j), b)])))
        it.prove('none that matches has a greater one', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < g.n, g.match(j)), lex_le(g.spec(j), b))))


def pair(it):
    C = it.func(S + 'Specificity')
    a, b = [tuple(sint(it, n + str(k)) for k in range(3)) for n in 'ab']
    za, zb_ = [zi(x) for x in a], [zi(x) for x in b]
    for x in za + zb_: it.m.assume(x >= 0)
    return it.call(C, [a], {}), it.call(C, [b], {}), za, zb_


OPS = {'<': (ast.Lt, lambda a, b: lex_lt(a, b)), '<=': (ast.LtE, lambda a, b: lex_le(a, b)), '>': (ast.Gt, lambda a, b: lex_lt(b, a)), '>=': (ast.GtE, lambda a, b: lex_le(b, a)),
       '==': (ast.Eq, lambda a, b: z3.And([x == y for x, y in zip(a, b)])), '!=': (ast.NotEq, lambda a, b: z3.Not(z3.And([x == y for x, y in zip(a, b)])))}


def op(name):
    def run(it):
        x, y, a, b = pair(it)
        o, want = OPS[name]
        got = it.truth(it.compare(o(), x, y))
        it.prove('agrees with the lexicographic order', zb(got) == want(a, b))
    return run


for _n in OPS: contract('C04', 'Specificity %s' % _n, modules=MODS)(op(_n))
