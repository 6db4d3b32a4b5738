"""Loops: unrolled over known items, summarised over symbolic ranges.

The body of a loop over lo..hi-1 is executed once, for an arbitrary index i, from a state in
which everything an iteration may change is unknown.  What the iteration does to each
location (append, prepend, count, keep the last value, update a dictionary, shorten a list)
gives its value at the start of iteration k; the step from k to k+1 is checked.  Early exits
split the path on the first index that takes one.
"""
import ast
import z3
from .values import *
from .values import _samep
from .machine import *
from .seqs import I, simp


class WhileDone(Exception): pass


class NoModel(Exception): pass


class LoopOps:

    # --- locations ---------------------------------------------------------
    def loc_get(self, loc, snap=None):
        heap = snap[0] if snap else self.m.heap
        if loc[0] == 'l':
            if snap:
                for f, l in snap[1]:
                    if f is loc[1]: return l.get(loc[2], UNSET)
                return UNSET
            return loc[1].locals.get(loc[2], UNSET)
        if loc[0] == 'h': return heap.get(loc[1])
        if loc[0] == 'f': return heap[loc[1]].fields.get(loc[2], UNSET)
        if loc[0] == 'sf': return heap.get(loc, ())

    def loc_put(self, loc, v):
        m = self.m
        if loc[0] == 'l':
            if v is UNSET: loc[1].locals.pop(loc[2], None)
            else: loc[1].locals[loc[2]] = v
        elif loc[0] == 'h': m.heap[loc[1]] = v
        elif loc[0] == 'f':
            c = m.heap[loc[1]]
            f = dict(c.fields)
            if v is UNSET: f.pop(loc[2], None)
            else: f[loc[2]] = v
            m.heap[loc[1]] = OCell(c.cls, f) if isinstance(c, OCell) else DCell(c.layers, c.cls, f)
        elif loc[0] == 'sf': m.heap[loc] = v

    def diff(self, a, b):
        """Locations existing in snapshot a whose value differs in b."""
        out = []
        for k, v in a[0].items():
            w = b[0].get(k)
            if w is v or (not isinstance(v, tuple) and same(v, w)): continue
            if isinstance(k, tuple):
                if len(v) == len(w or ()) and all(x[0].eq(y[0]) and same(x[1], y[1]) for x, y in zip(v, w)): continue
                out.append(k); continue
            if isinstance(v, OCell) and isinstance(w, OCell):
                for f in set(v.fields) | set(w.fields):
                    x, y = v.fields.get(f, UNSET), w.fields.get(f, UNSET)
                    if x is UNSET or y is UNSET or not same(x, y): out.append(('f', k, f))
            else: out.append(('h', k))
        for k in b[0]:
            if isinstance(k, tuple) and k not in a[0] and k[0] in ('sf', 'cls'): out.append(k)
        for f, l in a[1]:
            l2 = next((y for g, y in b[1] if g is f), None)
            if l2 is None: continue
            for n in set(l) | set(l2):
                x, y = l.get(n, UNSET), l2.get(n, UNSET)
                if x is UNSET or y is UNSET:
                    if x is not y: out.append(('l', f, n))
                elif not same(x, y): out.append(('l', f, n))
        return out

    # --- for / while ---------------------------------------------------------
    def run_for(self, lv, step, node=None):
        m = self.m
        for p in lv.parts:
            if isinstance(p, It):
                if m.choose(p.guard):
                    try: step(p.val)
                    except ContinueX: pass
            elif isinstance(p, Sg):
                def guard(k, p=p): return z3.substitute(p.guard, (p.var, k))
                if p.flat:
                    def body(k, p=p): self.run_for(subst(p.elem, [(p.var, k)]), step)
                else:
                    def body(k, p=p): step(subst(p.elem, [(p.var, k)]))
                self.summarize(p.lo, p.hi, guard, body, node)
            elif isinstance(p, PreL): raise ReadCarried(p.id)
            else: raise Unsupported('loop over an abstract list')

    def run_while(self, cond, body, node=None):
        m = self.m
        # concrete loops are simply executed
        for n in range(64):
            rs = m.explore(cond)
            if len(rs) == 1 and rs[0].kind == 'val' and not rs[0].dec and rs[0].val in (True, False):
                if not cond(): return
                try: body()
                except ContinueX: pass
                continue
            break
        else: raise Unsupported('loop bound')
        def step(k):
            if not cond(): raise WhileDone()
            try: body()
            except ContinueX: pass
        try: self.summarize(I(0), None, lambda k: TRUE, step, node)
        except WhileDone: return

    # --- maps (comprehensions) -----------------------------------------------
    def lv_map(self, src, each):
        m = self.m
        out = []
        for p in src.parts:
            if isinstance(p, It):
                if not m.choose(p.guard): continue
                r = each(p.val)
                if r is None: continue
                if r[0] == 'one': out.append(It(r[1]))
                else: out.extend(r[1].parts)
            elif isinstance(p, Sg):
                out.extend(self.map_range(p, each))
            elif isinstance(p, PreL): raise ReadCarried(p.id)
            else: raise Unsupported('comprehension over an abstract list')
        return LV(out)

    def map_range(self, p, each):
        m = self.m
        if p.flat:
            inner = each
            each = lambda lv: ('many', self.lv_map(lv, inner))
        if not m.feasible(simp(z3.And(p.lo < p.hi))): return []
        i = z3.Int(m.fname('i'))
        h0 = dict(m.heap)
        paths = self.at_index(i, p.lo, p.hi, z3.substitute(p.guard, (p.var, i)), lambda: each(subst(p.elem, [(p.var, i)])))
        for q in paths:
            for k, v in h0.items():
                w = q.snap[0].get(k)
                if w is not v and not same(v, w): raise Unsupported('effects in a comprehension over a range')
        g = z3.substitute(p.guard, (p.var, i))
        bad = [q for q in paths if q.kind != 'val']
        if bad:
            c = z3.Or([q.cond for q in bad])
            k0 = self.first_such(p.lo, p.hi, lambda k: z3.substitute(z3.And(g, c), (i, k)))
            if k0 is not None:
                each(subst(p.elem, [(p.var, k0)]))
                raise Infeasible()
        good = [q for q in paths if q.kind == 'val']
        self.lift_range(i, p.lo, p.hi, g, good)
        return self.collect(good, [(None if q.val is None else self.to_lv(q)) for q in good], i, p.lo, p.hi, g, h0)

    def to_lv(self, q):
        return LV([It(q.val[1])]) if q.val[0] == 'one' else q.val[1]

    def at_index(self, i, lo, hi, guard, thunk):
        """explore thunk for an arbitrary index i"""
        m = self.m
        m.index_vars.append(i)
        n0 = len(m.pc)
        try:
            m.assume(i >= lo, 'ctx')
            if hi is not None: m.assume(i < hi, 'ctx')
            m.assume(guard, 'ctx')
            return m.explore(thunk)
        except Infeasible:
            return []
        finally:
            del m.pc[n0:]
            m.index_vars.remove(i)

    def lift_range(self, i, lo, hi, g, paths):
        m = self.m
        for q in paths:
            if not q.facts: continue
            rng = z3.And(i >= lo, i < hi) if hi is not None else i >= lo
            m.assume(z3.ForAll([i], z3.Implies(z3.And(rng, g, q.cond), z3.And(q.facts))))

    def collect(self, paths, lvs, i, lo, hi, g, h0):
        """Sequence of what the iterations lo..hi-1 contribute: lvs[p] on path p (None or LV)."""
        alts = []
        for q, lv in zip(paths, lvs):
            if lv is None or not lv.parts: continue
            alts.append((q.cond, LV([self.freeze_part(x, q.snap[0], h0) for x in lv.parts])))
        if not alts: return []
        single = all(len(lv.parts) == 1 and isinstance(lv.parts[0], It) for _, lv in alts)
        if single:
            gs = [z3.And(c, lv.parts[0].guard) for c, lv in alts]
            guard = simp(z3.And(g, z3.Or(gs)))
            # a guard covering all paths is no guard
            if not z3.is_true(guard) and self.always(i, lo, hi, g, z3.Or(gs)): guard = simp(g)
            if len(alts) == 1: elem = alts[0][1].parts[0].val
            else: elem = mkCh([(c, lv.parts[0].val) for c, (_, lv) in zip(gs, alts)])
            return [Sg(lo, hi, i, elem, guard)]
        if len(alts) == 1:
            c, lv = alts[0]
            guard = simp(z3.And(g, c))
            if not z3.is_true(guard) and self.always(i, lo, hi, g, c): guard = simp(g)
            return [Sg(lo, hi, i, lv, guard, True)]
        parts = []
        for c, lv in alts:
            for x in lv.parts:
                if isinstance(x, It): parts.append(It(x.val, simp(z3.And(c, x.guard))))
                elif isinstance(x, Sg): parts.append(Sg(x.lo, x.hi, x.var, x.elem, simp(z3.And(c, x.guard)), x.flat))
                else: raise Unsupported('alternatives')
        return [Sg(lo, hi, i, LV(parts), simp(g), True)]

    def always(self, i, lo, hi, g, c):
        m = self.m
        rng = [i >= lo] + ([i < hi] if hi is not None else [])
        return m._check(rng + [g, z3.Not(c)], m.FEAS_MS) == 'unsat'

    # --- summaries -----------------------------------------------------------
    def summarize(self, lo, hi, guard, body, node=None):
        m = self.m
        lo = I(lo)
        if hi is not None:
            hi = I(hi)
            if not m.feasible(simp(lo < hi)): return
        i = z3.Int(m.fname('i'))
        base = m.snapshot()
        L = Loop(self, i, lo, hi, guard, body, base, node)
        L.solve()
        L.finish()

    # --- merging ---------------------------------------------------------------
    def mergeable(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('append', 'extend', 'insert'): continue
            if isinstance(s, ast.If) and self.mergeable(s.body) and not s.orelse: continue
            if isinstance(s, ast.Pass): continue
            return False
        return True

    def try_merge_if(self, t, stmts, fr):
        """if t: <appends> without deciding t: the items are present if t holds."""
        m = self.m
        if not self.mergeable(stmts): return False
        if not m.feasible(t.e) or not m.feasible(z3.Not(t.e)): return False
        base = m.snapshot()
        n0 = len(m.pc)
        try:
            m.assume(t.e, 'ctx')
            rs = m.explore(lambda: self.body(stmts, fr))
        except (Infeasible, Unsupported): return False
        finally: del m.pc[n0:]
        if len(rs) != 1 or rs[0].kind != 'val' or rs[0].dec: return False
        new = {}
        for loc in self.diff(base, rs[0].snap):
            if loc[0] != 'h' or not isinstance(base[0].get(loc[1]), LCell): return False
            old, now = base[0][loc[1]].lv.parts, rs[0].snap[0][loc[1]].lv.parts
            n = len(old)
            if not all(isinstance(x, (It, Sg)) for x in now if not any(x is y for y in old)): return False
            if len(now) >= n and same(LV(now[:n]), LV(old)): mk = now[n:]; at = 'end'
            elif len(now) >= n and same(LV(now[len(now) - n:]), LV(old)): mk = now[:len(now) - n]; at = 'start'
            else: return False
            h0 = base[0]
            gd = []
            for x in mk:
                x = self.freeze_part(x, rs[0].snap[0], h0)
                gd.append(It(x.val, simp(z3.And(t.e, x.guard))) if isinstance(x, It) else Sg(x.lo, x.hi, x.var, x.elem, simp(z3.And(t.e, x.guard)), x.flat))
            new[loc] = LCell(LV(tuple(old) + tuple(gd) if at == 'end' else tuple(gd) + tuple(old)))
        if rs[0].facts: m.assume(z3.Implies(t.e, z3.And(rs[0].facts)))
        for loc, v in new.items(): self.loc_put(loc, v)
        return True


class _Unset:
    def __repr__(self): return 'UNSET'
UNSET = _Unset()


class Loop:
    def __init__(self, it, i, lo, hi, guard, body, base, node):
        self.it, self.m, self.i, self.lo, self.hi, self.guard, self.body, self.base, self.node = it, it.m, i, lo, hi, guard, body, base, node
        self.mods = {}          # loc -> base value
        self.models = {}        # loc -> model of a carried location
        self.paths = []

    def placeholder(self, loc):
        if loc in self.models: return self.models[loc].at(self.i)
        if loc[0] == 'h':
            b = self.mods[loc]
            if isinstance(b, LCell): return LCell(LV([PreL(loc)]))
            if isinstance(b, DCell): return DCell([('pre', loc)], b.cls, b.fields)
            raise Unsupported('loop changes %r' % (b,))
        if loc[0] in ('sf', 'cls'): raise Unsupported('loop changes an attribute of unknown objects')
        return Poison(loc)

    def solve(self):
        it, m = self.it, self.m
        for rnd in range(24):
            start = {}
            def thunk():
                for loc in self.mods: it.loc_put(loc, self.placeholder(loc))
                start['s'] = m.snapshot()
                self.body(self.i)
            try:
                m.index_vars.append(self.i)
                n0 = len(m.pc)
                try:
                    m.assume(self.i >= self.lo, 'ctx')
                    if self.hi is not None: m.assume(self.i < self.hi, 'ctx')
                    m.assume(self.guard(self.i), 'ctx')
                    for mo in self.models.values():
                        for f in mo.ctx(): m.assume(f, 'ctx')
                    self.paths = self.explore(thunk)
                finally:
                    del m.pc[n0:]
                    m.index_vars.remove(self.i)
                    m.restore(self.base)
            except Infeasible:
                self.paths = []
                return
            except ReadCarried as rc:
                if rc.loc not in self.mods: raise
                if rc.loc in self.models: raise Unsupported('loop: a carried value cannot be modelled')
                self.models[rc.loc] = self.new_model(rc.loc)
                continue
            again = False
            for p in self.paths:
                if p.kind not in ('val', 'continue'): continue
                for loc in it.diff(start['s'], p.snap):
                    if loc not in self.mods:
                        self.mods[loc] = it.loc_get(loc, self.base)
                        again = True
            if again: continue
            normal = [p for p in self.paths if p.kind in ('val', 'continue')]
            for loc, mo in list(self.models.items()):
                r = mo.refine(normal)
                if r is not True: again = True
            if not again: return
        raise Unsupported('loop: no summary found')

    def explore(self, thunk):
        def t():
            try: thunk()
            except WhileDone: return WhileDone
        ps = self.m.explore(t)
        for p in ps:
            if p.val is WhileDone: p.kind = 'done'
        return ps

    def new_model(self, loc):
        b = self.mods[loc]
        for h in self.m.loop_hints:
            mo = h(self, loc, b)
            if mo is not None: return mo
        if loc[0] == 'h':
            if isinstance(b, LCell): return SliceModel(self, loc, b)
            raise Unsupported('loop: dictionary read while it is updated')
        b = one_value(b)
        if is_bool(b): return FlagModel(self, loc, b)
        if is_int(b): return SumModel(self, loc, b)
        if is_str(b): return AccModel(self, loc, b)
        if b is None or isinstance(b, (Sym, tuple, Ref)): return PrevModel(self, loc, b)
        raise Unsupported('loop: carried value %r' % (b,))

    # value of a location at the start of iteration k
    def at(self, loc, k):
        it, m = self.it, self.m
        if loc in self.models: return self.models[loc].at(k)
        b = self.mods[loc]
        normal = [p for p in self.paths if p.kind in ('val', 'continue')]
        g = self.guard(self.i)
        h0 = self.base[0]
        if loc[0] == 'h' and isinstance(b, LCell):
            pre, post = [], []
            for p in normal:
                parts = it.loc_get(loc, p.snap).lv.parts
                idx = [n for n, x in enumerate(parts) if isinstance(x, PreL)]
                if len(idx) != 1: raise Unsupported('loop: list is not only extended')
                pre.append(LV(parts[:idx[0]])); post.append(LV(parts[idx[0] + 1:]))
            out = []
            if any(x.parts for x in pre):
                out.extend(it.lv_reverse_segs(it.collect(normal, pre, self.i, self.lo, k, g, h0)))
            out.extend(b.lv.parts)
            out.extend(it.collect(normal, post, self.i, self.lo, k, g, h0))
            return LCell(LV(out))
        if loc[0] == 'h' and isinstance(b, DCell):
            ls = []
            for p in normal:
                c = it.loc_get(loc, p.snap)
                if not (c.layers and c.layers[0][0] == 'pre'): raise Unsupported('loop: dictionary is not only updated')
                for l in c.layers[1:]:
                    if l[0] == 'c' and type(l[1]) is dict: l = ('c', {k2: it.freeze(v, p.snap[0], h0) for k2, v in l[1].items()})
                    ls.append((p.cond, l))
            if not ls: return b
            if len(normal) == 1 or all(simp(c).eq(TRUE) for c, _ in ls): d = DCell([l for _, l in ls])
            else: d = DCell([('x', c, l) for c, l in ls])
            return DCell(b.layers + (('g', Sg(self.lo, k, self.i, Frozen('dict', d), g)),), b.cls, b.fields)
        # the last value written
        ws = []
        for p in normal:
            v = it.loc_get(loc, p.snap)
            if isinstance(v, Poison) and v.loc == loc: continue
            if v is UNSET: raise Unsupported('loop: deleted variable')
            ws.append((p.cond, it.freeze(v, p.snap[0], h0) if not isinstance(v, Lazy) else v))
        if not ws: return b
        if any(isinstance(v, Lazy) for _, v in ws):
            def un(): raise Unsupported('loop: value of a variable of an inner loop')
            return Lazy(un)
        total = len(ws) == len(normal)
        val = ws[0][1] if len(ws) == 1 else mkCh(ws)
        def thunk():
            if total and z3.is_true(simp(g)):
                if m.choose(simp(k > self.lo)): return subst(val, [(self.i, simp(k - 1))])
            else:
                c = simp(z3.And(g, z3.Or([c for c, _ in ws])))
                cnt, sel, rank = it.filt(self.lo, k, self.i, c)
                if m.choose(simp(cnt > 0)): return subst(val, [(self.i, simp(sel(cnt - 1)))])
            if b is UNSET: it.raise_('UnboundLocalError', loc[2])
            return it.force(b)
        return Lazy(thunk)

    def finish(self):
        it, m = self.it, self.m
        if not self.paths and self.hi is None: raise Infeasible()
        normal = [p for p in self.paths if p.kind in ('val', 'continue')]
        exits = [p for p in self.paths if p.kind not in ('val', 'continue')]
        g = self.guard(self.i)
        if exits:
            c = simp(z3.And(g, z3.Or([p.cond for p in exits])))
            k0 = it.first_such(self.lo, self.hi, lambda k: z3.substitute(c, (self.i, k)))
            if k0 is not None:
                for p in exits:
                    if p.facts: m.assume(z3.substitute(z3.Implies(z3.And(p.dec) if p.dec else TRUE, z3.And(p.facts)), (self.i, k0)))
                it.lift_range(self.i, self.lo, k0, g, normal)
                vals = {loc: self.at(loc, k0) for loc in self.mods}
                for loc, v in vals.items(): it.loc_put(loc, v)
                for mo in self.models.values():
                    for f in mo.ctx_at(k0): m.assume(f)
                if self.hi is None:
                    # the iteration before the last did not leave the loop
                    m.assume(z3.Implies(k0 > self.lo, z3.Not(z3.substitute(c, (self.i, k0 - 1)))))
                try: self.body(k0)
                except ContinueX: pass
                raise Infeasible()
        if self.hi is None: raise Infeasible()          # never left: nothing is claimed
        it.lift_range(self.i, self.lo, self.hi, g, normal)
        vals = {loc: self.at(loc, self.hi) for loc in self.mods}
        for loc, v in vals.items(): it.loc_put(loc, v)
        for mo in self.models.values():
            for f in mo.ctx_at(self.hi): m.assume(f)


def one_value(v):
    """alternatives of numbers or booleans as one expression"""
    if not isinstance(v, Ch): return v
    if all(is_bool(x) for _, x in v.alts): z, w = zb, mkB
    elif all(is_int(x) for _, x in v.alts): z, w = zi, mkI
    else: raise Unsupported('loop: carried variable with alternatives')
    e = z(v.alts[-1][1])
    for c, x in v.alts[-2::-1]: e = z3.If(c, z(x), e)
    return w(simp(e))


class Model:
    def __init__(self, L, loc, base): self.L, self.loc, self.base = L, loc, base
    def ctx(self): return self.ctx_at(self.L.i)
    def ctx_at(self, k): return []


def depends(e, consts):
    fc = free_consts(e)
    fn = fun_names(e)
    return any(c in fc or c in fn for c in consts)


def fun_names(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        todo.extend(x.children())
    return out


class SumModel(Model):
    """An integer that every iteration changes by an amount that does not depend on it."""
    def __init__(self, L, loc, base):
        super().__init__(L, loc, base)
        m = L.m
        m.index_vars.append(L.i)
        try: self.ph = m.fresh('pre', INT)
        finally: m.index_vars.remove(L.i)
        self.name = self.ph.decl().name()
        self.form = None
        self.delta = None

    def at(self, k):
        if self.form is None:
            return SI(z3.substitute(self.ph, (self.L.i, k)))
        return mkI(self.form(k))

    def refine(self, normal):
        L, m, it = self.L, self.L.m, self.L.it
        cur = zi(self.at(L.i))
        ds = []
        for p in normal:
            v = it.loc_get(self.loc, p.snap)
            v = one_value(v)
            if not is_int(v): raise Unsupported('loop: %s changes its type' % (self.loc,))
            ds.append((p.cond, simp(zi(v) - cur)))
        if self.delta is not None:
            # inductive step of the closed form
            for p, (c, d) in zip(normal, ds):
                ok = L.it.m
                n0 = len(m.pc)
                m.pc.append(('ctx', z3.And(L.i >= L.lo, L.guard(L.i))))
                if L.hi is not None: m.pc.append(('ctx', L.i < L.hi))
                for k_, e in p.all: m.pc.append((k_, e))
                good = m.valid(cur + d == self.form(simp(L.i + 1)))
                del m.pc[n0:]
                if not good: raise Unsupported('loop: no closed form for %s' % (self.loc[2:],))
            return True
        base = zi(self.base)
        g = simp(L.guard(L.i))
        for c, d in ds:
            if depends(d, {self.name}): raise Unsupported('loop: %s changes by an amount depending on itself' % (self.loc[2:],))
        d0 = ds[0][1] if ds else I(0)
        if all(d.eq(d0) for _, d in ds) and not depends(d0, {L.i.decl().name()}) and z3.is_true(g):
            self.form = lambda k: simp(base + d0 * (k - L.lo))
        else:
            for c, d in ds:
                if depends(c, {self.name}): raise Unsupported('loop: condition depends on the count')
            e = I(0)
            for c, d in ds: e = z3.If(z3.And(g, c), d, e)
            nz = [(c, d) for c, d in ds if not d.eq(I(0))]
            if nz and all(d.eq(nz[0][1]) for _, d in nz) and not depends(nz[0][1], {L.i.decl().name()}):
                cc = simp(z3.And(g, z3.Or([c for c, _ in nz])))
                hi = L.hi
                if hi is None: raise Unsupported('loop: conditional count in while')
                cnt, sel, rank = it.filt(L.lo, hi, L.i, cc)
                d1 = nz[0][1]
                self.form = lambda k: simp(base + d1 * rank(k))
            else:
                S = m.fresh_fn('sum', INT, INT)
                j = z3.Int(m.fname('j'))
                m.assume(S(L.lo) == 0)
                m.assume(z3.ForAll([j], z3.Implies(j >= L.lo, S(j + 1) == S(j) + z3.substitute(e, (L.i, j))), patterns=[S(j + 1)]))
                self.S, self.step = S, lambda k: z3.substitute(e, (L.i, k))
                self.form = lambda k: base + S(k)
        self.delta = True
        return False


class FlagModel(Model):
    """A boolean; every iteration leaves it or sets it to something independent of it."""
    def __init__(self, L, loc, base):
        super().__init__(L, loc, base)
        m = L.m
        m.index_vars.append(L.i)
        try: self.ph = m.fresh('pre', BOOL)
        finally: m.index_vars.remove(L.i)
        self.name = self.ph.decl().name()
        self.form = None

    def at(self, k):
        if self.form is None: return SB(z3.substitute(self.ph, (self.L.i, k)))
        return mkB(self.form(k))

    def refine(self, normal):
        L, m, it = self.L, self.L.m, self.L.it
        if self.form is not None:
            for p in normal:
                v = one_value(it.loc_get(self.loc, p.snap))
                n0 = len(m.pc)
                m.pc.append(('ctx', z3.And(L.i >= L.lo, L.guard(L.i))))
                if L.hi is not None: m.pc.append(('ctx', L.i < L.hi))
                for x in p.all: m.pc.append(x)
                good = m.valid(zb(v) == self.form(simp(L.i + 1)))
                del m.pc[n0:]
                if not good: raise Unsupported('loop: no closed form for a flag')
            return True
        ws = []
        for p in normal:
            v = one_value(it.loc_get(self.loc, p.snap))
            if not is_bool(v): raise Unsupported('loop: flag changes its type')
            e = zb(v)
            # what is known of the flag on the path
            for d in p.dec:
                if d.eq(self.ph): e = z3.substitute(e, (self.ph, TRUE))
                if d.eq(simp(z3.Not(self.ph))): e = z3.substitute(e, (self.ph, FALSE))
            ws.append((p, simp(e)))
        b = zb(self.base)
        g = simp(L.guard(L.i))
        kept = [(p, e) for p, e in ws if e.eq(self.ph)]
        wr = [(p, e) for p, e in ws if not e.eq(self.ph)]
        if any(depends(e, {self.name}) for _, e in wr): raise Unsupported('loop: flag depends on itself')
        if not wr: raise Unsupported('loop: flag')
        w0 = wr[0][1]
        const = all(e.eq(w0) for _, e in wr) and not depends(w0, {L.i.decl().name()})
        if not kept and z3.is_true(g) and const:
            self.form = lambda k: z3.If(k > L.lo, w0, b)
        elif not kept and z3.is_true(g):
            e = wr[-1][1]
            for p, x in wr[:-1]:
                if depends(p.cond, {self.name}): raise Unsupported('loop: flag')
                e = z3.If(p.cond, x, e)
            self.form = lambda k: z3.If(k > L.lo, z3.substitute(e, (L.i, simp(k - 1))), b)
        elif const:
            # set to a constant on some iterations; conditions on the flag itself are dropped when it only
            # guards setting it again
            cs = []
            for p, _ in wr:
                c = [d for d in p.dec if not d.eq(self.ph) and not d.eq(simp(z3.Not(self.ph)))]
                if any(depends(d, {self.name}) for d in c): raise Unsupported('loop: flag')
                cs.append(z3.And(c) if c else TRUE)
            if L.hi is None: raise Unsupported('loop: flag in while')
            cc = simp(z3.And(g, z3.Or(cs)))
            cnt, sel, rank = it.filt(L.lo, L.hi, L.i, cc)
            self.form = lambda k: z3.If(rank(k) > 0, w0, b)
        else: raise Unsupported('loop: flag')
        return False


class PrevModel(Model):
    """A variable that every iteration sets to a value independent of it: at k it has the value of k-1."""
    def __init__(self, L, loc, base):
        super().__init__(L, loc, base)
        self.form = None
        raise Unsupported('loop: carried variable %s' % (loc[2] if loc[0] == 'l' else loc,))


class AccModel(Model):
    """A text to which every iteration appends something that does not depend on it."""
    def __init__(self, L, loc, base):
        super().__init__(L, loc, base)
        m = L.m
        m.index_vars.append(L.i)
        try: self.ph = m.fresh('text', STR)
        finally: m.index_vars.remove(L.i)
        self.name = self.ph.decl().name()
        self.added = self.current = None

    def at(self, k):
        L, it = self.L, self.L.it
        if self.added is None: return mkR([z3.substitute(self.ph, (L.i, k))])
        if k.eq(L.i) and self.current is not None: return self.current
        parts = it.collect(*self.added, L.i, L.lo, k, L.guard(L.i), L.base[0])
        r = mkR([*rparts(self.base), *rparts(it.s_join('', LV(parts)))])
        if k.eq(L.i): self.current = r
        return r

    def refine(self, normal):
        L, it = self.L, self.L.it
        old = rparts(self.at(L.i))
        lvs = []
        for p in normal:
            v = it.loc_get(self.loc, p.snap)
            if not is_str(v): raise Unsupported('loop: text %s has alternatives' % (self.loc[2:],))
            new, n = rparts(v), len(old)
            if old and isinstance(old[-1], str):              # what is appended may have become one with the last part
                if len(new) < n or not isinstance(new[n - 1], str) or not new[n - 1].startswith(old[-1]): raise Unsupported('loop: carried text %s' % (self.loc[2:],))
                rest = [new[n - 1][len(old[-1]):], *new[n:]]; n -= 1
            else: rest = list(new[n:])
            if not all(_samep(x, y) for x, y in zip(old[:n], new[:n])) or len(new) < n: raise Unsupported('loop: carried text %s' % (self.loc[2:],))
            rest = mkR(rest)
            lvs.append(LV([It(rest)]) if rest != '' else None)
            if self.added is None and (depends(p.cond, {self.name}) or self.uses(rest)): raise Unsupported('loop: carried text %s is looked at' % (self.loc[2:],))
        if self.added is None:
            self.added = (list(normal), lvs)
            return False
        # the step: the second time round the same is added
        ps, before = self.added
        if len(ps) != len(normal) or not all(p.cond.eq(q.cond) and (a is None) == (b is None) and (a is None or same(a, b)) for p, q, a, b in zip(ps, normal, before, lvs)):
            raise Unsupported('loop: what is added to a text depends on it')
        self.added = (list(normal), lvs)
        return True

    def uses(self, v):
        if isinstance(v, str): return False
        for p in rparts(v):
            if isinstance(p, str): continue
            if self.name in repr(p): return True
        return False


class SliceModel(Model):
    """A list that loses a constant number of elements at either end."""
    def __init__(self, L, loc, base):
        super().__init__(L, loc, base)
        m, it = L.m, L.it
        lv = it.nparts(base.lv)
        if len(lv.parts) != 1 or not isinstance(lv.parts[0], Sg) or lv.parts[0].flat: raise Unsupported('loop: list read while it is changed')
        self.p = it.unguard(lv.parts[0])
        m.index_vars.append(L.i)
        try: self.a, self.b = m.fresh('a', INT), m.fresh('b', INT)
        finally: m.index_vars.remove(L.i)
        self.form = None

    def bounds(self, k):
        if self.form is None: return [z3.substitute(x, (self.L.i, k)) for x in (self.a, self.b)]
        return self.form(k)

    def at(self, k):
        a, b = self.bounds(k)
        return LCell(LV([Sg(simp(a), simp(b), self.p.var, self.p.elem)]))

    def ctx_at(self, k):
        a, b = self.bounds(k)
        return [z3.And(self.p.lo <= a, a <= b, b <= self.p.hi)]

    def refine(self, normal):
        L, m, it = self.L, self.L.m, self.L.it
        a, b = self.bounds(L.i)
        ds, emptied = None, []
        for p in normal:
            parts = it.loc_get(self.loc, p.snap).lv.parts
            if len(parts) == 0:
                emptied.append(p)          # which bound moved follows from the other paths
                continue
            if len(parts) != 1 or not isinstance(parts[0], Sg) or not same(subst(parts[0].elem, [(parts[0].var, self.p.var)]), self.p.elem):
                raise Unsupported('loop: list is changed otherwise than at its ends')
            d = (simp(parts[0].lo - a), simp(parts[0].hi - b))
            if ds is None: ds = d
            elif not (ds[0].eq(d[0]) and ds[1].eq(d[1])): raise Unsupported('loop: list is changed irregularly')
        if ds is None: raise Unsupported('loop: list emptied')
        for p in emptied:
            n0 = len(m.pc)
            m.pc.append(('ctx', z3.And(L.i >= L.lo, L.guard(L.i))))
            if L.hi is not None: m.pc.append(('ctx', L.i < L.hi))
            for mo in L.models.values():
                for f in mo.ctx(): m.pc.append(('ctx', f))
            for x in p.all: m.pc.append(x)
            try: ok = m.valid(a + ds[0] == b + ds[1])
            finally: del m.pc[n0:]
            if not ok: raise Unsupported('loop: list emptied')
        if self.form is not None: return True
        if ds is None or not all(z3.is_int_value(x) for x in ds): raise Unsupported('loop: list is changed irregularly')
        lo, hi = self.p.lo, self.p.hi
        self.form = lambda k: (simp(lo + ds[0] * (k - L.lo)), simp(hi + ds[1] * (k - L.lo)))
        return False


class InvModel(Model):
    """A value described by an invariant: shape(k) is an arbitrary value of it at the start of iteration k,
    inv(k, v) says that v is a possible one.  Established by the value before the loop and preserved by
    every iteration (checked), or the loop is not understood."""
    def __init__(self, L, loc, base, shape, inv, fact=None):
        super().__init__(L, loc, base)
        # fact(k): inv(k, shape(k)) with witnesses for its existential parts
        self.shape, self.inv, self.checked, self.fact = shape, inv, False, fact or (lambda k: inv(k, shape(k)))

    def at(self, k): return self.shape(k)
    def ctx_at(self, k): return [self.fact(k)]

    def refine(self, normal):
        L, m, it = self.L, self.L.m, self.L.it
        if not self.checked:
            n0 = len(m.pc)
            if L.hi is not None: m.pc.append(('ctx', L.lo <= L.hi))
            ok = m.valid(self.inv(L.lo, self.base))
            del m.pc[n0:]
            if not ok: raise Unsupported('loop: the invariant does not hold before the loop')
            self.checked = True
        g = L.guard(L.i)
        for p in normal:
            v = it.loc_get(self.loc, p.snap)
            n0 = len(m.pc)
            m.pc.append(('ctx', z3.And(L.i >= L.lo, g)))
            if L.hi is not None: m.pc.append(('ctx', L.i < L.hi))
            for mo in L.models.values():
                for f in mo.ctx(): m.pc.append(('ctx', f))
            for x in p.all: m.pc.append(x)
            try: ok = m.valid(self.inv(simp(L.i + 1), v))
            finally: del m.pc[n0:]
            if not ok: raise Unsupported('loop: the invariant is not preserved: %s is %r' % (self.loc[2:], v))
        if not z3.is_true(simp(g)):
            n0 = len(m.pc)
            m.pc.append(('ctx', z3.And(L.i >= L.lo, L.i < L.hi, z3.Not(g))))
            v = self.shape(L.i)
            m.pc.append(('ctx', self.fact(L.i)))
            ok = m.valid(self.inv(simp(L.i + 1), v))
            del m.pc[n0:]
            if not ok: raise Unsupported('loop: the invariant is not preserved')
        return True
