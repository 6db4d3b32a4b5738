"""Operations on sequence values (LV)."""
import z3
from .values import *
from .machine import Unsupported, PyExc, ReadCarried, Infeasible


def I(n): return z3.IntVal(n) if isinstance(n, int) else n


def simp(e): return z3.simplify(e)


class SeqOps:
    """Mixin of Interp: needs self.m"""

    # --- building --------------------------------------------------------
    def lv(self, items): return LV([It(x) for x in items])

    def sym_list(self, n, fn, name='i'):
        """LV of fn(0), ..., fn(n-1) for a symbolic n >= 0."""
        v = z3.Int(self.m.fname(name))
        return LV([Sg(I(0), I(n), v, fn(v))])

    def nparts(self, lv):
        """Drop parts known to be empty, merge adjacent ranges of the same function."""
        m = self.m
        out = []
        for p in lv.parts:
            if isinstance(p, It):
                if z3.is_false(p.guard): continue
            elif isinstance(p, Sg):
                if simp(p.hi - p.lo).eq(I(0)): continue
                d = simp(p.hi - p.lo)
                if z3.is_int_value(d) and d.as_long() <= 0: continue
            out.append(p)
        return LV(out)

    # --- filters ---------------------------------------------------------
    def filt(self, lo, hi, var, guard):
        """(cnt, sel, rank) of the indices in lo..hi-1 satisfying guard; canonical per filter."""
        m = self.m
        iv = list(m.index_vars)
        fc = {}
        for e in (lo, hi, guard): free_consts(e, fc)
        deps = [v for v in iv if v.decl().name() in fc and not v.eq(var)]
        # a canonical bound variable
        b = z3.Int('b!')
        gb = simp(z3.substitute(guard, (var, b)))
        canon = [z3.Int('d!%d' % k) if v.sort() == INT else z3.Const('d!%d' % k, v.sort()) for k, v in enumerate(deps)]
        pr = list(zip(deps, canon))
        key = (simp(z3.substitute(lo, *pr)) if pr else simp(lo), simp(z3.substitute(hi, *pr)) if pr else simp(hi), simp(z3.substitute(gb, *pr)) if pr else gb)
        for k, f in m.filters:
            if len(k) == 3 and all(x.eq(y) for x, y in zip(k, key)): return f(deps)
        # semantically equal to an existing one?
        for k, f in m.filters:
            if f.ndeps == len(deps) == 0 and k[0].eq(key[0]) and k[1].eq(key[1]):
                if m._check([b >= lo, b < hi, k[2] != key[2]], m.FEAS_MS) == 'unsat': return f(deps)
        n = len(m.filters)
        ds = [v.sort() for v in deps]
        cntf = z3.Function('cnt!%d' % n, *(ds + [INT])) if ds else None
        cntc = z3.Int('cnt!%d' % n)
        self_ = z3.Function('sel!%d' % n, *(ds + [INT, INT]))
        rankf = z3.Function('rank!%d' % n, *(ds + [INT, INT]))
        q = [z3.Const('q!%d' % k, s) for k, s in enumerate(ds)]
        pq = list(zip(deps, q))
        lo_, hi_, g_ = [z3.substitute(e, *pq) if pq else e for e in (lo, hi, gb)]
        cnt_ = cntf(*q) if q else cntc
        S = lambda k: self_(*(q + [k]))
        K = lambda k: rankf(*(q + [k]))
        G = lambda x: z3.substitute(g_, (b, x))
        i, j = z3.Ints('fi! fj!')
        def all_(vs, body, pats=None):
            vs = q + vs
            if not vs: return body
            return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
        def mp(*ts): return [z3.MultiPattern(*ts) if len(ts) > 1 else ts[0]]
        ax = [
            all_([], z3.And(cnt_ >= 0, z3.Implies(lo_ <= hi_, z3.And(cnt_ <= hi_ - lo_, K(lo_) == 0, K(hi_) == cnt_)), z3.Implies(lo_ > hi_, cnt_ == 0)), mp(cnt_) if q else None),
            all_([i], z3.Implies(z3.And(i >= 0, i < cnt_), z3.And(S(i) >= lo_, S(i) < hi_, G(S(i)), K(S(i)) == i)), mp(S(i))),
            all_([i], z3.Implies(z3.And(lo_ <= i, i < hi_), z3.And(K(i) >= 0, K(i) <= cnt_, K(i) <= i - lo_,
                 K(i + 1) == K(i) + z3.If(G(i), 1, 0), z3.Implies(G(i), z3.And(K(i) < cnt_, S(K(i)) == i)))), mp(K(i))),
            all_([i, j], z3.Implies(z3.And(lo_ <= i, i <= j, j <= hi_), K(i) <= K(j)), mp(K(i), K(j))),
            all_([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt_), S(i) < S(j)), mp(S(i), S(j))),
        ]
        for x, a in enumerate(ax): m.axiom(('filter', n, x), a)
        # every index satisfying the guard has a rank: trigger on the guard's own terms
        pats = guard_patterns(g_, b)
        for x, p in enumerate(pats):
            m.axiom(('filter', n, 'g', x), z3.ForAll(q + [b], z3.Implies(z3.And(lo_ <= b, b < hi_, g_), z3.And(K(b) >= 0, K(b) < cnt_, S(K(b)) == b)), patterns=[p]) if not q or all(v.decl().name() in free_consts(p) for v in q) else TRUE)

        class F:
            ndeps = len(deps)
            def __call__(self, d):
                d = list(d)
                return (cntf(*d) if d else cntc, lambda k: self_(*(d + [I(k)])), lambda k: rankf(*(d + [I(k)])))
        f = F()
        m.filters.append((key, f))
        return f(deps)

    def unguard(self, p):
        """A range without a guard, equal to p."""
        if z3.is_true(p.guard) or p.flat: return p
        cnt, sel, rank = self.filt(p.lo, p.hi, p.var, p.guard)
        v = z3.Int(self.m.fname('k'))
        return Sg(I(0), cnt, v, subst(p.elem, [(p.var, sel(v))]))

    # --- lengths and access ----------------------------------------------
    def part_len(self, p):
        if isinstance(p, It):
            return I(1) if z3.is_true(p.guard) else z3.If(p.guard, 1, 0)
        if isinstance(p, Sg):
            if p.flat: raise Unsupported('length of a flattened sequence')
            if not z3.is_true(p.guard):
                return self.filt(p.lo, p.hi, p.var, p.guard)[0]
            return simp(p.hi - p.lo)
        if isinstance(p, PreL): raise ReadCarried(p.id)
        if isinstance(p, ZS): return z3.Length(p.e)
        raise Unsupported('length')

    def lv_len(self, lv):
        return simp(z3.Sum([self.part_len(p) for p in lv.parts])) if lv.parts else I(0)

    def part_get(self, p, k):
        if isinstance(p, It): return p.val
        if isinstance(p, Sg):
            if p.flat: raise Unsupported('index into a flattened sequence')
            p = self.unguard(p)
            return subst(p.elem, [(p.var, simp(p.lo + k))])
        if isinstance(p, ZS): return mkStr(p.e[k])
        if isinstance(p, PreL): raise ReadCarried(p.id)
        raise Unsupported('index')

    def lv_get(self, lv, k):
        """Element at 0 <= k < len (already known)."""
        m = self.m
        k = I(k)
        off = I(0)
        for n, p in enumerate(lv.parts):
            ln = self.part_len(p)
            if n == len(lv.parts) - 1 or m.choose(simp(k < off + ln)):
                return self.part_get(p, simp(k - off))
            off = simp(off + ln)
        raise Unsupported('index')

    def norm_index(self, lv, k, what='list index out of range'):
        m = self.m
        k = zi(k)
        n = self.lv_len(lv)
        if m.choose(simp(k < 0)):
            k = simp(n + k)
            if m.choose(simp(k < 0)): self.raise_('IndexError', what)
        elif not m.choose(simp(k < n)): self.raise_('IndexError', what)
        return k

    def lv_index(self, lv, k):
        # a concrete index into leading/trailing plain items needs no decisions
        if isinstance(k, int):
            ps = lv.parts
            if k >= 0 and len(ps) > k and all(isinstance(p, It) and z3.is_true(p.guard) for p in ps[:k + 1]): return ps[k].val
            if k < 0 and len(ps) >= -k and all(isinstance(p, It) and z3.is_true(p.guard) for p in ps[k:]): return ps[k].val
        k2 = self.norm_index(lv, k)
        return self.lv_get(lv, k2)

    def take(self, lv, n):
        """(first n elements, rest); 0 <= n <= len."""
        m = self.m
        n = simp(I(n))
        a = []
        parts = list(lv.parts)
        while parts:
            if n.eq(I(0)): break
            p = parts[0]
            ln = self.part_len(p)
            if m.choose(simp(n >= ln)):
                a.append(p); parts.pop(0); n = simp(n - ln)
                continue
            # 0 <= n < ln
            if m.choose(simp(n <= 0)): break
            if isinstance(p, It): break
            if isinstance(p, ZS):
                a.append(ZS(z3.SubSeq(p.e, 0, n))); parts[0] = ZS(z3.SubSeq(p.e, n, ln - n)); break
            p = self.unguard(p)
            a.append(Sg(p.lo, simp(p.lo + n), p.var, p.elem))
            parts[0] = Sg(simp(p.lo + n), p.hi, p.var, p.elem)
            break
        return self.nparts(LV(a)), self.nparts(LV(parts))

    def slice_bound(self, lv, b, default):
        m = self.m
        n = self.lv_len(lv)
        if b is None: return default(n)
        b = zi(b)
        if m.choose(simp(b < 0)):
            b = simp(n + b)
            if m.choose(simp(b < 0)): b = I(0)
        elif m.choose(simp(b > n)): b = n
        return b

    def lv_slice(self, lv, lo, hi, step):
        m = self.m
        if step is not None and step != 1:
            if step == -1 and lo is None and hi is None: return self.lv_reverse(lv)
            raise Unsupported('slice step')
        a = self.slice_bound(lv, lo, lambda n: I(0))
        b = self.slice_bound(lv, hi, lambda n: n)
        if not m.choose(simp(a < b)): return LV(())
        rest = lv
        if hi is not None: rest, _ = self.take(lv, b)
        if lo is not None: _, rest = self.take(rest, a)
        return rest

    def lv_reverse(self, lv):
        out = []
        for p in reversed(lv.parts):
            if isinstance(p, It): out.append(p)
            elif isinstance(p, Sg):
                v = z3.Int(self.m.fname('r'))
                idx = simp(p.lo + p.hi - 1 - v)
                e = subst(p.elem, [(p.var, idx)])
                if p.flat: e = self.lv_reverse(e)
                out.append(Sg(p.lo, p.hi, v, e, simp(z3.substitute(p.guard, (p.var, idx))), p.flat))
            elif isinstance(p, PreL): raise ReadCarried(p.id)
            else: raise Unsupported('reverse')
        return LV(out)

    # --- search ----------------------------------------------------------
    def first_such(self, lo, hi, cond, name='k0'):
        """Decide whether some index in lo..hi-1 satisfies cond(i); returns the first one or None."""
        m = self.m
        lo, hi = I(lo), (I(hi) if hi is not None else None)
        ex = m.fresh('some', BOOL)
        k0 = m.fresh(name, INT)
        j = z3.Int(m.fname('j'))
        rng = lambda x: z3.And(x >= lo, x < hi) if hi is not None else x >= lo
        m.assume(z3.Implies(ex, z3.And(rng(k0), cond(k0))))
        body = z3.Implies(z3.And(j >= lo, j < k0), z3.Not(cond(j)))
        m.assume(z3.Implies(ex, z3.ForAll([j], body)))
        if hi is not None:
            m.assume(z3.Implies(z3.Not(ex), z3.ForAll([j], z3.Implies(rng(j), z3.Not(cond(j))))))
        else:
            m.assume(ex)
        return k0 if m.choose(ex) else None

    def eq_cond(self, a, b):
        """z3 condition for a == b in Python's sense, without deciding anything (or Unsupported)."""
        r = self.summ(lambda: self.py_eq(a, b))
        return zb(r)

    def lv_find(self, lv, cond):
        """Index of the first element with cond(value) (a z3 formula builder) or None."""
        m = self.m
        off = I(0)
        for p in lv.parts:
            if isinstance(p, It):
                if m.choose(p.guard) and m.choose(simp(cond(p.val))): return off, p.val
            elif isinstance(p, Sg):
                p = self.unguard(p)
                k = self.first_such(p.lo, p.hi, self.pointwise(p, cond))
                if k is not None: return simp(off + k - p.lo), subst(p.elem, [(p.var, k)])
            elif isinstance(p, PreL): raise ReadCarried(p.id)
            else: raise Unsupported('search')
            off = simp(off + self.part_len(p))
        return None

    def pointwise(self, p, cond):
        """i -> cond(elem[i]) as a formula, computed once with a symbolic index."""
        m = self.m
        i = z3.Int(m.fname('i'))
        m.index_vars.append(i)
        try:
            c = cond(subst(p.elem, [(p.var, i)]))
        finally: m.index_vars.pop()
        return lambda k: z3.substitute(c, (i, k))

    def lv_contains(self, lv, x):
        alts = []
        for p in lv.parts:
            if isinstance(p, It): alts.append(z3.And(p.guard, self.eq_cond(p.val, x)))
            elif isinstance(p, Sg):
                if p.flat: raise Unsupported('in')
                c = self.pointwise(p, lambda e: self.eq_cond(e, x))
                j = z3.Int(self.m.fname('j'))
                alts.append(z3.Exists([j], z3.And(j >= p.lo, j < p.hi, z3.substitute(p.guard, (p.var, j)), c(j))))
            elif isinstance(p, PreL): raise ReadCarried(p.id)
            else: raise Unsupported('in')
        return mkB(z3.Or(alts)) if alts else False

    # --- proving equality --------------------------------------------------
    def eq_lv(self, a, b):
        """True if provably equal sequences, else a reason.  Decides nothing on the outer path."""
        m = self.m
        A, B = list(self.nparts(a).parts), list(self.nparts(b).parts)
        steps = 0
        while A or B:
            steps += 1
            if steps > 200: return 'too many parts'
            if not A or not B:
                rest = A or B
                for p in rest:
                    if isinstance(p, Sg) and p.flat:
                        r = self.all_empty(p)
                        if r is not True: return r
                        continue
                    if not m.valid(self.part_len(p) <= 0): return 'one sequence is longer: %r' % (p,)
                return True
            p, q = A[0], B[0]
            # equal as a whole?
            if type(p) is type(q) and (same(LV([p]), LV([q]))):
                A.pop(0); B.pop(0); continue
            if isinstance(p, Sg) and isinstance(q, Sg) and p.flat == q.flat and m.quick_valid(z3.And(p.lo == q.lo, p.hi == q.hi)):
                r = self.eq_seg(p, q)
                if r is True:
                    A.pop(0); B.pop(0); continue
                if p.flat: return r
            if isinstance(p, Sg) and isinstance(q, Sg) and not p.flat and not q.flat and z3.is_true(p.guard) and z3.is_true(q.guard) and m.quick_valid(p.hi - p.lo == q.hi - q.lo):
                r = self.eq_seg(p, q)
                if r is True:
                    A.pop(0); B.pop(0); continue
                return r
            if isinstance(p, It) and isinstance(q, It):
                if not m.valid(p.guard == q.guard): return 'presence differs: %s / %s' % (p.guard, q.guard)
                r = self.under(p.guard, lambda: self.eq_val(p.val, q.val))
                if r is not True: return r
                A.pop(0); B.pop(0); continue
            if isinstance(p, ZS) and isinstance(q, ZS):
                if m.valid(p.e == q.e): A.pop(0); B.pop(0); continue
                return 'sequences differ'
            if (isinstance(p, Sg) and p.flat) or (isinstance(q, Sg) and q.flat): return 'flattened sequences differ: %r / %r' % (p, q)
            # align: make both unguarded, split the longer one
            if isinstance(p, Sg) and not z3.is_true(p.guard): A[0] = p = self.unguard(p)
            if isinstance(q, Sg) and not z3.is_true(q.guard): B[0] = q = self.unguard(q)
            lp, lq = self.part_len(p), self.part_len(q)
            if m.quick_valid(lp <= 0): A.pop(0); continue
            if m.quick_valid(lq <= 0): B.pop(0); continue
            if isinstance(p, It) and not z3.is_true(p.guard) or isinstance(q, It) and not z3.is_true(q.guard): return 'presence'
            if m.quick_valid(lp == lq):
                r = self.eq_parts(p, q)
                if r is not True: return r
                A.pop(0); B.pop(0); continue
            if m.quick_valid(lp > lq):
                h, t = self.split_part(p, lq)
                A[0:1] = [h, t]; continue
            if m.quick_valid(lq > lp):
                h, t = self.split_part(q, lp)
                B[0:1] = [h, t]; continue
            # undetermined: split the outer path
            if m.trail is not None:
                if m.choose(simp(lp > lq)): continue
                if m.choose(simp(lp < lq)): continue
                continue
            return 'lengths are not comparable: %s / %s' % (lp, lq)
        return True

    def split_part(self, p, n):
        return Sg(p.lo, simp(p.lo + n), p.var, p.elem), Sg(simp(p.lo + n), p.hi, p.var, p.elem)

    def eq_parts(self, p, q):
        """Both of the same length."""
        if isinstance(p, It) and isinstance(q, It): return self.eq_val(p.val, q.val)
        if isinstance(p, It): return self.eq_val(p.val, subst(q.elem, [(q.var, q.lo)]))
        if isinstance(q, It): return self.eq_val(subst(p.elem, [(p.var, p.lo)]), q.val)
        return self.eq_seg(p, q)

    def eq_seg(self, p, q):
        m = self.m
        i = z3.Int(m.fname('i'))
        g1 = z3.substitute(p.guard, (p.var, i))
        shift = simp(i - p.lo + q.lo)
        g2 = z3.substitute(q.guard, (q.var, shift))
        m.index_vars.append(i)
        n0 = len(m.pc)
        try:
            m.assume(z3.And(i >= p.lo, i < p.hi), 'ctx')
            if not m.valid(g1 == g2): return 'filters differ: %s / %s' % (g1, g2)
            m.assume(g1, 'ctx')
            e1, e2 = subst(p.elem, [(p.var, i)]), subst(q.elem, [(q.var, shift)])
            return self.isolated(lambda: self.eq_lv(e1, e2) if p.flat else self.eq_val(e1, e2))
        except Infeasible:
            return True
        finally:
            m.index_vars.pop()
            del m.pc[n0:]

    def all_empty(self, p):
        return 'a flattened sequence remains: %r' % (p,)

    def under(self, g, fn):
        m = self.m
        if z3.is_true(g): return fn()
        n0 = len(m.pc)
        try:
            m.assume(g, 'ctx')
            return self.isolated(fn)
        except Infeasible: return True
        finally: del m.pc[n0:]

    def isolated(self, fn):
        """fn() on all paths; True if all True, else the first reason."""
        for p in self.m.explore(fn):
            if p.kind != 'val': return 'unexpected %s: %r' % (p.kind, p.val)
            if p.val is not True: return str(p.val) + (' when ' + str(p.cond)[:500] if p.dec else '')
        return True


def guard_patterns(g, b):
    """Terms of the guard containing exactly the bound variable, usable as triggers."""
    out = []
    seen = set()
    def go(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return
        for c in e.children(): go(c)
        if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(b) for a in e.children()):
            out.append(e)
    go(g)
    return out[:2]


def _rev_segs(self, segs):
    return list(self.lv_reverse(LV(segs)).parts)
SeqOps.lv_reverse_segs = _rev_segs


def _sum_term(self, lo, hi, var, e):
    """sum of e for var in lo..hi-1, canonical per summand"""
    m = self.m
    b = z3.Int('b!')
    iv = [v for v in m.index_vars if v.decl().name() in free_consts(e) and not v.eq(var)]
    canon = [z3.Const('d!%d' % k, v.sort()) for k, v in enumerate(iv)]
    key = simp(z3.substitute(e, (var, b), *zip(iv, canon)))
    for k, f in m.__dict__.setdefault('sums', []):
        if k.eq(key): return f(iv, lo, hi)
    n = len(m.sums)
    S = z3.Function('psum!%d' % n, *([v.sort() for v in iv] + [INT, INT]))
    q = [z3.Const('q!%d' % k, v.sort()) for k, v in enumerate(iv)]
    at = lambda x: z3.substitute(e, (var, x), *zip(iv, q))
    j = z3.Int('j!')
    m.axiom(('sum', n), z3.ForAll(q + [j], S(*(q + [j + 1])) == S(*(q + [j])) + at(j), patterns=[S(*(q + [j + 1]))]))
    def f(d, lo, hi): return simp(S(*(list(d) + [I(hi)])) - S(*(list(d) + [I(lo)])))
    m.sums.append((key, f))
    return z3.If(I(hi) > I(lo), f(iv, lo, hi), 0)
SeqOps.sum_term = _sum_term
