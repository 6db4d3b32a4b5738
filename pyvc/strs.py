"""String operations on ropes.  External string functions are uninterpreted, with the
assumed contracts (axioms) stated next to each."""
import string as _string
import z3
from .values import *
from .machine import Unsupported, PyExc, ReadCarried, Infeasible
from .seqs import I, simp

def UF(name, *sorts): return z3.Function(name, *sorts)

f_strip = UF('strip', STR, STR)
f_lstrip = UF('lstrip', STR, STR)
f_rstrip = UF('rstrip', STR, STR)
f_stripc = UF('strip_chars', STR, STR, STR)
f_lstripc = UF('lstrip_chars', STR, STR, STR)
f_rstripc = UF('rstrip_chars', STR, STR, STR)
f_upper = UF('upper', STR, STR)
f_lower = UF('lower', STR, STR)
f_istr = UF('str_of_int', INT, STR)
f_sint = UF('int_of_str', STR, INT)
f_isint = UF('is_int_str', STR, BOOL)
f_hex = UF('int_of_hex', STR, INT)
f_ishex = UF('is_hex_str', STR, BOOL)
f_ostr = UF('str_of_obj', Obj, STR)
f_repl = UF('replace_all', STR, STR, STR, STR)
f_splitn = UF('split_n', STR, STR, INT)
f_split = UF('split_at', STR, STR, INT, STR)
f_wordn = UF('words_n', STR, INT)
f_word = UF('word_at', STR, INT, STR)
f_linen = UF('lines_n', STR, BOOL, INT)
f_line = UF('line_at', STR, BOOL, INT, STR)
f_rep = UF('repeat', STR, INT, STR)
f_blank = UF('isblank', STR, BOOL)           # only whitespace (or empty)
f_ws0 = UF('starts_with_space', STR, BOOL)
f_ws1 = UF('ends_with_space', STR, BOOL)
f_noesc = UF('without_escapes', STR, STR)    # escape codes removed
f_subsp = UF('collapse_spaces', STR, STR)    # re.sub('[ \t]+', ' ', s)
f_wcap = UF('isspace_ascii', STR, BOOL)


ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_ANUM)


def is_istr(e): return z3.is_app(e) and e.decl().name() == 'str_of_int'


def leaves(e):
    """the unknowns of an arithmetic term"""
    if z3.is_app(e) and e.decl().kind() in ARITH:
        out = []
        for c in e.children():
            for x in leaves(c):
                if not any(x.eq(y) for y in out): out.append(x)
        return out
    return [] if z3.is_int_value(e) else [e]


def nonlinear(e):
    if not (z3.is_app(e) and e.decl().kind() in ARITH): return False
    if e.decl().kind() == z3.Z3_OP_MUL and sum(1 for c in e.children() if leaves(c)) > 1: return True
    return any(nonlinear(c) for c in e.children())


def forall(vs, body, patterns):
    """z3.ForAll, without the patterns if they cannot be used"""
    try: return z3.ForAll(vs, body, patterns=patterns)
    except z3.Z3Exception: return z3.ForAll(vs, body)


class StrOps:
    # --- conversion --------------------------------------------------------
    def zs(self, v):
        """z3 string of a string value."""
        if isinstance(v, str): return z3str(v)
        if isinstance(v, R):
            es = [self.zpart(p) for p in v.parts]
            return es[0] if len(es) == 1 else z3.Concat(*es)
        raise Unsupported('not a string: %r' % (v,))

    def zpart(self, p):
        m = self.m
        if isinstance(p, str): return z3str(p)
        if isinstance(p, Rep):
            u = self.zs(p.unit)
            e = f_rep(u, simp(p.n))
            self.gax(('rep', e.get_id()), z3.And(z3.Length(e) == z3.If(p.n > 0, p.n, 0) * z3.Length(u),
                     z3.Implies(p.n <= 0, e == z3str('')), z3.Implies(p.n == 1, e == u)), e)
            return e
        if isinstance(p, Join): return self.zjoin(p)
        if isinstance(p, Cond): return z3.If(p.c, self.zs(p.a), self.zs(p.b))
        return p

    def gax(self, key, fact, term):
        """A globally valid fact about a term (assumed contract of an external function)."""
        iv = [v for v in self.m.index_vars if v.decl().name() in free_consts(fact)]
        self.m.keep.append(term)
        if iv:
            try: self.m.axiom(key, z3.ForAll(iv, fact, patterns=[term]) if all(v.decl().name() in free_consts(term) for v in iv) else z3.ForAll(iv, fact))
            except z3.Z3Exception: self.m.axiom(key, z3.ForAll(iv, fact))
        else: self.m.axiom(key, fact)

    def zjoin(self, p):
        m = self.m
        for q, e in m.joins:
            if same(q.lv, p.lv) and same(q.sep, p.sep): return e
        e = m.fresh('join', STR)
        m.joins.append((p, e))
        return e

    def str_of(self, v, spec=None):
        """str(v) as a string value"""
        v = self.force(v)
        if isinstance(v, (str, R)): return v
        if v is None or isinstance(v, bool): return str(v)
        if isinstance(v, int): return str(v)
        if isinstance(v, SI): return mkR([self.istr(v.e)])
        if isinstance(v, SB): return 'True' if self.m.choose(v) else 'False'
        if isinstance(v, Sym) and v.schema.name == 'any': return mkR([f_ostr(v.term)])
        if isinstance(v, ExcV): return self.str_of(v.args[0]) if v.args else ''
        raise Unsupported('str() of %r' % (v,))

    def istr(self, e):
        t = f_istr(e)
        self.gax(('istr', t.get_id()), z3.And(z3.Length(t) >= 1, f_isint(t), f_sint(t) == e, *[z3.Not(z3.Contains(t, z3str(c))) for c in ' \t\r\n{}\x1b']), t)
        return t

    def s_len(self, v):
        if isinstance(v, str): return I(len(v))
        tot = []
        for p in v.parts: tot.append(self.part_slen(p))
        return simp(z3.Sum(tot)) if tot else I(0)

    def part_slen(self, p):
        if isinstance(p, str): return I(len(p))
        if isinstance(p, Rep): return z3.If(p.n > 0, p.n, 0) * self.s_len(p.unit)
        if isinstance(p, Cond): return z3.If(p.c, self.s_len(p.a), self.s_len(p.b))
        if isinstance(p, Join): return z3.Length(self.zjoin(p))
        return z3.Length(p)

    # --- equality ----------------------------------------------------------
    def str_eq(self, a, b):
        """value of a == b"""
        if isinstance(a, str) and isinstance(b, str): return a == b
        if same(a, b): return True
        pa, pb = list(rparts(a)), list(rparts(b))
        # strip common ends
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < len(x) and n < len(y) and x[n] == y[n]: n += 1
                if n < len(x) and n < len(y): return False
                pa[0:1] = [x[n:]] if x[n:] else []
                pb[0:1] = [y[n:]] if y[n:] else []
            elif same(R((x,)), R((y,))): pa.pop(0); pb.pop(0)
            else: break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]: n += 1
                if n < len(x) and n < len(y): return False
                pa[-1:] = [x[:len(x) - n]] if x[:len(x) - n] else []
                pb[-1:] = [y[:len(y) - n]] if y[:len(y) - n] else []
            elif same(R((x,)), R((y,))): pa.pop(); pb.pop()
            else: break
        a, b = mkR(pa), mkR(pb)
        if isinstance(a, str) and isinstance(b, str): return a == b
        return mkB(self.zs(a) == self.zs(b))

    def eq_rope(self, a, b):
        """True if provably equal, else a reason."""
        if same(a, b): return True
        r = self.eq_rope1(a, b)
        if r is True or self.streaming: return r
        if not any(isinstance(p, Join) for v in (a, b) for p in rparts(v)): return r
        # joined texts of different form: item by item, with the separators as parts of the items
        self.streaming = True
        try: r2 = self.isolated(lambda: self.eq_stream(list(rparts(a)), list(rparts(b))))
        except Unsupported: r2 = None
        finally: self.streaming = False
        return True if r2 is True else r

    streaming = False

    # --- joined texts as sequences of items ----------------------------------
    def constant(self, x, v):
        return v.decl().name() not in free_consts(x)

    def rotated(self, lo, hi, v, e):
        """The text of e for v in lo..hi-1, one after another; what does not depend on v is put in front of the rest:
        x(lo) c x(lo+1) c ... = x(lo) then c x(v) for the others, then c."""
        m = self.m
        if simp(hi - lo).eq(I(0)): return []
        ps = list(rparts(e))
        tail = []
        while ps and (isinstance(ps[-1], str) or self.part_const(ps[-1], v)): tail.insert(0, ps.pop())
        if not ps:
            if not tail or not m.choose(simp(hi > lo)): return []
            return [Rep(mkR(tail), simp(hi - lo))]
        if not tail: return [Join('', LV((Sg(lo, hi, v, mkR(ps)),)))]
        if not m.choose(simp(hi > lo)): return []
        first = subst(mkR(ps), [(v, lo)])
        return [*rparts(first), *self.rotated(simp(lo + 1), hi, v, mkR(tail + ps)), *tail]

    def part_const(self, p, v):
        n = v.decl().name()
        def go(x):
            if x is None or isinstance(x, (str, int, bool)): return True
            if z3.is_expr(x): return n not in free_consts(x)
            if isinstance(x, R): return all(go(q) for q in x.parts)
            if isinstance(x, Rep): return go(x.unit) and go(x.n)
            if isinstance(x, Cond): return go(x.c) and go(x.a) and go(x.b)
            return False
        return go(p)

    def item_text(self, x):
        x = self.force(x) if not isinstance(x, Ch) else x
        if isinstance(x, Ch):
            alts = list(x.alts)
            out = self.item_text(alts[-1][1])
            for c, y in alts[-2::-1]: out = mkR([Cond(c, self.item_text(y), out)])
            return out
        if not is_str(x): raise Unsupported('item of a joined text')
        return x

    def stream(self, p):
        """the parts of a joined text, joined texts of ranges without separators only; None if that is not possible"""
        m = self.m
        if not isinstance(p, Join): return [p]
        out, first = [], True
        def item(v):
            nonlocal first
            t = self.item_text(v)
            if not first: out.extend(rparts(p.sep))
            first = False
            out.extend(rparts(t))
        def before(t): return t if p.sep == '' else self.s_cat(p.sep, t)
        def inner(lv):
            """the text of the items of an inner sequence, a separator in front of each"""
            ps = []
            for q in lv.parts:
                if isinstance(q, It):
                    t = before(self.item_text(q.val))
                    ps.extend(rparts(t) if z3.is_true(q.guard) else [Cond(q.guard, t, '')])
                elif isinstance(q, Sg) and not q.flat and z3.is_true(q.guard): ps.append(Join('', LV((Sg(q.lo, q.hi, q.var, before(self.item_text(q.elem))),))))
                else: raise Unsupported('form of a joined text')
            return mkR(ps)
        for q in self.nparts(p.lv).parts:
            if isinstance(q, It):
                if z3.is_true(q.guard) or p.sep != '' and m.choose(q.guard): item(q.val)
                elif p.sep == '': out.append(Cond(q.guard, self.item_text(q.val), ''))
                continue
            if not isinstance(q, Sg): raise Unsupported('form of a joined text')
            lo, hi = q.lo, q.hi
            if p.sep != '' and first:
                if not z3.is_true(q.guard): raise Unsupported('form of a joined text')
                if not m.choose(simp(hi > lo)): continue
                e = subst(q.elem, [(q.var, lo)])
                if q.flat:
                    if not all(isinstance(x, It) and z3.is_true(x.guard) for x in e.parts) or not e.parts: raise Unsupported('form of a joined text')
                    for x in e.parts: item(x.val)
                else: item(e)
                lo = simp(lo + 1)
            e = inner(q.elem) if q.flat else before(self.item_text(q.elem))
            if not z3.is_true(q.guard): e = mkR([Cond(q.guard, e, '')])
            out.extend(self.rotated(lo, hi, q.var, e))
        return list(rparts(mkR(out)))

    def eq_stream(self, A, B):
        m = self.m
        A, B = [list(rparts(mkR([q for p in P for q in self.stream(p)]))) for P in (A, B)]
        isj = lambda p: isinstance(p, Join)
        steps = 0
        while A and B:
            steps += 1
            if steps > 60: return 'too many parts'
            x, y = A[0], B[0]
            if isj(x) and isj(y) and x.sep == '' and y.sep == '' and len(x.lv.parts) == 1 and len(y.lv.parts) == 1:
                p, q = x.lv.parts[0], y.lv.parts[0]
                np, nq = simp(p.hi - p.lo), simp(q.hi - q.lo)
                if not m.choose(simp(np > 0)): A.pop(0); continue
                if not m.choose(simp(nq > 0)): B.pop(0); continue
                n = np if m.choose(simp(np <= nq)) else nq
                if self.eq_items(p, q, n) is True:
                    A[0:1] = [] if n is np else [Join('', LV((Sg(simp(p.lo + n), p.hi, p.var, p.elem),)))]
                    B[0:1] = [] if m.valid(nq == n) else [Join('', LV((Sg(simp(q.lo + n), q.hi, q.var, q.elem),)))]
                    continue
            if isj(x) or isj(y):
                # the first item of the range by itself
                P = A if isj(x) else B
                if isj(x) and isj(y) and m.valid(x.lv.parts[0].hi - x.lv.parts[0].lo < y.lv.parts[0].hi - y.lv.parts[0].lo): P = B
                p = P[0].lv.parts
                if P[0].sep != '' or len(p) != 1 or not isinstance(p[0], Sg) or p[0].flat: return 'form of a joined text'
                p = p[0]
                if m.choose(simp(p.hi > p.lo)): P[0:1] = list(rparts(mkR([*rparts(subst(p.elem, [(p.var, p.lo)])), Join('', LV((Sg(simp(p.lo + 1), p.hi, p.var, p.elem),)))])))
                else: P.pop(0)
                continue
            # up to the next range
            if isinstance(x, Cond) or isinstance(y, Cond):
                P, o = (A, x) if isinstance(x, Cond) else (B, y)
                P[0:1] = list(rparts(o.a if m.choose(o.c) else o.b)); continue
            ka = next((k for k, p in enumerate(A) if isj(p) or isinstance(p, Cond)), len(A))
            kb = next((k for k, p in enumerate(B) if isj(p) or isinstance(p, Cond)), len(B))
            if ka == len(A) and kb == len(B): return self.eq_rope1(mkR(A), mkR(B))
            # one part
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]: return 'text differs: %r / %r' % (x[:60], y[:60])
                A[0:1] = [x[n:]] if x[n:] else []
                B[0:1] = [y[n:]] if y[n:] else []
                continue
            if isinstance(x, Rep) and m.quick_valid(x.n <= 0): A.pop(0); continue
            if isinstance(y, Rep) and m.quick_valid(y.n <= 0): B.pop(0); continue
            if isinstance(x, Rep) and isinstance(y, Rep):
                if self.eq_rope(x.unit, y.unit) is not True: return 'fill differs: %r / %r' % (x, y)
                if m.choose(simp(x.n <= 0)): A.pop(0); continue
                if m.choose(simp(y.n <= 0)): B.pop(0); continue
                if m.valid(x.n == y.n): A.pop(0); B.pop(0); continue
                if m.choose(simp(x.n > y.n)): A[0] = Rep(x.unit, simp(x.n - y.n)); B.pop(0)
                else: A.pop(0); B[0] = Rep(y.unit, simp(y.n - x.n))
                continue
            if isinstance(x, Rep) and isinstance(y, str) or isinstance(y, Rep) and isinstance(x, str):
                P, Q, r, t = (A, B, x, y) if isinstance(x, Rep) else (B, A, y, x)
                if m.choose(simp(r.n <= 0)): P.pop(0); continue
                if not isinstance(r.unit, str) or not t.startswith(r.unit[:len(t)]): return 'text differs: %r / %r' % (x, y)
                P[0:1] = list(rparts(mkR([r.unit, Rep(r.unit, simp(r.n - 1))]))); continue
            if isinstance(x, (str, Rep)) or isinstance(y, (str, Rep)):
                p, P = (x, A) if not isinstance(x, (str, Rep)) else (y, B)
                if m.choose(p == z3str('')): P.pop(0); continue
                return 'strings differ: %r / %r' % (x, y)
            if x.eq(y) or is_istr(x) and is_istr(y) and self.int_eq(x.arg(0), y.arg(0)) or m.valid(x == y): A.pop(0); B.pop(0); continue
            return 'strings differ: %r / %r' % (x, y)
        for P in (A, B):
            for p in P:
                if isj(p):
                    if not all(isinstance(q, Sg) for q in p.lv.parts): return 'additional text: %r' % (p,)
                    if all(m.valid(q.hi <= q.lo) for q in p.lv.parts): continue
                    return 'additional text: %r' % (p,)
                if self.eq_rope1(mkR([p]), '') is not True: return 'additional text: %r' % (p,)
        return True

    def eq_items(self, p, q, n):
        """the first n items of two ranges are the same texts"""
        m = self.m
        i = z3.Int(m.fname('i'))
        m.index_vars.append(i)
        n0 = len(m.pc)
        try:
            m.assume(z3.And(i >= 0, i < n), 'ctx')
            return self.isolated(lambda: self.eq_rope1(subst(p.elem, [(p.var, simp(i + p.lo))]), subst(q.elem, [(q.var, simp(i + q.lo))])))
        except Infeasible: return True
        finally:
            m.index_vars.pop()
            del m.pc[n0:]

    def eq_rope1(self, a, b):
        m = self.m
        if same(a, b): return True
        if isinstance(a, str) and isinstance(b, str): return 'strings differ: %r / %r' % (a[:80], b[:80])
        A, B = list(rparts(a)), list(rparts(b))
        steps = 0
        while A and B:
            steps += 1
            if steps > 400: return 'too many parts'
            x, y = A[0], B[0]
            if isinstance(x, Cond) or isinstance(y, Cond):
                P, o = (A, x) if isinstance(x, Cond) else (B, y)
                if m.valid(o.c): P[0:1] = list(rparts(o.a)); continue
                if m.valid(z3.Not(o.c)): P[0:1] = list(rparts(o.b)); continue
                if isinstance(x, Cond) and isinstance(y, Cond) and m.valid(x.c == y.c):
                    r = self.under(x.c, lambda: self.eq_rope(x.a, y.a))
                    if r is True: r = self.under(z3.Not(x.c), lambda: self.eq_rope(x.b, y.b))
                    if r is True: A.pop(0); B.pop(0); continue
                m.choose(o.c)
                continue
            if isinstance(x, Rep) and m.quick_valid(x.n <= 0): A.pop(0); continue
            if isinstance(y, Rep) and m.quick_valid(y.n <= 0): B.pop(0); continue
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]: return 'text differs: %r / %r' % (x[:60], y[:60])
                A[0:1] = [x[n:]] if x[n:] else []
                B[0:1] = [y[n:]] if y[n:] else []
                continue
            if isinstance(x, Rep) and isinstance(y, Rep):
                if self.eq_rope(x.unit, y.unit) is not True: return 'fill differs: %r / %r' % (x, y)
                if m.valid(x.n == y.n): A.pop(0); B.pop(0); continue
                if m.valid(z3.And(x.n > y.n, y.n >= 0)): A[0] = Rep(x.unit, simp(x.n - y.n)); B.pop(0); continue
                if m.valid(z3.And(y.n > x.n, x.n >= 0)): B[0] = Rep(y.unit, simp(y.n - x.n)); A.pop(0); continue
                if len(A) == 1 and len(B) == 1:
                    if m.valid(z3.If(x.n > 0, x.n, 0) == z3.If(y.n > 0, y.n, 0)): return True
                    return 'counts differ: %s / %s' % (x.n, y.n)
                # split the path on the comparison
                if m.choose(simp(x.n > y.n)): m.choose(simp(y.n >= 0))
                else:
                    if not m.choose(simp(x.n < y.n)): continue
                    m.choose(simp(x.n >= 0))
                if m.valid(z3.And(x.n != y.n, x.n > 0, y.n > 0, x.n > y.n)) or m.valid(z3.And(x.n != y.n, x.n > 0, y.n > 0, x.n < y.n)): continue
                continue
            if isinstance(x, Rep) and isinstance(y, str) or isinstance(y, Rep) and isinstance(x, str):
                if isinstance(x, Rep): P, Q, r, s = A, B, x, y
                else: P, Q, r, s = B, A, y, x
                if isinstance(r.unit, str) and len(r.unit) == 1:
                    k = len(s) - len(s.lstrip(r.unit))
                    if k and m.valid(r.n >= k):
                        P[0] = Rep(r.unit, simp(r.n - k)); Q[0:1] = [s[k:]] if s[k:] else []; continue
                    if m.choose(simp(r.n <= 0)): P.pop(0); continue
                    if k == 0: return 'text differs: %r / %r' % (x, y)
                    P[0] = Rep(r.unit, simp(r.n - 1)); Q[0:1] = [s[1:]] if s[1:] else []; continue
                return 'text differs: %r / %r' % (x, y)
            if isinstance(x, Join) and isinstance(y, Join):
                r = self.eq_rope(x.sep, y.sep)
                if r is not True:
                    r2 = self.eq_joined(x, y) or self.eq_joined(y, x)
                    if r2 is True: A.pop(0); B.pop(0); continue
                    if x.sep == '' and any(isinstance(p, Sg) and (p.flat or isinstance(p.elem, (Ch, Cond))) for p in x.lv.parts) or y.sep == '' and any(isinstance(p, Sg) and (p.flat or isinstance(p.elem, (Ch, Cond))) for p in y.lv.parts):
                        m.imprecise.add('separators between the pieces of a text')
                    return r
                # ranges may continue beyond one of the two only when they are equal as a whole
                r = self.eq_lv(x.lv, y.lv)
                if r is True: A.pop(0); B.pop(0); continue
                r2 = self.join_align(A, B)
                if r2 is True: continue
                return r
            if isinstance(x, Join) or isinstance(y, Join):
                r2 = self.join_align(A, B)
                if r2 is True: continue
                self.cut_joins(x, y)
                return 'joined text against %r / %r' % (x, y)
            if not isinstance(x, (str, Rep)) and not isinstance(y, (str, Rep)):
                if is_istr(x) and is_istr(y) and self.int_eq(x.arg(0), y.arg(0)): A.pop(0); B.pop(0); continue
                if m.valid(x == y): A.pop(0); B.pop(0); continue
            if m.valid(self.zs(R(tuple(A))) == self.zs(R(tuple(B)))): return True
            self.cut_joins(x, y)
            return 'strings differ: %r / %r' % (tuple(A), tuple(B))
        for p in A + B:
            if isinstance(p, Rep) and m.valid(p.n <= 0): continue
            if isinstance(p, Cond):
                r = self.under(p.c, lambda: self.eq_rope(p.a, ''))
                if r is True: r = self.under(z3.Not(p.c), lambda: self.eq_rope(p.b, ''))
                if r is True: continue
            if isinstance(p, Join):
                if m.valid(self.lv_len(p.lv) <= 0): continue
                r = self.eq_join_empty(p)
                if r is True: continue
            if not isinstance(p, (str, Rep, Join, Cond)) and m.valid(p == z3str('')): continue
            return 'additional text: %r' % (p,)
        return True

    def cut_joins(self, *parts):
        """A part of a joined text, of which nothing is known, cannot be compared with anything."""
        for p in parts:
            todo = [p] if z3.is_expr(p) else []
            while todo:
                e = todo.pop()
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and any(n.startswith('join!') for n in free_consts(e.arg(0))):
                    self.m.imprecise.add('a part of a joined text'); return
                todo.extend(e.children())

    def eq_joined(self, x, y):
        """x: pieces that contain the separators (of all but the first, or all but the last); y: pieces between separators."""
        m = self.m
        la, lb = self.nparts(x.lv).parts, self.nparts(y.lv).parts
        if x.sep != '' or len(la) != 1 or len(lb) != 1: return False
        p, q = la[0], lb[0]
        if not (isinstance(p, Sg) and isinstance(q, Sg)) or q.flat or not (z3.is_true(p.guard) and z3.is_true(q.guard)): return False
        if not m.quick_valid(p.hi - p.lo == q.hi - q.lo): return False
        i = z3.Int(m.fname('i'))
        m.index_vars.append(i)
        n0 = len(m.pc)
        try:
            m.assume(z3.And(i >= p.lo, i < p.hi), 'ctx')
            e1, e2 = subst(p.elem, [(p.var, i)]), subst(q.elem, [(q.var, simp(i - p.lo + q.lo))])
            def cmp(edge, before):
                def go():
                    a, b = self.s_join('', e1) if p.flat else self.force(e1), self.force(e2)
                    if not m.choose(simp(i == edge)): b = self.s_cat(y.sep, b) if before else self.s_cat(b, y.sep)
                    return self.eq_rope(a, b)
                return self.isolated(go)
            return cmp(p.lo, True) is True or cmp(simp(p.hi - 1), False) is True
        except Infeasible: return True
        finally:
            m.index_vars.pop()
            del m.pc[n0:]

    def int_eq(self, a, b):
        """a == b, products of unknowns included: the unknowns are matched first"""
        m = self.m
        som = lambda e: z3.simplify(e, som=True)
        d = som(a - b)
        if z3.is_int_value(d): return d.as_long() == 0
        if not nonlinear(d): return m.valid(a == b)
        la, lb = leaves(a), leaves(b)
        for x in [x for x in la if not any(x.eq(y) for y in lb)]:
            for y in [y for y in lb if not any(y.eq(z) for z in la)]:
                if m.valid(x == y):
                    a = z3.substitute(a, (x, y)); break
        d = som(a - b)
        return z3.is_int_value(d) and d.as_long() == 0 or m.valid(a == b)

    def eq_join_empty(self, p): return 'not empty'

    def join_align(self, A, B):
        """Unfold the joins at the front into their first items, if those are known. Returns True if progress was made."""
        m = self.m
        for P in (A, B):
            x = P[0]
            if isinstance(x, Join):
                lv = self.nparts(x.lv)
                if not lv.parts: P.pop(0); return True
                if x.sep == '' and len(lv.parts) >= 1:
                    h = lv.parts[0]
                    if isinstance(h, It) and z3.is_true(h.guard):
                        P[0:1] = list(rparts(h.val)) + ([Join('', LV(lv.parts[1:]))] if len(lv.parts) > 1 else []); return True
                    if len(lv.parts) > 1:
                        P[0:1] = [Join('', LV((h,))), Join('', LV(lv.parts[1:]))]; return True
                    if isinstance(h, It):
                        P[0:1] = [Cond(h.guard, h.val, '')]; return True
                else:
                    h = lv.parts[0]
                    if isinstance(h, It) and z3.is_true(h.guard):
                        rest = LV(lv.parts[1:])
                        if not rest.parts: P[0:1] = list(rparts(h.val)); return True
                        ne = self.lv_len(rest)
                        if m.choose(simp(ne > 0)):
                            P[0:1] = list(rparts(h.val)) + list(rparts(x.sep)) + [Join(x.sep, rest)]
                        else: P[0:1] = list(rparts(h.val))
                        return True
        # ranges of different extent
        x, y = A[0], B[0]
        if isinstance(x, Join) and isinstance(y, Join):
            la, lb = self.nparts(x.lv), self.nparts(y.lv)
            if la.parts and lb.parts and isinstance(la.parts[0], Sg) and isinstance(lb.parts[0], Sg):
                p, q = la.parts[0], lb.parts[0]
                if (len(la.parts) > 1 or len(lb.parts) > 1) and not p.flat and not q.flat and self.eq_lv(LV([p]), LV([q])) is True:
                    n = self.part_len(p)
                    # drop the common part; if it is empty, nothing changes, otherwise the separators follow
                    ra, rb = LV(la.parts[1:]), LV(lb.parts[1:])
                    if m.choose(simp(n > 0)):
                        def tail(sep, rest): 
                            if not rest.parts: return []
                            if m.choose(simp(self.lv_len(rest) > 0)): return list(rparts(sep)) + [Join(sep, rest)]
                            return []
                        A[0:1] = tail(x.sep, ra); B[0:1] = tail(y.sep, rb)
                    else:
                        A[0:1] = [Join(x.sep, ra)]; B[0:1] = [Join(y.sep, rb)]
                    return True
        return False

    # --- concatenation, joining ---------------------------------------------
    def s_cat(self, *vs): return mkR([p for v in vs for p in rparts(v)])

    def s_join(self, sep, lv):
        m = self.m
        lv = self.nparts(lv)
        if all(isinstance(p, It) and z3.is_true(p.guard) for p in lv.parts):
            out = []
            for k, p in enumerate(lv.parts):
                v = self.force(p.val)
                if not is_str(v): self.raise_('TypeError', 'sequence item: expected str instance')
                if k: out.extend(rparts(sep))
                out.extend(rparts(v))
            return mkR(out)
        for p in lv.parts:
            if isinstance(p, PreL): raise ReadCarried(p.id)
            if isinstance(p, ZS): raise Unsupported('join of abstract list')
            if isinstance(p, Sg) and not p.flat: self.check_strs(p)
            if isinstance(p, It) and not (is_str(p.val) or isinstance(p.val, Ch) and all(is_str(x) for _, x in p.val.alts)) and not is_str(self.force(p.val)): raise Unsupported('join')
        if sep == '':               # nothing between the items: item by item
            out, run = [], []
            for p in lv.parts:
                if isinstance(p, It) and z3.is_true(p.guard) and is_str(self.force(p.val)):
                    if run: out.append(Join(sep, LV(run))); run = []
                    out.extend(rparts(self.force(p.val)))
                else: run.append(p)
            if run: out.append(Join(sep, LV(run)))
            return mkR(out)
        from .prims import partition
        if isinstance(sep, str) and len(sep) == 1 and len(lv.parts) == 1:      # pieces of a split text, put together again
            p = lv.parts[0]
            if isinstance(p, Sg) and not p.flat and z3.is_true(simp(p.guard)) and isinstance(p.elem, R) and len(p.elem.parts) == 1 and z3.is_expr(p.elem.parts[0]):
                t = p.elem.parts[0]
                if t.decl().eq(f_split) and t.arg(1).eq(z3str(sep)) and p.var.decl().name() not in free_consts(t.arg(0)):
                    z, off, n = t.arg(0), simp(t.arg(2) - p.var), f_splitn(t.arg(0), z3str(sep))
                    first, end = simp(p.lo + off), simp(p.hi + off)
                    if z3.is_true(simp(first == 0)):
                        if z3.is_true(simp(end == n)): return mkR([z])
                        if z3.is_true(simp(end == n - 1)): return partition(self, mkR([z]), sep, True)[0]
                    if z3.is_true(simp(first == 1)) and z3.is_true(simp(end == n)): return partition(self, mkR([z]), sep, False)[2]
        return mkR([Join(sep, lv)])

    def check_strs(self, p):
        """Every element of the range must be a string."""
        m = self.m
        def allstr(v):
            if is_str(v): return True
            if isinstance(v, Ch): return all(allstr(x) for _, x in v.alts)
            return False
        if allstr(p.elem): return
        raise Unsupported('join of a sequence that may contain other things than strings: %r' % (p.elem,))

    # --- replace / strip / case -----------------------------------------------
    def s_upper(self, v, f=None, name='upper'):
        f = f or f_upper
        op = getattr(str, name)
        if isinstance(v, str): return op(v)
        out = []
        for p in v.parts:
            if isinstance(p, str): out.append(op(p))
            elif isinstance(p, Rep): out.append(Rep(self.s_upper(p.unit, f, name), p.n))
            elif isinstance(p, Cond): out.append(Cond(p.c, self.s_upper(p.a, f, name), self.s_upper(p.b, f, name)))
            elif isinstance(p, Join): out.append(f(self.zjoin(p)))
            else: out.append(f(p))
        return mkR(out)

    def contains(self, s, x):
        """value of x in s"""
        if isinstance(s, str) and isinstance(x, str): return x in s
        if x == '': return True
        if isinstance(x, str) and len(x) == 1:
            alts = []
            for p in rparts(s):
                if isinstance(p, str): 
                    if x in p: return True
                elif isinstance(p, Rep):
                    c = self.contains(p.unit, x)
                    if c is False: continue
                    alts.append(z3.And(p.n > 0, zb(c)))
                elif isinstance(p, Cond): alts.append(z3.If(p.c, zb(self.contains(p.a, x)), zb(self.contains(p.b, x))))
                else: alts.append(z3.Contains(self.zpart(p), z3str(x)))
            return mkB(z3.Or(alts)) if alts else False
        return mkB(z3.Contains(self.zs(s), self.zs(x)))

    def s_replace(self, s, old, new):
        m = self.m
        if isinstance(s, str) and isinstance(old, str) and isinstance(new, str): return s.replace(old, new)
        if isinstance(old, str) and len(old) == 1:
            out = []
            for p in rparts(s):
                if isinstance(p, str):
                    if isinstance(new, str): out.append(p.replace(old, new))
                    else:
                        bits = p.split(old)
                        for k, b in enumerate(bits):
                            if k: out.extend(rparts(new))
                            out.append(b)
                elif isinstance(p, Rep): out.append(Rep(self.s_replace(p.unit, old, new), p.n))
                elif isinstance(p, Cond): out.append(Cond(p.c, self.s_replace(p.a, old, new), self.s_replace(p.b, old, new)))
                else:
                    z = self.zpart(p)
                    out.append(self.repl_atom(z, old, new))
            return mkR(out)
        return mkR([self.repl_atom(self.zs(s), old, new)])

    def repl_atom(self, z, old, new):
        t = f_repl(z, self.zs(old), self.zs(new))
        fs = [z3.Implies(z3.Not(z3.Contains(z, self.zs(old))), t == z)]
        if isinstance(old, str) and isinstance(new, str) and len(old) == 1:
            if old not in new: fs.append(z3.Not(z3.Contains(t, z3str(old))))
            if len(new) == 1: fs.append(z3.Length(t) == z3.Length(z))
            # characters other than the two are kept out or in as they were
            for c in '\t\r\n{}\x1b':
                if c != old and c not in new: fs.append(z3.Contains(t, z3str(c)) == z3.Contains(z, z3str(c)))
        self.m.assumed.add('str.replace of one character: exactly the occurrences of it are replaced')
        self.gax(('repl', t.get_id()), z3.And(fs), t)
        return t

    def s_strip(self, s, chars=None, which='strip'):
        m = self.m
        if isinstance(s, str) and (chars is None or isinstance(chars, str)): return getattr(s, which)(chars) if chars is not None else getattr(s, which)()
        left, right = which in ('strip', 'lstrip'), which in ('strip', 'rstrip')
        ps = list(rparts(s))
        ws = lambda t: (t.strip() if chars is None else t.strip(chars)) == ''
        def lit_l(t): return t.lstrip() if chars is None else t.lstrip(chars)
        def lit_r(t): return t.rstrip() if chars is None else t.rstrip(chars)
        if chars is None or isinstance(chars, str):
            while left and ps:
                if isinstance(ps[0], str):
                    t = lit_l(ps[0])
                    if t: ps[0] = t; left = False; break
                    ps.pop(0)
                elif isinstance(ps[0], Rep) and isinstance(ps[0].unit, str) and ws(ps[0].unit): ps.pop(0)
                elif chars and len(chars) == 1 and not isinstance(ps[0], (Rep, Join, Cond)) and m.quick_valid(z3.And(ps[0] != z3str(''), z3.Not(z3.PrefixOf(z3str(chars), ps[0])))): left = False
                else: break
            while right and ps:
                if isinstance(ps[-1], str):
                    t = lit_r(ps[-1])
                    if t: ps[-1] = t; right = False; break
                    ps.pop()
                elif isinstance(ps[-1], Rep) and isinstance(ps[-1].unit, str) and ws(ps[-1].unit): ps.pop()
                elif chars and len(chars) == 1 and not isinstance(ps[-1], (Rep, Join, Cond)) and m.quick_valid(z3.And(ps[-1] != z3str(''), z3.Not(z3.SuffixOf(z3str(chars), ps[-1])))): right = False
                else: break
            if not left and not right: return mkR(ps)
            if not ps: return ''
        z = self.zs(mkR(ps))
        nm = 'strip' if left and right else 'lstrip' if left else 'rstrip'
        if chars is None:
            f = {'strip': f_strip, 'lstrip': f_lstrip, 'rstrip': f_rstrip}[nm]
            t = f(z)
            e = z3str('')
            ax = [z3.Contains(z, t), z3.Length(t) <= z3.Length(z), f_blank(e), z3.Not(f_ws0(e)), z3.Not(f_ws1(e)),
                  z3.Implies(f_blank(z), t == e), z3.Implies(z == e, f_blank(z))]
            ax.append(z3.Implies(t == e, f_blank(z)))
            ax.append(z3.Implies(z3.And(f_blank(z), z != e), z3.And(f_ws0(z), f_ws1(z))))
            if nm != 'rstrip': ax += [z3.Implies(z3.Not(f_ws0(z)), t == f_rstrip(z) if nm == 'strip' else t == z), z3.Not(f_ws0(t)), z3.SuffixOf(t, z) if nm == 'lstrip' else TRUE]
            if nm != 'lstrip': ax += [z3.Implies(z3.Not(f_ws1(z)), t == f_lstrip(z) if nm == 'strip' else t == z), z3.Not(f_ws1(t)), z3.PrefixOf(t, z) if nm == 'rstrip' else TRUE]
            if nm == 'rstrip': ax += [z3.Implies(t != e, f_ws0(t) == f_ws0(z))]
            if nm == 'lstrip': ax += [z3.Implies(t != e, f_ws1(t) == f_ws1(z))]
            for c in '\n\r\t\x1b': ax.append(z3.Implies(z3.Contains(t, z3str(c)), z3.Contains(z, z3str(c))))
            self.gax((nm, t.get_id()), z3.And(ax), t)
            self.m.assumed.add('str.%s: removes whitespace at the ends only' % nm)
            return mkR([t])
        f = {'strip': f_stripc, 'lstrip': f_lstripc, 'rstrip': f_rstripc}[nm]
        t = f(z, self.zs(chars))
        ax = [z3.Contains(z, t), z3.Length(t) <= z3.Length(z)]
        if isinstance(chars, str):
            ns = lambda x: z3.And([z3.Not(z3.PrefixOf(z3str(c), x)) for c in chars])
            ne = lambda x: z3.And([z3.Not(z3.SuffixOf(z3str(c), x)) for c in chars])
            if nm != 'rstrip': ax.append(ns(t))
            if nm != 'lstrip': ax.append(ne(t))
            ax.append(z3.Implies(z3.And(*([ns(z)] if nm != 'rstrip' else []), *([ne(z)] if nm != 'lstrip' else [])), t == z))
        self.gax((nm + 'c', t.get_id()), z3.And(ax), t)
        return mkR([t])

    # --- splitting ---------------------------------------------------------------
    def s_split(self, s, sep):
        """s.split(sep) for a non-empty separator"""
        try: return self.s_split1(s, sep)
        except Unsupported as x:
            if self.m.index_vars: raise
            z = self.zs(s)
            self.m.imprecise.add(str(x))
            return self.split_atom(z, sep)

    def s_split1(self, s, sep):
        m = self.m
        if isinstance(s, str) and isinstance(sep, str): return self.lv(s.split(sep))
        if not isinstance(sep, str) or len(sep) != 1: return self.split_atom(self.zs(s), sep)
        if isinstance(s, R) and len(s.parts) == 1 and not isinstance(s.parts[0], (Rep, Join, Cond)):
            return self.split_atom(s.parts[0], sep)
        done, cur = [], []
        def close():
            nonlocal cur
            done.append(It(mkR(cur))); cur = []
        for p in rparts(s):
            if isinstance(p, str):
                bits = p.split(sep)
                cur.append(bits[0])
                for b in bits[1:]:
                    close(); cur.append(b)
            elif isinstance(p, Rep):
                if self.m.quick_valid(z3.Not(zb(self.contains(p.unit, sep)))): cur.append(p)
                else: raise Unsupported('split of repeated separators')
            elif isinstance(p, Join) and p.sep == sep:
                # join and split are inverse when there is something to join
                lv = self.nparts(p.lv)
                if not m.choose(simp(self.lv_len_flat(lv) > 0)):
                    continue
                if len(s.parts) == 1:
                    return self.split_items(lv, sep)
                raise Unsupported('split of joined text inside other text')
            elif isinstance(p, Cond):
                if m.choose(p.c): x = p.a
                else: x = p.b
                return self.s_split(mkR([*cur, *rparts(x), *rparts(s)[rparts(s).index(p) + 1:]]) if not done else self._unsup('split'), sep)
            else:
                z = self.zpart(p)
                if m.quick_valid(z3.Not(z3.Contains(z, z3str(sep)))): cur.append(z); continue
                if not m.choose(simp(z3.Contains(z, z3str(sep)))): cur.append(z); continue
                lv = self.split_atom(z, sep)
                n = lv.parts[0].hi
                m.assume(n >= 2)
                cur.append(f_split(z, z3str(sep), I(0)))
                close()
                v = z3.Int(m.fname('i'))
                done.append(Sg(I(1), simp(n - 1), v, mkR([f_split(z, z3str(sep), v)])))
                cur.append(f_split(z, z3str(sep), simp(n - 1)))
        close()
        return LV(done)

    def _unsup(self, why): raise Unsupported(why)

    def lv_len_flat(self, lv):
        """> 0 iff the sequence is not empty"""
        fl = [p for p in lv.parts if isinstance(p, Sg) and p.flat]
        if fl: raise Unsupported('length')
        return self.lv_len(lv)

    def split_items(self, lv, sep):
        """the pieces of all items, when every item is split by itself"""
        m = self.m
        out = []
        for p in lv.parts:
            if isinstance(p, It): out.extend(self.s_split(p.val, sep).parts if z3.is_true(p.guard) else self._unsup('split'))
            elif isinstance(p, Sg) and not p.flat:
                i = z3.Int(m.fname('i'))
                el = subst(p.elem, [(p.var, i)])
                m.index_vars.append(i); n0 = len(m.pc)
                try:
                    m.assume(z3.And(i >= p.lo, i < p.hi, z3.substitute(p.guard, (p.var, i))), 'ctx')
                    if m.quick_valid(z3.Not(zb(self.contains(el, sep)))):
                        out.append(p); continue
                    rs = m.explore(lambda: self.s_split(el, sep))
                    if len(rs) != 1 or rs[0].kind != 'val': raise Unsupported('split of joined text')
                    sub = rs[0].val
                finally:
                    del m.pc[n0:]; m.index_vars.pop()
                out.append(Sg(p.lo, p.hi, i, sub, z3.substitute(p.guard, (p.var, i)), True))
            else: raise Unsupported('split of joined text')
        return LV(out)

    def split_atom(self, z, sep):
        m = self.m
        zsep = self.zs(sep)
        n = f_splitn(z, zsep)
        v = z3.Int(m.fname('i'))
        i = z3.Int('si!')
        iv = [x for x in m.index_vars if x.decl().name() in free_consts(z)]
        t = f_split(z, zsep, i)
        self.gax(('splitn', n.get_id()), z3.And(n >= 1, (n >= 2) == z3.Contains(z, zsep), z3.Implies(n == 1, f_split(z, zsep, I(0)) == z)), n)
        b = [z3.Not(z3.Contains(t, zsep)), z3.Length(t) <= z3.Length(z)]
        for c in '\n\t\x1b{}':
            b.append(z3.Implies(z3.Contains(t, z3str(c)), z3.Contains(z, z3str(c))))
        m.axiom(('split', t.get_id()), forall(iv + [i], z3.And(b), patterns=[t]))
        m.keep.append(t)
        m.assumed.add('str.split(sep): at least one piece, no piece contains the separator, joining them gives the text')
        return LV([Sg(I(0), n, v, mkR([f_split(z, zsep, v)]))])

    def s_words(self, s):
        m = self.m
        if isinstance(s, str): return self.lv(s.split())
        z = self.zs(s)
        n = f_wordn(z)
        v, i = z3.Int(m.fname('i')), z3.Int('si!')
        t = f_word(z, i)
        iv = [x for x in m.index_vars if x.decl().name() in free_consts(z)]
        self.gax(('wordn', n.get_id()), z3.And(n >= 0, z3.Implies(z == z3str(''), n == 0)), n)
        m.axiom(('word', t.get_id()), forall(iv + [i], z3.Implies(z3.And(0 <= i, i < n), z3.And(t != z3str(''), z3.Not(z3.Contains(t, z3str(' '))), z3.Not(z3.Contains(t, z3str('\n'))))), patterns=[t]))
        m.keep.append(t)
        m.assumed.add('str.split(): the words of the text, none empty')
        return LV([Sg(I(0), n, v, mkR([f_word(z, v)]))])

    def s_splitlines(self, s, keep):
        m = self.m
        if isinstance(s, str): return self.lv(s.splitlines(keep))
        z = self.zs(s)
        k = z3.BoolVal(bool(keep))
        n = f_linen(z, k)
        v = z3.Int(m.fname('i'))
        i = z3.Int('si!')
        iv = [x for x in m.index_vars if x.decl().name() in free_consts(z)]
        self.gax(('linen', n.get_id()), z3.And(n >= 0, (n == 0) == (z == z3str('')), f_linen(z, TRUE) == f_linen(z, FALSE)), n)
        t = f_line(z, k, i)
        if not keep:
            m.axiom(('line', t.get_id()), forall(iv + [i], z3.And(*[z3.Not(z3.Contains(t, z3str(c))) for c in '\n\r']), patterns=[t]))
            m.keep.append(t)
        m.assumed.add('str.splitlines: the lines of the text in order, with or without their ends')
        return LV([Sg(I(0), n, v, mkR([f_line(z, k, v)]))])

    # --- padding -------------------------------------------------------------
    def s_pad(self, s, width, fill, how):
        n = self.s_len(s)
        w = zi(width)
        pad = simp(z3.If(w - n > 0, w - n, 0))
        if how == 'rjust': return mkR([Rep(fill, pad), *rparts(s)])
        if how == 'ljust': return mkR([*rparts(s), Rep(fill, pad)])
        left = simp(pad / 2 + z3.If(z3.And(pad % 2 == 1, w % 2 == 1), 1, 0))
        return mkR([Rep(fill, left), *rparts(s), Rep(fill, simp(pad - left))])

    # --- format ----------------------------------------------------------------
    def no_braces(self, p):
        m = self.m
        if isinstance(p, Rep): return self.m.valid(z3.Or(p.n <= 0, z3.And(z3.Not(zb(self.contains(p.unit, '{'))), z3.Not(zb(self.contains(p.unit, '}'))))))
        if isinstance(p, Cond): return all(self.no_braces(q) if not isinstance(q, str) else ('{' not in q and '}' not in q) for v in (p.a, p.b) for q in rparts(v))
        z = self.zpart(p)
        return m.valid(z3.And(z3.Not(z3.Contains(z, z3str('{'))), z3.Not(z3.Contains(z, z3str('}')))))

    def s_format(self, tmpl, args, kwargs):
        m = self.m
        out = []
        auto = 0
        for p in rparts(tmpl):
            if not isinstance(p, str):
                if not self.no_braces(p):
                    m.fail('format-template', 'text that may contain braces is used as a format template: %r' % (p,))
                    raise Infeasible()
                out.append(p); continue
            try: fields = list(_string.Formatter().parse(p))
            except ValueError as e: self.raise_('ValueError', str(e))
            for lit, name, spec, conv in fields:
                out.append(lit)
                if name is None: continue
                if name == '':
                    idx = auto; auto += 1
                    if idx >= len(args): self.raise_('IndexError', 'Replacement index out of range')
                    v = args[idx]
                elif name.isdigit():
                    if int(name) >= len(args): self.raise_('IndexError', 'Replacement index out of range')
                    v = args[int(name)]
                elif name.isidentifier():
                    if name not in kwargs: self.raise_('KeyError', name)
                    v = kwargs[name]
                else: raise Unsupported('format field %r' % name)
                if spec or conv:
                    v = self.force(v)
                    if conv == 's' and not spec: pass
                    elif isinstance(v, (str, int)): v = ('{' + ('!' + conv if conv else '') + ':' + (spec or '') + '}').format(v)
                    else: raise Unsupported('format spec')
                out.extend(rparts(self.str_of(v)))
        return mkR(out)

    # --- character access ------------------------------------------------------
    def s_index(self, s, k):
        m = self.m
        if isinstance(s, str) and isinstance(k, int):
            try: return s[k]
            except IndexError: self.raise_('IndexError', 'string index out of range')
        n = self.s_len(s)
        k = zi(k)
        if m.choose(simp(k < 0)):
            k = simp(n + k)
            if m.choose(simp(k < 0)): self.raise_('IndexError', 'string index out of range')
        elif not m.choose(simp(k < n)): self.raise_('IndexError', 'string index out of range')
        return mkR([self.char_at(self.zs(s), k)])

    def char_at(self, z, k):
        if z3.is_app(z) and z.decl().name() == 'reverse': return self.char_at(z.arg(0), simp(z3.Length(z.arg(0)) - 1 - k))
        return z3.SubString(z, k, 1)

    def s_slice(self, s, lo, hi, step):
        m = self.m
        if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (lo, hi, step)): return s[slice(lo, hi, step)]
        if step is not None and step != 1:
            if step == -1 and lo is None and hi is None:
                z = self.zs(s)
                if z3.is_app(z) and z.decl().name() == 'reverse': return mkR([z.arg(0)])
                t = UF('reverse', STR, STR)(z)
                self.gax(('reverse', t.get_id()), z3.Length(t) == z3.Length(z), t)
                return mkR([t])
            raise Unsupported('slice step')
        z, n = self.zs(s), self.s_len(s)
        def norm(b, d):
            if b is None: return d
            b = zi(b)
            sign = ask(b >= 0)
            pos = lambda: b if ask(b <= n) else z3.If(b > n, n, b)
            neg = lambda: n + b if ask(n + b >= 0) else z3.If(n + b < 0, 0, n + b)
            if sign is True: return simp(pos())
            if sign is False and ask(b < 0): return simp(neg())
            return simp(z3.If(b < 0, z3.If(n + b < 0, 0, n + b), z3.If(b > n, n, b)))
        def ask(e):
            e = simp(e)
            if z3.is_true(e): return True
            return False if m.index_vars or z3.is_false(e) else m.quick_valid(e)
        a, b = norm(lo, I(0)), norm(hi, n)
        if lo is None and hi is None: return s
        if lo is None and ask(b == n): return s
        ln = simp(b - a if ask(b >= a) else z3.If(b > a, b - a, 0))
        t = simp(z3.SubString(z, a, ln))
        if not z3.is_string_value(t):
            self.gax(('sub', t.get_id()), z3.And([z3.Implies(z3.Contains(t, z3str(c)), z3.Contains(z, z3str(c))) for c in '\t\r\n{}\x1b']), t)
        return mkR([t])
