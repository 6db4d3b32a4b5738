"""State, path exploration, solver and obligations."""
import itertools
import time
import z3
from .values import *


class Unsupported(Exception): pass          # outside the verified subset
class Infeasible(Exception): pass
class PyExc(Exception):
    def __init__(self, val): self.val = val
class ReturnX(Exception):
    def __init__(self, val): self.val = val
class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReadCarried(Exception):
    def __init__(self, loc): self.loc = loc


class Frame:
    __slots__ = ('locals', 'module', 'parent', 'func', 'names', 'globals_', 'nonlocals', 'iscomp', 'yields', 'id')
    def __init__(self, module, parent=None, func=None):
        self.locals, self.module, self.parent, self.func = {}, module, parent, func
        self.names = None; self.globals_ = (); self.nonlocals = (); self.iscomp = False; self.yields = None
        self.id = 0


class Path:
    """Result of exploring one path."""
    __slots__ = ('dec', 'facts', 'kind', 'val', 'snap', 'all')
    def __init__(self, dec, facts, kind, val, snap, all_):
        self.dec, self.facts, self.kind, self.val, self.snap, self.all = dec, facts, kind, val, snap, all_
    @property
    def cond(self): return z3.And(self.dec) if self.dec else TRUE


class Obligation:
    __slots__ = ('name', 'status', 'detail', 'time', 'model', 'backend')
    def __init__(self, name, status, detail='', t=0.0, model=None, backend='z3'):
        self.name, self.status, self.detail, self.time, self.model, self.backend = name, status, detail, t, model, backend


class Trail:
    def __init__(self, prefix): self.prefix, self.pos, self.pending, self.taken = prefix, 0, [], []


def has_quantifier(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        todo.extend(x.children())
    return False


class Machine:
    FEAS_MS = 1500
    PROVE_MS = 15000

    def __init__(self):
        self.heap = {}
        self.frames = []
        self.pc = []                # [(kind, expr)] kind in dec, fact, ctx
        self.axioms = {}            # key -> expr, never rolled back
        self.ax_order = []
        self.trail = None
        self.fresh_n = 0
        self.heap_n = 0
        self.index_vars = []
        self.obligations = []
        self.filters = []           # canonical filtered ranges
        self.cache = {}
        self.quant = {}
        self.keep = []              # keeps cached expressions alive
        self.solver_time = 0.0
        self.queries = 0
        self.timeouts = 0
        self.depth = 0
        self.executed = set()       # qualified names of repository functions executed
        self.stubs = {}             # qualname -> fn(m, func, args, kwargs)
        self.stub_used = set()
        self.assumed = set()        # descriptions of assumed external contracts used
        self.deadline = None
        self.backends = {}
        self.npaths = 0
        self.loop_hints = []        # invariant candidate generators
        self.loop_rules = []        # invariants of while loops: fn(it, node, frame) -> rule or None
        self.subset_notes = []
        self.small = []             # bounds on sizes under which a refutation is looked for when the solver gives up
        self.imprecise = set()      # abstractions used that forget something: a failure may be due to them
        self.max_paths = 4000
        self.thorough = False
        self.covers = {}            # whether a point has been reached
        self.abstract = False       # try without the theory of strings first (decisions of a contract with nothing else)
        self.rec_hook = None        # contracts of recursive calls

    # --- fresh names -----------------------------------------------------
    def fname(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def fresh(self, base, sort):
        """Fresh constant, a function of the enclosing loop indices."""
        n = self.fname(base)
        if not self.index_vars: return z3.Const(n, sort)
        f = z3.Function(n, *([v.sort() for v in self.index_vars] + [sort]))
        return f(*self.index_vars)

    def fresh_fn(self, base, *sorts):
        """Fresh function of the enclosing loop indices and the given arguments."""
        n = self.fname(base)
        iv = list(self.index_vars)
        f = z3.Function(n, *([v.sort() for v in iv] + list(sorts)))
        return lambda *a: f(*(iv + list(a)))

    # --- solver ----------------------------------------------------------
    def facts(self):
        return [e for _, e in self.pc] + [self.axioms[k] for k in self.ax_order]

    def axiom(self, key, expr):
        if key not in self.axioms:
            self.axioms[key] = expr
            self.ax_order.append(key)

    def _check(self, extra, ms, feas=False, quick=False):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the contract exhausted')
        fs = self.facts()
        key = (frozenset(e.get_id() for e in fs), tuple(e.get_id() for e in extra), quick and bool(self.abstract))
        hit = self.cache.get(key)
        if hit is not None and (hit[0] != 'unknown' or hit[1] >= ms and hit[2] <= feas): return hit[0]
        t = time.time()
        r = s = None
        if self.abstract:
            r = self.abstract_check(fs, extra, ms)
            if r != 'unsat': r = 'sat' if feas else 'unknown' if quick else None
        if r is not None: pass
        elif feas:
            # cheap first: without the quantified facts ('sat' or 'unknown' counts as feasible in the end)
            heavy = {e.get_id() for k, e in self.pc if k == 'heavy'}
            if heavy: fs = [e for e in fs if e.get_id() not in heavy]
            g = [e for e in fs if not self.has_quant(e)]
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(*g); s.add(*extra)
            r = str(s.check())
            if r == 'unsat' or len(g) == len(fs): pass
            else: r = None
        if r is None:
            if self.abstract:
                sums = {e.get_id() for k, e in self.axioms.items() if isinstance(k, tuple) and k[0] == 'sum'}
                fs = [e for e in fs if e.get_id() not in sums]
            s = z3.Solver()
            s.set('timeout', ms if not feas else ms // 3)
            if feas: s.set('mbqi', False)
            s.add(*fs)
            s.add(*extra)
            r = str(s.check())
        if r == 'unknown' and s is not None and not feas and any(w in s.reason_unknown() for w in ('timeout', 'cancel', 'resource', 'max')): self.timeouts += 1
        self.solver_time += time.time() - t
        self.queries += 1
        self.keep.append((fs, extra))
        self.cache[key] = (r, ms, feas)
        if s is not None: self.last_solver = s
        return r

    def abstract_check(self, fs, extra, ms):
        from .abstract import abstract
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('mbqi', False)
        known = {}
        try:
            sums = {e.get_id() for k, e in self.axioms.items() if isinstance(k, tuple) and k[0] == 'sum'}      # their patterns never stop matching
            for e in fs + extra:
                if e.get_id() not in sums: s.add(abstract(e, known))
        except ValueError: return 'unknown'
        s.add(*known.values())
        r = str(s.check())
        self.last_solver = s
        return r

    def has_quant(self, e):
        k = e.get_id()
        r = self.quant.get(k)
        if r is None:
            r = has_quantifier(e)
            self.quant[k] = r; self.keep.append(e)
        return r

    def feasible(self, *extra): return self._check(list(extra), self.FEAS_MS, True) != 'unsat'

    def valid(self, e, ms=None):
        """Is e implied by what is known on this path?"""
        e = zb(e) if isinstance(e, (bool, SB)) else e
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return not self.feasible()
        return self._check([z3.Not(e)], ms or self.PROVE_MS, quick=not self.thorough) == 'unsat'

    def theory(self, e):
        """A fact of the theories alone, proved without anything else and then known on this path."""
        s = z3.Solver()
        s.set('timeout', self.PROVE_MS)
        s.add(z3.Not(e))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.unsat: self.assume(e)
        return r == z3.unsat

    def quick_valid(self, e):
        return self.valid(e, self.FEAS_MS)

    def assume(self, e, kind='fact'):
        e = zb(e) if isinstance(e, (bool, SB)) else e
        e = z3.simplify(e)
        if z3.is_true(e): return
        if z3.is_false(e): raise Infeasible()
        self.pc.append((kind, e))

    def choose(self, c):
        """Decide a condition on this path, exploring both outcomes if both are possible."""
        if isinstance(c, bool): return c
        e = c.e if isinstance(c, SB) else c
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        t = self.trail
        if t is None: raise Unsupported('decision outside of a path')
        if t.pos < len(t.prefix):
            d = t.prefix[t.pos]; t.pos += 1
            if d == 'T': return True            # implied
            if d == 'F': return False
            t.taken.append(d)
            self.pc.append(('dec', e if d else z3.simplify(z3.Not(e))))
            return d
        ne = z3.simplify(z3.Not(e))
        can_t = self.feasible(e)
        can_f = self.feasible(ne)
        t.pos += 1
        if can_t and can_f:
            t.pending.append(list(t.prefix) + [False])
            t.prefix.append(True)
            self.pc.append(('dec', e))
            return True
        if not can_t and not can_f: raise Infeasible()
        t.prefix.append('T' if can_t else 'F')
        return can_t

    # --- state -----------------------------------------------------------
    def snapshot(self):
        return (dict(self.heap), [(f, dict(f.locals)) for f in self.frames], list(self.index_vars), self.depth)

    def restore(self, s):
        self.heap = dict(s[0])
        self.frames = [f for f, _ in s[1]]
        for f, l in s[1]:
            if f.locals is not l: f.locals.clear(); f.locals.update(l)
        self.index_vars = list(s[2])
        self.depth = s[3]

    def alloc(self, cell):
        self.heap_n += 1
        r = Ref(self.heap_n)
        self.heap[r.id] = cell
        return r

    def cell(self, ref):
        c = self.heap[ref.id]
        if isinstance(c, Poison): raise ReadCarried(c.loc)
        return c

    def new_list(self, lv=LV(())): return self.alloc(LCell(lv if isinstance(lv, LV) else LV([It(x) for x in lv])))

    def new_dict(self, entries=None, cls=None): return self.alloc(DCell([('c', dict(entries))] if entries else [], cls))

    def new_obj(self, cls, **fields): return self.alloc(OCell(cls, dict(fields)))

    # --- exploration -----------------------------------------------------
    def explore(self, thunk):
        """All paths of thunk from the current state; the state is restored afterwards."""
        snap = self.snapshot()
        n0 = len(self.pc)
        outer = self.trail
        results = []
        todo = [[]]
        try:
            while todo:
                prefix = todo.pop()
                self.restore(snap)
                del self.pc[n0:]
                self.trail = Trail(list(prefix))
                kind, val = 'val', None
                try:
                    val = thunk()
                except ReturnX as x: kind, val = 'return', x.val
                except BreakX: kind = 'break'
                except ContinueX: kind = 'continue'
                except PyExc as x: kind, val = 'raise', x.val
                except Infeasible: kind = None
                todo.extend(self.trail.pending)
                self.npaths += 1
                if len(results) > self.max_paths: raise Unsupported('too many paths')
                if kind is not None:
                    delta = self.pc[n0:]
                    results.append(Path([e for k, e in delta if k == 'dec'], [e for k, e in delta if k != 'dec'], kind, val, self.snapshot(), list(delta)))
        finally:
            self.trail = outer
            del self.pc[n0:]
            self.restore(snap)
        return results

    def run_paths(self, thunk):
        """Top level: run thunk on every path for its obligations."""
        snap = self.snapshot()
        n0 = len(self.pc)
        f0, h0 = self.fresh_n, self.heap_n
        todo = [[]]
        n = 0
        while todo:
            prefix = todo.pop()
            self.restore(snap)
            del self.pc[n0:]
            self.fresh_n, self.heap_n = f0, h0
            self.trail = Trail(list(prefix))
            try:
                thunk()
                n += 1
            except Infeasible: pass
            todo.extend(self.trail.pending)
            self.npaths += 1
            if n > self.max_paths: raise Unsupported('too many paths')
        self.trail = None
        self.restore(snap)
        del self.pc[n0:]
        return n

    def at_path(self, path, thunk):
        """Run thunk in the state at the end of an explored path (on its own trail)."""
        snap = self.snapshot(); n0 = len(self.pc)
        try:
            self.restore(path.snap)
            self.pc.extend(path.all)
            return thunk()
        finally:
            del self.pc[n0:]
            self.restore(snap)

    # --- obligations -----------------------------------------------------
    def prove(self, name, e, detail=''):
        """One obligation: e holds on this path."""
        t0 = time.time()
        if isinstance(e, (bool, SB)): e = zb(e)
        e = z3.simplify(e)
        if z3.is_true(e):
            self.obligations.append(Obligation(name, 'discharged', detail, 0.0, backend='syntactic')); return True
        r = self._check([z3.Not(e)], self.PROVE_MS)
        if r == 'unknown' and self.small: r = self.small_model(z3.Not(e))
        t = time.time() - t0
        if r == 'unsat':
            self.obligations.append(Obligation(name, 'discharged', detail, t)); return True
        model = None
        if r == 'sat':
            try: model = str(self.last_solver.model())[:4000]
            except Exception: pass
        reason = '' if r == 'sat' else self.last_solver.reason_unknown() if hasattr(self, 'last_solver') else ''
        st = 'refuted' if r == 'sat' else ('timeout' if 'timeout' in reason or 'cancel' in reason or 'resource' in reason else 'unknown')
        if self.imprecise: st, detail = 'timeout', detail + ' (undecided: %s)' % '; '.join(sorted(self.imprecise))
        self.obligations.append(Obligation(name, st, (detail + ' goal: ' + str(e)[:1500] + (' reason: ' + reason if reason else '') + self.path_text()), t, model))
        return False

    def small_model(self, e):
        """'sat' if the facts and e have a model in which the sizes are as small as self.small says. Only for contracts
        whose quantified facts say nothing of indices outside of their ranges."""
        ground = []
        for f in self.facts() + [e]:
            todo = [f]
            while todo:
                f = todo.pop()
                if z3.is_and(f) and self.has_quant(f): todo.extend(f.children())
                elif z3.is_quantifier(f) and f.is_forall() and all(f.var_sort(k) == z3.IntSort() for k in range(f.num_vars())):
                    n = f.num_vars()
                    for v in itertools.product(range(-1, 4), repeat=n):
                        todo.append(z3.substitute_vars(f.body(), *[z3.IntVal(x) for x in reversed(v)]))
                else: ground.append(f)
        s = z3.Solver()
        s.set('timeout', self.PROVE_MS)
        s.add(*ground); s.add(*self.small)
        t = time.time()
        r = str(s.check())
        self.solver_time += time.time() - t
        self.queries += 1
        if r != 'sat': return 'unknown'
        self.last_solver = s
        return r

    def path_text(self):
        return ' | path: ' + '; '.join(str(e).replace('\n', ' ')[:200] for k, e in self.pc if k == 'dec')[:2000]

    def oblige(self, name, fn, detail=''):
        """One obligation established by fn() -> True or a reason (may issue several queries)."""
        t0 = time.time()
        n0 = self.timeouts
        r = fn()
        if r is not True and self.abstract:
            self.thorough = True
            try: r = fn()
            finally: self.thorough = False
        t = time.time() - t0
        if r is True:
            self.obligations.append(Obligation(name, 'discharged', detail, t)); return True
        self.failure(name, detail + ' ' + str(r)[:1500], t, self.timeouts > n0); return False

    def fail(self, name, why): self.failure(name, why, 0.0, False)

    def failure(self, name, why, t, late):
        """An obligation fails on this path, unless the path turns out to be infeasible."""
        n0 = self.timeouts
        r = self._check([], self.PROVE_MS)
        if r == 'unsat': raise Infeasible()
        model = None
        if r == 'sat':
            try: model = str(self.last_solver.model())[:4000]
            except Exception: pass
        st = 'timeout' if late or self.timeouts > n0 or self.imprecise else 'refuted'
        if self.imprecise: why += ' (undecided: %s)' % '; '.join(sorted(self.imprecise))
        self.obligations.append(Obligation(name, st, why + self.path_text(), t, model))

    def cover(self, name):
        """Vacuity guard: this point must be reachable on some path."""
        if self.covers.get(name) and self.abstract: return
        r = self._check([], self.PROVE_MS)
        self.covers[name] = self.covers.get(name, False) or r != 'unsat'
        if r != 'unsat': self.obligations.append(Obligation('cover:' + name, 'cover', r))
