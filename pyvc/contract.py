"""Contracts: registry, runner, helpers."""
import os, time, traceback, sys
import z3
from .values import *
from .machine import *
from .interp import Interp, SummRaise
from .seqs import I, simp
from . import prims
from .prims import Schema, ANY

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}           # property -> [Contract]
PKG = 'gopher_render.'
MODULES = ['_selectors', '_namedict', '_textwrap', 'rendering', '_parser']


class Contract:
    def __init__(self, prop, name, fn, modules, budget, stdlib):
        self.prop, self.name, self.fn, self.modules, self.budget, self.stdlib = prop, name, fn, modules, budget, stdlib


def contract(prop, name, modules=MODULES, budget=60, stdlib=None):
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            REGISTRY.setdefault(p, []).append(Contract(p, name, fn, modules, budget, stdlib))
        return fn
    return deco


class Result:
    """What running one contract gave (plain data, picklable)."""
    def __init__(self, prop, name):
        self.prop, self.name = prop, name
        self.obligations = []       # dicts
        self.undecided = None       # reason
        self.executed, self.stubbed, self.assumed = [], [], []
        self.solver_time = self.time = 0.0
        self.queries = self.paths = 0


def run_contract(c, root, verbose=False):
    r = Result(c.prop, c.name)
    t0 = time.time()
    it = None
    try:
        it = Interp(root)
        it.deps = []
        it.stdlib = c.stdlib
        for mod in c.modules: it.load(PKG + mod)
        if os.path.exists(os.path.join(HERE, 'contracts', 'spec_%s.py' % c.prop.lower())): spec(it, c.prop.lower())
        it.m.obligations.clear()
        it.m.executed.clear()
        it.m.covers.clear()
        it.m.deadline = time.time() + c.budget * float(os.environ.get("VP_SCALE", "3"))
        it.contract = c
        def thunk():
            try: c.fn(it)
            except PyExc as x:
                it.m.fail('no-exception', 'raises %s%r' % (getattr(x.val.cls, 'name', x.val.cls), tuple(map(str, x.val.args))))
        n = it.m.run_paths(thunk)
        never = sorted(n_ for n_, x in it.m.covers.items() if not x)
        if never: r.undecided = 'not reachable: ' + ', '.join(never)
        elif not it.m.obligations: r.undecided = 'no obligation was generated'
        elif n == 0: r.undecided = 'no path reaches the end of the contract'
    except Unsupported as x:
        if verbose: traceback.print_exc()
        r.undecided = 'outside the verified subset: %s' % x
    except ReadCarried as x: r.undecided = 'outside the verified subset: loop-carried %s' % (x.loc,)
    except SummRaise as x: r.undecided = 'outside the verified subset: may raise in an expression over a range'
    except RecursionError: r.undecided = 'outside the verified subset: recursion'
    except Infeasible: r.undecided = 'contract infeasible'
    except z3.Z3Exception as x: r.undecided = 'back end: %s' % str(x)[:300]
    except PyExc as x: r.undecided = 'module cannot be loaded: %r' % (x.val,)
    except Exception as x:
        if verbose: traceback.print_exc()
        r.undecided = 'verifier error: %s: %s' % (type(x).__name__, str(x)[:300])

    r.time = time.time() - t0
    if it is not None:
        m = it.m
        for o in m.obligations:
            r.obligations.append(dict(name='%s/%s' % (c.name, o.name), status=o.status, detail=o.detail[:3000], time=round(o.time, 4), model=o.model, backend=o.backend))
        r.executed = sorted(m.executed); r.stubbed = sorted(m.stub_used); r.assumed = sorted(m.assumed)
        r.solver_time, r.queries, r.paths = m.solver_time, m.queries, m.npaths
    return r


# --- helpers for contracts --------------------------------------------------------

def sint(it, name): return SI(it.m.fresh(name, INT))
def sbool(it, name): return SB(it.m.fresh(name, BOOL))
def sstr(it, name): return mkR([it.m.fresh(name, STR)])
def sany(it, name): return Sym(ANY, it.m.fresh(name, Obj))


def slist(it, name, elem, lo=0):
    """a list of unknown length; elem(i) builds the i-th element"""
    n = it.m.fresh(name + '_n', INT)
    it.m.assume(n >= lo)
    return it.m.new_list(it.sym_list(n, elem, name)), n


def strlist_lv(it, name):
    n = it.m.fresh(name + '_n', INT)
    it.m.assume(n >= 0)
    f = it.m.fresh_fn(name, INT, STR)
    return it.sym_list(n, lambda i: mkR([f(i)]), name), n, f


def field(it, o, name):
    """Attribute of an object the contract relies on; its absence means the code was restructured."""
    miss = object()
    v = it.getattr_(o, name, miss)
    if v is miss: raise Unsupported('the contract needs the attribute %s' % name)
    return v


def key(it, d, name):
    try: return it.item(d, name)
    except PyExc: raise Unsupported('the contract needs the key %s' % name)


def spec(it, name):
    """Specification functions: plain Python in contracts/spec_<name>.py, run by the same interpreter
    (and natively by the runtime checks)."""
    n = 'spec_' + name
    if n not in it.modules:
        it.load_file(n, os.path.join(HERE, 'contracts', n + '.py'))
    ns = it.modules[n].ns
    return lambda f, *a: it.call(ns[f], list(a), {})


def choice(it, name, values):
    """one of the values"""
    conds = [it.m.fresh('%s_%d' % (name, k), BOOL) for k in range(len(values) - 1)]
    for c, v in zip(conds, values):
        if it.m.choose(c): return v
    return values[-1]


def text(it, v): return it.str_of(v)


def no_chars(it, s, chars):
    """none of the characters occurs in s (as a formula)"""
    return z3.And([z3.Not(zb(it.contains(s, c))) for c in chars])


def expect_exc(it, f, *names):
    """Outcome of f(): ('value', v) or ('raises', class name)"""
    try: return 'value', f()
    except PyExc as x: return 'raises', getattr(x.val.cls, 'name', '').split('.')[-1]
