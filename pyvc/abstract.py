"""Formulas without the theory of strings: texts are values of a sort of their own, and the functions on them are
uninterpreted (their length is not negative). What is unsatisfiable so is unsatisfiable with the theory."""
import z3

TXT = z3.DeclareSort('Txt')
STR = z3.StringSort()
_length = z3.Function('txt_length', TXT, z3.IntSort())
_cache, _keep = {}, []


def sort(s): return TXT if s == STR else s


def _fn(e, args):
    d = e.decl()
    return z3.Function('%s/%d' % (d.name(), d.kind()), *([a.sort() for a in args] + [sort(e.sort())]))(*args)


def abstract(e, facts):
    """e without strings; facts receives what is known of the literals and lengths in it"""
    k = e.get_id()
    hit = _cache.get(k)
    if hit is None:
        fs = {}
        hit = (_walk(e, fs), fs)
        _cache[k] = hit; _keep.append(e)
    facts.update(hit[1])
    return hit[0]


def _walk(e, fs):
    if z3.is_quantifier(e):
        vs = [z3.FreshConst(e.var_sort(i), e.var_name(i)) for i in range(e.num_vars())]
        inner = {}
        b = _walk(z3.substitute_vars(e.body(), *reversed(vs)), inner)
        ws = [z3.FreshConst(sort(v.sort()), 'w') for v in vs]
        pats = []
        for i in range(e.num_patterns()):
            p = z3.substitute_vars(e.pattern(i), *reversed(vs))
            pats.append(z3.MultiPattern(*[_walk(c, {}) for c in p.children()]))
        if any(v.sort() == STR for v in vs): raise ValueError('quantified text')
        for n, x in inner.items():
            if not any(_occurs(v, x) for v in vs): fs[n] = x
        return z3.ForAll(vs, b, patterns=pats) if e.is_forall() else z3.Exists(vs, b, patterns=pats)
    if e.sort() == STR and z3.is_string_value(e):
        c = z3.Const('lit ' + repr(e.as_string()), TXT)
        n = len(e.as_string()) if '\\u{' not in e.as_string() else None
        fs[('lit', c.get_id())] = z3.And(_length(c) == n) if n is not None else _length(c) >= 1
        if n == 0: pass
        _keep.append(c)
        return c
    if not z3.is_app(e): return e
    ch = e.children()
    args = [_walk(c, fs) for c in ch]
    if e.decl().kind() == z3.Z3_OP_SEQ_LENGTH and ch[0].sort() == STR:
        l = _length(args[0])
        fs[('len', l.get_id())] = z3.And(l >= 0, (l == 0) == (args[0] == z3.Const("lit ''", TXT)), _length(z3.Const("lit ''", TXT)) == 0)
        _keep.append(l)
        return l
    if e.sort() == STR or any(c.sort() == STR for c in ch):
        k = e.decl().kind()
        if k == z3.Z3_OP_EQ: return args[0] == args[1]
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*args)
        if k == z3.Z3_OP_ITE: return z3.If(*args)
        if not ch: return z3.Const(e.decl().name(), TXT)
        return _fn(e, args)
    if not ch: return e
    return e.decl()(*args)


def _occurs(v, x):
    todo = [x]
    while todo:
        y = todo.pop()
        if y.eq(v): return True
        todo.extend(y.children())
    return False
