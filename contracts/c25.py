"""C25: a named dictionary has the same contents by attribute and by key.

Every operation is checked against the same operation on an ordinary dictionary, from an
arbitrary state (any contents), for an arbitrary name that no dictionary method has; the state
afterwards is again a dictionary without attributes of its own, so sequences follow by induction."""
from pyvc.contract import *

ND = 'gopher_render._namedict:namedict'


def arbitrary(it):
    has = z3.Function(it.m.fname('has'), STR, BOOL)
    val = z3.Function(it.m.fname('val'), STR, Obj)
    return SymDict('any contents', lambda k: has(k), lambda k: Sym(ANY, val(k)))


def outcome(it, f):
    try: return ('value', f())
    except PyExc as x: return ('raises', x.val.cls)


OPS = {
    'read by attribute': (lambda it, d, n, v: it.getattr_(d, n), 'get', 'AttributeError'),
    'read by key': (lambda it, d, n, v: it.item(d, n), 'get', 'KeyError'),
    'write by attribute': (lambda it, d, n, v: it.setattr_(d, n, v), 'set', None),
    'write by key': (lambda it, d, n, v: it.setitem(d, n, v), 'set', None),
    'delete by attribute': (lambda it, d, n, v: it.delattr_(d, n), 'del', 'AttributeError'),
    'delete by key': (lambda it, d, n, v: it.delitem(d, n), 'del', 'KeyError'),
    'test by key': (lambda it, d, n, v: it.m.choose(it.contains_(d, n)), 'in', None),
    'test by attribute': (lambda it, d, n, v: it.m.choose(it.call(prims.BUILTINS['hasattr'], [d, n], {})), 'in', None),
    'get': (lambda it, d, n, v: it.call(it.getattr_(d, 'get'), [n, v], {}), 'getd', None),
}


KINDS = {
    'any': sany,
    'dictionary': lambda it, n: it.m.alloc(DCell([('s', arbitrary(it))])),
    'named dictionary': lambda it, n: it.m.alloc(DCell([('s', arbitrary(it))], it.func(ND))),
    'list': lambda it, n: it.m.new_list([sany(it, n), sany(it, n)]),
    'text': sstr,
    'number': sint,
    'truth value': sbool,
    'None': lambda it, n: None,
}


def one(op, kind='any'):
    f, spec, exc = OPS[op]
    def run(it):
        m = it.m
        cls = it.func(ND)
        n, v = sstr(it, 'name'), KINDS[kind](it, 'value')
        c = arbitrary(it)
        # an arbitrary state: arbitrary contents, possibly after a write and a deletion of other names
        k1, k2 = sstr(it, 'k1'), sstr(it, 'k2')
        x1 = sany(it, 'x1')
        d = m.alloc(DCell([('s', c)], cls))
        ref = m.alloc(DCell([('s', c)]))
        for r in (d, ref):
            it.d_set(r, k1, x1)
            if m.choose(it.contains_(r, k2)): it.delitem(r, k2)
        before = m.cell(d)
        got = outcome(it, lambda: f(it, d, n, v))
        if spec == 'get': want = outcome(it, lambda: it.item(ref, n))
        elif spec == 'set': want = outcome(it, lambda: it.setitem(ref, n, v))
        elif spec == 'del': want = outcome(it, lambda: it.delitem(ref, n))
        elif spec == 'in': want = ('value', m.choose(it.contains_(ref, n)))
        else: want = outcome(it, lambda: it.call(it.getattr_(ref, 'get'), [n, v], {}))
        if want[0] == 'raises' and exc: want = ('raises', Ext('builtins.' + exc))
        if got[0] != want[0] or got[0] == 'raises' and got[1] != want[1]:
            m.fail('outcome', '%s: %r instead of %r' % (op, got, want)); return
        if got[0] == 'value': it.prove_eq('outcome', got[1], want[1])
        else: it.oblige('outcome', lambda: True)
        if spec == 'set':
            x = it.force(it.item(ref, n))
            if isinstance(x, Ref): it.oblige('same-value', lambda: same(it.force(it.item(d, n)), x) or 'another value than the one written')
        it.prove_eq('contents', plain(it, d), ref, 'contents as in an ordinary dictionary')
        it.oblige('no-other-state', lambda: not m.cell(d).fields or 'kept outside of the contents: %s' % list(m.cell(d).fields))
        it.oblige('same-object', lambda: m.cell(d).cls is cls or 'class changed')
    return run


def plain(it, d):
    c = it.m.cell(d)
    return it.m.alloc(DCell(c.layers))


for _op in OPS:
    contract('C25', _op, modules=['_namedict'])(one(_op))
for _op in ('write by attribute', 'write by key'):
    for _k in KINDS:
        if _k != 'any': contract('C25', '%s (%s)' % (_op, _k), modules=['_namedict'])(one(_op, _k))


@contract('C25', 'creation', modules=['_namedict'])
def creation(it):
    cls = it.func(ND)
    c = arbitrary(it)
    src = it.m.alloc(DCell([('s', c)]))
    x = sany(it, 'x')
    for args, kw in (([], {}), ([src], {}), ([], {'a': x}), ([src], {'a': x})):
        d = it.call(cls, list(args), dict(kw))
        ref = it.m.new_dict()
        for a in args: it.d_update(ref, a)
        for k, v in kw.items(): it.d_set(ref, k, v)
        it.prove_eq('contents', plain(it, d), ref)
        it.oblige('no-other-state', lambda: not it.m.cell(d).fields or 'kept outside of the contents')
        before = it.m.cell(src)
        it.setattr_(d, 'zz', x)
        it.oblige('source-unchanged', lambda: it.m.cell(src) is before or 'writing to the new one changes the source')
