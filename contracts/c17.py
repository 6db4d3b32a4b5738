"""C17: justification pads lines to the width without changing their words.

textwrap.wrap gives the lines (C15, C16); the contracts say what becomes of them."""
from pyvc.contract import *
from . import esc

R = 'gopher_render.rendering:'
MODS = ['_namedict', '_textwrap', 'rendering']


def setup(it):
    esc.hook(it)
    m = it.m
    f_line = m.fresh_fn('line', INT, STR)
    n = m.fresh('nlines', INT)
    m.assume(n >= 0)
    lv = it.sym_list(n, lambda i: mkR([f_line(i)]), 'lines')
    txt, width = sstr(it, 'text'), sint(it, 'width')
    m.assume(zi(width) > 0)
    def wrap(it, f, args, kw):
        it.prove_eq('the text is wrapped', args[0], txt)
        w = args[1] if len(args) > 1 else kw.get('width')
        it.prove('to the width', zi(w) == zi(width))
        return m.new_list(lv)
    m.stubs['gopher_render._textwrap:wrap'] = wrap
    return txt, width, lambda: m.new_list(lv), VIS


VIS = Prim('visible', lambda it, a, k: esc.visible(it, a[0]))


@contract('C17', 'left', modules=MODS)
def left(it):
    txt, width, lines, vis = setup(it)
    got = text(it, it.call(it.func(R + 'left_justify'), [txt, width], {}))
    it.prove_eq('the lines', got, it.s_join('\n', it.as_lv(lines())))


def each(name):
    def run(it):
        """every line, as the function for one line makes it"""
        txt, width, lines, vis = setup(it)
        got = text(it, it.call(it.func(R + name + '_justify'), [txt, width], {}))
        one = it.func(R + name)
        want = it.s_join('\n', it.as_lv(it.call(spec_map(it), [lines(), Prim('one', lambda it, a, k: it.call(one, [a[0], width], {}))], {})))
        it.prove_eq('every line', got, want)
    return run


def spec_map(it):
    return Prim('map', lambda it, a, k: it.m.new_list(it.lv_map(it.as_lv(a[0]), lambda l: ('one', it.call(a[1], [l], {})))))


for _n in ('right', 'center'): contract('C17', _n, modules=MODS)(each(_n))


def padded(name):
    def run(it):
        """one line: the line unchanged between spaces, as wide as asked for, or as it was if it is as wide already"""
        esc.hook(it)
        m = it.m
        line, width = sstr(it, 'line'), sint(it, 'width')
        m.assume(zi(width) > 0)
        got = text(it, it.call(it.func(R + name), [line, width], {}))
        parts = list(rparts(got))
        at = [k for k, p in enumerate(parts) if not isinstance(p, (str, Rep, Join, Cond)) and same(mkR([p]), line)]
        if len(at) != 1: raise Unsupported('form of the result: %r' % (parts,))
        pad = [p for k, p in enumerate(parts) if k != at[0]]
        it.oblige('spaces around the line', lambda: all(isinstance(p, str) and not p.strip(' ') or isinstance(p, Rep) and p.unit == ' ' for p in pad) or repr(pad))
        count = z3.Sum([I(0)] + [I(len(p)) if isinstance(p, str) else z3.If(p.n > 0, p.n, 0) for p in pad])
        more = zi(width) - zi(esc.visible(it, line))
        it.prove('padded to the width', count == z3.If(more > 0, more, 0))
        if name == 'right': it.oblige('in front of it', lambda: at[0] == len(parts) - 1 or repr(parts))
    return run


for _n in ('right', 'center'): contract('C17', 'one line: ' + _n, modules=MODS)(padded(_n))


@contract('C17', 'full', modules=MODS)
def full(it):
    txt, width, lines, vis = setup(it)
    got = text(it, it.call(it.func(R + 'full_justify'), [txt, width], {}))
    it.prove_eq('every line but the last', got, spec(it, 'c17')('all_but_last', lines(), width, vis))


@contract('C17', 'lemma: a justified line', modules=[])
def justified_line(it):
    """what the specification says of one line is what the property asks: the indent, then all its words in their
    order, at least one space between every two, and as wide as requested"""
    m = it.m
    line = sstr(it, 'line')
    width, seen = sint(it, 'width'), sint(it, 'seen')
    m.assume(z3.And(zi(width) > 0, zi(seen) <= zi(width)))
    ls = it.call(it.getattr_(line, 'lstrip'), [], {})
    words = m.new_list(it.as_lv(it.call(it.getattr_(it.call(it.getattr_(ls, 'rstrip'), [], {}), 'split'), [' '], {})))
    nwords = it.lv_len(it.as_lv(words))
    m.assume(nwords >= 1)
    got = text(it, spec(it, 'c17')('justified', line, width, Prim('visible', lambda it, a, k: seen)))
    full = m.choose(z3.Or(zi(seen) == zi(width), nwords == 1))
    if full:
        it.prove_eq('unchanged', got, line)
        return
    gaps, more = nwords - 1, zi(width) - zi(seen)
    m.assume(z3.And(more == gaps * (more / gaps) + more % gaps, more % gaps >= 0, more % gaps < gaps, more / gaps >= 0))
    parts = list(rparts(got))
    indent = parts.pop(0) if isinstance(parts[0], (str, Rep)) else ''
    it.prove('the indent', it.part_slen(indent) == it.s_len(line) - it.s_len(ls))
    next_word, spaces = I(0), I(0)
    wlv = it.as_lv(words).parts
    for p in parts:                # runs of words with equal gaps, and one gap between two runs
        if isinstance(p, Join):
            if len(p.lv.parts) != 1 or not isinstance(p.lv.parts[0], Sg) or p.lv.parts[0].flat: raise Unsupported('form of the line: %r' % (p,))
            sg = p.lv.parts[0]
            w = it.m.fresh('word', INT)
            it.prove_eq('the words', subst(sg.elem, [(sg.var, w)]), subst(wlv[0].elem, [(wlv[0].var, w)]))
            it.oblige('all of them', lambda: z3.is_true(sg.guard) or repr(sg))
            it.prove('in their order', z3.And(sg.lo == next_word, sg.hi > sg.lo))
            it.oblige('spaces between them', lambda: all(isinstance(x, str) and not x.strip(' ') or isinstance(x, Rep) and x.unit == ' ' for x in rparts(p.sep)) or repr(p.sep))
            it.prove('at least one', it.s_len(p.sep) >= 1)
            spaces, next_word = spaces + (sg.hi - sg.lo - 1) * it.s_len(p.sep), sg.hi
        else:
            it.oblige('spaces between them', lambda: isinstance(p, Rep) and p.unit == ' ' or repr(p))
            it.prove('at least one', p.n >= 1)
            spaces = spaces + p.n
    it.prove('to the last', next_word == nwords)
    # the words and the gaps of one space between them are what the line had: gaps + more spaces make it as wide as requested
    it.prove('exactly as wide as requested', spaces == gaps + more)
