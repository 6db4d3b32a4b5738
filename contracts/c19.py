"""C19: quotes, preformatted text, paragraphs and headings keep and mark their lines.

The contracts are on _inner_render; what render puts around it is C14."""
from pyvc.contract import *
from .c13 import any_box
from . import esc

R = 'gopher_render.rendering:'
MODS = ['_namedict', '_textwrap', 'rendering']
f_just = z3.Function('justified', STR, STR, INT, STR)
JUST = dict(left='left_justify', full='full_justify', right='right_justify', center='center_justify')
ASSUMPTIONS = ['line templates have the form before{}after, without other braces']


def nest(it):
    return any_box(it)


def element(it, cls, st, tag=None):
    tag = tag if tag is not None else sany(it, 'tag')
    return it.call(it.func(R + cls), [tag], dict(parent_box=nest(it), settings=it.m.new_dict(st)))


def inner(it, r, c): return text(it, it.call(field(it, r, '_inner_render'), [c], {}))


def template(it, default):
    """(settings, before, after)"""
    if it.m.choose(it.m.fresh('own template', BOOL)):
        a, b = sstr(it, 'before'), sstr(it, 'after')
        for x in (a, b): it.m.assume(no_chars(it, x, '{}'))
        return dict(line_template=it.s_cat(a, '{}', b)), a, b
    return {}, default, ''


@contract('C19', 'block quote', modules=MODS)
def quote(it):
    st, a, b = template(it, '> ')
    c = sstr(it, 'content')
    got = inner(it, element(it, 'BlockQuoteRenderer', st), c)
    lines = it.call(it.getattr_(c, 'splitlines'), [], {})
    it.prove_eq('every line behind the marker', got, spec(it, 'c19')('marked', lines, a, b))


@contract('C19', 'preformatted text', modules=MODS)
def pre(it):
    st, a, b = template(it, '')
    n = 4
    if it.m.choose(it.m.fresh('own indent', BOOL)): n = st['indent'] = sint(it, 'indent')
    c = sstr(it, 'content')
    got = inner(it, element(it, 'PreRenderer', st), c)
    lines = it.call(it.getattr_(c, 'splitlines'), [], {})
    it.prove_eq('every line behind the indent', got, spec(it, 'c19')('marked', lines, it.s_cat(mkR([Rep(' ', zi(n))]), a), b))


@contract('C19', 'heading', modules=MODS)
def heading(it):
    """by level; the content may contain anything"""
    level = choice(it, 'level', [1, 2, 3, 4, 5, 6])
    t = it.call(it.func('gopher_render._parser:TagParser'), ['h%d' % level, None, it.m.new_list([])], {})
    c = sstr(it, 'content')
    got = inner(it, element(it, 'MarkdownHeaderRenderer', {}, t), c)
    it.prove_eq('between hashes', got, it.s_cat('#' * level + ' ', c, ' ' + '#' * level))


class Paragraph(Schema):
    """an element of which only the children are known"""
    name = 'element'
    def get(self, it, s, n):
        if n == 'children': return it.m.new_list([])
        raise Unsupported('attribute %s' % n)


@contract('C19', 'paragraph', modules=MODS)
def paragraph(it):
    m = it.m
    st, a, b = template(it, '')
    kind = choice(it, 'justification', ['left', 'full', 'right', 'center'])
    if kind != 'left' or m.choose(m.fresh('named', BOOL)): st['justification'] = kind
    seen = []
    def just(it, f, args, kw):
        s, w = args[0], args[1] if len(args) > 1 else kw.get('width')
        seen.append((s, w))
        return mkR([f_just(it.zs(kind), it.zs(s), zi(w))])
    for k, n in JUST.items():
        m.stubs[R + n] = just if k == kind else (lambda it, f, args, kw: it.m.fail('justification', 'another justification is used') or '')
    c = sstr(it, 'content')
    r = element(it, 'ParagraphRenderer', st, Sym(Paragraph(), m.fresh('p', Obj)))
    got = inner(it, r, c)
    w = zi(it.getattr_(it.getattr_(r, 'box'), 'inner_width_excluding_line_template'))
    J = Prim('justified', lambda it, args, k: mkR([f_just(it.zs(kind), it.zs(args[0]), w)]))
    whole = spec(it, 'c19')('paragraph_text', c, J)
    it.prove_eq('every line on its own', got, spec(it, 'c19')('marked', it.s_split(whole, '\n'), a, b))
