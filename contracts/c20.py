"""C20: inline content passes through its template unchanged, whatever it contains."""
from pyvc.contract import *

R = 'gopher_render.rendering:'
MODS = ['_namedict', '_textwrap', 'rendering', '_selectors', '_parser']


def tag(it, name, parent=None):
    return it.call(it.func('gopher_render._parser:TagParser'), [name, parent, it.m.new_list([])], {})


def render(it, cls, content, t=None, **ctx):
    """content as text, and the result as text"""
    r = it.call(it.func(R + cls), [t if t is not None else tag(it, sstr(it, 'tag'))], ctx)
    return text(it, it.call(it.getattr_(r, 'render'), [content], {}))


def capitalised(it, c, cap): return it.s_upper(c) if cap else c


DEFAULT = {'InlineRenderer': '', 'EmRenderer': '_', 'StrongRenderer': '**', 'UnderlineRenderer': '_', 'StrikethroughRenderer': '~~'}


def anytemplate(cls):
    def run(it):
        a, b, c = sstr(it, 'before'), sstr(it, 'after'), sstr(it, 'content')
        for x in (a, b): it.m.assume(no_chars(it, x, '{}'))
        st = dict(template=it.s_cat(a, '{}', b))
        cap = False
        if it.m.choose(it.m.fresh('given', BOOL)):
            cap = it.m.choose(it.m.fresh('capitalised', BOOL)); st['capitalized'] = cap
        got = render(it, cls, c, settings=it.m.new_dict(st))
        it.prove_eq('decorations around the content', got, it.s_cat(a, capitalised(it, c, cap), b))
    return run


def default(cls):
    def run(it):
        c = sstr(it, 'content')
        d = DEFAULT[cls]
        cap = it.m.choose(it.m.fresh('capitalised', BOOL))
        got = render(it, cls, c, **({'settings': it.m.new_dict(dict(capitalized=cap))} if cap else {}))
        it.prove_eq('decorations around the content', got, it.s_cat(d, capitalised(it, c, cap), d))
    return run


for _c in DEFAULT:
    contract('C20', _c + ': any template', modules=MODS)(anytemplate(_c))
    contract('C20', _c + ': default template', modules=MODS)(default(_c))


@contract('C20', 'braces in literal templates', modules=MODS)
def braces(it):
    for cls in ('InlineRenderer', 'EmRenderer'):
        c = sstr(it, 'content')
        got = render(it, cls, c, settings=it.m.new_dict(dict(template='{{%s {} \\1}}')))
        it.prove_eq('%s: template with braces of its own' % cls, got, it.s_cat('{%s ', c, ' \\1}'))


@contract('C20', 'nested inline elements', modules=MODS)
def nested(it):
    c = sstr(it, 'content')
    inner = render(it, 'EmRenderer', c)
    got = render(it, 'StrongRenderer', inner)
    it.prove_eq('content of the inner one once', got, it.s_cat('**_', c, '_**'))


@contract('C20', 'code', modules=MODS)
def code(it):
    m = it.m
    kind = choice(it, 'parent', ['none', 'document', 'element'])
    p = None
    pt = ''
    if kind == 'document': p = it.call(it.func('gopher_render._parser:DocumentParser'), [], {})
    elif kind == 'element':
        pt = sstr(it, 'parent_tag')
        p = tag(it, pt, None)
    c = sstr(it, 'content')
    got = render(it, 'CodeRenderer', c, tag(it, 'code', p))
    if kind == 'element' and m.choose(it.str_eq(pt, 'pre')): want = c
    elif m.choose(it.contains(c, '\n')): want = it.s_cat('```\n', c, '\n```\n')
    else: want = it.s_cat('`', c, '`')
    it.prove_eq('decorations around the code, none directly in pre', got, want)


@contract('C20', 'code with templates', modules=MODS)
def code2(it):
    a, b, c = sstr(it, 'before'), sstr(it, 'after'), sstr(it, 'content')
    for x in (a, b): it.m.assume(no_chars(it, x, '{}'))
    t = it.s_cat(a, '{}', b)
    got = render(it, 'CodeRenderer', c, tag(it, 'code'), settings=it.m.new_dict(dict(inline_template=t, block_template=t)))
    it.prove_eq('decorations around the code', got, it.s_cat(a, c, b))


@contract('C20', 'line break', modules=MODS)
def br(it):
    it.prove_eq('one line break', render(it, 'BreakRenderer', sstr(it, 'content')), '\n')
    it.prove_eq('one line break, capitalised', render(it, 'BreakRenderer', sstr(it, 'content'), settings=it.m.new_dict(dict(capitalized=True))), '\n')


@contract('C20', 'no template', modules=MODS)
def plain(it):
    c = sstr(it, 'content')
    it.prove_eq('Renderer: content as it is', render(it, 'Renderer', c), c)
    it.prove_eq('NonRenderer: nothing', render(it, 'NonRenderer', c), '')
