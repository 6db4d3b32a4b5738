"""C10: references and list entries show the number, target and title of their link."""
from pyvc.contract import *
from .c13 import any_box

R = 'gopher_render.rendering:'
MODS = ['_namedict', '_textwrap', 'rendering']
LINKCLS, ENTRYCLS = ('LinkRenderer', 'ImageRenderer'), ('ExtractedLinkRenderer', 'ExtractedImageLinkRenderer')


def render(it, cls, content, **ctx):
    r = it.call(it.func(R + cls), [sany(it, 'tag')], ctx)
    return text(it, it.call(it.getattr_(r, 'render'), [content], {}))


def values(it, titled):
    """what the parser hands over; the title is missing, None, empty or a text"""
    ctx = dict(href=sstr(it, 'href'), link_reference=sint(it, 'number'), output_format='text')
    title = None
    if titled == 'none': ctx['title'] = None
    elif titled == 'empty': ctx['title'] = ''
    elif titled == 'some':
        ctx['title'] = title = sstr(it, 'title')
        it.m.assume(z3.Length(it.zs(title)) > 0)
    return ctx, title


TITLED = ('missing', 'none', 'empty', 'some')


@contract('C10', 'link in the text', modules=MODS)
def link(it):
    ctx, title = values(it, choice(it, 'titled', TITLED))
    inline = it.m.choose(it.m.fresh('inline', BOOL))
    ctx['link_placement'] = 'inline' if inline else choice(it, 'placement', ['footer', 'after_block'])
    ctx['image_placement'] = choice(it, 'other', ['inline', 'footer'])
    c = sstr(it, 'content')
    got = render(it, 'LinkRenderer', c, **ctx)
    href, n = ctx['href'], text(it, ctx['link_reference'])
    if not inline: want = it.s_cat('[', c, '][', n, ']')
    elif title is None: want = it.s_cat('[', c, '](', href, ')')
    else: want = it.s_cat('[', c, '](', href, ' "', title, '")')
    it.prove_eq('inline link' if inline else 'reference', got, want)


@contract('C10', 'image in the text', modules=MODS)
def image(it):
    ctx, title = values(it, choice(it, 'titled', TITLED))
    inline = it.m.choose(it.m.fresh('inline', BOOL))
    ctx['image_placement'] = 'inline' if inline else choice(it, 'placement', ['footer', 'after_block'])
    ctx['link_placement'] = choice(it, 'other', ['inline', 'footer'])
    got = render(it, 'ImageRenderer', sstr(it, 'content'), **ctx)
    shown = 'Image' if title is None else title
    if inline: want = it.s_cat('![', shown, '](', ctx['href'], ')')
    else: want = it.s_cat('[', shown, '][', text(it, ctx['link_reference']), ']')
    it.prove_eq('inline image' if inline else 'reference', got, want)


def box(it):
    return any_box(it)


def shortened(it, s, limit):
    """the description as the property says: without whitespace around it, cut to the limit with an ellipsis"""
    s = it.call(it.getattr_(s, 'strip'), [], {}) if not isinstance(s, str) else s.strip()
    if it.m.choose(it.s_len(s) > zi(limit)): return it.s_cat(it.slice_(s, None, limit, None), '...'), True
    return s, False


def entry(cls):
    def run(it):
        titled = choice(it, 'titled', TITLED[1:])
        ctx, title = values(it, titled)
        ctx.update(parent_box=box(it), link_placement='footer', image_placement='footer')
        limit = 10
        st = dict(margin=it.m.new_list([0, 0, 0, 0]))
        if it.m.choose(it.m.fresh('own limit', BOOL)):
            limit = st['max_link_description'] = sint(it, 'limit')
            it.m.assume(zi(limit) >= 0)
            ctx['settings'] = it.m.new_dict(st)
        c = sstr(it, 'content')
        r = it.call(it.func(R + cls), [sany(it, 'tag')], ctx)
        got = text(it, it.call(it.getattr_(r, '_inner_render'), [c], {}))
        href, n = ctx['href'], text(it, ctx['link_reference'])
        image = cls == 'ExtractedImageLinkRenderer'
        d, cut = shortened(it, ('Image' if title is None else title) if image else c, limit)
        want = it.s_cat('\n[', n, '] ', d, ': ', href)
        if image: again = (title if title is not None else 'Image') if cut else None
        else: again = title
        if again is not None: want = it.s_cat(want, ' "', again, '"')
        it.prove_eq('number, description, target and title', got, want)
    return run


def gopher_entry(cls):
    def run(it):
        titled = choice(it, 'titled', ('none', 'some'))
        ctx, title = values(it, titled)
        link = dict(type=sstr(it, 'type'), selector=sstr(it, 'selector'), host=sstr(it, 'host'), port=sint(it, 'port'))
        ctx.update(parent_box=box(it), link_placement='footer', image_placement='footer', output_format='gophermap', gopher_link=it.m.new_dict(link))
        limit = 10
        if it.m.choose(it.m.fresh('own limit', BOOL)):
            limit = sint(it, 'limit')
            it.m.assume(zi(limit) >= 0)
            ctx['settings'] = it.m.new_dict(dict(max_link_description=limit))
        c = sstr(it, 'content')
        if title is not None: it.m.assume(no_chars(it, title, '\t\r\n'))
        it.m.assume(no_chars(it, c, '\t\r\n'))
        it.m.assume(no_chars(it, link['selector'], '\t\r\n'))
        r = it.call(it.func(R + cls), [sany(it, 'tag')], ctx)
        got = text(it, it.call(it.getattr_(r, '_inner_render'), [c], {}))
        image = cls == 'ExtractedImageLinkRenderer'
        if image: d, _ = shortened(it, 'Image' if title is None else title, limit)
        elif title is not None: d = title
        else: d, _ = shortened(it, c, limit)
        want = it.s_cat(link['type'], '[', text(it, ctx['link_reference']), '] ', d, '\t', link['selector'], '\t', link['host'], '\t', text(it, link['port']), '\n')
        it.prove_eq('type, number, description, selector, host and port', got, want)
    return run


for _c, _n in zip(ENTRYCLS, ('link', 'image')):
    contract('C10', 'list entry of %s' % _n, modules=MODS)(entry(_c))
    contract('C10', 'gophermap entry of %s' % _n, modules=MODS)(gopher_entry(_c))


def whole(tag, place, fmt):
    """LinkParser hands its values over: what render and link_render give, with the default renderers"""
    def run(it):
        from contracts.c11 import stub_url
        m = it.m
        P = 'gopher_render._parser:'
        stub_url(it)
        href, n, c, title = sstr(it, 'href'), sint(it, 'number'), sstr(it, 'content'), None
        name = 'title' if tag == 'a' else 'alt'
        attrs = [('href' if tag == 'a' else 'src', href)]
        if m.choose(m.fresh('titled', BOOL)):
            title = sstr(it, 'title')
            m.assume(z3.Length(it.zs(title)) > 0)
            attrs.insert(0 if m.choose(m.fresh('title first', BOOL)) else 1, (name, title))
        other = choice(it, 'other', ['inline', 'footer', 'after_block'])
        a, i = (place, other) if tag == 'a' else (other, place)
        l = it.call(it.func(P + 'LinkParser'), [tag, None, m.new_list(attrs)], dict(output_format=fmt, link_placement=a,
                    image_placement=i, link_reference=n, gopher_host='h', gopher_port=70))
        it.call(it.getattr_(l, 'assign_renderer'), [((it.func(R + ('LinkRenderer' if tag == 'a' else 'ImageRenderer')), m.new_dict({})),
                                                     (it.func(R + ('ExtractedLinkRenderer' if tag == 'a' else 'ExtractedImageLinkRenderer')), m.new_dict({})))], {})
        if tag == 'a':
            d = it.call(it.func(P + 'DataParser'), [l, c], dict(in_pre=True))
            it.call(it.getattr_(it.getattr_(l, 'children'), 'append'), [d], {})
        b = box(it)
        num, shown = text(it, n), 'Image' if title is None else title
        got = text(it, it.call(it.getattr_(l, 'render'), [b], {}))
        if place != 'inline': want = it.s_cat('[', c if tag == 'a' else shown, '][', num, ']')
        elif tag == 'img': want = it.s_cat('![', shown, '](', href, ')')
        elif title is None: want = it.s_cat('[', c, '](', href, ')')
        else: want = it.s_cat('[', c, '](', href, ' "', title, '")')
        it.prove_eq('in the text', got, want)
        if place == 'inline': return
        # the entry is what its renderer makes of the same values: shown by the contracts above
        seen, ctx = [], {}
        class Entry(Schema):
            name = 'entry renderer'
            def get(self, it, s, n):
                if n == 'box': it.raise_('AttributeError', n)
                if n == 'render': return Prim('render', lambda it, a, k: seen.append(a[0]) or 'ENTRY')
                raise Unsupported('attribute %s of a renderer' % n)
        def create(it, a, k):
            ctx.update(k)
            return Sym(Entry(), m.fresh('entry', INT))
        it.call(it.getattr_(l, 'assign_renderer'), [((it.func(R + 'LinkRenderer'), m.new_dict({})), (Prim('entry', create), m.new_dict({})))], {})
        got = it.call(it.getattr_(l, 'link_render'), [b], {})
        it.oblige('entry rendered once', lambda: len(seen) == 1 or 'its renderer is used %d times' % len(seen))
        it.prove_eq('entry unchanged', got, 'ENTRY')
        if len(seen) != 1: return
        content = seen[0]
        if tag == 'a': it.prove_eq('content of the entry', content, c)
        it.prove_eq('target of the entry', ctx['href'], href)
        it.prove_eq('number of the entry', text(it, ctx['link_reference']), num)
        it.prove_eq('format of the entry', ctx['output_format'], fmt)
        it.oblige('item of the entry', lambda: same(ctx['gopher_link'], it.getattr_(l, 'gopher_link')) or 'another one')
        t = ctx['title']
        if title is None: it.oblige('title of the entry', lambda: t is None or 'it has one')
        else: it.prove_eq('title of the entry', t, title)
    return run


for _t in ('a', 'img'):
    for _p, _f in (('inline', 'text'), ('footer', 'text'), ('after_block', 'text'), ('footer', 'gophermap')):
        contract('C10', '%s %s, %s' % (_t, _p, _f), modules=MODS + ['_selectors', '_parser'])(whole(_t, _p, _f))
