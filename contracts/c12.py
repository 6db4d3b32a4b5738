"""C12: every link in a gophermap is one well-formed item line.

The renderer of an entry is created with arbitrary margins, padding, borders, cut length, item and
text, and what it renders is taken apart: top margin, one line of four fields, bottom margin."""
from pyvc.contract import *
from .c13 import any_box

ASSUMPTIONS = ['the host of the parser and the hosts of URLs contain no tabs and no line breaks']


def setup(it, cls):
    R = 'gopher_render.rendering:'
    four = lambda n, f: it.m.new_list([f(it, '%s%d' % (n, k)) for k in range(4)])
    margin, padding, border = four('margin', sint), four('padding', sint), four('border', sstr)
    parent = any_box(it)
    host, kind = sstr(it, 'host'), sstr(it, 'type')
    it.m.assume(no_chars(it, host, '\t\r\n'))
    it.m.assume(no_chars(it, kind, '\t\r\n'))
    link = dict(type=kind, selector=sstr(it, 'selector'), host=host, port=sint(it, 'port'))
    st = dict(margin=margin, padding=padding, border=border)
    if it.m.choose(it.m.fresh('cut', BOOL)): st['max_link_description'] = sint(it, 'max')
    ctx = dict(output_format='gophermap', href=sstr(it, 'href'), gopher_link=it.m.new_dict(link), link_reference=sint(it, 'ref'), parent_box=parent,
               link_placement='footer', image_placement='footer', settings=it.m.new_dict(st))
    return ctx, link, margin


def peel(it, parts, n, where):
    """Removes n line ends at one end of a rope"""
    parts = list(parts)
    k = 0 if where == 'top' else -1
    p = parts[k] if parts else None
    n = zi(n)
    if isinstance(p, Rep) and p.unit == '\n' and it.m.quick_valid(p.n == n): parts.pop(k); return parts
    return parts if it.m.valid(n <= 0) else None


def item_line(it, got, ctx, link, margin, desc):
    m = it.m
    parts = list(rparts(got))
    rest = peel(it, parts, it.item(margin, 0), 'top')
    if rest is None: m.fail('top-margin', 'the entry does not begin with its top margin: %r' % (parts,)); return
    it.oblige('top-margin', lambda: True)
    rest = peel(it, rest, it.item(margin, 2), 'bottom')
    if rest is None: m.fail('bottom-margin', 'the entry does not end with its bottom margin: %r' % (parts,)); return
    it.oblige('bottom-margin', lambda: True)
    line = mkR(rest)
    lines = it.as_lv(it.s_split(line, '\n')).parts
    ok = len(lines) == 2 and all(isinstance(p, It) for p in lines)
    it.oblige('one-line', lambda: ok or 'the item is %r' % (line,))
    if not ok: return
    it.prove_eq('nothing-after', lines[1].val, '')
    it.prove('no-carriage-return', no_chars(it, lines[0].val, '\r'))
    fields = it.as_lv(it.s_split(lines[0].val, '\t')).parts
    ok = len(fields) == 4 and all(isinstance(p, It) for p in fields)
    it.oblige('four-fields', lambda: ok or 'the fields are %r' % (fields,))
    if not ok: return
    f = [p.val for p in fields]
    head = it.s_cat(link['type'], '[', text(it, ctx['link_reference']), '] ')
    rp, hp = list(rparts(f[0])), list(rparts(head))
    if rp[:len(hp) - 1] == hp[:-1] and isinstance(rp[len(hp) - 1], str) and rp[len(hp) - 1].startswith(hp[-1]):
        it.oblige('type-and-number', lambda: True)
    else: it.prove('type-and-number', z3.PrefixOf(it.zs(head), it.zs(f[0])))
    clean = no_chars(it, link['selector'], '\t\r\n')
    it.prove('selector', z3.Implies(clean, it.zs(f[1]) == it.zs(link['selector'])))
    it.prove_eq('host', f[2], link['host'])
    it.prove_eq('port', f[3], text(it, link['port']))
    if desc is not None:
        clean = no_chars(it, desc, '\t\r\n')
        it.prove('description', z3.Implies(clean, it.zs(f[0]) == it.zs(it.s_cat(head, desc))))


def entry(name, title):
    def run(it):
        ctx, link, margin = setup(it, name)
        desc = None
        if title == 'none': ctx['title'] = None
        elif title == 'some': ctx['title'] = sstr(it, 'title')
        cls = it.func('gopher_render.rendering:' + name)
        before = it.as_lv(margin)
        r = it.call(cls, [sany(it, 'tag')], ctx)
        got = it.call(it.getattr_(r, 'render'), [sstr(it, 'content')], {})
        if title == 'some' and name == 'ExtractedLinkRenderer': desc = ctx['title']
        item_line(it, got, ctx, link, margin, desc)
    return run


for _c, _n in (('ExtractedLinkRenderer', 'link'), ('ExtractedImageLinkRenderer', 'image')):
    for _t, _d in (('some', 'with a title'), ('none', 'without title')):
        contract('C12', 'entry of %s %s' % ('a ' + _n if _n == 'link' else 'an image', _d), modules=['_namedict', '_textwrap', 'rendering'])(entry(_c, _t))
