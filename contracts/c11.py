"""C11: every link target becomes the right gopher item.

urllib.parse is external: urlparse(target) either raises ValueError or gives an object with
scheme, path, hostname (or None) and port (a number, None, or ValueError when it is asked for)."""
from pyvc.contract import *

LINK = 'gopher_render._parser:LinkParser'
f_mal = z3.Function('url_malformed', STR, BOOL)
f_badport = z3.Function('url_bad_port', STR, BOOL)
f_noport = z3.Function('url_no_port', STR, BOOL)
f_port = z3.Function('url_port', STR, INT)
f_scheme = z3.Function('url_scheme', STR, STR)
f_path = z3.Function('url_path', STR, STR)
f_nohost = z3.Function('url_no_host', STR, BOOL)
f_host = z3.Function('url_host', STR, STR)


class Url(Schema):
    name = 'url'
    def get(self, it, s, n):
        u = s.term
        if n == 'scheme': return mkR([f_scheme(u)])
        if n == 'path': return mkR([f_path(u)])
        if n == 'hostname': return mkCh([(f_nohost(u), None), (z3.Not(f_nohost(u)), mkR([f_host(u)]))])
        if n == 'port':
            if it.m.choose(f_badport(u)): it.raise_('ValueError', 'port')
            return mkCh([(f_noport(u), None), (z3.Not(f_noport(u)), SI(f_port(u)))])
        if n in ('netloc', 'query', 'fragment', 'params', 'username', 'password'):
            return mkR([z3.Function('url_' + n, STR, STR)(u)])
        raise Unsupported('attribute %s of a parsed URL' % n)

URL = Url()


def urlparse(it, f, a, k):
    h = it.force(a[0])
    if not is_str(h): raise Unsupported('urlparse of something else than text')
    z = it.zs(h)
    it.m.assumed.add('urllib.parse.urlparse: a result with scheme, path, hostname and port, or ValueError')
    if it.m.choose(f_mal(z)): it.raise_('ValueError', 'malformed URL')
    it.m.axiom(('url', z.get_id()), z3.Implies(z3.Not(f_noport(z)), f_port(z) >= 0))
    it.m.keep.append(z)
    return Sym(URL, z)


def stub_url(it):
    for n in ('urlparse', 'urlsplit'): it.m.stubs['ext:urllib.parse.' + n] = urlparse


def link(it, tag, href, attrs=(), **ctx):
    cls = it.func(LINK)
    a = it.m.new_list([('href' if tag == 'a' else 'src', href)] + list(attrs))
    return it.call(cls, [tag, None, a], ctx)


def check(tag):
    def run(it):
        stub_url(it)
        href, host, port = sstr(it, 'href'), sstr(it, 'own_host'), sint(it, 'own_port')
        l = link(it, tag, href, output_format='gophermap', link_placement='footer', image_placement='footer',
                 link_reference=sint(it, 'ref'), gopher_host=host, gopher_port=port)
        got = field(it, l, 'gopher_link')
        z = it.zs(href)
        mal = it.m.choose(z3.Or(f_mal(z), f_badport(z)))
        want = spec(it, 'c11')('item', href, mal, mkR([f_scheme(z)]), mkR([f_path(z)]),
                               None if it.m.choose(f_nohost(z)) else mkR([f_host(z)]),
                               None if it.m.choose(f_noport(z)) else SI(f_port(z)), host, port)
        for n, w in zip(('type', 'selector', 'host', 'port'), want):
            g = key(it, got, n)
            it.prove_eq(n, text(it, g), text(it, w))
        it.prove_eq('target', field(it, l, 'href'), href)
    return run


contract('C11', 'item of a link', budget=120)(check('a'))
contract('C11', 'item of an image', budget=120)(check('img'))
