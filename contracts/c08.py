"""C08: whitespace is collapsed outside preformatted text and untouched inside it.

`words` is the sequence of the words of a text, each followed by an end mark, so that the words of a text are those of
its parts wherever it is cut at whitespace."""
import ast, re
from .parserkit import *
from pyvc.strs import f_ws0, f_ws1, f_blank, f_strip, f_lstrip, f_rstrip, f_split

TRUSTED = list(TRUSTED) if 'TRUSTED' in globals() else []
f_words = z3.Function('words', STR, STR)
WS = [chr(c) for c in range(0x3001) if chr(c).isspace()]


class Theory:
    """assumed contracts of str.split, str.strip and re.sub, about words and about whitespace at the ends"""
    def __init__(self, it):
        self.it, self.args = it, {}
        it.resub_hook = self.sub
        it.m.assumed.add('re.sub of runs of some whitespace characters by a space: the words, and whether it begins or ends with whitespace, stay; none of these characters but single spaces are left; nothing else appears')
        it.m.assumed.add('str.strip, str.split at a whitespace character: keep the words; the words of a text are those of its parts if cut at whitespace')

    def sub(self, it, pat, rep, s, tree):
        if rep != ' ' or not re.fullmatch(r'\[\(MAX_REPEAT, \(1, MAXREPEAT, \[\((IN, \[.*\]|LITERAL, \d+)\)\]\)\)\]', tree): return None
        c = re.compile(pat)
        if 'NEGATE' in tree or any(c.fullmatch(chr(k)) and not chr(k).isspace() for k in range(0x3100)): return None
        C = [x for x in WS if c.fullmatch(x)]
        m = it.m
        y = m.fresh('collapsed', STR)
        z = it.zs(s)
        self.args[y.get_id()] = s
        m.assume(f_ws0(y) == self.first(s)); m.assume(f_ws1(y) == self.last(s))
        for x in ' \t\n\r':
            if x in C and x != ' ': m.assume(z3.Not(z3.Contains(y, z3str(x))))
            elif x not in C and self.without(s, x): m.assume(z3.Not(z3.Contains(y, z3str(x))))
        if ' ' in C: m.assume(z3.Not(z3.Contains(y, z3str('  '))))
        return mkR([y])

    def without(self, v, c):
        """a character does not occur"""
        it, m = self.it, self.it.m
        for p in rparts(v):
            if isinstance(p, str): ok = c not in p
            elif isinstance(p, Join):
                ok = isinstance(p.sep, str) and c not in p.sep
                for q in p.lv.parts:
                    if isinstance(q, It): ok = ok and self.without(q.val, c)
                    elif isinstance(q, Sg) and not q.flat:
                        n = len(m.pc)
                        m.assume(z3.And(q.lo <= q.var, q.var < q.hi, q.guard))
                        ok = ok and self.without(q.elem, c)
                        del m.pc[n:]
                    else: ok = False
            elif isinstance(p, (Rep, Cond)): ok = False
            else: ok = m.valid(z3.Not(z3.Contains(p, z3str(c))))
            if not ok: return False
        return True

    def first(self, v): return self.end(list(rparts(v)), f_ws0, 0)
    def last(self, v): return self.end(list(rparts(v))[::-1], f_ws1, -1)

    def end(self, ps, f, k):
        """begins (ends) with whitespace"""
        if not ps: return z3.BoolVal(False)
        p, rest = ps[0], ps[1:]
        if isinstance(p, str): return z3.BoolVal(p[k].isspace()) if p else self.end(rest, f, k)
        if isinstance(p, Join):
            lv = p.lv
            n = self.it.lv_len(lv)
            if not self.it.m.choose(n > 0): return self.end(rest, f, k)
            x = self.it.lv_index(lv, 0 if k == 0 else -1)
            more = self.it.m.choose(n > 1)
            if more and not p.sep: raise Unsupported('ends of a text')
            return self.end((list(rparts(x)) if k == 0 else list(rparts(x))[::-1]) + (list(rparts(p.sep)) if more else rest), f, k)
        if isinstance(p, (Rep, Cond)): raise Unsupported('ends of a text')
        return z3.If(p == z3str(''), self.end(rest, f, k), f(p))

    def words(self, v):
        """the words of a text as a rope, where it can be taken apart"""
        it, out, cur = self.it, [], []
        ps = list(rparts(v))
        def blank_end(p, k): return isinstance(p, str) and p and p[k].isspace()
        # cut at literal whitespace
        def flush():
            if not cur: return
            if len(cur) == 1: out.extend(self.atom(cur[0]))
            elif all(isinstance(p, str) for p in cur): out.extend(self.atom(''.join(cur)))
            else: out.append(f_words(it.zs(mkR(cur))))
            cur.clear()
        for p in ps:
            if isinstance(p, str):
                bits = re.split(r'(\s+)', p)
                for b in bits:
                    if b and b.isspace(): flush()
                    elif b: cur.append(b)
            elif isinstance(p, Join):
                if not isinstance(p.sep, str) or not p.sep or not p.sep.isspace(): raise Unsupported('words of joined text')
                if cur or ps[-1] is not p and not blank_end(ps[ps.index(p) + 1], 0): raise Unsupported('words of joined text')
                if it.m.valid(it.lv_len(p.lv) == 1): out.extend(rparts(self.words(it.lv_index(p.lv, 0)))); continue
                out.extend(rparts(it.s_join('', it.lv_map(p.lv, self.words_))))
            else: cur.append(p)
        flush()
        return mkR(out)

    def words_(self, x): return 'one', self.words(x)

    def atom(self, p):
        it = self.it
        if isinstance(p, str): return rparts(''.join(w + '\x00' for w in p.split()))
        if isinstance(p, (Rep, Cond)): raise Unsupported('words of %r' % (p,))
        if p.get_id() in self.args: return rparts(self.words(self.args[p.get_id()]))
        if z3.is_app(p) and p.decl().eq(f_strip) or z3.is_app(p) and (p.decl().eq(f_lstrip) or p.decl().eq(f_rstrip)): return self.atom(p.arg(0))
        if z3.is_string_value(p): return rparts(''.join(w + '\x00' for w in p.as_string().split()))
        return [f_words(p)]


@contract('C08', 'outside of pre', modules=MODS, budget=60)
def collapsed(it):
    m = it.m
    th = Theory(it)
    x = sstr(it, 'text')
    d = it.call(it.func(P + 'DataParser'), [Sym(NODEX, m.fresh('parent', INT)), x], dict(in_pre=False))
    got = text(it, field(it, d, 'data'))
    for c, n in (('\n', 'no line feed'), ('\t', 'no tab'), ('  ', 'no two spaces')):
        it.prove(n, z3.Not(zb(it.contains(got, c))))
    # the text as its lines
    z = it.zs(x)
    lines = it.s_split(x, '\n')
    n = it.lv_len(lines)
    m.assume(n >= 1)
    l0, l1 = it.zs(it.lv_index(lines, 0)), it.zs(it.lv_index(lines, -1))
    m.assume(f_ws0(z) == z3.If(n == 1, f_ws0(l0), z3.Or(l0 == z3str(''), f_ws0(l0))))
    m.assume(f_ws1(z) == z3.If(n == 1, f_ws1(l1), z3.Or(l1 == z3str(''), f_ws1(l1))))
    it.prove('begins with whitespace if the text does', th.first(got) == f_ws0(z))
    it.prove('ends with whitespace if the text does', th.last(got) == f_ws1(z))
    if m.choose(n == 1): want = mkR([f_words(l0)])
    elif m.choose(n == 2): want = mkR([f_words(l0), f_words(l1)])
    else: want = it.s_cat(mkR([f_words(l0)]), it.s_join('', it.lv_map(it.lv_slice(lines, 1, -1, None), th.words_)), mkR([f_words(l1)]))
    it.prove_eq('the same words', th.words(got), want)
    m.cover('collapsed')


@contract('C08', 'inside of pre', modules=MODS)
def kept(it):
    x = sstr(it, 'text')
    d = it.call(it.func(P + 'DataParser'), [Sym(NODEX, it.m.fresh('parent', INT)), x], dict(in_pre=True))
    it.prove_eq('as it is', field(it, d, 'data'), x)


def pre(it, p): return it.truth_value(spec(it, 'c08')('preformatted', it.getattr_(p, '_tag_stack'))) if hasattr(it, 'truth_value') else spec(it, 'c08')('preformatted', it.getattr_(p, '_tag_stack'))


def handler(name):
    def run(it):
        m = it.m
        quiet_nodes(it)
        if name != 'handle_starttag': quiet_constructors(it)
        else: m.stubs[P + 'LinkParser._parse_href'] = lambda it, f, a, k: m.new_dict({})
        o, p, tree, top, n = state(it)
        it.setattr_(p, '_in_pre', pre(it, p))
        told = []
        if name == 'handle_starttag':
            tag = choice(it, 'tag', ['a', 'img', 'br', 'pre', None]) or sstr(it, 'tag')
            if not isinstance(tag, str): m.assume(z3.Not(z3.Or(*[zb(it.py_eq(tag, t)) for t in ('a', 'img', 'br', 'pre')])))
            it.call(it.getattr_(p, name), [tag, m.new_list()], {})
        elif name == 'handle_data':
            x = sstr(it, 'text')
            D = it.func(P + 'DataParser')
            made = m.stubs['new:' + D.qual]
            def new(it, cls, a, k):
                told.append((a, dict(k)))
                return made(it, cls, a, k)
            m.stubs['new:' + D.qual] = new
            was = it.getattr_(p, '_in_pre')
            it.call(it.getattr_(p, name), [x], {})
            it.oblige('one text', lambda: len(told) == 1 or 'made %d' % len(told))
            if len(told) == 1:
                a, k = told[0]
                it.prove('preformatted exactly inside of pre', zb(it.truth(k.get('in_pre', False))) == zb(it.truth(was)))
                it.prove_eq('the text', a[1] if len(a) > 1 else k['data'], x)
        else: it.call(it.getattr_(p, name), [sstr(it, 'tag')], {})
        it.prove('inside of pre exactly while one is open', zb(it.truth(it.getattr_(p, '_in_pre'))) == zb(it.truth(pre(it, p))))
        m.cover(name)
    return run


for _n in ('handle_starttag', 'handle_endtag', 'handle_data'): contract('C08', _n, modules=MODS, budget=60)(handler(_n))


@contract('C08', 'new parser', modules=MODS)
def new(it):
    p = parser(it)
    it.prove('outside of pre at first', z3.Not(zb(it.truth(field(it, p, '_in_pre')))))
    v = it.as_lv(field(it, p, '_tag_stack'))
    it.oblige('nothing is open', lambda: not v.parts or 'something is')
