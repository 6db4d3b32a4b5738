"""Wrapping: the wrapper with any options, the escape codes in a text, the word that is too long."""
from pyvc.contract import *
from pyvc.seqs import I
from pyvc.strs import forall
from . import esc
import ast, sys, os

T_ = 'gopher_render._textwrap:'
STD = next((p for p in ('/usr/lib/python3.12', os.path.dirname(os.__file__)) if os.path.exists(p + '/textwrap.py')), None)
MODS = ['_textwrap']
f_plain = esc.f_plain
scanned = z3.Function('scanned', STR, INT, BOOL)        # re.sub of the codes, that goes through a text from its beginning, comes to this position
code_end = z3.Function('code_end', STR, INT, INT)       # where the escape code ends that begins at a position of a text (not beyond it if none does)
OPTIONS = ['expand_tabs', 'replace_whitespace', 'fix_sentence_endings', 'break_long_words', 'drop_whitespace', 'break_on_hyphens']
blank = lambda s: z3.Function('strip', STR, STR)(s) == z3str('')


def vl(z): return z3.Length(f_plain(z))


def ax_vl(m, *zs):
    for z in zs: m.assume(z3.And(vl(z) >= 0, vl(z) <= z3.Length(z)))


def ax_sub(m, a, b):
    """what is put together has at most the visible characters of the parts"""
    m.assume(vl(z3.Concat(a, b)) <= vl(a) + vl(b))


class Match(Schema):
    """a match of the pattern of escape codes"""
    name = 'match'
    def __init__(self, z, p, e): self.z, self.p, self.e = z, p, e
    def get(self, it, s, n):
        v = {'end': mkI(self.e), 'start': mkI(self.p), 'span': (mkI(self.p), mkI(self.e)), 'group': mkR([z3.SubString(self.z, self.p, self.e - self.p)])}.get(n)
        if v is None: raise Unsupported('match.%s' % n)
        return Prim('match.' + n, lambda it, a, k: v if not k and not [x for x in a if x != 0] else it._unsup('match.' + n))


def codes(it, q):
    """re.sub and re.match of escape codes; q is an arbitrary position, for claims about all codes"""
    m = it.m
    esc.hook(it)
    def match(it, tree, args):
        if repr(tree) != esc.TREE and tree != esc.TREE or len(args) not in (1, 2): return NotImplemented
        z, p = it.zs(args[0]), zi(args[1]) if len(args) == 2 else I(0)
        e = simp(code_end(z, p))
        m.assume(z3.Implies(e > p, z3.And(e <= z3.Length(z), e >= p + 3, f_plain(z3.SubString(z, p, e - p)) == z3str(''), z3.Implies(z3.And(p < q, q < e), code_end(z, q) <= q))))
        here, there = vl(z3.SubString(z, 0, p)), lambda x: vl(z3.SubString(z, 0, x))
        m.assume(z3.Implies(p == 0, z3.And(scanned(z, p), here == 0)))
        m.assume(z3.Implies(z3.And(scanned(z, p), e > p), z3.And(scanned(z, e), there(e) == here)))
        m.assume(z3.Implies(z3.And(scanned(z, p), e <= p, p < z3.Length(z)), z3.And(scanned(z, simp(p + 1)), there(simp(p + 1)) == here + 1)))
        m.assumed.add('re.match of the pattern of escape codes: a code has no visible characters, none begins inside of another, and re.sub takes them out from the beginning of the text on')
        if m.choose(e > p): return Sym(Match(z, p, e), m.fresh('match', Obj))
        return None
    it.rematch_hook = match


def wrapper(it, **given):
    """a wrapper with any options"""
    m = it.m
    o = {n: sbool(it, n) for n in OPTIONS}
    o.update(width=sint(it, 'width'), initial_indent=sstr(it, 'initial'), subsequent_indent=sstr(it, 'subsequent'), tabsize=sint(it, 'tabsize'), max_lines=None, placeholder=sstr(it, 'placeholder'))
    o.update(given)
    w = it.call(it.func(T_ + 'AnsiAwareTextWrapper'), [], o)
    return w, o


# --- the word that is too long ------------------------------------------------------

class WordLoop:
    """while end < len(chunk): what is taken so far has as many visible characters as there is less space, and no code
    goes on behind it"""
    def __init__(self, it, fr, z, q):
        self.it, self.fr, self.z, self.q = it, fr, z, q
        self.space0 = None
    def ints(self):
        vs = [self.fr.locals.get(n) for n in ('end', 'space_left')]
        if not all(is_int(self.it.force(v)) for v in vs): raise Unsupported('loop over a long word')
        return [zi(self.it.force(v)) for v in vs]
    def inv(self, end, space):
        z, q, s0 = self.z, self.q, self.space0
        return z3.And(0 <= end, end <= z3.Length(z), scanned(z, end), vl(z3.SubString(z, 0, end)) == s0 - space, z3.Or(space >= 0, space == s0), z3.Implies(end == 0, space == s0), z3.Implies(s0 <= 0, end == 0),
                      z3.Implies(z3.And(0 <= q, q < end), code_end(z, q) <= end))
    def check(self, first):
        m = self.it.m
        end, space = self.ints()
        if first:
            self.space0 = space
            m.assume(scanned(self.z, I(0))); m.assume(vl(z3.SubString(self.z, I(0), I(0))) == 0)
        else:
            self.it.prove('the loop goes on', end > self.end)
        if not m.valid(self.inv(end, space)): raise Unsupported('the invariant of the loop over a long word')
    def havoc(self):
        m = self.it.m
        self.end, space = m.fresh('end', INT), m.fresh('space', INT)
        m.assume(self.inv(self.end, space))
        self.fr.locals['end'], self.fr.locals['space_left'] = mkI(self.end), mkI(space)
        return ('end', 'space_left'), ()


def long_word(it):
    m = it.m
    m.FEAS_MS = 200
    q = m.fresh('position', INT)
    codes(it, q)
    w, o = wrapper(it)
    f = it.getattr_(w, '_handle_long_word')
    lv, n, fs = strlist_lv(it, 'later')
    z = m.fresh('word', STR)
    m.assume(z3.Length(z) > 0)
    cl, nc, _ = strlist_lv(it, 'line')
    chunks, line = m.new_list(LV(lv.parts + (It(mkR([z])),))), m.new_list(cl)
    cur, width = sint(it, 'taken'), sint(it, 'width')
    ax_vl(m, z)
    m.assume(z3.And(cur.e >= 0, vl(z) > width.e, z3.Or(width.e < 1, cur.e <= width.e)))
    m.assume(z3.Implies(vl(z) == z3.Length(z), code_end(z, q) <= q))
    m.assumed.add('re.sub of the escape codes: a text of which nothing is removed contains none, and what is put together has at most the visible characters of its parts')
    m.loop_rules = [lambda it, s, fr: WordLoop(it, fr, z, q) if fr.func is not None and fr.locals.get('end') is not None and fr.locals.get('space_left') is not None else None]
    fit = z3.And(width.e >= 1, cur.e <= width.e)
    before = m.snapshot()
    it.call(f, [chunks, line, cur, width], {})
    bad = [l for l in it.diff(before, m.snapshot()) if not (l[0] == 'h' and l[1] in (chunks.id, line.id))]
    it.oblige('nothing else changes', lambda: not bad or '%r' % bad)
    P, L = it.nparts(m.cell(chunks).lv).parts, it.nparts(m.cell(line).lv).parts
    def old(ps, qs): return len(ps) >= len(qs) and all(same_part(a, b) for a, b in zip(ps, qs))
    if not m.choose(o['break_long_words']):
        empty = m.choose(nc == 0)
        if empty: it.oblige('a long word that is not broken has a line of its own', lambda: same_lv(P, it.nparts(lv).parts) and len(L) >= 1 and isinstance(L[-1], It) and same(it.force(L[-1].val), mkR([z])) and (len(L) == 1 or same_lv(L[:-1], it.nparts(cl).parts)) or '%r %r' % (P, L))
        else: it.oblige('a long word that is not broken is left for the next line', lambda: same_lv(P, it.nparts(m_word(lv, z)).parts) and same_lv(L, it.nparts(cl).parts) or '%r %r' % (P, L))
        m.cover('whole')
        return
    base, lbase = it.nparts(lv).parts, it.nparts(cl).parts
    if not (old(P, base) and len(P) == len(base) + 1 and old(L, lbase) and len(L) == len(lbase) + 1 and isinstance(P[-1], It) and isinstance(L[-1], It)):
        it.oblige('a piece is taken from the word', lambda: '%r %r' % (P, L)); return
    a, b = it.zs(it.force(L[-1].val)), it.zs(it.force(P[-1].val))
    ax_vl(m, a)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        e = a.arg(2)
        m.theory(z3.Implies(z3.And(0 <= e, e <= z3.Length(z)), z3.And(z == z3.Concat(a, b), z3.Length(a) == e)))
    it.prove('what is taken and what is left are the word', z == z3.Concat(a, b))
    m.assume(z3.Implies(vl(z) == z3.Length(z), vl(a) == z3.Length(a)))
    it.prove('what is taken fits', z3.Implies(fit, cur.e + vl(a) <= width.e))
    it.prove('something is taken if there is space', z3.Implies(z3.Or(width.e < 1, cur.e < width.e), z3.Length(a) > 0))
    it.prove('as much is taken as fits', z3.Implies(z3.And(fit, z3.Or(z3.Not(o['break_on_hyphens'].e), vl(z) != z3.Length(z))), z3.Or(z3.Length(b) == 0, cur.e + vl(a) == width.e)))
    it.prove('nothing is taken where nothing fits', z3.Implies(z3.And(fit, cur.e == width.e), z3.Length(a) == 0))
    it.prove('no code is cut', z3.Implies(z3.And(0 <= q, q < z3.Length(a)), code_end(z, q) <= z3.Length(a)))
    m.cover('broken')


def m_word(lv, z): return LV(lv.parts + (It(mkR([z])),))


def same_part(x, y):
    if isinstance(x, It) and isinstance(y, It): return x.guard.eq(y.guard) and same(x.val, y.val)
    return isinstance(x, Sg) and isinstance(y, Sg) and simp(x.lo).eq(simp(y.lo)) and simp(x.hi).eq(simp(y.hi)) and x.flat == y.flat and same(subst(x.elem, [(x.var, y.var)]), y.elem) and simp(z3.substitute(x.guard, (x.var, y.var))).eq(simp(y.guard))


def same_lv(a, b): return len(a) == len(b) and all(same_part(x, y) for x, y in zip(a, b))


# --- lines from chunks -----------------------------------------------------------------

class Text:
    """chunks f(0), f(1), ..., the last of which is the first in the text: cat(lo, hi) is the text of those from hi - 1
    down to lo, sum(lo, hi) their visible lengths"""
    def __init__(self, m, name):
        self.m = m
        self.f = m.fresh_fn(name, INT, STR)
        self.cat, self.sum = m.fresh_fn(name + '_text', INT, INT, STR), m.fresh_fn(name + '_length', INT, INT, INT)
    def lv(self, it, n): return it.sym_list(n, lambda i: mkR([self.f(i)]), 'chunks')
    def line(self, it, hi, lo):
        """the chunks from hi - 1 down to lo as a line"""
        return it.sym_list(simp(hi - lo), lambda i: mkR([self.f(simp(hi - 1 - i))]), 'line')
    def split(self, lo, mid, hi):
        a, b, c = self.cat(mid, hi), self.cat(lo, mid), self.cat(lo, hi)
        self.m.assume(z3.Implies(z3.And(lo <= mid, mid <= hi), z3.And(blank(c) == z3.And(blank(a), blank(b)), self.sum(lo, hi) == self.sum(lo, mid) + self.sum(mid, hi), vl(c) <= vl(a) + vl(b))))
    def one(self, i):
        c = self.cat(i, simp(i + 1))
        self.chunk(i)
        self.m.assume(z3.And(c == self.f(i), self.sum(i, simp(i + 1)) == vl(self.f(i)), vl(c) >= 0))
    def none(self, i): self.m.assume(z3.And(self.cat(i, i) == z3str(''), self.sum(i, i) == 0, blank(self.cat(i, i)), vl(self.cat(i, i)) == 0))
    def chunk(self, i):
        """every chunk is whitespace or has none"""
        self.m.assume(z3.Implies(z3.And(0 <= i, i < self.k), fact_chunk(self.f(i))))
    def first(self, lo, hi):
        """the text begins as its first chunk and ends as its last one, unless that is empty"""
        self.chunk(simp(hi - 1)); self.chunk(lo)
        self.m.assume(z3.Implies(lo < hi, z3.And(z3.Implies(z3.Not(blank(self.f(simp(hi - 1)))), begins(self.cat(lo, hi)) == begins(self.f(simp(hi - 1)))),
                                                 z3.Implies(z3.Not(blank(self.f(lo))), ends(self.cat(lo, hi)) == ends(self.f(lo))))))


begins, ends = z3.Function('begins_with_space', STR, BOOL), z3.Function('ends_with_space', STR, BOOL)      # space, tab or line end
solid = z3.Function('has_no_space', STR, BOOL)
fact_solid = lambda s: z3.Implies(solid(s), z3.And(z3.Not(begins(s)), z3.Not(ends(s))))
fact_chunk = lambda s: z3.And(z3.Or(blank(s), solid(s)), fact_solid(s))


def muts(node):
    """names of the lists that a statement changes"""
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Delete): out |= {t.value.id for t in x.targets if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)}
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ('append', 'pop', 'extend', 'insert', 'remove', 'clear', 'reverse'): out.add(x.func.value.id)
        if isinstance(x, (ast.Assign, ast.AugAssign)):
            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name): out.add(t.value.id)
    return out


class Wrapping:
    """the loops of _wrap_chunks"""
    def __init__(self, it, chunks, options, lists):
        self.it, self.m, self.chunks, self.o, self.lists = it, it.m, chunks, options, lists
        self.lines = None
        self.text = None
        it.m.loop_rules = [self.rule]

    def cellparts(self, ref): return self.it.nparts(self.m.cell(ref).lv).parts

    def rule(self, it, node, fr):
        v = lambda n: fr.locals.get(n)
        names = {n: v(n) for n in muts(node) if isinstance(v(n), Ref) and isinstance(self.m.heap.get(v(n).id), LCell)}
        ids = {r.id for r in names.values()}
        if self.text is None:
            if self.chunks.id in muts_ids(node, fr): return Outer(self, node, fr)
            return None
        others = ids - {self.chunks.id, self.lines.id}
        if self.lines.id in ids or len(others) > 1: return None
        if ids == {self.chunks.id}: return Drop(self, fr)
        if self.chunks.id in ids: return Fit(self, fr, Ref(min(others)), node)
        if others: return DropEnd(self, fr, Ref(min(others)), node)
        return None

    def count(self, what='chunks'):
        """how many chunks are left, all of them untouched"""
        ps = self.cellparts(self.chunks)
        if not ps: return I(0)
        if len(ps) == 1 and self.is_chunks(ps[0]): return simp(ps[0].hi)
        raise Unsupported('wrapping: chunks %r' % (ps,))

    def is_chunks(self, p):
        return isinstance(p, Sg) and not p.flat and z3.is_true(simp(p.guard)) and simp(p.lo).eq(I(0)) and simp(self.it.zs(subst(p.elem, [(p.var, I(7))]))).eq(simp(self.text.f(I(7))))

    def line_parts(self, ref):
        """(how many chunks from the first one of the line on, what else is there)"""
        ps = list(self.cellparts(ref))
        n = I(0)
        if ps and isinstance(ps[0], Sg):
            p = ps.pop(0)
            if p.flat or not z3.is_true(simp(p.guard)) or not simp(p.lo).eq(I(0)) or not simp(self.it.zs(subst(p.elem, [(p.var, I(7))]))).eq(simp(self.text.f(simp(self.k0 - 8)))): raise Unsupported('wrapping: line %r %s %s' % (p, self.k0, simp(self.it.zs(subst(p.elem, [(p.var, I(7))])))))
            n = simp(p.hi)
        ps = [p for p in ps if not (isinstance(p, It) and not z3.is_true(p.guard)) or self.m.choose(p.guard)]
        if not all(isinstance(p, It) for p in ps): raise Unsupported('wrapping: line %r' % (ps,))
        return n, [self.it.zs(self.it.force(p.val)) for p in ps]


def muts_ids(node, fr): return {fr.locals[n].id for n in muts(node) if isinstance(fr.locals.get(n), Ref)}


class Outer:
    def __init__(self, w, node, fr):
        self.w, self.fr = w, fr
        cands = [fr.locals[n] for n in muts(node) if isinstance(fr.locals.get(n), Ref) and fr.locals[n].id != w.chunks.id and isinstance(w.m.heap.get(fr.locals[n].id), LCell)]
        if len({r.id for r in cands}) != 1: raise Unsupported('wrapping: lists %r' % (cands,))
        self.lines = cands[0]
    def check(self, first):
        w, it, m = self.w, self.w.it, self.w.m
        if first:
            ps = w.cellparts(w.chunks)
            if w.cellparts(self.lines) or len(ps) > 1: raise Unsupported('wrapping starts otherwise')
            want = it.nparts(it.lv_reverse(w.start)).parts
            it.oblige('wrapping starts with the chunks in order', lambda: same_lv(ps, want) or '%r instead of %r' % (ps, want))
            w.lines = self.lines
            return
        t = w.text
        ps = list(w.cellparts(w.chunks))
        r = I(0)
        if ps and w.is_chunks(ps[0]): r = simp(ps.pop(0).hi)
        if not all(isinstance(p, It) and z3.is_true(p.guard) for p in ps) or len(ps) > 1: raise Unsupported('wrapping: chunks %r' % (ps,))
        rest = it.zs(it.force(ps[0].val)) if ps else None
        L = w.cellparts(w.lines)
        if len(L) and same_part(L[0], w.oldlines[0]) if w.oldlines else True: new = L[len(w.oldlines):]
        else: raise Unsupported('wrapping: lines %r' % (L,))
        if len(new) > 1 or not all(isinstance(p, It) and z3.is_true(p.guard) for p in new): raise Unsupported('wrapping: lines %r' % (new,))
        k, k0 = w.k, w.k0
        # what was taken: the chunks k - 1 .. r, or those down to r + 1 and a piece of chunk r (then `rest` is left of it)
        low = r if rest is None else simp(r + 1)
        taken, more = (w.taken if w.taken is not None else (k0, None))
        pts = [simp(low), simp(k0), simp(k)]
        for p in pts: t.none(p)
        t.split(low, k0, k)
        it.oblige('the chunk that is broken', lambda: rest is None or w.piece is not None and m.valid(r == w.piece[0]) and rest.eq(w.piece[2]) or 'is another one')
        it.prove('only whitespace is dropped in front of a line', blank(t.cat(k0, k)))
        if 'width' in w.claims:
            nxt = w.r if w.r is not None else k0
            t.one(simp(nxt - 1))
            room = zi(w.o['width']) - z3.If(w.nl > 0, vl(it.zs(w.o['subsequent_indent'])), vl(it.zs(w.o['initial_indent'])))
            it.prove('all chunks that fit are on the line', z3.Or(nxt == 0, t.sum(nxt, k0) + vl(t.f(simp(nxt - 1))) > room))
        if not new:
            # nothing but whitespace goes
            t.one(low); t.none(simp(low + 1)); t.split(low, simp(low + 1), k0)
            it.prove('without a line, only whitespace is dropped', blank(t.cat(low, k0)))
            if rest is not None: it.prove('without a line, only whitespace of a word is dropped', blank(w.piece[1]))
            self.progress(k, r, rest)
            return
        x = it.force(new[0].val)
        later = m.choose(w.nl > 0)
        ind = w.o['subsequent_indent'] if later else w.o['initial_indent']
        parts, ip = list(rparts(x)), list(rparts(ind))
        if len(parts) < len(ip) or not all(same(a, b) for a, b in zip(parts, ip)): it.oblige('a line begins with its indent', lambda: '%r' % (x,)); return
        body = [it.zs(mkR([p])) for p in parts[len(ip):]]
        # the body: the text of the chunks k0 - 1 .. r2, and maybe the piece
        r2, tail = k0, list(body)
        if tail and z3.is_app(tail[0]) and tail[0].decl().eq(t.cat(I(0), I(0)).decl()):
            c = tail.pop(0)
            if not m.valid(c.arg(1) == k0): it.oblige('a line begins where the last one ended', lambda: '%r' % (c,)); return
            r2 = c.arg(0)
        t.none(r2); t.split(low, r2, k0); t.first(r2, k0); t.one(r2); t.one(simp(k0 - 1))
        if 'ends' in w.claims: t.split(r2, simp(r2 + 1), k0); t.split(r2, simp(k0 - 1), k0)
        piece = w.piece
        if tail:
            if piece is None or len(tail) != 1 or not tail[0].eq(piece[1]):
                if len(tail) == 1 and tail[0].eq(t.f(low)):       # a whole word of its own
                    t.one(low); t.split(low, simp(low + 1), k0); t.none(simp(low + 1))
                    it.oblige('a word of its own', lambda: m.valid(z3.And(r2 == k0, low + 1 == k0)) or 'is not the next one')
                    self.line(later, x, [tail[0]], ind); self.progress(k, r, rest); return
                it.oblige('a line consists of chunks', lambda: '%r' % (body,)); return
            it.oblige('all chunks up to the piece', lambda: m.valid(r2 == low) or 'are not in the line')
        else:
            it.prove('only whitespace is dropped behind a line', blank(t.cat(low, r2)))
            if rest is not None: it.prove('only whitespace of a word is dropped', blank(piece[1]))
        self.line(later, x, ([t.cat(r2, k0)] if not m.choose(r2 == k0) else []) + tail, ind)
        self.progress(k, r, rest)

    def line(self, later, x, body, ind):
        """what a line must be"""
        w, it, m = self.w, self.w.it, self.w.m
        if 'width' in w.claims:
            zi_, tot = it.zs(ind), I(0)
            ax_vl(m, zi_)
            e = zi_
            for b in body:
                m.assume(vl(z3.Concat(e, b)) <= vl(e) + vl(b)); e = z3.Concat(e, b)
            sizes = vl(zi_)
            for b in body: sizes = sizes + vl(b)
            t = w.text
            r = w.r if w.r is not None else w.k0
            for b in body:
                if z3.is_app(b) and b.decl().eq(t.cat(I(0), I(0)).decl()):
                    m.assume(z3.Implies(z3.And(b.arg(0) <= b.arg(1)), vl(b) <= t.sum(b.arg(0), b.arg(1))))        # lemma: visible characters of a line
                    t.split(r, b.arg(0), b.arg(1))
                    m.assume(z3.Implies(r <= b.arg(0), t.sum(r, b.arg(0)) >= 0))
            it.prove('the line is as long as its parts at most', vl(e) <= sizes)
            it.prove('the line fits', sizes <= zi(w.o['width']))
        if 'ends' in w.claims:
            m.assume(z3.Implies(z3.Not(blank(body[-1])), True))
            for b in body: m.assume(fact_solid(b))
            it.prove('the line does not end with whitespace', z3.And(z3.Not(blank(body[-1])), z3.Not(ends(body[-1]))))
            if later: it.prove('the line does not begin with whitespace', z3.And(z3.Not(blank(body[0])), z3.Not(begins(body[0]))) if len(body) == 1 else z3.Or(z3.And(z3.Not(blank(body[0])), z3.Not(begins(body[0]))), z3.And(body[0] == z3str(''), z3.Not(begins(body[1])))))
        m.cover('line')

    def progress(self, k, r, rest):
        w, it, m = self.w, self.w.it, self.w.m
        if rest is None: it.prove('every round makes progress', r < k)
        else: it.prove('every round makes progress', z3.Or(r + 1 < k, z3.Length(w.piece[1]) > 0))

    def havoc(self):
        w, m = self.w, self.w.m
        t = w.text = Text(m, 'chunk')
        k, w.nl = m.fresh('left', INT), m.fresh('lines', INT)
        m.assume(z3.And(k >= 0, w.nl >= 0))
        t.k = k
        m.heap[w.chunks.id] = LCell(t.lv(w.it, k))
        g = m.fresh_fn('line', INT, STR)
        m.heap[w.lines.id] = LCell(w.it.sym_list(w.nl, lambda i: mkR([g(i)]), 'lines'))
        w.oldlines = w.cellparts(w.lines)
        w.k = w.k0 = k
        w.r = w.piece = w.taken = None
        return (), (w.chunks.id, w.lines.id)


class Drop:
    """chunks are dropped from the text: whitespace only"""
    def __init__(self, w, fr): self.w = w
    def check(self, first):
        w, m = self.w, self.w.m
        k0 = w.count()
        t = w.text
        t.none(k0)
        if not first: t.one(k0); t.split(k0, simp(k0 + 1), w.k)
        if not m.valid(z3.And(k0 <= w.k, blank(t.cat(k0, w.k)))): self.w.it.prove('only whitespace is dropped from the text', z3.And(k0 <= w.k, blank(t.cat(k0, w.k))))
    def havoc(self):
        w, m = self.w, self.w.m
        k0 = w.k0 = m.fresh('start', INT)
        m.assume(z3.And(0 <= k0, k0 <= w.k, blank(w.text.cat(k0, w.k))))
        m.heap[w.chunks.id] = LCell(w.text.lv(w.it, k0))
        return (), (w.chunks.id,)


class Fit:
    """chunks go to the line while they fit"""
    def __init__(self, w, fr, cur, node):
        self.w, self.fr, self.cur = w, fr, cur
        ints = {x.target.id for y in node.body for x in ast.walk(y) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)} | {x.targets[0].id for y in node.body for x in ast.walk(y) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name)}
        ints = [n for n in ints if n in fr.locals and not isinstance(fr.locals[n], Poison) and is_int(w.it.force(fr.locals[n])) and simp(zi(w.it.force(fr.locals[n]))).eq(I(0))]
        if len(ints) != 1: raise Unsupported('wrapping: length of the line')
        self.len = ints[0]
        self.width = fr.locals.get('width')
        if self.width is None: raise Unsupported('wrapping: width of the line')
        self.width = zi(w.it.force(self.width))
    def inv(self, r):
        w, t = self.w, self.w.text
        return z3.And(0 <= r, r <= w.k0, z3.Or(r == w.k0, t.sum(r, w.k0) <= self.width))
    def check(self, first):
        w, m, it = self.w, self.w.m, self.w.it
        t = w.text
        if first:
            w.k0 = w.count()
            if w.cellparts(self.cur): raise Unsupported('wrapping: line starts otherwise')
            t.none(w.k0)
            return
        r = w.count()
        ps = w.cellparts(self.cur)
        t.one(r); t.split(r, simp(r + 1), w.k0)
        n, tail = w.line_parts(self.cur)
        if m.valid(r + 1 == self.r) and m.valid(n == w.k0 - self.r) and not tail:
            it.prove('a chunk that is not put on the line is whitespace', blank(t.f(r)))
            raise Unsupported('wrapping: a chunk is left out')
        ok = m.valid(r + 1 == self.r) and m.valid(n == w.k0 - self.r) and len(tail) == 1 and m.valid(tail[0] == t.f(r))
        if not ok: raise Unsupported('wrapping: the line is %r with %r left' % (ps, r))
        e = zi(it.force(self.fr.locals[self.len]))
        if not m.valid(z3.And(self.inv(r), e == t.sum(r, w.k0))):
            if 'width' in w.claims: it.prove('what is on the line fits', z3.And(self.inv(r), e == t.sum(r, w.k0)))
            else: raise Unsupported('wrapping: length of the line')
    def havoc(self):
        w, m, it = self.w, self.w.m, self.w.it
        t = w.text
        r = self.r = w.r = m.fresh('next', INT)
        t.none(w.k0); t.split(r, w.k0, w.k0)
        m.assume(self.inv(r))
        m.assume(t.sum(r, w.k0) >= 0)
        m.heap[w.chunks.id] = LCell(t.lv(it, r))
        m.heap[self.cur.id] = LCell(t.line(it, w.k0, r))
        self.fr.locals[self.len] = mkI(simp(t.sum(r, w.k0)))
        w.cur = self.cur
        return (self.len,), (w.chunks.id, self.cur.id)


class DropEnd:
    """chunks are dropped from the end of the line: whitespace only"""
    def __init__(self, w, fr, cur, node):
        self.w, self.fr, self.cur = w, fr, cur
        self.names = sorted({x.id for y in node.body for x in ast.walk(y) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and x.id in fr.locals})
    def check(self, first):
        w, m = self.w, self.w.m
        n, tail = w.line_parts(self.cur)
        t = w.text
        if first: self.n, self.tail = n, tail; return
        if tail: raise Unsupported('wrapping: end of the line')
        lo, lo0 = simp(w.k0 - n), simp(w.k0 - self.n)
        t.none(lo0); t.one(simp(lo - 1)); t.split(lo0, simp(lo - 1), lo)
        goal = z3.And(n >= 0, n <= self.n, blank(t.cat(lo0, lo)), *[blank(x) for x in self.tail])
        if not m.valid(goal): w.it.prove('only whitespace is dropped from the line', goal)
    def havoc(self):
        w, m, it = self.w, self.w.m, self.w.it
        t = w.text
        if m.choose(m.fresh('unchanged', BOOL)): return tuple(self.names), (self.cur.id,)
        n = m.fresh('kept', INT)
        m.assume(z3.And(0 <= n, n <= self.n, blank(t.cat(simp(w.k0 - self.n), simp(w.k0 - n))), *[blank(x) for x in self.tail]))
        m.heap[self.cur.id] = LCell(t.line(it, w.k0, simp(w.k0 - n)))
        for x in self.names:
            if isinstance(self.fr.locals[x], Poison): continue
            if is_int(it.force(self.fr.locals[x])): self.fr.locals[x] = sint(it, x)
            else: raise Unsupported('wrapping: %s' % x)
        return tuple(self.names), (self.cur.id,)


def wrap_chunks(claims):
    def run(it):
        m = it.m
        m.FEAS_MS, m.PROVE_MS, m.abstract = 300, 5000, True
        esc.hook(it)
        w, o = wrapper(it, **(dict(break_long_words=True) if 'width' in claims else {}), **(dict(drop_whitespace=True) if 'ends' in claims else {}))
        W = zi(o['width'])
        m.assume(W >= 1)
        if 'width' in claims:
            for n in ('initial_indent', 'subsequent_indent'): m.assume(vl(it.zs(o[n])) < W)
        f = it.getattr_(w, '_wrap_chunks')
        field(it, w, '_handle_long_word')
        lv, n, fs = strlist_lv(it, 'piece')
        chunks = m.new_list(lv)
        g = Wrapping(it, chunks, o, None)
        g.claims, g.start = claims, lv
        old_join = lambda sep, l: type(it).s_join(it, sep, l)
        def join(sep, l):
            ps = it.nparts(l).parts
            if sep == '' and g.text is not None and ps and isinstance(ps[0], Sg):
                try: c, tail = g.line_parts(m.new_list(LV(ps)))
                except Unsupported: return old_join(sep, l)
                return mkR([g.text.cat(simp(g.k0 - c), simp(g.k0))] + tail)
            return old_join(sep, l)
        it.s_join = join
        def long(it, f, a, k):
            """the contract of _handle_long_word, checked under C15"""
            self, ch, cur, taken, width = a
            if ch != chunks and ch.id != chunks.id or k: raise Unsupported('wrapping: long word of %r' % (ch,))
            t = g.text
            r = simp(g.count() - 1)
            it.prove('there is a long word', r >= 0)
            c = t.f(r)
            m.assume(fact_chunk(c))
            wd, tk = zi(it.force(width)), zi(it.force(taken))
            count, tail = g.line_parts(cur)
            lo = simp(g.k0 - count)
            it.oblige('the line has the chunks before the long word', lambda: not tail and m.valid(lo == r + 1) or '%r' % (tail,))
            if 'width' in claims: it.prove('what the long word is told', z3.And(tk == t.sum(lo, g.k0), vl(c) > wd, tk >= 0, z3.Or(wd < 1, tk <= wd)))
            g.r = lo
            if not m.choose(o['break_long_words']):
                if m.choose(count == 0):
                    m.heap[chunks.id] = LCell(t.lv(it, r))
                    m.heap[cur.id] = LCell(LV((It(mkR([c])),)))
                return None
            a_, b_ = m.fresh('taken', STR), m.fresh('rest', STR)
            m.assume(z3.And(c == z3.Concat(a_, b_), z3.Implies(solid(c), z3.And(solid(a_), solid(b_))), blank(c) == z3.And(blank(a_), blank(b_)), fact_chunk(a_), fact_chunk(b_)))
            m.assume(z3.Implies(z3.And(wd >= 1, tk <= wd), tk + vl(a_) <= wd))
            m.assume(z3.Implies(z3.Or(wd < 1, tk < wd), z3.Length(a_) > 0))
            ax_vl(m, a_)
            g.piece = (r, a_, b_)
            m.heap[chunks.id] = LCell(LV(t.lv(it, r).parts + (It(mkR([b_])),)))
            m.heap[cur.id] = LCell(LV(m.cell(cur).lv.parts + (It(mkR([a_])),)))
            return None
        m.stubs[it.getattr_(w, '_handle_long_word').fn.qual] = long
        m.assumed.add('str.strip is empty for whitespace only; what is put together from whitespace is whitespace')
        before = m.snapshot()
        r = it.call(f, [chunks], {})
        it.oblige('the lines are the result', lambda: g.lines is not None and isinstance(r, Ref) and r.id == g.lines.id or '%r' % (r,))
        it.prove('nothing of the text is left', g.count() == 0)
        m.cover('done')
    return run


SPLITTING = ['wrap', '_munge_whitespace', '_split', '_split_chunks', '_fix_sentence_endings']


def whole_wrap(it):
    m = it.m
    given = {n: sbool(it, n) for n in OPTIONS}
    given.update(initial_indent=sstr(it, 'initial'), subsequent_indent=sstr(it, 'subsequent'))
    if m.choose(m.fresh('few options', BOOL)): given = {n: given[n] for n in ('break_long_words', 'subsequent_indent')}
    W, text = sint(it, 'width'), sstr(it, 'text')
    lv, n, _ = strlist_lv(it, 'piece')
    st = {}
    def split(it, f, a, k):
        if len(a) != 2 or k: raise Unsupported('splitting otherwise')
        it.prove_eq('the text is split', a[1], text)
        st['chunks'] = m.new_list(lv)
        return st['chunks']
    def fix(it, f, a, k):
        it.oblige('the chunks of the text', lambda: 'chunks' in st and a[1].id == st['chunks'].id or 'others')
        return None
    def lines(it, f, a, k):
        w = a[0]
        it.oblige('lines of the chunks of the text', lambda: len(a) == 2 and 'chunks' in st and isinstance(a[1], Ref) and a[1].id == st['chunks'].id and same_lv(it.nparts(m.cell(a[1]).lv).parts, it.nparts(lv).parts) or '%r' % (a,))
        it.prove_eq('width', it.getattr_(w, 'width'), W)
        for o in OPTIONS + ['initial_indent', 'subsequent_indent']:
            std = {'fix_sentence_endings': False, 'initial_indent': '', 'subsequent_indent': ''}.get(o, True)
            it.prove_eq('option ' + o, it.getattr_(w, o), given.get(o, std))
        it.oblige('no limit of lines', lambda: it.force(it.getattr_(w, 'max_lines')) is None or 'limited')
        st['lines'] = m.new_list(strlist_lv(it, 'result')[0])
        return st['lines']
    m.stubs['textwrap:TextWrapper._split_chunks'], m.stubs['textwrap:TextWrapper._fix_sentence_endings'] = split, fix
    w, _ = wrapper(it)
    for n in SPLITTING:
        if it.getattr_(w, n).fn.qual != 'textwrap:TextWrapper.' + n: raise Unsupported('%s of the wrapper is its own' % n)
    m.stubs[it.getattr_(w, '_wrap_chunks').fn.qual] = lines
    m.assumed.add('textwrap.TextWrapper._split_chunks: the chunks are the text, but for whitespace that becomes other whitespace; each is whitespace or has none; none begins or ends inside of an escape code; _fix_sentence_endings only changes chunks of whitespace')
    before = m.snapshot()
    r = it.call(it.func(T_ + 'wrap'), [text, W], dict(given))
    it.oblige('the lines are the result', lambda: 'lines' in st and isinstance(r, Ref) and r.id == st['lines'].id or '%r' % (r,))
    m.cover('wrapped')
