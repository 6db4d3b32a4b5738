"""Shared parts of the runtime contract checks: generators, harvested constants, model documents."""
import ast, os, random, re, string

REPO = os.environ.get('VP_REPO', '/repo')
PKG = os.path.join(REPO, 'gopher_render')
TAGS = ['p', 'div', 'ul', 'ol', 'li', 'em', 'strong', 'span', 'code', 'pre', 'blockquote', 'h1', 'h3', 'a', 'section', 'b', 'i', 'u', 'del', 'dl', 'dt', 'dd', 'x-y']
CLASSES = ['a', 'b', 'c', 'ab', 'a-b', 'hl', 'A', 'B']
IDS = ['a', 'b', 'main', 'x1', 'A', 'Main', 'ma']
ATTRS = ['title', 'lang', 'href', 'data-x', 'class', 'id']
WORDS = ['one', 'two', 'three', 'x', 'yy', 'Longerword', 'a-b-c', 'end.', 'What?', 'naïve', '漢字', 'supercalifragilistic', '12', 'x{y}', '{0}', '{}', '%s', 'don\'t', '--', 'a_b', '*z*', '"q"', '\\n', 'İ', 'ß', '#', '>', '&', ':', '==', '/p', '|', 'URL:']


class Consts:
    """Literals of the code under test (and of the verifier's counter-models): values next to which code tends to branch."""
    def __init__(self, extra=()):
        ints, strs = set(), set()
        for f in sorted(os.listdir(PKG)):
            if not f.endswith('.py') or f == 'cli.py': continue
            try: t = ast.parse(open(os.path.join(PKG, f), encoding='utf-8').read())
            except SyntaxError: continue
            docs = set()
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr): docs.add(id(n.body[0].value))
                if isinstance(n, ast.Expr): docs.add(id(n.value))
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    if isinstance(n.value, bool) or n.value is None: continue
                    if isinstance(n.value, int): ints.update((n.value - 1, n.value, n.value + 1))
                    elif isinstance(n.value, str) and 0 < len(n.value) <= 24: strs.add(n.value)
        for x in extra:
            if isinstance(x, int): ints.update((x - 1, x, x + 1))
            elif isinstance(x, str) and x: strs.add(x)
        self.ints = sorted(i for i in ints if -1000 <= i <= 100000)
        self.strs = sorted(strs)
        self.extra = [x for x in extra if isinstance(x, str) and x]


class Gen:
    def __init__(self, seed, consts):
        self.r = random.Random(seed)
        self.c = consts
        for n in ('random', 'choice', 'randint', 'sample', 'shuffle', 'choices'): setattr(self, n, getattr(self.r, n))

    def p(self, x): return self.r.random() < x

    def int(self, lo, hi):
        """an integer in lo..hi, often at an edge or near a literal of the code"""
        q = self.r.random()
        if q < 0.15: return lo
        if q < 0.2: return hi
        if q < 0.4:
            c = [i for i in self.c.ints if lo <= i <= hi]
            if c: return self.r.choice(c)
        if q < 0.7: return self.r.randint(lo, min(hi, lo + 4))
        return self.r.randint(lo, hi)

    def four(self, hi=4):
        if self.p(0.2): return [0, 0, 0, 0]
        return [self.int(0, hi) if self.p(0.75) else 0 for _ in range(4)]

    def word(self):
        q = self.r.random()
        if q < 0.7: return self.r.choice(WORDS)
        if q < 0.78 and self.c.strs:
            s = self.r.choice(self.c.strs)
            s = ''.join(ch for ch in s if not ch.isspace() and ch != '\x1b')
            if s: return s
        n = self.r.choice([1, 2, 3, 5, 8, 9, 10, 11, 12, 15, 20, 33, 70])
        return ''.join(self.r.choice(string.ascii_letters + '.-,_') for _ in range(n))

    def words(self, n): return [self.word() for _ in range(n)]

    def text(self, n=8, ws=' \n\t', edge=True):
        """words with assorted whitespace"""
        k = self.r.randint(0, n)
        out = []
        if edge and self.p(0.3): out.append(self.space(ws))
        for j in range(k):
            if j: out.append(self.space(ws) if self.p(0.4) else ' ')
            out.append(self.word())
        if edge and self.p(0.3): out.append(self.space(ws))
        return ''.join(out)

    def space(self, ws): return ''.join(self.r.choice(ws) for _ in range(self.r.choice([1, 1, 1, 2, 2, 3, 5])))

    def ansi(self, text, wrap=0.3):
        """put escape codes around some of the words"""
        out = []
        for w in re.split(r'(\s+)', text):
            if w and not w.isspace() and self.p(wrap):
                a, b = self.r.choice([('1', '22'), ('31', '39'), ('38;5;200', '39'), ('4', '24'), ('', '0'), ('48;2;1;2;3', '49')])
                k = self.r.randint(0, len(w)); l = self.r.randint(k, len(w))
                w = w[:k] + '\x1b[%sm' % a + w[k:l] + '\x1b[%sm' % b + w[l:]
            out.append(w)
        return ''.join(out)

    # model documents: element = [tag, [[name, value or None]...], [children]], text = str
    def attrs(self):
        out, seen = [], set()
        for _ in range(self.r.choice([0, 0, 1, 1, 2, 3])):
            n = self.r.choice(ATTRS)
            if n in seen: continue
            seen.add(n)
            out.append([n, self.attr_value(n)])
        return out

    def attr_value(self, n):
        if self.p(0.07): return None
        if self.p(0.05): return ''
        if n == 'class': return ' '.join(self.r.sample(CLASSES, self.r.randint(1, 3)))
        if n == 'id': return self.r.choice(IDS)
        return self.r.choice(['a', 'b', 'a b', 'en', 'en-US', 'enx', 'a-b', 'b a', 'ab', 'x', 'a-', '-a', 'main', 'a b c', 'hl x', 'A', 'EN', 'a b ', ' a', 'a  b', 'a-b-c']) if self.p(0.85) else self.text(3, ' ')

    def doc(self, depth=4, width=4, tags=TAGS, text=True, attrs=True, void=True, top=True):
        out = []
        if top and depth and self.p(0.04): depth, width = 1, self.r.choice([25, 70, 130])
        for _ in range(self.r.randint(width // 2 if width > 20 else 0 if depth < 3 else 1, width)):
            q = self.r.random()
            if q < (0.3 if text else 0) or depth == 0:
                if text and not (out and isinstance(out[-1], str)): out.append(self.text(4) or 'x')
            elif q < 0.4 and void: out.append([self.r.choice(['br', 'img']), [], []])
            else: out.append([self.r.choice(tags), self.attrs() if attrs else [], self.doc(depth - 1, min(width, 6) if width > 20 else width, tags, text, attrs, void, False)])
        return out


def esc(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
def esca(s): return esc(s).replace('"', '&quot;')


def html(doc):
    out = []
    for n in doc:
        if isinstance(n, str): out.append(esc(n))
        else:
            out.append('<' + n[0] + ''.join(' ' + k if v is None else ' %s="%s"' % (k, esca(v)) for k, v in n[1]) + '>')
            if n[0] not in ('br', 'img'): out.append(html(n[2])); out.append('</%s>' % n[0])
    return ''.join(out)


class N:
    """node of a model document with its surroundings"""
    def __init__(self, raw, parent, index):
        self.raw, self.parent = raw, parent
        self.tag = None if isinstance(raw, str) else raw[0]
        self.attrs = {} if isinstance(raw, str) else dict((k, v) for k, v in raw[1])
        self.children = [] if isinstance(raw, str) else link(raw[2], self)

    @property
    def elements(self): return [c for c in self.children if c.tag is not None]


class Root:
    tag = None
    parent = None
    def __init__(self, doc): self.children = link(doc, self)
    @property
    def elements(self): return [c for c in self.children if c.tag is not None]


def link(doc, parent): return [N(x, parent, k) for k, x in enumerate(doc)]


def walk(nodes):
    for n in nodes:
        yield n
        yield from walk(n.children)


def parser(**kw):
    import gopher_render
    return gopher_render.GopherHTMLParser(**kw)


def feed(source, **kw):
    p = parser(**kw)
    p.feed(source)
    return p


def render(source, **kw):
    p = feed(source, **kw)
    p.close()
    return p.parsed


def pairs(doc, p):
    """(model node, real node) for all nodes, or None if the tree has another shape"""
    out = []
    def go(ms, rs):
        if len(ms) != len(rs): return False
        for m, r in zip(ms, rs):
            if m.tag != r.tag: return False
            out.append((m, r))
            if not go(m.children, r.children): return False
        return True
    root = Root(doc)
    return (root, out) if go(root.children, p.tree.children) else None


ESC = re.compile('\x1b\\[[;0-9]*m')
def vis(s): return ESC.sub('', s)
def vlen(s): return len(vis(s))
