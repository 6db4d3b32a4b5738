"""ANSI escape codes in texts: re.sub of them by nothing, as an assumed contract of the re module."""
from pyvc.contract import *
import re._parser as _rp

f_plain = z3.Function('without_codes', STR, STR)       # the text without its escape codes
f_whole = z3.Function('no_unfinished_code', STR, BOOL)  # no suffix of the text is the beginning of an escape code
ESC = '\x1b'
TREE = repr(_rp.parse('\x1b' + r'\[[;\d]*m', 0))
INSIDE = '[;0123456789m'


def esc_free(it, p):
    """whether a part of a rope is known to contain no escape character"""
    if isinstance(p, str): return ESC not in p
    if isinstance(p, Rep): return esc_free_all(it, p.unit)
    if isinstance(p, (Join,)): return False
    if isinstance(p, Cond): return esc_free_all(it, p.a) and esc_free_all(it, p.b)
    return it.m.quick_valid(z3.Not(z3.Contains(p, z3str(ESC)))) if not it.m.index_vars else False


def esc_free_all(it, s): return all(esc_free(it, p) for p in rparts(s))


def whole(it, p):
    """no unfinished code at the end of this part"""
    if isinstance(p, str): return ESC not in p or p.endswith('m') and p.count(ESC) == 1
    return not isinstance(p, (Rep, Join, Cond)) and it.m.quick_valid(f_whole(p))


def plain(it, s):
    """the text without its escape codes.  A text can be taken apart in front of and behind a part without
    escape character that follows a part without unfinished code."""
    if isinstance(s, str):
        import re
        return re.sub('\x1b' + r'\[[;\d]*m', '', s)
    out, block = [], []
    def flush():
        if not block: return
        r = mkR(block); block.clear()
        if isinstance(r, str): out.append(plain(it, r)); return
        z = it.zs(r)
        t = f_plain(z)
        it.gax(('plain', t.get_id()), z3.And(z3.Length(t) <= z3.Length(z), z3.Implies(z3.Not(z3.Contains(z, z3str(ESC))), t == z),
               *[z3.Implies(z3.Contains(t, z3str(c)), z3.Contains(z, z3str(c))) for c in '\t\r\n ']), t)
        out.append(t)
    done = True                    # nothing unfinished before this part
    for p in rparts(s):
        free = esc_free(it, p)
        if done and free: flush(); out.append(p); continue
        if not done and isinstance(p, str) and p[0] not in INSIDE and free: flush(); out.append(p); done = True; continue
        if done: flush()
        block.append(p)
        done = whole(it, p)
    flush()
    it.m.assumed.add('re.sub of the escape codes: what contains none is unchanged, the result is not longer, and the text can be taken apart where no code is unfinished')
    return mkR(out)


def hook(it):
    old = getattr(it, 'resub_hook', None)
    def f(it, pat, rep, s, tree):
        if tree == TREE and rep == '': return plain(it, s)
        return old(it, pat, rep, s, tree) if old else None
    it.resub_hook = f


def visible(it, s): return mkI(it.s_len(plain(it, s)))
