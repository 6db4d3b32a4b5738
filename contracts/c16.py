"""C16: wrapping loses, adds and reorders nothing but whitespace."""
from .wrapkit import *

contract('C16', 'lines', modules=MODS, stdlib=STD)(wrap_chunks(set()))
contract('C16', 'ends of lines', modules=MODS, stdlib=STD)(wrap_chunks({'ends'}))
contract('C16', 'long word', modules=MODS, stdlib=STD)(long_word)


@contract('C16', 'wrap', modules=MODS, stdlib=STD)
def wrap(it):
    """the lines are those made of the chunks of the text, with the options that were given"""
    whole_wrap(it)


@contract('C16', 'lemma: a round', modules=[])
def a_round(it):
    """What a round of the loop takes from the text: whitespace, the line, whitespace. Its characters that are not
    whitespace are those of the line, and what is next to each other in the line is in the text, so that words
    that are apart in the text are apart in the line."""
    m = it.m
    nows = z3.Function('without_whitespace', STR, STR)
    t0, a, b, c, t1 = (m.fresh(n, STR) for n in ('text', 'dropped', 'line', 'dropped', 'rest'))
    m.assume(t0 == z3.Concat(a, b, c, t1))
    for x, y in ((a, z3.Concat(b, c, t1)), (b, z3.Concat(c, t1)), (c, t1)): m.assume(nows(z3.Concat(x, y)) == z3.Concat(nows(x), nows(y)))
    for x in (a, c): m.assume(nows(x) == z3str(''))
    m.assumed.add('whitespace is dropped character by character: nows(x + y) == nows(x) + nows(y)')
    it.prove('characters', nows(t0) == z3.Concat(nows(b), nows(t1)))
    i = m.fresh('position', INT)
    m.pc = m.pc[:1]
    it.prove('places', z3.Implies(z3.And(0 <= i, i < z3.Length(b)), z3.SubString(t0, z3.Length(a) + i, 1) == z3.SubString(b, i, 1)))
