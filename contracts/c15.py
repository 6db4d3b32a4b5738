"""C15: wrapped lines fit the width, and escape codes do not count or break."""
from .wrapkit import *

contract('C15', 'long word', modules=MODS, stdlib=STD)(long_word)
contract('C15', 'lines', modules=MODS, stdlib=STD)(wrap_chunks({'width'}))


@contract('C15', 'wrap', modules=MODS, stdlib=STD)
def wrap(it):
    """the lines are those made of the chunks of the text, with the options that were given"""
    whole_wrap(it)


@contract('C15', 'lemma: visible characters of a line', modules=[])
def visible(it):
    """what is put together from chunks has at most their visible characters, by induction on their number"""
    m = it.m
    m.abstract = True
    t = Text(m, 'chunk')
    t.k = m.fresh('chunks', INT)
    lo, hi = m.fresh('lo', INT), m.fresh('hi', INT)
    t.none(lo)
    it.prove('no chunk', vl(t.cat(lo, lo)) <= t.sum(lo, lo))
    m.assume(z3.And(lo <= hi, vl(t.cat(lo, hi)) <= t.sum(lo, hi)))
    t.one(hi); t.split(lo, hi, simp(hi + 1))
    it.prove('one chunk more', vl(t.cat(lo, simp(hi + 1))) <= t.sum(lo, simp(hi + 1)))
    m.cover('chunks')
