"""C22: the finished document has its margins and loses only trailing whitespace.

The contract is on close, for any nodes at the top of the tree and any links waiting to be listed."""
from .parserkit import *


def run(it, opt):
    m = it.m
    box = any_box(it)
    p = parser(it, box=box, optimise=opt)
    (top, after, foot), na, nf = finished(it, p, box)
    it.call(it.getattr_(p, 'close'), [], {})
    body = it.s_join('', it.as_lv(top))
    # the links that are listed after the document are set off by line ends (what they are is C09)
    if m.choose(na > 0): body = it.s_cat(body, '\n', it.s_join('', it.as_lv(after)))
    if m.choose(nf > 0): body = it.s_cat(body, '\n', it.s_join('', it.as_lv(foot)))
    mg = it.getattr_(box, 'margin')
    want = spec(it, 'c22')('framed', body, it.item(mg, 0), it.item(mg, 3), it.item(mg, 2))
    if opt: want = spec(it, 'c22')('trimmed', want)
    it.prove_eq('the document', text(it, field(it, p, 'parsed')), want)


contract('C22', 'as rendered', modules=MODS)(lambda it: run(it, False))
contract('C22', 'optimised', modules=MODS)(lambda it: run(it, True))
