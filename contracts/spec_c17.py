"""A justified line (C17)."""


def justified(line, width, visible):
    """the same words, and width - visible(line) more spaces between them, as evenly as possible, from the left"""
    ls = line.lstrip()
    words = ls.rstrip().split(' ')
    more = width - visible(line)
    gaps = len(words) - 1
    if more == 0 or gaps == 0:
        return line
    n = more // gaps
    r = more % gaps
    indent = ' ' * (len(line) - len(ls))
    if r == 0:
        return indent + (' ' * (n + 1)).join(words)
    return indent + (' ' * (n + 2)).join(words[:r]) + ' ' * (n + 2) + (' ' * (n + 1)).join(words[r:])


def all_but_last(lines, width, visible):
    if len(lines) == 0:
        return ''
    return '\n'.join([justified(l, width, visible) for l in lines[:-1]] + [lines[-1]])
