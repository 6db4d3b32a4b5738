"""The rows of a framed block (C14)."""


def frame(lines, border, padding, inner, outer, visible):
    """Rows from top to bottom: one of outer characters per character of the top border, padding,
    the lines, padding, one per character of the bottom border."""
    top = [c * outer for c in border[0]]
    pad = border[3] + ' ' * inner + border[1]
    rows = [row(l, border, padding, inner, visible) for l in lines]
    bottom = [c * outer for c in border[2]]
    return '\n'.join(top + [pad] * padding[0] + rows + [pad] * padding[2] + bottom)


def row(l, border, padding, inner, visible):
    return border[3] + ' ' * padding[3] + l + ' ' * (inner - padding[3] - visible(l)) + border[1]


def margins(block, margin):
    """Every line of the block behind the left margin, empty lines above and below."""
    return '\n' * margin[0] + ''.join([' ' * margin[3] + l for l in block.splitlines(keepends=True)]) + '\n' * margin[2]
