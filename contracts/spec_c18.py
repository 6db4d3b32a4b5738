"""List items (C18)."""


def item(lines, before, after):
    """the first line behind the marker, the others below it"""
    return '\n'.join([before + lines[0] + after] + [' ' * (len(before) + len(after)) + l for l in lines[1:]])
