"""The escape codes of a colour (C21)."""
NAMES = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']


def name_code(name, background):
    base = 40 if background else 30
    if name.startswith('bright_'):
        return str(base + 60 + NAMES.index(name[7:]))
    return str(base + NAMES.index(name))


def palette_code(n, background):
    return ('48' if background else '38') + ';5;' + str(n)


def rgb_code(r, g, b, background):
    return ('48' if background else '38') + ';2;' + str(r) + ';' + str(g) + ';' + str(b)


def html_code(h, background):
    """h: the digits, three or six of them"""
    if len(h) == 3:
        return rgb_code(int(h[0] + h[0], 16), int(h[1] + h[1], 16), int(h[2] + h[2], 16), background)
    return rgb_code(int(h[0:2], 16), int(h[2:4], 16), int(h[4:6], 16), background)
