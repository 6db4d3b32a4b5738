"""The finished document (C22)."""


def framed(body, top, left, bottom):
    """margins around the body and in front of its lines"""
    return '\n' * top + ''.join([' ' * left + l for l in body.splitlines(keepends=True)]) + '\n' * bottom


def trimmed(text):
    return '\n'.join([l.rstrip() for l in text.split('\n')])
