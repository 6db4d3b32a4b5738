"""Attribute selectors as CSS defines them (C01)."""


def attribute(present, text, operator, value):
    """text: the value of the attribute, '' if it has none; value: that of the selector"""
    if not present:
        return False
    if operator == 'exists':
        return True
    if operator == '=':
        return text == value
    if operator == '~=':
        return value in text.split()
    if operator == '|=':
        return text == value or text.startswith(value + '-')
    if value == '':
        return False
    if operator == '^=':
        return text.startswith(value)
    if operator == '$=':
        return text.endswith(value)
    return value in text
