"""Lines of quotes, preformatted text and paragraphs (C19)."""


def marked(lines, before, after):
    """every line unchanged between what its template puts before and after it"""
    return '\n'.join([before + line + after for line in lines])


def paragraph(content, before, after, justified):
    """every line of the content is justified on its own"""
    lines = []
    for part in content.split('\n'):
        lines.extend(justified(part.strip()).split('\n'))
    return '\n'.join([before + l + after for l in lines])


def paragraph_text(content, justified):
    return '\n'.join([justified(part.strip()) for part in content.split('\n')])
