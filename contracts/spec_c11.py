"""What the gopher item of a link target is (C11)."""


def item_type(path):
    head, dot, ext = path.rpartition('.')
    if head == '':
        return '1'
    if ext == 'html' or ext == 'htm':
        return 'h'
    if ext == 'gif':
        return 'g'
    if ext in ('jpg', 'jpeg', 'png', 'bmp', 'tiff'):
        return 'I'
    if ext in ('txt', 'csv', 'tsv', 'md'):
        return '0'
    return '9'


def item(href, malformed, scheme, path, hostname, port, own_host, own_port):
    """(type, selector, host, port) as text"""
    if malformed:
        return ('h', 'URL:' + href, own_host, str(own_port))
    if scheme == '':
        return (item_type(path), path, own_host, str(own_port))
    if scheme == 'gopher':
        return (item_type(path), path, hostname, '70' if port is None else str(port))
    return ('h', 'URL:' + href, own_host, str(own_port))
