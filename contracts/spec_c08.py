def preformatted(stack):
    """some element that is open is pre"""
    return any(t.tag == 'pre' for t in stack)
