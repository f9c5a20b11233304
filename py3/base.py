class Bad(Exception):
    pass


def need(cond, text, *args):
    if not cond:
        raise Bad(text % args if args else text)


def norm(headers):
    """The header set a message denotes (cookies by ';', others by NUL)."""
    out = set()
    for k, v in dict(headers).items():
        for piece in v.split(';' if k == 'cookie' else '\0'):
            out.add((k, piece.strip(' ')))
    return out
