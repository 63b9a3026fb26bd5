"""Reference functions written from the published standards, on terms (or plain ints)."""
SPECS = {}
def spec(ident):
    def d(f): SPECS[ident] = f; return f
    return d
def num(bs):
    """little-endian integer argument"""
    v = 0
    for i, b in enumerate(bs):
        if b.__class__ is not int: raise ValueError('symbolic size argument')
        v |= b << (8 * i)
    return v
