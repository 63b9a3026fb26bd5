"""FIPS 186-4 DSA on terms; numbers are handled by the exact arithmetic of bn."""
from . import spec
import terms, bn
from terms import cat, ext, eq, and_, not_
from machine import CUR
from .rsa import le, nv, os2ip

def lead(h, q):
    """the leftmost bits of the digest, at most as many as q has"""
    v, n = cat([(x, 8) for x in reversed(h)]), 8 * len(h)
    k = bn.wd(q)
    if n <= k: return v if v.__class__ is int else bn.fit(v, n)
    return v >> (n - k) if v.__class__ is int else bn.fit(ext(v, n - k, k), k)
def inv(X, a, q): return bn.inverse(X, a, q)
def gt0(a): return not_(bn.same(a, 0), 1)
@spec(90)
def s_sign(p, q, g, x, k, h):
    """r, s and whether the nonce is usable"""
    X = CUR[0]; p, q, g, x, k = nv(p), nv(q), nv(g), nv(x), nv(k)
    r = bn.rem(X, bn.power(X, g, k, p), q)
    t = bn.rem(X, bn.add(lead(h, q), bn.mul(x, r)), q)
    s = bn.rem(X, bn.mul(inv(X, k, q), t), q)
    ok = and_(and_(gt0(k), bn.lt(k, q), 1), and_(gt0(r), gt0(s), 1), 1)
    return le(bn.zx(r, 32), 4) + le(bn.zx(s, 32), 4) + [terms.zext(ok, 1, 8)]
@spec(91)
def s_verify(p, q, g, y, r, s, h):
    X = CUR[0]; p, q, g, y, r, s = nv(p), nv(q), nv(g), nv(y), nv(r), nv(s)
    ok = and_(and_(gt0(r), bn.lt(r, q), 1), and_(gt0(s), bn.lt(s, q), 1), 1)
    w = inv(X, s, q)
    u1, u2 = bn.rem(X, bn.mul(lead(h, q), w), q), bn.rem(X, bn.mul(r, w), q)
    v = bn.rem(X, bn.rem(X, bn.mul(bn.power(X, g, u1, p), bn.power(X, y, u2, p)), p), q)
    return [terms.zext(and_(ok, bn.same(v, r), 1), 1, 8)]
@spec(92)
def s_public(p, g, x): return le(bn.zx(bn.power(CUR[0], nv(g), os2ip(x), nv(p)), 32), 4)
