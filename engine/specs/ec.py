"""The group of points of y^2 = x^3 - 3x + b modulo p with (0, 0) for the identity, and ECDSA in it."""
from . import spec
import terms, bn
from terms import eq, and_, or_, not_, ite
from machine import CUR
from .rsa import le, nv, os2ip
from .dsa import lead, gt0

def sel(c, a, b):
    if c.__class__ is int: return a if c else b
    w = max(bn.wd(a), bn.wd(b))
    return bn.small(bn.fit(ite(c, bn.zx(a, w), bn.zx(b, w), w), w))
def sub(X, a, b, p): return bn.rem(X, bn.add(a, neg(X, b, p)), p)
def neg(X, b, p):
    if b.__class__ is int: return -b % p
    w = bn.wd(p)
    return bn.rem(X, bn.fit(terms.sub(p, bn.zx(b, w), w), w), p)
def mul(X, a, b, p): return bn.rem(X, bn.mul(a, b), p)
def oncurve(X, p, b, x, y):
    x, y = bn.rem(X, x, p), bn.rem(X, y, p)
    l = mul(X, y, y, p)
    r = bn.rem(X, bn.add(mul(X, mul(X, x, x, p), x, p), bn.add(bn.mul(p - 3, x), b)), p)
    return bn.same(l, r)
def isid(x, y): return and_(bn.same(x, 0), bn.same(y, 0), 1)
def addp(X, p, P, Q):
    (x1, y1), (x2, y2) = P, Q
    sx, sy = bn.same(x1, x2), bn.same(y1, y2)
    dbl = and_(sx, sy, 1)
    num = sel(dbl, bn.rem(X, bn.add(bn.mul(3, mul(X, x1, x1, p)), p - 3), p), sub(X, y2, y1, p))
    den = sel(dbl, bn.rem(X, bn.mul(2, y1), p), sub(X, x2, x1, p))
    l = mul(X, num, bn.inverse(X, den, p), p)
    x3 = sub(X, sub(X, mul(X, l, l, p), x1, p), x2, p)
    y3 = sub(X, mul(X, l, sub(X, x1, x3, p), p), y1, p)
    none = and_(sx, or_(not_(sy, 1), bn.same(y1, 0), 1), 1)
    i1, i2 = isid(x1, y1), isid(x2, y2)
    return tuple(sel(i1, u, sel(i2, v, sel(none, 0, s))) for u, v, s in ((x2, x1, x3), (y2, y1, y3)))
def times(X, p, P, k):
    """k a number"""
    R = (0, 0)
    for i in reversed(range(k.bit_length())):
        R = addp(X, p, R, R)
        if k >> i & 1: R = addp(X, p, R, P)
    return R
def pt(P): return le(bn.zx(P[0], 32), 4) + le(bn.zx(P[1], 32), 4)
@spec(94)
def s_on(p, b, x, y): return [terms.zext(oncurve(CUR[0], nv(p), nv(b), nv(x), nv(y)), 1, 8)]
@spec(96)
def s_add(p, b, x1, y1, x2, y2): return pt(addp(CUR[0], nv(p), (nv(x1), nv(y1)), (nv(x2), nv(y2))))
@spec(97)
def s_times(p, b, x, y, k): return pt(times(CUR[0], nv(p), (nv(x), nv(y)), nv(k)))
_mult = {}
def multiples(p, G, n):
    """the multiples 0 .. n-1 of G"""
    if (p, G, n) not in _mult:
        l = [(0, 0)]
        for _ in range(n - 1): l.append(addp(CUR[0], p, l[-1], G))
        _mult[p, G, n] = l
    return _mult[p, G, n]
def basept(X, p, G, n, k):
    l = multiples(p, G, n)
    k = bn.rem(X, k, n)
    if k.__class__ is int: return l[k]
    m = min(n, terms.ub(k) + 1)
    return tuple(bn.fit(terms.lookup(tuple(q[j] for q in l[:m]), k, bn.wd(p), k.w), bn.wd(p)) for j in (0, 1))
@spec(98)
def s_base(p, b, gx, gy, k, n): return pt(basept(CUR[0], nv(p), (nv(gx), nv(gy)), nv(n), nv(k)))
@spec(101)
def s_base_(p, b, gx, gy, n, k): return pt(basept(CUR[0], nv(p), (nv(gx), nv(gy)), nv(n), os2ip(k)))
@spec(99)
def s_sign(p, b, gx, gy, n, d, k, h):
    X = CUR[0]; p, k, n, d = nv(p), os2ip(k), nv(n), nv(d)
    r = bn.rem(X, basept(X, p, (nv(gx), nv(gy)), n, k)[0], n)
    s = bn.rem(X, bn.mul(bn.inverse(X, k, n), bn.add(lead(h, n), bn.mul(d, r))), n)
    ok = and_(and_(gt0(k), bn.lt(k, n), 1), and_(gt0(r), gt0(s), 1), 1)
    return le(bn.zx(r, 32), 4) + le(bn.zx(s, 32), 4) + [terms.zext(ok, 1, 8)]
@spec(100)
def s_verify(p, b, gx, gy, n, qx, qy, r, s, h):
    X = CUR[0]; p, n, r, s = nv(p), nv(n), nv(r), nv(s)
    ok = and_(and_(gt0(r), bn.lt(r, n), 1), and_(gt0(s), bn.lt(s, n), 1), 1)
    w = bn.inverse(X, s, n)
    u1, u2 = bn.rem(X, bn.mul(lead(h, n), w), n), bn.rem(X, bn.mul(r, w), n)
    x, y = addp(X, p, basept(X, p, (nv(gx), nv(gy)), n, u1), basept(X, p, (nv(qx), nv(qy)), n, u2))
    ok = and_(ok, not_(isid(x, y), 1), 1)
    return [terms.zext(and_(ok, bn.same(bn.rem(X, x, n), r), 1), 1, 8)]
