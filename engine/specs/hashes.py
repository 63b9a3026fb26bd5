"""MD5 (RFC 1321), SHA-1/2 (FIPS 180-4), SM3 (GB/T 32905), SHA-3 (FIPS 202)"""
import math
import terms
from terms import add, xor, and_, or_, not_, rotl, cat, ext, lshrc
from specs import spec, num

def be(bs): return cat([(b, 8) for b in reversed(bs)])
def le(bs): return cat([(b, 8) for b in bs])
def tobe(v, n): return [ext(v, 8 * (n - 1 - i), 8) for i in range(n)]
def tole(v, n): return [ext(v, 8 * i, 8) for i in range(n)]
def sum_(w, *xs):
    r = 0
    for x in xs: r = add(r, x, w)
    return r

def pad(m, block, lenbytes, order):
    n = len(m)
    z = (-(n + 1 + lenbytes)) % block
    return list(m) + [0x80] + [0] * z + list((8 * n).to_bytes(lenbytes, order))

def icbrt(n):
    lo, hi = 0, 1 << (n.bit_length() // 3 + 2)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if mid ** 3 <= n: lo = mid
        else: hi = mid
    return lo
def primes(n):
    out = []; c = 2
    while len(out) < n:
        if all(c % p for p in out): out.append(c)
        c += 1
    return out
PR = primes(80)
def frac_cbrt(p, bits): return icbrt(p << (3 * bits)) & ((1 << bits) - 1)
def frac_sqrt(p, bits): return math.isqrt(p << (2 * bits)) & ((1 << bits) - 1)

# ---- MD5
S5 = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4
K5 = [int(abs(math.sin(i + 1)) * 2 ** 32) for i in range(64)]
def md5(m):
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
    p = pad(m, 64, 8, 'little')
    for o in range(0, len(p), 64):
        x = [le(p[o + 4 * i:o + 4 * i + 4]) for i in range(16)]
        a, b, c, d = h
        for i in range(64):
            if i < 16: f = or_(and_(b, c, 32), and_(not_(b, 32), d, 32), 32); g = i
            elif i < 32: f = or_(and_(b, d, 32), and_(c, not_(d, 32), 32), 32); g = (5 * i + 1) % 16
            elif i < 48: f = xor(xor(b, c, 32), d, 32); g = (3 * i + 5) % 16
            else: f = xor(c, or_(b, not_(d, 32), 32), 32); g = 7 * i % 16
            t = sum_(32, a, f, K5[i], x[g])
            a, d, c, b = d, c, b, add(b, rotl(t, S5[i], 32), 32)
        h = [add(u, v, 32) for u, v in zip(h, (a, b, c, d))]
    return sum((tole(v, 4) for v in h), [])

# ---- SHA-1
def ch(x, y, z, w): return xor(and_(x, y, w), and_(not_(x, w), z, w), w)
def maj(x, y, z, w): return xor(xor(and_(x, y, w), and_(x, z, w), w), and_(y, z, w), w)
def sha1(m):
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
    p = pad(m, 64, 8, 'big')
    for o in range(0, len(p), 64):
        w = [be(p[o + 4 * i:o + 4 * i + 4]) for i in range(16)]
        for t in range(16, 80):
            w.append(rotl(xor(xor(w[t - 3], w[t - 8], 32), xor(w[t - 14], w[t - 16], 32), 32), 1, 32))
        a, b, c, d, e = h
        for t in range(80):
            if t < 20: f = ch(b, c, d, 32); k = 0x5a827999
            elif t < 40: f = xor(xor(b, c, 32), d, 32); k = 0x6ed9eba1
            elif t < 60: f = maj(b, c, d, 32); k = 0x8f1bbcdc
            else: f = xor(xor(b, c, 32), d, 32); k = 0xca62c1d6
            T = sum_(32, rotl(a, 5, 32), f, e, k, w[t])
            e, d, c, b, a = d, c, rotl(b, 30, 32), a, T
        h = [add(u, v, 32) for u, v in zip(h, (a, b, c, d, e))]
    return sum((tobe(v, 4) for v in h), [])

# ---- SHA-2
KS = {w: [frac_cbrt(q, w) for q in PR] for w in (32, 64)}
def rotr(x, n, w): return rotl(x, w - n, w)
def sha2(m, w, h, outlen):
    if w == 32:
        R = 64; S0, S1 = (2, 13, 22), (6, 11, 25); s0, s1 = (7, 18, 3), (17, 19, 10)
    else:
        R = 80; S0, S1 = (28, 34, 39), (14, 18, 41); s0, s1 = (1, 8, 7), (19, 61, 6)
    K = KS[w][:R]
    B = w // 8
    big = lambda x, r: xor(xor(rotr(x, r[0], w), rotr(x, r[1], w), w), rotr(x, r[2], w), w)
    small = lambda x, r: xor(xor(rotr(x, r[0], w), rotr(x, r[1], w), w), lshrc(x, r[2], w), w)
    p = pad(m, 16 * B, 2 * B, 'big')
    h = list(h)
    for o in range(0, len(p), 16 * B):
        W = [be(p[o + B * i:o + B * i + B]) for i in range(16)]
        for t in range(16, R): W.append(sum_(w, small(W[t - 2], s1), W[t - 7], small(W[t - 15], s0), W[t - 16]))
        v = list(h)
        for t in range(R):
            T1 = sum_(w, v[7], big(v[4], S1), ch(v[4], v[5], v[6], w), K[t], W[t])
            T2 = add(big(v[0], S0), maj(v[0], v[1], v[2], w), w)
            v = [add(T1, T2, w), v[0], v[1], v[2], add(v[3], T1, w), v[4], v[5], v[6]]
        h = [add(x, y, w) for x, y in zip(h, v)]
    return sum((tobe(x, B) for x in h), [])[:outlen]
IV256 = [frac_sqrt(q, 32) for q in PR[:8]]
IV384 = [frac_sqrt(q, 64) for q in PR[8:16]]
IV512 = [frac_sqrt(q, 64) for q in PR[:8]]
IV224 = [x & 0xffffffff for x in IV384]
def sha512t(m, t):
    d = sha2(list(b'SHA-512/%d' % t), 64, [x ^ 0xa5a5a5a5a5a5a5a5 for x in IV512], 64)
    iv = [be(d[8 * i:8 * i + 8]) for i in range(8)]
    o = sha2(m, 64, iv, (t + 7) // 8)
    if t % 8: o[-1] = and_(o[-1], (0xff << (8 - t % 8)) & 0xff, 8)
    return o

# ---- SM3
def sm3(m):
    h = [0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e]
    x2 = lambda a, b: xor(a, b, 32)
    P0 = lambda x: x2(x2(x, rotl(x, 9, 32)), rotl(x, 17, 32))
    P1 = lambda x: x2(x2(x, rotl(x, 15, 32)), rotl(x, 23, 32))
    p = pad(m, 64, 8, 'big')
    for o in range(0, len(p), 64):
        w = [be(p[o + 4 * i:o + 4 * i + 4]) for i in range(16)]
        for j in range(16, 68):
            w.append(x2(x2(P1(x2(x2(w[j - 16], w[j - 9]), rotl(w[j - 3], 15, 32))), rotl(w[j - 13], 7, 32)), w[j - 6]))
        w1 = [x2(w[j], w[j + 4]) for j in range(64)]
        a, b, c, d, e, f, g, hh = h
        for j in range(64):
            T = 0x79cc4519 if j < 16 else 0x7a879d8a
            ss1 = rotl(sum_(32, rotl(a, 12, 32), e, rotl(T, j % 32, 32)), 7, 32)
            ss2 = x2(ss1, rotl(a, 12, 32))
            ff = x2(x2(a, b), c) if j < 16 else or_(or_(and_(a, b, 32), and_(a, c, 32), 32), and_(b, c, 32), 32)
            gg = x2(x2(e, f), g) if j < 16 else or_(and_(e, f, 32), and_(not_(e, 32), g, 32), 32)
            t1 = sum_(32, ff, d, ss2, w1[j]); t2 = sum_(32, gg, hh, ss1, w[j])
            a, b, c, d, e, f, g, hh = t1, a, rotl(b, 9, 32), c, P0(t2), e, rotl(f, 19, 32), g
        h = [x2(u, v) for u, v in zip(h, (a, b, c, d, e, f, g, hh))]
    return sum((tobe(v, 4) for v in h), [])

# ---- Keccak
def _rc():
    out = []; lf = 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if lf & 1: c |= 1 << ((1 << j) - 1)
            lf <<= 1
            if lf & 0x100: lf ^= 0x171
        out.append(c)
    return out
RC = _rc()
def _rot():
    r = [[0] * 5 for _ in range(5)]; x, y = 1, 0
    for t in range(24):
        r[x][y] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    return r
ROT = _rot()
def keccak_bits(A, rounds):
    """keccak_f on lists of single bits"""
    x1 = lambda a, b: xor(a, b, 1)
    A = [[[ext(l, z, 1) for z in range(64)] for l in col] for col in A]
    for r in range(rounds):
        C = [[x1(x1(x1(A[x][0][z], A[x][1][z]), x1(A[x][2][z], A[x][3][z])), A[x][4][z]) for z in range(64)] for x in range(5)]
        D = [[x1(C[(x - 1) % 5][z], C[(x + 1) % 5][(z - 1) % 64]) for z in range(64)] for x in range(5)]
        B = [[None] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                k = ROT[x][y]
                B[y][(2 * x + 3 * y) % 5] = [x1(A[x][y][(z - k) % 64], D[x][(z - k) % 64]) for z in range(64)]
        A = [[[x1(B[x][y][z], and_(x1(B[(x + 1) % 5][y][z], 1), B[(x + 2) % 5][y][z], 1)) for z in range(64)] for y in range(5)] for x in range(5)]
        A[0][0] = [x1(b, RC[r] >> z & 1) for z, b in enumerate(A[0][0])]
    return [[terms.cat([(b, 1) for b in l]) for l in col] for col in A]
def keccak_f(A, rounds=24):
    if terms.LIN and any(l.__class__ is not int for c in A for l in c): return keccak_bits(A, rounds)
    x2 = lambda a, b: xor(a, b, 64)
    for r in range(rounds):
        C = [x2(x2(x2(A[x][0], A[x][1]), x2(A[x][2], A[x][3])), A[x][4]) for x in range(5)]
        D = [x2(C[(x - 1) % 5], rotl(C[(x + 1) % 5], 1, 64)) for x in range(5)]
        A = [[x2(A[x][y], D[x]) for y in range(5)] for x in range(5)]
        B = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5): B[y][(2 * x + 3 * y) % 5] = rotl(A[x][y], ROT[x][y], 64)
        A = [[x2(B[x][y], and_(not_(B[(x + 1) % 5][y], 64), B[(x + 2) % 5][y], 64)) for y in range(5)] for x in range(5)]
        A[0][0] = x2(A[0][0], RC[r])
    return A
def sponge_bits(m, bits, rate, outbits):
    """m: bytes; bits: single bits that follow; SHA-3 domain bits and pad10*1 added here"""
    v = [ext(b, i, 1) for b in m for i in range(8)] + list(bits) + [0, 1, 1]
    v += [0] * (-(len(v) + 1) % (8 * rate)) + [1]
    p = [cat([(b, 1) for b in v[i:i + 8]]) for i in range(0, len(v), 8)]
    return absorb(p, rate, outbits)
@spec(3)
def s_sha3bits(alg, m, t):
    d = {0: 224, 1: 256, 2: 384, 3: 512}[num(alg) % 10]
    return sponge_bits(m, [ext(b, 0, 1) for b in t], 200 - d // 4, d)
def sponge(m, rate, suffix, outbits):
    p = list(m) + [suffix]
    p += [0] * (-len(p) % rate)
    p[-1] = p[-1] ^ 0x80 if p[-1].__class__ is int else xor(p[-1], 0x80, 8)
    return absorb(p, rate, outbits)
def absorb(p, rate, outbits):
    A = [[0] * 5 for _ in range(5)]
    for o in range(0, len(p), rate):
        for i in range(rate // 8):
            x, y = i % 5, i // 5
            A[x][y] = xor(A[x][y], le(p[o + 8 * i:o + 8 * i + 8]), 64)
        A = keccak_f(A)
    out = []
    nb = (outbits + 7) // 8
    while True:
        for i in range(rate // 8): out += tole(A[i % 5][i // 5], 8)
        if len(out) >= nb: break
        A = keccak_f(A)
    out = out[:nb]
    if outbits % 8: out[-1] = and_(out[-1], (1 << (outbits % 8)) - 1, 8)
    return out

def digest(alg, bits, m):
    m = list(m)
    if alg == 1: return md5(m)
    if alg in (2, 21): return sha1(m)
    if alg in (3, 22): return sha2(m, 32, IV256, 32)
    if alg in (4, 23): return sha2(m, 32, IV224, 28)
    if alg in (5, 24): return sha2(m, 64, IV512, 64)
    if alg in (6, 25): return sha2(m, 64, IV384, 48)
    if alg in (7, 26): return sha512t(m, 224)
    if alg in (8, 27): return sha512t(m, 256)
    if alg == 9: return sm3(m)
    if alg in (10, 11, 12, 13, 30, 31, 32, 33):
        d = {0: 224, 1: 256, 2: 384, 3: 512}[alg % 10]
        return sponge(m, 200 - d // 4, 0x06, d)
    if alg == 14: return sponge(m, 168, 0x1f, bits)
    if alg == 15: return sponge(m, 136, 0x1f, bits)
    return sha512t(m, bits)

@spec(1)
def s_digest(alg, bits, m): return digest(num(alg), num(bits), m)
