"""ZUC 1.6 keystream (3GPP TS 35.222 / GM/T 0001), 128-EEA3 and 128-EIA3 (TS 35.221)"""
import terms
from terms import add, xor, and_, or_, rotl, cat, ext, ite, eq, lookup
from specs import spec, num
from specs.hashes import be, tobe
P = 0x7fffffff
D = [0x44D7,0x26BC,0x626B,0x135E,0x5789,0x35E2,0x7135,0x09AF,0x4D78,0x2F13,0x6BC4,0x1AF1,0x5E26,0x3C4D,0x789A,0x47AC]
S0 = tuple(bytes.fromhex("""3e725b47cae0003304d1549809b96dcb7b1bf932af9d6aa5b82dfc1d08530390
    4d4e8499e4ced991ddb685488b296eaccdc1f81e734369c6b5bdfd396320d438
    767db2a7cfed57c5f32cbb142106559be3ef5e314f7f5aa40d8251495fba581c
    4a16d517a892241f8cffd8ae2e01d3ad3b4bda46ebc9de9a8f87d73a806f2fc8
    b1b437f70a2213287ccc3c89c7c3965607bf7ef00b2b975235417961a64c10fe
    bc2695888ab0a3fbc01894f2e1e5e95dd0dc1166645cec59427512f5749caa23
    0e86abbe2a02e767e644a26cc2939ff1f6fa36d250689e6271153dd640c4e20f
    8e83776b25053f0c30ea70b7a1e8a9658d271adb81b3a0f4457a19dfee783460"""))
S1 = tuple(bytes.fromhex("""55c263713bc847869f3cda5b29aafd778cc5940ca61a1300e3a8167240f9f842
    4426689681d9453e1076c6a78b3943e13ab5562ac06db3052266bfdc0bfa6248
    dd20110636c9c1cff62752bb69f5d4877f844cd29c57a4bc4f9adffed68d7aeb
    2b53d85ca11417fb23d57d3067730809eeb7703f61b2198e4ee54b938f5ddba9
    adf1ae2ecb0dfcf42d466e1d97e8d1e94d37a5755e839eab829db91ce0cd4989
    01b6bd5824a25f387899159050b895e4d091c7ceed0fb46fa0ccf0024a79c3de
    a3efea51e66b18ec1b2c80f774e7ff215a6a541e41319235c433070aba7e0e34
    88b1987cf33d606c7bcad31f3265042864be859b2f598ad7b025acaf1203e2f2"""))
def addm(a, b):
    c = add(a, b, 32)
    return add(and_(c, P, 32), ext32(c), 32)
def ext32(c): return cat([(ext(c, 31, 1), 1), (0, 31)])
def rot31(a, k): return cat([(ext(a, 31 - k, k), k), (ext(a, 0, 31 - k), 31 - k), (0, 1)])
def hi(s): return ext(s, 15, 16)
def lo(s): return ext(s, 0, 16)
def join(h, l): return cat([(l, 16), (h, 16)])
def x32(a, b): return xor(a, b, 32)
def l1(x): return x32(x32(x32(x32(x, rotl(x, 2, 32)), rotl(x, 10, 32)), rotl(x, 18, 32)), rotl(x, 24, 32))
def l2(x): return x32(x32(x32(x32(x, rotl(x, 8, 32)), rotl(x, 14, 32)), rotl(x, 22, 32)), rotl(x, 30, 32))
def sb(x): return cat([(lookup((S1, S0, S1, S0)[i], ext(x, 8 * i, 8), 8, 8), 8) for i in range(4)])
class Zuc:
    def __init__(z, key, iv):
        z.s = [cat([(v, 8), (d, 15), (k, 8), (0, 1)]) for k, d, v in zip(key, D, iv)]
        z.r1 = z.r2 = 0
        for _ in range(32):
            x = z.br(); w = z.f(x); z.shift(cat([(ext(w, 1, 31), 31), (0, 1)]))
        z.f(z.br()); z.shift(None)
    def br(z):
        s = z.s
        return join(hi(s[15]), lo(s[14])), join(lo(s[11]), hi(s[9])), join(lo(s[7]), hi(s[5])), join(lo(s[2]), hi(s[0]))
    def f(z, x):
        w = add(x32(x[0], z.r1), z.r2, 32)
        w1 = add(z.r1, x[1], 32); w2 = x32(z.r2, x[2])
        z.r1 = sb(l1(join(ext(w1, 0, 16), ext(w2, 16, 16))))
        z.r2 = sb(l2(join(ext(w2, 0, 16), ext(w1, 16, 16))))
        return w
    def shift(z, u):
        s = z.s
        v = addm(rot31(s[0], 8), s[0])
        for i, k in ((4, 20), (10, 21), (13, 17), (15, 15)): v = addm(rot31(s[i], k), v)
        if u is not None: v = addm(u, v)
        z.s = s[1:] + [ite(eq(v, 0, 32), P, v, 32)]
    def next(z):
        x = z.br()
        r = x32(z.f(x), x[3])
        z.shift(None)
        return r
_memo = [None, []]
def keystream(key, iv, n):
    k = (tuple(key), tuple(iv), terms.GEN)
    if _memo[0] != k: _memo[0] = k; _memo[1] = [Zuc(key, iv)]
    m = _memo[1]
    while len(m) <= n: m.append(m[0].next())
    return m[1:n + 1]
@spec(20)
def s_zuc(key, iv, n): return sum((tobe(w, 4) for w in keystream(key, iv, num(n))), [])
@spec(21)
def s_eea3(count, bearer, direction, ck, m):
    iv = list(count[::-1]) + [or_(and_(cat([(0, 3), (ext(bearer[0], 0, 5), 5)]), 0xff, 8), cat([(0, 2), (ext(direction[0], 0, 1), 1), (0, 5)]), 8), 0, 0, 0]
    ks = sum((tobe(w, 4) for w in keystream(ck, iv + iv, (len(m) + 3) // 4)), [])
    return [xor(a, b, 8) for a, b in zip(m, ks)]
@spec(22)
def s_eia3(count, bearer, direction, ck, m):
    d = cat([(0, 7), (ext(direction[0], 0, 1), 1)])
    iv = list(count[::-1]) + [cat([(0, 3), (ext(bearer[0], 0, 5), 5)]), 0, 0, 0]
    iv += [xor(iv[0], d, 8)] + iv[1:6] + [xor(iv[6], d, 8), iv[7]]
    n = 8 * len(m)
    ks = keystream(ck, iv, (n + 31) // 32 + 2)
    def word(i):
        q, r = divmod(i, 32)
        return ks[q] if r == 0 else cat([(ext(ks[q + 1], 32 - r, r), r), (ext(ks[q], 0, 32 - r), 32 - r)])
    t = 0
    for i in range(n):
        b = ext(m[i // 8], 7 - i % 8, 1)
        t = x32(t, and_(word(i), terms.rep(b, 32), 32))
    t = x32(t, word(n))
    return tobe(x32(t, ks[-1]), 4)
