"""AES (FIPS 197), DES/TDES (FIPS 46-3), SM4 (GB/T 32907)"""
from terms import add, xor, rotl, cat, ext, lookup
import terms
from specs import spec, num
from specs.hashes import be, tobe
x8 = lambda a, b: xor(a, b, 8)
x32 = lambda a, b: xor(a, b, 32)
def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = a << 1 ^ (0x11b if a & 0x80 else 0); b >>= 1
    return r
def _sbox():
    s = []
    for a in range(256):
        inv = next((b for b in range(256) if gmul(a, b) == 1), 0)
        y = 0
        for i in range(8):
            y |= ((inv >> i ^ inv >> (i + 4) % 8 ^ inv >> (i + 5) % 8 ^ inv >> (i + 6) % 8 ^ inv >> (i + 7) % 8 ^ 0x63 >> i) & 1) << i
        s.append(y)
    return s
SB = tuple(_sbox())
IS = tuple(SB.index(i) for i in range(256))
sub = lambda x: lookup(SB, x, 8, 8)
isub = lambda x: lookup(IS, x, 8, 8)
def xtime(x):
    if x.__class__ is int: return gmul(x, 2)
    h = ext(x, 7, 1)
    m = cat([(h, 1), (h, 1), (0, 1), (h, 1), (h, 1), (0, 3)])
    return x8(terms.shlc(x, 1, 8), m)
def mulc(x, c):
    r = 0
    while c:
        if c & 1: r = x8(r, x)
        x = xtime(x); c >>= 1
    return r
def expand(key):
    nk = len(key) // 4; nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = w[i - 1]
        if i % nk == 0:
            t = [sub(b) for b in t[1:] + t[:1]]; t[0] = x8(t[0], rc); rc = gmul(rc, 2)
        elif nk > 6 and i % nk == 4: t = [sub(b) for b in t]
        w.append([x8(a, b) for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * i:4 * i + 4], []) for i in range(nr + 1)]
def mix(s, co):
    o = []
    for c in range(4):
        for r in range(4):
            v = 0
            for j in range(4): v = x8(v, mulc(s[4 * c + j], co[(j - r) % 4]))
            o.append(v)
    return o
def aes_enc(key, x):
    k = expand(key); n = len(k) - 1
    s = [x8(a, b) for a, b in zip(x, k[0])]
    for r in range(1, n + 1):
        s = [sub(b) for b in s]
        s = [s[4 * ((c + r_) % 4) + r_] for c in range(4) for r_ in range(4)]
        if r != n: s = mix(s, (2, 3, 1, 1))
        s = [x8(a, b) for a, b in zip(s, k[r])]
    return s
def aes_dec(key, x):
    k = expand(key); n = len(k) - 1
    s = [x8(a, b) for a, b in zip(x, k[n])]
    for r in range(n - 1, -1, -1):
        s = [s[4 * ((c - r_) % 4) + r_] for c in range(4) for r_ in range(4)]
        s = [isub(b) for b in s]
        s = [x8(a, b) for a, b in zip(s, k[r])]
        if r: s = mix(s, (14, 11, 13, 9))
    return s

# ---- DES: bit lists, index 0 = bit 1 (most significant) of the standard
IP = [58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7]
E = [32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1]
PP = [16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25]
PC1 = [57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4]
PC2 = [14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32]
SHIFTS = [1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1]
SBX = [
 [14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13],
 [15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9],
 [10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12],
 [7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14],
 [2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3],
 [12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13],
 [4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12],
 [13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11]]
def bits(bs): return [ext(b, 7 - i, 1) for b in bs for i in range(8)]
def unbits(l): return [cat([(l[8 * i + 7 - j], 1) for j in range(8)]) for i in range(len(l) // 8)]
def x1(a, b): return xor(a, b, 1)
# S-box as a table over the six bits b1..b6 (b1 most significant)
ST = [tuple(s[((v >> 5 & 1) << 1 | v & 1) * 16 + (v >> 1 & 15)] for v in range(64)) for s in SBX]
def des(key, x, dec):
    k = bits(key)
    c = [k[i - 1] for i in PC1]; C, D = c[:28], c[28:]
    ks = []
    for s in SHIFTS:
        C = C[s:] + C[:s]; D = D[s:] + D[:s]
        cd = C + D
        ks.append([cd[i - 1] for i in PC2])
    if dec: ks.reverse()
    b = bits(x)
    b = [b[i - 1] for i in IP]
    L, R = b[:32], b[32:]
    for rk in ks:
        e = [x1(R[E[i] - 1], rk[i]) for i in range(48)]
        o = []
        for s in range(8):
            v = cat([(e[6 * s + 5 - j], 1) for j in range(6)])
            y = lookup(ST[s], v, 4, 6)
            o += [ext(y, 3 - j, 1) for j in range(4)]
        f = [o[i - 1] for i in PP]
        L, R = R, [x1(a, b_) for a, b_ in zip(L, f)]
    pre = R + L
    out = [0] * 64
    for i in range(64): out[IP[i] - 1] = pre[i]
    return unbits(out)

# ---- SM4
SM4S = bytes.fromhex("""d690e9fecce13db716b614c228fb2c05 2b679a762abe04c3aa44132649860699 9c4250f491ef987a33540b43edcfac62 e4b31ca9c908e89580df94fa758f3fa6
4707a7fcf37317ba83593c19e6854fa8 686b81b27164da8bf8eb0f4b70569d35 1e240e5e6358d1a225227c3b01217887 d40046579fd327524c3602e7a0c4c89e
eabf8ad240c738b5a3f7f2cef96115a1 e0ae5da49b341a55ad933230f58cb1e3 1df6e22e8266ca60c02923ab0d534e6f d5db3745defd8e2f03ff6a726d6c5b51
8d1baf92bbddbc7f11d95c411f105ad8 0ac13188a5cd7bbd2d74d012b8e5b4b0 8969974a0c96777e65b9f109c56ec684 18f07dec3adc4d2079ee5f3ed7cb3948""")
def sm4(key, x, dec):
    S = tuple(SM4S)
    tau = lambda v: cat([(lookup(S, ext(v, 8 * i, 8), 8, 8), 8) for i in range(4)])
    def Lf(b): return x32(x32(x32(x32(b, rotl(b, 2, 32)), rotl(b, 10, 32)), rotl(b, 18, 32)), rotl(b, 24, 32))
    def Lk(b): return x32(x32(b, rotl(b, 13, 32)), rotl(b, 23, 32))
    FK = [0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc]
    CK = [sum(((4 * i + j) * 7 % 256) << (24 - 8 * j) for j in range(4)) for i in range(32)]
    k = [x32(be(key[4 * i:4 * i + 4]), FK[i]) for i in range(4)]
    for i in range(32): k.append(x32(k[i], Lk(tau(x32(x32(k[i + 1], k[i + 2]), x32(k[i + 3], CK[i]))))))
    rk = k[4:]
    if dec: rk = rk[::-1]
    v = [be(x[4 * i:4 * i + 4]) for i in range(4)]
    for i in range(32): v.append(x32(v[i], Lf(tau(x32(x32(v[i + 1], v[i + 2]), x32(v[i + 3], rk[i]))))))
    return sum((tobe(v[35 - i], 4) for i in range(4)), [])

def block(alg, op, key, x):
    key = list(key); x = list(x)
    if alg in (1, 2, 3): return aes_dec(key, x) if op else aes_enc(key, x)
    if alg == 4: return des(key, x, op)
    if alg == 5:
        a, b, c = key[:8], key[8:16], key[16:]
        if op: return des(a, des(b, des(c, x, 1), 0), 1)
        return des(c, des(b, des(a, x, 0), 1), 0)
    return sm4(key, x, op)
@spec(2)
def s_block(alg, op, key, x): return block(num(alg), num(op), key, x)
