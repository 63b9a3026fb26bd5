"""RFC 8017 on terms; numbers are handled by the exact arithmetic of bn."""
from . import spec, num
import terms, bn, machine
from terms import cat, ext, eq, and_, or_, not_, xor, ult
from machine import CUR, uhash

import re, os
def keys():
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'harness_bn', 'src', 'keys.rs')
    return {int(m[0]): (int(m[1], 16), int(m[2], 16)) for m in re.findall(r'\((\d+), "(\w+)", "(\w+)", "\w+", "\w+"\)', open(f).read())}
KEYS = keys()
E = 65537
def le(v, n): return [(v >> 8 * i & 255) if v.__class__ is int else ext(v, 8 * i, 8) for i in range(n)]
def i2osp(v, k):
    w = 8 * k
    if v.__class__ is not int: v = bn.zx(v, w)
    return le(v, k)[::-1]
def os2ip(bs):
    v = cat([(x, 8) for x in reversed(bs)])
    return bn.whole(CUR[0], v)
def nv(bs): return bn.fit(cat([(x, 8) for x in bs]), 8 * len(bs))

@spec(70)
def s_pow(x, e, n): return le(bn.zx(bn.power(CUR[0], nv(x), nv(e), nv(n)), 32), 4)
def rsaep(bits, em): return i2osp(bn.power(CUR[0], os2ip(em), E, KEYS[bits][0]), (bits + 7) // 8)
def rsadp(bits, em): return i2osp(bn.power(CUR[0], os2ip(em), KEYS[bits][1], KEYS[bits][0]), (bits + 7) // 8)
@spec(71)
def s_pub(bits, em): return rsaep(num(bits), em)
@spec(74)
def s_priv(bits, em): return rsadp(num(bits), em)

def mgf1(seed, n, h, hid=1):
    out = []; i = 0
    while len(out) < n:
        out += uhash(CUR[0], hid, list(seed) + list(i.to_bytes(4, 'big')), h); i += 1
    return out[:n]
def xorb(a, b): return [xor(x, y, 8) for x, y in zip(a, b)]
def oaep_em(h, k, label, msg, seed):
    lhash = uhash(CUR[0], 1, list(label), h)
    db = lhash + [0] * (k - len(msg) - 2 * h - 2) + [1] + list(msg)
    mdb = xorb(db, mgf1(seed, k - h - 1, h))
    ms = xorb(seed, mgf1(mdb, h, h))
    return [0] + ms + mdb
@spec(72)
def s_oaep(bits, h, label, msg, seed):
    bits, h = num(bits), num(h)
    return rsaep(bits, oaep_em(h, (bits + 7) // 8, label, msg, seed))
def eqb(a, b):
    r = 1
    for x, y in zip(a, b): r = and_(r, eq(x, y, 8), 1)
    return r
@spec(73)
def s_oaep_dec(h, label, em, l):
    """(1 if em is a valid encoding of a message of l bytes, the message)"""
    h, l, k = num(h), num(l), len(em)
    lhash = uhash(CUR[0], 1, list(label), h)
    ms, mdb = em[1:h + 1], em[h + 1:]
    seed = xorb(ms, mgf1(mdb, h, h))
    db = xorb(mdb, mgf1(seed, k - h - 1, h))
    ok = and_(eq(em[0], 0, 8), and_(eqb(db[:h], lhash), eqb(db[h:k - h - 1 - l], [0] * (k - 2 * h - 2 - l) + [1]), 1), 1)
    return [terms.zext(ok, 1, 8)] + db[k - h - 1 - l:]

# ------------------------------------------------------------------ PKCS1 v1.5
@spec(75)
def s_p1_enc(bits, msg, ps): return rsaep(num(bits), [0, 2] + list(ps) + [0] + list(msg))
def nz(x): return not_(eq(x, 0, 8), 1)
def all_(l):
    r = 1
    for x in l: r = and_(r, x, 1)
    return r
@spec(76)
def s_p1_dec(em, l):
    l = num(l); k = len(em); p = k - l - 1
    ok = all_([eq(em[0], 0, 8), eq(em[1], 2, 8), eq(em[p], 0, 8)] + [nz(x) for x in em[2:p]]) if p >= 10 else 0
    return [terms.zext(ok, 1, 8)] + em[p + 1:]
def oid(*a):
    out = [40 * a[0] + a[1]]
    for x in a[2:]:
        b = [x & 127]; x >>= 7
        while x: b.insert(0, x & 127 | 128); x >>= 7
        out += b
    return [6, len(out)] + out
from . import hashes
SHA2 = (2, 16, 840, 1, 101, 3, 4, 2)
IDS = [oid(1, 2, 840, 113549, 2, 5), oid(1, 3, 14, 3, 2, 26)] + [oid(*SHA2, i) for i in (4, 1, 2, 3)]
def digest_info(i, msg):
    h = list(hashes.digest((1, 2, 4, 3, 6, 5)[i], 0, list(msg)))
    alg = IDS[i] + [5, 0]; alg = [0x30, len(alg)] + alg
    body = alg + [4, len(h)] + h
    return [0x30, len(body)] + body
def p1_em(k, i, msg):
    t = digest_info(i, msg)
    return [0, 1] + [255] * (k - 3 - len(t)) + [0] + t
@spec(78)
def s_p1_em(bits, i, msg): return p1_em((num(bits) + 7) // 8, num(i), msg)
@spec(79)
def s_plus(bits, s):
    """s + n, with the carry beyond the length as last byte"""
    bits = num(bits); k = len(s); w = 8 * k + 8
    v = terms.add(bn.zx(bn.zx(os2ip(s), 8 * k), w), KEYS[bits][0], w)
    v = le(v, k + 1)
    return v[:k][::-1] + [v[k]]

# ------------------------------------------------------------------ PSS
@spec(80)
def s_pss(bits, h, msg, salt):
    bits, h = num(bits), num(h); eb = bits - 1; el = (eb + 7) // 8
    mh = uhash(CUR[0], 1, list(msg), h)
    hh = uhash(CUR[0], 1, [0] * 8 + mh + list(salt), h)
    db = [0] * (el - len(salt) - h - 2) + [1] + list(salt)
    db = xorb(db, mgf1(hh, el - h - 1, h))
    db[0] = and_(db[0], 255 >> (8 * el - eb), 8)
    return rsadp(bits, db + hh + [0xbc])
@spec(81)
def s_pss_ver(bits, h, msg, em, sl):
    bits, h, sl = num(bits), num(h), num(sl); eb = bits - 1; el = (eb + 7) // 8
    ok = [eq(x, 0, 8) for x in em[:len(em) - el]]
    em = em[len(em) - el:]
    mh = uhash(CUR[0], 1, list(msg), h)
    ok.append(eq(em[-1], 0xbc, 8))
    mdb, hh = em[:el - h - 1], em[el - h - 1:-1]
    mask = 255 >> (8 * el - eb)
    ok.append(eq(and_(mdb[0], 255 ^ mask, 8), 0, 8))
    db = xorb(mdb, mgf1(hh, el - h - 1, h))
    db[0] = and_(db[0], mask, 8)
    z = el - h - sl - 2
    ok += [eq(x, 0, 8) for x in db[:z]] + [eq(db[z], 1, 8)]
    ok.append(eqb(uhash(CUR[0], 1, [0] * 8 + mh + db[len(db) - sl:], h), hh))
    return [terms.zext(all_(ok), 1, 8)]
