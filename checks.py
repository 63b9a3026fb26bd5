"""Which harness runs, with which bounds, decide each property."""
from driver import Job

NAMES = {1: 'MD5', 2: 'SHA1', 3: 'SHA256', 4: 'SHA224', 5: 'SHA512', 6: 'SHA384', 7: 'SHA512/224', 8: 'SHA512/256', 9: 'SM3', 10: 'SHA3-224', 11: 'SHA3-256',
         12: 'SHA3-384', 13: 'SHA3-512', 14: 'SHAKE128', 15: 'SHAKE256', 16: 'SHA512T', 21: 'SHA::sha1', 22: 'SHA::sha256', 23: 'SHA::sha224', 24: 'SHA::sha512',
         25: 'SHA::sha384', 26: 'SHA::sha512_224', 27: 'SHA::sha512_256', 30: 'SHA3::sha224', 31: 'SHA3::sha256', 32: 'SHA3::sha384', 33: 'SHA3::sha512', 40: 'SHA::sha512t'}
RATE = {10: 144, 11: 136, 12: 104, 13: 72, 14: 168, 15: 136, 30: 144, 31: 136, 32: 104, 33: 72}
def quick(t): return t == 'quick'
def one(a, lo, hi, bits=0):
    return Job('%s%s one-shot %s' % (NAMES[a], '' if not bits else '(%d bits)' % bits, lo if lo == hi else '%d..%d' % (lo, hi)), 'h_digest', {0: a, 1: lo, 2: hi, 9: bits}, mode='lin' if a in RATE else None)
def H01(t): return [one(1, 0, 130 if quick(t) else 300)]
def H02(t): return [one(2, 0, 130 if quick(t) else 300), one(21, 0, 66)]
def H03(t): return [one(3, 0, 130 if quick(t) else 300), one(4, 0, 66 if quick(t) else 300), one(22, 0, 66), one(23, 0, 66)]
def H05(t): return [one(9, 0, 130 if quick(t) else 300)]
def H04(t):
    l = [one(5, 0, 130 if quick(t) else 400)]
    l += [one(a, x, y) for a in (6, 7, 8, 24, 25, 26, 27) for x, y in (((0, 2), (110, 130)) if quick(t) else ((0, 130), (238, 260)))]
    return l + [one(a, 0, 2, b) for a in (16, 40) for b in ((1, 100, 224, 255, 511) if quick(t) else [b for b in range(1, 512) if b != 384])]
def H06(t):
    l = []
    for a in (10, 11, 12, 13, 14, 15, 30, 31, 32, 33):
        r = RATE[a]; bits = 264 if a in (14, 15) else 0
        ns = (0, 1, r - 1, r) if quick(t) else sorted(set(list(range(0, r + 2)) + [2 * r - 1, 2 * r, 2 * r + 1]))
        if quick(t) and a >= 30: ns = (3,)
        l += [one(a, n, n, bits) for n in ns]
    l += [one(14, 5, 5, b) for b in ((7, 1352) if quick(t) else (1, 8, 9, 1343, 1344, 1345, 2696))]
    l += [one(15, 5, 5, b) for b in ((8, 1093) if quick(t) else (1, 7, 9, 1087, 1088, 1089, 2200))]
    l += [Job('%s set_digest_len' % NAMES[a], 'h_xof', {0: a, 1: 3, 2: 3, 3: 2, 4: 2, 8: 512, 9: 136}, mode='lin') for a in (14, 15)]
    l += [Job('%s bits' % NAMES[a], 'h_bits', {0: a, 1: n, 2: n, 3: k, 4: k}, mode='lin') for a in (10, 11, 12, 13) for n, k in (((RATE[a] - 1, 5),) if quick(t) else ((0, 1), (2, 3), (RATE[a] - 1, 4), (RATE[a] - 1, 5), (RATE[a] - 1, 6), (RATE[a] - 1, 7)))]
    l += [Job('%s bits' % NAMES[a], 'h_bits', {0: a, 1: 1, 2: 1, 3: 3, 4: 3}, mode='lin') for a in (30, 31, 32, 33)]
    return l
def split(a, n, lo, hi, two=0, bits=0):
    return Job('%s %d bytes split at %d..%d%s' % (NAMES[a], n, lo, hi, ' and after' if two else ''), 'h_split', {0: a, 1: n, 2: n, 3: two, 4: lo, 5: hi, 9: bits}, mode='lin' if a in RATE else None)
def I01(t):
    l = []
    for a, b in ((1, 64), (2, 64), (3, 64), (4, 64), (9, 64), (5, 128), (6, 128), (7, 128), (8, 128), (16, 128)):
        bits = 300 if a == 16 else 0
        if quick(t):
            main = a in (1, 2, 3, 5, 9)
            l += [split(a, b + 1, 0, b + 1, 0, bits)] if main else [split(a, b + 1, 0, 2, 0, bits), split(a, b + 1, b - 1, b + 1, 0, bits)]
            l += [split(a, 4, 0, 4, 1, bits)]
            if main: l += [split(a, 2 * b + 1, b - 1, b + 1, 0, bits)]
        else:
            l += [split(a, n, 0, n, 0, bits) for n in (b - 9, b - 8, b, b + 1, 2 * b, 2 * b + 1, 3 * b)] + [split(a, b // 4, 0, b // 4, 1, bits)]
        l += [Job('%s reuse after reset' % NAMES[a], 'h_reuse', {0: a, 1: 0, 2: 3, 3: 0, 4: 2, 9: bits}), Job('%s reuse after reset, full block' % NAMES[a], 'h_reuse', {0: a, 1: b, 2: b, 3: 1, 4: 1, 9: bits})]
    for a in (10, 11, 12, 13, 14, 15, 30, 33):
        bits = 264 if a in (14, 15) else 0; r = RATE[a]
        l += [split(a, 3, 1, 2, 0, bits), Job('%s reuse after reset' % NAMES[a], 'h_reuse', {0: a, 1: 1, 2: 1, 3: 1, 4: 1, 9: bits}, mode='lin')]
        if not quick(t): l += [split(a, r + 1, 0, 3, 0, bits), split(a, r + 1, r - 2, r + 1, 0, bits)]
    l += [Job('%s reuse after reset' % NAMES[a], 'h_reuse', {0: a, 1: 2, 2: 2, 3: 0, 4: 1, 9: 0}) for a in (21, 22, 23, 24, 25, 26, 27)]
    l += [Job('%s new output length' % NAMES[a], 'h_xof', {0: a, 1: 1, 2: 1, 3: 0, 4: 0, 8: 128, 9: 264}, mode='lin') for a in (14, 15)]
    return l
CIPHERS = ('', 'AES-128', 'AES-192', 'AES-256', 'DES', 'TDES', 'SM4')
def blk(algs):
    l = [Job('%s %s' % (CIPHERS[a], n), 'h_block', {0: a, 1: o}) for a in algs for o, n in ((0, 'encrypt'), (1, 'decrypt'), (2, 'length'))]
    l += [Job('%s encrypt then decrypt on a %s' % (CIPHERS[a], n), 'h_block', {0: a, 1: 3, 2: h}) for a in algs for h, n in ((1, 'clone'), (2, 'object made from a byte slice')) if h == 1 or a not in (4, 5)]
    return l
def B01(t): return blk([1, 2, 3]) + [Job('AES key length', 'h_key', {0: 1})]
def B02(t): return blk([4, 5])
def B03(t): return blk([6]) + [Job('SM4 key length', 'h_key', {0: 6})]
def M01(t):
    q = quick(t)
    l = [Job('hash block %d digest %d' % (b, s), 'h_hmac', {0: b, 1: s, 2: 0, 3: b + 2 if q else 2 * b + 2, 4: 0, 5: 3 if q else 2 * b + 1}) for b, s in ((4, 4), (6, 3), (3, 4))]
    l += [Job('history of %d operations, block %d' % (n, b), 'h_hmac_hist', {0: b, 1: s, 2: n}) for b, s, n in (((4, 2, 4),) if q else ((4, 2, 6), (5, 5, 5)))]
    for a, b in ((1, 64), (3, 64), (4, 64), (9, 64), (5, 128), (6, 128)):
        ks = ((3, 3), (b - 1, b if a in (2, 9) else b + 1)) if q else ((0, 3), (b - 2, b)) if a in (2, 9) else ((0, 3), (b - 2, b + 2), (2 * b, 2 * b))
        l += [Job('HMAC-%s key %d..%d' % (NAMES[a], x, y), 'h_hmac_real', {0: a, 1: x, 2: y, 3: n}) for x, y in ks for n in ((2,) if q else (0, 2, b))]
    return l
def M02(t):
    q = quick(t)
    l = [Job('block %d up to %d bytes, one split' % (b, n), 'h_cmac', {0: b, 1: 0, 2: n, 3: 0}) for b, n in (((8, 25), (16, 34)) if q else ((8, 41), (16, 65)))]
    l += [Job('block %d up to %d bytes, two splits' % (b, n), 'h_cmac', {0: b, 1: 0, 2: n, 3: 1}) for b, n in (((4, 9),) if q else ((4, 13), (8, 17)))]
    l += [Job('block %d' % b, 'h_cmac', {0: b, 1: b - 1, 2: b + 1, 3: 0}) for b in ((5, 6, 12) if q else (1, 2, 3, 5, 6, 7, 9, 12, 20, 24, 28, 32, 40, 48, 56, 64, 96, 128))]
    l += [Job('history of %d operations, block %d' % (n, b), 'h_cmac_hist', {0: b, 1: n}) for b, n in (((4, 4), (8, 3)) if q else ((4, 6), (8, 5), (16, 4)))]
    l += [Job('CMAC-%s' % nm, 'h_cmac_real', {0: a, 1: x, 2: y}) for a, nm, x, y in ((1, 'AES-128', 15, 17), (2, 'AES-192', 3, 3), (3, 'AES-256', 16, 16))]
    return l
MODES = ('ECB', 'CBC', 'CFB', 'OFB', 'CTR')
def mode(h, m, b, lo, hi, pad=0, s=0, k=0, three=0, dr=0):
    nm = '%s %s block %d, %d..%d bytes%s%s%s%s' % (MODES[m], {'h_mode_enc': 'encrypt', 'h_mode_dec': 'decrypt', 'h_stream': ('encrypt', 'decrypt')[dr] + ' stream', 'h_stream_any': 'decrypt stream of anything'}[h],
        b, lo, hi, ', padded' if pad else '', ', %d-byte segments' % s if s else '', ', short counters' if m == 4 and k < b else '', ', three chunks' if three else '')
    return Job(nm, h, {0: m, 1: b, 2: lo, 3: hi, 4: pad, 5: s, 6: k, 7: three, 8: dr})
def C01(t):
    q = quick(t)
    l = []
    for m in (0, 1):
        for pad in (0, 1):
            l += [mode('h_mode_enc', m, b, 0, n, pad) for b, n in (((4, 13), (16, 33)) if q else ((1, 4), (3, 13), (8, 33), (16, 66)))]
            l += [mode('h_mode_dec', m, b, 0, n, pad) for b, n in (((4, 12), (16, 32)) if q else ((1, 4), (3, 12), (8, 32), (16, 64)))]
    return l + [Job('%s initial vectors, block %d' % (MODES[1], b), 'h_iv', {0: 1, 1: b}) for b in ((4, 6, 16) if q else (2, 4, 5, 6, 7, 8, 16))] + [Job('parameters', 'h_mode_new', {1: 2})]
def C02(t):
    q = quick(t)
    l = []
    for b, s, n in (((4, 1, 6), (4, 2, 9), (4, 4, 12), (16, 8, 17)) if q else ((4, 1, 9), (4, 2, 13), (4, 4, 17), (6, 3, 13), (16, 1, 20), (16, 8, 33), (16, 16, 49), (8, 8, 33))):
        for pad in (0, 1): l += [mode('h_mode_enc', 2, b, 0, n, pad, s), mode('h_mode_dec', 2, b, 0, n, pad, s)]
    for b, n in (((4, 13), (16, 33)) if q else ((1, 5), (3, 13), (8, 33), (16, 66))):
        l += [mode(h, 3, b, 0, n) for h in ('h_mode_enc', 'h_mode_dec')] + [mode(h, 4, b, 0, n, k=b) for h in ('h_mode_enc', 'h_mode_dec')]
    l += [mode('h_mode_enc', 4, 4, 0, 13)] + [Job('%s initial vectors, block %d' % (MODES[m], b), 'h_iv', {0: m, 1: b}) for m in (2, 3) for b in ((4, 6) if q else (2, 4, 5, 6, 7, 8, 16))]
    return l
def C03(t):
    q = quick(t)
    l = []
    for d in (0, 1):
        for m in (0, 1):
            for pad in (0, 1): l += [mode('h_stream', m, 4, 0, 9 if q else 13, pad, dr=d), mode('h_stream', m, 3, 0, 4 if q else 7, pad, three=1, dr=d)]
        for pad in (0, 1): l += [mode('h_stream', 2, 4, 0, 6 if q else 9, pad, s, dr=d) for s in (1, 2, 4)] + [mode('h_stream', 2, 4, 0, 4 if q else 7, pad, 2, three=1, dr=d)]
        for m in (3, 4): l += [mode('h_stream', m, 4, 0, 9 if q else 13, k=4, dr=d), mode('h_stream', m, 3, 0, 4 if q else 7, k=3, three=1, dr=d)]
    for m in (0, 1, 2):
        for pad in (0, 1): l += [mode('h_stream_any', m, 3 if q else 4, 0, 7 if q else 12, pad, s) for s in ((1, 3) if q and m == 2 else (1, 2, 4) if m == 2 else (0,))]
    return l
def C04(t):
    q = quick(t)
    return [Job('padding, block %d' % b, 'h_pad', {1: b, 2: 0, 3: 3 * b + 1}) for b in ((1, 2, 5, 8, 16) if q else (1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 32, 64))] + \
        [Job('unpadding, block %d' % b, 'h_unpad', {1: b, 2: 0, 3: 2 * b + 2}) for b in ((1, 4, 16) if q else (1, 2, 3, 4, 5, 8, 16, 32))]
def Z01(t): return [Job('keystream, %s' % n, 'h_zuc', {0: i, 1: 4 if quick(t) else 20}, mode='narrow') for i, n in enumerate(('new', 'from slices', 'set', 'set from slices', 'cloned'))] + [Job('lengths', 'h_zuc_len', {}, mode='narrow')]
def Z02(t):
    q = quick(t)
    l = [Job('one message of %d..%d bytes' % (x, y), 'h_eea3', {0: 1, 1: x, 2: y}, mode='narrow') for x, y in ((0, 17 if q else 40),)]
    l += [Job('%d messages of %d..%d bytes' % (c, x, y), 'h_eea3', {0: c, 1: x, 2: y}, mode='narrow') for c, x, y in (((2, 0, 5), (3, 1, 3)) if q else ((2, 0, 9), (3, 0, 5), (4, 1, 3)))]
    return l + [Job('decrypting restores 0..%d bytes' % n, 'h_eea3_round', {1: 0, 2: n}, mode='narrow') for n in ((17,) if q else (40,))]
def Z03(t):
    q = quick(t)
    return [Job('%s writes of together %d..%d bytes' % ('three' if w else 'two', x, y), 'h_eia3', {0: w, 1: x, 2: y}, merge=True, mode='narrow') for w, x, y in (((0, 0, 9), (1, 0, 5)) if q else ((0, 0, 20), (1, 0, 10)))] + \
        [Job('history of %d operations' % n, 'h_eia3_hist', {0: n, 1: k}, merge=True, mode='narrow') for n, k in (((3, 2),) if q else ((3, 3), (4, 2)))]
# ------------------------------------------------------------------ RSA
def bnj(name, h, params, **kw): return Job(name, h, params, kind='bn', retry=3000, **kw)
RSAK = (('11*13', 8), ('13*11', 8), ('3*11', 6), ('61*53', 12), ('5*7*11', 9), ('11*7*5', 9), ('7*11*5*3', 11), ('7*5', 6))
def R01(t):
    l = []
    for i, (n, w) in enumerate(RSAK):
        w += 1
        l += [bnj('key %s: public operation' % n, 'h_rsa', {0: i, 1: 0, 2: 0, 4: w})]
        for crt in (0, 1):
            s = ' with CRT values' if crt else ''
            l += [bnj('key %s%s: private operation' % (n, s), 'h_rsa', {0: i, 1: 1, 2: crt, 4: w})]
            if not quick(t) or w < 12:
                l += [bnj('key %s%s: checked private operation' % (n, s), 'h_rsa', {0: i, 1: 2, 2: crt, 4: w}), bnj('key %s%s: there and back' % (n, s), 'h_rsa', {0: i, 1: 3, 2: crt, 4: w})]
            if w == 7 or not quick(t) and w < 12: l += [bnj('key %s%s: private operation, blinded' % (n, s), 'h_rsa', {0: i, 1: 1, 2: crt, 3: 1, 4: w, 5: 2}, timeout=600)]
    return l
def R02(t):
    l = [bnj('OAEP encrypt, modulus of %d bits, %d-byte hash' % (b, h), 'h_oaep_enc', {0: b, 1: h, 2: 1, 3: 1, 4: x}) for b, h, x in ((48, 1, 0), (41, 1, 3), (64, 2, 0))]
    l += [bnj('OAEP decrypt, modulus of %d bits, %d-byte hash' % (b, h), 'h_oaep_dec', {0: b, 1: h, 2: 1, 4: x}) for b, h, x in ((48, 1, 0), (41, 1, 3), (64, 2, 0))]
    l += [bnj('OAEP ciphertext length, modulus of %d bits' % b, 'h_oaep_len', {0: b, 1: 1}) for b in (48, 41)]
    return l

def R03(t):
    l = [bnj('PKCS1 encrypt, modulus of %d bits, %d words' % (b, w), 'h_p1_enc', {0: b, 1: w, 2: z, 4: x}) for b, w, z, x in ((96, 5, 5, 0), (104, 4, 4, 3), (104, 2, 1, 0))]
    l += [bnj('PKCS1 decrypt, modulus of %d bits' % b, 'h_p1_dec', {0: b, 4: x}) for b, x in ((96, 0), (104, 3), (112, 0))]
    l += [bnj('PKCS1 ciphertext length, modulus of %d bits' % b, 'h_p1_len', {0: b}) for b in (96, 104)]
    return l
HN = ('MD5', 'SHA1', 'SHA224', 'SHA256', 'SHA384', 'SHA512')
P1 = ((0, 360, 0), (0, 368, 0), (1, 360, 1), (1, 368, 0), (2, 368, 1), (2, 504, 0), (3, 504, 0), (3, 520, 0), (4, 600, 1), (4, 752, 0), (5, 600, 1), (5, 752, 0), (5, 760, 0))
def R04(t):
    l = []
    for h, b, short in P1:
        s = '%s, modulus of %d bits' % (HN[h], b)
        for n in ((3,) if quick(t) else (0, 1, 55, 56, 64, 112)): l += [bnj('PKCS1 sign %d bytes, %s' % (n, s), 'h_p1_sign', {0: b, 1: h, 2: n, 3: short})]
        if not short:
            l += [bnj('PKCS1 verify, %s' % s, 'h_p1_ver', {0: b, 1: h, 2: 3}), bnj('PKCS1 sign nothing, blinded, %s' % s, 'h_p1_sign', {0: b, 1: h, 4: 3})]
            if not quick(t) or h == 1: l += [bnj('PKCS1 disguised signature, %s' % s, 'h_p1_alt', {0: b, 1: h, 2: 3})]
    l += [bnj('PKCS1 sign with a hash without identifier', 'h_p1_other', {0: 360})]
    return l
def R05(t):
    l = []
    for b in range(41, 49):
        for h, s in ((1, 99), (1, 0), (1, 2), (1, 1)) if b != 41 else ((1, 99), (1, 0), (1, 2)):
            d = '%d bits, salt %s' % (b, 'auto' if s == 0 else 'as hash' if s == 99 else s)
            l += [bnj('PSS sign, ' + d, 'h_pss_sign', {0: b, 1: h, 2: 1, 3: s, 4: 3 if b == 44 else 0, 5: 1})]
            if not (b == 41 and s == 0): l += [bnj('PSS verify, ' + d, 'h_pss_ver', {0: b, 1: h, 2: 1, 3: s})]
        l += [bnj('PSS disguised signature, %d bits' % b, 'h_pss_alt', {0: b, 1: 1, 2: 1, 3: 1})]
    for b in (56, 64): 
        l += [bnj('PSS sign, %d bits, 2-byte hash' % b, 'h_pss_sign', {0: b, 1: 2, 2: 1, 3: 99, 4: 0, 5: 1}), bnj('PSS verify, %d bits, 2-byte hash' % b, 'h_pss_ver', {0: b, 1: 2, 2: 1, 3: 99})]
    l += [bnj('PSS sign, 88 bits, salt 5, %d words' % w, 'h_pss_sign', {0: 88, 1: 1, 2: 1, 3: 5, 4: 0, 5: w}) for w in (1, 2)]
    return l
# ------------------------------------------------------------------ DSA
DSAD = ('503,251', '1049,131', '797,199', '263,131')
def D01(t):
    l = []
    for i in ((0, 1) if quick(t) else range(4)):
        for h in ((1, 2) if quick(t) else (1, 2, 3)):
            for x in ((77,) if quick(t) else (1, 77, 130)):
                d = 'p,q=%s, key %d, %d-byte hash' % (DSAD[i], x, h)
                l += [bnj('DSA sign and verify, nonce %d, ' % k + d, 'h_dsa_sign', {0: i, 1: h, 2: x, 3: 1, 4: 1, 5: k}) for k in ((3, 130) if quick(t) else (1, 2, 3, 64, 77, 100, 130))]
                l += [bnj('DSA sign, ' + d, 'h_dsa_sign', {0: i, 1: h, 2: x, 3: 1}), bnj('DSA verify, ' + d, 'h_dsa_ver', {0: i, 1: h, 2: x, 3: 9, 4: (x + h) % 3})]
            l += [bnj('DSA sign, any key, p,q=%s, %d-byte hash' % (DSAD[i], h), 'h_dsa_sign', {0: i, 1: h, 2: 0, 3: 1})]
        l += [bnj('DSA sign, p,q=%s, two nonces' % DSAD[i], 'h_dsa_sign', {0: i, 1: 1, 2: 5, 3: 2})]
    return l
# ------------------------------------------------------------------ elliptic curves
ECC = ('11/7', '13/19', '17/23', '23/31', '23/17', '31/41', '61/71', '251/223', '257/271', '521/547')
def ecj(name, params, **kw): return bnj(name, 'h_ec', params, timeout=600, small=10, **kw)
def E03(t):
    l = []
    for i in ((0, 1, 3, 4, 5) if quick(t) else range(10)):
        l += [bnj('points of the curve %s' % ECC[i], 'h_ec', {0: i, 1: 0}), ecj('doubling, curve %s' % ECC[i], {0: i, 1: 2})]
        if i < 6: l += [ecj('addition, curve %s' % ECC[i], {0: i, 1: 1})]
        m = 63 if quick(t) else 1023
        l += [bnj('multiples of the base point by up to %d, curve %s' % (m, ECC[i]), 'h_ec', {0: i, 1: 4, 2: m})]
        if quick(t) and i > 3: continue
        for k in range(0, 20 if quick(t) else 50, 5): l += [ecj('multiples %d..%d of any point, curve %s' % (k, k + 4, ECC[i]), {0: i, 1: 3, 2: k, 3: k + 4})]
    return l
D02K = {0: 3, 1: 6, 2: 20, 3: 11, 4: 5, 5: 17}
def D02(t):
    l = []
    for i in ((0, 1, 4) if quick(t) else range(6)):
        for h in (1, 2):
            d = 'curve %s, key %d, %d-byte hash' % (ECC[i], D02K[i], h)
            l += [bnj('ECDSA sign, ' + d, 'h_ecdsa_sign', {0: i, 1: h, 2: D02K[i], 3: h}, opaque=True), bnj('ECDSA verify, ' + d, 'h_ecdsa_ver', {0: i, 1: h, 2: D02K[i], 3: 5 if i < 5 else 6, 4: (i + h) % 3}, timeout=600)]
    for i, d in ((7, 200), (9, 500)):
        for h in (1, 2, 3): l += [bnj('ECDSA sign, curve %s, key %d, %d-byte hash' % (ECC[i], d, h), 'h_ecdsa_sign', {0: i, 1: h, 2: d, 3: 1}, opaque=True)]
    return l
def K01(t):
    l = []
    for i in ((8,) if quick(t) else (8, 9)):
        l += [bnj('generate_key, curve %s, %d words' % (ECC[i], w), 'h_key_ec', {0: i, 1: w, 2: f}) for w, f in ((1, 0), (0, 1), (1, 1))]
        if not quick(t): l += [bnj('generate_key, curve %s, 2 words' % ECC[i], 'h_key_ec', {0: i, 1: 2, 2: 1})]
    for i in (0, 1, 4, 7, 9): l += [bnj('auto_generate_key, curve %s, %d words' % (ECC[i], w), 'h_key_ecdsa', {0: i, 1: w, 2: int(w < 3), 3: 1}) for w in (0, 1, 2, 3)]
    for i in range(4): l += [bnj('DSA key, p,q=%s, %d words' % (DSAD[i], w), 'h_key_dsa', {0: i, 1: w}) for w in (1, 2, 3)]
    l += [bnj('DSA nonce, p,q=%s, two words' % DSAD[i], 'h_dsa_sign', {0: i, 1: 1, 2: 5, 3: 2}) for i in (0, 1)]
    l += [bnj('ECDSA nonce, curve %s' % ECC[i], 'h_ecdsa_sign', {0: i, 1: 1, 2: 5, 3: 1}, opaque=True) for i in (0, 3, 7)]
    return l

# ------------------------------------------------------------------ limbs
def E01(t):
    l = [bnj('P-224 %s, limbs of %d and %d bits' % (n, a, b), 'h_p224', {0: o, 1: a, 2: b}, limbs=True) for o, n, a, b in
         ((0, 'product', 29, 30), (0, 'product', 30, 29), (1, 'square', 29, 29), (2, 'sum', 31, 31), (3, 'difference', 30, 30), (4, 'reduction', 31, 1))]
    l += [bnj('P-224 %s, limbs of 29 bits' % n, 'h_p224_least', {0: o, 1: 29}) for o, n in ((0, 'least residue'), (1, 'test for zero'))]
    l += [bnj('P-224 limbs of a number of %d bytes' % n, 'h_p224_number', {0: 0, 1: n}) for n in (1, 3, 4, 7, 27, 28)]
    return l + [bnj('P-224 number of limbs', 'h_p224_number', {0: 1})]
def E02(t):
    l = [bnj('P-256 limbs of a number of %d bytes' % n, 'h_p256_number', {0: 0, 1: n}, opaque='rem') for n in ((32,) if t == 'quick' else (1, 8, 31, 32))]
    l += [bnj('P-256 number of limbs', 'h_p256_number', {0: 1}, limbs=True)]
    return l + [bnj('P-256 %s' % n, 'h_p256', {0: o}, limbs=True) for o, n in enumerate(('product', 'square', 'sum', 'difference', 'triple', 'four times', 'eight times'))]
# ------------------------------------------------------------------ what the verdicts rest on
_ALL = ['the IR that is executed is that of the same source with the same features, compiled with opt-level 2, overflow checks and debug assertions',
        'allocation succeeds; a handful of core/alloc functions (allocation, memcpy, vector growth, formatting of error texts) are modelled, not executed']
_BN = ['the number library rmath is replaced by a model that computes exactly on numbers; runs of sampled paths and every counterexample are repeated with the real library',
       'limb-level behaviour of rmath for numbers of more than one limb is outside']
_PW = ['modular powers by the key of a wide modulus are an uninterpreted permutation with its inverse']
_UH = ['an uninterpreted function stands for the hash (or cipher), so the verdict is for every one']
META = {p: dict(assumptions=list(_ALL)) for p in ('B01', 'B02', 'B03', 'H01', 'H02', 'H03', 'H04', 'H05', 'H06', 'I01', 'Z01', 'Z02', 'Z03', 'C04')}
META.update({p: dict(assumptions=_ALL + _UH) for p in ('M01', 'M02', 'C01', 'C02', 'C03')})
META.update({p: dict(assumptions=_ALL + _BN + _PW + (_UH if p != 'R04' and p != 'R03' else [])) for p in ('R02', 'R03', 'R04', 'R05')})
META.update({p: dict(assumptions=_ALL + _BN + ['small keys, domains and curves stand for the real sizes']) for p in ('R01', 'D01', 'D02', 'E03', 'K01')})
META.update({p: dict(assumptions=_ALL + _BN[:1] + ['the field functions are called through a guarded re-export with limbs within the bounds their comments state (the operands the curve formulas pass keep them); point formulas on top are outside']) for p in ('E01', 'E02')})
META['D02']['assumptions'] += ['the output of the nonce generator (SHA-512, AES-CTR) is executed but then treated as any bytes']
META['K01']['assumptions'] += ['the output of the nonce generator (SHA-512, AES-CTR) is executed but then treated as any bytes']
