"""The references against independent implementations / published vectors (concrete)."""
import sys, hashlib, os; sys.path.insert(0, '/verif/engine')
from specs import hashes as h, blocks as b
for n in list(range(0, 300, 7)) + [55, 56, 63, 64, 111, 112, 127, 128, 135, 136, 137, 167, 168]:
    m = os.urandom(n)
    for alg, name in ((1, 'md5'), (2, 'sha1'), (3, 'sha256'), (4, 'sha224'), (5, 'sha512'), (6, 'sha384'), (7, 'sha512_224'), (8, 'sha512_256'), (9, 'sm3'), (10, 'sha3_224'), (11, 'sha3_256'), (12, 'sha3_384'), (13, 'sha3_512')):
        try: want = hashlib.new(name, m).digest()
        except ValueError: continue
        assert bytes(h.digest(alg, 0, m)) == want, (name, n)
    assert bytes(h.digest(14, 8 * n, m)) == hashlib.shake_128(m).digest(n)
    assert bytes(h.digest(15, 8 * n, m)) == hashlib.shake_256(m).digest(n)
assert bytes(h.sm3(list(b'abc'))).hex() == '66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0'
H = bytes.fromhex
x = H('00112233445566778899aabbccddeeff')
for n, c in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'), (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'), (32, '8ea2b7ca516745bfeafc49904b496089')):
    k = list(range(n))
    assert bytes(b.aes_enc(k, list(x))).hex() == c and bytes(b.aes_dec(k, list(H(c)))) == x
assert bytes(b.des(list(H('133457799bbcdff1')), list(H('0123456789abcdef')), 0)).hex() == '85e813540f0ab405'
assert bytes(b.des(list(H('133457799bbcdff1')), list(H('85e813540f0ab405')), 1)).hex() == '0123456789abcdef'
k = list(H('0123456789abcdeffedcba9876543210'))
assert bytes(b.sm4(k, k, 0)).hex() == '681edf34d206965e86b3e94f536e4246'
assert bytes(b.sm4(k, list(H('681edf34d206965e86b3e94f536e4246')), 1)) == bytes(k)
for n in (0, 1, 71, 72, 135, 136, 200): assert h.sponge_bits(list(range(n)), [], 136, 256) == h.digest(11, 0, list(range(n)))
print('ok')
