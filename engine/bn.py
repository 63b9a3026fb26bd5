"""Natural numbers behind the stand-in `rmath`: each handle names a term (or an int) of known width."""
import numpy as np
import terms, z3b, machine
from terms import ext, cat, eq, ult, ite, ne
from machine import extern, _i
from symex import Unsupported, Panic

TBL = 1 << 13          # largest table used for powers and inverses modulo a small number
def fit(v, w):
    """drop leading bits known to be zero"""
    if v.__class__ is int: return v
    n = max(1, terms.ub(v).bit_length())
    return ext(v, 0, n) if n < w else v
def wd(v): return max(1, v.bit_length()) if v.__class__ is int else v.w
def zx(v, w): return v if v.__class__ is int or v.w == w else terms.zext(v, v.w, w)

class Tab:
    def __init__(self): self.l = [None]; self.ints = {}
def tab(X):
    t = X.state.get('bn')
    if t is None: t = X.state['bn'] = Tab()
    return t
def new(X, v):
    t = tab(X)
    v = small(v)
    if v.__class__ is int:
        h = t.ints.get(v)
        if h is None: h = t.ints[v] = len(t.l); t.l.append(v)
        return h
    t.l.append(fit(v, v.w))
    return len(t.l) - 1
def get(X, h):
    h = _i(h)
    if h == 0: raise Unsupported('operation on a number that is not one')
    return tab(X).l[h]

# ------------------------------------------------------------------ arithmetic on values
def add(a, b):
    if a.__class__ is int and b.__class__ is int: return a + b
    w = max(wd(a), wd(b)) + 1
    return fit(terms.add(zx(a, w), zx(b, w), w), w)
def lt(a, b):
    if a.__class__ is int and b.__class__ is int: return int(a < b)
    if b.__class__ is int and terms.ub(a) < b: return 1
    w = max(wd(a), wd(b))
    return small(ult(zx(a, w), zx(b, w), w))
def settled(X, c):
    """c, or its value if the path has it as a condition"""
    if c.__class__ is not int:
        s = PCSET(X)
        if c in s: return 1
        if terms.not_(c, 1) in s: return 0
    return c
def same(a, b):
    if a.__class__ is int and b.__class__ is int: return int(a == b)
    w = max(wd(a), wd(b))
    return small(eq(zx(a, w), zx(b, w), w))
def diff(X, a, b):
    if a.__class__ is int and b.__class__ is int: return abs(a - b)
    w = max(wd(a), wd(b)); a, b = zx(a, w), zx(b, w)
    l = settled(X, ult(a, b, w))
    return fit(ite(l, terms.sub(b, a, w), terms.sub(a, b, w), w), w)
def PCSET(X):
    s = X.state.get('pcset')
    if s is None: s = X.state['pcset'] = [0, set()]
    if s[0] > len(X.pc): s[0] = 0; s[1].clear()
    while s[0] < len(X.pc): s[1].add(X.pc[s[0]]); s[0] += 1
    return s[1]
PR = {}      # product term -> (constant factor, other factor)
MM = {}      # reduced term -> (k, t, n): it is k * t mod n
SMALL = 0     # a reduced value that depends on at most so many input bits is kept as a table over them
_small = {}
class _All(z3b.Sim):
    def __init__(self, bits): super().__init__(); self.K = 1 << bits
def small(v):
    if not SMALL or v.__class__ is int or v.op == 'var' or (v.op == 'ext' and v.a[0].op == 'var') or v.w > 60: return v
    r = _small.get(v)
    if r is None: r = _small[v] = _tabulate(v)
    return r
def _tabulate(v):
    seen = set(); st = [v]; leaf = {}
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if len(seen) > 400 or t.w > 60 or t.op in ('uf', 'lin', 'box'): return v
        if t.op == 'var' or (t.op == 'ext' and t.a[0].op == 'var'):
            x, lo, n = (t, 0, t.w) if t.op == 'var' else (t.a[0], t.a[1], t.w)
            a, b = leaf.get(x, (lo, lo + n))
            leaf[x] = (min(a, lo), max(b, lo + n))
            if t.op == 'ext': seen.add(t.a[0])
            continue
        st.extend(z3b.children(t))
    n = sum(b - a for a, b in leaf.values())
    if n > SMALL or n == 0: return v
    s = _All(n); p = 0; ix = []
    al = np.arange(1 << n, dtype=np.uint64)
    for x in sorted(leaf, key=terms._tid):
        a, b = leaf[x]
        s.v[x] = ((al >> np.uint64(p)) & np.uint64((1 << (b - a)) - 1)) << np.uint64(a)
        ix.append((ext(x, a, b - a), b - a)); p += b - a
    r = s.val(v)
    return fit(terms.lookup(tuple(int(y) for y in r), cat(ix), v.w, n), v.w)
def forget(): PR.clear(); MM.clear(); _small.clear(); _opaque.clear()
def mul(a, b):
    if a.__class__ is int and b.__class__ is int: return a * b
    if b.__class__ is int: a, b = b, a
    if a.__class__ is int and a == 0: return 0
    w = wd(a) + wd(b)
    if w > 20000: raise Unsupported('product of %d bits' % w)
    r = fit(terms.mul(zx(a, w), zx(b, w), w), w)
    if a.__class__ is int and r.__class__ is not int: PR[r] = (a, b)
    return r
def below(X, t, n):
    """t < n on this path?"""
    if terms.ub(t) < n: return True
    if z3b.LIMBS: return False
    c = settled(X, terms.not_(lt(t, n), 1))
    if c.__class__ is int: return not c
    return not X.feasible(c)
def rem(X, a, n): return small(_rem(X, a, n))
def _rem(X, a, n):
    if n.__class__ is int and n == 0: raise Panic('division by zero')
    if a.__class__ is int and n.__class__ is int: return a % n
    if n.__class__ is not int:
        w = max(wd(a), wd(n))
        return fit(terms.urem(zx(a, w), zx(n, w), w), w)
    if terms.ub(a) < n: return a
    if wd(n) <= 16 and wd(a) <= 64:
        return fit(terms.urem(a, n, a.w), a.w)
    k, t = PR.get(a, (1, a))
    k %= n
    while t in MM and MM[t][2] == n: k, t = k * MM[t][0] % n, MM[t][1]
    if k == 0: return 0
    if k == 1 and below(X, t, n): return ext(t, 0, wd(n)) if t.w > wd(n) else t
    if OPAQUE == 'rem' and n & (n - 1):
        # any number of that size (the same one for the same dividend)
        return _opaque.setdefault((k, t, n), terms.var('opaque%d' % len(_opaque), wd(n)))
    p = mul(k, t)
    r = fit(terms.urem(p, n, p.w), p.w) if p.__class__ is not int else p % n
    if r.__class__ is not int: MM[r] = (k, t, n)
    return r
def div(X, a, n):
    if n.__class__ is int and n == 0: raise Panic('division by zero')
    if a.__class__ is int and n.__class__ is int: return a // n
    w = max(wd(a), wd(n))
    return fit(terms.udiv(zx(a, w), zx(n, w), w), w)

# ------------------------------------------------------------------ modular exponentiation
PW = {}      # function name -> (e, n)
def pw_name(e, n):
    name = 'X%x_%x' % (e, n)
    if name not in PW:
        PW[name] = (e, n)
        z3b.PERMFN[name] = lambda nm, args, w: pow(args[0][0] % n, e, n)
    return name
_inv = {}
def undoes(e, d, n):
    """x^(e*d) = x modulo n (n a product of distinct primes)?"""
    k = (e, d, n)
    if k not in _inv: _inv[k] = all(pow(pow(g, e, n), d, n) == g % n for g in list(range(2, 24)) + [n - 2, n // 3, n // 7 + 1])
    return _inv[k]
def power(X, b, e, n): return small(_power(X, b, e, n))
def _power(X, b, e, n):
    if n.__class__ is not int: raise Unsupported('symbolic modulus of a power')
    if n == 1: return 0
    if e.__class__ is int and e == 0: return 1
    if b.__class__ is int and e.__class__ is int:
        if n == 0:
            if e > 100000: raise Unsupported('large power')
            return b ** e
        return pow(b, e, n)
    if n == 0: raise Unsupported('symbolic power without modulus')
    if e.__class__ is int:
        if n <= TBL:
            if e == n - 2 and isprime(n): return inverse(X, b, n)
            b = rem(X, b, n)
            if b.__class__ is int: return pow(b, e, n)
            return fit(terms.lookup(tuple(pow(x, e, n) for x in range(min(n, terms.ub(b) + 1))), b, wd(n), b.w), wd(n))
        b = rem(X, b, n)
        if b.__class__ is int: return pow(b, e, n)
        if b in MM and MM[b][2] == n:
            k, t = MM[b][:2]
            return rem(X, mul(pow(k, e, n), power(X, t, e, n)), n)
        t = b
        if t.op == 'uf' and t.a[0] in PW and PW[t.a[0]][1] == n and undoes(PW[t.a[0]][0], e, n):
            x = t.a[1][0][0]
            return rem(X, fit(x, t.a[1][0][1]), n)
        w = wd(n)
        r = machine.apply_uf(X, pw_name(e, n), ((zx(b, w), w),), w)
        if not X.concrete: X.pc.append(lt(r, n))
        return r
    if b.__class__ is int:
        if wd(e) > 13: raise Unsupported('symbolic exponent of %d bits' % wd(e))
        return fit(terms.lookup(tuple(pow(b, x, n) for x in range(terms.ub(e) + 1)), e, wd(n), e.w), wd(n))
    b = rem(X, b, n)
    if b.__class__ is int: return power(X, b, e, n)
    if wd(b) + wd(e) <= 16:
        ix = cat([(e, e.w), (b, b.w)])
        return fit(terms.lookup(tuple(pow(i >> e.w, i & ((1 << e.w) - 1), n) for i in range(1 << (e.w + b.w))), ix, wd(n), ix.w), wd(n))
    if wd(n) > 16: raise Unsupported('symbolic power')
    r = 1
    for i in reversed(range(e.w)):
        r = rem(X, mul(r, r), n)
        m = rem(X, mul(r, b), n)
        w = max(wd(r), wd(m))
        r = fit(ite(ext(e, i, 1), zx(m, w), zx(r, w), w), w) if not (r.__class__ is int and m.__class__ is int and r == m) else r
    return r
def _inverse(g, n):
    """what the extended Euclidean algorithm gives for g, also when there is no inverse"""
    if g % n == 0: return 0
    def go(a, b):
        if b == 0: return a, 1, 0
        d, x, y = go(b, a % b)
        return d, y, x - a // b * y
    x = go(g, n)[1]
    return x + n if x < 0 else x
def inverse(X, g, n): return small(_inverse_(X, g, n))
def _inverse_(X, g, n):
    if n.__class__ is not int: raise Unsupported('inverse for a symbolic modulus')
    if n == 0: raise Unsupported('inverse modulo 0')
    if g.__class__ is int: return _inverse(g, n)
    if n > TBL: raise Unsupported('inverse of a symbolic value modulo a large number')
    g = rem(X, g, n)
    if g.__class__ is int: return _inverse(g, n)
    return fit(terms.lookup(tuple(_inverse(x, n) for x in range(min(n, terms.ub(g) + 1))), g, wd(n) + 1, g.w), wd(n) + 1)
def isprime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

# ------------------------------------------------------------------ interface of the stand-in
@extern('vp_bn_u64')
def x_u64(X, v): return new(X, v)
@extern('vp_bn_bytes')
def x_bytes(X, p, n, big):
    b = X.rbytes(_i(p), X.concretize(n, 64))
    if big: b = b[::-1]
    return new(X, whole(X, opaque(cat([(x, 8) for x in b]))))
OPAQUE = False
_opaque = {}
def opaque(v):
    """a number read from bytes that are a large circuit (a generator's output) may be any number of that size"""
    if v.__class__ is int or not OPAQUE: return v
    r = _opaque.get(v)
    if r is None:
        seen = set(); st = [v]
        while st and len(seen) <= 4000:
            t = st.pop()
            if t in seen: continue
            seen.add(t); st.extend(z3b.children(t))
        r = v
        if len(seen) > 4000: r = terms.var('opaque%d' % len(_opaque), v.w)
        _opaque[v] = r
    return r
def whole(X, v):
    """the number of which v is the low part, when the path has settled that the rest is zero"""
    if v.__class__ is not int:
        v = fit(v, v.w)
        if v.__class__ is not int and v.op == 'ext' and v.a[1] == 0 and X.state.get('short', {}).get(v.a[0], 1 << 30) <= v.w: return v.a[0]
    return v
@extern('vp_bn_str')
def x_str(X, p, n):
    s = bytes(X.rbytes(_i(p), X.concretize(n, 64))).decode().strip().replace('_', '')
    try: return new(X, int(s[2:], 16) if s[:2] in ('0x', '0X') else int(s[2:], 2) if s[:2] in ('0b', '0B') else int(s[2:], 8) if s[:2] in ('0o', '0O') else int(s))
    except ValueError: return 0
@extern('vp_bn_len')
def x_len(X, h):
    v = get(X, h)
    if v.__class__ is int: return max(1, (v.bit_length() + 7) // 8)
    n = (v.w + 7) // 8
    known = X.state.setdefault('len', {})
    if v in known: return known[v]
    # a power met for the first time can have any length
    free = v.op == 'uf' and v.a[0] in PW
    n = known[v] = _len(X, v, n, X.fork if free else X.branch_)
    return n
def _len(X, v, n, branch):
    while n > 1:
        lo = 8 * (n - 1)
        if branch(ne(ext(v, lo, v.w - lo) if n == (v.w + 7) // 8 else ext(v, lo, 8), 0, min(8, v.w - lo))): return n
        n -= 1
        X.state.setdefault('short', {})[v] = 8 * n
    return 1
@extern('vp_bn_put')
def x_put(X, h, p, n):
    v = get(X, h); n = _i(n)
    if v.__class__ is not int: v = zx(v, 8 * n) if v.w <= 8 * n else ext(v, 0, 8 * n)
    X.wbytes(p, [(v >> 8 * i & 255) if v.__class__ is int else ext(v, 8 * i, 8) for i in range(n)])
@extern('vp_bn_bits')
def x_bits(X, h):
    v = get(X, h)
    if v.__class__ is int: return max(1, v.bit_length())
    r = 1
    for i in range(1, v.w): r = ite(ext(v, i, 1), i + 1, r, 64)
    return r
@extern('vp_bn_bit')
def x_bit(X, h, i):
    v = get(X, h); i = _i(i)
    if v.__class__ is int: return v >> i & 1
    return terms.zext(ext(v, i, 1), 1, 8) if i < v.w else 0
@extern('vp_bn_word')
def x_word(X, h, i):
    v = get(X, h); i = _i(i)
    if v.__class__ is int: return v >> 32 * i & 0xffffffff
    if 32 * i >= v.w: return 0
    k = min(32, v.w - 32 * i)
    return terms.zext(ext(v, 32 * i, k), k, 32)
@extern('vp_bn_tz')
def x_tz(X, h):
    v = get(X, h)
    if v.__class__ is int: return (v & -v).bit_length() - 1 if v else 1
    for i in range(v.w):
        if X.branch_(ext(v, i, 1)): return i
    return 1
@extern('vp_bn_op')
def x_op(X, o, a, b):
    a, b = get(X, a), get(X, b)
    if o == 0: r = add(a, b)
    elif o == 1: r = diff(X, a, b)
    elif o == 2: r = mul(a, b)
    elif o == 3: r = div(X, a, b)
    elif o == 4: r = rem(X, a, b)
    elif o == 9: 
        import math
        if a.__class__ is not int or b.__class__ is not int: raise Unsupported('symbolic gcd')
        r = math.gcd(a, b)
    else:
        w = max(wd(a), wd(b)); a, b = zx(a, w), zx(b, w)
        r = terms.and_(a, b, w) if o == 5 else terms.or_(a, b, w) if o == 6 else terms.xor(a, b, w) if o == 7 else terms.and_(a, terms.not_(b, w), w)
    return new(X, r)
@extern('vp_bn_shl')
def x_shl(X, h, n):
    v = get(X, h); n = _i(n)
    if v.__class__ is int: return new(X, v << n)
    return new(X, cat([(0, n), (v, v.w)]) if n else v)
@extern('vp_bn_shr')
def x_shr(X, h, n):
    v = get(X, h); n = X.concretize(n, 64)
    if v.__class__ is int: return new(X, v >> n)
    return new(X, 0 if n >= v.w else ext(v, n, v.w - n))
@extern('vp_bn_lt')
def x_lt(X, a, b): return terms.zext(settled(X, lt(get(X, a), get(X, b))), 1, 8)
@extern('vp_bn_eq')
def x_eq(X, a, b): return terms.zext(same(get(X, a), get(X, b)), 1, 8)
@extern('vp_bn_sel')
def x_sel(X, c, a, b):
    c = c & 1 if c.__class__ is int else ext(c, 0, 1)
    if c.__class__ is int: return a if c else b
    if a == b: return a
    if a == 0 or b == 0: return a if X.branch_(c) else b
    x, y = get(X, a), get(X, b)
    w = max(wd(x), wd(y))
    return new(X, ite(c, zx(x, w), zx(y, w), w))
@extern('vp_bn_exp')
def x_exp(X, a, e, n): return new(X, power(X, get(X, a), get(X, e), get(X, n)))
@extern('vp_bn_inv')
def x_inv(X, a, n): return new(X, inverse(X, get(X, a), get(X, n)))
@extern('vp_bn_isprime')
def x_isprime(X, a):
    v = get(X, a)
    if v.__class__ is int: return int(isprime(v))
    if v.w > 13: raise Unsupported('primality of a symbolic value')
    return terms.zext(terms.lookup(tuple(int(isprime(i)) for i in range(terms.ub(v) + 1)), v, 1, v.w), 1, 8)
@extern('vp_bn_missing')
def x_missing(X): raise Unsupported('operation of the number library that is not modelled')
