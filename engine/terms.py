"""Hash-consed bit-vector terms with normalising constructors.

A value of width w is a Python int (constant) or a T.  Constructors normalise:
 * bit-slicing operations (shift/zext/trunc/mask/rotate) become 'cat' of slices,
 * xor is a set plus a constant, add is a linear combination plus a constant,
 * or is expressed with and/not, comparisons are eq/ult/slt only.
"""
import sys
sys.setrecursionlimit(200000)

XOR_CAP = 4000      # max number of xor operands kept flat
ADD_CAP = 4000
STAT = {'terms': 0}

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'ks', 'ubc', '__weakref__')
    def __repr__(s):
        return show(s, 4)

_tab = {}
_next = [1]
GEN = 0
NARROW = False     # normal form for arithmetic modulo 2^p - 1: sums are narrowed before they are sliced
def reset():
    global GEN
    GEN += 1
    _tab.clear(); _extc.clear(); _LIDX.clear(); del LATOM[1:]

def mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.w = w; t.a = a
        t.id = _next[0]; _next[0] += 1
        t.ks = None; t.ubc = -1
        _tab[k] = t
    return t

def show(t, d=4):
    if type(t) is int: return hex(t)
    if t.op == 'var': return t.a[0]
    if d == 0: return '#%d' % t.id
    if t.op == 'cat': return 'cat(' + ','.join('%s:%d' % (show(x, d-1), w) for x, w in reversed(t.a)) + ')'
    if t.op == 'ext': return '%s[%d+%d]' % (show(t.a[0], d-1), t.a[1], t.w)
    if t.op == 'xor': return '(' + '^'.join([hex(t.a[0])] + [show(x, d-1) for x in t.a[1][:8]]) + ')'
    if t.op == 'add': return '(' + '+'.join([hex(t.a[0])] + ['%d*%s' % (c, show(x, d-1)) for x, c in t.a[1][:8]]) + ')'
    if t.op == 'lin': return 'lin%d' % t.id
    if t.op == 'tbl': return 'tbl%d[%s]' % (len(TABLES[t.a[0]]), show(t.a[1], d-1))
    if t.op == 'uf': return '%s(%s)' % (t.a[0], ','.join(show(x, d-1) for x, w in t.a[1]))
    return '%s(%s)' % (t.op, ','.join(show(x, d-1) if isinstance(x, (int, T)) else str(x) for x in t.a))

TABLES = []
_tabidx = {}
def intern_table(tb):
    i = _tabidx.get(tb)
    if i is None:
        i = len(TABLES); TABLES.append(tb); _tabidx[tb] = i
    return i

def var(name, w):
    return mk('var', w, (name,))

# ---------------------------------------------------------------- slices
def _key(t):
    """(structure key at the start, key at the end) for joining adjacent slices"""
    k = t.ks
    if k is not None: return k
    op = t.op
    if op == 'ext':
        b, lo = t.a
        k = (('e', b.id, lo), ('e', b.id, lo + t.w))
    elif op == 'xor':
        ks = [_key(x) for x in t.a[1]]
        if any(x is False for x in ks) or len(ks) > 64: k = False
        else: k = (('x',) + tuple(sorted([x[0] for x in ks], key=repr)), ('x',) + tuple(sorted([x[1] for x in ks], key=repr)))
    elif op == 'and':
        ks = [_key(x) for x in t.a]
        if any(x is False for x in ks): k = False
        else: k = (('a',) + tuple(sorted([x[0] for x in ks], key=repr)), ('a',) + tuple(sorted([x[1] for x in ks], key=repr)))
    elif op == 'rep':
        k = (('r', t.a[0].id), ('r', t.a[0].id))
    elif op == 'ite':
        c, x, y = t.a
        kx = ('c', 'c') if type(x) is int else _key(x)
        ky = ('c', 'c') if type(y) is int else _key(y)
        if kx is False or ky is False: k = False
        else: k = (('i', c.id, kx[0], ky[0]), ('i', c.id, kx[1], ky[1]))
    else:
        k = False
    t.ks = k
    return k

def _join(lo, wl, hi, wh):
    """join hi:lo when they are adjacent slices of the same thing, else None"""
    if type(lo) is int:
        if type(hi) is int: return lo | (hi << wl)
        return None
    if type(hi) is int: return None
    if lo.op != hi.op:
        return None
    op = lo.op
    if op == 'ext':
        b, l = lo.a
        if hi.a[0] is b and hi.a[1] == l + wl:
            return ext(b, l, wl + wh)
        return None
    if op == 'rep':
        if lo.a[0] is hi.a[0]: return mk('rep', wl + wh, lo.a)
        return None
    if LIN or op not in ('xor', 'and', 'ite'): return None
    kl = _key(lo); kh = _key(hi)
    if kl is False or kh is False or kl[1] != kh[0]: return None
    if op == 'ite':
        x = cat([(lo.a[1], wl), (hi.a[1], wh)]); y = cat([(lo.a[2], wl), (hi.a[2], wh)])
        return ite(lo.a[0], x, y, wl + wh)
    if op == 'xor':
        els = []
        for a, b in zip(_skey(lo.a[1], 1), _skey(hi.a[1], 0)):
            j = _join(a, wl, b, wh)
            if j is None: return None
            els.append(j)
        c = lo.a[0] | (hi.a[0] << wl)
        r = c
        for e in els: r = xor(r, e, wl + wh)
        return r
    els = []
    for a, b in zip(_skey(lo.a, 1), _skey(hi.a, 0)):
        j = _join(a, wl, b, wh)
        if j is None: return None
        els.append(j)
    r = els[0]
    for e in els[1:]: r = and_(r, e, wl + wh)
    return r

def _skey(els, i):
    return sorted(els, key=lambda x: repr(_key(x)[i]))

def cat(segs):
    """segs: list of (value,width) from least significant"""
    out = []
    for x, w in segs:
        if w == 0: continue
        if type(x) is not int and x.op == 'cat':
            items = x.a
        else:
            items = ((x, w),)
        for it in items:
            cx, cw = it
            while out:
                px, pw = out[-1]
                j = _join(px, pw, cx, cw)
                if j is None: break
                out.pop()
                cx = j; cw = pw + cw
                if type(j) is not int and j.op == 'cat':
                    # can happen when a join collapses into segments
                    for seg in j.a[:-1]: out.append(seg)
                    cx, cw = j.a[-1]
                    break
            out.append((cx, cw))
    if not out: return 0
    if len(out) == 1: return out[0][0]
    return mk('cat', sum(w for _, w in out), tuple(out))

def ext(t, lo, w):
    """bits lo..lo+w-1 of t"""
    if type(t) is int: return (t >> lo) & ((1 << w) - 1)
    tw = t.w
    if w == tw: return t
    op = t.op
    if op == 'ext':
        return ext(t.a[0], t.a[1] + lo, w)
    if op == 'cat':
        out = []
        pos = 0
        end = lo + w
        for x, xw in t.a:
            if pos + xw > lo and pos < end:
                a = max(lo - pos, 0); b = min(end - pos, xw)
                out.append((ext(x, a, b - a) if (a or b != xw) else x, b - a))
            pos += xw
            if pos >= end: break
        if len(out) == 1: return out[0][0]
        return cat(out)
    if op in _PUSH:
        k = (t, lo, w)
        r = _extc.get(k)
        if r is None: r = _extc[k] = _ext2(t, op, lo, w)
        return r
    if NARROW and lo and (op == 'add' or op == 'mul'):
        n = ub(t).bit_length() - lo
        if n <= 0: return 0
        if n < w: return cat([(ext(t, lo, n), n), (0, w - n)])
    if (op == 'add' or op == 'mul') and (NARROW or lo == 0):
        k = (t, lo, w)
        r = _extc.get(k)
        if r is None: r = _extc[k] = _extsum(t, op, lo, w)
        return r
    return mk('ext', w, (t, lo))

def _extsum(t, op, lo, w):
    # drop the high part first, down to the narrowest width at which no computed summand has to be sliced
    for n in range(lo + w, t.w if NARROW else lo + w + 1):
        if _cheap(t, n, 3): break
    else: return mk('ext', w, (t, lo))
    if op == 'add':
        m = (1 << n) - 1
        r = t.a[0] & m
        for x, k in t.a[1]:
            k &= m
            if k: r = add(r, mulc(ext(x, 0, n), k, n), n)
    else: r = mul(ext(t.a[0], 0, n), ext(t.a[1], 0, n), n)
    return ext(r, lo, w)

_PUSH = ('xor', 'and', 'ite', 'rep')
_extc = {}
def _cheap(x, w, d):
    """the low w bits of x can be taken without slicing a computed node"""
    if type(x) is int or x.w <= w: return True
    if x.op == 'cat':
        p = 0
        for y, k in x.a:
            if p + k > w: return type(y) is int
            p += k
            if p == w: return True
        return True
    if d == 0: return False
    if x.op == 'add': return all(_cheap(y, w, d - 1) for y, _ in x.a[1])
    if x.op == 'mul': return all(_cheap(y, w, d - 1) for y in x.a)
    return False

def _ext2(t, op, lo, w):
    if op == 'xor':
        m = (1 << w) - 1
        r = (t.a[0] >> lo) & m
        els = t.a[1]
        if all(x.op in ('var', 'ext', 'tbl', 'uf') for x in els):
            es = [ext(x, lo, w) for x in els]
            return _mkxor(r, es, w)
        for x in els: r = xor(r, ext(x, lo, w), w)
        return r
    if op == 'and':
        r = ext(t.a[0], lo, w)
        for x in t.a[1:]: r = and_(r, ext(x, lo, w), w)
        return r
    if op == 'rep':
        return t.a[0] if w == 1 else mk('rep', w, t.a)
    if op == 'ite':
        return ite(t.a[0], ext(t.a[1], lo, w), ext(t.a[2], lo, w), w)

def segs(x, w):
    if type(x) is not int and x.op == 'cat': return x.a
    return ((x, w),)

def _align(a, b, w):
    """yield (xa, xb, width) over the union of segment boundaries"""
    sa = segs(a, w); sb = segs(b, w)
    cuts = set()
    p = 0
    for _, k in sa:
        p += k; cuts.add(p)
    p = 0
    for _, k in sb:
        p += k; cuts.add(p)
    out = []
    ia = ib = 0; pa = pb = 0
    prev = 0
    for c in sorted(cuts):
        k = c - prev
        while pa + sa[ia][1] <= prev: pa += sa[ia][1]; ia += 1
        while pb + sb[ib][1] <= prev: pb += sb[ib][1]; ib += 1
        xa, wa = sa[ia]; xb, wb = sb[ib]
        ea = xa if wa == k else ext(xa, prev - pa, k)
        eb = xb if wb == k else ext(xb, prev - pb, k)
        out.append((ea, eb, k))
        prev = c
    return out

# ---------------------------------------------------------------- bitwise
def _mkxor(c, els, w):
    """els: iterable of non-xor terms; cancels pairs"""
    d = {}
    for e in els:
        if type(e) is int:
            c ^= e; continue
        if e in d: del d[e]
        else: d[e] = 1
    if not d: return c
    if c == 0 and len(d) == 1: return next(iter(d))
    return mk('xor', w, (c, tuple(sorted(d, key=_tid))))

def _tid(x): return x.id

# ---- bit-linear mode: a 1-bit value is a set of atoms held as a Python integer (bit 0: constant one).
# Atoms are inputs and products, so xor is canonical whatever its association.
LIN = False
LATOM = [None]      # index -> 1-bit term
_LIDX = {}
def _lmask(x):
    if type(x) is int: return x
    if x.op == 'lin': return x.a[0]
    i = _LIDX.get(x)
    if i is None:
        i = _LIDX[x] = len(LATOM); LATOM.append(x)
    return 1 << i
def _lterm(m):
    if m < 2: return m
    if m & (m - 1) == 0: return LATOM[m.bit_length() - 1]
    return mk('lin', 1, (m,))
def latoms(m):
    out = []
    while m:
        l = m & -m
        out.append(l.bit_length() - 1); m ^= l
    return out
def _land(a, b):
    p = _lmask(a); q = _lmask(b)
    c = p & 1; d = q & 1
    p ^= c; q ^= d
    if p == q: return _lterm((p if c == d else 0) ^ (1 if c and d else 0) if c == d else 0)
    r = _lmask(mk('and', 1, tuple(sorted((_lterm(p), _lterm(q)), key=_tid)))) if p and q else 0
    if c: r ^= q
    if d: r ^= p
    if c and d: r ^= 1
    return _lterm(r)

def xor(a, b, w):
    if type(a) is int:
        if type(b) is int: return a ^ b
        a, b = b, a
    if w == 1 and LIN: return _lterm(_lmask(a) ^ _lmask(b))
    if type(b) is int:
        if b == 0: return a
        if a.op == 'xor':
            c = a.a[0] ^ b
            if c == 0 and len(a.a[1]) == 1: return a.a[1][0]
            return mk('xor', w, (c, a.a[1]))
        if a.op == 'cat':
            out = []; p = 0
            for x, k in a.a:
                out.append((xor(x, (b >> p) & ((1 << k) - 1), k), k)); p += k
            return cat(out)
        if a.op == 'ite' and (type(a.a[1]) is int or type(a.a[2]) is int) and w > 1:
            return ite(a.a[0], xor(a.a[1], b, w), xor(a.a[2], b, w), w)
        return mk('xor', w, (b, (a,)))
    if a is b: return 0
    if LIN and w == 8 and a.op == 'cat' and b.op == 'cat' and len(a.a) == 2 and len(b.a) == 2 and a.a[1] == (0, 7) and b.a[1] == (0, 7):
        x = _lterm(_lmask(a.a[0][0]) ^ _lmask(b.a[0][0]))
        return x if type(x) is int else mk('cat', 8, ((x, 1), (0, 7)))
    if a.op == 'cat' or b.op == 'cat':
        return cat([(xor(x, y, k), k) for x, y, k in _align(a, b, w)])
    ca = 0
    if a.op == 'xor': ca, ea = a.a
    else: ea = (a,)
    if b.op == 'xor':
        ca ^= b.a[0]; eb = b.a[1]
    else: eb = (b,)
    if len(ea) + len(eb) > XOR_CAP:
        # keep big operands opaque
        if a.op == 'xor' and len(ea) > XOR_CAP // 2: ea = (mk('box', w, (a,)),); ca ^= a.a[0]
        if b.op == 'xor' and len(eb) > XOR_CAP // 2: eb = (mk('box', w, (b,)),); ca ^= b.a[0]
    if len(eb) == 1:
        e = eb[0]
        if e in ea:
            es = tuple(x for x in ea if x is not e)
        else:
            es = tuple(sorted(ea + eb, key=_tid))
    elif len(ea) + len(eb) <= 8:
        s = set(ea) ^ set(eb)
        es = tuple(sorted(s, key=_tid))
    else:
        es = tuple(sorted(set(ea) ^ set(eb), key=_tid))
    if not es: return ca
    if ca == 0 and len(es) == 1: return es[0]
    return mk('xor', w, (ca, es))

def not_(a, w):
    return xor(a, (1 << w) - 1, w)

def and_(a, b, w):
    if type(a) is int:
        if type(b) is int: return a & b
        a, b = b, a
    m = (1 << w) - 1
    if type(b) is int:
        if b == 0: return 0
        if b == m: return a
        # mask: split in runs
        out = []; p = 0
        while p < w:
            bit = (b >> p) & 1
            q = p
            while q < w and ((b >> q) & 1) == bit: q += 1
            out.append((ext(a, p, q - p) if bit else 0, q - p))
            p = q
        return cat(out)
    if a is b: return a
    if w == 1 and LIN: return _land(a, b)
    if a.op == 'cat' or b.op == 'cat':
        return cat([(and_(x, y, k), k) for x, y, k in _align(a, b, w)])
    if a.op == 'rep': return ite(a.a[0], b, 0, w)
    if b.op == 'rep': return ite(b.a[0], a, 0, w)
    if w > 1:
        if a.op == 'ite' and (a.a[1] == 0 or a.a[2] == 0) and (type(a.a[1]) is int or type(a.a[2]) is int):
            return ite(a.a[0], and_(a.a[1], b, w), and_(a.a[2], b, w), w)
        if b.op == 'ite' and (b.a[1] == 0 or b.a[2] == 0) and (type(b.a[1]) is int or type(b.a[2]) is int):
            return ite(b.a[0], and_(b.a[1], a, w), and_(b.a[2], a, w), w)
    ea = a.a if a.op == 'and' else (a,)
    eb = b.a if b.op == 'and' else (b,)
    s = set(ea) | set(eb)
    if len(s) > 400:
        s = {a, b}
    xs = {}
    for x in s:
        if x.op == 'xor':
            if x.a[0] == m and len(x.a[1]) == 1 and x.a[1][0] in s: return 0
            o = xs.get(x.a[1])
            if o is not None:
                if o.a[0] ^ x.a[0] == m: return 0
            else: xs[x.a[1]] = x
    # x & ~(x & y & ..)  ->  x & ~(y & ..)
    for x in list(s):
        if x.op == 'xor' and x.a[0] == m and len(x.a[1]) == 1 and x.a[1][0].op == 'and':
            inner = x.a[1][0].a
            rest = [y for y in inner if y not in s]
            if len(rest) < len(inner):
                s.discard(x)
                r = m
                for y in rest: r = and_(r, y, w)
                r = not_(r, w)
                if type(r) is int:
                    if r == 0: return 0
                else:
                    out = r
                    for y in s: out = and_(out, y, w)
                    return out
    if len(s) == 1: return next(iter(s))
    if len(s) <= 4:
        r = _anf(s, m, w)
        if r is not None: return r
    return mk('and', w, tuple(sorted(s, key=_tid)))

ANF_ATOMS = 4; ANF_TERMS = 64
def _anf(s, m, w):
    """product of small xor sums as a sum of products (canonical for few atoms)"""
    atoms = set(); some = False
    for x in s:
        if x.op == 'xor':
            if (x.a[0] != 0 and x.a[0] != m) or len(x.a[1]) > 8: return None
            some = True
            for y in x.a[1]:
                if y.op == 'and': atoms.update(y.a)
                else: atoms.add(y)
        else: atoms.add(x)
        if len(atoms) > ANF_ATOMS: return None
    if not some: return None
    poly = {frozenset()}
    for x in s:
        if x.op == 'xor':
            p = set([frozenset()] if x.a[0] else [])
            for y in x.a[1]: p ^= {frozenset(y.a) if y.op == 'and' else frozenset((y,))}
        else: p = {frozenset((x,))}
        if len(poly) * len(p) > ANF_TERMS: return None
        q = set()
        for u in poly:
            for v in p: q ^= {u | v}
        poly = q
    c = 0; els = []
    for u in poly:
        if not u: c = m
        elif len(u) == 1: els.append(next(iter(u)))
        else: els.append(mk('and', w, tuple(sorted(u, key=_tid))))
    return _mkxor(c, els, w)

def or_(a, b, w):
    if type(a) is int:
        if type(b) is int: return a | b
        a, b = b, a
    m = (1 << w) - 1
    if type(b) is int:
        if b == 0: return a
        if b == m: return m
        out = []; p = 0
        while p < w:
            bit = (b >> p) & 1
            q = p
            while q < w and ((b >> q) & 1) == bit: q += 1
            out.append(((1 << (q - p)) - 1 if bit else ext(a, p, q - p), q - p))
            p = q
        return cat(out)
    if a is b: return a
    if a.op == 'cat' or b.op == 'cat':
        return cat([(or_(x, y, k), k) for x, y, k in _align(a, b, w)])
    return not_(and_(not_(a, w), not_(b, w), w), w)

def shlc(a, k, w):
    if k >= w: return 0
    if type(a) is int: return (a << k) & ((1 << w) - 1)
    if k == 0: return a
    return cat([(0, k), (ext(a, 0, w - k), w - k)])
def lshrc(a, k, w):
    if k >= w: return 0
    if type(a) is int: return a >> k
    if k == 0: return a
    return cat([(ext(a, k, w - k), w - k), (0, k)])
def ashrc(a, k, w):
    if type(a) is int:
        s = a >> (w - 1)
        k = min(k, w - 1) if k >= w else k
        return ((a >> k) | ((((1 << k) - 1) << (w - k)) if s else 0)) & ((1 << w) - 1)
    if k == 0: return a
    k = min(k, w - 1)
    return cat([(ext(a, k, w - k), w - k), (rep(ext(a, w - 1, 1), k), k)])
def rep(b, n):
    if type(b) is int: return ((1 << n) - 1) if b else 0
    if n == 1: return b
    return mk('rep', n, (b,))
def zext(a, w, w2):
    if type(a) is int: return a
    return cat([(a, w), (0, w2 - w)])
def sext(a, w, w2):
    if type(a) is int:
        return a | ((((1 << (w2 - w)) - 1) << w) if a >> (w - 1) else 0)
    if w == 1: return rep(a, w2)
    return cat([(a, w), (rep(ext(a, w - 1, 1), w2 - w), w2 - w)])
def trunc(a, w2):
    if type(a) is int: return a & ((1 << w2) - 1)
    return ext(a, 0, w2)
def rotl(a, k, w):
    k %= w
    if type(a) is int: return ((a << k) | (a >> (w - k))) & ((1 << w) - 1)
    if k == 0: return a
    return cat([(ext(a, w - k, k), k), (ext(a, 0, w - k), w - k)])
def bswap(a, w):
    if type(a) is int: return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    return cat([(ext(a, w - 8 - i, 8), 8) for i in range(0, w, 8)])

# ---------------------------------------------------------------- arithmetic
def _lin(x, w):
    """(const, {term: coef}) modulo 2^w"""
    m = (1 << w) - 1
    if type(x) is int: return x & m, {}
    op = x.op
    if op == 'add': return x.a[0], dict(x.a[1])
    if op == 'cat':
        c = 0; p = 0; out = []; lead = True; k = 0; changed = False
        for s, sw in x.a:
            if type(s) is int:
                if s: c |= s << p; changed = True
                out.append((0, sw))
            else: out.append((s, sw))
            p += sw
        runs = sum(1 for i, (s, _) in enumerate(out) if type(s) is not int and (i == 0 or type(out[i - 1][0]) is int))
        if NARROW and runs > 1:
            # one summand per maximal run of non-constant segments
            d = {}; p = 0; i = 0
            while i < len(out):
                if type(out[i][0]) is int: p += out[i][1]; i += 1; continue
                j = i; q = p
                while j < len(out) and type(out[j][0]) is not int: q += out[j][1]; j += 1
                c2, d2 = _lin(cat([(0, p)] * (p > 0) + out[i:j] + [(0, w - q)] * (q < w)), w)
                c += c2
                for t, v in d2.items(): d[t] = (d.get(t, 0) + v) & m
                p = q; i = j
            return c & m, {t: v for t, v in d.items() if v}
        if type(x.a[0][0]) is int:
            k = x.a[0][1]
            rest = list(out[1:])
            if len(rest) == 1 and type(rest[0][0]) is not int:
                r, rw = rest[0]
                if r.op == 'ext' and r.a[1] == 0 and r.a[0].w == w:
                    base = r.a[0]; cc, d = 0, {base: 1}
                    return c, {base: 1 << k}
                if r.op in ('add',):
                    # shl of a truncated sum
                    base = cat([(r, rw), (0, k)])
                    return c, {base: (1 << k) & m}
            base = cat(rest + [(0, k)])
            if type(base) is int: return c & m, {}
            c2, d2 = (0, {base: 1}) if base.op == 'cat' else _lin(base, w)
            return (c + (c2 << k)) & m, {t: (v << k) & m for t, v in d2.items() if (v << k) & m}
        if changed:
            y = cat(out)
            return c, {y: 1}
        return 0, {x: 1}
    if op == 'xor' and x.a[0] == m:
        y = _mkxor(0, x.a[1], w)
        if y.op == 'add':
            c, d = _lin(y, w)
            return (-c - 1) & m, {t: (-v) & m for t, v in d.items()}
        return m, {y: m}
    return 0, {x: 1}

def _mklin(c, d, w):
    if not d: return c
    if len(d) == 1:
        (t, k), = d.items()
        if c == 0:
            if k == 1: return t
            if k & (k - 1) == 0: return shlc(t, k.bit_length() - 1, w)
        elif c == (1 << w) - 1 and k == c:
            return not_(t, w)
        # disjoint const + cat : back to cat form
        if t.op == 'cat' and k & (k - 1) == 0:
            s = shlc(t, k.bit_length() - 1, w)
            if type(s) is not int:
                zm = zeromask(s, w)
                if c & ~zm == 0:
                    return or_(s, c, w)
    return mk('add', w, (c, tuple(sorted(d.items(), key=lambda kv: kv[0].id))))

def zeromask(x, w):
    """bits of x known to be zero"""
    if type(x) is int: return ~x & ((1 << w) - 1)
    if x.op != 'cat': return 0
    p = 0; r = 0
    for s, sw in x.a:
        if type(s) is int: r |= (~s & ((1 << sw) - 1)) << p
        p += sw
    return r

def add(a, b, w):
    m = (1 << w) - 1
    if type(a) is int and type(b) is int: return (a + b) & m
    if type(b) is int and b == 0: return a
    if type(a) is int and a == 0: return b
    if w == 1: return xor(a, b, 1)
    # disjoint bits -> or
    za = zeromask(a, w); zb = zeromask(b, w)
    if za and zb and (za | zb) == m:
        return or_(a, b, w)
    ca, da = _lin(a, w); cb, db = _lin(b, w)
    if len(da) < len(db): da, db = db, da
    da = dict(da)
    for t, k in db.items():
        v = (da.get(t, 0) + k) & m
        if v: da[t] = v
        else: da.pop(t, None)
    return _mklin((ca + cb) & m, da, w)
def neg(a, w):
    return mulc(a, (1 << w) - 1, w)
def sub(a, b, w):
    if type(b) is int: return add(a, -b & ((1 << w) - 1), w)
    if a is b: return 0
    return add(a, neg(b, w), w)
def mulc(a, k, w):
    m = (1 << w) - 1
    k &= m
    if type(a) is int: return (a * k) & m
    if k == 0: return 0
    if k == 1: return a
    c, d = _lin(a, w)
    return _mklin((c * k) & m, {t: v * k & m for t, v in d.items() if v * k & m}, w)
def mul(a, b, w):
    if type(a) is int: return mulc(b, a, w)
    if type(b) is int: return mulc(a, b, w)
    if w == 1: return and_(a, b, 1)
    if a.op == 'rep': return ite(a.a[0], neg(b, w), 0, w)
    # zext(bit) * x
    for x, y in ((a, b), (b, a)):
        if x.op == 'cat' and x.a[0][1] == 1 and len(x.a) == 2 and x.a[1][0] == 0 and type(x.a[0][0]) is not int:
            return ite(x.a[0][0], y, 0, w)
    n = (ub(a) * ub(b)).bit_length()
    if 0 < n < w: return zext(mul(ext(a, 0, n), ext(b, 0, n), n), n, w)
    if b.id < a.id: a, b = b, a
    return mk('mul', w, (a, b))
def udiv(a, b, w):
    if type(b) is int:
        if b == 0: raise ZeroDivisionError
        if type(a) is int: return a // b
        if b & (b - 1) == 0: return lshrc(a, b.bit_length() - 1, w)
        if ub(a) < b: return 0
    return mk('udiv', w, (a, b))
def urem(a, b, w):
    if type(b) is int:
        if b == 0: raise ZeroDivisionError
        if type(a) is int: return a % b
        if b & (b - 1) == 0: return and_(a, b - 1, w)
        if ub(a) < b: return a
        n = ub(a).bit_length()
        if n < w: return zext(urem(ext(a, 0, n), b, n), n, w)
    return mk('urem', w, (a, b))
def _sg(x, w): return x - (1 << w) if x >> (w - 1) else x
def sdiv(a, b, w):
    if type(a) is int and type(b) is int:
        x, y = _sg(a, w), _sg(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
    return mk('sdiv', w, (a, b))
def srem(a, b, w):
    if type(a) is int and type(b) is int:
        x, y = _sg(a, w), _sg(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & ((1 << w) - 1)
    return mk('srem', w, (a, b))
def shl(a, b, w):
    if type(b) is int: return shlc(a, b, w)
    return _symshift('shl', shlc, a, b, w)
def lshr(a, b, w):
    if type(b) is int: return lshrc(a, b, w)
    return _symshift('lshr', lshrc, a, b, w)
def ashr(a, b, w):
    if type(b) is int: return ashrc(a, b, w)
    return _symshift('ashr', ashrc, a, b, w)
def _symshift(op, f, a, b, w):
    return mk(op, w, (a, b))

# ---------------------------------------------------------------- bounds
def _fold(t):
    """bound of (x mod 2^p) + (x >> p), the step of a reduction modulo 2^p - 1"""
    d = t.a[1]; m = (1 << t.w) - 1
    for y, k in d:
        if k == 1 and y.op == 'cat' and len(y.a) == 2 and type(y.a[1][0]) is int and y.a[1][0] == 0 and type(y.a[0][0]) is not int:
            e = y.a[0][0]
            if e.op == 'ext' and e.a[1] and e.a[1] + e.w == e.a[0].w and e.a[0].w <= t.w:
                x, p = e.a
                low = cat([(ext(x, 0, p), p), (0, t.w - p)])
                if any(z is low and k2 == 1 for z, k2 in d):
                    u = ub(x); q = u >> p; r = u & ((1 << p) - 1)
                    s = max(r + q, (1 << p) - 2 + q if q else 0)
                    s += t.a[0] + sum(ub(z) * k2 for z, k2 in d if z is not low and z is not y)
                    if s <= m: return s
    return None
_ubc = {}
def ub(t):
    """upper bound (unsigned)"""
    if type(t) is int: return t
    u = t.ubc
    if u >= 0: return u
    op = t.op; w = t.w
    m = (1 << w) - 1
    r = m
    if op == 'cat':
        r = 0; p = 0
        for x, xw in t.a:
            r |= ub(x) << p; p += xw
        # segments bounds combine: value <= sum of (ub<<p)
        s = 0; p = 0
        for x, xw in t.a:
            s += ub(x) << p; p += xw
        r = s
    elif op == 'and': r = min(ub(x) for x in t.a)
    elif op == 'ite': r = max(ub(t.a[1]), ub(t.a[2]))
    elif op == 'tbl': r = max(TABLES[t.a[0]])
    elif op == 'urem' and type(t.a[1]) is int: r = t.a[1] - 1
    elif op == 'udiv' and type(t.a[1]) is int: r = ub(t.a[0]) // t.a[1]
    elif op == 'add':
        s = t.a[0]
        for x, k in t.a[1]:
            s += ub(x) * k
            if s > m: break
        if s <= m: r = s
        f = _fold(t) if NARROW else None
        if f is not None: r = min(r, f)
    elif op == 'mul':
        s = ub(t.a[0]) * ub(t.a[1])
        if s <= m: r = s
    elif op == 'ext':
        b = ub(t.a[0]) >> t.a[1]
        r = min(b, m)
    elif op == 'lshr': r = ub(t.a[0])
    elif op == 'xor':
        r = t.a[0]
        k = r.bit_length()
        for x in t.a[1]: k = max(k, ub(x).bit_length())
        r = (1 << k) - 1
    t.ubc = r
    return r

# ---------------------------------------------------------------- predicates
def eq(a, b, w):
    if type(a) is int:
        if type(b) is int: return 1 if a == b else 0
        a, b = b, a
    if a is b: return 1
    m = (1 << w) - 1
    if type(b) is int:
        if w == 1: return a if b else not_(a, 1)
        if b > ub(a): return 0
        op = a.op
        if op == 'cat':
            r = 1; p = 0
            for x, k in a.a:
                r = and_(r, eq(x, (b >> p) & ((1 << k) - 1), k), 1); p += k
                if r == 0 and type(r) is int: return 0
            return r
        if op == 'xor':
            if a.a[0]: return eq(_mkxor(0, a.a[1], w), b ^ a.a[0], w)
            if b == 0 and len(a.a[1]) == 2: return eq(a.a[1][0], a.a[1][1], w)
        if op == 'add':
            if len(a.a[1]) == 1:
                (t, k), = a.a[1]
                if k & 1:
                    return eq(t, ((b - a.a[0]) * pow(k, -1, 1 << w)) & m, w)
            if a.a[0]: return eq(_mklin(0, dict(a.a[1]), w), (b - a.a[0]) & m, w)
            if b == 0 and len(a.a[1]) == 2:
                (t1, k1), (t2, k2) = a.a[1]
                if (k1 + k2) & m == 0 and k1 & 1: return eq(t1, t2, w)
        if op == 'rep':
            if b == 0: return not_(a.a[0], 1)
            if b == m: return a.a[0]
            return 0
        if op == 'ite':
            x, y = a.a[1], a.a[2]
            if type(x) is int or type(y) is int:
                return ite(a.a[0], eq(x, b, w), eq(y, b, w), 1)
        return mk('eq', 1, (a, b, w))
    if w == 1: return not_(xor(a, b, 1), 1)
    if a.op == 'cat' and b.op == 'cat':
        n = max(1, ub(a).bit_length(), ub(b).bit_length())
        if n < w: return eq(ext(a, 0, n), ext(b, 0, n), n)
    if a.op == 'add' or b.op == 'add':
        d = sub(a, b, w)
        if type(d) is int: return 1 if d == 0 else 0
        if d.op != 'add' or len(d.a[1]) < len((a.a[1] if a.op == 'add' else (1,))) + len((b.a[1] if b.op == 'add' else (1,))):
            return eq(d, 0, w)
    if a.op == 'xor' or b.op == 'xor':
        d = xor(a, b, w)
        if type(d) is int: return 0
    if b.id < a.id: a, b = b, a
    return mk('eq', 1, (a, b, w))
def ne(a, b, w): return not_(eq(a, b, w), 1)
def ult(a, b, w):
    if type(a) is int and type(b) is int: return 1 if a < b else 0
    if a is b: return 0
    m = (1 << w) - 1
    if type(b) is int:
        if b == 0: return 0
        if ub(a) < b: return 1
        if b == 1: return eq(a, 0, w)
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            return eq(ext(a, k, w - k), 0, w - k)
        if b == m: return ne(a, m, w)
        if a.op == 'ite' and (type(a.a[1]) is int or type(a.a[2]) is int):
            return ite(a.a[0], ult(a.a[1], b, w), ult(a.a[2], b, w), 1)
        if a.op == 'cat' and a.a[-1][0] == 0 and type(a.a[-1][0]) is int:
            k = a.a[-1][1]
            if b >> (w - k): return 1
            return ult(ext(a, 0, w - k), b, w - k)
    elif type(a) is int:
        if a >= ub(b): return 0
        if a == m: return 0
        if a == 0: return ne(b, 0, w)
        if (a + 1) & a == 0:
            k = a.bit_length()
            return ne(ext(b, k, w - k), 0, w - k)
        if b.op == 'ite' and (type(b.a[1]) is int or type(b.a[2]) is int):
            return ite(b.a[0], ult(a, b.a[1], w), ult(a, b.a[2], w), 1)
        if b.op == 'cat' and b.a[-1][0] == 0 and type(b.a[-1][0]) is int:
            k = b.a[-1][1]
            if a >> (w - k): return 0
            return ult(a, ext(b, 0, w - k), w - k)
        # a < b  ==  not (b < a+1)
        return not_(mk('ult', 1, (b, a + 1, w)), 1)
    else:
        if a.op == 'cat' and b.op == 'cat' and a.a[-1][0] == 0 and b.a[-1][0] == 0 and type(a.a[-1][0]) is int and type(b.a[-1][0]) is int:
            k = min(a.a[-1][1], b.a[-1][1])
            return ult(ext(a, 0, w - k), ext(b, 0, w - k), w - k)
    return mk('ult', 1, (a, b, w))
def ule(a, b, w): return not_(ult(b, a, w), 1)
def slt(a, b, w):
    if type(a) is int and type(b) is int: return 1 if _sg(a, w) < _sg(b, w) else 0
    if a is b: return 0
    h = 1 << (w - 1)
    if type(b) is int:
        if b == 0: return ext(a, w - 1, 1)
    if type(a) is int and a == (1 << w) - 1:
        return not_(ext(b, w - 1, 1), 1)
    if ub(a) < h and ub(b) < h: return ult(a, b, w)
    if type(b) is int and b < h and type(a) is not int:
        sa = ext(a, w - 1, 1)
        return or_(sa, ult(a, b, w), 1) if w > 1 else mk('slt', 1, (a, b, w))
    if type(a) is int and a < h and type(b) is not int:
        sb = ext(b, w - 1, 1)
        return and_(not_(sb, 1), ult(a, b, w), 1)
    return mk('slt', 1, (a, b, w))
def sle(a, b, w): return not_(slt(b, a, w), 1)

def _xparts(x):
    return () if type(x) is int else x.a[1] if x.op == 'xor' else (x,)
def _xshare(x, y):
    """the xor summands x and y have in common"""
    if type(x) is int or type(y) is int or (x.op != 'xor' and y.op != 'xor'): return ()
    py = _xparts(y)
    return [p for p in _xparts(x) if p in py]
def ite(c, x, y, w):
    if type(c) is int: return x if c else y
    if x is y or (type(x) is int and type(y) is int and x == y): return x
    if c.op == 'xor' and c.a[0] == 1:
        c = _mkxor(0, c.a[1], 1); x, y = y, x
    if w == 1:
        if type(x) is int and type(y) is int: return c if x else not_(c, 1)
        if type(x) is int: return or_(c, y, 1) if x else and_(not_(c, 1), y, 1)
        if type(y) is int: return or_(not_(c, 1), x, 1) if y else and_(c, x, 1)
    if type(x) is int and type(y) is int:
        m = (1 << w) - 1
        if x == m and y == 0: return rep(c, w)
        if x == 0 and y == m: return rep(not_(c, 1), w)
        if x == 1 and y == 0: return zext(c, 1, w)
        if x == 0 and y == 1: return zext(not_(c, 1), 1, w)
        if (x ^ y) & ((x ^ y) - 1) == 0:
            k = (x ^ y).bit_length() - 1
            return cat([(y & ((1 << k) - 1), k)] * (k > 0) + [(c if x > y else not_(c, 1), 1)] + [(y >> (k + 1), w - k - 1)] * (k + 1 < w))
    if type(x) is not int and x.op == 'ite' and x.a[0] is c: return ite(c, x.a[1], y, w)
    if type(y) is not int and y.op == 'ite' and y.a[0] is c: return ite(c, x, y.a[2], w)
    if (type(x) is not int and x.op == 'cat') or (type(y) is not int and y.op == 'cat'):
        al = _align(x, y, w)
        if any((type(p) is int and type(q) is int) or p is q or (NARROW and _xshare(p, q)) for p, q, _ in al):
            return cat([(ite(c, p, q, k), k) for p, q, k in al])
    if NARROW:
        sh = _xshare(x, y)
        if sh:
            sh = sh[0] if len(sh) == 1 else mk('xor', w, (0, tuple(sh)))
            return xor(ite(c, xor(x, sh, w), xor(y, sh, w), w), sh, w)
    return mk('ite', w, (c, x, y))

def lookup(table, idx, w, iw):
    """table: tuple of ints"""
    if type(idx) is int: return table[idx]
    n = len(table)
    u = ub(idx)
    if u + 1 < n: table = table[:u + 1]; n = u + 1
    # drop leading zero bits of the index
    if idx.op == 'cat' and type(idx.a[-1][0]) is int and idx.a[-1][0] == 0:
        idx = ext(idx, 0, idx.w - idx.a[-1][1])
    if all(v == table[0] for v in table): return table[0]
    # trim constant high zero bits of the output
    mw = max(max(table).bit_length(), 1)
    t = mk('tbl', mw, (intern_table(table), idx))
    return zext(t, mw, w) if mw < w else t

def uf(name, args, w):
    """args: tuple of (value,width)"""
    return mk('uf', w, (name, tuple(args)))

# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op == 'var': return ()
    if op == 'cat': return [x for x, _ in t.a if type(x) is not int]
    if op == 'ext' or op == 'rep' or op == 'box': return (t.a[0],)
    if op == 'xor': return t.a[1]
    if op == 'and': return t.a
    if op == 'lin': return [LATOM[i] for i in latoms(t.a[0]) if i]
    if op == 'add': return [x for x, _ in t.a[1]]
    if op == 'tbl': return (t.a[1],)
    if op == 'uf': return [x for x, _ in t.a[1] if type(x) is not int]
    if op in ('eq', 'ult', 'slt'): return [x for x in t.a[:2] if type(x) is not int]
    return [x for x in t.a if type(x) is not int]

def cone(roots, lin=True):
    """all terms below roots, in increasing id order (children first)"""
    seen = set(); st = [r for r in roots if type(r) is not int]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if not lin and t.op == 'lin': continue
        for c in children(t):
            if c not in seen: st.append(c)
    return sorted(seen, key=_tid)

def rebuild(t, f):
    """reconstruct t with children replaced by f(child)"""
    op = t.op; w = t.w
    if op == 'var': return t
    g = lambda x: x if type(x) is int else f(x)
    if op == 'cat': return cat([(g(x), k) for x, k in t.a])
    if op == 'ext': return ext(f(t.a[0]), t.a[1], w)
    if op == 'rep': return rep(f(t.a[0]), w)
    if op == 'lin':
        r = t.a[0] & 1
        for i in latoms(t.a[0]):
            if i: r = xor(r, f(LATOM[i]), 1)
        return r
    if op == 'box':
        x = f(t.a[0])
        if type(x) is int or x.op != 'xor': return x
        return mk('box', w, (x,))
    if op == 'xor':
        els = [f(x) for x in t.a[1]]
        r = t.a[0]
        if all(type(e) is not int and e.op not in ('xor', 'cat') for e in els): return _mkxor(r, els, w)
        for e in els: r = xor(r, e, w)
        return r
    if op == 'and':
        r = (1 << w) - 1
        for x in t.a: r = and_(r, f(x), w)
        return r
    if op == 'add':
        r = t.a[0]
        m = (1 << w) - 1
        d = {}
        for x, k in t.a[1]:
            c2, d2 = _lin(f(x), w)
            r += c2 * k
            for tt, v in d2.items():
                vv = (d.get(tt, 0) + v * k) & m
                if vv: d[tt] = vv
                else: d.pop(tt, None)
        return _mklin(r & m, d, w)
    if op == 'mul': return mul(g(t.a[0]), g(t.a[1]), w)
    if op == 'udiv': return udiv(g(t.a[0]), g(t.a[1]), w)
    if op == 'urem': return urem(g(t.a[0]), g(t.a[1]), w)
    if op == 'sdiv': return sdiv(g(t.a[0]), g(t.a[1]), w)
    if op == 'srem': return srem(g(t.a[0]), g(t.a[1]), w)
    if op == 'shl': return shl(g(t.a[0]), g(t.a[1]), w)
    if op == 'lshr': return lshr(g(t.a[0]), g(t.a[1]), w)
    if op == 'ashr': return ashr(g(t.a[0]), g(t.a[1]), w)
    if op == 'eq': return eq(g(t.a[0]), g(t.a[1]), t.a[2])
    if op == 'ult': return ult(g(t.a[0]), g(t.a[1]), t.a[2])
    if op == 'slt': return slt(g(t.a[0]), g(t.a[1]), t.a[2])
    if op == 'ite': return ite(f(t.a[0]), g(t.a[1]), g(t.a[2]), w)
    if op == 'tbl':
        x = f(t.a[1])
        return lookup(TABLES[t.a[0]], x, w, 0)
    if op == 'uf': return UFCTOR.get(t.a[0], uf)(t.a[0], tuple((g(x), k) for x, k in t.a[1]), w)
    raise ValueError(op)

UFCTOR = {}     # name -> smart constructor (name,args,w)

def evaluate(roots, env, ufn=None):
    """concrete evaluation; env: var name -> int; ufn(name,args,w) -> int. Returns {term: int}"""
    val = {}
    _evaluate(roots, env, ufn, val, [1, 1])
    return val
def _linval(mask, env, ufn, val, la):
    n = mask.bit_length()
    while la[1] < n:
        t = LATOM[la[1]]
        if t not in val: _evaluate([t], env, ufn, val, la)
        if val[t]: la[0] |= 1 << la[1]
        la[1] += 1
    return (mask & la[0]).bit_count() & 1
def _evaluate(roots, env, ufn, val, la):
    for t in cone(roots, False):
        if t in val: continue
        op = t.op; w = t.w; a = t.a; m = (1 << w) - 1
        g = lambda x: x if type(x) is int else val[x]
        if op == 'var': v = env.get(a[0], 0)
        elif op == 'cat':
            v = 0; p = 0
            for x, k in a: v |= g(x) << p; p += k
        elif op == 'ext': v = (val[a[0]] >> a[1]) & m
        elif op == 'rep': v = m if val[a[0]] else 0
        elif op == 'box': v = val[a[0]]
        elif op == 'lin': v = _linval(a[0], env, ufn, val, la)
        elif op == 'xor':
            v = a[0]
            for x in a[1]: v ^= val[x]
        elif op == 'and':
            v = m
            for x in a: v &= val[x]
        elif op == 'add':
            v = a[0]
            for x, k in a[1]: v += val[x] * k
            v &= m
        elif op == 'mul': v = g(a[0]) * g(a[1]) & m
        elif op == 'udiv': v = g(a[0]) // g(a[1]) if g(a[1]) else m
        elif op == 'urem': v = g(a[0]) % g(a[1]) if g(a[1]) else g(a[0])
        elif op == 'sdiv': v = sdiv(g(a[0]), g(a[1]), w) if g(a[1]) else m
        elif op == 'srem': v = srem(g(a[0]), g(a[1]), w) if g(a[1]) else g(a[0])
        elif op == 'shl': v = shlc(g(a[0]), g(a[1]), w)
        elif op == 'lshr': v = lshrc(g(a[0]), g(a[1]), w)
        elif op == 'ashr': v = ashrc(g(a[0]), g(a[1]), w)
        elif op == 'eq': v = int(g(a[0]) == g(a[1]))
        elif op == 'ult': v = int(g(a[0]) < g(a[1]))
        elif op == 'slt': v = int(_sg(g(a[0]), a[2]) < _sg(g(a[1]), a[2]))
        elif op == 'ite': v = g(a[1]) if val[a[0]] else g(a[2])
        elif op == 'tbl':
            tb = TABLES[a[0]]; i = val[a[1]]
            v = tb[i] if i < len(tb) else 0
        elif op == 'uf': v = ufn(a[0], tuple((g(x), k) for x, k in a[1]), w)
        else: raise ValueError(op)
        val[t] = v
T.__add__ = lambda s, k: add(s, k, s.w)
