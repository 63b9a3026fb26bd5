"""Congruences between numbers kept in limbs.

A term is read as an integer: a linear form over integer atoms (inputs, products of atoms, low parts
of forms, conditions).  Cutting a form F at bit k gives the atom low(F, k), keyed by F modulo 2^k,
and the exact rest (F - low) / 2^k.  That a sum does not leave its width is shown by intervals or,
where these do not suffice, by an integer query; the congruence itself is an integer query over the
definitions of all terms involved.
"""
from fractions import Fraction
import time
import z3
import terms
from terms import T

STAT = {'queries': 0, 'solver_s': 0.0, 'goals': 0, 'sat': 0, 'unsat': 0, 'unknown': 0}
Z = (0, {})
def fadd(a, b, k=1):
    c, d = a; e, f = b
    d = dict(d)
    for x, v in f.items():
        s = d.get(x, 0) + k * v
        if s: d[x] = s
        else: d.pop(x, None)
    return c + k * e, d
def fscale(a, k): return (a[0] * k, {x: v * k for x, v in a[1].items()}) if k else Z

def val2(v):
    v = Fraction(v); n = v.numerator
    return (n & -n).bit_length() - v.denominator.bit_length()

def signed(t):
    """a sum as constant and [(term, factor)] with signed factors"""
    w = t.w
    return t.a[0] - (t.a[0] >> (w - 1) << w), [(y, k - (k >> (w - 1) << w)) for y, k in t.a[1]]

class Limbs:
    def __init__(self):
        self.f = {}; self.r = {}; self.atom = {}; self.rng_ = []; self.def_ = []; self.z = {}; self.nowrap = {}; self.zdefs = {}
        self.zterm = {}; self.shift = {}; self.cut = []
    # ------------------------------------------------------------ atoms
    def new(self, key, lo, hi, d):
        a = self.atom.get(key)
        if a is None:
            a = len(self.rng_); self.atom[key] = a; self.rng_.append((lo, hi)); self.def_.append(d)
        return a
    def frange(self, f):
        lo = hi = f[0]
        for x, v in f[1].items():
            l, h = self.rng_[x]
            if v > 0: lo += v * l; hi += v * h
            else: lo += v * h; hi += v * l
        return -((-lo) // 1), hi // 1
    def low(self, f, k):
        """f modulo 2^k as a form"""
        m = 1 << k
        while 1:
            # what is a low part already can be taken whole
            f = f[0] % m, {x: v % m for x, v in f[1].items() if v % m}
            # of a low part of n bits only the factor modulo 2^(k-n) counts; the rest goes to what it is the low part of
            for x in sorted(f[1], reverse=True):
                d = self.def_[x]
                if d[0] != 'low': continue
                v = f[1][x]; n = Fraction(2) ** (k - d[2]); r = v % n
                if r != v: break
            else: break
            f = fadd(fadd(f, (0, {x: 1}), r - v), d[1], v - r)
        e = min([k] + [val2(v) for v in [f[0]] + list(f[1].values()) if v])
        if e:
            f = fscale(f, Fraction(1, 1 << e) if e > 0 else 1 << -e)
            if e < k: f = self.low_(f, k - e)
            else: f = Z
            return fscale(f, 1 << e if e > 0 else Fraction(1, 1 << -e))
        return self.low_(f, k)
    def low_(self, f, k):
        m = 1 << k
        g = (f[0] % m, {x: v % m for x, v in f[1].items() if v % m})
        s = (g[0], {x: (v - m if 2 * v >= m else v) for x, v in g[1].items()})
        for c in (g, s):
            lo, hi = self.frange(c)
            q = lo // m
            if hi // m == q: return (c[0] - q * m, c[1])
        if len(g[1]) == 1:
            (x, v), = g[1].items()
            if self.rng_[x] == (0, 1): return g[0], {x: (g[0] + v) % m - g[0]}
        a = self.new(('low', k, g[0], tuple(sorted(g[1].items()))), 0, m - 1, ('low', f, k))
        return 0, {a: 1}
    def prod(self, a, b):
        if a > b: a, b = b, a
        (l1, h1), (l2, h2) = self.rng_[a], self.rng_[b]
        v = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
        return self.new(('mul', a, b), min(v), max(v), ('mul', a, b))
    def fmul(self, f, g):
        r = fadd(fscale(g, f[0]), fscale((0, f[1]), g[0]))
        d = r[1]
        for x, v in f[1].items():
            for y, u in g[1].items():
                p = self.prod(x, y); s = d.get(p, 0) + v * u
                if s: d[p] = s
                else: d.pop(p, None)
        return r[0], d
    # ------------------------------------------------------------ terms
    def rng(self, t):
        if t.__class__ is int: return t, t
        self.form(t)
        return self.r[t]
    def form(self, t):
        if t.__class__ is int: return t, {}
        f = self.f.get(t)
        if f is not None: return f
        for s in terms.cone([t]):
            if s not in self.f:
                f, r = self.form1(s)
                l, h = self.frange(f)
                r = max(r[0], l, 0), min(r[1], h, (1 << s.w) - 1)
                self.f[s] = f; self.r[s] = r
                if len(f[1]) == 1 and not f[0]:
                    (a, v), = f[1].items()
                    if v == 1: self.rng_[a] = max(self.rng_[a][0], r[0]), min(self.rng_[a][1], r[1])
        return self.f[t]
    def wrap(self, S, lo, hi, w, t, drop):
        """the value of the sum S, known to lie in lo..hi, in w bits"""
        m = 1 << w
        q = lo // m
        if hi // m == q:
            self.shift[t] = q, drop
            return (S[0] - q * m, S[1]), (lo - q * m, hi - q * m)
        if lo == -1 and hi < m and not drop and len(t.a[1]) == 1:
            # one below zero: the largest number, when what is decremented is zero
            c, l = signed(t)
            z = self.iszero((S[0] + 1, S[1]), (c + 1, l))
            return fadd(S, z, m), (0, m - 1)
        if hi - lo < 3 * m:
            for q in sorted(range(lo // m, hi // m + 1), key=abs):
                if self.inside(q * m, m, t, drop):
                    self.shift[t] = q, drop
                    return (S[0] - q * m, S[1]), (max(0, lo - q * m), min(m - 1, hi - q * m))
        if self.inside(-m, 2 * m, t, drop):
            # below zero for some values, which the next sum makes up for
            b = self.new(('neg', S[0], tuple(sorted(S[1].items()))), 0, 1, ('neg', S))
            self.zterm.setdefault(b, signed(t) + ('neg', drop))
            return fadd(S, (0, {b: m})), (0, m - 1)
        self.cut.append(t)
        return self.low(S, w), (0, m - 1)
    def form1(self, t):
        op = t.op; w = t.w; a = t.a; full = (0, (1 << w) - 1)
        if op == 'cat':
            f = Z; lo = hi = p = 0
            for x, k in a:
                f = fadd(f, self.form(x), 1 << p); l, h = self.rng(x)
                lo += l << p; hi += h << p; p += k
            return f, (lo, hi)
        if op == 'add':
            S = a[0], {}; lo = hi = a[0]
            if a[0] >> (w - 1): S = a[0] - (1 << w), {}; lo = hi = S[0]
            for x, k in a[1]:
                if k >> (w - 1): k -= 1 << w
                S = fadd(S, self.form(x), k); l, h = self.rng(x)
                if k < 0: l, h = h, l
                lo += k * l; hi += k * h
            # whole multiples of the modulus go
            m = 1 << w
            drop = {}
            for x, v in S[1].items():
                if x in self.zterm and v == int(v):
                    r = int(v) % m; r -= m if 2 * r > m else 0
                    if r != v: drop[x] = v - r
            if drop:
                S = fadd(S, (0, drop), -1)
                l, h = self.frange((0, drop)); lo -= h; hi -= l
            l, h = self.frange(S)
            return self.wrap(S, max(lo, l), min(hi, h), w, t, drop)
        if op == 'ext':
            x, k = a; F = self.form(x); lo, hi = self.rng(x)
            if w == 1 and x.__class__ is not int and k == x.w - 1 and x.op == 'add':
                b = self.sign(x)
                if b is not None: return b, (0, 1)
            top = F if k + w >= x.w or hi >> (k + w) == 0 else self.low(F, k + w)
            r = (lo >> k, hi >> k) if top is F else full
            if not k: return top, r
            if lo >> k == hi >> k and top is F: return (lo >> k, {}), (lo >> k, lo >> k)
            return fscale(fadd(top, self.low(F, k), -1), Fraction(1, 1 << k)), r
        if op == 'mul':
            f, g = self.form(a[0]), self.form(a[1])
            if len(f[1]) * len(g[1]) <= 400:
                (l1, h1), (l2, h2) = self.rng(a[0]), self.rng(a[1])
                S = self.fmul(f, g)
                if h1 * h2 >> w == 0: return S, (l1 * l2, h1 * h2)
                return self.low(S, w), full
        if op == 'rep': return fscale(self.form(a[0]), (1 << w) - 1), full
        if op == 'xor' and a[0] == (1 << w) - 1 and len(a[1]) == 1:
            l, h = self.rng(a[1][0])
            return fadd(((1 << w) - 1, {}), self.form(a[1][0]), -1), ((1 << w) - 1 - h, (1 << w) - 1 - l)
        if op == 'and':
            if len(a) == 2 and w > 1:
                for m, o in (a, a[::-1]):
                    b = self.mask(m)
                    if b is None: continue
                    r = self.sel(b, self.form(o), Z)
                    if r is None: r = self.gate(b, o)
                    if r is not None: return r, (0, self.rng(o)[1])
        if op == 'ite':
            b = self.form(a[0]); r = self.sel(b, self.form(a[1]), self.form(a[2]))
            if r is None and len(b[1]) == 1:
                f, g = self.gate(b, a[1]), self.gate(fadd((1, {}), b, -1), a[2])
                if f is not None and g is not None: r = fadd(f, g)
            if r is not None:
                (l1, h1), (l2, h2) = self.rng(a[1]), self.rng(a[2])
                return r, (min(l1, l2), max(h1, h2))
        if op == 'eq' and a[2] > 1:
            d = fadd(self.form(a[0]), self.form(a[1]), -1)
            return self.iszero(d, (0, [(a[0], 1), (a[1], -1)])), (0, 1)
        if op == 'ult':
            d = fadd(self.form(a[0]), self.form(a[1]), -1)
            (l1, h1), (l2, h2) = self.rng(a[0]), self.rng(a[1])
            f = self.isneg(d, l1 - h2, h1 - l2, (0, [(x, k) for x, k in ((a[0], 1), (a[1], -1))]))
            if f is not None: return f, (0, 1)
        if w == 1 and op in ('xor', 'and'):
            f = self.anybit(t)
            if f is not None: return f, (0, 1)
        hi = min(full[1], terms.ub(t))
        return (0, {self.new(('t', t.id), 0, hi, ('t', t)): 1}), (0, hi)
    def mask(self, t):
        """the condition of a word that is all ones or zero"""
        f = self.form(t); n = (1 << t.w) - 1
        if len(f[1]) != 1: return None
        (x, v), = f[1].items()
        if self.rng_[x] != (0, 1) or sorted((f[0], f[0] + v)) != [0, n]: return None
        return fscale(f, Fraction(1, n))
    def anybit(self, t):
        """a condition that says whether some bit of a slice is set, however it is computed"""
        leaf = {}; st = [t]; seen = set(); base = None
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == 'ext' and x.w == 1:
                if base is not None and x.a[0] is not base: return None
                base = x.a[0]; leaf[x.a[1]] = x
                if len(leaf) > 8: return None
            elif x.op in ('xor', 'and') and x.w == 1: st += terms.children(x)
            else: return None
            if len(seen) > 600: return None
        lo, n = min(leaf), len(leaf)
        if max(leaf) - lo + 1 != n or n < 2: return None
        cone = [x for x in terms.cone([t]) if x in seen]; tab = []
        for v in range(1 << n):
            val = {leaf[lo + i]: v >> i & 1 for i in range(n)}
            for x in cone:
                if x in val: continue
                if x.op == 'xor': val[x] = (x.a[0] + sum(val[y] for y in x.a[1])) & 1
                else: val[x] = int(all(val[y] for y in x.a))
            tab.append(val[t])
        if any(u != tab[1] for u in tab[2:]) or tab[0] == tab[1]: return None
        e = terms.ext(base, lo, n); z = self.iszero(self.form(e), (0, [(e, 1)]))
        return fadd((1, {}), z, -1) if tab[1] else z
    def iszero(self, d, ts=None):
        """the condition d = 0 as a form"""
        if not d[1]: return int(d[0] == 0), {}
        lo, hi = self.frange(d)
        if ts:
            l = h = ts[0]
            for y, k in ts[1]:
                u, v = self.rng(y); l += k * (u if k > 0 else v); h += k * (v if k > 0 else u)
            if l > 0 or h < 0: return Z
        if lo > 0 or hi < 0: return Z
        if len(d[1]) == 1:
            (x, k), = d[1].items()
            if self.rng_[x] == (0, 1):
                return (1, {x: -1}) if d[0] == 0 else (0, {x: 1}) if d[0] == -k else Z
        x = min(d[1]); k = d[1][x]; d = fscale(d, Fraction(1 if k > 0 else -1) / Fraction(2) ** val2(k))
        b = self.new(('zero', d[0], tuple(sorted(d[1].items()))), 0, 1, ('zero', d))
        if ts: self.zterm.setdefault(b, ts)
        return 0, {b: 1}
    def sign(self, x):
        """the top bit of a sum that stays within the signed range"""
        w = x.w; m = 1 << (w - 1)
        c = x.a[0] - (x.a[0] >> (w - 1) << w); S = c, {}; lo = hi = c
        for y, k in x.a[1]:
            k -= k >> (w - 1) << w
            S = fadd(S, self.form(y), k); l, h = self.rng(y)
            if k < 0: l, h = h, l
            lo += k * l; hi += k * h
        l, h = self.frange(S); lo = max(lo, l); hi = min(hi, h)
        if lo < -m or hi >= m: return None
        return self.isneg(S, lo, hi, signed(x))
    def isneg(self, S, lo, hi, ts):
        """the condition S < 0 as a form"""
        l, h = self.frange(S); lo = max(lo, l); hi = min(hi, h)
        if lo >= 0: return Z
        if hi < 0: return 1, {}
        for z in S[1]:
            # settled by one condition?
            if z not in self.zterm or self.zterm[z][2:]: continue
            R = {x: v for x, v in S[1].items() if x != z}
            l0, h0 = self.frange((S[0], R)); l1, h1 = self.frange((S[0] + S[1][z], R))
            if not h0 < 0:
                # the value is at least one where it is not zero
                e = self.def_[z][1]; q = fadd((S[0], R), e, -1)
                if not q[1] and self.frange(e)[0] >= 0: l0 = max(l0, 1 + q[0])
            e = self.def_[z][1]; q = fadd((S[0], R), e, -Fraction(R.get(min(e[1]), 0)) / e[1][min(e[1])])
            if not q[1]: l1 = h1 = q[0] + S[1][z]
            if (h0 < 0 or l0 >= 0) and (h1 < 0 or l1 >= 0):
                a, b = int(h0 < 0), int(h1 < 0)
                return a, {z: b - a} if a != b else {}
        if lo == -1: return self.iszero((S[0] + 1, S[1]), (ts[0] + 1, ts[1]))
        b = self.new(('neg', S[0], tuple(sorted(S[1].items()))), 0, 1, ('neg', S))
        self.zterm.setdefault(b, ts + ('neg', {}))
        return 0, {b: 1}
    def sel(self, b, f, g):
        """if b then f else g"""
        d = fadd(f, g, -1)
        if len(b[1]) == 1:
            # what the condition says of its own atom
            (x, v), = b[1].items()
            if x in d[1] and (b[0], v) in ((0, 1), (1, -1)):
                u = d[1][x]; d = d[0] + (u if v == 1 else 0), {y: k for y, k in d[1].items() if y != x}
                f = fadd(g, d)
        if not d[1]: return fadd(g, b, d[0])
        # d * b with b = [e = 0] or 1 - [e = 0], where d = k e + const
        if len(b[1]) != 1: return None
        (x, v), = b[1].items()
        de = self.def_[x]
        if de[0] != 'zero' or (b[0], v) not in ((0, 1), (1, -1)): return None
        e = de[1]
        y = min(e[1]); k = Fraction(d[1].get(y, 0)) / e[1][y]
        q = fadd(d, e, -k)
        if q[1]: return None
        if v == 1: return fadd(g, (0, {x: 1}), q[0])
        return fadd(f, (0, {x: 1}), -q[0])
    def gate(self, b, o):
        """o where the condition b holds and 0 elsewhere, when e = 0 (that b is about) fixes o"""
        if o.__class__ is int: return fscale(b, o)
        (x, v), = b[1].items()
        if x not in self.zterm or self.zterm[x][2:] or (b[0], v) not in ((0, 1), (1, -1)): return None
        enc, cs = self.local(3)
        e = enc(o, 3); cs.append(enc.atom(x, 3) == 1)
        s = z3.Solver(); s.set('timeout', 2000); s.add(cs)
        if s.check() != z3.sat: return None
        k = s.model().eval(e, model_completion=True).as_long()
        if self.query(cs + [e != k], 2) != z3.unsat: return None
        return (0, {x: k}) if v == 1 else fadd(self.form(o), (0, {x: 1}), -k)
    # ------------------------------------------------------------ integer queries
    def zform(self, s, f, need):
        """an integer expression for the form times 2^s"""
        l = [z3.IntVal(int(f[0] * (1 << s)))]
        for x, v in f[1].items():
            k = v * (1 << s); assert k == int(k)
            need.add(x); l.append(z3.IntVal(int(k)) * z3.Int('a%d' % x))
        return z3.Sum(l)
    def scale(self, *fs):
        s = 0
        for f in fs:
            for v in [f[0]] + list(f[1].values()):
                if v.__class__ is Fraction: s = max(s, v.denominator.bit_length() - 1)
        return s
    def zatoms(self, need):
        """definitions of the atoms in need and below"""
        out = []; done = set(); st = list(need)
        while st:
            x = st.pop()
            if x in done: continue
            done.add(x); A = z3.Int('a%d' % x); lo, hi = self.rng_[x]
            out += [A >= lo, A <= hi]
            d = self.def_[x]; n = set()
            if d[0] == 'low':
                s = self.scale(d[1])
                q = z3.Int('q%d' % x)
                out.append(self.zform(s, d[1], n) == (1 << s) * ((1 << d[2]) * q + A))
            elif d[0] == 'zero':
                s = self.scale(d[1]); e = self.zform(s, d[1], n)
                out.append((A == 1) == (e == 0))
            elif d[0] == 'neg':
                s = self.scale(d[1]); e = self.zform(s, d[1], n)
                out.append((A == 1) == (e < 0))
            elif d[0] == 't': out += self.zbits(d[1], A, n)
            st += [y for y in n if y not in done]
        return out
    def zbits(self, t, A, n):
        """what is known of an opaque term"""
        out = []
        if t.op == 'and' and t.w == 1:
            xs = [self.form(x) for x in t.a]
            es = [self.zform(self.scale(f), f, n) / (1 << self.scale(f)) if self.scale(f) else self.zform(0, f, n) for f in xs]
            out += [A <= e for e in es] + [A >= z3.Sum(es) - (len(es) - 1)]
        elif t.op == 'ite':
            c = self.form(t.a[0]); f = self.form(t.a[1]); g = self.form(t.a[2])
            s = self.scale(c, f, g)
            if s: return out
            c = self.zform(0, c, n)
            out += [z3.Implies(c == 1, A == self.zform(0, f, n)), z3.Implies(c == 0, A == self.zform(0, g, n))]
        return out
    def query(self, cs, timeout):
        t0 = time.time()
        for i, (k, f) in enumerate(((2, .05), (6, .05), (2, .1), (2, .1), (6, .15), (2, .2), (2, .35))):
            s = z3.Solver()
            s.set('timeout', int(timeout * f * 1000) + 200); s.set('arith.solver', k); s.set('random_seed', i)
            s.add(cs); r = s.check()
            if r != z3.unknown: break
        STAT['queries'] += 1; STAT['solver_s'] += time.time() - t0; STAT[str(r)] += 1
        return r
    def local(self, depth):
        """integer expressions for terms, down to the given depth; below that only their intervals"""
        memo = {}; cs = []
        def atom(x, d):
            if x in memo: return memo[x]
            A = memo[x] = z3.Int('a%d' % x); cs.extend((A >= 0, A <= 1))
            z = self.zterm[x]
            e = z3.Sum([z3.IntVal(z[0])] + [enc(y, d) * u for y, u in z[1]] + [atom(y, d) * -int(u) for y, u in (z[3].items() if z[2:] else ())])
            cs.append((A == 1) == (e < 0 if z[2:] else e == 0))
            return A
        def enc(t, d):
            if t.__class__ is int: return z3.IntVal(t)
            if t in memo: return memo[t]
            v = memo[t] = z3.Int('v%d' % t.id); lo, hi = self.rng(t)
            cs.extend((v >= lo, v <= hi))
            f = self.form(t)
            if len(f[1]) == 1:
                (x, k), = f[1].items()
                if x in self.zterm:
                    cs.append(v == int(f[0]) + int(k) * atom(x, d))
                    return v
            if d == 0: return v
            if t.op == 'cat':
                l = []; p = 0
                for x, k in t.a: l.append(enc(x, d) * (1 << p)); p += k
                cs.append(v == z3.Sum(l))
            elif t.op == 'ext':
                x, k = t.a; l = z3.Int('l%d' % t.id); h = z3.Int('h%d' % t.id)
                cs.extend((enc(x, d - 1) == (1 << (k + t.w)) * h + (1 << k) * v + l, l >= 0, l < 1 << k, h >= 0))
            elif t.op == 'add':
                c, l = signed(t)
                e = z3.Sum([z3.IntVal(c)] + [enc(y, d - 1) * u for y, u in l])
                q, drop = self.shift.get(t, (None, ()))
                for x in drop: e = e - atom(x, d - 1) * int(drop[x])
                cs.append(v == e - (q << t.w) if q is not None else e == v + (1 << t.w) * z3.Int('k%d' % t.id))
            elif t.op == 'ite':
                b = enc(t.a[0], d)
                cs.extend((z3.Implies(b == 1, v == enc(t.a[1], d - 1)), z3.Implies(b == 0, v == enc(t.a[2], d - 1))))
            elif t.op == 'and' and len(t.a) == 2:
                for m, o in (t.a, t.a[::-1]):
                    if self.mask(m) is None: continue
                    b = enc(m, d)
                    cs.extend((z3.Implies(b == 0, v == 0), z3.Implies(b == (1 << t.w) - 1, v == enc(o, d - 1))))
                    break
            return v
        enc.atom = atom
        return enc, cs
    def inside(self, lo, m, t, drop):
        """every value of the form lies in lo..lo+m-1"""
        c, l = signed(t)
        for d in (2, 3, 5, 7) if m < 1<<33 and lo == 0 else (2, 3):
            enc, cs = self.local(d)
            e = z3.Sum([z3.IntVal(c)] + [enc(y, d) * u for y, u in l] + [enc.atom(x, d) * -int(k) for x, k in drop.items()])
            r = self.query(cs + [z3.Or(e < lo, e >= lo + m)], (2 * d if d < 7 else 120))
            if r == z3.unsat: return True
        return False
    def below(self, t, n):
        """every value of the term is below n"""
        if self.rng(t)[1] < n: return True
        for d in (3, 6):
            enc, cs = self.local(d)
            e = enc(t, d)
            if self.query(cs + [e >= n], 5) == z3.unsat: return True
        return False
    def congruent(self, a, b, p):
        d = fadd(self.form(a), self.form(b), -1)
        s = self.scale(d)
        g = fscale(d, 1 << s)
        h = [g[0] % p] + [v % p for v in g[1].values()]
        self.left = [(x, v) for x, v in g[1].items() if v % p] + ([('const', g[0])] if g[0] % p else [])
        if any(h):
            self.propose(g, s, p)
            return False
        STAT['goals'] += 1
        return self.certify(a, b, (g[0] // p, {x: v // p for x, v in g[1].items()}), s, p)
    def propose(self, g, s, p):
        """inputs for which the difference is not a multiple of p, as far as the solver knows"""
        need = set()
        h = (int(g[0]) % p, {x: int(v) % p for x, v in g[1].items() if int(v) % p})
        e = self.zform(0, h, need); q, r = z3.Ints('q_ r_')
        sv = z3.Solver(); sv.set('timeout', 20000); sv.set('arith.solver', 2)
        sv.add(self.zatoms(need) + [e == p * q + r, r > 0, r < p])
        if sv.check() != z3.sat: return
        m = sv.model(); out = {}
        for x, d in enumerate(self.def_):
            if d[0] == 't' and d[1].op == 'var': out[d[1].a[0] if d[1].a.__class__ is tuple else d[1].a] = m.eval(z3.Int('a%d' % x), model_completion=True).as_long() & 0xffffffff
        PROPOSED.append(out)
    def certify(self, a, b, q, s, p):
        """the solver's verdict: 2^s (a - b) is not p q for some values of the inputs"""
        need = set(); cs = []; seen = {}
        def val(t):
            if t.__class__ is int: return z3.IntVal(t)
            if t in seen: return seen[t]
            v = seen[t] = z3.Int('t%d' % t.id)
            op = t.op; w = t.w
            if op == 'cat':
                l = []; pos = 0
                for x, k in t.a: l.append(val(x) * (1 << pos)); pos += k
                cs.append(v == z3.Sum(l)); return v
            if op == 'add':
                l = [z3.IntVal(t.a[0])] + [val(x) * k for x, k in t.a[1]]
                k = z3.Int('k%d' % t.id)
                cs.append(z3.Sum(l) == v + (1 << w) * k); 
            # the form, shown equal above (no sum leaves its width), ties the value to the atoms
            f = self.form(t); e = self.scale(f)
            cs.append((1 << e) * v == self.zform(e, f, need))
            return v
        A, B = val(a), val(b)
        goal = (1 << s) * (A - B) == p * self.zform(0, q, need)
        return self.query(cs + self.zatoms(need) + [z3.Not(goal)], 60) == z3.unsat

def peel(t):
    """the remainder below zero extensions and cuts that keep all of it"""
    while t.__class__ is not int:
        if t.op == 'cat' and all(x.__class__ is int and x == 0 for x, _ in t.a[1:]): t = t.a[0][0]
        elif t.op == 'ext' and t.a[1] == 0 and t.a[0].op == 'urem' and t.a[0].a[1].__class__ is int and t.a[0].a[1] <= 1 << t.w: t = t.a[0]
        else: break
    return t
def modulus(t):
    t = peel(t)
    return t.a[1] if t.__class__ is not int and t.op == 'urem' and t.a[1].__class__ is int else None
def strip(t, p):
    """a number congruent to t modulo p"""
    while modulus(t) is not None and modulus(t) % p == 0: t = peel(t).a[0]
    return t
CUR = [None, None]
PROPOSED = []
def prove(c):
    """True when the condition is shown to hold for all values of its variables"""
    del PROPOSED[:]
    try: return prove_(c)
    except (AssertionError, RecursionError, z3.Z3Exception): return False
def prove_(c):
    if c.__class__ is int: return c == 1
    if CUR[1] != terms.GEN: CUR[:] = [Limbs(), terms.GEN]
    L = CUR[0]
    if c.op == 'xor' and c.a[0] == 1 and len(c.a[1]) == 1:
        c = c.a[1][0]
        if c.op == 'ult' and c.a[0].__class__ is int: return L.below(c.a[1], c.a[0] + 1)
        return False
    if c.op == 'eq':
        x, y, w = c.a
        if x.__class__ is int: x, y = y, x
        if y.__class__ is int and y == 0:
            if x.op == 'ext' and x.a[1] + x.w == x.a[0].w: return L.below(x.a[0], 1 << x.a[1])
            return L.below(x, 1)
        p = modulus(x) or modulus(y)
        if p is None: return False
        if modulus(x) not in (p, None) or modulus(y) not in (p, None): return False
        # both sides are remainders (or smaller than the modulus), so a congruence is an equality
        for u in (x, y):
            if modulus(u) is None and not L.below(u, p): return False
        return L.congruent(strip(x, p), strip(y, p), p)
    if c.op == 'ult' and c.a[1].__class__ is int: return L.below(c.a[0], c.a[1])
    if c.op == 'and' and c.w == 1: return all(prove_(x) for x in c.a)
    return False
