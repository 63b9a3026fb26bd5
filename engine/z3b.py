"""Solver layer: translation of terms to z3, feasibility queries, equality goals by SAT sweeping."""
import time, hashlib, random, os
import numpy as np
import z3
import terms, limbs
from terms import T, cone, children, rebuild, TABLES

def clear():
    _memo.clear(); _vars.clear(); _lev.clear()

class SolverUnknown(Exception): pass
LIMBS = False     # try congruences of numbers in limbs first
STAT = {'queries': 0, 'solver_s': 0.0, 'lemmas': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'structural': 0, 'cached': 0, 'witness': 0, 'abstracted': 0}

_memo = {}
_keep = []
_ufs = {}
_tbl = {}
def bv(v, w): return z3.BitVecVal(v, w)

_tf = {}
def _mux(tb, idx, iw, w):
    """table read as a balanced multiplexer"""
    n = len(tb)
    def go(lo, bits):
        if lo >= n: return bv(0, w)
        if bits == 0: return bv(tb[lo], w)
        seg = tb[lo:lo + (1 << bits)]
        if len(seg) == 1 << bits and all(s == seg[0] for s in seg): return bv(seg[0], w)
        a = go(lo, bits - 1); b = go(lo + (1 << (bits - 1)), bits - 1)
        return z3.If(z3.Extract(bits - 1, bits - 1, idx) == 1, b, a)
    return go(0, iw)

def tr1(t, g):
    """z3 expression of t; g maps a child value/term to z3 (child, width)"""
    op = t.op; w = t.w; a = t.a
    if op == 'var': return z3.BitVec(a[0], w)
    if op == 'cat':
        l = [g(x, k) for x, k in reversed(a)]
        return z3.Concat(*l) if len(l) > 1 else l[0]
    if op == 'ext': return z3.Extract(a[1] + w - 1, a[1], g(a[0], a[0].w))
    if op == 'rep': return z3.If(g(a[0], 1) == 1, bv((1 << w) - 1, w), bv(0, w))
    if op == 'box': return g(a[0], w)
    if op == 'lin':
        r = bv(a[0] & 1, 1)
        for i in terms.latoms(a[0]):
            if i: r = r ^ g(terms.LATOM[i], 1)
        return r
    if op == 'xor':
        r = None
        for x in a[1]: r = g(x, w) if r is None else r ^ g(x, w)
        if a[0] == (1 << w) - 1: r = ~r
        elif a[0]: r = r ^ bv(a[0], w)
        return r
    if op == 'and':
        r = None
        for x in a:
            y = g(x, w); r = y if r is None else r & y
        return r
    if op == 'add':
        r = bv(a[0], w) if a[0] else None
        m = 1 << w
        for x, k in a[1]:
            y = g(x, w)
            if k == 1: r = y if r is None else r + y
            elif k == m - 1: r = -y if r is None else r - y
            else:
                z = y * bv(k, w)
                r = z if r is None else r + z
        return r
    if op == 'mul': return g(a[0], w) * g(a[1], w)
    if op == 'udiv': return z3.UDiv(g(a[0], w), g(a[1], w))
    if op == 'urem': return z3.URem(g(a[0], w), g(a[1], w))
    if op == 'sdiv': return g(a[0], w) / g(a[1], w)
    if op == 'srem': return z3.SRem(g(a[0], w), g(a[1], w))
    if op == 'shl': return g(a[0], w) << g(a[1], w)
    if op == 'lshr': return z3.LShR(g(a[0], w), g(a[1], w))
    if op == 'ashr': return g(a[0], w) >> g(a[1], w)
    b1 = lambda c: z3.If(c, bv(1, 1), bv(0, 1))
    if op == 'eq': return b1(g(a[0], a[2]) == g(a[1], a[2]))
    if op == 'ult': return b1(z3.ULT(g(a[0], a[2]), g(a[1], a[2])))
    if op == 'slt': return b1(g(a[0], a[2]) < g(a[1], a[2]))
    if op == 'ite': return z3.If(g(a[0], 1) == 1, g(a[1], w), g(a[2], w))
    if op == 'tbl':
        return _mux(TABLES[a[0]], g(a[1], a[1].w), a[1].w, w)
    if op == 'uf':
        ks = tuple(k for _, k in a[1])
        f = _ufs.get((a[0], ks, w))
        if f is None:
            f = _ufs[(a[0], ks, w)] = z3.Function(a[0] + '_' + '_'.join(map(str, ks)), *[z3.BitVecSort(k) for k in ks], z3.BitVecSort(w))
        return f(*[g(x, k) for x, k in a[1]])
    raise ValueError(op)

def tr(t, w=None):
    if t.__class__ is int: return bv(t, w)
    r = _memo.get(t)
    if r is not None: return r
    g = lambda x, k: bv(x, k) if x.__class__ is int else _memo[x]
    # only the part of the cone not translated yet
    seen = set(); st = [t]
    while st:
        u = st.pop()
        if u in seen or u in _memo: continue
        seen.add(u)
        for c in children(u):
            if c not in seen: st.append(c)
    for u in sorted(seen, key=terms._tid):
        _memo[u] = tr1(u, g)
    return _memo[t]

_vars = {}
def vars_of(t):
    """frozenset of variable terms (uf application counts through its arguments)"""
    r = _vars.get(t)
    if r is not None: return r
    seen = set(); st = [t]
    while st:
        u = st.pop()
        if u in seen or u in _vars: continue
        seen.add(u); st.extend(children(u))
    for u in sorted(seen, key=terms._tid):
        if u.op == 'var': _vars[u] = frozenset((u,))
        else:
            s = frozenset()
            for c in children(u):
                v = _vars[c]
                if not v <= s: s = s | v if s else v
            if u.op == 'uf': s = s | {u.a[0]}     # applications of one function interact
            _vars[u] = s
    return _vars[t]

def slice_pc(pc, roots):
    need = set()
    for r in roots:
        if r.__class__ is not int: need |= vars_of(r)
    rest = [p for p in pc if p.__class__ is not int]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for p in rest:
            v = vars_of(p)
            if v & need:
                out.append(p); need |= v; changed = True
            else: nr.append(p)
        rest = nr
    return out

INV = {}     # name -> inverse function name of a keyed permutation
def perm_axioms(ts):
    """injectivity and mutual-inverse facts for the permutation applications below ts"""
    apps = {}
    for u in cone(ts):
        if u.op == 'uf' and u.a[0] in INV: apps.setdefault(u.a[0], []).append(u)
    ax = []
    for n, l in apps.items():
        for i in range(len(l)):
            for j in range(i):
                p, q = l[i], l[j]
                if len(p.a[1]) != len(q.a[1]) or p.w != q.w: continue
                same = [tr(x, k) == tr(y, k2) for (x, k), (y, k2) in zip(p.a[1][:-1], q.a[1][:-1])]
                ax.append(z3.Implies(z3.And(*same, tr(p) == tr(q)), tr(p.a[1][-1][0], p.w) == tr(q.a[1][-1][0], q.w)))
        m = INV[n]
        if n < m:
            for p in l:
                for q in apps.get(m, []):
                    if p.w != q.w: continue
                    same = [tr(x, k) == tr(y, k2) for (x, k), (y, k2) in zip(p.a[1][:-1], q.a[1][:-1])]
                    ax.append(z3.Implies(z3.And(*same), (tr(p) == tr(q.a[1][-1][0], q.w)) == (tr(q) == tr(p.a[1][-1][0], p.w))))
    return ax

EXTRA = []    # callables(ts) -> list of z3 constraints (background facts on uninterpreted functions)

def check(conds, timeout=60, need_model=False):
    """conds: list of 1-bit terms; returns 'sat'/'unsat' (and model)"""
    conds = [c for c in conds if not (c.__class__ is int and c == 1)]
    if any(c.__class__ is int for c in conds): return 'unsat', None
    s = z3.SolverFor('QF_UFBV') if any(isinstance(x, str) for c in conds for x in vars_of(c)) else z3.SolverFor('QF_BV')
    s.set('timeout', int(timeout * 1000))
    for c in conds: s.add(tr(c) == 1)
    for a in perm_axioms(conds): s.add(a)
    for f in EXTRA:
        for a in f(conds): s.add(a)
    t0 = time.time()
    r = s.check()
    STAT['queries'] += 1; STAT['solver_s'] += time.time() - t0
    r = str(r); STAT[r] += 1
    return r, (s.model() if r == 'sat' and need_model else None)

SALT = ['']     # selects the interpretation of the uninterpreted functions (one per simulation pattern)
def fhash(name, args, w):
    b = repr((name, args, SALT[0])).encode()
    return int.from_bytes(hashlib.shake_128(b).digest((w + 7) // 8), 'big') & ((1 << w) - 1)
PERMFN = {}    # name -> python function(args,w) used in simulation/concrete runs
def ufval(name, args, w):
    f = PERMFN.get(name)
    if f: return f(name, args, w)
    return fhash(name, args, w)

class Env:
    """a model: values of variables and functions"""
    def __init__(self, model=None, base=None, roots=()):
        self.v = {}; self.f = {}
        if model is not None:
            ts = cone(roots)
            for u in ts:
                if u.op == 'var':
                    x = model.eval(tr(u), model_completion=True)
                    self.v[u.a[0]] = x.as_long()
            for u in ts:
                if u.op == 'uf':
                    args = tuple((model.eval(tr(x, k), model_completion=True).as_long(), k) for x, k in u.a[1])
                    self.f[(u.a[0], args)] = model.eval(tr(u), model_completion=True).as_long()
    def ufn(self, name, args, w):
        r = self.f.get((name, args))
        if r is not None: return r
        SALT[0] = self.f.get('salt', '')
        try: return ufval(name, args, w)
        finally: SALT[0] = ''
    def get(self, t):
        return terms.evaluate([t], self.v, self.ufn)[t]

class Solver:
    def __init__(self, timeout=60):
        self.cache = {}; self.timeout = timeout; self.sim = None
    def feasible(self, pc, cond):
        if cond.__class__ is int: return bool(cond)
        cs = slice_pc(pc, [cond]) + [cond]
        key = frozenset(c.id for c in cs)
        r = self.cache.get(key)
        if r is not None:
            STAT['cached'] += 1; return r
        if self.sim is not None and not terms.LIN and witness(cs, self.sim) is not None:
            STAT['witness'] += 1
            self.cache[key] = True
            return True
        res, m = check(cs, self.timeout)
        if res == 'unknown': raise SolverUnknown('feasibility query undecided in %d s' % self.timeout)
        r = self.cache[key] = res == 'sat'
        return r
    def values(self, pc, t, w, maxn):
        cs = slice_pc(pc, [t])
        s = z3.Solver() ; s.set('timeout', int(self.timeout * 1000))
        for c in cs: s.add(tr(c) == 1)
        for a in perm_axioms(cs + [t]): s.add(a)
        x = tr(t); out = []
        t0 = time.time()
        while True:
            r = str(s.check()); STAT['queries'] += 1; STAT[r] += 1
            if r == 'unknown': raise SolverUnknown('value enumeration')
            if r == 'unsat': break
            v = s.model().eval(x, model_completion=True).as_long()
            out.append(v)
            if len(out) > maxn: raise terms_unsupported('too many values')
            s.add(x != bv(v, w))
        STAT['solver_s'] += time.time() - t0
        return out
def terms_unsupported(m):
    import symex
    return symex.Unsupported(m)

# ------------------------------------------------------------------ simulation
class Sim:
    K = 64
    def __init__(self, seed=1, hints=None):
        self.r = random.Random(seed); self.v = {}; self.sigs = {}
        self.nr = np.random.RandomState(seed)
        self.hints = hints or []     # list of Env whose values fill the first patterns
    def val(self, t):
        if t.__class__ is int: return t
        v = self.v.get(t)
        if v is not None: return v
        seen = set(); st = [t]
        while st:
            u = st.pop()
            if u in seen or u in self.v: continue
            seen.add(u); st.extend(children(u))
        for u in sorted(seen, key=terms._tid): self.v[u] = self.ev(u)
        return self.v[t]
    def arr(self, x, w):
        """python-object or uint64 array for value x of width w"""
        if x.__class__ is int:
            return np.uint64(x) if w <= 64 else x
        return self.v[x]
    def ev(self, t):
        op = t.op; w = t.w; a = t.a; K = self.K
        big = w > 64
        U = np.uint64
        if op == 'var':
            h = [e.v.get(a[0], 0) for e in self.hints[:K // 2]]
            vals = h + [self.r.getrandbits(w) if i % 8 else self.r.choice((0, (1 << w) - 1, 1 << self.r.randrange(w))) for i in range(K - len(h))]
            return np.array(vals, dtype=object if big else U)
        m = (1 << w) - 1
        V = lambda x, k: self.arr(x, k)
        if op == 'cat':
            if big:
                r = 0; p = 0
                for x, k in a:
                    y = V(x, k)
                    if x.__class__ is not int: y = y.astype(object)
                    else: y = int(y)
                    r = r + (y << p); p += k
                return r
            r = np.zeros(K, U); p = 0
            for x, k in a: r = r | (V(x, k) << U(p)); p += k
            return r
        if op == 'ext':
            x = V(a[0], a[0].w)
            if a[0].w > 64:
                y = (x >> a[1]) & m
                return y if big else y.astype(U)
            return (x >> U(a[1])) & U(m)
        if op == 'rep':
            x = V(a[0], 1)
            if big: return x.astype(object) * m
            return np.where(x != 0, U(m), U(0))
        if op == 'box': return V(a[0], w)
        if op == 'lin':
            r = np.full(K, a[0] & 1, U)
            for i in terms.latoms(a[0]):
                if i: r = r ^ V(terms.LATOM[i], 1)
            return r
        if op == 'xor':
            r = U(a[0]) if not big else a[0]
            for x in a[1]: r = r ^ V(x, w)
            return r
        if op == 'and':
            r = None
            for x in a: r = V(x, w) if r is None else r & V(x, w)
            return r
        if op == 'add':
            if big:
                r = a[0]
                for x, k in a[1]: r = r + V(x, w) * k
                return r & m
            r = np.full(K, a[0], U)
            for x, k in a[1]: r = r + V(x, w) * U(k)
            return r & U(m)
        if op == 'mul':
            if big: return (V(a[0], w) * V(a[1], w)) & m
            return (V(a[0], w) * V(a[1], w)) & U(m)
        if op == 'eq': return (V(a[0], a[2]) == V(a[1], a[2])).astype(U)
        if op == 'ult': return (V(a[0], a[2]) < V(a[1], a[2])).astype(U)
        if op == 'ite':
            c = V(a[0], 1) != 0
            x, y = V(a[1], w), V(a[2], w)
            return np.where(c, x, y).astype(object if big else U)
        if op == 'tbl':
            tb = _tf.get(a[0])
            if tb is None:
                l = list(TABLES[a[0]]); n = 1 << min(a[1].w, 17)
                if len(l) < n: l = l + [0] * (n - len(l))
                tb = _tf[a[0]] = np.array(l, dtype=object if big else U)
            i = V(a[1], a[1].w)
            return tb[np.minimum(i.astype(np.int64), len(tb) - 1)]
        # generic, per pattern
        out = []
        for i in range(K):
            def g(x):
                if x.__class__ is int: return x
                return int(self.v[x][i])
            if op == 'uf':
                SALT[0] = i
                try: v = ufval(a[0], tuple((g(x), k) for x, k in a[1]), w)
                finally: SALT[0] = ''
            else:
                x, y = g(a[0]), g(a[1])
                if op == 'udiv': v = x // y if y else m
                elif op == 'urem': v = x % y if y else x
                elif op == 'sdiv': v = terms.sdiv(x, y, w) if y else m
                elif op == 'srem': v = terms.srem(x, y, w) if y else x
                elif op == 'shl': v = terms.shlc(x, min(y, w), w) if y < w else 0
                elif op == 'lshr': v = x >> y if y < w else 0
                elif op == 'ashr': v = terms.ashrc(x, y if y < w else w - 1, w)
                elif op == 'slt': v = int(terms._sg(x, a[2]) < terms._sg(y, a[2]))
                else: raise ValueError(op)
            out.append(v)
        return np.array(out, dtype=object if big else U)
    def sig(self, t):
        if t.__class__ is int: return ('c', t)
        s = self.sigs.get(t)
        if s is None:
            v = self.val(t)
            s = self.sigs[t] = v.tobytes() if v.dtype != object else tuple(int(x) for x in v)
        return s

def witness(cs, sim, extra=None):
    """index of a simulation pattern that satisfies every constraint, or None"""
    ok = np.ones(Sim.K, bool)
    for c in cs:
        if c.__class__ is int:
            if not c: return None
            continue
        ok &= sim.val(c) != 0
        if not ok.any(): return None
    if extra is not None: ok &= extra
    i = np.flatnonzero(ok)
    return int(i[0]) if len(i) else None
def pattern_env(ts, sim, i):
    env = Env(); env.f['salt'] = i
    for u in cone(ts):
        if u.op == 'var': env.v[u.a[0]] = int(sim.val(u)[i])
    return env

# ------------------------------------------------------------------ sweeping
_lev = {}
def level(t):
    r = _lev.get(t)
    if r is not None: return r
    seen = set(); st = [t]
    while st:
        u = st.pop()
        if u in seen or u in _lev: continue
        seen.add(u); st.extend(children(u))
    for u in sorted(seen, key=terms._tid):
        l = 0
        for c in children(u):
            k = _lev[c]
            if k > l: l = k
        # slicing does not count as a level
        _lev[u] = l + (0 if u.op in ('cat', 'ext') else 1)
    return _lev[t]

def _reach(t, lim):
    """terms below t, by decreasing id, at most lim"""
    import heapq
    out = []; seen = {t}; h = [(-t.id, t)]
    while h and len(out) < lim:
        u = heapq.heappop(h)[1]
        out.append(u)
        for c in children(u):
            if c not in seen: seen.add(c); heapq.heappush(h, (-c.id, c))
    return out, h
def cutcone(a, b, budget, extra):
    """terms belonging to one side only (at most budget), plus `extra` shared ones (deepest first);
    everything below is cut. Returns (inside, something was cut)"""
    import heapq
    if a.__class__ is int or b.__class__ is int:
        t = b if a.__class__ is int else a
        o, h = _reach(t, budget + extra)
        return set(o), bool(h)
    # nodes are popped parents first, so the mask (1: below a, 2: below b) is final when popped
    mask = {a: 1}; mask[b] = mask.get(b, 0) | 2
    inside = set(); hs = []
    h = [(-level(t), -t.id, t) for t in mask]
    heapq.heapify(h)
    seen = set(mask)
    n = 0
    while h and n < budget:
        k = heapq.heappop(h); t = k[2]
        mk_ = mask[t]
        if mk_ == 3:
            hs.append(k); continue
        inside.add(t); n += 1
        for c in children(t):
            if c in mask: mask[c] |= mk_
            else:
                mask[c] = mk_; seen.add(c); heapq.heappush(h, (-level(c), -c.id, c))
    heapq.heapify(hs)
    n = 0
    while hs and n < extra:
        t = heapq.heappop(hs)[2]
        inside.add(t); n += 1
        for c in children(t):
            if c not in seen: seen.add(c); heapq.heappush(hs, (-level(c), -c.id, c))
    return inside, bool(h or hs)

def lemma(a, b, w, budget, extra, timeout):
    inside, cut = cutcone(a, b, budget, extra)
    loc = {}
    def g(x, k):
        if x.__class__ is int: return bv(x, k)
        r = loc.get(x)
        if r is None: r = loc[x] = z3.BitVec('!%d' % x.id, x.w)
        return r
    for u in sorted(inside, key=terms._tid): loc[u] = tr1(u, g)
    s = z3.SolverFor('QF_UFBV') if any(u.op == 'uf' for u in inside) else z3.SolverFor('QF_BV')
    s.set('timeout', int(timeout * 1000))
    s.add(g(a, w) != g(b, w))
    t0 = time.time()
    r = str(s.check())
    STAT['queries'] += 1; STAT['solver_s'] += time.time() - t0; STAT[r] += 1
    return r, cut

class Sweep:
    def __init__(self, seed=1, deadline=None, sim=None):
        self.sim = sim or Sim(seed)
        self.rep = {}       # original/any term -> representative
        self.cls = {}       # (w, sig) -> list of representatives
        self.failed = set()
        self.side = {}      # term -> 1: below a left-hand side, 2: below a right-hand side, 3: both
        self.deadline = deadline
        self.lem_to = 4.0
    def find(self, t):
        while True:
            r = self.rep.get(t)
            if r is None or r is t: return t
            t = r
            if t.__class__ is int: return t
    def process(self, xs, ys):
        """bottom-up merge of the cones of the two sides; returns nothing, fills rep"""
        side = self.side
        for k, l in ((1, xs), (2, ys)):
            for t in cone(l): side[t] = side.get(t, 0) | k
        for t in cone(xs + ys):
            if t in self.rep: continue
            if self.deadline and time.time() > self.deadline: return
            n = rebuild(t, self.look)
            if n.__class__ is int:
                self.rep[t] = n; continue
            if n is not t and n in self.rep:
                self.rep[t] = self.find(n); continue
            # a rebuilt term may contain new intermediate nodes; treat n itself
            side[n] = side.get(n, 0) | side[t]
            r = self.merge(n)
            self.rep[n] = r if r is not n else n
            self.rep[t] = r
    def look(self, t):
        r = self.find(t)
        return r
    def merge(self, n):
        if n.op == 'var': return n
        k = (n.w, self.sim.sig(n))
        l = self.cls.setdefault(k, [])
        for r in l:
            if r is n: return n
            # only what distinguishes the sides has to be matched
            if self.side.get(r) == self.side[n] or (r.id, n.id) in self.failed: continue
            if self.prove(r, n): return r
            self.failed.add((r.id, n.id))
        # constant candidate
        if len(l) < 4: l.append(n)
        return n
    def prove(self, a, b):
        for bud, ex, to in ((300, 0, 2.0), (300, 12, 2.0), (300, 60, self.lem_to), (600, 300, self.lem_to)):
            r, cut = lemma(a, b, b.w, bud, ex, to)
            if r == 'unsat':
                STAT['lemmas'] += 1; return True
            if r == 'sat' and not cut: return False
            if self.deadline and time.time() > self.deadline: return False
        return False

class Result:
    def __init__(self, ok, env=None, why=''): self.ok = ok; self.env = env; self.why = why

def facts(pc):
    f = {}
    for c in pc:
        if c.__class__ is int: continue
        f[c] = 1
        if c.op == 'xor' and c.w == 1 and len(c.a[1]) == 1: f[c.a[1][0]] = 0
        elif c.op == 'xor' and c.w == 1:
            # solve for the youngest element
            f[c.a[1][-1]] = (c.a[0] ^ 1, c.a[1][:-1])
        if c.op == 'eq':
            x, y = c.a[:2]
            if x.__class__ is int and y.__class__ is not int: f[y] = x
            elif y.__class__ is int and x.__class__ is not int: f[x] = y
    return f
def simplify(pairs, pc):
    """replace what the path condition fixes by its value in both sides"""
    f = facts(pc)
    roots = [t for x, y, w in pairs for t in (x, y) if t.__class__ is not int]
    new = {}
    hit = False
    for t in cone(roots):
        v = f.get(t)
        if v is not None:
            hit = True
            if v.__class__ is tuple:
                r = v[0]
                for e in v[1]: r = terms.xor(r, new.get(e, e), 1)
                v = r
            new[t] = v; continue
        if any(c in new for c in children(t)):
            r = terms.rebuild(t, lambda c: new.get(c, c))
            if r is not t: new[t] = r
    if not hit: return pairs
    out = []
    for x, y, w in pairs:
        a = new.get(x, x) if x.__class__ is not int else x
        b = new.get(y, y) if y.__class__ is not int else y
        if a is b or (a.__class__ is int and b.__class__ is int and a == b): STAT['structural'] += 1
        else: out.append((a, b, w))
    return out

class _Rnd(dict):
    def __init__(self, v, r): super().__init__(v); self.r = r
    def get(self, k, d=0):
        if k not in self: self[k] = self.r.getrandbits(8)
        return self[k]

_ncut = [0]
def abstracted(pairs):
    """the pairs with every term that lies below both sides replaced by a fresh variable, or None if nothing is shared"""
    xs = set(cone([x for x, y, w in pairs])); ys = set(cone([y for x, y, w in pairs]))
    shared = xs & ys
    new = {}; hit = False
    def look(c):
        nonlocal hit
        if c.__class__ is int: return c
        r = new.get(c)
        if r is None and c in shared:
            if c.op == 'var': return c
            hit = True
            _ncut[0] += 1
            r = new[c] = terms.var('cut%d' % _ncut[0], c.w)
        return r
    for t in sorted((xs | ys) - shared, key=terms._tid): new[t] = rebuild(t, look)
    out = [(look(x), look(y), w) for x, y, w in pairs]
    return out if hit else None
def prove_abstracted(pairs, seed):
    try: ps = abstracted(pairs)
    except RecursionError: return False
    if ps is None: return False
    ps = [(x, y, w) for x, y, w in ps if not (x is y or (x.__class__ is int and y.__class__ is int and x == y))]
    if not ps: return True
    sim = Sim(seed)
    if any(sim.sig(x) != sim.sig(y) for x, y, w in ps): return False
    ne = 0
    for x, y, w in ps: ne = terms.or_(ne, terms.ne(x, y, w), 1)
    if ne.__class__ is int: return ne == 0
    n = len(cone([ne]))
    if n < 400:
        r, _ = check([ne], 5)
        if r == 'unsat': return True
        if r == 'sat': return False
    if n > 20000: return False
    sw = Sweep(seed, deadline=time.time() + 20, sim=sim)
    sw.process([x for x, y, w in ps], [y for x, y, w in ps])
    for x, y, w in ps:
        if sw.find(x) is not sw.find(y): break
    else: return True
    left = 0
    for x, y, w in ps: left = terms.or_(left, terms.ne(sw.find(x), sw.find(y), w), 1)
    if left.__class__ is int: return left == 0
    return check([left], 10)[0] == 'unsat'
def corner(pairs, seed, limit=25):
    """values, with limbs at the ends of their ranges and those the integer solver proposed, for which a pair differs"""
    r = random.Random(seed); roots = [t for x, y, w in pairs for t in (x, y) if t.__class__ is not int]
    names = sorted(t.a[0] if t.a.__class__ is tuple else t.a for t in cone(roots) if t.op == 'var')
    special = (0, 0, 0, 1, 2, 0xffffffff, 0xffffffff, 0xfffffffe, 1 << 28, 1 << 29, 0x0fffffff, 0x1fffffff, 0x0ffff000)
    until = time.time() + limit; n = 0
    while time.time() < until:
        env = Env()
        if n < len(limbs.PROPOSED): env.v = dict.fromkeys(names, 0); env.v.update(limbs.PROPOSED[n])
        else:
            k = n % 4
            if k == 0: env.v = {x: r.choice((0, 0xffffffff)) for x in names}
            elif k == 1: env.v = {x: r.choice(special) for x in names}
            elif k == 2: env.v = {x: 0 for x in names}; env.v.update({x: r.choice(special) for x in r.sample(names, min(3, len(names)))})
            else: env.v = {x: r.choice(special) if r.random() < .5 else r.getrandbits(32) for x in names}
        n += 1
        val = terms.evaluate(roots, env.v, env.ufn)
        if any(val.get(x, x) != val.get(y, y) for x, y, w in pairs): return env
    return None
def prove_eq(pairs, pc, timeout=120, sweep=None, seed=1):
    """pairs: (x, y, w).  Decide that all are equal under pc. Returns Result(True|False|None)"""
    rest = []
    for x, y, w in pairs:
        if x is y or (x.__class__ is int and y.__class__ is int and x == y):
            STAT['structural'] += 1; continue
        rest.append((x, y, w))
    if LIMBS:
        before = dict(limbs.STAT)
        rest = [(x, y, w) for x, y, w in rest if not (w == 1 and y.__class__ is int and y == 1 and limbs.prove(x))]
        for k in ('queries', 'solver_s', 'sat', 'unsat', 'unknown'): STAT[k] += limbs.STAT[k] - before[k]
        if rest and not pc:
            env = corner(rest, seed)
            if env: return Result(False, env, 'evaluation')
    if not rest:
        return Result(True)
    if pc and not terms.LIN:
        rest = simplify(rest, pc)
        if not rest: return Result(True)
    if terms.LIN:
        r = random.Random(seed)
        cs = [c for c in pc if c.__class__ is not int]
        base = {}
        if cs:
            q, m = check(cs, timeout, need_model=True)
            if q != 'sat': return Result(None, why='path condition undecided')
            base = Env(m, roots=cs).v
        for i in range(6):
            env = Env(); env.v = _Rnd(base, r)
            val = terms.evaluate([t for x, y, w in rest for t in (x, y) if t.__class__ is not int], env.v, env.ufn)
            if any(val.get(x, x) != val.get(y, y) for x, y, w in rest): return Result(False, env, 'evaluation')
        return Result(None, why='normal forms differ, no difference found by evaluation')
    sw = sweep or Sweep(seed)
    # quick disagreement: direct query on the disagreeing pairs
    bad = [(x, y, w) for x, y, w in rest if sw.sim.sig(x) != sw.sim.sig(y)]
    def direct(ps, to):
        ne = 0
        for x, y, w in ps: ne = terms.or_(ne, terms.ne(x, y, w), 1)
        if ne.__class__ is int and ne == 0: return Result(True)
        roots = [c for c in list(pc) + [ne] if c.__class__ is not int]
        cs = slice_pc(pc, [ne]) + [ne]
        r, m = check(cs, to, need_model=True)
        if r == 'unsat': return Result(True)
        if r == 'sat':
            # complete the model for the unrelated part of the path condition
            other = [c for c in pc if c.__class__ is not int and not any(c is d for d in cs)]
            env = Env(m, roots=cs)
            if other:
                r2, m2 = check(other, to, need_model=True)
                if r2 != 'sat': return Result(None, why='path condition undecided')
                e2 = Env(m2, roots=other)
                for k, v in e2.v.items(): env.v.setdefault(k, v)
                for k, v in e2.f.items(): env.f.setdefault(k, v)
            return Result(False, env)
        return Result(None, why='query undecided in %d s' % to)
    if bad:
        # a simulation pattern that satisfies the path condition is itself a counterexample
        x, y, w = bad[0]
        vx, vy = sw.sim.val(x), sw.sim.val(y)
        i = witness(pc, sw.sim, np.array([int(vx[i] if vx.__class__ is not int else vx) != int(vy[i] if vy.__class__ is not int else vy) for i in range(Sim.K)]))
        if i is not None:
            return Result(False, pattern_env([t for t in [x, y] + list(pc) if t.__class__ is not int], sw.sim, i), 'simulation pattern')
    if bad:
        r = direct(bad, timeout)
        if r.ok is False or r.ok is None: return r
        rest = [p for p in rest if not any(p is b for b in bad)]
        if not rest: return r
    if prove_abstracted(rest, seed):
        STAT['abstracted'] += 1
        return Result(True)
    sw.process([x for x, y, w in rest], [y for x, y, w in rest])
    left = []
    for x, y, w in rest:
        a = sw.find(x) if x.__class__ is not int else x
        b = sw.find(y) if y.__class__ is not int else y
        if a is b or (a.__class__ is int and b.__class__ is int and a == b): continue
        left.append((a, b, w))
    if not left: return Result(True)
    return direct(left, timeout)
