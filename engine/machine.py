"""Run-time state of one symbolic path: memory, path condition, decisions, environment model."""
import re, struct
import ir, terms, symex
from terms import T, ext, cat, xor, add, and_, eq, ult, ite, not_
from symex import Obj, BASE, M64, PathEnd, Panic, MemErr, Infeasible, Unsupported, Limit, Stop, MergeAbort

_AES_SBOX = None
def _gf():
    """AES S-box from its definition (inverse in GF(2^8), affine map)"""
    global _AES_SBOX, _AES_INV
    if _AES_SBOX: return
    def mul(a, b):
        r = 0
        while b:
            if b & 1: r ^= a
            a <<= 1
            if a & 256: a ^= 0x11b
            b >>= 1
        return r
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if mul(a, b) == 1: inv[a] = b; break
    s = []
    for a in range(256):
        x = inv[a]; y = 0
        for i in range(8):
            bit = (x >> i ^ x >> ((i + 4) % 8) ^ x >> ((i + 5) % 8) ^ x >> ((i + 6) % 8) ^ x >> ((i + 7) % 8) ^ 0x63 >> i) & 1
            y |= bit << i
        s.append(y)
    _AES_SBOX = tuple(s)
    si = [0] * 256
    for i, v in enumerate(s): si[v] = i
    _AES_INV = tuple(si)

class X:
    """one path"""
    def __init__(self, prog, solver, prefix=(), inputs=None, limit=200_000_000, ufn=None, jobparams=None):
        self.prog = prog; self.solver = solver
        self.objs = dict(prog.gobj)
        self.next = 1 << 20
        self.steps = 0; self.limit = limit
        self.pc = []
        self.prefix = prefix; self.dec = []
        self.pending = []
        self.inputs = inputs          # None: symbolic; list of bytes: concrete replay
        self.ufn = ufn
        self.nsym = 0; self.nundef = 0
        self.symnames = []            # (name, nbytes)
        self.log = []                 # answers for the native runner
        self.words = set()
        self.goals = []               # deferred equality goals
        self.checks = 0; self.nforks = 0
        self.outs = []
        self.model = None
        self.params = jobparams or {}
        self.mutated = False
        self.violations = []
        self.marks = []
        self.freed = {}
        self.state = {}
        self.merge = False; self.mlog = None; self.nmerge = 0
        self.concrete = inputs is not None

    # -------------------------------------------------- memory
    def newobj(self, size, fill, name=''):
        i = self.next; self.next += 1
        self.objs[i] = Obj(i, size, [fill] * size, False, name)
        return (i << 32) + BASE
    def alloca(self, size, al):
        a = self.newobj(size, None, 'stack')
        al.append(a >> 32)
        return a
    def obj(self, addr, n, what):
        if addr.__class__ is not int:
            raise Unsupported('symbolic address in ' + what)
        o = self.objs.get(addr >> 32)
        off = (addr & 0xffffffff) - BASE
        if o is None:
            g = self.prog.gobj.get(addr >> 32)
            if g is not None:
                o = self.objs[addr >> 32] = g
            else:
                raise MemErr('%s of %d bytes at invalid or freed address %#x' % (what, n, addr))
        if off < 0 or off + n > o.size:
            raise MemErr('%s of %d bytes at offset %d of an object of %d bytes (%s)' % (what, n, off, o.size, o.name))
        return o, off
    def load(self, addr, n, w):
        if addr.__class__ is not int: return self.load_sym(addr, n, w)
        o = self.objs.get(addr >> 32)
        off = (addr & 0xffffffff) - BASE
        if o is None or off < 0 or off + n > o.size:
            o, off = self.obj(addr, n, 'read')
        c = o.c[off:off + n]
        try:
            v = int.from_bytes(bytes(c), 'little')
            return v if w == n * 8 else v & ((1 << w) - 1)
        except TypeError:
            return self.assemble(c, w)
    def assemble(self, c, w):
        if len(c) == 1 and w == 8 and c[0].__class__ is tuple and c[0][0].w == 8: return c[0][0]
        segs = []
        i = 0; n = len(c)
        while i < n:
            x = c[i]
            if x.__class__ is int:
                segs.append((x, 8)); i += 1
            elif x is None:
                segs.append((self.undef(), 8)); i += 1
            else:
                t, k = x
                j = i + 1
                while j < n and c[j].__class__ is tuple and c[j][0] is t and c[j][1] == k + (j - i): j += 1
                segs.append((ext(t, 8 * k, 8 * (j - i)), 8 * (j - i)))
                i = j
        v = cat(segs)
        if w != 8 * n: v = ext(v, 0, w) if v.__class__ is not int else v & ((1 << w) - 1)
        return v
    def undef(self):
        self.nundef += 1
        if self.concrete: return 0
        return terms.var('undef%d' % self.nundef, 8)
    def store(self, addr, n, w, v):
        if addr.__class__ is not int:
            addr = self.concretize(addr, 64)
        o = self.objs.get(addr >> 32)
        off = (addr & 0xffffffff) - BASE
        if o is None or off < 0 or off + n > o.size:
            o, off = self.obj(addr, n, 'write')
        if o.ro: raise MemErr('write to constant ' + o.name)
        if o.meta is not None: o.meta = None
        if addr >> 32 < (1 << 20): o = self.cow(o)
        if v.__class__ is int:
            o.c[off:off + n] = v.to_bytes(n, 'little')
        else:
            if w != 8 * n: v = terms.zext(v, w, 8 * n)
            if v.__class__ is int: o.c[off:off + n] = v.to_bytes(n, 'little')
            elif n == 1: o.c[off] = (v, 0)
            else: o.c[off:off + n] = [(v, i) for i in range(n)]
    def cow(self, o):
        n = Obj(o.id, o.size, list(o.c), o.ro, o.name)
        if self.objs.get(o.id) is self.prog.gobj.get(o.id):
            self.objs[o.id] = n
            return n
        return self.objs[o.id]
    def load_sym(self, addr, n, w):
        if addr.op == 'ite':
            if self.branch(addr.a[0]): return self.load(addr.a[1], n, w)
            return self.load(addr.a[2], n, w)
        c, d = terms._lin(addr, 64)
        o = self.objs.get(c >> 32) or self.prog.gobj.get(c >> 32)
        if o is None:
            return self.load(self.concretize(addr, 64), n, w)
        base = (o.id << 32) + BASE
        off = terms.sub(addr, base, 64)
        if off.__class__ is int: return self.load(base + off, n, w)
        u = terms.ub(off)
        if u + n > o.size:
            bad = not_(ult(off, o.size - n + 1, 64), 1) if o.size >= n else 1
            if bad.__class__ is int:
                if bad: raise MemErr('read out of bounds of %s' % o.name)
            elif self.feasible(bad):
                self.pc.append(bad)
                raise MemErr('read of %d bytes with a symbolic offset can leave the object of %d bytes' % (n, o.size))
            u = o.size - n
        oc, od = terms._lin(off, 64)
        stride = 0
        import math
        for k in od.values(): stride = math.gcd(stride, k)
        stride &= -stride
        stride = min(stride, 1 << 12)
        r = oc % stride
        k = terms.lshrc(terms.sub(off, r, 64), stride.bit_length() - 1, 64)
        cnt = (u - r) // stride + 1
        if cnt > 70000: raise Unsupported('symbolic index over %d entries' % cnt)
        cells = o.c
        vals = []
        const = True
        for i in range(cnt):
            p = r + i * stride
            seg = cells[p:p + n]
            try:
                v = int.from_bytes(bytes(seg), 'little')
                if w != 8 * n: v &= (1 << w) - 1
            except TypeError:
                v = self.assemble(seg, w); const = const and v.__class__ is int
            vals.append(v)
        if const: return terms.lookup(tuple(vals), k, w, 64)
        # binary mux over the index bits
        nb = max(1, (cnt - 1).bit_length())
        def mux(lo, bits):
            if lo >= cnt: return None
            if bits == 0: return vals[lo]
            a = mux(lo, bits - 1); b = mux(lo + (1 << (bits - 1)), bits - 1)
            if b is None: return a
            return ite(ext(k, bits - 1, 1), b, a, w)
        return mux(0, nb)
    def memcpy(self, d, s, n, ck):
        if n.__class__ is not int: n = self.concretize(n, 64)
        if n == 0: return
        if d.__class__ is not int: d = self.concretize(d, 64)
        if s.__class__ is not int: s = self.concretize(s, 64)
        so, soff = self.obj(s, n, 'read')
        do, doff = self.obj(d, n, 'write')
        if do.ro: raise MemErr('write to constant')
        if d >> 32 < (1 << 20): do = self.cow(do)
        do.c[doff:doff + n] = so.c[soff:soff + n]
    def memset(self, d, v, n):
        if n.__class__ is not int: n = self.concretize(n, 64)
        if n == 0: return
        do, doff = self.obj(d, n, 'write')
        if do.ro: raise MemErr('write to constant')
        if d >> 32 < (1 << 20): do = self.cow(do)
        do.c[doff:doff + n] = [v if v.__class__ is int else (v, 0)] * n
    def rbytes(self, p, n):
        """list of byte values (int or T)"""
        if n == 0: return []
        o, off = self.obj(p, n, 'read')
        out = []
        for x in o.c[off:off + n]:
            if x.__class__ is int: out.append(x)
            elif x is None: out.append(self.undef())
            else: out.append(ext(x[0], 8 * x[1], 8))
        return out
    def wbytes(self, p, bs):
        if not bs: return
        o, off = self.obj(p, len(bs), 'write')
        o.c[off:off + len(bs)] = [b if b.__class__ is int else (b, 0) for b in bs]
    def cstr(self, p, n):
        try: return bytes(self.rbytes(p, n)).decode('utf8', 'replace')
        except Exception: return '?'

    # -------------------------------------------------- decisions
    def overlimit(self): raise Limit('step limit')
    def feasible(self, cond):
        return self.solver.feasible(self.pc, cond)
    def branch(self, c):
        if self.mlog is not None: raise MergeAbort()
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            canf = cant = None
            if self.model is not None:
                v = self.model.get(c)
                if v is not None:
                    if v: cant = True
                    else: canf = True
            if cant is None: cant = self.feasible(c)
            if canf is None: canf = self.feasible(not_(c, 1)) if cant else True
            if cant and canf:
                self.pending.append(tuple(self.dec) + (0,))
                self.nforks += 1
                d = 1
            else:
                d = 1 if cant else 0
        self.dec.append(d)
        self.pc.append(c if d else not_(c, 1))
        return d
    # -------------------------------------------------- merging of small branches
    def trymerge(self, c):
        if self.mlog is not None: return False
        i = len(self.dec)
        if i < len(self.prefix): r = self.prefix[i] == 2
        else: r = self.feasible(c) and self.feasible(not_(c, 1))
        if r:
            self.dec.append(2); self.mlog = []
        return r
    def endmerge(self, ok):
        if ok: self.nmerge += 1
        else:
            for o, off, old in reversed(self.mlog): o.c[off:off + len(old)] = old
            self.dec.pop()
        self.mlog = None
    def mustbe0(self, e):
        if e.__class__ is not int or e: raise MergeAbort()
    def mor(self, es):
        r = 0
        for e in es: r = terms.or_(r, e, 1)
        return r
    def mphi(self, items, w, isptr):
        l = [(e, f) for e, f in items if e.__class__ is not int or e]
        v = l[-1][1]
        for e, x in l[:-1]:
            if x is v or (x.__class__ is int and v.__class__ is int and x == v): continue
            if isptr: raise MergeAbort()
            v = ite(e, x, v, w)
        return v
    def mload(self, a, n, w):
        if a.__class__ is not int: raise MergeAbort()
        return self.load(a, n, w)
    def mstore(self, q, a, n, w, v):
        if a.__class__ is not int: raise MergeAbort()
        o, off = self.obj(a, n, 'write')
        if o.ro or a >> 32 < (1 << 20) or o.meta is not None: raise MergeAbort()
        old = o.c[off:off + n]
        if q.__class__ is not int:
            if any(x is None for x in old): raise MergeAbort()
            v = ite(q, v, self.load(a, n, w), w)
        self.mlog.append((o, off, old))
        self.store(a, n, w, v)
    def switch(self, c, w, vals):
        for v in vals:
            if self.branch_(eq(c, v, w)): return v
        return -1
    def fork(self, c):
        """both ways, without asking whether they are feasible"""
        if self.mlog is not None: raise MergeAbort()
        i = len(self.dec)
        if i < len(self.prefix): d = self.prefix[i]
        else:
            self.pending.append(tuple(self.dec) + (0,))
            self.nforks += 1
            d = 1
        self.dec.append(d)
        self.pc.append(c if d else not_(c, 1))
        return d
    def branch_(self, c):
        return c if c.__class__ is int else self.branch(c)
    def concretize(self, t, w):
        if t.__class__ is int: return t
        if self.mlog is not None: raise MergeAbort()
        i = len(self.dec)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            vs = self.solver.values(self.pc, t, w, 600)
            if not vs: raise Infeasible()
            vs.sort()
            v = vs[0]
            for o in vs[1:]: self.pending.append(tuple(self.dec) + (o,))
        self.dec.append(v)
        e = eq(t, v, w)
        if e.__class__ is int:
            if not e: raise Infeasible()
        else: self.pc.append(e)
        return v
    def choose(self, lo, hi, step=1):
        if self.concrete:
            v = self.inputs.pop(0); assert v.__class__ is int
            self.log.append(('C', v)); return v
        i = len(self.dec)
        if i < len(self.prefix): v = self.prefix[i]
        else:
            v = lo
            for o in range(lo + 1, hi + 1): self.pending.append(tuple(self.dec) + (o,))
        self.dec.append(v)
        self.symnames.append(('C', v))
        return v
    def assume(self, c):
        pass
    def vassume(self, c):
        if c.__class__ is int:
            if not c: raise Infeasible()
            return
        if not self.feasible(c): raise Infeasible()
        self.pc.append(c)

    # -------------------------------------------------- arithmetic helpers
    def shift(self, op, a, b, w):
        if b.__class__ is int:
            if b >= w: return 0      # poison
            return getattr(terms, {'shl': 'shlc', 'lshr': 'lshrc', 'ashr': 'ashrc'}[op])(a, b, w)
        if a.__class__ is int and op == 'shl' and terms.ub(b) < w and w <= 64 and a == 1:
            return terms.lookup(tuple((1 << i) & ((1 << w) - 1) for i in range(w)), b, w, w)
        # symbolic amount: barrel of constants
        r = None
        n = min(terms.ub(b), w - 1) + 1
        f = getattr(terms, {'shl': 'shlc', 'lshr': 'lshrc', 'ashr': 'ashrc'}[op])
        if n <= 64:
            nb = max(1, (n - 1).bit_length())
            def mux(lo, bits):
                if lo >= n: return None
                if bits == 0: return f(a, lo, w)
                x = mux(lo, bits - 1); y = mux(lo + (1 << (bits - 1)), bits - 1)
                return x if y is None else ite(ext(b, bits - 1, 1), y, x, w)
            return mux(0, nb)
        return getattr(terms, op)(a, b, w)
    def div(self, op, a, b, w):
        if b.__class__ is int and b == 0: raise MemErr('division by zero (UB)')
        return getattr(terms, op)(a, b, w)
    def fsh(self, k, a, b, s, w):
        if s.__class__ is not int: s = self.concretize(s, w)
        s %= w
        if a is b or (a.__class__ is int and b.__class__ is int and a == b):
            return terms.rotl(a, s if k == 'fshl' else (w - s) % w, w)
        x = cat([(b, w), (a, w)])
        if k == 'fshl':
            return ext(x, w - s, w)
        return ext(x, s, w)
    def bitcast(self, lanes, fw, tw, n):
        v = cat([(x, fw) for x in lanes])
        return tuple(ext(v, i * tw, tw) for i in range(n))
    def insertvalue(self, a, b, ix):
        l = list(a)
        if len(ix) == 1: l[ix[0]] = b
        else: l[ix[0]] = self.insertvalue(l[ix[0]], b, ix[1:])
        return tuple(l)
    def cmp3(self, k, a, b, w, rw):
        lt = terms.ult if k == 'ucmp' else terms.slt
        return ite(lt(a, b, w), (1 << rw) - 1, ite(lt(b, a, w), 1, 0, rw), rw)
    def intr(self, k, a, w):
        m = (1 << w) - 1
        if k == 'umax': return ite(ult(a[0], a[1], w), a[1], a[0], w)
        if k == 'umin': return ite(ult(a[0], a[1], w), a[0], a[1], w)
        if k == 'smax': return ite(terms.slt(a[0], a[1], w), a[1], a[0], w)
        if k == 'smin': return ite(terms.slt(a[0], a[1], w), a[0], a[1], w)
        if k == 'expect': return a[0]
        if k == 'abs': return ite(terms.slt(a[0], 0, w), terms.neg(a[0], w), a[0], w)
        if k == 'usub.sat': return ite(ult(a[0], a[1], w), 0, terms.sub(a[0], a[1], w), w)
        if k == 'uadd.sat':
            s = add(a[0], a[1], w)
            return ite(ult(s, a[0], w), m, s, w)
        if k == 'uadd.with.overflow':
            s = add(a[0], a[1], w)
            if terms.ub(a[0]) + terms.ub(a[1]) <= m: return (s, 0)
            return (s, ult(s, a[0], w))
        if k == 'usub.with.overflow': return (terms.sub(a[0], a[1], w), ult(a[0], a[1], w))
        if k == 'umul.with.overflow':
            r = terms.mul(a[0], a[1], w)
            if terms.ub(a[0]) * terms.ub(a[1]) <= m: return (r, 0)
            x = terms.mul(terms.zext(a[0], w, 2 * w), terms.zext(a[1], w, 2 * w), 2 * w)
            return (r, terms.ne(ext(x, w, w), 0, w))
        if k in ('sadd.with.overflow', 'ssub.with.overflow', 'smul.with.overflow'):
            f = {'sadd': add, 'ssub': terms.sub, 'smul': terms.mul}[k[:4]]
            W = 2 * w if k[:4] == 'smul' else w + 1
            x = f(terms.sext(a[0], w, W), terms.sext(a[1], w, W), W)
            r = ext(x, 0, w)
            return (r, terms.ne(x, terms.sext(r, w, W), W))
        x = a[0]
        if x.__class__ is int:
            if k == 'ctpop': return bin(x).count('1')
            if k == 'cttz': return w if x == 0 else (x & -x).bit_length() - 1
            if k == 'ctlz': return w - x.bit_length()
            if k == 'bitreverse': return int(bin(x)[2:].zfill(w)[::-1], 2)
        if k == 'bitreverse': return cat([(ext(x, w - 1 - i, 1), 1) for i in range(w)])
        if k == 'ctpop':
            r = 0
            for i in range(w): r = add(r, terms.zext(ext(x, i, 1), 1, w), w)
            return r
        if k == 'ctlz':
            r = w
            for i in range(w): r = ite(ext(x, i, 1), w - 1 - i, r, w)
            return r
        if k == 'cttz':
            r = w
            for i in reversed(range(w)): r = ite(ext(x, i, 1), i, r, w)
            return r
        raise Unsupported(k)
    # AES-NI semantics, from the instruction set reference
    def aesni(self, k, a):
        _gf()
        B = lambda v: [ext(v[i // 8], 8 * (i % 8), 8) for i in range(16)]
        V = lambda b: (cat([(x, 8) for x in b[:8]]), cat([(x, 8) for x in b[8:]]))
        SB = lambda x: terms.lookup(_AES_SBOX, x, 8, 8)
        IS = lambda x: terms.lookup(_AES_INV, x, 8, 8)
        def xt(x):
            return cat([(ext(x, 7, 1), 1), (xor(ext(x, 0, 1), ext(x, 7, 1), 1), 1), (ext(x, 1, 1), 1), (xor(ext(x, 2, 1), ext(x, 7, 1), 1), 1),
                        (xor(ext(x, 3, 1), ext(x, 7, 1), 1), 1), (ext(x, 4, 3), 3)])
        x8 = lambda p, q: xor(p, q, 8)
        def gm(x, c):
            r = 0
            while c:
                if c & 1: r = x8(r, x)
                x = xt(x); c >>= 1
            return r
        def mixc(s, co):
            o = []
            for c in range(4):
                col = s[4 * c:4 * c + 4]
                for r in range(4):
                    v = 0
                    for j in range(4): v = x8(v, gm(col[j], co[(j - r) % 4]))
                    o.append(v)
            return o
        s = B(a[0])
        if k == 'aesimc': return V(mixc(s, (14, 11, 13, 9)))
        if k == 'aeskeygenassist':
            imm = a[1]
            x1 = s[4:8]; x3 = s[12:16]
            s1 = [SB(v) for v in x1]; s3 = [SB(v) for v in x3]
            rot = lambda v: v[1:] + v[:1]
            r1 = rot(s1); r1[0] = x8(r1[0], imm)
            r3 = rot(s3); r3[0] = x8(r3[0], imm)
            return V(s1 + r1 + s3 + r3)
        rk = B(a[1])
        if k in ('aesenc', 'aesenclast'):
            s = [SB(s[(4 * c + r + 4 * r) % 16]) for c in range(4) for r in range(4)]
            if k == 'aesenc': s = mixc(s, (2, 3, 1, 1))
        else:
            s = [IS(s[(4 * c + r - 4 * r) % 16]) for c in range(4) for r in range(4)]
            if k == 'aesdec': s = mixc(s, (14, 11, 13, 9))
        return V([x8(p, q) for p, q in zip(s, rk)])

    def unreachable(self, where): raise MemErr('unreachable code reached in ' + where)
    def unsupported(self, what): raise Unsupported(what)
    def trap(self): raise Panic('trap')

    # -------------------------------------------------- harness interface
    def fresh(self, n, tag='in'):
        name = '%s%d' % (tag, self.nsym); self.nsym += 1
        self.symnames.append((name, n))
        return name
    def vp_sym(self, p, n):
        if n == 0:
            if self.concrete: self.inputs.pop(0); self.log.append(('B', b''))
            else: self.fresh(0)
            return
        if self.concrete:
            b = self.inputs.pop(0)
            assert len(b) == n, (len(b), n)
            self.log.append(('B', b)); self.wbytes(p, list(b)); return
        name = self.fresh(n)
        if n == 4 and z3b.LIMBS:
            # a limb is one variable
            v = terms.var('%s_w' % name, 32); self.words.add(name)
            bs = [ext(v, 8 * i, 8) for i in range(4)]
        else: bs = [terms.var('%s_%d' % (name, i), 8) for i in range(n)]
        self.wbytes(p, bs)
    def answer(self, p, bs):
        """engine-computed bytes written to memory and recorded for the native run"""
        self.wbytes(p, bs)
        if self.concrete: self.log.append(('B', bytes(bs)))
    def answer_int(self, v):
        if self.concrete: self.log.append(('C', v))
        return v
    def vp_eq(self, a, b, n, ident):
        """obligation: n bytes at a and b are equal"""
        xa = self.rbytes(a, n); xb = self.rbytes(b, n)
        self.checks += 1
        self.goal(list(zip(xa, xb, [8] * n)), ident)
    def goal(self, pairs, ident):
        if self.concrete:
            if any(x != y for x, y, _ in pairs): self.violations.append(ident)
            return
        self.goals.append((pairs, ident, len(self.pc)))
    def vp_check(self, c, ident):
        self.checks += 1
        if c.__class__ is int: c &= 1
        else: c = ext(c, 0, 1)
        self.goal([(c, 1, 1)], ident)
    def vp_out(self, p, n):
        bs = self.rbytes(p, n)
        if self.concrete: self.outs.append(bytes(bs))
        else: self.outs.append(bs)

# ------------------------------------------------------------------ environment (std / alloc) model
EXT = {}
PATTERNS = []
def extern(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d
def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f)); return f
    return d

MAXALLOC = 1 << 22
@pattern(r'__rust_alloc$')
def x_alloc(X, size, align):
    if size.__class__ is not int: size = X.concretize(size, 64)
    if size > MAXALLOC: raise Unsupported('allocation of %d bytes' % size)
    return X.newobj(size, None, 'heap')
@pattern(r'__rust_alloc_zeroed$')
def x_allocz(X, size, align):
    if size.__class__ is not int: size = X.concretize(size, 64)
    if size > MAXALLOC: raise Unsupported('allocation of %d bytes' % size)
    return X.newobj(size, 0, 'heap')
@pattern(r'__rust_dealloc$')
def x_dealloc(X, p, size, align):
    o, off = X.obj(p, 0, 'free')
    if off != 0 or o.name != 'heap': raise MemErr('free of a pointer that is not an allocation')
    if size != o.size: raise MemErr('free with size %s of an allocation of %d' % (size, o.size))
    del X.objs[p >> 32]
@pattern(r'__rust_realloc$')
def x_realloc(X, p, old, align, new):
    if new.__class__ is not int: new = X.concretize(new, 64)
    o, off = X.obj(p, 0, 'realloc')
    if new > MAXALLOC: raise Unsupported('allocation of %d bytes' % new)
    q = X.newobj(new, None, 'heap')
    k = min(o.size, new)
    X.objs[q >> 32].c[:k] = o.c[:k]
    del X.objs[p >> 32]
    return q
@pattern(r'no_alloc_shim_is_unstable')
def x_shim(X): pass

def _grow_one(esize):
    def f(X, rv):
        cap = X.load(rv, 8, 64); ptr = X.load(rv + 8, 8, 64)
        mn = 8 if esize == 1 else 4 if esize <= 1024 else 1
        new = max(cap * 2, mn, cap + 1)
        if cap == 0: q = X.newobj(new * esize, None, 'heap')
        else: q = x_realloc(X, ptr, cap * esize, 8, new * esize)
        X.store(rv, 8, 64, new); X.store(rv + 8, 8, 64, q)
    return f
SIZES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'u128': 16, 'rmath::bigint::bigint::BigInt': 16, 'rmath::bigint::nat::Nat': 8}
def _grow_factory(path):
    m = re.search(r'RawVec<(.*?)>+::grow_one', path)
    return _grow_one(SIZES[m.group(1)])
_grow_factory.factory = True
PATTERNS.append((re.compile(r'RawVec<.*>::grow_one'), _grow_factory))

@pattern(r'raw_vec::handle_error|handle_alloc_error|raw_vec::capacity_overflow')
def x_herr(X, *a): raise Panic('capacity overflow / allocation error')

def _panic(path):
    def f(X, *a):
        msg = path
        loc = ''
        if path.endswith('panicking::panic') or 'begin_panic' in path:
            msg = X.cstr(a[0], a[1]) if a[0].__class__ is int else '?'
        for v in reversed(a):
            # Location { file ptr,len ; line ; col }
            try:
                if v.__class__ is int and v >> 32 in X.prog.gobj:
                    fp = X.load(v, 8, 64); fl = X.load(v + 8, 8, 64); ln = X.load(v + 16, 4, 32)
                    s = X.cstr(fp, fl)
                    if '.rs' in s: loc = '%s:%d' % (s, ln); break
            except PathEnd: pass
            except Exception: pass
        raise Panic('panic: %s at %s' % (msg, loc))
    return f
_panic.factory = True
PATTERNS.append((re.compile(r'panicking::|unwrap_failed|expect_failed|slice_index_fail|slice_start_index|slice_end_index|begin_panic|len_mismatch_fail|panic_bounds|core::cell::panic|rust_begin_unwind|unreachable_display|fail_with|_fail$|assert_failed|misaligned|cell::.*panic'), _panic))

def _fmt(X, t, args):
    out = b''
    try:
        while True:
            c = X.load(t, 1, 8); t += 1
            if c == 0: return out
            if c < 0x80:
                out += bytes(X.load(t + i, 1, 8) for i in range(c)); t += c
            elif c == 0xc0:
                v = X.load(args, 8, 64); f = X.load(args + 8, 8, 64); args += 16
                n = X.prog.fname[(f - (1 << 60)) // 16 - 1]
                if 'impjNtB' not in n or 'Display3fmt' not in n: return None
                v = X.load(v, 8, 64)
                if v.__class__ is not int: return None
                out += b'%d' % v
            else: return None
    except (MemErr, IndexError, TypeError): return None
@pattern(r'alloc::fmt::format::format_inner')
def x_format(X, ret, tmpl=0, args=0):
    # literal pieces and plain usize arguments; any other text (error messages) is not modelled: an empty string
    t = _fmt(X, tmpl, args)
    if t:
        p = X.newobj(len(t), 0, 'heap')
        X.wbytes(p, list(t))
        X.store(ret, 8, 64, len(t)); X.store(ret + 8, 8, 64, p); X.store(ret + 16, 8, 64, len(t))
        return
    X.store(ret, 8, 64, 0); X.store(ret + 8, 8, 64, 1); X.store(ret + 16, 8, 64, 0)
@pattern(r'<alloc::string::String as core::clone::Clone>::clone')
def x_sclone(X, ret, s):
    X.store(ret, 8, 64, 0); X.store(ret + 8, 8, 64, 1); X.store(ret + 16, 8, 64, 0)
@pattern(r'core::fmt::|fmt::builders|as core::fmt::(Display|Debug|LowerHex|UpperHex)')
def x_fmt(X, *a): raise Unsupported('formatting')

@extern('bcmp')
def x_bcmp(X, a, b, n):
    n = X.concretize(n, 64)
    r = 1
    for x, y in zip(X.rbytes(a, n), X.rbytes(b, n)): r = and_(r, eq(x, y, 8), 1)
    return terms.zext(not_(r, 1), 1, 32)
@extern('memcmp')
def x_memcmp(X, a, b, n):
    for x, y in zip(X.rbytes(a, X.concretize(n, 64)), X.rbytes(b, n)):
        if X.branch_(ult(x, y, 8)): return 0xffffffff
        if X.branch_(ult(y, x, 8)): return 1
    return 0

# harness calls
def _i(v):
    if v.__class__ is not int: raise Unsupported('symbolic argument to a harness primitive')
    return v
@extern('vp_sym')
def v_sym(X, p, n): X.vp_sym(_i(p), X.concretize(n, 64))
@extern('vp_choose')
def v_choose(X, lo, hi): return X.choose(_i(lo), _i(hi))
@extern('vp_param')
def v_param(X, i): return X.answer_int(X.params.get(i, 0))
@extern('vp_assume')
def v_assume(X, c):
    c = ext(c, 0, 1)
    if X.concrete:
        if not c: raise Infeasible()
        return
    X.vassume(c)
@extern('vp_check')
def v_check(X, c, ident): X.vp_check(c, _i(ident))
@extern('vp_eq')
def v_eq(X, a, b, n, ident): X.vp_eq(a, b, X.concretize(n, 64), _i(ident))
@extern('vp_out')
def v_out(X, p, n): X.vp_out(p, X.concretize(n, 64))
@extern('vp_mark')
def v_mark(X, i): X.marks.append(i)
@extern('vp_decide')
def v_decide(X, c):
    """make a condition concrete (splits the path)"""
    return X.branch_(ext(c, 0, 1))

# ------------------------------------------------------------------ references and uninterpreted parameters
import z3b
from specs import SPECS
CUR = [None]
@extern('vp_arg')
def v_arg(X, p, n):
    X.state.setdefault('args', []).append(X.rbytes(_i(p), X.concretize(n, 64)))
@extern('vp_spec')
def v_spec(X, ident, out, cap):
    args = X.state.pop('args', [])
    CUR[0] = X
    r = SPECS[ident](*args)
    if len(r) > cap: raise Unsupported('reference longer than the buffer')
    X.answer(out, list(r))
    return len(r)

def _feistel(name, x, w, inv):
    """a keyed permutation of w bits for concrete runs"""
    h = w // 2; m = (1 << h) - 1
    l, r = x >> h, x & m
    ks = range(4)
    if not inv:
        for i in ks: l, r = r, l ^ z3b.fhash('f%s%d' % (name, i), r, h)
    else:
        for i in reversed(ks): l, r = r ^ z3b.fhash('f%s%d' % (name, i), l, h), l
    return l << h | r
def declare_perm(name, w):
    e, d = 'E' + name, 'D' + name
    if e in z3b.INV: return
    z3b.INV[e] = d; z3b.INV[d] = e
    def ctor(n, args, w_):
        x = args[-1][0]
        if x.__class__ is not int and x.op == 'uf' and x.a[0] == z3b.INV[n] and x.a[1][:-1] == tuple(args[:-1]): return x.a[1][-1][0]
        return terms.uf(n, args, w_)
    terms.UFCTOR[e] = ctor; terms.UFCTOR[d] = ctor
    z3b.PERMFN[e] = lambda n, args, w_: _feistel(name, args[-1][0], w_, False)
    z3b.PERMFN[d] = lambda n, args, w_: _feistel(name, args[-1][0], w_, True)
def apply_uf(X, name, args, w):
    """args: ((value,width),...)"""
    if X.concrete and all(a.__class__ is int for a, _ in args):
        f = X.ufn or z3b.ufval
        return f(name, tuple(args), w)
    return terms.UFCTOR.get(name, terms.uf)(name, tuple(args), w)
def perm(X, d, key, bs):
    n = len(bs)
    name = '%d_%d' % (key, 8 * n)
    declare_perm(name, 8 * n)
    v = apply_uf(X, ('D' if d else 'E') + name, ((cat([(b, 8) for b in bs]), 8 * n),), 8 * n)
    return [ext(v, 8 * i, 8) for i in range(n)]
@extern('vp_perm')
def v_perm(X, d, key, s, dst, n):
    X.answer(dst, perm(X, d, key, X.rbytes(s, n)))
def uhash(X, ident, bs, m):
    n = len(bs)
    a = ((cat([(b, 8) for b in bs]), 8 * n),) if n else ((0, 1),)
    v = apply_uf(X, 'H%d_%d_%d' % (ident, n, m), a, 8 * m)
    return [ext(v, 8 * i, 8) for i in range(m)]
@extern('vp_hash')
def v_hash(X, ident, s, n, dst, m):
    n = X.concretize(n, 64)
    X.answer(dst, uhash(X, ident, X.rbytes(s, n), m))
