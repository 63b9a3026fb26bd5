"""Symbolic executor for the LLVM IR of the harness + crate.

IR functions are translated to Python functions on first call; integers stay Python ints as
long as they are concrete and become terms (terms.T) when they depend on symbolic input.
"""
import re, time
import ir, terms
from terms import T

BASE = 0x10000
M64 = (1 << 64) - 1

class PathEnd(Exception): pass
class Panic(PathEnd):
    def __init__(s, what): s.what = what
class MemErr(PathEnd):
    def __init__(s, what): s.what = what
class Infeasible(PathEnd): pass
class Unsupported(Exception): pass
class Limit(Exception): pass
class Stop(PathEnd): pass
class MergeAbort(Exception): pass

class Obj:
    __slots__ = ('id', 'size', 'c', 'ro', 'name', 'meta', 'align')
    def __init__(s, id, size, c, ro=False, name=''):
        s.id = id; s.size = size; s.c = c; s.ro = ro; s.name = name; s.meta = None

# ------------------------------------------------------------------ code generation
class Program:
    def __init__(self, modules):
        self.m = ir.Module()
        for f in modules: ir.parse_module(f, self.m)
        m = self.m
        self.ns = {'T': T, 'terms': terms}
        for n in ('add','sub','mul','xor','and_','or_','shl','lshr','ashr','udiv','urem','sdiv','srem','eq','ult','slt','ite','ext','zext','sext','rotl','bswap','cat'):
            self.ns['t_' + n] = getattr(terms, n)
        self.ns['sdivi'] = terms.sdiv
        self.ns['MERGE_ABORT'] = (MergeAbort, Panic, MemErr, Infeasible, Unsupported)
        self.fid = {}; self.fname = []; self.faddr = {}
        self.globs = {}; self.gobj = {}      # name -> address ; id -> Obj prototype
        self.nextid = 1
        self.externs = {}
        self.executed = set()
        self.isconst = {}
        self.instr_count = {}

    def resolve(self, name):
        return self.m.aliases.get(name, name)

    def func_addr(self, name):
        name = self.resolve(name)
        a = self.faddr.get(name)
        if a is None:
            a = (1 << 60) + 16 * (len(self.fname) + 1)
            self.faddr[name] = a; self.fname.append(name)
        return a

    def glob_addr(self, name):
        name = self.resolve(name)
        if name in self.globs: return self.globs[name]
        if name in self.m.funcs or name in self.m.decls: return self.func_addr(name)
        t, v, const = ir.parse_global(self.m, name)
        o = Obj(self.nextid, t.size, [0] * t.size, ro=bool(const), name=name)
        self.nextid += 1
        a = (o.id << 32) + BASE
        self.globs[name] = a; self.gobj[o.id] = o
        if v is None: raise Unsupported('external global ' + name)
        self.put_const(o.c, 0, t, v)
        return a

    def put_const(self, c, off, t, v):
        if v == ('undef',) : return
        if v == ('zero',): return
        if t.k in ('st', 'pst'):
            for et, eo, ev in zip(t.e, t.offs, v[1]): self.put_const(c, off + eo, et, ev)
        elif t.k in ('arr', 'vec'):
            if v[0] == 'bytes': c[off:off + len(v[1])] = list(v[1])
            else:
                for i, ev in enumerate(v[1]): self.put_const(c, off + i * t.e.size, t.e, ev)
        else:
            x = self.const_int(t, v)
            c[off:off + t.size] = list(x.to_bytes(t.size, 'little'))

    def const_int(self, t, v):
        if type(v) is int: return v
        k = v[0]
        if k == 'glob': return self.glob_addr(v[1])
        if k in ('undef', 'zero'): return 0
        if k == 'gep':
            a = self.const_int(ir.PTR, v[2])
            ty = v[1]
            for n, (it, iv) in enumerate(v[3]):
                i = self.const_int(it, iv)
                i = i - (1 << it.n) if i >> (it.n - 1) else i
                if n == 0: a += i * ty.size
                elif ty.k in ('st', 'pst'): a += ty.offs[i]; ty = ty.e[i]
                else: ty = ty.e; a += i * ty.size
            return a & M64
        if k == 'cast':
            x = self.const_int(v[2], v[3])
            if v[4].k == 'i': x &= (1 << v[4].n) - 1
            return x
        if k == 'bin':
            a = self.const_int(v[2], v[3]); b = self.const_int(v[2], v[4])
            m = (1 << v[2].n) - 1
            return {'add': a + b, 'sub': a - b, 'xor': a ^ b, 'mul': a * b}[v[1]] & m
        raise Unsupported('const %r' % (v,))

    def pyname(self, name):
        i = self.fid.get(name)
        if i is None:
            i = self.fid[name] = 'f%d' % len(self.fid)
            self.ns[i] = self._lazy(name, i)
        return i

    def _lazy(self, name, i):
        def stub(X, *args):
            f = self.compile(name)
            self.ns[i] = f
            return f(X, *args)
        return stub

    def compile(self, name):
        fn = self.m.funcs.get(name)
        ext = self.find_extern(name)
        if ext is not None: return ext
        if fn is None:
            path = self.m.paths.get(name, name)
            def missing(X, *a): raise Unsupported('call to external ' + path)
            return missing
        self.executed.add(fn.path or name)
        src = Gen(self, fn).generate()
        code = compile(src, '<ir:%s>' % (fn.path or name), 'exec')
        loc = {}
        exec(code, self.ns, loc)
        return loc['F']

    def find_extern(self, name):
        path = self.m.paths.get(name, name)
        for key in (name, path):
            h = self.externs.get(key)
            if h is not None: return h
        for pat, h in self.extern_patterns:
            if pat.search(path): return h(path) if getattr(h, 'factory', False) else h
        return None
    extern_patterns = []

    def call_addr(self, X, addr, args):
        if type(addr) is not int:
            raise Unsupported('symbolic call target')
        i = (addr - (1 << 60)) // 16 - 1
        if i < 0 or i >= len(self.fname): raise MemErr('call through bad pointer %x' % addr)
        return self.ns[self.pyname(self.fname[i])](X, *args)

class Gen:
    def __init__(self, prog, fn):
        self.p = prog; self.fn = fn; self.v = {}; self.out = []
    def loc(self, n):
        x = self.v.get(n)
        if x is None: x = self.v[n] = 'v%d' % len(self.v)
        return x
    def val(self, v, t):
        """python expression of an operand"""
        if type(v) is int: return str(v)
        k = v[0]
        if k == 'loc': return self.loc(v[1])
        if t.k in ('i', 'ptr'):
            return str(self.p.const_int(t, v))
        if t.k == 'vec' or t.k == 'arr':
            if k in ('undef', 'zero'): return '(' + ''.join(self.val(0 if k == 'zero' else ('undef',), t.e) + ',' for _ in range(t.n)) + ')'
            if k == 'bytes': return repr(tuple(v[1]))
            return '(' + ''.join(self.val(x, t.e) + ',' for x in v[1]) + ')'
        if t.k in ('st', 'pst'):
            if k in ('undef', 'zero'): return '(' + ''.join(self.val(v, e) + ',' for e in t.e) + ')'
            return '(' + ''.join(self.val(x, e) + ',' for x, e in zip(v[1], t.e)) + ')'
        if t.k == 'float': return '0'
        raise Unsupported('operand %r %r' % (v, t))
    def isint(self, e):
        return e.lstrip('-').isdigit()
    def chk(self, *es):
        c = [e + '.__class__ is int' for e in es if not self.isint(e)]
        return ' and '.join(c) if c else 'True'
    def binop(self, op, a, b, w):
        m = (1 << w) - 1
        c = self.chk(a, b)
        if op == 'add': return f'({a}+{b})&{m} if {c} else t_add({a},{b},{w})'
        if op == 'sub': return f'({a}-{b})&{m} if {c} else t_sub({a},{b},{w})'
        if op == 'mul': return f'({a}*{b})&{m} if {c} else t_mul({a},{b},{w})'
        if op == 'and': return f'{a}&{b} if {c} else t_and_({a},{b},{w})'
        if op == 'or': return f'{a}|{b} if {c} else t_or_({a},{b},{w})'
        if op == 'xor': return f'{a}^{b} if {c} else t_xor({a},{b},{w})'
        if op == 'shl': return f'({a}<<{b})&{m} if {c} and {b}<{w} else X.shift("shl",{a},{b},{w})'
        if op == 'lshr': return f'{a}>>{b} if {c} and {b}<{w} else X.shift("lshr",{a},{b},{w})'
        if op == 'ashr': return f'X.shift("ashr",{a},{b},{w})'
        if op in ('udiv', 'urem', 'sdiv', 'srem'): return f'X.div("{op}",{a},{b},{w})'
        raise Unsupported(op)
    def icmp(self, pred, a, b, w):
        c = self.chk(a, b)
        h = 1 << (w - 1)
        t = {'eq': (f'{a}=={b}', f't_eq({a},{b},{w})', 0), 'ne': (f'{a}!={b}', f't_eq({a},{b},{w})', 1),
             'ult': (f'{a}<{b}', f't_ult({a},{b},{w})', 0), 'uge': (f'{a}>={b}', f't_ult({a},{b},{w})', 1),
             'ugt': (f'{a}>{b}', f't_ult({b},{a},{w})', 0), 'ule': (f'{a}<={b}', f't_ult({b},{a},{w})', 1),
             'slt': (f'({a}^{h})<({b}^{h})', f't_slt({a},{b},{w})', 0), 'sge': (f'({a}^{h})>=({b}^{h})', f't_slt({a},{b},{w})', 1),
             'sgt': (f'({a}^{h})>({b}^{h})', f't_slt({b},{a},{w})', 0), 'sle': (f'({a}^{h})<=({b}^{h})', f't_slt({b},{a},{w})', 1)}[pred]
        s = t[1] if not t[2] else f't_xor({t[1]},1,1)'
        return f'(1 if {t[0]} else 0) if {c} else {s}'
    def wid(self, t): return 64 if t.k == 'ptr' else t.n

    def generate(self):
        fn = self.fn
        blocks = fn.blocks or ir.parse_blocks(fn)
        self.bi = {l: i for i, (l, _) in enumerate(blocks)}
        phis = {}
        for l, ins in blocks:
            phis[l] = [x for x in ins if x.op == 'phi']
        self.phis = phis
        params = []
        for i, (t, n) in enumerate(fn.params):
            params.append(self.loc(n if n else '%%%d' % i))
        self.blocks = blocks
        self.body = dict(blocks)
        self.plan()
        self.allocas = any(x.op == 'alloca' for _, ins in blocks for x in ins)
        bodies = []
        for bi, (l, ins) in enumerate(blocks):
            self.out = []
            self.curlabel = l
            n = 0
            for x in ins:
                if x.op == 'phi': continue
                n += 1
                self.emit(x)
            lines = ['X.steps += %d' % n] + self.out
            if bi and len(ins) > 0: pass
            bodies.append(lines)
        fn.ninstr = sum(len(i) for _, i in blocks)
        L = ['def F(X,%s):' % ','.join(params)]
        if self.allocas: L.append(' _al=[]')
        L.append(' bb=0')
        if self.allocas:
            L.append(' try:')
            ind0 = 2
        else:
            ind0 = 1
        L.append(' ' * ind0 + 'while True:')
        L.append(' ' * (ind0 + 1) + 'if X.steps > X.limit: X.overlimit()')
        def tree(lo, hi, ind):
            if hi - lo == 1:
                for s in bodies[lo]: L.append(' ' * ind + s)
                return
            mid = (lo + hi) // 2
            L.append(' ' * ind + 'if bb<%d:' % mid)
            tree(lo, mid, ind + 1)
            L.append(' ' * ind + 'else:')
            tree(mid, hi, ind + 1)
        tree(0, len(bodies), ind0 + 1)
        if self.allocas:
            L.append(' finally:')
            L.append('  for _o in _al: X.objs.pop(_o,None)')
        return '\n'.join(L) + '\n'

    def jump(self, target):
        """statements (list) to jump"""
        ph = self.phis[target]
        s = []
        if ph:
            lhs = []; rhs = []
            for x in ph:
                for v, l in x.a:
                    if l == self.curlabel:
                        lhs.append(self.loc(x.dst)); rhs.append(self.val(v, x.ty)); break
                else:
                    raise Unsupported('phi without incoming')
            s.append(','.join(lhs) + ' = ' + ','.join(rhs))
        s.append('bb=%d' % self.bi[target])
        s.append('continue')
        return s

    def lanes(self, x, a, n):
        return [f'{a}[{i}]' for i in range(n)]

    def emit(self, x):
        o = self.out
        op = x.op
        d = self.loc(x.dst) if x.dst else None
        if op in ir.BIN:
            a, b = self.val(x.a[0], x.ty), self.val(x.a[1], x.ty)
            if x.ty.k == 'vec':
                w = x.ty.e.n
                o.append('_a=%s;_b=%s' % (a, b))
                o.append(f'{d} = tuple([' + ','.join(self.binop(op, f'_a[{i}]', f'_b[{i}]', w) for i in range(x.ty.n)) + '])')
            else:
                o.append(f'{d} = ' + self.binop(op, a, b, self.wid(x.ty)))
        elif op == 'icmp':
            a, b = self.val(x.a[0], x.ty), self.val(x.a[1], x.ty)
            if x.ty.k == 'vec':
                w = self.wid(x.ty.e)
                o.append('_a=%s;_b=%s' % (a, b))
                o.append(f'{d} = tuple([' + ','.join(self.icmp(x.x, f'_a[{i}]', f'_b[{i}]', w) for i in range(x.ty.n)) + '])')
            else:
                o.append(f'{d} = ' + self.icmp(x.x, a, b, self.wid(x.ty)))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr'):
            a = self.val(x.a[0], x.x)
            if x.ty.k == 'vec':
                w1, w2 = x.x.e.n, x.ty.e.n
                o.append('_a=%s' % a)
                if op == 'trunc': f = lambda s: f'terms.trunc({s},{w2})'
                else: f = lambda s: f't_{op}({s},{w1},{w2})'
                o.append(f'{d} = tuple([' + ','.join(f(f'_a[{i}]') for i in range(x.ty.n)) + '])')
                return
            w1, w2 = self.wid(x.x), self.wid(x.ty)
            if w1 == w2: o.append(f'{d} = {a}')
            elif op == 'sext': o.append(f'{d} = t_sext({a},{w1},{w2})')
            elif w2 < w1: o.append(f'{d} = {a}&{(1 << w2) - 1} if {self.chk(a)} else t_ext({a},0,{w2})')
            else: o.append(f'{d} = {a} if {self.chk(a)} else t_zext({a},{w1},{w2})')
        elif op == 'bitcast':
            a = self.val(x.a[0], x.x)
            f, t = x.x, x.ty
            if f.k != 'vec' and t.k != 'vec': o.append(f'{d} = {a}'); return
            fw = [f.e.n] * f.n if f.k == 'vec' else [self.wid(f)]
            tw = [t.e.n] * t.n if t.k == 'vec' else [self.wid(t)]
            src = f'{a}' if f.k == 'vec' else f'({a},)'
            e = f'X.bitcast({src},{fw[0]},{tw[0]},{len(tw)})'
            o.append(f'{d} = {e}' + ('' if t.k == 'vec' else '[0]'))
        elif op == 'freeze':
            o.append(f'{d} = ' + self.val(x.a[0], x.ty))
        elif op == 'load':
            a = self.val(x.a[0], ir.PTR)
            o.append(f'{d} = ' + self.load(x.ty, a))
        elif op == 'store':
            v = self.val(x.a[0], x.ty); a = self.val(x.a[1], ir.PTR)
            self.store(x.ty, v, a)
        elif op == 'gep':
            self.gep(d, x)
        elif op == 'br':
            o.extend(self.jump(x.a[0]))
        elif op == 'cbr':
            c = self.val(x.a[0], ir.ity(1))
            o.append(f'_c={c}')
            reg = self.region(self.curlabel)
            if reg is not None:
                o.append('if _c.__class__ is not int:')
                o.append(' if X.merge and X.trymerge(_c):')
                o.append('  try:')
                o.extend('   ' + s for s in self.predicated(self.curlabel, *reg))
                o.append('   X.endmerge(True)')
                o.append('   bb=%d' % self.bi[reg[1]])
                o.append('   continue')
                o.append('  except MERGE_ABORT: X.endmerge(False)')
                o.append(' _c=X.branch(_c)')
            else: o.append('if _c.__class__ is not int: _c=X.branch(_c)')
            o.append('if _c:')
            o.extend(' ' + s for s in self.jump(x.a[1]))
            o.append('else:')
            o.extend(' ' + s for s in self.jump(x.a[2]))
        elif op == 'switch':
            c = self.val(x.a[0], x.ty)
            w = x.ty.n
            o.append(f'_c={c}')
            o.append(f'if _c.__class__ is not int: _c=X.switch(_c,{w},{tuple(v for v, _ in x.a[2])})')
            first = True
            for v, l in x.a[2]:
                o.append(('if' if first else 'elif') + f' _c=={v}:')
                first = False
                o.extend(' ' + s for s in self.jump(l))
            if first: o.extend(self.jump(x.a[1]))
            else:
                o.append('else:')
                o.extend(' ' + s for s in self.jump(x.a[1]))
        elif op == 'ret':
            o.append('return ' + (self.val(x.a[0], x.ty) if x.a else 'None'))
        elif op == 'unreachable':
            o.append('X.unreachable(%r)' % (self.fn.path or self.fn.name))
        elif op == 'select':
            c = self.val(x.a[0], x.x); a = self.val(x.a[1], x.ty); b = self.val(x.a[2], x.ty)
            if x.x.k == 'vec':
                o.append('_c=%s;_a=%s;_b=%s' % (c, a, b))
                o.append(f'{d} = tuple([' + ','.join(f't_ite(_c[{i}],_a[{i}],_b[{i}],{self.wid(x.ty.e)})' for i in range(x.ty.n)) + '])')
            elif x.ty.k == 'i':
                o.append(f'{d} = ({a} if {c} else {b}) if {self.chk(c)} else t_ite({c},{a},{b},{x.ty.n})')
            else:
                o.append(f'_c={c}')
                o.append('if _c.__class__ is not int: _c=X.branch(_c)')
                o.append(f'{d} = {a} if _c else {b}')
        elif op == 'extractvalue':
            a = self.val(x.a[0], x.ty)
            o.append(f'{d} = {a}' + ''.join(f'[{i}]' for i in x.x))
        elif op == 'insertvalue':
            a = self.val(x.a[0], x.ty)
            t = x.ty
            for i in x.x: t = t.e[i] if t.k in ('st', 'pst') else t.e
            b = self.val(x.a[1], t)
            o.append(f'{d} = X.insertvalue({a},{b},{tuple(x.x)})')
        elif op == 'alloca':
            o.append(f'{d} = X.alloca({x.ty.size},_al)')
        elif op == 'shuffle':
            a = self.val(x.a[0], x.ty); b = self.val(x.a[1], x.ty); mk = self.val(x.a[2], x.x)
            o.append(f'_a={a};_b={b};_s=_a+_b')
            o.append(f'{d} = tuple([_s[_i] for _i in {mk}])')
        elif op == 'extractelement':
            a = self.val(x.a[0], x.ty); b = self.val(x.a[1], ir.ity(64))
            o.append(f'{d} = {a}[{b}]')
        elif op == 'insertelement':
            a = self.val(x.a[0], x.ty); b = self.val(x.a[1], x.ty.e); c = self.val(x.a[2], ir.ity(64))
            o.append(f'_l=list({a}); _l[{c}]={b}; {d}=tuple(_l)')
        elif op == 'call':
            self.call(d, x)
        elif op == 'nop':
            o.append('pass')
        elif op == 'unsupported':
            o.append('X.unsupported(%r)' % x.x)
        else:
            o.append('X.unsupported(%r)' % op)

    # ---- state merging: a small acyclic region between a branch and the point where its arms meet again
    #      is executed once with a predicate per block
    def succs(self, l):
        t = self.body[l][-1]
        if t.op == 'br': return [t.a[0]]
        if t.op == 'cbr': return [t.a[1], t.a[2]]
        if t.op == 'switch': return [t.a[1]] + [y for _, y in t.a[2]]
        return []
    def plan(self):
        cold = {l for l, ins in self.blocks if ins[-1].op == 'unreachable'}
        ch = True
        while ch:
            ch = False
            for l, _ in self.blocks:
                if l not in cold:
                    ss = self.succs(l)
                    if ss and all(s in cold for s in ss): cold.add(l); ch = True
        self.cold = cold
    def region(self, h):
        """(blocks in topological order, meeting point) or None"""
        t = self.body[h][-1]
        if t.a[1] in self.cold or t.a[2] in self.cold or t.a[1] == t.a[2]: return None
        for p in self.meets(h):
            r = self.between(h, p)
            if r is not None: return r, p
        return None
    def meets(self, h):
        """candidates for the meeting point, nearest first"""
        def reach(s):
            out = [s]
            for l in out:
                if l == h: continue
                for n in self.succs(l):
                    if n not in out and n not in self.cold and len(out) < 14: out.append(n)
            return out
        t = self.body[h][-1]
        a, b = reach(t.a[1]), reach(t.a[2])
        return [l for l in a if l in b and l != h][:4]
    def between(self, h, p):
        order = []; state = {}
        def dfs(l):
            if l == p: return True
            if l == h or state.get(l) == 1 or l in self.cold: return False
            if state.get(l) == 2: return True
            if len(state) > 10: return False
            state[l] = 1
            ss = self.succs(l)
            if not ss or self.body[l][-1].op not in ('br', 'cbr'): return False
            for s in ss:
                if s in self.cold: continue
                if not dfs(s): return False
            state[l] = 2; order.append(l)
            return True
        t = self.body[h][-1]
        if not (dfs(t.a[1]) and dfs(t.a[2])): return None
        order.reverse()
        # blocks of the region are entered from the region only
        ins = set(order) | {h}
        for l, _ in self.blocks:
            if l not in ins and any(s in order for s in self.succs(l)): return None
        if any(x.ty is None or x.ty.k not in ('i', 'ptr') for l in order + [p] for x in self.phis[l]): return None
        return order
    PURE = {'icmp', 'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'load', 'store', 'gep', 'phi', 'extractvalue', 'insertvalue', 'nop', 'select'}
    def pure(self, l):
        ins = self.body[l]
        if len(ins) > 60: return False
        for x in ins[:-1]:
            if x.op in self.PURE: 
                if x.op in ('load', 'store') and x.ty.k not in ('i', 'ptr'): return False
                continue
            if x.op in ir.BIN:
                if x.op in ('udiv', 'sdiv', 'urem', 'srem') and type(x.a[1]) is not int: return False
                continue
            if x.op == 'call':
                c = x.a[0]
                if c[0] == 'glob':
                    n = self.p.resolve(c[1])
                    if n.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.bswap', 'llvm.fsh', 'llvm.umin', 'llvm.umax', 'llvm.uadd.', 'llvm.usub.', 'llvm.umul.')): continue
            return False
        return True
    def predicated(self, h, order, p):
        save = self.out, self.curlabel
        O = []
        edges = {}          # (from, to) -> python expression of the predicate
        def term(l, q):
            t = self.body[l][-1]
            if t.op == 'br': edges.setdefault(t.a[0], []).append((l, q)); return []
            if t.op == 'cbr' and l != h:
                c = self.val(t.a[0], ir.ity(1))
            else: c = '_mc'
            i = self.bi[l]
            out = [f'e{i}t=t_and_({q},{c},1); e{i}f=t_and_({q},t_xor({c},1,1),1)']
            for s, n in ((t.a[1], f'e{i}t'), (t.a[2], f'e{i}f')):
                if s in self.cold: out.append(f'X.mustbe0({n})')
                else: edges.setdefault(s, []).append((l, n))
            return out
        O.append('_mc=_c')
        O += term(h, '1')
        def phis(l):
            out = []; lhs = []; rhs = []
            for x in self.phis[l]:
                items = []
                for frm, e in edges.get(l, []):
                    for v, lab in x.a:
                        if lab == frm:
                            items.append(f'({e},{self.val(v, x.ty)} if {e}.__class__ is not int or {e} else None),'); break
                lhs.append(self.loc(x.dst)); rhs.append(f'X.mphi(({"".join(items)}),{self.wid(x.ty)},{int(x.ty.k == "ptr")})')
            if lhs: out.append(','.join(lhs) + ' = ' + ','.join(rhs) if len(lhs) > 1 else lhs[0] + ' = ' + rhs[0])
            return out
        for l in order:
            i = self.bi[l]
            es = edges.get(l, [])
            q = f'q{i}'
            O.append(f'{q}=X.mor(({"".join(e + "," for _, e in es)}))')
            # a block that cannot be reached is skipped, its edges are impossible
            t = self.body[l][-1]
            if t.op == 'cbr': O.append(f'e{i}t=e{i}f=0')
            O.append(f'if {q}.__class__ is not int or {q}:')
            inner = phis(l)
            # all arms lead here: the meeting point of this execution
            inner.append(f'if {q}.__class__ is int: X.endmerge(True); bb={i}; continue')
            self.curlabel = l
            n = 0
            if not self.pure(l):
                inner.append('X.mustbe0(1)')
                inner += term(l, q)
                O += [' ' + s for s in inner]
                continue
            for x in self.body[l][:-1]:
                if x.op == 'phi': continue
                n += 1
                self.out = []
                if x.op == 'load': self.out.append(f'{self.loc(x.dst)} = X.mload({self.val(x.a[0], ir.PTR)},{x.ty.size},{self.wid(x.ty)})')
                elif x.op == 'store': self.out.append(f'X.mstore({q},{self.val(x.a[1], ir.PTR)},{x.ty.size},{self.wid(x.ty)},{self.val(x.a[0], x.ty)})')
                else: self.emit(x)
                inner += self.out
            inner += term(l, q)
            inner.append('X.steps += %d' % n)
            O += [' ' + s for s in inner]
        O += phis(p)
        self.out, self.curlabel = save
        return O

    def load(self, t, a):
        if t.k in ('i', 'ptr'):
            w = self.wid(t)
            return f'X.load({a},{t.size},{w})'
        if t.k in ('vec', 'arr'):
            return 'tuple([' + ','.join(self.load(t.e, f'{a}+{i * t.e.size}') for i in range(t.n)) + '])'
        if t.k in ('st', 'pst'):
            return 'tuple([' + ','.join(self.load(e, f'{a}+{off}') for e, off in zip(t.e, t.offs)) + '])'
        return f'X.unsupported("load float")'
    def store(self, t, v, a):
        if t.k in ('i', 'ptr'):
            self.out.append(f'X.store({a},{t.size},{self.wid(t)},{v})')
        elif t.k in ('vec', 'arr'):
            self.out.append(f'_v={v}')
            for i in range(t.n): self.out.append(f'X.store({a}+{i * t.e.size},{t.e.size},{self.wid(t.e)},_v[{i}])')
        elif t.k in ('st', 'pst'):
            self.out.append(f'_v={v}')
            for i, (e, off) in enumerate(zip(t.e, t.offs)):
                self.out.append(f'X.store({a}+{off},{e.size},{self.wid(e)},_v[{i}])')
        else: self.out.append('X.unsupported("store float")')
    def gep(self, d, x):
        o = self.out
        b = self.val(x.a[0], ir.PTR)
        ty = x.ty; const = 0; parts = []
        for n, (it, iv) in enumerate(x.a[1]):
            if n == 0: sz = ty.size
            elif ty.k in ('st', 'pst'):
                const += ty.offs[iv]; ty = ty.e[iv]; continue
            else:
                ty = ty.e; sz = ty.size
            if type(iv) is int:
                i = iv - (1 << it.n) if iv >> (it.n - 1) else iv
                const += i * sz
            else:
                parts.append((self.val(iv, it), it.n, sz))
        const &= M64
        if not parts:
            if const == 0: o.append(f'{d} = {b}')
            else: o.append(f'{d} = ({b}+{const})&{M64} if {self.chk(b)} else t_add({b},{const},64)')
            return
        ps = [p for p, _, _ in parts]
        if all(w == 64 for _, w, _ in parts):
            e = '+'.join([b] + [f'{p}*{sz}' if sz != 1 else p for p, _, sz in parts] + ([str(const)] if const else []))
            o.append(f'if {self.chk(b, *ps)}: {d} = ({e})&{M64}')
            o.append('else:')
        else:
            o.append('if 1:')
        o.append(f' {d} = t_add({b},{const},64)')
        for p, w, sz in parts:
            q = p if w == 64 else f't_sext({p},{w},64)'
            o.append(f' {d} = t_add({d}, terms.mulc({q},{sz},64),64)')

    def call(self, d, x):
        callee, args = x.a
        o = self.out
        pre = f'{d} = ' if d else ''
        av = []
        for t, v in args:
            av.append('0' if t.k == 'meta' else self.val(v, t))
        if callee[0] == 'glob':
            n = self.p.resolve(callee[1])
            if n.startswith('llvm.'):
                self.intrinsic(d, n, args, av, x); return
            f = self.p.pyname(n)
            o.append(f'{pre}{f}(X,{",".join(av)})')
        elif callee[0] == 'loc':
            o.append(f'{pre}X.prog.call_addr(X,{self.loc(callee[1])},({"".join(a + "," for a in av)}))')
        else:
            o.append('X.unsupported("inline asm or odd callee")')

    def intrinsic(self, d, n, args, av, x):
        o = self.out
        b = n[5:]
        if b.startswith(('lifetime', 'experimental.noalias', 'dbg', 'donothing', 'prefetch', 'invariant')):
            o.append('pass'); return
        if b.startswith('assume'):
            o.append(f'X.assume({av[0]})'); return
        if b.startswith('memcpy') or b.startswith('memmove'):
            o.append(f'X.memcpy({av[0]},{av[1]},{av[2]},{int(b.startswith("memcpy"))})'); return
        if b.startswith('memset'):
            o.append(f'X.memset({av[0]},{av[1]},{av[2]})'); return
        if b == 'trap':
            o.append('X.trap()'); return
        m = re.match(r'(.*?)\.(v\d+)?i(\d+)$', b)
        if m and m.group(2) is None:
            k, w = m.group(1), int(m.group(3))
            mask = (1 << w) - 1
            if k in ('fshl', 'fshr'):
                o.append(f'{d} = X.fsh("{k}",{av[0]},{av[1]},{av[2]},{w})'); return
            if k == 'bswap': o.append(f'{d} = t_bswap({av[0]},{w})'); return
            if k in ('umax', 'umin', 'smax', 'smin', 'abs', 'ctpop', 'cttz', 'ctlz', 'bitreverse', 'usub.sat', 'uadd.sat', 'uadd.with.overflow', 'usub.with.overflow', 'umul.with.overflow', 'sadd.with.overflow', 'ssub.with.overflow', 'smul.with.overflow', 'ucmp', 'scmp', 'expect'):
                o.append(f'{d} = X.intr("{k}",({"".join(a + "," for a in av)}),{w})'); return
        if m and m.group(2) is not None:
            k = m.group(1); lanes = int(m.group(2)[1:]); w = int(m.group(3))
            if k in ('fshl', 'fshr'):
                o.append(f'{d} = tuple([X.fsh("{k}",_x,_y,_z,{w}) for _x,_y,_z in zip({av[0]},{av[1]},{av[2]})])'); return
            if k == 'bswap':
                o.append(f'{d} = tuple([t_bswap(_x,{w}) for _x in {av[0]}])'); return
            if k in ('umax', 'umin', 'smax', 'smin', 'ctpop'):
                o.append(f'{d} = tuple([X.intr("{k}",_x,{w}) for _x in zip({",".join(av[:2 if k != "ctpop" else 1])})])'); return
        if b.startswith('ucmp') or b.startswith('scmp'):
            w = self.wid(args[0][0]); rw = x.ty.n
            o.append(f'{d} = X.cmp3("{b[:4]}",{av[0]},{av[1]},{w},{rw})'); return
        if b.startswith('x86.aesni.'):
            o.append(f'{d} = X.aesni("{b[10:]}",({"".join(a + "," for a in av)}))'); return
        if b.startswith('threadlocal.address'):
            o.append(f'{d} = {av[0]}'); return
        o.append('X.unsupported("intrinsic %s")' % n)
