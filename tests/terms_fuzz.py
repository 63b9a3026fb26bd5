"""Differential test of the normalising constructors against direct evaluation."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import terms as t
def run(seed, n):
    R = random.Random(seed)
    env = {}
    pool = {1: [], 8: [], 16: [], 32: [], 64: [], 5: [], 13: []}
    def val(x): return x if type(x) is int else t.evaluate([x], env)[x]
    for w in pool:
        for i in range(4):
            v = t.var('v%d_%d' % (w, i), w); env['v%d_%d' % (w, i)] = R.choice([0, 1, (1 << w) - 1, R.getrandbits(w), R.getrandbits(w)])
            pool[w].append((v, env['v%d_%d' % (w, i)]))
    tb = tuple(R.getrandbits(7) for _ in range(256))
    for it in range(n):
        w = R.choice(list(pool)); m = (1 << w) - 1
        def pick(w):
            if R.random() < .2:
                c = R.choice([0, 1, (1 << w) - 1, R.getrandbits(w), 1 << R.randrange(w), (1 << R.randrange(w)) - 1]); return c, c
            return R.choice(pool[w][-30:] if R.random() < .7 else pool[w])
        (a, va), (b, vb) = pick(w), pick(w)
        op = R.choice(['xor','and','or','add','sub','mul','shlc','lshrc','ashrc','rotl','ext','cat','zext','sext','eq','ult','slt','ule','sle','ite','tbl','not','neg','urem','udiv','shl','lshr','ashr','mulc','rebuild','bswap'])
        rw = w
        sg = lambda x: x - (1 << w) if x >> (w-1) else x
        if op == 'xor': r, v = t.xor(a, b, w), va ^ vb
        elif op == 'and': r, v = t.and_(a, b, w), va & vb
        elif op == 'or': r, v = t.or_(a, b, w), va | vb
        elif op == 'add': r, v = t.add(a, b, w), (va + vb) & m
        elif op == 'sub': r, v = t.sub(a, b, w), (va - vb) & m
        elif op == 'mul': r, v = t.mul(a, b, w), (va * vb) & m
        elif op == 'mulc':
            k = R.choice([3, 8, 5, m]); r, v = t.mulc(a, k, w), va * k & m
        elif op in ('shlc', 'lshrc', 'ashrc', 'rotl'):
            k = R.randrange(w)
            r = getattr(t, op)(a, k, w)
            v = {'shlc': (va << k) & m, 'lshrc': va >> k, 'ashrc': (sg(va) >> k) & m, 'rotl': ((va << k) | (va >> (w - k))) & m}[op]
        elif op == 'ext':
            rw = R.choice([x for x in pool if x <= w]); lo = R.randrange(w - rw + 1)
            r, v = t.ext(a, lo, rw), (va >> lo) & ((1 << rw) - 1)
        elif op == 'cat':
            if w not in (8, 16, 32): continue
            rw = 2 * w; r, v = t.cat([(a, w), (b, w)]), va | vb << w
        elif op in ('zext', 'sext'):
            rw = R.choice([x for x in pool if x >= w]); 
            if rw == w: continue
            r = getattr(t, op)(a, w, rw); v = va if op == 'zext' else sg(va) & ((1 << rw) - 1)
        elif op in ('eq', 'ult', 'slt', 'ule', 'sle'):
            rw = 1; r = getattr(t, op)(a, b, w)
            v = int({'eq': va == vb, 'ult': va < vb, 'slt': sg(va) < sg(vb), 'ule': va <= vb, 'sle': sg(va) <= sg(vb)}[op])
        elif op == 'ite':
            c, vc = pick(1); r, v = t.ite(c, a, b, w), va if vc else vb
        elif op == 'tbl':
            i, vi = pick(8); rw = 8; r, v = t.lookup(tb, i, 8, 8), tb[vi]
        elif op == 'not': r, v = t.not_(a, w), va ^ m
        elif op == 'neg': r, v = t.neg(a, w), -va & m
        elif op in ('urem', 'udiv'):
            k = R.choice([3, 8, 10, 1]) & m
            if not k: continue
            r = getattr(t, op)(a, k, w); v = va % k if op == 'urem' else va // k
        elif op in ('shl', 'lshr', 'ashr'):
            k, vk = pick(w)
            if vk >= w: continue
            r = getattr(t, op)(a, k, w); v = {'shl': (va << vk) & m, 'lshr': va >> vk, 'ashr': (sg(va) >> vk) & m}[op]
        elif op == 'rebuild':
            if type(a) is int: continue
            r, v = t.rebuild(a, lambda x: x), va
        elif op == 'bswap':
            if w not in (16, 32, 64): continue
            r, v = t.bswap(a, w), int.from_bytes(va.to_bytes(w // 8, 'little'), 'big')
        if type(r) is not int: assert r.w == rw, (op, r.w, rw, r)
        got = val(r)
        assert got == v, (op, w, a, b, r, hex(got), hex(v))
        assert t.ub(r) >= v, ('ub', op, r, t.ub(r), v)
        if type(r) is not int and len(t.cone([r])) < 400: pool[rw].append((r, v))
if __name__ == '__main__':
    for s in range(int(sys.argv[1]) if len(sys.argv) > 1 else 60):
        t.reset(); t.NARROW = bool(s & 1)
        run(s, 800)
    print('ok')
