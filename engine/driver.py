"""Explore the jobs of a property with worker processes, decide goals, replay counterexamples, write evidence."""
import os, sys, time, json, subprocess, resource, traceback, random, signal
import multiprocessing as mp
from multiprocessing.connection import wait
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms, symex, machine, z3b, build, bn
import specs.hashes, specs.blocks, specs.zuc, specs.rsa, specs.dsa, specs.ec
from symex import Panic, MemErr, Infeasible, Unsupported, Limit, Stop

VERIF = build.VERIF
class Job:
    def __init__(self, name, harness, params=None, timeout=120, xorcap=None, feas=60, conc=2, expect_panic=None, prefix=(), mode=None, slice_s=2.0, merge=False, kind='std', retry=0, small=0, opaque=False, limbs=False):
        self.small = small; self.opaque = opaque; self.limbs = limbs
        self.name = name; self.harness = harness; self.params = params or {}
        self.timeout = timeout; self.xorcap = xorcap; self.feas = feas; self.conc = conc
        self.expect_panic = expect_panic; self.prefix = prefix; self.mode = mode; self.slice_s = slice_s; self.merge = merge
        self.kind = kind; self.retry = retry

def load(d):
    p = symex.Program([f for f in (os.path.join(d, n + '.ll') for n in ('vharness', 'rcrypto', 'rmath')) if os.path.exists(f)])
    p.externs = machine.EXT; p.extern_patterns = machine.PATTERNS
    return p

def run_path(prog, solver, job, prefix, inputs=None, ufn=None):
    """returns (X, end) ; end in done/panic/mem/infeasible"""
    x = machine.X(prog, solver, prefix=prefix, inputs=inputs, ufn=ufn, jobparams=job.params)
    x.objs = dict(prog.gobj)
    x.job = job; x.merge = job.merge
    try:
        prog.ns[prog.pyname(job.harness)](x)
        end = ('done', '')
    except Panic as e: end = ('panic', e.what)
    except MemErr as e: end = ('mem', e.what)
    except Infeasible: end = ('infeasible', '')
    except Stop: end = ('done', '')
    return x, end

def inputs_from(x, env):
    out = []
    for n, k in x.symnames:
        if n == 'C': out.append(k)
        elif n in x.words: out.append((env.v.get('%s_w' % n, 0) & 0xffffffff).to_bytes(4, 'little'))
        else: out.append(bytes(env.v.get('%s_%d' % (n, i), 0) for i in range(k)))
    return out

def model_of(x, solver, pc=None):
    pc = x.pc if pc is None else pc
    cs = [c for c in pc if c.__class__ is not int]
    if not cs: return z3b.Env()
    if solver is not None and solver.sim is not None and not terms.LIN:
        i = z3b.witness(cs, solver.sim)
        if i is not None: return z3b.pattern_env(cs, solver.sim, i)
    r, m = z3b.check(cs, 120, need_model=True)
    if r != 'sat': return None
    return z3b.Env(m, roots=cs)

class RandEnv(z3b.Env):
    """variables not constrained by the path take random values"""
    def __init__(self, base, seed):
        self.v = _D(base.v, seed); self.f = base.f
class _D(dict):
    def __init__(self, v, seed): super().__init__(v); self.r = random.Random(seed)
    def get(self, k, d=0):
        if k not in self: self[k] = self.r.getrandbits(32 if k.endswith('_w') else 8)
        return self[k]

def explore(prog, solver, job, prefix, until, sweepc, npaths0, seed):
    stack = [prefix]
    res = dict(paths=0, steps=0, goals=0, forks=0, ends={}, viol=[], samples=[], infeasible=0, pairs=0, undef=0)
    while stack and (time.time() < until or res['paths'] + res['infeasible'] == 0):
        p = stack.pop()
        x, end = run_path(prog, solver, job, p)
        stack.extend(x.pending)
        res['steps'] += x.steps; res['forks'] += x.nforks
        if end[0] == 'infeasible':
            res['infeasible'] += 1; continue
        res['paths'] += 1
        res['undef'] = max(res['undef'], x.nundef)
        res['ends'][end[0]] = res['ends'].get(end[0], 0) + 1
        if (end[0] in ('panic', 'mem')) and not (end[0] == 'panic' and job.expect_panic and job.expect_panic(end[1])):
            env = model_of(x, solver)
            if env is None: raise z3b.SolverUnknown('path condition of ' + end[1])
            res['viol'].append(dict(kind=end[0], what=end[1], ident=0, inputs=inputs_from(x, env), uf=env.f))
        for pairs, ident, npc in x.goals:
            res['goals'] += 1; res['pairs'] += len(pairs)
            # a fresh sweep per path: classes share the prefix of the term table
            r = z3b.prove_eq(pairs, x.pc[:npc], timeout=job.timeout, sweep=sweepc(), seed=seed)
            if r.ok is None: raise z3b.SolverUnknown('%s goal %d: %s' % (job.name, ident, r.why))
            if r.ok is False:
                res['viol'].append(dict(kind='goal', what='obligation %d' % ident, ident=ident, inputs=inputs_from(x, r.env), uf=r.env.f))
                break
        if res['viol'] and len(res['viol']) >= 3: break
        if npaths0 + res['paths'] <= job.conc or (res['paths'] % 97 == 0):
            env = model_of(x, solver)
            if env is not None:
                e2 = RandEnv(env, seed + npaths0 + res['paths'])
                res['samples'].append(dict(inputs=inputs_from(x, e2), uf=env.f))
    res['left'] = stack
    return res

def rss():
    with open('/proc/self/statm') as f: return int(f.read().split()[1]) * 4096
def worker(conn, d, jobs, seed, memlimit):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    sys.setrecursionlimit(1000000)
    prog = PROG
    solver = z3b.Solver()
    sim_ = [None]
    def sim(seed):
        if sim_[0] is None: sim_[0] = z3b.Sim(seed)
        return sim_[0]
    sw = [None]
    cur = [None]
    def sweepc():
        return z3b.Sweep(seed, sim=sim(seed))
    while True:
        try: t = conn.recv()
        except EOFError: return
        if t is None: return
        ji, prefix, sl, np0 = t
        job = jobs[ji]
        try:
            if len(terms._tab) > 2_500_000 or cur[0] != ji:
                if len(terms._tab) > 300_000:
                    terms.reset(); z3b.clear(); bn.forget(); sim_[0] = None; solver = z3b.Solver(); sw[0] = None
                sw[0] = None
            cur[0] = ji
            terms.XOR_CAP = job.xorcap or 4000
            z3b.LIMBS = job.limbs
            if (bn.SMALL, bn.OPAQUE) != (job.small, job.opaque): bn.forget(); bn.SMALL, bn.OPAQUE = job.small, job.opaque
            if terms.LIN != (job.mode == 'lin') or terms.NARROW != (job.mode == 'narrow'):
                terms.reset(); z3b.clear(); bn.forget(); sim_[0] = None; solver = z3b.Solver()
                terms.LIN = job.mode == 'lin'; terms.NARROW = job.mode == 'narrow'
            solver.timeout = job.feas; solver.sim = None if terms.LIN else sim(seed)
            tj = time.time(); s0 = dict(z3b.STAT); ex0 = set(prog.executed)
            r = explore(prog, solver, job, prefix, time.time() + sl, sweepc, np0, seed)
            r['stat'] = {k: z3b.STAT[k] - s0[k] for k in s0}
            r['t'] = time.time() - tj
            r['executed'] = list(prog.executed - ex0) if cur else []
            # a worker whose memory has grown is replaced by a fresh one
            r['retire'] = rss() > 0.5 * memlimit
            conn.send(('ok', ji, r))
        except (Unsupported, Limit, z3b.SolverUnknown) as e:
            conn.send(('err', ji, '%s: %s: %s (prefix %r)' % (job.name, type(e).__name__, e, prefix)))
        except MemoryError:
            conn.send(('err', ji, job.name + ': out of memory'))
        except Exception as e:
            conn.send(('err', ji, job.name + ': ' + traceback.format_exc()))

PROG = None
def native(d, job, log, tag):
    """replay recorded answers on the native build; returns (status, output)"""
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    f = os.path.join(VERIF, 'evidence', 'replay', tag + '.txt')
    with open(f, 'w') as fh:
        fh.write('# %s/vrunner %s %s\n' % (d, job.harness, f))
        for k, v in log: fh.write('C %d\n' % v if k == 'C' else 'B %s\n' % bytes(v).hex())
    try:
        r = subprocess.run([os.path.join(d, 'vrunner'), job.harness, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, errors='replace', text=True)
        return r.returncode, r.stdout, f
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace'), f

def concrete(prog, job, inputs, uf):
    env = z3b.Env(); env.f = uf
    x, end = run_path(prog, None, job, (), inputs=list(inputs), ufn=env.ufn)
    return x, end

def run(prop, jobs, tier, deadline_s=800, seed=1, workers=8, known=(), meta=None, quiet=False):
    global PROG
    t0 = time.time()
    log = (lambda *a: None) if quiet else (lambda *a: print('[%6.1f]' % (time.time() - t0), *a, flush=True))
    kinds = {j.kind for j in jobs}
    if len(kinds) != 1: print('jobs of different kinds'); return 2
    try: d = build.build(kinds.pop())
    except build.BuildError as e:
        print('build failed\n' + str(e)); return 2
    log('built', d)
    PROG = load(d)
    log('parsed', len(PROG.m.funcs), 'functions')
    # warm up: instantiate globals in the parent so every worker agrees
    ctx = mp.get_context('fork')
    memlimit = int(28e9 // workers)
    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, d, jobs, seed, memlimit), daemon=True)
        p.start(); b.close()
        return [p, a, None]
    ws = [start() for i in range(workers)]
    queue = [(ji, tuple(j.prefix)) for ji, j in enumerate(jobs)]
    queue.reverse()
    npaths = [0] * len(jobs)
    tot = dict(paths=0, steps=0, goals=0, forks=0, infeasible=0, pairs=0)
    ends = {}; stat = {}; execd = set(); viol = []; samples = []; errs = []
    perjob = {j.name: 0 for j in jobs}
    undef = 0; jobt = {}
    try:
        while True:
            busy = [w for w in ws if w[2] is not None]
            for w in ws:
                if w[2] is None and queue and not errs and len(viol) < 12:
                    ji, pre = queue.pop()
                    sl = 0.3 if len(queue) < workers else jobs[ji].slice_s
                    w[2] = ji; w[1].send((ji, pre, sl, npaths[ji]))
            busy = [w for w in ws if w[2] is not None]
            if not busy: break
            if time.time() - t0 > deadline_s:
                errs.append('deadline of %d s reached with %d prefixes left' % (deadline_s, len(queue))); break
            for c in wait([w[1] for w in busy], timeout=1.0):
                w = next(w for w in ws if w[1] is c)
                try: m = c.recv()
                except EOFError:
                    errs.append('worker died on ' + jobs[w[2]].name); w[2] = None
                    ws.remove(w); continue
                w[2] = None
                if m[0] == 'err': errs.append(m[2]); continue
                _, ji, r = m
                if r['retire']:
                    c.send(None); w[0].join(5); c.close(); w[0], w[1], _ = start()
                for k in tot: tot[k] += r[k]
                npaths[ji] += r['paths']; perjob[jobs[ji].name] += r['paths']; jobt[ji] = jobt.get(ji, 0) + r['t']
                undef = max(undef, r['undef'])
                for k, v in r['ends'].items(): ends[k] = ends.get(k, 0) + v
                for k, v in r['stat'].items(): stat[k] = stat.get(k, 0) + v
                execd |= set(r['executed'])
                viol += [(ji, v) for v in r['viol']]
                samples += [(ji, s) for s in r['samples']]
                queue += [(ji, p) for p in r['left']]
    finally:
        for w in ws:
            try: w[1].send(None)
            except Exception: pass
        time.sleep(0.05)
        for w in ws:
            w[0].terminate()
    log('explored', tot, ends, {k: round(v, 1) for k, v in stat.items()})
    log('slowest jobs: ' + ', '.join('%s %.0fs' % (jobs[k].name, v) for k, v in sorted(jobt.items(), key=lambda x: -x[1])[:6]))
    # ---- counterexamples
    confirmed = []; knownhits = []; nrep = 0
    seen = set()
    for ji, v in viol:
        job = jobs[ji]
        x, end = concrete(PROG, job, v['inputs'], v['uf'])
        tag = '%s-%d' % (prop, nrep); nrep += 1
        def replay(x):
            rc, outp, f = native(d, job, x.log, tag)
            fails = [l for l in outp.splitlines() if l.startswith('VPFAIL')]
            if v['kind'] == 'goal':
                ok = any(l.split()[1] == str(v['ident']) for l in fails)
            elif v['kind'] == 'panic':
                ok = rc not in (0, 1, 9, 'timeout') or 'panicked' in outp
            else:
                ok, o2 = mem_replay(d, job, f)
                outp += o2
            return ok, rc, outp, f
        ok, rc, outp, f = replay(x)
        if not ok and job.retry and v['kind'] == 'goal':
            # the counterexample fixes values of an uninterpreted power; look for inputs giving such values in the real function
            r = random.Random(seed); t1 = time.time(); k = 0
            while k < job.retry and time.time() - t1 < 60 and not ok:
                k += 1
                x2, end2 = concrete(PROG, job, [i if isinstance(i, int) else i if r.random() < .3 else r.randbytes(len(i)) for i in v['inputs']], {})
                if any(y == v['ident'] for y in x2.violations): ok, rc, outp, f = replay(x2)
        desc = '%s [%s] %s choices=%s' % (job.name, v['kind'], v['what'], [i for i in v['inputs'] if isinstance(i, int)])
        if not ok:
            errs.append('counterexample does not reproduce natively: %s rc=%s engine=%s %s\n%s' % (desc, rc, end, x.violations, outp[-600:]))
            continue
        k = next((k for k in known if k['property'] == prop and match(k, job, v)), None)
        if k is not None:
            if k['id'] not in seen: knownhits.append(k); seen.add(k['id'])
            continue
        confirmed.append((desc, f, outp))
    # ---- executor against the native build on the sampled paths
    conc = 0; outs = []
    for i, (ji, s) in enumerate(samples[:400]):
        if time.time() - t0 > deadline_s + 40: break
        job = jobs[ji]
        x, end = concrete(PROG, job, s['inputs'], s['uf'])
        rc, outp, f = native(d, job, x.log, '%s-sample' % prop)
        no = [l[4:] for l in outp.splitlines() if l.startswith('OUT ')]
        eo = [bytes(o).hex() for o in x.outs]
        if end[0] == 'done' and not x.violations:
            if rc != 0 or no != eo: errs.append('executor and native build disagree on %s: rc=%s\n%s\nengine %s\n%s' % (job.name, rc, outp[-500:], eo, f)); break
        elif end[0] == 'panic':
            if rc in (0, 1, 9): errs.append('executor panics, native does not: %s %s' % (job.name, end)); break
        conc += 1
        if len(outs) < 5: outs.append('%s inputs=%s -> %s' % (job.name, [v if isinstance(v, int) else v.hex()[:48] for v in s['inputs']][:6], [o[:32] for o in eo][:2]))
    wall = time.time() - t0
    if tot['paths'] == 0 and not viol: errs.append('no path completed: vacuous')
    for j in jobs:
        if perjob[j.name] == 0 and not viol and not errs: errs.append('job %s completed no path' % j.name)
    cov = dict(states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=conc, samples=outs,
               explanation='states = feasible symbolic paths completed; transitions = LLVM IR instructions executed symbolically; traces = concrete runs of sampled path models on which executor and native build agree',
               obligations=tot['goals'], obligation_values=tot['pairs'], path_forks=tot['forks'], infeasible_prefixes=tot['infeasible'], path_ends=ends,
               solver=dict(queries=stat.get('queries', 0), sat=stat.get('sat', 0), unsat=stat.get('unsat', 0), unknown=stat.get('unknown', 0),
                           seconds=round(stat.get('solver_s', 0), 2), lemmas=stat.get('lemmas', 0), equal_by_normal_form=stat.get('structural', 0), cached=stat.get('cached', 0), name='z3 ' + __import__('z3').get_version_string()),
               functions_encoded=sorted(f for f in execd if 'rcrypto' in f)[:400], functions_encoded_total=len(execd),
               jobs={j.name: dict(paths=perjob[j.name], params=j.params) for j in jobs}, uninitialised_bytes_read=undef)
    cov.update((meta or {}).get('coverage', {}))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 2),
              assumptions=(meta or {}).get('assumptions', []), violations=[c[0] for c in confirmed])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for k in knownhits: print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    for desc, f, outp in confirmed[:5]:
        print('counterexample: ' + desc)
        print('\n'.join('  ' + l for l in outp.splitlines()[-6:]))
        print('VIOLATION property=%s replay=%s' % (prop, f))
    for e in errs[:5]: print('ERROR', e)
    log('%s %s: %d paths, %d obligations, %d concordance runs, %d violations, %d errors' % (prop, tier, tot['paths'], tot['goals'], conc, len(confirmed), len(errs)))
    if confirmed: return 1
    if errs: return 2
    return 0

def match(k, job, v):
    if not __import__('re').fullmatch(k['job'], job.name): return False
    if k['kind'] != v['kind']: return False
    if v['kind'] == 'goal' and k.get('ident') is not None and k['ident'] != v['ident']: return False
    if k.get('what') and k['what'] not in v['what']: return False
    return True

def mem_replay(d, job, f):
    """out-of-bounds access: replay under AddressSanitizer"""
    d, out = build.asan(d)
    if d is None: return False, out
    r = subprocess.run([os.path.join(d, 'vrunner'), job.harness, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, errors='replace', text=True)
    return 'AddressSanitizer' in r.stdout or r.returncode not in (0, 1, 9), r.stdout[-1500:]
