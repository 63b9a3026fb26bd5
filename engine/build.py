"""Build the harness + the current tree of /repo: LLVM IR for the executor, a native runner for replays."""
import os, sys, hashlib, subprocess, shutil, fcntl, glob, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MODEL = os.path.join(VERIF, 'rmath_model')
CACHE = os.path.join(VERIF, '.cache')


HARNESS = {'std': 'harness', 'bn': 'harness_bn'}
def sources():
    out = []
    for root in (REPO, os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'harness_bn'), MODEL):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'benches') and not (d == root and x == '.cache'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock')): out.append(os.path.join(d, f))
    return out
def tree_hash(kind):
    h = hashlib.sha256(kind.encode())
    for p in sources():
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    h.update(b'v4')
    return h.hexdigest()[:20]

FLAGS = '-C codegen-units=1 -C no-vectorize-loops -C no-vectorize-slp -C panic=abort -C overflow-checks=on -C debug-assertions=on --cfg verif_hooks'
def env(ir=True):
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_OPT_LEVEL='2', CARGO_PROFILE_DEV_DEBUG='0', RUSTC_WRAPPER='', RUSTFLAGS=('--emit=llvm-ir,link ' if ir else '') + FLAGS, RUST_BACKTRACE='0')
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin:' + e.get('PATH', '')
    e.pop('CARGO_TARGET_DIR', None)
    return e

class BuildError(Exception): pass
def cargo(args, cwd, e):
    r = subprocess.run(['cargo', 'build', '--offline'] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
def build(kind='std'):
    """returns the directory with *.ll and vrunner"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash(kind)
        d = os.path.join(CACHE, h)
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d)
            return d
        # keep the few most recent results
        old = sorted((x for x in glob.glob(os.path.join(CACHE, '*')) if os.path.isdir(x) and len(os.path.basename(x)) == 20), key=os.path.getmtime)
        for x in old[:-5]: shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        t0 = time.time()
        src = os.path.join(d, 'src')
        shutil.copytree(os.path.join(VERIF, HARNESS[kind]), src, ignore=shutil.ignore_patterns('target'))
        if kind == 'bn':
            for f in ('vp.rs', 'bin/vrunner.rs'):
                os.makedirs(os.path.dirname(os.path.join(src, 'src', f)), exist_ok=True)
                shutil.copy(os.path.join(VERIF, 'harness', 'src', f), os.path.join(src, 'src', f))
        with open(os.path.join(src, 'Cargo.toml')) as f: t = f.read()
        with open(os.path.join(src, 'Cargo.toml'), 'w') as f: f.write(t.replace('"/repo"', '"%s"' % REPO))
        def fail(o):
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError(o[-4000:])
        tg = os.path.join(d, 'target')
        rc, o = cargo(['--target-dir', tg], src, env(kind == 'std'))
        if rc: fail(o)
        shutil.move(os.path.join(tg, 'debug', 'vrunner'), os.path.join(d, 'vrunner'))
        if kind == 'bn':
            # the encoding uses the stand-in for the number library, the native runner above the real one
            enc = os.path.join(d, 'enc')
            shutil.copytree(src, enc)
            shutil.rmtree(tg, ignore_errors=True)
            rc, o = cargo(['--lib', '--target-dir', tg, '--config', 'patch.crates-io.rmath.path="%s"' % MODEL], enc, env())
            if rc: fail(o)
        dep = os.path.join(tg, 'debug', 'deps')
        for pat in ('vharness-*.ll', 'rcrypto-*.ll'):
            l = glob.glob(os.path.join(dep, pat))
            if len(l) != 1: fail('expected one %s, got %r' % (pat, l))
            shutil.move(l[0], os.path.join(d, pat.split('-')[0] + '.ll'))
        if kind == 'bn':
            for f in glob.glob(os.path.join(dep, 'rmath-*.ll')): shutil.move(f, os.path.join(d, 'rmath.ll'))
        shutil.rmtree(tg, ignore_errors=True)
        with open(os.path.join(d, 'ok'), 'w') as f: f.write('%.1f\n' % (time.time() - t0))
        return d
def asan(d):
    """native runner under AddressSanitizer (built only to replay a memory error)"""
    a = os.path.join(d, 'asan')
    if os.path.exists(os.path.join(a, 'vrunner')): return a, ''
    e = env()
    e['RUSTC_BOOTSTRAP'] = '1'
    e['RUSTFLAGS'] = '-Zsanitizer=address -C overflow-checks=on -C debug-assertions=on -C codegen-units=1 --cfg verif_hooks'
    e['CARGO_PROFILE_DEV_OPT_LEVEL'] = '0'      # keep reads whose result is dropped
    rc, o = cargo(['--target', 'x86_64-unknown-linux-gnu', '--target-dir', os.path.join(a, 'target')], os.path.join(d, 'src'), e)
    if rc: return None, o[-2000:]
    shutil.move(os.path.join(a, 'target', 'x86_64-unknown-linux-gnu', 'debug', 'vrunner'), os.path.join(a, 'vrunner'))
    shutil.rmtree(os.path.join(a, 'target'), ignore_errors=True)
    return a, ''
if __name__ == '__main__':
    for k in sys.argv[1:] or ['std']:
        t = time.time(); print(build(k), '%.1fs' % (time.time() - t))
