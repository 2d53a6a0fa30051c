"""Builds the two worlds from /repo's current working tree: the LLVM IR that is executed
symbolically, and the native binary used for replay and for validating the executor."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SYMX = os.path.dirname(HERE)
VERIF = os.path.dirname(SYMX)
REPO = os.environ.get('SYMX_REPO', '/repo')
OUT = os.environ.get('SYMX_BUILD', os.path.join(VERIF, 'build'))


class BuildError(Exception):
    pass


def digest():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'),
             os.path.join(SYMX, 'shims'), os.path.join(SYMX, 'harness'),
             os.path.join(SYMX, 'world_sym'), os.path.join(SYMX, 'world_nat')]
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(
            os.path.join(d, f) for d, ds, fl in os.walk(r) for f in fl if not d.endswith('target'))
        for f in fs:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e.pop('CARGO_RESOLVER_LOCKFILE_PATH', None)
    e.pop('CARGO_PROFILE_DEV_DEBUG', None)
    e.pop('RUSTFLAGS', None)
    return e


def build(log=print):
    """-> dict(ll=, nat=, key=, seconds=)"""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest()
        d = os.path.join(OUT, key)
        ll, nat = os.path.join(d, 'world.ll'), os.path.join(d, 'nat')
        t = time.time()
        if not (os.path.exists(ll) and os.path.exists(nat)):
            os.makedirs(d, exist_ok=True)
            jobs = []
            e = env()
            # never trust file times: drop cargo's fingerprints of the crates under test
            for w, prof in (('sym', 'release'), ('nat', 'debug')):
                fp = os.path.join(OUT, 'target_' + w, prof, '.fingerprint')
                for x in os.listdir(fp) if os.path.isdir(fp) else ():
                    if x.startswith(('validate-btc-header', 'world_')):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            work = os.path.join(OUT, 'src')
            for w in ('sym', 'nat'):
                # build from a copy: cargo may touch Cargo.lock
                src = os.path.join(work, w)
                shutil.rmtree(src, ignore_errors=True)
                shutil.copytree(SYMX, src, ignore=shutil.ignore_patterns('py', 'target', '__pycache__'))
                wd = os.path.join(src, 'world_' + w)
                ct = os.path.join(wd, 'Cargo.toml')
                with open(ct) as f:
                    s = f.read()
                with open(ct, 'w') as f:
                    f.write(s.replace('path = "/repo"', f'path = "{REPO}"'))
                e2 = dict(e, CARGO_TARGET_DIR=os.path.join(OUT, 'target_' + w))
                if w == 'sym':
                    cmd = ['cargo', 'rustc', '--release', '--offline', '--', '--emit=llvm-ir',
                           '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']
                else:
                    cmd = ['cargo', 'build', '--offline']
                jobs.append((w, subprocess.Popen(cmd, cwd=wd, env=e2, stdout=subprocess.PIPE,
                                                 stderr=subprocess.STDOUT, text=True)))
            for w, p in jobs:
                o, _ = p.communicate()
                if p.returncode:
                    raise BuildError(f'building world_{w} failed:\n{o[-4000:]}')
            dd = os.path.join(OUT, 'target_sym', 'release', 'deps')
            cand = [os.path.join(dd, f) for f in os.listdir(dd) if f.startswith('world_sym') and f.endswith('.ll')]
            cand.sort(key=os.path.getmtime)
            shutil.copy(os.path.join(OUT, 'target_nat', 'debug', 'nat'), nat)
            shutil.copy(cand[-1], ll)
        # keep the newest few builds
        ds = [x for x in os.listdir(OUT) if len(x) == 16 and os.path.isdir(os.path.join(OUT, x))]
        ds.sort(key=lambda x: os.path.getmtime(os.path.join(OUT, x)))
        for x in ds[:-4]:
            if x != key:
                shutil.rmtree(os.path.join(OUT, x), ignore_errors=True)
        return dict(ll=ll, nat=nat, key=key, seconds=time.time() - t)
