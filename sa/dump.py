"""Builds the MIR driver when needed and dumps /repo's current MIR into a private
scratch directory.  Nothing of the analysed program is executed."""
import os, subprocess, sys, tempfile, shutil, fcntl, hashlib, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('THERMAL_REPO', '/repo')
DRV = os.path.join(VERIF, 'driver')
BIN = os.path.join(DRV, 'target/release/mirdump')

def _env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e

def build_driver():
    src = os.path.join(DRV, 'src/main.rs')
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= os.path.getmtime(src): return
    os.makedirs(os.path.join(DRV, 'target'), exist_ok=True)
    with open(os.path.join(DRV, 'target/.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(BIN) and os.path.getmtime(BIN) >= os.path.getmtime(src): return
        r = subprocess.run(['cargo', 'build', '--release', '--offline'], cwd=DRV, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise RuntimeError('driver build failed:\n' + r.stdout.decode()[-4000:])
        os.utime(BIN)

def sources():
    fs = []
    for pat in ('Cargo.toml', 'Cargo.lock', '*/Cargo.toml', '*/src/**/*', '*/resources/**/*', '*/build.rs'):
        fs += [f for f in glob.glob(os.path.join(REPO, pat), recursive=True) if os.path.isfile(f)]
    return sorted(set(fs))

def tree_hash():
    h = hashlib.sha256()
    for f in sources():
        h.update(os.path.relpath(f, REPO).encode()); h.update(b'\0')
        h.update(open(f, 'rb').read()); h.update(b'\0')
    h.update(open(os.path.join(DRV, 'src/main.rs'), 'rb').read())
    return h.hexdigest()[:24]

def dump():
    """returns (dir with json files, tree hash); cached by content hash of the sources"""
    build_driver()
    th = tree_hash()
    root = os.path.join(VERIF, '.cache'); os.makedirs(root, exist_ok=True)
    out = os.path.join(root, 'mir-' + th)
    lk = open(os.path.join(root, '.lock'), 'w')
    fcntl.flock(lk, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(out, 'ok')): return out, th
        old = sorted((d for d in glob.glob(os.path.join(root, 'mir-*')) if d != out), key=os.path.getmtime)
        for d in old[:-7]: shutil.rmtree(d, ignore_errors=True)       # a few are kept: another check may be reading its own
        tgt = tempfile.mkdtemp(prefix='mirdump-')
        try:
            os.makedirs(out, exist_ok=True)
            e = _env()
            sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, env=e, check=True).stdout.decode().strip()
            e.update(MIRDUMP_OUT=out, RUSTFLAGS='-Zalways-encode-mir -Zallow-features=rustc_attrs', MIRDUMP_DESCEND='thermal_parser',
                     CARGO_TARGET_DIR=tgt, LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=BIN)
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--workspace'], cwd=REPO, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise RuntimeError('MIR dump failed:\n' + r.stdout.decode()[-6000:])
            for c in ('thermal_parser', 'thermal_renderer'):
                if not os.path.exists(os.path.join(out, c + '.json')): raise RuntimeError('no MIR dumped for ' + c)
            open(os.path.join(out, 'ok'), 'w').write(th)
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
        return out, th
    finally:
        lk.close()

if __name__ == '__main__':
    print(dump())
