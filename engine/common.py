"""Dumping the MIR of /repo's current tree, loading it, reporting."""
import os, sys, json, time, subprocess, fcntl, shutil, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORK = os.path.join(VERIF, '.work')
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

class ToolError(Exception): pass

def env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = NIGHTLY
    sysroot = subprocess.check_output(['rustc', '--print', 'sysroot'], env=e, text=True).strip()
    e['LD_LIBRARY_PATH'] = sysroot + '/lib'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e

def run(cmd, cwd, e):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError('%s failed in %s:\n%s' % (' '.join(cmd), cwd, r.stdout[-4000:]))
    return r.stdout

def build_driver(e):
    run(['cargo', 'build', '--offline', '--quiet'], os.path.join(VERIF, 'driver'), e)
    return os.path.join(VERIF, 'driver', 'target', 'debug', 'mirdump')

def dump():
    """type-check /repo through the harness crate and export its MIR; returns the path of the dump"""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, 'mir.json')
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        driver = build_driver(e)
        tgt = os.path.join(WORK, 'target')
        # cargo's freshness test looks at time stamps only: always re-analyse both crates
        for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'svgdom-*')) + glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'harness-*')) \
                + [os.path.join(tgt, 'debug', 'build', x) for x in ('svgdom', 'harness')]:
            shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(out): os.remove(out)
        e.update(CARGO_TARGET_DIR=tgt, RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -Awarnings',
                 RUSTC_WORKSPACE_WRAPPER=driver, MIRDUMP_OUT=out,
                 MIRDUMP_STOP=os.path.join(VERIF, 'driver', 'stop.txt'), MIRDUMP_DESCEND=os.path.join(VERIF, 'driver', 'descend.txt'))
        run(['cargo', 'check', '--offline', '--quiet'], os.path.join(VERIF, 'harness'), e)
        if not os.path.exists(out): raise ToolError('no MIR dump was produced')
        mine = os.path.join(WORK, 'mir.%d.json' % os.getpid())
        shutil.copyfile(out, mine)
    return mine

def load(path=None):
    from mir import Program
    if path: return Program(path)
    p = dump()
    try:
        return Program(p)
    finally:
        os.remove(p)

def source_stats():
    n = 0; files = []
    for root, _, fs in os.walk('/repo/src'):
        for f in sorted(fs):
            if f.endswith('.rs'):
                files.append(os.path.join(root, f)); n += sum(1 for _ in open(os.path.join(root, f), errors='replace'))
    h = hashlib.sha256()
    for f in sorted(files): h.update(open(f, 'rb').read())
    return len(files), n, h.hexdigest()[:16]
