"""Makes a seeded bug: python3 tools/bug.py SPECFILE.  SPECFILE is python defining
ID, PROP, EDITS=[(file, old, new)], MAIN (rust source of the demo), NEEDS, WHAT."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']
W = '/tmp/bugrepo'
if not os.path.isdir(W): subprocess.check_call(['cp', '-a', '/repo', W])
def git(*a): return subprocess.check_output(['git', '-C', W] + list(a), text=True)
git('checkout', '-q', '--', '.')
head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
if git('rev-parse', 'HEAD').strip() != head:
    git('fetch', '-q', '/repo'); git('reset', '-q', '--hard', head)
for f, old, new in spec['EDITS']:
    p = os.path.join(W, f); s = open(p).read()
    n = s.count(old)
    if n != 1: sys.exit('%s: pattern occurs %d times:\n%s' % (f, n, old))
    open(p, 'w').write(s.replace(old, new))
diff = git('diff')
D = os.path.join(V, 'seeded', ID); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
open(D + '/patch.diff', 'w').write(diff)
open(D + '/main.rs', 'w').write(spec['MAIN'])
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# builds a small program against the working tree in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
svgdom = { path = "$repo" }
[workspace]
E
cd "$t" && CARGO_TARGET_DIR="$t/target" RUSTFLAGS=-Awarnings cargo run --offline --quiet
''')
os.chmod(D + '/demo.sh', 0o755)
json.dump(dict(property=spec['PROP'], needs=spec['NEEDS'], what_it_breaks=spec['WHAT']), open(D + '/meta.json', 'w'), indent=1)
def fail(m):
    shutil.rmtree(D); git('checkout', '-q', '--', '.'); sys.exit('REJECTED %s: %s' % (ID, m))
def demo(cwd): return subprocess.run(['bash', D + '/demo.sh'], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
r = subprocess.run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
log = '/tmp/bugtest.log'; open(log, 'w').write(r.stdout)
subprocess.run(['python3', '/opt/vp/results.py', '/tmp/bugout.json', 'cargo:' + log], stdout=subprocess.DEVNULL)
try: res = json.load(open('/tmp/bugout.json'))
except Exception as e: fail('no results\n' + r.stdout[-3000:])
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
passed = set(res.get('passed', []))
missing = [t for t in base if t not in passed]
if missing: fail('%d stable tests fail: %s\n%s' % (len(missing), missing[:5], r.stdout[-1500:] if 'error' in r.stdout else ''))
a = demo(W)
if a.returncode == 0: fail('demo passes with the bug\n' + a.stdout[-1500:])
if 'error[' in a.stdout or 'error: could not compile' in a.stdout: fail('demo does not build\n' + a.stdout[-2500:])
b = demo('/repo')
if b.returncode != 0: fail('demo fails without the bug\n' + b.stdout[-1500:])
git('checkout', '-q', '--', '.')
print('KEPT', ID, '| with bug:', a.stdout.strip().splitlines()[:3])
