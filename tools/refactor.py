"""tools/refactor.py FILE [CHECKS]: applies a behaviour-preserving edit to a copy of the repository, runs its tests there and then the checks, which have to stay quiet"""
import sys, os, subprocess, shutil
f = sys.argv[1]; checks = sys.argv[2] if len(sys.argv) > 2 else 'all'
ns = {}; exec(open(f).read(), ns)
D = '/tmp/refrepo'
subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', D + '/'], check=True)
for fn, a, b in ns['EDITS']:
    p = os.path.join(D, fn); s = open(p).read()
    if s.count(a) < 1: print('NOT FOUND in', fn, ':', a[:80]); sys.exit(3)
    open(p, 'w').write(s.replace(a, b, 1))
d = subprocess.run(['git', 'diff'], cwd=D, stdout=subprocess.PIPE, text=True).stdout
os.makedirs('/tmp/refs', exist_ok=True)
out = '/tmp/refs/%s.diff' % os.path.basename(f)[:-3]; open(out, 'w').write(d)
r = subprocess.run(['cargo', 'test', '--offline', '--no-fail-fast', '-q'], cwd=D, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, CARGO_TARGET_DIR='/tmp/reftarget'))
bad = [l for l in r.stdout.splitlines() if 'FAILED' in l or 'error' in l or 'failed' in l]
print('tests', 'ok' if r.returncode == 0 else 'FAIL', bad[:6])
if r.returncode: print(r.stdout[-2500:] if 'could not compile' in r.stdout else ''); sys.exit(4)
subprocess.run(['bash', '/verif/tools/lab.sh', out, checks])
