"""Plant a bug: python3 dev/plant.py DIR   where DIR (under /tmp/plants) holds edit.py (EDITS=[(file, old, new)...]), demo.py/demo.sh, meta.json.
Builds a scratch copy of /repo with the edit, runs the stable tests and the demo there, and files it under /verif/seeded if all is as required."""
import sys, os, subprocess, shutil, json, runpy, tempfile
d = os.path.abspath(sys.argv[1]); pid = os.path.basename(d)
E = runpy.run_path(os.path.join(d, 'edit.py'))['EDITS']
S = '/tmp/pl.%s' % pid
shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
R = S + '/repo'; V = S + '/vp'
subprocess.check_call(['cp', '-a', '/repo', R]); os.makedirs(V + '/work')
for f in ('build.sh', 'test.sh', 'env.sh', 'run_tests.py', 'results.py'):
    t = open('/opt/vp/' + f).read()
    t = t.replace('/opt/vp/build.sh', V + '/build.sh').replace('/opt/vp/env.sh', V + '/env.sh').replace('/opt/vp/work', V + '/work').replace('/opt/vp/run_tests.py', V + '/run_tests.py').replace('/opt/vp/results.py', V + '/results.py')
    t = t.replace('/repo', R).replace('CCACHE_DIR=/opt/vp/ccache', 'CCACHE_DIR=/tmp/plcc')
    open(V + '/' + f, 'w').write(t)
def demo():
    return subprocess.run(['bash', S + '/demo/demo.sh'], cwd=R, capture_output=True, text=True, timeout=290)
os.makedirs(S + '/demo')
for f in os.listdir(d):
    if f not in ('edit.py', 'meta.json', 'patch.diff'):
        t = open(d + '/' + f).read(); open(S + '/demo/' + f, 'w').write(t.replace('/repo', R))
def fail(m): print(pid, 'REJECTED:', m); shutil.rmtree(S); sys.exit(1)
def build(): return subprocess.run(['bash', V + '/build.sh'], capture_output=True, text=True)
b = build()
if b.returncode: fail('unchanged build ' + b.stderr[-500:])
r = demo()
if r.returncode: fail('demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-1500:])
orig = subprocess.run(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
for f, a, n in E:
    p = R + '/' + f; s = open(p, newline='').read()
    if '\r\n' in s: a = a.replace('\n', '\r\n'); n = n.replace('\n', '\r\n')
    if s.count(a) != 1: fail('%s: %d occurrences of %r' % (f, s.count(a), a))
    open(p, 'w', newline='').write(s.replace(a, n))
diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=False).stdout
# removed lines must come from the original repository
import re
for f in {e[0] for e in E}:
    o = subprocess.run(['git', '-C', R, 'show', orig + ':' + f], capture_output=True).stdout.decode(errors='replace').splitlines()
    o = {x.rstrip('\r') for x in o}
    cur = subprocess.run(['git', '-C', R, 'diff', '-U0', '--', f], capture_output=True).stdout.decode(errors='replace').splitlines()
    rem = [l[1:].rstrip('\r') for l in cur if l.startswith('-') and not l.startswith('---')]
    print('removed lines original: %d of %d' % (sum(x in o for x in rem), len(rem)))
    if not any(x in o for x in rem): fail('changes only fix lines')
b = build()
if b.returncode: fail('patched build ' + b.stderr[-1500:])
r = demo()
if r.returncode == 0: fail('demo passes with the patch')
print('demo with patch:', (r.stdout + r.stderr)[-300:].strip())
t = subprocess.run(['bash', V + '/test.sh', S + '/out.json'], capture_output=True, text=True)
o = json.load(open(S + '/out.json')); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
miss = [x for x in st if x not in o['passed']]
if miss: fail('tests fail: %s' % miss[:5])
T = '/verif/seeded/' + pid
shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
open(T + '/patch.diff', 'wb').write(diff)
for f in os.listdir(d):
    if f != 'edit.py': shutil.copy(d + '/' + f, T + '/' + f)
shutil.rmtree(S)
print(pid, 'PLANTED')
