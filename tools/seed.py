#!/opt/venv/bin/python
"""seed.py ID PROPERTY FILE <<< python: defines OLD, NEW, NEEDS, BREAKS, DEMO. Writes seeded/ID and tries it in a scratch copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, pid, rel = sys.argv[1:4]
g = {}
exec(sys.stdin.read(), g)
W = '/tmp/seedwt'
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
edits = g['EDITS'] if 'EDITS' in g else [(rel, g['OLD'], g['NEW'])]
for rel, old, new in edits:
    f = os.path.join(W, rel)
    s = open(f).read()
    assert s.count(old) == 1, (rel, s.count(old))
    open(f, 'w').write(s.replace(old, new))
d = os.path.join(V, 'seeded', sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
open(d + '/patch.diff', 'w').write(diff)
json.dump(dict(property=pid, needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.py', 'w').write("import sys, os\nsys.path.insert(0, os.getcwd())\n" + g['DEMO'].strip() + '\n')
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
b = subprocess.run(['bash', d + '/demo.sh'], cwd=W, capture_output=True, text=True)
t = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '--no-cov', '-p', 'no:cacheprovider'], cwd=W, capture_output=True, text=True)
print(sid, 'clean', a.returncode, 'patched', b.returncode, t.stdout.strip().splitlines()[-1])
if a.returncode != 0: print(a.stderr[-800:])
if b.returncode == 0: print('NOT DETECTED BY DEMO')
else: print(b.stderr.strip().splitlines()[-1:])
if '--check' in sys.argv:
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-B', 'check.py', pid, 'quick'], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    print('check', pid, 'exit', r.returncode, [l for l in r.stdout.splitlines() if 'VIOL' in l][:2] or r.stdout[-600:])
shutil.rmtree(W, ignore_errors=True)
