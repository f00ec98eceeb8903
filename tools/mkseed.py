"""python3 tools/mkseed.py SPEC.py : make a planted bug from a description.
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python code using demo_lib as *)"""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns['ID']
sd = os.path.join(V, 'seeded', ID)
os.makedirs(sd, exist_ok=True)
w = '/tmp/x/seed_' + ID
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', w])
for f, o, n in ns['EDITS']:
    p = os.path.join(w, f)
    s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
patch = subprocess.check_output(['git', '-C', w, 'diff']).decode()
open(sd + '/patch.diff', 'w').write(patch)
base = subprocess.check_output(['git', '-C', w, 'rev-list', '--max-parents=0', 'HEAD']).decode().strip()
cur, orig = None, 0
for l in patch.splitlines():
    if l.startswith('--- a/'):
        cur = subprocess.check_output(['git', '-C', w, 'show', base + ':' + l[6:]]).decode().splitlines()
    elif l.startswith('-') and not l.startswith('---'):
        k = l[1:] in cur
        orig += k
        if not k:
            print('   not an original line:', l)
print('removed original lines:', orig)
shutil.copy(V + '/tools/demo_lib.py', sd + '/demo_lib.py')
open(sd + '/demo.py', 'w').write('from demo_lib import *\n' + ns['DEMO'])
open(sd + '/demo.sh', 'w').write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(cd "$(dirname "$0")" && pwd)" /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(sd + '/demo.sh', 0o755)
json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(sd + '/meta.json', 'w'), indent=1)
a = subprocess.run([sd + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
b = subprocess.run([sd + '/demo.sh'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print('demo clean', a.returncode, 'patched', b.returncode)
if a.returncode or not b.returncode:
    print('BAD DEMO', a.stdout.decode()[-1500:], b.stdout.decode()[-1500:])
else:
    print('   ', b.stdout.decode().strip().splitlines()[-1][:200])
if 'notest' not in sys.argv:
    t = subprocess.run([sys.executable if 0 else '/opt/venv/bin/python', '-m', 'pytest', '-q', '--no-header', '-p', 'no:cacheprovider', 'metsim/tests'], cwd=w,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print('tests:', t.stdout.decode().strip().splitlines()[-1])
e = dict(os.environ, MV_REPO=w)
for c in ns.get('CHECKS', [ns['PROPERTY']]):
    r = subprocess.run([V + '/check', c, 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode()
    print(c, 'rc', r.returncode, [l.strip()[:110] for l in o.splitlines() if 'clause=' in l][:3])
shutil.rmtree(w, ignore_errors=True)
