"""python tools/fuzz_traces.py C05 N: corrupt recorded behaviours at random places; the judge must neither crash nor
accept missing values.  Development aid, no check uses it."""
import sys, os, json, random, subprocess, copy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
from mv import tlc
c, n = sys.argv[1], int(sys.argv[2])
only = set(sys.argv[3].split(',')) if len(sys.argv) > 3 else None
dump = '/tmp/x/fz_%s.json' % c
subprocess.run([V + '/check', c, 'quick', '--dump', dump], stdout=subprocess.DEVNULL)
recs = json.load(open(dump))
mod = importlib.import_module('checks.' + c.lower())
R = random.Random(3)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if len(x) > 1 and all(isinstance(k, int) and not isinstance(k, bool) for k in x):
            yield path
        else:
            for k, v in enumerate(x):
                yield from leaves(v, path + (k,))


out, where = [], {}
for k in range(n):
    r = copy.deepcopy(R.choice([x for x in recs if x.get('outcome') == 'ok']))
    ls = list(leaves(r))
    ls = [l for l in ls if only is None or any(p in only for p in l)]
    if not ls:
        continue
    # fields alike
    key = R.choice(sorted({tuple(p if isinstance(p, str) else '*' for p in l) for l in ls}))
    l = R.choice([l for l in ls if tuple(p if isinstance(p, str) else '*' for p in l) == key])
    x = r
    for p in l:
        x = x[p]
    j = R.randrange(len(x))
    old = x[j]
    x[j] = R.choice([-2000000000, 1999999999, -1999999999, 0, -old, old + 1000, old * 2])
    r['id'] = '%d.0' % k
    out.append(r)
    where[r['id']] = (key, old, x[j])
    if os.environ.get('FZ'):
        json.dump(r, open('/tmp/x/fz/%d.json' % k, 'w'))
try:
    bad, st = tlc.judge(mod.TRACE, out, weight=getattr(mod, 'weight', None))
except tlc.ToolError as e:
    print(c, 'CRASH', str(e)[:1500])
    sys.exit(1)
hit = {}
for b in bad:
    hit.setdefault(b[0], b[1])
tab = {}
for i, (key, old, new) in where.items():
    if new == old:
        continue
    t = tab.setdefault((key, 'NaN' if new == -2000000000 else 'value'), [0, 0, []])
    t[0] += 1
    t[1] += i in hit
    if new == -2000000000 and i not in hit:
        print('missed', i, key, old)
    if i in hit:
        t[2].append(hit[i])
for k, t in sorted(tab.items()):
    print(c, '/'.join(k[0]), k[1], '%d of %d' % (t[1], t[0]), sorted(set(t[2]))[:4])
