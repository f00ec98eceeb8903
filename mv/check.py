"""Driver of one check:  python -m mv.check C05 --tier quick|thorough [--replay FILE]

  1. model check the specification's small configurations (TLC, background)
  2. derive scenarios, run each on the real code in a process of its own and
     record what a user can observe
  3. let TLC judge the recorded behaviours with the trace specification
  4. write the evidence, report violations

Exit status 0 held / 1 violation / 2 the machinery itself could not work."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')

from . import pool, tlc


def known_findings(prop):
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def observe_all(mod, scs, timeout):
    """-> records, each with id '<scenario>.<n>'; a scenario whose observation
    did not come back is recorded as such (outcome), for the spec to judge"""
    res = pool.run(mod.observe, scs, timeout=timeout)
    again = [i for i, r in enumerate(res) if r[0] in ('timeout', 'crash')]
    if again:      # an overloaded machine is no verdict: once more, alone
        for i in again[:6]:
            res[i] = pool.run(mod.observe, [scs[i]], nproc=1, timeout=2 * timeout)[0]
    records, broken = [], []
    for i, r in enumerate(res):
        if r[0] == 'ok':
            for k, rec in enumerate(r[1]):
                rec = dict(rec)
                rec['id'] = '%d.%d' % (i, k)
                rec.setdefault('outcome', 'ok')
                records.append(rec)
        else:
            kind = {'exc': 'error'}.get(r[0], r[0])
            broken.append((i, kind, r[1:]))
            records.append({'id': '%d.0' % i, 'outcome': kind})
    return records, broken, res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--dump')
    a = ap.parse_args(argv)
    t0 = time.time()
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
        os.environ[k] = '1'
    mod = importlib.import_module('checks.' + a.prop.lower())
    os.makedirs(EVID, exist_ok=True)

    mcs = []
    if not a.replay:
        for m in mod.MCS.get(a.tier, mod.MCS['quick']):
            mcs.append(tlc.MC(m[0], m[1], **(m[2] if len(m) > 2 else {})))

    if a.replay:
        with open(a.replay) as f:
            scs = json.load(f)['scenarios']
    else:
        scs = mod.scenarios(a.tier, a.seed)
    scs = json.loads(json.dumps(scs))
    pool.warm()
    t1 = time.time()
    records, broken, raw = observe_all(mod, scs, getattr(mod, 'TIMEOUT', 150))
    t2 = time.time()
    if hasattr(mod, 'post'):
        records = mod.post(scs, records)
    if a.dump:
        with open(a.dump, 'w') as f:
            json.dump(records, f)
    bad, st = tlc.judge(mod.TRACE, records, weight=getattr(mod, 'weight', None))
    t3 = time.time()

    mres = []
    for m in mcs:
        r = m.result()
        if not r['ok'] or r['distinct'] == 0:
            raise tlc.ToolError('model checking %s/%s:\n%s' % (r['module'], r['cfg'], r['text'][-3000:]))
        mres.append(r)

    known = known_findings(a.prop)
    text = {i: t for i, _, t in broken}
    viol, seen = {}, {}
    for b in bad:
        rid, clause, detail = b[0], b[1], b[2:]
        i = int(rid.split('.')[0])
        k = next((k for k in known if k['clause'] == clause), None)
        if k:
            seen.setdefault(k['clause'], k)
            continue
        viol.setdefault(clause, []).append((i, rid, detail))
    for k in seen.values():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))

    rdir = os.path.join(EVID, 'replay')
    shutil.rmtree(os.path.join(rdir, a.prop), ignore_errors=True) if not a.replay else None
    out_viol = []
    for clause, items in sorted(viol.items()):
        i, rid, detail = items[0]
        os.makedirs(os.path.join(rdir, a.prop), exist_ok=True)
        tag = hashlib.sha1((clause + json.dumps(scs[i], sort_keys=True)).encode()).hexdigest()[:10]
        path = os.path.join(rdir, a.prop, '%s.json' % tag)
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'clause': clause, 'detail': detail, 'record': rid,
                       'error': text.get(i), 'count': len(items), 'scenarios': [scs[i]]}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('   clause=%s count=%d first=%s detail=%s%s' % (
            clause, len(items), rid, json.dumps(detail)[:400],
            ('\n   ' + ' '.join(str(x) for x in text[i])[-700:]) if i in text else ''))
        out_viol.append({'what': clause, 'replay': path, 'count': len(items), 'detail': json.dumps(detail)[:400]})

    wall = time.time() - t0
    samples = []
    for r in records[:400:max(1, len(records) // 3)][:3]:
        samples.append(json.dumps(r)[:600])
    ev = {
        'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed,
        'level': 'model_checking',
        'coverage': {
            'states': sum(r['distinct'] for r in mres) + st['distinct'],
            'transitions': sum(r['generated'] for r in mres) + st['generated'],
            'traces_validated_against_impl': st['n'],
            'samples': samples,
            'events_replayed': st['events'],
            'scenarios': len(scs),
            'antecedents': st['cov'],
            'model_checking': [{'module': r['module'], 'cfg': r['cfg'], 'distinct': r['distinct'],
                                'generated': r['generated']} for r in mres],
            'known_findings_seen': sorted(seen),
        },
        'wall_s': round(wall, 2),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': out_viol,
    }
    # vacuity: every antecedent the trace spec declares must have been exercised
    idle = [k for k, v in st['cov'].items() if v == 0]
    if not a.replay:
        with open(os.path.join(EVID, a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios, %d traces, %d events, MC %d states; observe %.1fs judge %.1fs total %.1fs%s' % (
        a.prop, 'VIOLATED' if viol else 'held', len(scs), st['n'], st['events'],
        sum(r['distinct'] for r in mres), t2 - t1, t3 - t2, wall,
        (' idle: ' + ','.join(idle)) if idle else ''))
    if os.environ.get('MV_COV'):
        print(json.dumps(st['cov'], indent=1))
    return 1 if viol else 0


if __name__ == '__main__':
    try:
        rc = main()
    except tlc.ToolError as e:
        print('TOOL ERROR: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
