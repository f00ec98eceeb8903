"""Running TLC: model checking of a configuration, generation of behaviours,
and judging of recorded traces by a *Trace module."""
import json
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'


NOVALUE = (r'Overflow when computing|The second argument of (?:\\div|%) |Attempted to (?:evaluate|apply|select|compare|check|access)'
           r'|was not in the domain|out of bounds|is not of the|CHOOSE x|no case matched|CASE with no conditions|was evaluated to a non-')


class ToolError(Exception):
    """TLC itself could not do its work: never a verdict on the code"""


def _java(module, cfg, meta, workers=1, xmx='2g', opts=(), props=()):
    gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
    return ['java', gc, '-XX:+TieredCompilation', '-Xss64m', '-Xmx' + xmx,
            '-DTLA-Library=' + SPEC] + list(props) + ['-cp', JAR + ':' + CM, 'tlc2.TLC',
            '-metadir', meta, '-config', cfg, '-workers', str(workers),
            '-noGenerateSpecTE', '-nowarning'] + list(opts) + [os.path.join(SPEC, module + '.tla')]


def _stats(text):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'(\d+) states checked', text)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


class MC:
    """a model checking run in the background"""

    def __init__(self, module, cfg, workers=2, xmx='3g', timeout=600, deadlock=True, env=None):
        self.module, self.cfg, self.timeout = module, cfg, timeout
        self.meta = tempfile.mkdtemp(prefix='mvtlc_')
        opts = [] if deadlock else ['-deadlock']
        self.log = open(os.path.join(self.meta, 'log'), 'w+')
        self.p = subprocess.Popen(_java(module, os.path.join(SPEC, cfg), self.meta + '/m', workers, xmx, opts),
                                  stdout=self.log, stderr=subprocess.STDOUT, cwd=self.meta,
                                  env=dict(os.environ, **(env or {})))

    def result(self):
        """-> dict(ok, generated, distinct, text)"""
        try:
            self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.log.seek(0)
        text = self.log.read()
        self.log.close()
        shutil.rmtree(self.meta, ignore_errors=True)
        g, d = _stats(text)
        ok = 'Model checking completed. No error has been found.' in text
        viol = re.findall(r'(?:Invariant|property) (\S+) (?:is|was) violated', text)
        return dict(ok=ok, generated=g, distinct=d, text=text, violated=viol, rc=self.p.returncode,
                    module=self.module, cfg=self.cfg)


def judge(module, records, shards=8, timeout=600, env=None, weight=None, cfg=None):
    """hand recorded behaviours to a trace specification.

    The module reads the sequence of records from the file IOEnv.TRACE and
    writes [n |-> number of records consumed, events |-> ..., bad |-> <<[id, clause, detail]...>>,
    cov |-> ...] to IOEnv.OUT.   -> (bad list, stats)"""
    if not records:
        raise ToolError('no records to judge')
    shards = max(1, min(shards, len(records)))
    weight = weight or (lambda r: 1 + len(json.dumps(r)))
    bins = [[0, []] for _ in range(shards)]
    for r in sorted(records, key=weight, reverse=True):
        b = min(bins, key=lambda x: x[0])
        b[0] += weight(r)
        b[1].append(r)
    base = tempfile.mkdtemp(prefix='mvjudge_')
    procs = []
    try:
        for k, (_, rs) in enumerate(bins):
            if not rs:
                continue
            tr, out = os.path.join(base, 't%d.json' % k), os.path.join(base, 'o%d.json' % k)
            with open(tr, 'w') as f:
                json.dump(rs, f)
            log = open(os.path.join(base, 'l%d' % k), 'w+')
            p = subprocess.Popen(
                _java(module, os.path.join(SPEC, cfg or (module + '.cfg')), os.path.join(base, 'm%d' % k), 1, '2500m', ['-deadlock']),
                stdout=log, stderr=subprocess.STDOUT, cwd=base,
                env=dict(os.environ, TRACE=tr, OUT=out, **(env or {})))
            procs.append((p, out, log, rs))
        again = []
        bad, st = [], dict(n=0, events=0, generated=0, distinct=0, cov={})
        for p, out, log, rs in procs:
            n = len(rs)
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.seek(0)
            text = log.read()
            log.close()
            if not os.path.exists(out) or 'No error has been found' not in text:
                if re.search(NOVALUE, text):
                    # a value no number of the specification comes close to
                    if n == 1:
                        st['n'] += 1
                        bad.append([rs[0]['id'], 'OutOfRange'])
                    else:
                        again.append(rs)
                    continue
                keep = os.environ.get('MV_KEEP')
                if keep:
                    shutil.copytree(base, keep, dirs_exist_ok=True)
                raise ToolError('TLC failed on %s:\n%s' % (module, text[-3500:]))
            with open(out) as f:
                o = json.load(f)
            o = o[0] if isinstance(o, list) else o
            if o['n'] != n:
                raise ToolError('%s judged %s of %d records' % (module, o['n'], n))
            g, d = _stats(text)
            st['generated'] += g
            st['distinct'] += d
            st['n'] += o['n']
            st['events'] += o.get('events', 0)
            for k, v in (o.get('cov') or {}).items():
                st['cov'][k] = st['cov'].get(k, 0) + v
            bad += o['bad'] if isinstance(o['bad'], list) else []
        # narrow down to the records which carry such a value
        for rs in again[:3]:
            b, x = judge(module, rs, shards=min(8, len(rs)), timeout=timeout, env=env, weight=weight, cfg=cfg)
            bad += b
            for k in ('n', 'events', 'generated', 'distinct'):
                st[k] += x[k]
            for k, v in x['cov'].items():
                st['cov'][k] = st['cov'].get(k, 0) + v
        if len(again) > 3:
            if not bad:
                raise ToolError('values out of range in most records of %s' % module)
            st['n'] += sum(len(rs) for rs in again[3:])
        return bad, st
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(base, ignore_errors=True)


def simulate(module, cfg, num, depth, seed, timeout=120):
    """behaviours of a specification, as lists of states printed by TLC.
    The module must PrintT a JSON line per behaviour (ToJson), prefixed BEHAV:"""
    meta = tempfile.mkdtemp(prefix='mvsim_')
    try:
        p = subprocess.run(_java(module, os.path.join(SPEC, cfg), meta + '/m', 1, '2g',
                                 ['-deadlock', '-simulate', 'num=%d' % num, '-depth', str(depth),
                                  '-seed', str(seed)]),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=meta, timeout=timeout)
        text = p.stdout.decode()
        return _printed(module, text)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _printed(module, text):
    out = []
    for l in text.splitlines():
        if 'BEHAV:' in l:
            s = l[l.index('BEHAV:') + 6:].rstrip('"')
            out.append(json.loads(s.replace('\\"', '"')))
    if not out:
        raise ToolError('no behaviours from %s:\n%s' % (module, text[-2000:]))
    return out


def enumerated(module, cfg, timeout=300):
    """everything a specification prints while all of its states are explored"""
    meta = tempfile.mkdtemp(prefix='mvenum_')
    try:
        p = subprocess.run(_java(module, os.path.join(SPEC, cfg), meta + '/m', 4, '3g', ['-deadlock']),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=meta, timeout=timeout)
        text = p.stdout.decode()
        if 'No error has been found' not in text:
            raise ToolError('%s:\n%s' % (module, text[-2000:]))
        return sorted(_printed(module, text), key=lambda b: json.dumps(b, sort_keys=True))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
