"""One run of MetSim as a program of its own, so that worker processes can be
started from it; every process reports to the same log.  MV_RUN names the
pickled description.  Workers import this file again and report as well."""
import os
import pickle
import sys
import types
import warnings

warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MV_REPO', '/repo')
for p in (HERE, REPO):
    if p not in sys.path:
        sys.path.insert(0, p)
from mv import hooks, runs     # noqa
hooks.install()
C, O = None, None
if os.environ.get('MV_RUN'):
    with open(os.environ['MV_RUN'], 'rb') as _f:
        C = pickle.load(_f)
    O = runs.Observer(C['log'], C['names'], C['refs'], C['fault'], None, True, linger=4)
    hooks.set_recorder(O, C['dir'], True)
    import logging
    logging.disable(logging.CRITICAL)
    if C['fault'] and C['fault']['step'] == 'compute':
        from metsim.metsim import MetSim
        runs.patch_compute(MetSim, runs.Computing(lambda: O, 1, None))


def main():
    from metsim.metsim import MetSim
    p, cluster = C['params'], None
    try:
        if C['mode'] == 'inproc':
            from distributed import LocalCluster
            cluster = LocalCluster(n_workers=p['num_workers'], threads_per_worker=2, processes=False, dashboard_address=None)
            p['scheduler'] = cluster.scheduler_address
        elif C['mode'] == 'file':
            from distributed import LocalCluster, Client
            cluster = LocalCluster(n_workers=p['num_workers'], threads_per_worker=1, dashboard_address=None)
            c = Client(cluster)
            c.write_scheduler_file(os.path.join(C['dir'], 'scheduler.json'))
            p['scheduler'] = os.path.join(C['dir'], 'scheduler.json')
        else:
            p['scheduler'] = C['mode']
        MetSim(p).run()
        res = ('ok', '')
    except Exception as e:
        res = ('error', '%s: %s' % (type(e).__name__, str(e)[:300]))
    O.ended = True
    runs.save(C['res'], res)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
