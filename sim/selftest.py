"""Determinism: the same seed gives the same executions, in separate processes and under load.

    python -m sim.run selftest [C01 ...]      20 workloads per lane of each property, twice, compared by their event logs
"""
import os
import glob
import shutil
import tempfile


def main(argv):
    from . import run
    ids = argv or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(run.VERIF, 'sim', 'props', 'c[0-9]*.py')))
    bad = 0
    for prop in ids:
        logs = []
        for i in range(2):
            base = tempfile.mkdtemp(prefix='gitdbsim-', dir=run.scratch_base())
            try:
                res, errors = run.run_lanes(prop, 4711, 'quick', 20, base, minimise=False)
            finally:
                shutil.rmtree(base, ignore_errors=True)
            if errors:
                print('%s: %s' % (prop, errors))
                bad = 1
            logs.append([(st['logd'], st['evaluations'], sorted(st['digests'])) for st in res])
        same = logs[0] == logs[1]
        bad |= not same
        print('%s: %d executions, %s' % (prop, sum(x[1] for x in logs[0]), 'identical' if same else 'DIFFERENT'))
        if not same:
            for a, b in zip(*logs):
                if a != b:
                    print('   %d of %d differ' % (len(set(a[2]) ^ set(b[2])), len(a[2])))
    return int(bool(bad))
