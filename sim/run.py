"""Entry point:  python -m sim.run check C01 | replay FILE | selftest [ids]"""
import os
import re
import sys
import json
import time
import shutil
import hashlib
import tempfile
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANES = 8
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        try:
            s = os.statvfs(d)
            if s.f_bavail * s.f_frsize > (1 << 30) and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def spawn(args, hashseed, log):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=VERIF, LC_ALL='C.UTF-8', TZ='UTC')
    env.pop('PYTHONSTARTUP', None)
    if env.get('GITDB_REPO'):       # experiments with scratch copies; the registered commands run on /repo
        env['PYTHONPATH'] = VERIF + ':' + env['GITDB_REPO']
    return subprocess.Popen([PY, '-B', '-X', 'faulthandler', '-m', 'sim.lane', json.dumps(args)], env=env, cwd=VERIF, stdout=log, stderr=log)


def hashseed_for(seed, lane):
    return int.from_bytes(hashlib.sha256(b'%s/%d' % (str(seed).encode(), lane)).digest()[:4], 'big') % 4294967295


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)['findings']
    return []


def run_lanes(prop, seed, tier, runs, base, lanes=LANES, soft_s=None, minimise=True, hs=None, hard_s=800):
    procs = []
    for l in range(lanes):
        sc = os.path.join(base, 'lane%d' % l)
        os.mkdir(sc)
        args = dict(prop=prop, seed=seed, tier=tier, lane=l, lanes=lanes, runs=runs, scratch=sc, out=os.path.join(base, 'out%d.json' % l),
                    soft_s=soft_s or 1e9, minimise=minimise)
        log = open(os.path.join(base, 'log%d' % l), 'w')
        procs.append((spawn(args, hashseed_for(seed if hs is None else hs, l), log), log, l))
    res = []
    errors = []
    deadline = time.monotonic() + hard_s
    for p, log, l in procs:
        try:
            rc = p.wait(max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
        log.close()
        out = os.path.join(base, 'out%d.json' % l)
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                st = json.load(f)
            st['lane'] = l
            if st['harness']:
                errors.append('lane %d: %s' % (l, st['harness']))
            res.append(st)
        else:
            with open(os.path.join(base, 'log%d' % l)) as f:
                errors.append('lane %d ended with %s:\n%s' % (l, rc, f.read()[-3000:]))
    return res, errors


def replay(path, base):
    with open(path) as f:
        rec = json.load(f)
    sc = os.path.join(base, 'replay%d' % len(os.listdir(base)))
    os.mkdir(sc)
    out = os.path.join(base, os.path.basename(sc) + '.json')
    logp = os.path.join(base, os.path.basename(sc) + '.log')
    with open(logp, 'w') as log:
        p = spawn(dict(file=os.path.abspath(path), scratch=sc, out=out), rec['plan'].get('hashseed', '0'), log)
        try:
            rc = p.wait(300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
    if rc != 0:
        with open(logp) as f:
            return None, f.read()[-3000:]
    with open(out) as f:
        return json.load(f), None


def check(prop, tier, seed):
    t0 = time.monotonic()
    base = tempfile.mkdtemp(prefix='gitdbsim-', dir=scratch_base())
    try:
        return _check(prop, tier, seed, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def runs_for(prop, tier):
    import ast
    with open(os.path.join(VERIF, 'sim', 'props', prop.lower() + '.py')) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id == 'RUNS':
                return ast.literal_eval(node.value)[tier]
    raise SystemExit('no RUNS in ' + prop)


def meta_for(prop):
    import ast
    m = {}
    with open(os.path.join(VERIF, 'sim', 'props', prop.lower() + '.py')) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id in ('RULE', 'LEVEL', 'REAL_CODE', 'STUBS', 'FAULTS'):
                m[node.targets[0].id] = ast.literal_eval(node.value)
    return m


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def _check(prop, tier, seed, base, t0):
    runs = runs_for(prop, tier)
    soft = 200 if tier == 'quick' else 3 * 3600
    res, errors = run_lanes(prop, seed, tier, runs, base, soft_s=soft, hard_s=800 if tier == 'quick' else 4 * 3600)
    meta = meta_for(prop)
    tot = dict(evaluations=0, nontrivial=0, calls=0, switches=0, points=0, sim_ns=0, runs=0, planned=0)
    fired, probes = {}, {}
    digests, nts, scheds = set(), set(), set()
    samples = []
    for st in res:
        for k in tot:
            tot[k] += st[k]
        merge(fired, st['fired'])
        merge(probes, st['probes'])
        digests.update(st['digests'])
        nts.update(st['distinct_nt'])
        scheds.update(st['scheds'])
        samples.extend(st['samples'][:1])
    viol = [(st['violation']['run'], st['lane'], st['violation']) for st in res if st['violation']]
    viol.sort(key=lambda v: (v[0], v[1]))
    kf = [k for k in known() if k.get('property') == prop and k.get('status') == 'open']
    unlisted = []
    listed = {}
    for v in viol:
        m = [k for k in kf if k['class'] == v[2]['cls'] and re.search(k['match'], v[2]['msg'])]
        if m:
            listed.setdefault(m[0]['id'], (m[0], v))
        else:
            unlisted.append(v)
    wall = time.monotonic() - t0
    lane_wall = max([st['wall_s'] for st in res] or [wall])
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get('LEVEL', 'exploration'), wall_s=round(wall, 2), violations=len(unlisted),
              coverage=dict(
                  evaluations=tot['evaluations'], distinct_nontrivial=len(nts), rule=meta['RULE'],
                  samples=samples[:2],
                  simulated_workloads=tot['runs'], planned_workloads=tot['planned'],
                  runs_per_hour=int(tot['evaluations'] / max(lane_wall, .001) * 3600),
                  seeds_per_hour=int(tot['runs'] / max(lane_wall, .001) * 3600),
                  simulated_seconds=round(tot['sim_ns'] / 1e9, 3),
                  simulated_calls=tot['calls'], scheduling_points=tot['points'], context_switches=tot['switches'],
                  distinct_event_logs=len(digests), distinct_schedules=len(scheds),
                  faults_injected=dict(sorted(fired.items())), probes=dict(sorted(probes.items())),
                  lanes=LANES, hash_seeds=[hashseed_for(seed, l) for l in range(LANES)],
                  event_log_digest=hashlib.sha256(''.join(st['logd'] for st in res).encode()).hexdigest(),
                  real_code=meta.get('REAL_CODE', 'all of gitdb and smmap, zlib, hashlib; the real file system of a scratch directory'),
                  stubs=meta.get('STUBS', 'clock, sleep, temporary names, directory order, thread scheduler, fault decisions'),
              ),
              assumptions=['process-crash model: completed system calls survive', 'faults are placed at system calls the fault-free run made'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%s: %d runs, %d distinct non-trivial, %d calls, faults %s, %.1fs' % (
        prop, tier, seed, tot['evaluations'], len(nts), tot['calls'], sum(fired.values()), wall))
    zero = [k for k, v in probes.items() if v == 0]
    if zero:
        print('probes at zero: %s' % ', '.join(sorted(zero)))
    for id, (k, v) in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if unlisted:
        run, lane, v = unlisted[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join('replays', '%s-%s.json' % (prop, hashlib.sha1(json.dumps(v['plan'], sort_keys=True).encode()).hexdigest()[:10]))
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump(dict(property=prop, violation=[v['cls'], v['msg']], plan=v['plan'], digest=v['digest'], events=v['events']), f, indent=1)
        got, err = replay(os.path.join(VERIF, path), base)
        if got is not None and got['violation'] and got['violation'][0] == v['cls']:
            print('replayed in a fresh process: same violation, %s event log' % ('same' if got['digest'] == v['digest'] else 'DIFFERENT'))
        else:
            print('replay in a fresh process did not reproduce: %r' % (got and got['violation'] or err))
        print('[%s] %s' % (v['cls'], v['msg']))
        print('minimised plan: %s' % json.dumps(v['plan'])[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        for e in errors:
            print('note: ' + e)
        return 1
    if errors:
        print('HARNESS ERROR in %s' % prop)
        for e in errors:
            print(e)
        return 2
    return 0


def main(argv):
    if argv[0] == 'check':
        tier = os.environ.get('VERIF_TIER') or 'quick'
        seed = int(os.environ.get('VERIF_SEED') or 1)
        for a in argv[2:]:
            if a in ('quick', 'thorough'):
                tier = a
        return check(argv[1], tier, seed)
    if argv[0] == 'replay':
        base = tempfile.mkdtemp(prefix='gitdbsim-', dir=scratch_base())
        try:
            got, err = replay(argv[1], base)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        if got is None:
            print(err)
            return 2
        with open(argv[1]) as f:
            rec = json.load(f)
        for e in got['events']:
            print('  ' + e)
        if got['violation']:
            print('[%s] %s' % tuple(got['violation']))
            print('event log %s the recorded one' % ('equals' if got['digest'] == rec.get('digest') else 'DIFFERS from'))
            print('VIOLATION property=%s replay=%s' % (rec['plan']['prop'], argv[1]))
            return 1
        print('no violation')
        return 0
    if argv[0] == 'selftest':
        from . import selftest
        return selftest.main(argv[1:])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
