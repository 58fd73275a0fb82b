"""Executes runs of one property inside one process (a lane), minimises failures, replays plans."""
import sys
sys.dont_write_bytecode = True
from sim import core
core.install()                          # before anything below imports tempfile / random / mmap

import os
import gc
import json
import copy
import ctypes
import hashlib
import random
import resource
import shutil
import signal
import importlib

real_time = core.REAL['time.monotonic']


def load(prop):
    from sim import lib      # imports gitdb through the seam
    return importlib.import_module('sim.props.' + prop.lower()), lib


class Result:
    pass


CPU_LIMIT = float(os.environ.get('SIM_CPU_LIMIT', '20'))


def _on_cpu(signum, frame):
    w = core.ACTIVE
    if w is None:
        return
    w.hung = True
    if w.multi:
        ident = w.cur.ident
        if ident is not None:
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(ident), ctypes.py_object(core.SimHang))
        return
    raise core.SimHang()


class Lane:
    def __init__(self, prop, scratch):
        self.prop = prop
        self.mod, self.lib = load(prop)
        self.root = os.path.join(scratch, 'r')
        self.scratch = scratch
        signal.signal(signal.SIGVTALRM, _on_cpu)
        # a runaway allocation becomes MemoryError instead of an OOM kill
        lim = getattr(self.mod, 'AS_LIMIT', 6 << 30)
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        gc.disable()
        gc.collect()
        gc.freeze()
        self.base_fds = None

    def _clean(self):
        os.chdir(self.scratch)
        if os.path.lexists(self.root):
            for d, _, _ in os.walk(self.root):
                os.chmod(d, 0o755)
            shutil.rmtree(self.root)

    def run(self, plan):
        """:return: Result of executing the plan"""
        g = core.GLOBALS
        g.load(g.base)
        r = self._run(plan)
        if g.load(g.base) and not g.used:
            g.used = True       # from now on processes don't share them
            r = self._run(plan)
            g.load(g.base)
        return r

    def _run(self, plan):
        self._clean()
        os.mkdir(self.root)
        os.mkdir(os.path.join(self.root, 'w'))
        os.mkdir(os.path.join(self.root, 'tmp'))
        os.chdir(self.root)
        os.umask(0o022)
        random.seed(plan.get('cfg', {}).get('nseed', 1))
        w = core.World(self.root, plan)
        w.hung = False
        w.stamp('w')
        r = Result()
        r.violation = None
        lib = self.lib
        lib.knobs(w, w.cfg)
        before = set(os.listdir('/proc/self/fd'))
        w.activate()
        signal.setitimer(signal.ITIMER_VIRTUAL, getattr(self.mod, 'CPU_LIMIT', CPU_LIMIT), 0.5)
        try:
            try:
                self.mod.execute(w, plan)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                w.paused = 1
                w.multi = False
        except core.Violation as e:
            r.violation = (e.cls, e.msg)
            e.__traceback__ = None
        except core.SimHang as e:
            r.violation = ('hang', 'the run exceeded its budget of %s CPU seconds, %d calls or %d decompressors' % (getattr(self.mod, 'CPU_LIMIT', CPU_LIMIT), w.MAX_CALLS, w.MAX_ZIP))
            e.__traceback__ = None
        except core.HarnessError:
            raise
        except core.SimIntr:
            # nobody to judge whatever the signal ended
            w.probe('run_interrupted')
        except (core.SimCrash, core.SimAbort) as e:
            raise core.HarnessError('stray %r' % e)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/gitdb/' in f.filename and '/sim/' not in f.filename]
            loc = '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else 'oracle'
            r.violation = ('exception:%s@%s' % (type(e).__name__, loc.split(':')[0]),
                           'unexpected %s: %s in %s\n%s' % (type(e).__name__, e, loc, ''.join(traceback.format_list(tb[-6:]))))
            e.__traceback__ = None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if w.hung and r.violation is None:
            r.violation = ('hang', 'the run exceeded its budget of CPU time')
        if w.hung and r.violation[0] != 'hang':
            r.violation = ('hang', r.violation[1])
        w.hooks = []
        w.main.dead = False
        w.mans.clear()
        lib.reset_knobs()
        for fd in list(w.fdpath):
            try:
                core.REAL['close'](fd)
            except OSError:
                pass
        gc.collect()
        w.deactivate()
        left = set(os.listdir('/proc/self/fd')) - before
        for fd in left:
            try:
                os.close(int(fd))
            except OSError:
                pass
        r.digest = w.digest()
        r.calls = w.ncalls
        r.trace = w.trace
        r.fired = w.fired
        r.probes = w.probes
        r.switches = w.nswitch
        r.points = w.npoints
        r.sched_sig = w.sched_sig.hexdigest() if w.nswitch else ''
        r.sim_ns = w.now_ns - w.t_start
        r.events = w.events
        r.world = None
        self._clean()
        return r

    # -------------------------------------------------------------------------------------------- generating
    def make(self, seed, i, tier):
        """:return: (plan, needs_faults, rng) for run i"""
        h = hashlib.sha256(('%s/%s/%s' % (self.prop, seed, i)).encode()).digest()
        rng = random.Random(int.from_bytes(h[:8], 'big'))
        plan = self.mod.gen(rng, tier)
        env = random.Random(int.from_bytes(h[8:16], 'big'))
        if env.random() < .4:
            plan['cfg'].setdefault('pidns', 1)
        if self.prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C15') and env.random() < .4:
            plan['cfg'].setdefault('tick', 0)       # a clock too coarse to tell two calls apart
        plan['prop'] = self.prop
        plan['hashseed'] = os.environ.get('PYTHONHASHSEED', '0')
        plan['origin'] = 'seed %s run %s' % (seed, i)
        for n, op in enumerate(plan['ops']):
            op.setdefault('id', n)
        return plan, rng

    # -------------------------------------------------------------------------------------------- minimising
    def minimise(self, plan, cls, budget_s=45, max_runs=600):
        t0 = real_time()
        runs = [0]
        if cls == 'hang':
            max_runs = 12

        def bad(p):
            if runs[0] >= max_runs or real_time() - t0 > budget_s:
                return False
            runs[0] += 1
            try:
                r = self.run(p)
            except core.HarnessError:
                return False
            return r.violation is not None and r.violation[0] == cls

        best = plan

        def ddmin(get, put):
            nonlocal best
            items = get(best)
            n = 2
            while len(items) >= 1:
                size = max(1, len(items) // n)
                shrunk = False
                for i in range(0, len(items), size):
                    cand = items[:i] + items[i + size:]
                    p = put(copy.deepcopy(best), copy.deepcopy(cand))
                    if bad(p):
                        best = p
                        items = get(best)
                        n = max(2, n - 1)
                        shrunk = True
                        break
                if not shrunk:
                    if size == 1:
                        break
                    n = min(len(items), n * 2)
                if real_time() - t0 > budget_s or runs[0] >= max_runs:
                    break

        def putter(key):
            def put(p, v):
                p[key] = v
                return p
            return put
        for _ in range(2):
            for key in ('sched', 'faults', 'ops'):
                if best.get(key):
                    ddmin(lambda p, key=key: list(p.get(key) or []), putter(key))
            for key in ('env',):
                if best.get('cfg', {}).get(key):
                    def put(p, v, key=key):
                        p['cfg'][key] = v
                        return p
                    ddmin(lambda p, key=key: list(p['cfg'].get(key) or []), put)
        # drop configuration entries and shrink sizes
        for key in list(best.get('cfg', {})):
            p = copy.deepcopy(best)
            del p['cfg'][key]
            if bad(p):
                best = p

        def sizes(node, path=()):
            if isinstance(node, dict):
                if 'k' in node and 'n' in node and isinstance(node['n'], int):
                    yield path + ('n',)
                for k in sorted(node):
                    yield from sizes(node[k], path + (k,))
            elif isinstance(node, list):
                for i, x in enumerate(node):
                    yield from sizes(x, path + (i,))
        for path in list(sizes(best.get('ops', []))):
            for _ in range(12):
                node = best['ops']
                for k in path[:-1]:
                    node = node[k]
                v = node[path[-1]]
                done = False
                for nv in (0, 1, v // 4, v // 2, v - 1):
                    if 0 <= nv < v:
                        p = copy.deepcopy(best)
                        node = p['ops']
                        for k in path[:-1]:
                            node = node[k]
                        node[path[-1]] = nv
                        if bad(p):
                            best = p
                            done = True
                            break
                if not done:
                    break
        best['minimise_runs'] = runs[0]
        return best


def lane_main(args):
    """args: dict(prop, seed, tier, lane, lanes, runs, scratch, out, soft_s)"""
    lane = Lane(args['prop'], args['scratch'])
    mod = lane.mod
    t0 = real_time()
    st = dict(evaluations=0, nontrivial=0, fired={}, probes={}, calls=0, switches=0, points=0, sim_ns=0, samples=[], harness=None,
              violation=None, planned=args['runs'], runs=0)
    digests = set()
    scheds = set()
    distinct_nt = set()
    logd = hashlib.sha256()

    def account(plan, r):
        st['evaluations'] += 1
        st['calls'] += r.calls
        st['switches'] += r.switches
        st['points'] += r.points
        st['sim_ns'] += max(0, r.sim_ns)
        for k, v in r.fired.items():
            st['fired'][k] = st['fired'].get(k, 0) + v
        for k, v in r.probes.items():
            st['probes'][k] = st['probes'].get(k, 0) + v
        d = r.digest[:20]
        logd.update(d.encode())
        digests.add(d)
        if r.sched_sig:
            scheds.add(r.sched_sig[:20])
        if mod.nontrivial(plan, r):
            st['nontrivial'] += 1
            distinct_nt.add(d)
            if len(st['samples']) < 2:
                st['samples'].append({'plan': plan, 'events': r.events[:40]})

    def check(plan):
        r = lane.run(plan)
        account(plan, r)
        return r

    i = args['lane']
    try:
        for n in range(args['runs']):
            if real_time() - t0 > args['soft_s']:
                break
            plan, rng = lane.make(args['seed'], i + n * args['lanes'], args['tier'])
            st['runs'] += 1
            r = check(plan)
            nf = 0
            while r.violation is None:
                faults = mod.place(rng, plan, r.trace, nf) if hasattr(mod, 'place') else None
                if not faults:
                    break
                p2 = copy.deepcopy(plan)
                p2['faults'] = faults
                nf += 1
                r2 = check(p2)
                if r2.violation is not None:
                    plan, r = p2, r2
            if r.violation is not None:
                st['violation'] = dict(run=n, cls=r.violation[0], msg=r.violation[1], plan=plan)
                break
    except core.HarnessError as e:
        st['harness'] = str(e)
    v = st['violation']
    st['wall_s'] = real_time() - t0
    if v is not None and args.get('minimise', True):
        p = lane.minimise(v['plan'], v['cls'])
        r = lane.run(p)
        if r.violation is None or r.violation[0] != v['cls']:
            p = v['plan']
            r = lane.run(p)
        v['plan'] = p
        if r.violation is not None:
            v['msg'] = r.violation[1]
        v['digest'] = r.digest
        v['events'] = r.events[-60:]
    st['digests'] = sorted(digests)
    st['distinct_nt'] = sorted(distinct_nt)
    st['scheds'] = sorted(scheds)
    st['logd'] = logd.hexdigest()
    with open(args['out'], 'w') as f:
        json.dump(st, f)
    lane._clean()


def replay_main(args):
    with open(args['file']) as f:
        rec = json.load(f)
    plan = rec['plan']
    lane = Lane(plan['prop'], args['scratch'])
    r = lane.run(plan)
    out = dict(violation=r.violation, digest=r.digest, events=r.events[-80:])
    with open(args['out'], 'w') as f:
        json.dump(out, f)
    lane._clean()


if __name__ == '__main__':
    a = json.loads(sys.argv[1])
    try:
        if 'file' in a:
            replay_main(a)
        else:
            lane_main(a)
    except core.HarnessError as e:
        sys.stderr.write('harness error: %s\n' % e)
        os._exit(3)
    sys.stdout.flush()
    os._exit(0)
