"""C05: LockedFD gives exclusive access and all-or-nothing replacement."""
from ..lib import *
from .. import lib, core
import errno

RUNS = {'quick': 2250, 'thorough': 30000}
RULE = ("a run lets 2-4 clients (processes or threads) open one or two files through LockedFD for reading and writing, commit, roll back, drop and die, under a "
        "random schedule switching at system calls, fault-free and then up to four times with system-call faults or process kills; non-trivial: two clients "
        "overlapped in time and at least one lock was refused or a fault or kill hit; distinct by the log of all simulated calls")
REAL_CODE = 'gitdb.util.LockedFD, gitdb.stream.FDStream; the real file system of a scratch directory'

CLASSES = ('creat', 'open', 'write', 'close', 'rename', 'unlink', 'chmod', 'read', 'stat')


# two files that belong to each other in no way
NAMES = (('w/f0', 'w/f1'), ('w/f0', 'w/f1'), ('w/f0', 'w/f1'), ('w/v1.1', 'w/v1.2'), ('w/f', 'w/f.x'), ('w/index', 'w/index.tmp'), ('w/a.b/x', 'w/a.b/y'), ('w/f', 'w/F'),
         ('w/d1/f', 'w/d2/f'), ('w/.f', 'w/.g'), ('w/f ', 'w/f'), ('w/$HOME', 'w/~'), ('w/f%s', 'w/f%d'), ('w/\u00e9', 'w/e\u0301'), ('w/f.1', 'w/f.10'), ('w/lock', 'w/locks'),
         ('w/f.', 'w/f'), ('w/a.d/f', 'w/a.e/f'), ('w/' + 'n' * 200 + '1', 'w/' + 'n' * 200 + '2'), ('w/a b', 'w/a'), ('w/x.lock.y', 'w/x'), ('w/f*', 'w/f?'), ('w/f#1', 'w/f'))


def gen(rng, tier):
    nact = rng.choice((1, 2, 2, 2, 3, 3, 4))
    threads = rng.random() < .3
    cfg = {'nseed': rng.randrange(1 << 30), 'actors': nact, 'threads': threads, 'initial': [rng.choice((None, 0, 5, 300)), rng.choice((None, 40))]}
    share = .75
    if rng.random() < .5:
        cfg['names'] = rng.randrange(len(NAMES))
        share = .5
    if rng.random() < .15:
        cfg['link'] = [rng.choice((None, 'sym', 'hard')), rng.choice((None, 'sym'))]
    ops = []
    for i in range(rng.randrange(2, 4 + 3 * nact)):
        op = {'a': rng.randrange(nact), 'f': 0 if rng.random() < share else 1}
        c = rng.random()
        if c < .6:
            op.update(op='write', c=F.recipe(rng, (0, 1, 2, 10, 100, 1000, 5000)), parts=rng.choice((1, 1, 2, 3)), stream=rng.random() < .6,
                      end=rng.choice(('commit', 'commit', 'commit', 'rollback', 'drop')), nested=rng.random() < .25, double=rng.random() < .25)
        elif c < .92:
            op.update(op='read', stream=rng.random() < .5, n=rng.choice((-1, 1, 7, 1000)), end=rng.choice(('commit', 'rollback', 'drop')), nested=rng.random() < .2,
                      double=rng.random() < .2)
        else:
            op.update(op='clean')
        if op['op'] != 'clean' and rng.random() < .12:
            op['again'] = rng.choice('rw')
        if op['op'] != 'clean' and rng.random() < .1:
            op['hold'] = rng.choice((-5, 61, 700, 4000, 90000, 10 ** 7))
        ops.append(op)
    return {'cfg': cfg, 'ops': ops, 'sched': gen_sched(rng, 60)}


def place(rng, plan, trace, nf):
    if nf >= 4:
        return None
    out = []
    if rng.random() < .35:
        f = pick_crash(rng, trace)
        if f:
            out.append(f)
    for _ in range(rng.choice((0, 1, 1, 2)) if out else rng.choice((1, 1, 2))):
        f = pick_fault(rng, trace, CLASSES)
        if f:
            out.append(f)
    return interrupts(rng, out) or None


def execute(w, plan):
    cfg = plan['cfg']
    nact = cfg.get('actors', 2)
    path = NAMES[cfg.get('names', 0)].__getitem__
    for f in (0, 1):
        w.mkdirs(os.path.dirname(path(f)))
    L = gutil.LockedFD
    state = {}
    for f, n in enumerate(cfg.get('initial', [5, None])):
        if n is None:
            state[f] = None
        else:
            state[f] = F.content({'k': 'text', 'n': n, 's': f})
            w.put(path(f), state[f], 0o644)
            link = cfg.get('link', (None, None))[f]
            if link:
                # the contents have another name
                with w.pause():
                    if link == 'sym':
                        os.rename(path(f), 'w/target%d' % f)
                        os.symlink(os.path.abspath('w/target%d' % f), path(f))
                    else:
                        os.link(path(f), 'w/target%d' % f)
    owner = {0: None, 1: None}      # actor whose lock file exists
    holder = {0: None, 1: None}     # actor between return of open and call of commit/rollback
    replaced = set()
    pending = {}                    # actor -> content it commits if its lock is renamed now
    busy = {0: set(), 1: set()}
    overlap = [0, 0]
    # left by a killed client, or by one whose unlink was made to fail
    dead_lock = lambda f: owner[f] is not None and (owner[f].dead or owner[f] not in busy[f])

    def there(p):
        with w.pause():
            return os.path.lexists(p)

    def files(rel):
        for f in (0, 1):
            if rel == path(f):
                return f, False
            if rel == path(f) + '.lock':
                return f, True
        return None, None

    def now(f):
        try:
            return w.get(path(f))
        except FileNotFoundError:
            return None

    def hook(name, rel, rel2):
        me = w.cur
        f, islock = files(rel)
        f2, islock2 = files(rel2) if rel2 else (None, None)
        if name == 'open' and islock:
            if owner[f] is not None and owner[f] is not me:
                fail('lock-stolen', '%s opened the lock of %s for writing' % (me.name, owner[f].name))
            owner[f] = me
        elif name in ('unlink', 'remove') and islock:
            if owner[f] is not me:
                fail('lock-stolen', '%s removed the lock of %s' % (me.name, owner[f] and owner[f].name))
            owner[f] = None
        elif name in ('rename', 'replace'):
            if islock:
                if owner[f] is not me:
                    fail('lock-stolen', '%s renamed the lock of %s' % (me.name, owner[f] and owner[f].name))
                owner[f] = None
            if f2 is not None and not islock2:
                if me not in pending:
                    fail('content', '%s replaced %s outside of a commit' % (me.name, rel2))
                state[f2] = pending[me]
                replaced.add(me)
        for f in (0, 1):
            c = now(f)
            if c != state[f]:
                fail('content', 'after %s by %s, %s holds %s instead of %s' % (name, me.name, path(f), c if c is None else short(c), state[f] if state[f] is None else short(state[f])))
            if holder[f] is not None and not there(path(f) + '.lock'):
                fail('lock-lost', 'the lock of %s on %s has disappeared' % (holder[f].name, path(f)))

    w.hooks.append(hook)

    def nfaults():
        return sum(w.fired.values())

    def fired(*cls):
        return sum(v for k, v in w.fired.items() if k.split(':')[0] in cls)

    def try_open(act, f, write, stream):
        """:return: (lockedfd, stream or fd) or None if refused"""
        rivals = [a for a in busy[f] if a is not act]
        if rivals:
            overlap[0] += 1
        others_before = set(rivals)
        was_mine = owner[f] is act
        was_locked = owner[f] is not None
        seen = state[f]
        hit = nfaults()
        seen_busy.setdefault(act, set()).clear()
        l = L(path(f))
        ok, r = attempt(l.open, write, stream)
        if act.dead:
            raise core.SimCrash()
        if ok:
            if holder[f] is not None:
                fail('not-exclusive', '%s and %s have %s open' % (holder[f].name, act.name, path(f)))
            if not there(path(f) + '.lock'):
                fail('lock-lost', 'open by %s returned without lock file' % act.name)
            return l, r
        if not isinstance(r, FAULTS):
            fail('wrong-exception', 'open raised %s: %s' % (exname(r), r))
        overlap[1] += 1
        w.probe('refused')
        if not was_mine and owner[f] is act and fired('unlink') == hitc.get(act, 0):
            fail('lock-left', 'failed open by %s leaves the lock of %s behind: %s' % (act.name, path(f), r))
        if not others_before and not seen_busy[act] and not was_locked and nfaults() == hit:
            if write or not (seen is None and state[f] is None):
                fail('spurious', 'open of unlocked %s by %s failed: %s' % (path(f), act.name, r))
        # instances of a failed open do no harm
        if op_end.get(act):
            ok, e = attempt(l.rollback)
        del l
        return None

    seen_busy = {}
    op_end = {}
    hitc = {}

    def enter(act, f):
        busy[f].add(act)
        for a, s in seen_busy.items():
            if a is not act:
                s.add(act)

    def my_fds(act):
        return [w.fdpath[fd] for fd, p in w.fdproc.items() if p == act.proc]

    def fds_left(act, what):
        if not cfg.get('threads') and my_fds(act):
            fail('fd-leak', 'descriptors left after %s: %s' % (what, my_fds(act)))

    def do(act, op):
        f = op['f']
        k = op['op']
        if k == 'clean':
            if dead_lock(f):
                owner[f] = None
                w.delete(path(f) + '.lock')
            return
        enter(act, f)
        hitc[act] = fired('unlink')
        op_end[act] = op.get('double')
        mine_before = owner[f] is act       # left over because unlink failed
        g = None
        try:
            g = try_open(act, f, k == 'write', op['stream'])
            if g is None:
                fds_left(act, 'failed open')
                return
            l, h = g
            g = None
            holder[f] = act
            failed = None
            if op.get('hold'):
                # the holder takes its time, or the clock is set
                w.jump_clock(op['hold'] * 10 ** 9)
            if k == 'write':
                data = F.content(op['c'])
                n = max(1, -(-len(data) // op['parts']))
                pos = 0
                while pos < len(data) and failed is None:
                    part = data[pos:pos + n]
                    if op['stream']:
                        ok, e = attempt(h.write, part)
                        if not ok:
                            failed = e
                            if not isinstance(e, FAULTS):
                                fail('wrong-exception', 'write raised %r' % e)
                        elif h.tell() != pos + len(part):
                            fail('tell', 'tell() is %r after writing %d bytes' % (h.tell(), pos + len(part)))
                        pos += len(part)
                    else:
                        ok, e = attempt(os.write, h, part)
                        if not ok:
                            failed = e
                        else:
                            pos += e
            else:
                want = state[f]
                out = []
                while True:
                    if op['stream']:
                        ok, e = attempt(h.read, *([] if op['n'] < 0 else [op['n']]))
                    else:
                        ok, e = attempt(os.read, h, op['n'] if op['n'] > 0 else 100000)
                    if not ok:
                        failed = e
                        if not isinstance(e, FAULTS):
                            fail('wrong-exception', 'read raised %s: %s' % (exname(e), e))
                        break
                    if not e:
                        break
                    out.append(e)
                if failed is None and b''.join(out) != want:
                    fail('content', '%s read %s from locked %s instead of %s' % (act.name, short(b''.join(out)), path(f), want and short(want)))
            if op.get('nested'):
                l2 = L(path(f))
                ok, e = attempt(l2.open, k != 'write')
                if act.dead:
                    raise core.SimCrash()
                if ok or not isinstance(e, FAULTS):
                    fail('not-exclusive', 'second open of locked %s gave %r' % (path(f), e))
                if op.get('double'):
                    attempt(l2.rollback)
                del l2
            if op.get('again'):
                # an instance is opened only once
                ok, e = attempt(l.open, op['again'] == 'w')
                if act.dead:
                    raise core.SimCrash()
                if ok:
                    fail('not-exclusive', 'second open by the holder of %s gave %r' % (path(f), e))
                del e
            # ---- end
            end = op['end'] if failed is None else 'rollback'
            h = None
            if act.dead:
                raise core.SimCrash()
            holder[f] = None
            before = state[f]
            hit = nfaults()
            ch = fired('chmod')
            if k == 'write' and end == 'commit':
                pending[act] = data
                replaced.discard(act)
            if end == 'drop':
                del l
                ok, e = True, None
            else:
                ok, e = attempt(getattr(l, end))
                if not ok and not isinstance(e, FAULTS):
                    fail('wrong-exception', '%s raised %s: %s' % (end, exname(e), e))
            if act.dead:
                raise core.SimCrash()
            if not ok and nfaults() == hit:
                fail('spurious', '%s failed: %r' % (end, e))
            pending.pop(act, None)
            if owner[f] is act and fired('unlink') == hitc[act]:
                fail('lock-left', '%s by %s (%s) leaves the lock of %s behind' % (end, act.name, 'ok' if ok else repr(e), path(f)))
            if k == 'write' and end == 'commit' and ok:
                committed.append((act.name, op['id']))
                if act not in replaced:
                    fail('content', 'commit by %s did not replace %s' % (act.name, path(f)))
                if fired('chmod') == ch and not [a for a in busy[f] if a is not act]:
                    with w.pause():
                        if os.stat(path(f)).st_mode & 0o444 != 0o444:
                            fail('mode', 'committed file is not readable for all')
            if op.get('double') and end != 'drop':
                ok2, e = attempt(l.rollback if end == 'commit' else l.commit)
                if act.dead:
                    raise core.SimCrash()
                if not ok2 and ok:
                    fail('double-end', 'second end raised %r' % e)
            l = None
            if act.dead:
                raise core.SimCrash()
            fds_left(act, end)
        finally:
            busy[f].discard(act)
            if holder[f] is act:
                holder[f] = None
            pending.pop(act, None)

    committed = []

    def actor(i):
        mine = [op for op in plan['ops'] if op['a'] % nact == i]

        def body(act):
            for op in mine:
                act.op = op['id']
                do(act, op)
                w.log(act.name, 'end', op['id'])
        return body
    acts = w.run_actors([('c%d' % i, 0 if cfg.get('threads') else i + 1, actor(i), None) for i in range(nact)])
    w.hooks = []
    w.cur.op = -1
    if w.badclose:
        fail('double-close', 'a descriptor was closed twice')
    # a new process can lock and read once the locks of the dead are gone
    w.restart(99)
    for f in (0, 1):
        if there(path(f) + '.lock'):
            if not (owner[f] and owner[f].dead) and not fired('unlink'):
                fail('lock-left', 'lock of %s left by %s' % (path(f), owner[f] and owner[f].name))
            w.delete(path(f) + '.lock')
        l = L(path(f))
        if state[f] is None:
            ok, e = attempt(l.open)
            if ok or not isinstance(e, FAULTS) or there(path(f) + '.lock'):
                fail('missing-file', 'reading a missing file: %r' % (e,))
        else:
            s = l.open(stream=True)
            got = s.read()
            if got != state[f]:
                fail('content', 'final content %s instead of %s' % (short(got), short(state[f])))
            if s.read(10) != b'':
                fail('content', 'read behind the end')
            l.rollback()
        if there(path(f) + '.lock'):
            fail('lock-left', 'lock left after the final read')
    w.probe('overlaps', overlap[0])
    w.probe('refused', 0)
    w.probe('commits', len(committed))


def nontrivial(plan, r):
    return r.probes.get('overlaps', 0) > 0 and (r.probes.get('refused', 0) > 0 or sum(r.fired.values()) > 0)
