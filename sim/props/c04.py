"""C04: concurrent writers and readers of one objects directory stay consistent."""
from ..lib import *
from .. import lib, core

RUNS = {'quick': 2625, 'thorough': 20000}
RULE = ("a run lets 2-4 clients (processes with databases of their own, or threads sharing one instance) store objects of a small pool and look objects up in one directory, under a "
        "random schedule switching at system calls (threads: also at bytecodes of gitdb/db), then up to twice again with one client killed or one of its calls failing; every final file is "
        "checked after every mutating call and the history against a grow-only set; non-trivial: two clients' operations overlapped in time; distinct by the log of all simulated calls")


def gen(rng, tier):
    nact = rng.choice((2, 2, 2, 3, 3, 4))
    threads = rng.random() < .35
    cfg = {'nseed': rng.randrange(1 << 30), 'actors': nact, 'threads': threads, 'target': rng.choice(('loose', 'loose', 'git')), 'dirorder': rng.randrange(4)}
    if threads and rng.random() < .25:
        cfg['target'] = 'memory'
    kn = {}
    if rng.random() < .6:
        kn['chunk'] = rng.choice((64, 512, 4096))
    cfg['knobs'] = kn
    if rng.random() < .15:
        cfg['names'] = rng.choice((nact + 1, nact + 4, 30))
    if threads:
        cfg['opcodes'] = rng.random() < .7
    npool = rng.choice((1, 1, 2, 2, 3, 5))
    pool = []
    for i in range(npool):
        r = F.recipe(rng, (0, 1, 10, 100, 1000, 5000))
        pool.append({'t': rng.choice(F.TYPES), 'c': r, 'enc': F.encoding(rng, r['n'])})
    cfg['pool'] = pool
    ops = []
    for i in range(rng.randrange(nact, 5 * nact)):
        c = rng.random()
        op = {'a': rng.randrange(nact), 'o': rng.randrange(npool)}
        if i < 2 or c < .42:
            op.update(op='store', raw=rng.random() < .2, src=gen_src(rng, 0))
            if rng.random() < .1:
                op['src'].update(mode='short', stall=rng.choice((30, 1000, 5000, 100000, 10 ** 7)))
        elif c < .6:
            op.update(op=rng.choice(('has', 'has', 'in')))
        elif c < .7:
            op.update(op='info')
        elif c < .84:
            op.update(op='stream', pat=rng.randrange(len(PATTERNS)))
        elif c < .9:
            op.update(op='iter')
        elif c < .94:
            op.update(op='size')
        elif c < .97:
            op.update(op='partial')
        else:
            op.update(op='reopen')
        ops.append(op)
    if cfg.get('opcodes'):
        sched = gen_sched(rng, 6000, rng.choice((3, 10, 40, 150, 400)))
    else:
        sched = gen_sched(rng, 150)
    return {'cfg': cfg, 'ops': ops, 'sched': sched}


def place(rng, plan, trace, nf):
    if nf >= 2:
        return None
    if nf == 0:
        f = None if plan['cfg']['threads'] else pick_crash(rng, trace)
    else:
        f = pick_fault(rng, trace, ('write', 'rename', 'mkdir', 'creat', 'close', 'chmod', 'scan', 'unlink'))
        if f and f['cls'] == 'chmod':
            f['times'] = rng.choice((1, 3, 1000))
    return [f] if f else None


def opendb(t):
    return gdb.LooseObjectDB(OBJ) if t == 'loose' else gdb.MemoryDB() if t == 'memory' else gdb.GitDB(OBJ)


def fail_bad(s):
    raise BadObject(s)


def in_db(fn, name):
    return fn.startswith('db/')


def execute(w, plan):
    cfg = plan['cfg']
    nact = cfg.get('actors', 2)
    target = cfg.get('target', 'loose')
    threads = cfg.get('threads')
    if not threads and target == 'memory':
        target = 'loose'
    w.mkdirs(OBJ)
    pool = []
    for p in cfg.get('pool') or [{'t': 'blob', 'c': {'k': 'text', 'n': 3, 's': 1}}]:
        d = F.content(p['c'])
        pool.append((F.sha(p['t'], d), p['t'], d, p.get('enc')))
    byid = {p[0]: (p[1], p[2]) for p in pool}
    invoked = {}        # sha -> first invocation of a store
    seen = {}           # sha -> first time it was definitely there (store or positive lookup returned)
    inflight = {}       # sha -> number of stores running
    unclean = set()     # objects with a failed or killed store
    clock = [0]
    live = [0]
    overlap = [0]

    def now():
        clock[0] += 1
        return clock[0]
    watch = DiskWatch(w, allowed=lambda s: byid[s] if s in invoked else None)
    shared = opendb(target) if threads else None
    if shared is not None and target == 'git':
        shared.databases()
    faulty = lambda op: any(f['op'] == op['id'] for f in plan.get('faults', ()))

    def mode(s):
        if target == 'memory':
            return 0
        h = hx(s)
        with w.pause():
            return os.stat('%s/%s/%s' % (OBJ, h[:2], h[2:])).st_mode & 0o777

    def present(s):
        seen.setdefault(s, now())

    def do(act, op, box):
        s, t, d, enc = pool[op['o'] % len(pool)]
        k = op['op']
        if k == 'reopen':
            if not threads:
                box[0] = opendb(target)
            return
        if box[0] is None:
            box[0] = opendb(target)
        db = box[0]
        t0 = now()
        must = {x for x, n in seen.items() if n < t0}
        if live[0]:
            overlap[0] += 1
        live[0] += 1
        bad = faulty(op)
        hit = sum(w.fired.values())
        try:
            if k == 'store':
                invoked.setdefault(s, t0)
                inflight[s] = inflight.get(s, 0) + 1
                done = False
                try:
                    z = F.loose_bytes(t, d, enc) if op['raw'] else d
                    ist = IStream(otype(t, len(d)), len(d), mk_src(z, op['src']), s if op['raw'] else None)
                    ok, r = attempt(db.store, ist)
                    if act.dead:
                        raise core.SimCrash()
                    done = ok
                finally:
                    inflight[s] -= 1
                    if not done:
                        unclean.add(s)
                if ok:
                    if ist.binsha != s:
                        fail('store-sha', 'store returned %r instead of %s' % (ist.binsha, hx(s)))
                    present(s)
                    if not inflight[s] and s not in unclean and mode(s) & 0o222:
                        fail('writable', 'the file of stored object %s has mode %o' % (hx(s), mode(s)))
                elif not bad:
                    fail('store-failed', 'store by %s failed: %s: %s' % (act.name, exname(r), r))
                return
            if k in ('has', 'in'):
                ok, r = attempt(db.has_object if k == 'has' else db.__contains__, s)
            elif k == 'info':
                ok, r = attempt(db.info, s)
            elif k == 'partial':
                if target == 'memory':
                    ok, r = attempt(lambda: next(x for x in db.sha_iter() if x == s) if db.has_object(s) else fail_bad(s))
                else:
                    ok, r = attempt(db.partial_to_complete_sha_hex, hx(s))
                    if ok:
                        r = bytes(r)
            elif k == 'stream':
                def get():
                    x = db.stream(s)
                    return tname(x.type), x.size, drain(x, PATTERNS[op['pat']], len(d))
                ok, r = attempt(get)
            elif k == 'iter':
                def get():
                    r = []
                    for x in db.sha_iter():
                        r.append(bytes(x))
                        w.yield_point('item')
                    return r
                ok, r = attempt(get)
            else:
                ok, r = attempt(db.size)
            if act.dead:
                raise core.SimCrash()
            t1 = now()
            w.log(act.name, k, ok and k in ('has', 'in', 'size') and r)
            may = {x for x, n in invoked.items() if n < t1}
            if not ok and not isinstance(r, BadObject):
                if bad and isinstance(r, OSError):
                    return
                fail('lookup-failed', '%s by %s failed: %s: %s' % (k, act.name, exname(r), r))
            if k in ('iter', 'size'):
                if k == 'size':
                    if not len(must) <= r <= len(may):
                        fail('size', 'size() is %r; %d objects were stored before, %d stores were started' % (r, len(must), len(may)))
                    return
                if len(r) != len(set(r)):
                    fail('iter', 'sha_iter yields an id twice')
                if not must <= set(r):
                    fail('lost', 'sha_iter by %s misses %s' % (act.name, sorted(hx(x) for x in must - set(r))))
                if not set(r) <= may:
                    fail('ghost', 'sha_iter yields ids nobody stored')
                for x in r:
                    present(x)
                return
            found = ok and r is not False
            if not found and s in must and not (bad and sum(w.fired.values()) > hit):
                fail('lost', '%s by %s does not find %s although it was stored before: %s' % (k, act.name, hx(s), r))
            if found:
                if s not in may:
                    fail('ghost', '%s finds %s that nobody stored' % (k, hx(s)))
                present(s)
                if k in ('has', 'in') and r is not True:
                    fail('has-type', 'has_object gives %r' % (r,))
                if k == 'info':
                    check_info(r, s, t, len(d), 'info')
                if k == 'stream' and r != (t, len(d), d):
                    fail('content', 'stream of %s by %s gives %s %d %s instead of %s %d %s' % ((hx(s), act.name) + r[:2] + (short(r[2]), t, len(d), short(d))))
                if k == 'partial' and r != s:
                    fail('partial', 'full name resolves to %s' % hx(r))
        finally:
            live[0] -= 1

    def actor(i):
        mine = [op for op in plan['ops'] if op['a'] % nact == i]

        def body(act):
            box = [shared]
            for op in mine:
                act.op = op['id']
                do(act, op, box)
        return body
    tf = in_db if cfg.get('opcodes') else None
    w.run_actors([('c%d' % i, 0 if threads else i + 1, actor(i), tf) for i in range(nact)])
    w.cur.op = -1
    if w.badclose:
        fail('double-close', 'a descriptor was closed twice')
    w.restart(99)
    loose = watch.scan('end')
    if target == 'memory':
        if loose or w.tree(OBJ):
            fail('disk', 'a memory database wrote files')
        loose = {bytes(s): byid[bytes(s)] for s in shared.sha_iter()}
    if not set(seen) <= set(loose):
        fail('lost', 'stored objects are gone')
    _, other = audit_loose(w)
    if other and not w.dead_procs and not [k for k in w.fired if k.startswith('unlink')]:
        fail('temp-left', 'files left: %s' % other)
    for s in seen:
        if s not in unclean and mode(s) & 0o222:
            fail('writable', 'the file of stored object %s has mode %o' % (hx(s), mode(s)))
    for db in ([shared] if shared else []) + ([opendb(target)] if target != 'memory' else []):
        for s, v in loose.items():
            check_object(db, s, *v)
        if sorted(bytes(x) for x in db.sha_iter()) != sorted(loose):
            fail('iter', 'final sha_iter')
    w.probe('overlaps', overlap[0])
    w.probe('files_checked', watch.checked)


def nontrivial(plan, r):
    return r.probes.get('overlaps', 0) > 0
