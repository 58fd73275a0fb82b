"""C10: concurrent lookups on one database instance never lose objects."""
from ..lib import *
from .. import lib, core

RUNS = {'quick': 4125, 'thorough': 45000}
RULE = ("a run lets 2-3 threads look up objects on one shared loose, pack, git or reference database (first access included) and call update_cache, while another process adds and removes packs and "
        "loose objects; switches happen at any bytecode of gitdb/db, gitdb/pack.py, in some runs gitdb/stream.py, and of the lazy attribute mechanism, or (a third of the runs) before and after every system call; non-trivial: two operations on the instance overlapped in time; "
        "distinct by the schedule and the log of all simulated calls")
NOTE = ('Sampled, not exhaustive. Thread switches are placed at bytecodes of gitdb/db, gitdb/pack.py, gitdb/stream.py and LazyMixin and around system calls of listing, stat and open: the map manager below (smmap) runs undivided, as it is '
        'documented not to be thread-safe.')
PACK = OBJ + '/pack'


def gen(rng, tier):
    nact = rng.choice((2, 2, 3))
    cfg = {'target': rng.choice(('pack', 'pack', 'git', 'git', 'ref', 'loose')), 'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4), 'actors': nact, 'warm': rng.random() < .3,
           'npacks': rng.choice((1, 2, 2, 3, 4)), 'nloose': rng.choice((0, 1, 2)), 'foreign': rng.random() < .5, 'late': rng.random() < .15}
    cfg['grain'] = rng.choice(('op', 'op', 'sys'))
    cfg['delta'] = rng.choice((None, 'ofs', 'ref'))
    cfg['deep'] = rng.random() < .25
    cfg['iv'] = rng.choice((1, 2, 2))
    cfg['per'] = rng.choice((0, 0, 0, 2, 5))
    if rng.random() < .12:
        # everything is initialised, the threads just read
        cfg.update(hot=True, target=rng.choice(('pack', 'pack', 'git', 'ref')), per=rng.choice((2, 3, 5)), npacks=rng.choice((1, 1, 2)), foreign=False, grain='op', knobs={'sort': rng.choice((1, 500))})
        ops = [{'a': i % nact, 'i': rng.randrange(1 << 16), 'op': rng.choice(('stream', 'stream', 'stream', 'info')), 'vol': False} for i in range(nact * rng.choice((1, 2, 4)))]
        return {'cfg': cfg, 'ops': ops, 'sched': gen_sched(rng, 4000, rng.choice((2, 5, 12, 30, 60, 120)))}
    kn = {'sort': rng.choice((1, 1, 2, 3, 500))}
    cfg['knobs'] = kn
    focus = rng.random() < .35      # lookups of what is being removed, against updates
    if focus:
        cfg.update(foreign=True, warm=rng.random() < .7, npacks=1)
    ops = []
    tmpl = rng.random() < .25
    if tmpl:
        # one thread looks up, another one repacks or prunes and then updates
        cfg.update(foreign=True, warm=rng.random() < .7)
        for i in range(rng.choice((1, 1, 2, 3))):
            ops.append({'a': 0, 'i': rng.randrange(1 << 16), 'op': rng.choice(('has', 'info', 'stream', 'iter')), 'vol': rng.random() < .8})
        for i in range(rng.choice((1, 1, 2))):
            ops.append({'a': 1, 'i': rng.randrange(1 << 16), 'op': rng.choice(('rmpack', 'gc', 'prune', 'addpack'))})
            ops.append({'a': 1, 'op': 'update', 'i': 0, 'force': rng.random() < .5})
            if rng.random() < .3:
                ops.append({'a': 1, 'i': rng.randrange(1 << 16), 'op': 'has', 'vol': True})
        if rng.random() < .7:
            # few switches: one thread is held up somewhere, the other one gets far
            cfg['actors'] = 2
            m = rng.choice((10, 40, 150, 400) if cfg['grain'] == 'op' else (3, 6, 15))
            sched = [[rng.randrange(m), i % 2] for i in range(rng.choice((1, 1, 2, 3)))]
            return {'cfg': cfg, 'ops': ops, 'sched': sched + [[10 ** 6, len(sched) % 2], [10 ** 6, 0]]}
        return {'cfg': cfg, 'ops': ops, 'sched': gen_sched(rng, 400, rng.choice((10, 30, 100, 300) if cfg['grain'] == 'op' else (1, 2, 4, 8)))}
    for i in range(rng.randrange(nact, 4 * nact + 1)):
        c = rng.random()
        op = {'a': rng.randrange(nact), 'i': rng.randrange(1 << 16)}
        if c < (.4 if focus else .18):
            op.update(op='update', force=rng.random() < .5)
        else:
            op.update(op=rng.choice(('has', 'has', 'info', 'stream', 'iter', 'size', 'partial', 'list')), vol=rng.random() < (.8 if focus else .3))
        ops.append(op)
    if cfg['foreign']:
        for i in range(rng.choice((1, 2, 3))):
            ops.append({'op': rng.choice(('rmpack', 'gc', 'prune') if focus else ('addpack', 'addpack', 'rmpack', 'gc', 'gc', 'addloose', 'prune')), 'a': 99, 'i': rng.randrange(1 << 16)})
    return {'cfg': cfg, 'ops': ops, 'sched': gen_sched(rng, 4000, rng.choice((2, 5, 12, 30, 60, 120, 300) if cfg['grain'] == 'op' else (1, 2, 4, 8)))}


def in_db(fn, name):
    return fn.startswith('db/') or fn == 'util.py' and name == 'LazyMixin.__getattr__' or fn == 'pack.py'


def in_all(fn, name):
    return fn.startswith('db/') or fn == 'util.py' and name == 'LazyMixin.__getattr__' or fn in ('pack.py', 'stream.py')


def execute(w, plan):
    cfg = plan['cfg']
    target = cfg.get('target', 'pack')
    nact = cfg.get('actors', 2)
    w.mkdirs(PACK)
    stable = {}
    content = {}
    packs = {}
    loose = set()
    n = [0]

    def obj(size):
        n[0] += 1
        d = F.content({'k': 'text', 'n': size, 's': n[0]}) + b'#%d' % n[0]
        s = F.sha('blob', d)
        content[s] = ('blob', d)
        return s

    def addpack(shas):
        if target == 'loose':
            for s in shas:
                addloose(s)
            return
        pk = []
        for s in shas:
            t, d = content[s]
            if pk and cfg.get('delta') and t == pk[-1]['type']:
                # the whole object inserted, or its beginning copied
                b = pk[-1]['data']
                c = next((i for i in range(min(len(b), len(d), 250)) if b[i] != d[i]), 0)
                pk.append({'delta': F.varint(len(b)) + F.varint(len(d)) + (F.copy_op(0, c) if c else b'') + b''.join(bytes([len(d[i:i + 100])]) + d[i:i + 100] for i in range(c, len(d), 100)),
                           'base': len(pk) - 1, 'kind': cfg['delta'], 'type': t, 'data': d})
            else:
                pk.append({'type': t, 'data': d})
        name, info = foreign_pack(w, pk, version=cfg.get('iv', 2), large=cfg.get('iv') == 2 and len(shas) % 2 == 0)
        packs[name] = set(shas)

    def addloose(s):
        foreign_loose(w, *content[s])
        loose.add(s)
    for p in range(cfg.get('npacks', 1)):
        l = [obj(30 + 17 * p) for _ in range(cfg.get('per') or 1 + p % 3)]
        stable.update({s: content[s] for s in l})
        addpack(l)
    stable_packs = set(packs)
    if target != 'pack':
        for _ in range(cfg.get('nloose', 0)):
            s = obj(20)
            stable[s] = content[s]
            addloose(s)
    stable_loose = set(loose)
    if cfg.get('foreign'):
        addpack([obj(50), obj(60)])
        if target != 'pack':
            addloose(obj(10))
    if target == 'ref':
        w.mkdirs('w/other/pack')
        s = obj(33)
        foreign_loose(w, *content[s], objdir='w/other')
        stable[s] = content[s]
        other = {s}
        w.put('w/alternates', b'w/other\nw/missing\n%s\n' % OBJ.encode())
    else:
        other = set()
    removed = set()
    clock = [0]
    change = [0]
    past = set()
    updates = []        # (begin, end) of successful updates that must have seen everything
    live = [0]
    overlap = [0]

    def now():
        clock[0] += 1
        return clock[0]

    def mt():
        with w.pause():
            return os.stat(PACK).st_mtime

    def view():
        v = set(other)
        if target != 'pack':
            v |= loose
        for p in packs.values():
            v |= p
        return v

    def rmpack(p):
        del packs[p]
        for e in ('idx', 'pack'):
            removed.add('pack-%s.%s' % (p, e))
            w.delete('%s/pack-%s.%s' % (PACK, p, e))

    def foreign(op):
        past.add(mt())
        k, i = op['op'], op['i']
        vol = sorted(set(packs) - stable_packs)
        if k == 'addpack':
            addpack([obj(i % 90)])
        elif k == 'addloose':
            addloose(obj(i % 90))
        elif k == 'rmpack' and vol:
            p = vol[i % len(vol)]
            rmpack(p)
        elif k == 'prune':
            for s in sorted(loose - stable_loose):
                loose.discard(s)
                w.delete('%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:]))
        elif k == 'gc':
            # volatile things move into one new pack
            shas = set(loose - stable_loose)
            for p in vol:
                shas |= packs[p]
            if shas:
                before = set(packs)
                addpack(sorted(shas))
                new = set(packs) - before
                for p in vol:
                    if p not in new and new:
                        rmpack(p)
                for s in sorted(loose - stable_loose):
                    loose.discard(s)
                    w.delete('%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:]))
        change[0] = now()
    if target == 'pack':
        D = gdb.PackedDB(PACK)
    elif target == 'loose':
        D = gdb.LooseObjectDB(OBJ)
    elif target == 'git':
        D = gdb.GitDB(OBJ)
    else:
        D = gdb.ReferenceDB('w/alternates')
    if cfg.get('warm'):
        D.has_object(F.sha('blob', b'-'))
    if cfg.get('hot'):
        for s in sorted(stable):
            drain(D.stream(s))
    grain = cfg.get('grain', 'op')
    w.yield_sys = w.yield_after = grain == 'sys'

    def do(act, op):
        k = op['op']
        if k in ('rmpack', 'gc', 'prune', 'addpack', 'addloose'):
            return foreign(op)
        if k == 'update':
            m0, c0, b = mt(), change[0], now()
            ok, r = attempt(D.update_cache, op['force'])
            e = now()
            if not ok and not (change[0] > b and isinstance(r, OSError)):
                fail('update-failed', 'update_cache by %s raised %s: %s' % (act.name, exname(r), r))
            if ok and (op['force'] or m0 not in past) and change[0] <= b:
                updates.append((b, e))
            return
        pool = sorted(set(content) - set(stable)) if op['vol'] and op['i'] % 4 else sorted(content) if op['vol'] else sorted(stable)
        if not pool:
            return
        s = pool[op['i'] % len(pool)]
        t, d = content[s]
        b = now()
        fresh = any(u[0] > change[0] and u[1] < b for u in updates)
        v = view()
        if k == 'has':
            ok, r = attempt(D.has_object, s)
        elif k == 'info':
            ok, r = attempt(D.info, s)
        elif k == 'stream':
            def get():
                x = D.stream(s)
                return bytes(x.binsha), tname(x.type), x.size, drain(x)
            ok, r = attempt(get)
        elif k == 'iter':
            ok, r = attempt(lambda: [bytes(x) for x in D.sha_iter()])
        elif k == 'size':
            ok, r = attempt(D.size)
        elif k == 'partial':
            if target == 'pack':
                ok, r = attempt(D.partial_to_complete_sha, s, 40)
            else:
                ok, r = attempt(D.partial_to_complete_sha_hex, hx(s))
        else:
            ok, r = attempt(getattr(D, {'pack': 'entities', 'loose': 'size'}.get(target, 'databases')))
        now()
        quiet = change[0] < b
        where = '%s by %s' % (k, act.name)
        w.log(act.name, k, ok)
        if not ok and isinstance(r, FileNotFoundError) and os.path.basename(str(r.filename or '')) in removed:
            w.probe('vanished')
            return      # another process deleted a pack which the database did not know to be gone: it says so
        if k in ('iter', 'size', 'list'):
            if not ok:
                if not cfg.get('foreign') or quiet and fresh:
                    fail('failed', '%s raised %s: %s' % (where, exname(r), r))
                return
            if k == 'iter':
                if not set(stable) <= set(r):
                    fail('lost', '%s: enumeration misses %d of %d stored objects' % (where, len(set(stable) - set(r)), len(stable)))
                if not set(r) <= set(content):
                    fail('ghost', '%s lists unknown ids' % where)
                if fresh and quiet and set(r) != v:
                    fail('stale', '%s: enumeration differs from the disk although the cache was updated' % where)
            elif k == 'size':
                least = len(stable)
                if r < least or not cfg.get('foreign') and r != least:
                    fail('size', '%s gives %r, there are %d objects' % (where, r, least))
            else:
                if target == 'pack':
                    have = {os.path.basename(e.pack().path())[5:-5] for e in r}
                    if not stable_packs <= have:
                        fail('lost', '%s: entities() misses packs' % where)
                elif target != 'loose' and len(r) != 2:
                    fail('lost', '%s: databases() gives %d' % (where, len(r)))
            return
        found = ok and r is not False
        strict = s in stable or fresh and quiet
        if not ok and not isinstance(r, BadObject) and (strict or not isinstance(r, OSError)):
            fail('failed', '%s raised %s: %s' % (where, exname(r), r))
        if strict and found != (s in v):
            fail('lost' if s in v else 'stale', '%s of %s, which is %s, gives %r' % (where, hx(s), 'there' if s in v else 'gone', r))
        if found:
            if k == 'has' and r is not True:
                fail('has', 'has_object gives %r' % (r,))
            if k == 'info':
                check_info(r, s, t, len(d), where)
            if k == 'stream' and r != (s, t, len(d), d):
                fail('content', '%s gives %r' % (where, r[:3]))
            if k == 'partial' and bytes(r) != s:
                fail('content', '%s gives %r' % (where, r))

    def actor(i):
        mine = [op for op in plan['ops'] if op['a'] != 99 and op['a'] % nact == i]

        def body(act):
            for op in mine:
                act.op = op['id']
                if live[0]:
                    overlap[0] += 1
                live[0] += 1
                try:
                    do(act, op)
                finally:
                    live[0] -= 1
        return body

    def outside(act):
        for op in plan['ops']:
            if op['a'] == 99:
                act.op = op['id']
                w.yield_point('foreign')
                foreign(op)
    specs = [('t%d' % i, 0, actor(i), (in_all if cfg.get('deep') else in_db) if grain == 'op' else None) for i in range(nact)]
    if cfg.get('foreign'):
        specs.append(('f', 1, outside, None))
    w.run_actors(specs)
    w.cur.op = -1
    w.main.proc = 0
    # an update after the last change shows everything, however the threads met before
    v = view()
    # (without this when a thread's update came last already)
    if not any(u[0] > change[0] for u in updates):
        D.update_cache(force=True)
    else:
        w.probe('final_from_threads')
    for s in sorted(content):
        if s in v:
            check_object(D, s, *content[s])
        else:
            check_absent(D, s)
    if set(bytes(x) for x in D.sha_iter()) != v:
        fail('stale', 'enumeration after all threads have ended differs from the disk')
    w.probe('overlaps', overlap[0])
    w.probe('updates', len(updates))
    w.probe('final_from_threads', 0)


def nontrivial(plan, r):
    return r.probes.get('overlaps', 0) > 0
