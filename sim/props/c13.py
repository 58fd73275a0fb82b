"""C13: copying from a memory database conserves objects and is resumable."""
from ..lib import *
from .. import lib, core

RUNS = {'quick': 787, 'thorough': 14000}
RULE = ("a run fills a memory database, opens and partly reads some of its objects, puts some objects into a loose, git (packed objects and alternates included) or memory target, and copies 1-4 "
        "selections (any order, duplicates, generators, ids nobody has), fault-free and then up to five times with system-call faults, a disk filling up, a crash with a new process repeating the "
        "copy, or another process storing the same objects meanwhile; non-trivial: a copy was interrupted, met present objects or a fault; distinct by the log of all simulated calls")
CLASSES = ('creat', 'write', 'write', 'write', 'close', 'rename', 'mkdir', 'chmod', 'open', 'unlink', 'mmapf', 'alloc')


def gen(rng, tier):
    cfg = {'target': rng.choice(('loose', 'loose', 'git', 'git', 'mem')), 'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4), 'knobs': {}}
    if rng.random() < .6:
        cfg['knobs']['chunk'] = rng.choice((16, 64, 511, 512, 4096))
    ops = []
    n = rng.choice((1, 2, 3, 5, 8))
    for i in range(n):
        r = F.recipe(rng)
        if cfg['knobs'].get('chunk', 1000) < 512:
            r['n'] = min(r['n'], 4000)
        ops.append({'op': 'mem', 't': rng.choice(F.TYPES), 'c': r, 'src': gen_src(rng, r['n'])})
    crowd = rng.random() < .006
    if crowd:
        n = rng.choice((65, 130, 300))
        while len(ops) < n:
            ops.append({'op': 'mem', 't': rng.choice(F.TYPES), 'c': {'k': 'rand', 'n': rng.randrange(6, 40), 's': rng.randrange(1 << 30)}, 'src': {'mode': 'full'}})
    for i in range(rng.choice((0, 0, 1, 2, 4))):
        ops.append({'op': 'pre', 'where': rng.choice(('loose', 'loose', 'pack', 'alt', 'store')), 'i': rng.randrange(n), 'enc': {'l': rng.choice((0, 1, 6, 9))}})
    for i in range(1 if crowd else rng.choice((1, 1, 2, 3, 4))):
        for j in range(rng.choice((0, 0, 1, 2))):
            ops.append({'op': 'read', 'i': rng.randrange(n), 'n': rng.choice((1, 50, 5000)), 'new': rng.random() < .6})
        if rng.random() < .2:
            ops.append({'op': 'mem', 't': rng.choice(F.TYPES), 'c': F.recipe(rng, (0, 3, 200)), 'src': {'mode': 'full'}})
        if rng.random() < .15:
            ops.append({'op': 'cap', 'n': rng.choice((0, 5, 40, 200, 2000))})
        if rng.random() < .15:
            ops.append({'op': 'pre', 'where': rng.choice(('loose', 'pack')), 'i': rng.randrange(n), 'enc': {'l': 1}})
        ops.append({'op': 'copy', 'sel': [rng.randrange(n) for _ in range(rng.choice((0, 1, 2, 4, n, n, n + 3)))], 'all': rng.random() < (.8 if crowd else .3), 'how': rng.choice(('list', 'gen', 'tuple')),
                    'bad': rng.random() < .08, 'reopen': rng.random() < .3})
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 5 or plan['cfg']['target'] == 'mem':
        return None
    ops = {op['id'] for op in plan['ops'] if op['op'] == 'copy'}
    if nf % 2:
        f = pick_crash(rng, trace, ops)
        out = [f] if f else []
        if f and rng.random() < .3:
            out.append(dict(f, op=f['op'] + 1000))
        return out or None
    if rng.random() < .25:
        t = [x for x in trace if x[0] in ops and x[1] in ('stat', 'creat', 'rename', 'mkdir')]
        if t:
            x = rng.choice(t)
            return [{'op': x[0], 'cls': x[1], 'k': x[2], 'do': 'call', 'i': rng.randrange(100), 'kind': rng.choice(('loose', 'loose', 'pack'))}]
    out = []
    for _ in range(rng.choice((1, 1, 2))):
        cl = rng.choice(CLASSES)
        f = pick_fault(rng, trace, (cl,), ops) or pick_fault(rng, trace, CLASSES, ops)
        if f:
            f['notin'] = 'alternates'       # C14 is about those
            out.append(f)
    return interrupts(rng, out) or None


def execute(w, plan):
    target = plan['cfg'].get('target', 'loose')
    w.mkdirs(OBJ + '/pack')
    w.mkdirs('w/alt/pack')
    if target == 'git':
        w.put(OBJ + '/info/alternates', b'%s\n' % os.path.abspath('w/alt').encode())
    objs = []           # [(sha, type, data, source)]
    have = {}           # what the memory database holds
    st = {'mem': gdb.MemoryDB(), 'db': None, 'proc': 0}
    elsewhere = set()   # in packs or alternates, as far as the target knows
    packed = set()
    memt = set()
    streams = []
    watch = DiskWatch(w, OBJ, lambda s: have.get(s))

    def opendb():
        if target == 'mem':
            return gdb.MemoryDB()
        return gdb.LooseObjectDB(OBJ) if target == 'loose' else gdb.GitDB(OBJ)

    def put_mem(mem, s, t, d, src):
        ist = mk_istream(t, d, src)
        r = mem.store(ist)
        if r.binsha != s:
            fail('store-sha', 'memory store: id %r' % r.binsha)

    def check_mem(where, mem=None):
        mem = mem or st['mem']
        op, w.cur.op = w.cur.op, -1
        for s, (t, d) in have.items():
            try:
                check_object(mem, s, t, d)
            except core.Violation as e:
                fail('mem-' + e.cls, '%s: memory database: %s' % (where, e.msg))
        if sorted(bytes(x) for x in mem.sha_iter()) != sorted(have) or mem.size() != len(have):
            fail('mem-iter', '%s: the memory database does not list its objects' % where)
        w.cur.op = op

    def present():
        """what the target shows now"""
        if target == 'mem':
            return set(memt)
        p = set(watch.scan('check'))
        if target == 'git':
            p |= elsewhere
        return p

    def check_target(where):
        op, w.cur.op = w.cur.op, -1
        cap, w.capacity = w.capacity, None
        p = present()
        dbs = [st['db']] if target == 'mem' else [st['db'], opendb()]
        for db in dbs:
            for s in p:
                check_object(db, s, *have[s])
            if target != 'git' and sorted(bytes(x) for x in db.sha_iter()) != sorted(p):
                fail('iter', '%s: the target lists other objects than it has' % where)
        w.cur.op = op
        w.capacity = cap
        return p

    def foreign(f):
        if not have:
            return
        s = sorted(have)[f['i'] % len(have)]
        if f['kind'] == 'loose':
            if os.path.exists('%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])):
                return
            foreign_loose(w, *have[s])
        else:
            if s in packed:
                return
            packed.add(s)
            foreign_pack(w, [{'type': have[s][0], 'data': have[s][1]}])
        w.probe('meanwhile')
        watch.scan('another process')
    w.midcall = foreign

    def left():
        return [f for f in w.tree(OBJ) if not watch.kind(f) and not f.startswith(OBJ + '/info/')]

    for op in plan['ops']:
        w.cur.op = op['id']
        k = op['op']
        if k == 'mem':
            d = F.content(op['c'])
            s = F.sha(op['t'], d)
            objs.append((s, op['t'], d, op['src']))
            have[s] = (op['t'], d)
            put_mem(st['mem'], s, op['t'], d, op['src'])
            continue
        if not objs:
            continue
        if k == 'read':
            s, t, d, _ = objs[op['i'] % len(objs)]
            if op['new'] or not streams:
                streams.append([st['mem'].stream(s), d, 0])
            x = streams[op['i'] % len(streams)]
            b = x[0].read(op['n'])
            if b != x[1][x[2]:x[2] + op['n']]:
                fail('stream', 'a stream of the memory database delivered %s' % short(b))
            x[2] += len(b)
        elif k == 'pre':
            s, t, d, _ = objs[op['i'] % len(objs)]
            where = op['where']
            if target == 'mem':
                if st['db'] is None:
                    st['db'] = opendb()
                if s not in memt:
                    put_mem(st['db'], s, t, d, {'mode': 'full'})
                    memt.add(s)
            elif where == 'store':
                db = gdb.LooseObjectDB(OBJ)
                w.cur.op = -1
                db.store(mk_istream(t, d, {'mode': 'full'}))
            elif where == 'loose':
                rel = '%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])
                if not os.path.exists(rel):
                    foreign_loose(w, t, d, op['enc'])
            elif where == 'pack':
                if s not in packed:
                    packed.add(s)
                    foreign_pack(w, [{'type': t, 'data': d, 'enc': op['enc']}])
                if target == 'git':
                    elsewhere.add(s)
                    if st['db'] is not None:
                        st['db'].update_cache(force=True)
            else:
                foreign_loose(w, t, d, op['enc'], 'w/alt')
                if target == 'git':
                    elsewhere.add(s)
            watch.scan('prepared')
        elif k == 'cap':
            w.capacity = op['n']
        elif k == 'copy':
            retry = 0
            cap, w.capacity = w.capacity, None
            if st['db'] is None or op['reopen'] and target != 'mem':
                st['db'] = opendb()
            w.capacity = cap
            shas = [objs[i % len(objs)][0] for i in op['sel']]
            if op['all']:
                shas = [bytes(x) for x in st['mem'].sha_iter()]
            unknown = F.sha('blob', b'nobody has this')
            if op['bad']:
                shas.insert(len(shas) // 2, unknown)
            while True:
                before = present()
                sigs = {f: watch.sig(f) for f in watch.files}
                temps = left()
                nf = sum(w.fired.values())
                uf = sum(v for x, v in w.fired.items() if x.startswith('unlink'))
                fds = nfds()
                ok, r = False, None
                it = shas if op['how'] == 'list' else tuple(shas) if op['how'] == 'tuple' else (s for s in shas)
                try:
                    ok, r = attempt(st['mem'].stream_copy, it, st['db'])
                    if w.main.dead:
                        raise core.SimCrash()
                    crashed = False
                except core.SimCrash as e:
                    e.__traceback__ = None
                    crashed = True
                opid = w.cur.op
                w.cur.op = -1
                cap, w.capacity = w.capacity, None
                where = 'copy of %d objects (%s)' % (len(shas), 'crash' if crashed else r if ok else exname(r) + ': %s' % r)
                if crashed:
                    # a new process collects the same objects and repeats the copy
                    w.probe('crashes')
                    st['proc'] += 1
                    w.restart(st['proc'])
                    st['mem'] = gdb.MemoryDB()
                    for s, t, d, src in objs:
                        put_mem(st['mem'], s, t, d, src)
                    st['db'] = opendb()
                    del streams[:]
                elif nfds() != fds and target != 'git':   # (mapped packs keep theirs open)
                    fail('fd-leak', '%s: %d descriptors open, %d before' % (where, nfds(), fds))
                if target == 'mem':
                    memt.update(s for s in (shas if ok else map(bytes, st['db'].sha_iter())) if s in have)
                for f, sig in sigs.items():
                    if watch.sig(f) != sig:
                        fail('touched', '%s: %s, which was there before, was touched' % (where, f))
                if target == 'git' and packed - elsewhere:
                    # packs another process finished meanwhile
                    elsewhere.update(packed)
                    st['db'].update_cache(force=True)
                after = check_target(where)
                check_mem(where)
                new = after - before
                want = [s for s in dict.fromkeys(shas) if s in have and s not in before]
                if not new <= set(want) and not w.fired.get('midcall'):
                    fail('extra', '%s: objects nobody asked for appear in the target' % where)
                if ok and not crashed:
                    if op['bad']:
                        fail('unknown', '%s: an id nobody has was copied' % where)
                    if not set(s for s in shas) <= after:
                        fail('incomplete', '%s returned, but %d objects are missing' % (where, len(set(shas) - after)))
                    lo = hi = len(want)
                    if w.fired.get('midcall'):
                        lo = 0
                    if not isinstance(r, int) or not lo <= r <= hi:
                        fail('count', '%s: returned %r, %d objects were missing' % (where, r, len(want)))
                    if r < len(set(shas)):
                        w.probe('met_present')
                if not crashed and left() != temps and not sum(v for x, v in w.fired.items() if x.startswith('unlink')) > uf:
                    fail('temp-left', '%s leaves %s' % (where, sorted(set(left()) - set(temps))))
                w.capacity = cap
                if ok and not crashed:
                    break
                if not crashed and sum(w.fired.values()) == nf:
                    if op['bad'] and isinstance(r, BadObject):
                        shas = [s for s in shas if s != unknown]
                        op = dict(op, bad=False)
                        continue
                    fail('spurious', '%s failed although nothing went wrong' % where)
                w.probe('interrupted')
                if op['bad']:
                    shas = [s for s in shas if s != unknown]
                    op = dict(op, bad=False)
                retry += 1
                w.capacity = None
                w.cur.op = op['id'] + 1000 if retry == 1 else -1
    # streams opened before the copies go on where they were
    w.cur.op = -1
    w.capacity = None
    for x in streams:
        b = drain(x[0])
        if b != x[1][x[2]:]:
            fail('stream', 'a stream of the memory database was disturbed by a copy')
    if objs:
        check_mem('at the end')
    for p in ('crashes', 'interrupted', 'met_present', 'meanwhile'):
        w.probe(p, 0)


def nontrivial(plan, r):
    return r.probes.get('interrupted', 0) > 0 or r.probes.get('met_present', 0) > 0 or sum(r.fired.values()) > 0
