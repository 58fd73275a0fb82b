"""C03: a process crash at any point never exposes a partial object, pack or file."""
from ..lib import *
from .. import lib, core

RUNS = {'quick': 412, 'thorough': 8000}
RULE = ("a run is a history (2-8 operations) of stores, raw stores, copies from a memory database, pack creations, repacks with pruning and LockedFD commits by one process while "
        "a second process keeps databases open, executed without crash and then up to five times with the process dying before, after or inside a planned system call (the repetition "
        "in the next process may die again); every final file is checked after every mutating call; non-trivial: the process died or three operations mutated the "
        "disk; distinct by the log of all simulated calls")
PACK = OBJ + '/pack'
FILES = ('w/HEAD', 'w/packed-refs')


def gen(rng, tier):
    cfg = {'target': rng.choice(('loose', 'git', 'git')), 'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4), 'initial': [rng.choice((None, 0, 50)), rng.choice((None, 900))]}
    kn = {}
    if rng.random() < .6:
        kn['chunk'] = rng.choice((64, 512, 4096))
    if rng.random() < .4:
        kn['pchunk'] = rng.choice((64, 511, 4096))
    if rng.random() < .15:
        cfg['names'] = rng.choice((7, 40))      # temporary names collide with what the dead left behind
    cfg['knobs'] = kn
    ops = []
    for i in range(rng.randrange(2, 9)):
        c = rng.random()
        r = F.recipe(rng, (0, 1, 10, 100, 1000, 6000, 20000) if rng.random() < .5 else None)
        r['n'] = min(r['n'], 20000)
        obj = {'t': rng.choice(F.TYPES), 'c': r}
        if i == 0 or c < .35:
            ops.append({'op': 'store', 'o': obj, 'src': gen_src(rng, r['n'])})
        elif c < .45:
            ops.append({'op': 'raw', 'o': obj, 'enc': F.encoding(rng, r['n'])})
        elif c < .53:
            ops.append({'op': 'again', 'i': rng.randrange(1 << 16), 'raw': rng.random() < .3})
        elif c < .68:
            objs = []
            for j in range(rng.choice((0, 1, 2, 3, 5))):
                r = F.recipe(rng, (0, 1, 10, 300, 4000))
                objs.append({'t': rng.choice(F.TYPES), 'c': r})
            ops.append({'op': 'pack', 'objs': objs, 'level': rng.choice((0, 1, 9))})
        elif c < .76:
            ops.append({'op': 'repack', 'prune': rng.random() < .7})
        elif c < .84:
            ops.append({'op': 'copy', 'objs': [{'t': rng.choice(F.TYPES), 'c': F.recipe(rng, (0, 1, 10, 300, 4000))} for j in range(rng.choice((1, 2, 4)))]})
        else:
            ops.append({'op': 'commit', 'f': rng.randrange(2), 'c': F.recipe(rng, (0, 1, 10, 1000, 9000)), 'parts': rng.choice((1, 2, 4)), 'stream': rng.random() < .6,
                        'end': rng.choice(('commit', 'commit', 'commit', 'rollback', 'read'))})
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 5:
        return None
    f = pick_crash(rng, trace)
    if f is None:
        return None
    out = [f]
    if rng.random() < .35:
        # the repetition dies as well
        g = pick_crash(rng, trace, {f['op']})
        if g:
            g['op'] += 1000
            out.append(g)
    if rng.random() < .15:
        e = pick_fault(rng, trace, ('write', 'rename', 'close', 'mkdir', 'unlink'))
        if e:
            out.append(e)
    return out


def opendb(t):
    return gdb.LooseObjectDB(OBJ) if t == 'loose' else gdb.GitDB(OBJ)


def execute(w, plan):
    target = plan['cfg'].get('target', 'git')
    w.mkdirs(PACK)
    w.mkdirs(OBJ + '/info')
    content = {}
    for f, n in enumerate(plan['cfg'].get('initial', (None, 9))):
        content[f] = None
        if n is not None:
            content[f] = F.content({'k': 'text', 'n': n, 's': f})
            w.put(FILES[f], content[f], 0o644)
    acked = {}
    possible = {}
    order = []
    newfile = {}        # f -> content that may be there as well
    watch = DiskWatch(w, allowed=possible.get)
    proc = [0]
    st = {'db': opendb(target), 'reader': None}

    sigs = {}

    def files_ok(where):
        for f in (0, 1):
            sg = watch.sig(FILES[f])
            key = sg, content[f], newfile.get(f)
            if sigs.get(f) == key:
                continue
            sigs[f] = key
            try:
                c = w.get(FILES[f])
            except FileNotFoundError:
                c = None
            if c != content[f] and not (f in newfile and c == newfile[f]):
                fail('file-content', '%s: %s holds %s, neither the old nor the new content' % (where, FILES[f], c if c is None else short(c)))

    w.hooks.append(lambda name, rel, rel2: files_ok('after ' + name))

    def there(p):
        with w.pause():
            return os.path.lexists(p)

    def ack(s, t, d):
        if s not in acked:
            order.append(s)
        acked[s] = (t, d)

    def disk(where):
        loose = watch.scan(where)
        packed = watch.packs()
        files_ok(where)
        if target == 'git':
            have = dict(packed)
            have.update(loose)
        else:
            have = loose
        for s, v in acked.items():
            if have.get(s) != v:
                fail('lost', '%s: acknowledged object %s is gone' % (where, hx(s)))
        return have

    def read_all(db, where, have):
        """a database shows exactly what is on disk"""
        for s, (t, d) in acked.items():
            check_object(db, s, t, d)
        got = [bytes(x) for x in db.sha_iter()]
        if set(got) != set(have):
            fail('iter', '%s: sha_iter lists %d ids, the disk holds %d' % (where, len(set(got)), len(have)))
        for s in sorted(have):
            check_object(db, s, *have[s])
        if target == 'loose' and db.size() != len(have):
            fail('size', '%s: size() %d instead of %d' % (where, db.size(), len(have)))

    def reader(have):
        """a process that was there all the time"""
        save = w.main.proc, w.cur.op
        w.main.proc, w.cur.op = 500, -2
        if st['reader'] is None:
            st['reader'] = opendb(target)
        elif target == 'git':
            st['reader'].update_cache(force=True)
        read_all(st['reader'], 'other process', have)
        w.main.proc, w.cur.op = save

    def perform(op, retry):
        """execute one operation; raises SimCrash if the process dies"""
        k = op['op']
        db = st['db']
        nf = sum(w.fired.values())
        if k in ('store', 'raw', 'again'):
            if k == 'again':
                if not order:
                    return True
                s = order[op['i'] % len(order)]
                t, d = acked[s]
                raw = op['raw']
            else:
                t, d = op['o']['t'], F.content(op['o']['c'])
                s = F.sha(t, d)
                raw = k == 'raw'
            possible[s] = (t, d)
            src = op.get('src', {'mode': 'full'})
            ist = IStream(otype(t, len(d)), len(d), mk_src(F.loose_bytes(t, d, op.get('enc')) if raw else d, src), s if raw else None)
            ok, r = attempt(db.store, ist)
            if ok:
                if ist.binsha != s:
                    fail('store-sha', 'wrong id')
                ack(s, t, d)
                if not w.main.dead:
                    with w.pause():
                        m = os.stat('%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])).st_mode & 0o777
                    if m != 0o444:
                        fail('mode', 'store returned, but the file of %s has mode %o' % (hx(s), m))
        elif k in ('pack', 'repack'):
            objs = {}
            if k == 'repack':
                for s in order:
                    objs[s] = acked[s]
                if not objs:
                    return True
                ok, it = attempt(lambda: [db.stream(s) for s in objs])
                if not ok:
                    if sum(w.fired.values()) == nf:
                        fail('spurious', 'reading stored objects failed: %r' % it)
                    return False
            else:
                for o in op['objs']:
                    t, d = o['t'], F.content(o['c'])
                    objs[F.sha(t, d)] = (t, d)
                it = [OStream(s, t.encode(), len(d), BytesIO(d)) for s, (t, d) in objs.items()]
            possible.update(objs)
            ok, r = attempt(gpack.PackEntity.create, it, PACK, object_count=len(objs), zlib_compression=op.get('level', 1))
            del it
            opid, w.cur.op = w.cur.op, -1
            if ok:
                name = os.path.basename(r.pack().path())[:-5]
                if not (there('%s/%s.pack' % (PACK, name)) and there('%s/%s.idx' % (PACK, name))):
                    fail('lost', 'create returned, but %s is not complete' % name)
                r.close()
                del r
                r = None
                if target == 'git':
                    for s, v in objs.items():
                        ack(s, *v)
                    if op.get('prune'):
                        for s in objs:
                            p = '%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])
                            if there(p):
                                watch.forget(p)
                                w.delete(p)
                    st['db'].update_cache(force=True)
            w.cur.op = opid
        elif k == 'copy':
            mem = gdb.MemoryDB()
            shas = []
            for o in op['objs']:
                t, d = o['t'], F.content(o['c'])
                s = F.sha(t, d)
                possible[s] = (t, d)
                if s not in shas:
                    shas.append(s)
                    mem.store(IStream(otype(t, len(d)), len(d), BytesIO(d)))
            ok, r = attempt(mem.stream_copy, shas, db)
            if ok:
                for s in shas:
                    ack(s, *possible[s])
        else:
            f = op['f']
            if retry and there(FILES[f] + '.lock'):
                # left by the dead process: refused until it is removed
                l = gutil.LockedFD(FILES[f])
                ok, e = attempt(l.open, True)
                if ok or not isinstance(e, OSError):
                    fail('not-exclusive', 'the lock of a dead process was taken over: %r' % (e,))
                if not there(FILES[f] + '.lock'):
                    fail('lock-lost', 'a refused open removed the lock of somebody else')
                w.delete(FILES[f] + '.lock')
                w.probe('stale_lock')
            data = F.content(op['c'])
            l = gutil.LockedFD(FILES[f])
            if op['end'] == 'read':
                if content[f] is None:
                    return True
                ok, r = attempt(l.open, False, True)
                if ok:
                    ok, r = attempt(r.read)
                    if ok and r != content[f] and not (f in newfile and r == newfile[f]):
                        fail('file-content', 'read %s' % short(r))
                    attempt(l.rollback)
            else:
                if op['end'] == 'commit':
                    newfile[f] = data
                n = max(1, -(-len(data) // op['parts']))

                def write():
                    h = l.open(True, op['stream'])
                    for i in range(0, len(data), n):
                        if op['stream']:
                            h.write(data[i:i + n])
                        else:
                            part = data[i:i + n]
                            while part:
                                part = part[os.write(h, part):]
                    getattr(l, op['end'])()
                ok, r = attempt(write)
                if not ok:
                    attempt(l.rollback)
                if ok and op['end'] == 'commit':
                    content[f] = data
                    if w.get(FILES[f]) != data:
                        fail('file-content', 'commit returned, but %s holds something else' % FILES[f])
            del l
        if w.main.dead:
            raise core.SimCrash()
        if not ok and sum(w.fired.values()) == nf:
            fail('spurious', '%s failed: %s: %s' % (k, exname(r), r))
        r = None
        return ok

    def settle(f):
        """after a crash or failure, a commit has happened completely or not at all"""
        if f in newfile:
            try:
                content[f] = w.get(FILES[f])
            except FileNotFoundError:
                content[f] = None
            del newfile[f]

    for op in plan['ops']:
        w.cur.op = op['id']
        retry = False
        while True:
            try:
                ok = perform(op, retry)
                crashed = False
            except core.SimCrash as e:
                e.__traceback__ = None
                crashed = True
            w.cur.op = -1
            if crashed:
                st['db'] = None
                proc[0] += 1
                w.restart(proc[0])
                w.probe('crashes')
                where = 'after the crash'
            else:
                where = 'after ' + op['op']
            have = disk(where)
            if op['op'] == 'commit':
                settle(op['f'])
            if not crashed:
                if op['op'] == 'commit' and there(FILES[op['f']] + '.lock'):
                    if not [k for k in w.fired if k.startswith('unlink')]:
                        fail('lock-left', '%s leaves the lock of %s' % (op['end'], FILES[op['f']]))
                    w.delete(FILES[op['f']] + '.lock')      # an unlink was made to fail
                break
            reader(have)
            st['db'] = opendb(target)
            read_all(st['db'], 'new process', have)
            w.cur.op = op['id'] + (1000 if not retry else 2000)
            retry = True
    w.cur.op = -1
    have = disk('at the end')
    reader(have)
    if target == 'git':
        st['db'].update_cache(force=True)
    read_all(st['db'], 'last process', have)
    read_all(opendb(target), 'fresh database', have)
    for f in (0, 1):
        if there(FILES[f] + '.lock') and not w.dead_procs and not sum(w.fired.values()):
            fail('lock-left', 'lock of %s left' % FILES[f])
    w.probe('files_checked', watch.checked)
    for p in ('crashes', 'stale_lock'):
        w.probe(p, 0)


def nontrivial(plan, r):
    return r.probes.get('crashes', 0) > 0 or r.probes.get('files_checked', 0) >= 3
