"""C15: file descriptors and maps are released after every operation."""
from ..lib import *
from .. import lib, core
from .c09 import HEADS

RUNS = {'quick': 281, 'thorough': 6000}
RULE = ("a run is a history (4-14 steps, some repeated many times) of loose stores and reads, LockedFD sessions, pack creations and verifications, and pack and git database sessions, some on damaged "
        "files, fault-free and then up to five times with failing calls; after each step, with its streams gone, the census of descriptors and maps must be back where it was; "
        "non-trivial: a step failed by a fault or damage, or streams were dropped half-read; distinct by the log of all simulated calls")

CLASSES = ('creat', 'open', 'open', 'write', 'close', 'rename', 'mkdir', 'chmod', 'unlink', 'read', 'scan', 'mmapf', 'mmapf', 'mmapa', 'stat', 'alloc')
STEPS = ('store', 'store', 'raw', 'badstore', 'info', 'stream', 'stream', 'iter', 'absent', 'damaged', 'lock', 'lock', 'pack', 'badpack', 'packfile', 'packdb', 'gitdb', 'contents', 'copy')


def attempt(fn, *a, **k):
    """unlike in the library, exceptions keep their frames: whoever keeps the exception keeps what these hold"""
    try:
        return True, fn(*a, **k)
    except (Exception, KeyboardInterrupt) as e:
        return False, e


def gen(rng, tier):
    cfg = {'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4)}
    if rng.random() < .3:
        # maps of loose objects are refused: contents are read instead
        cfg['env'] = [{'cls': 'mmapf', 'do': 'err', 'errno': 'ENOMEM', 'notin': 'pack', 'every': rng.choice((1, 2))}]
    ops = [{'op': 'store', 't': 'blob', 'c': F.recipe(rng), 'src': {'mode': 'full'}, 'rep': 1}]
    for i in range(rng.randrange(3, 14)):
        k = rng.choice(STEPS)
        op = {'op': k, 'i': rng.randrange(1 << 16), 'rep': rng.choice((1, 1, 1, 1, 1, 2, 3, 12)), 'reopen': rng.random() < .3}
        if k in ('store', 'raw', 'badstore'):
            op.update(t=rng.choice(F.TYPES), c=F.recipe(rng), src=gen_src(rng, 10))
            if k == 'badstore':
                op['src'] = {'mode': rng.choice(('err', 'eof')), 'p': rng.choice((0, 1, 100, 4097)), 's': op['i']}
                op['c']['n'] += 5000
        if k in ('stream', 'packdb', 'gitdb', 'packfile'):
            op.update(n=rng.choice((0, 1, 50, 5000, -1)), hold=rng.choice((1, 1, 2, 5)), close=rng.random() < .4, order=rng.choice(('db', 'stream')))
        if k in ('pack', 'badpack', 'packfile', 'packdb', 'gitdb'):
            op['objs'] = [gen_obj(rng, j, .4, (0, 10, 300, 5000)) for j in range(rng.choice((1, 2, 4)))]
        if k == 'damaged':
            op.update(how=rng.choice(('empty', 'cut', 'garbage', 'header', 'head', 'head')), what=rng.choice(('loose', 'loose', 'pack', 'idx')), objs=[gen_obj(rng, j, .4, (0, 10, 300)) for j in range(2)],
                      t='blob', c=F.recipe(rng, (10, 300, 5000)))
        if k == 'lock':
            op.update(write=rng.random() < .6, stream=rng.random() < .5, end=rng.choice(('commit', 'rollback', 'drop', 'twice')), missing=rng.random() < .2, second=rng.random() < .3)
        ops.append(op)
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 5:
        return None
    out = []
    for _ in range(rng.choice((1, 1, 2))):
        f = pick_fault(rng, trace, (rng.choice(CLASSES),)) or pick_fault(rng, trace, CLASSES)
        if f:
            if f['do'] == 'err' and rng.random() < .4:
                f['times'] = rng.choice((2, 5, 1000))
            out.append(f)
    return interrupts(rng, out) or None


def execute(w, plan):
    w.mkdirs(OBJ + '/pack')
    have = {}
    packs = []          # [(base path, model)]
    st = {'db': gdb.LooseObjectDB(OBJ), 'n': 0, 'failed': 0}

    def maps():
        return sum(1 for m in core.LIVE_MAPS if not m.closed)

    def settle():
        """everything of the step is gone"""
        gc.collect()
        m = w.mans.get(w.cur.proc)
        if m is not None:
            with w.pause():
                m.collect()
        gc.collect()

    def census():
        with w.pause():
            return nfds(), maps()

    def mkpack(ops, build):
        pk = Packer()
        for o in ops:
            pk.add(o)
        if not pk.objs:
            pk.add({'t': 'blob', 'c': {'k': 'text', 'n': 20, 's': 1}, 'enc': {'l': 1}})
        if build:
            name, info = foreign_pack(w, pk.objs)
            base = '%s/pack/pack-%s' % (OBJ, name)
            if all(b != base for b, _ in packs):
                packs.append((base, pk.model()))
            return base, pk.model()
        return pk

    def look(db, model, op):
        """open streams, read some of each, drop them"""
        held = []
        for j in range(op['hold']):
            s = sorted(model)[(op['i'] + j) % len(model)]
            x = db.stream(s)
            held.append(x)
            b = x.read(op['n']) if op['n'] >= 0 else x.read()
            want = model[s][1] if op['n'] < 0 else model[s][1][:op['n']]
            if op['n'] and bytes(b) != want:
                fail('content', 'read %s instead of %s' % (short(b), short(want)))
            if len(b) < len(model[s][1]):
                w.probe('dropped')
            if op['close'] and hasattr(x.stream, 'close'):
                x.stream.close()
        if op['close'] and db is st['db'] and held:
            # closed streams hold nothing, although they are still around
            n = maps()
            if n != st['maps']:
                fail('close', '%d maps are open after the streams were closed, %d before' % (n, st['maps']))
            w.probe('closed')
        return held

    def step(op):
        k = op['op']
        db = st['db']
        if k in ('store', 'raw', 'badstore'):
            d = F.content(op['c'])
            s = F.sha(op['t'], d)
            if k == 'raw':
                ist = IStream(otype(op['t'], len(d)), len(d), mk_src(F.loose_bytes(op['t'], d), op['src']), s)
            else:
                ist = mk_istream(op['t'], d, op['src'])
            ok, r = attempt(db.store, ist)
            if ok:
                have[s] = (op['t'], d)
            return ok
        if k in ('info', 'stream') and have:
            s = sorted(have)[op['i'] % len(have)]
            if k == 'info':
                ok, r = attempt(db.info, s)
                if maps() != st['maps']:
                    fail('leak', 'info(), which %s, leaves %d maps open, there were %d before' % ('succeeded' if ok else 'failed', maps(), st['maps']))
                r = None
                return ok
            ok, r = attempt(look, db, have, op)
            return ok
        if k == 'iter':
            ok, r = attempt(lambda: next(iter(db.sha_iter()), None))
            ok2, r2 = attempt(lambda: (list(db.sha_iter()), db.size()))
            return ok and ok2
        if k == 'absent':
            s = F.sha('blob', b'absent %d' % op['i'])
            return attempt(db.info, s)[0] | attempt(db.stream, s)[0] | (attempt(db.has_object, s)[1] is True)
        if k == 'contents' and have:
            s = sorted(have)[op['i'] % len(have)]
            p = '%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])
            ok, r = attempt(gutil.file_contents_ro_filepath, p, stream=bool(op['i'] & 1), allow_mmap=bool(op['i'] & 2))
            ok2, r2 = attempt(gutil.file_contents_ro_filepath, p + 'x')
            return ok
        if k == 'damaged':
            st['n'] += 1
            if op['what'] == 'loose':
                d = F.content(op['c']) + b'%d' % st['n']
                s = F.sha(op['t'], d)
                p = '%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])
                raw = F.loose_bytes(op['t'], d)
                if op['how'] == 'head':
                    h = HEADS[op['i'] % len(HEADS)] % {'t': op['t'], 'n': len(d), 'more': len(d) + 1000, 'less': len(d) // 2}
                    raw = F.deflate(h.encode() + d, {'l': 1})
                w.put(p, harm(raw, op['how']))
                ok, r = attempt(db.info, s)
                if maps() != st['maps']:
                    fail('leak', 'info(), which %s, leaves %d maps open, there were %d before' % ('succeeded' if ok else 'failed', maps(), st['maps']))
                r = None
                ok2, r2 = attempt(lambda: drain(db.stream(s)))
                r2 = None
                w.delete(p)
                return ok and ok2
            pk = mkpack(op['objs'], False)
            raw, info = F.build_pack(pk.objs)
            idx = F.build_index(info, raw[-20:], 2)
            base = 'w/damaged%d' % st['n']
            w.put(base + '.pack', harm(raw, op['how']) if op['what'] == 'pack' else raw)
            w.put(base + '.idx', harm(idx, op['how']) if op['what'] == 'idx' else idx)
            e = gpack.PackEntity(base + '.pack')
            oks = []
            for s in sorted(pk.model()):
                oks.append(attempt(lambda: drain(e.stream(s)))[0])
                oks.append(attempt(e.is_valid_stream, s, True)[0])
                oks.append(attempt(e.is_valid_stream, s, False)[0])
            oks.append(attempt(lambda: [x.size for x in e.info_iter()])[0])
            return all(oks)
        if k == 'lock':
            p = 'w/locked'
            if op['missing']:
                p = 'w/missing'
            else:
                w.put(p, b'content', 0o644)
            with w.pause():
                if os.path.exists(p + '.lock'):
                    os.unlink(p + '.lock')
            L = gutil.LockedFD(p)
            ok, fd = attempt(L.open, write=op['write'] and not op['missing'], stream=op['stream'])
            if ok and op['second']:
                L2 = gutil.LockedFD(p)
                if attempt(L2.open, write=True)[0]:
                    fail('lock', 'opened twice')
                L2 = None
            if ok and op['write'] and not op['missing']:
                if op['stream']:
                    attempt(fd.write, b'new')
                else:
                    attempt(os.write, fd, b'new')
            fd = None
            if ok and op['end'] in ('commit', 'rollback', 'twice'):
                ok = attempt(L.rollback if op['end'] == 'rollback' else L.commit)[0]
                if op['end'] == 'twice':
                    attempt(L.commit)
            L = None
            return ok
        if k in ('pack', 'badpack'):
            pk = mkpack(op['objs'], False)
            l = [OStream(F.sha(o['type'], o['data']), o['type'].encode(), len(o['data']), BytesIO(o['data'])) for o in pk.objs]
            if k == 'badpack':
                l[op['i'] % len(l)] = OStream(b'\1' * 20, b'blob', 5000, Source(b'x' * 5000, 'err', 100, op['i']))
            ok, e = attempt(gpack.PackEntity.create, iter(l), OBJ + '/pack', len(l))
            if ok and k == 'pack':
                base = e.pack().path()[:-5]
                if all(b != base for b, _ in packs):
                    packs.append((base, pk.model()))
                ok = attempt(lambda: [drain(x) for x in e.stream_iter()])[0]
                if op['i'] & 1:
                    e.close()
            e = None
            return ok
        if k == 'packfile':
            base, model = mkpack(op['objs'], True)
            e = gpack.PackEntity(base + ('.pack', '.idx')[op['i'] & 1])
            ok, r = attempt(look, e, model, op)
            for s in sorted(model):
                ok = ok & attempt(e.is_valid_stream, s, bool(op['i'] & 2))[0]
            ok = ok & attempt(lambda: [(x.size, x.binsha) for x in e.info_iter()])[0] & attempt(lambda: [drain(x) for x in e.pack().stream_iter()])[0]
            attempt(e.collect_streams, s)
            attempt(e.index().offsets)
            if op['order'] == 'db':
                if op['close']:
                    e.close()
                    r = None
                    settle()
                    if maps() != st['maps']:
                        fail('close', '%d maps are open after the pack was closed, %d before' % (maps(), st['maps']))
                e = None
            r = None
            return ok
        if k in ('packdb', 'gitdb'):
            base, model = mkpack(op['objs'], True)
            D = gdb.PackedDB(OBJ + '/pack') if k == 'packdb' else gdb.GitDB(OBJ)
            ok, r = attempt(look, D, model, op)
            oks = [ok, attempt(lambda: list(D.sha_iter()))[0], attempt(D.size)[0], attempt(D.update_cache, True)[0], attempt(D.info, F.sha('blob', b'absent'))[0]]
            if op['order'] == 'db':
                D = None
                if ok and op['n'] > 0 and not op['close']:
                    # streams go on without the database
                    attempt(lambda: [drain(x) for x in r])
            r = None
            return all(oks)
        if k == 'copy' and have:
            m = gdb.MemoryDB()
            for s in sorted(have):
                if not attempt(m.store, mk_istream(*have[s], {'mode': 'full'}))[0]:
                    return False
            w.mkdirs('w/to')
            return attempt(m.stream_copy, sorted(have), gdb.LooseObjectDB('w/to'))[0]
        return True

    settle()
    base = census()
    st['maps'] = base[1]
    for op in plan['ops']:
        if op['reopen'] if 'reopen' in op else False:
            st['db'] = gdb.LooseObjectDB(OBJ)
        for r in range(op['rep']):
            w.cur.op = op['id']
            ok = step(op)
            w.cur.op = -1
            st['failed'] += not ok
            direct = op['op'] in ('store', 'raw', 'badstore', 'info', 'iter', 'absent', 'lock', 'badpack', 'contents', 'copy') or op['op'] == 'stream'
            gc.collect()
            if not direct:
                settle()
            now = census()
            if now != base:
                fail('leak', '%s (%s, repetition %d): %d descriptors and %d maps open, %d and %d before' % ((op['op'], 'succeeded' if ok else 'failed', r) + now + base))
            w.probe('steps')
    w.probe('failed', st['failed'])
    w.probe('dropped', 0)


def harm(raw, how):
    if how == 'empty':
        return b''
    if how == 'cut':
        return raw[:len(raw) // 2]
    if how == 'head':
        return raw[:6] + b'\xff\xff' + raw[8:] if raw[:4] in (b'PACK', b'\xfftOc') else raw
    if how == 'header':
        return b'\xff\x00\x13\x37' + raw[4:]
    return bytes(x ^ 0x55 for x in raw)


def nontrivial(plan, r):
    return r.probes.get('failed', 0) > 0 or r.probes.get('dropped', 0) > 0
