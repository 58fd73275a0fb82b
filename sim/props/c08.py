"""C08: cached database views follow the storage after update_cache."""
from ..lib import *
import shutil
from .. import lib, core

RUNS = {'quick': 1312, 'thorough': 20000}
RULE = ("a run is a history (6-30 steps) of foreign changes (loose objects added, packed, pruned, unpacked; packs fetched in steps or by the hundred, repacked, removed, with their directory, too; directories created late; clock jumps) and of "
        "client steps (lookups, updates) on a pack or git database, fault-free and then up to four times with failing calls or with a foreign change in the middle of a client step; "
        "non-trivial: the client looked after at least two foreign changes; distinct by the log of all simulated calls")
STUBS = 'clock, directory order, fault decisions; the other processes are an independent generator of loose objects and packs'
PACK = OBJ + '/pack'

FOREIGN = ('loose', 'loose', 'pack', 'pack', 'fetch', 'fetchidx', 'finish', 'repack', 'prune', 'gc', 'gc', 'rmpack', 'unpack', 'jump', 'junk')
RARE = ('many', 'rmdir', 'rmdir')      # at any time but in the middle of a call


def gen_foreign(rng, kinds=FOREIGN):
    k = rng.choice(kinds)
    op = {'op': k, 'i': rng.randrange(1 << 16)}
    if k == 'loose':
        op.update(t=rng.choice(F.TYPES), c=F.recipe(rng, (0, 1, 10, 300, 4000)))
    elif k in ('pack', 'fetch', 'fetchidx'):
        objs = []
        for j in range(rng.choice((1, 1, 2, 4))):
            o = gen_obj(rng, j, .4, (0, 1, 10, 300, 4000))
            objs.append(o)
        op.update(objs=objs, dup=rng.random() < .3, v=rng.choice((1, 2, 2)))
    elif k == 'repack' or k == 'gc':
        op.update(n=rng.choice((1, 1, 2)))
    elif k == 'many':
        op.update(n=rng.choice((12, 40, 70, 140)))
    elif k == 'jump':
        op.update(s=rng.choice((-86400, -3600, -1, 0.001, 1, 3600, 10 ** 9)))
    return op


def gen(rng, tier):
    cfg = {'target': rng.choice(('pack', 'git', 'git')), 'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4), 'late': rng.random() < .25}
    if cfg['target'] == 'pack':
        cfg['late'] = False
    if rng.random() < .2:
        cfg['tick'] = rng.choice((0, 1, 10 ** 6))
    if rng.random() < .06:
        cfg.update(t0=-1700000000 * 10 ** 6, tick=0)        # everything happens at time 0
    kn = {}
    if rng.random() < .5:
        kn['sort'] = rng.choice((1, 2, 3))
    cfg['knobs'] = kn
    ops = []
    for i in range(rng.randrange(6, 31)):
        c = rng.random()
        if c < .42:
            ops.append(gen_foreign(rng, RARE if rng.random() < .025 else FOREIGN))
        elif c < .62:
            ops.append({'op': 'update', 'force': rng.random() < .5})
        elif c < .68:
            ops.append({'op': 'reopen'})
        else:
            ops.append({'op': rng.choice(('has', 'info', 'stream', 'stream', 'iter', 'size', 'entities', 'hold', 'partial', 'store')), 'i': rng.randrange(1 << 16), 'ext': rng.random() < .2,
                        'pat': rng.randrange(len(PATTERNS))})
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 4:
        return None
    out = []
    if rng.random() < .5:
        # somebody else acts in the middle of a client step
        by = {o['id']: o['op'] for o in plan['ops']}
        c = [t for t in trace if t[0] >= 0 and t[1] in ('scan', 'stat', 'open', 'mmapf', 'close', 'read') and by.get(t[0]) not in (None,) + FOREIGN + RARE]
        upd = [t for t in c if by[t[0]] == 'update']
        if upd and rng.random() < .7:
            c = upd
        if c:
            t = rng.choice(c)
            out.append({'op': t[0], 'cls': t[1], 'k': t[2], 'do': 'call', 'what': gen_foreign(rng, FOREIGN[:-2])})
    classes = ['scan', 'open', 'mmapf', 'close', 'read']
    if plan['cfg']['target'] == 'pack':
        classes.append('stat')
    if not out or rng.random() < .2:
        for _ in range(rng.choice((1, 1, 2))):
            f = pick_fault(rng, trace, (rng.choice(classes),)) or pick_fault(rng, trace, classes)
            if f:
                if f['do'] == 'err' and rng.random() < .5:
                    f['times'] = rng.choice((2, 4, 1000))
                out.append(f)
    return out or None


def execute(w, plan):
    cfg = plan['cfg']
    target = cfg.get('target', 'git')
    w.mkdirs(OBJ)
    if not cfg.get('late'):
        w.mkdirs(PACK)
    content = {}        # every object that ever existed
    loose = {}          # sha -> path
    packs = {}          # name -> dict(objs, pack, idx, rawp, rawi)
    changes = [0]
    looked = [0]
    # freshness of the client's view
    st = {'db': None, 'fresh': False, 'held': [], 'seen': None}
    past = set()

    def exists(p):
        with w.pause():
            return os.path.lexists(p)

    def add_loose(s):
        t, d = content[s]
        foreign_loose(w, t, d)
        loose[s] = '%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])

    def put_pack(objs, v, parts=('pack', 'idx')):
        """:param objs: list for build_pack"""
        raw, info = F.build_pack(objs)
        name = hx(raw[-20:])
        p = packs.get(name)
        if p is None:
            p = packs[name] = {'objs': {F.sha(o['type'], o['data']): (o['type'], o['data']) for o in objs}, 'pack': False, 'idx': False,
                               'rawp': raw, 'rawi': F.build_index(info, raw[-20:], v)}
            content.update(p['objs'])
        for part in parts:
            if not p[part]:
                w.put('%s/pack-%s.%s' % (PACK, name, part), p['rawp' if part == 'pack' else 'rawi'])
                p[part] = True
        return name

    def complete():
        return {n: p for n, p in packs.items() if p['pack'] and p['idx']}

    def drop_pack(name):
        p = packs[name]
        for part in ('idx', 'pack'):
            if p[part]:
                w.delete('%s/pack-%s.%s' % (PACK, name, part))
                p[part] = False

    def dir_mtime():
        with w.pause():
            try:
                return os.stat(PACK).st_mtime
            except OSError:
                return None

    def foreign(op):
        k = op['op']
        changes[0] += 1
        st['fresh'] = False
        past.add(dir_mtime())       # times at which the packs were others than now
        if k == 'loose':
            d = F.content(op['c'])
            s = F.sha(op['t'], d)
            content[s] = (op['t'], d)
            add_loose(s)
        elif k in ('pack', 'fetch', 'fetchidx'):
            pk = Packer()
            for o in op['objs']:
                pk.add(o)
            objs = [dict(o) for o in pk.objs]
            have = {F.sha(o['type'], o['data']) for o in objs}
            if op['dup']:
                for s in sorted(loose)[:3]:
                    if s not in have:
                        objs.append({'type': content[s][0], 'data': content[s][1]})
            if objs:
                put_pack(objs, op['v'], {'pack': ('pack', 'idx'), 'fetch': ('pack',), 'fetchidx': ('idx',)}[k])
        elif k == 'finish':
            for n in sorted(packs):
                p = packs[n]
                if p['pack'] != p['idx']:
                    for part in ('pack', 'idx'):
                        if not p[part]:
                            w.put('%s/pack-%s.%s' % (PACK, n, part), p['rawp' if part == 'pack' else 'rawi'])
                            p[part] = True
        elif k in ('repack', 'gc'):
            objs = {}
            old = sorted(complete())
            for n in old:
                objs.update(packs[n]['objs'])
            if k == 'gc':
                objs.update({s: content[s] for s in loose})
            if not objs:
                return
            l = sorted(objs)
            n = min(op['n'], len(l))
            new = set()
            for j in range(n):
                new.add(put_pack([{'type': objs[s][0], 'data': objs[s][1], 'enc': {'l': op['i'] % 10}} for s in l[j::n]], 2))
            for x in old:
                if x not in new:
                    drop_pack(x)
            if k == 'gc':
                for s in sorted(loose):
                    w.delete(loose.pop(s))
        elif k == 'prune':
            inpack = set()
            for p in complete().values():
                inpack.update(p['objs'])
            for s in sorted(loose):
                if s in inpack or op['i'] % 3 == 0:
                    w.delete(loose.pop(s))
        elif k == 'rmpack':
            c = sorted(complete())
            if c:
                drop_pack(c[op['i'] % len(c)])
        elif k == 'unpack':
            c = sorted(complete())
            if c:
                n = c[op['i'] % len(c)]
                for s in sorted(packs[n]['objs']):
                    add_loose(s)
                drop_pack(n)
        elif k == 'many':
            for j in range(op['n']):
                put_pack([{'type': 'blob', 'data': b'one of many %d %d' % (op['i'] % 3, j), 'enc': {'l': 1}}], 2)
        elif k == 'rmdir':
            # a git database does without packs
            if target == 'git' and exists(PACK):
                st['seen'] = None       # there is no pack database then which could announce it
                for n in sorted(packs):
                    drop_pack(n)
                with w.pause():
                    shutil.rmtree(PACK)
        elif k == 'jump':
            w.jump_clock(int(op['s'] * 1e9))
        elif k == 'junk':
            j = op['i'] % 12
            if j > 8:
                # more files of a pack
                c = sorted(complete())
                if c:
                    w.put('%s/pack-%s.%s' % (PACK, c[op['i'] // 12 % len(c)], ('keep', 'bitmap', 'rev')[j - 9]), b'junk')
            elif j < 5:
                if exists(PACK):
                    w.put(PACK + '/' + ('tmp_pack_abc', 'pack-x.keep', 'pack-123.pack.tmp', 'multi-pack-index', 'pack-5.rev')[j], b'junk')
            else:
                # objects in quarantine and temporary files are not in the database
                d = b'in quarantine %d' % (op['i'] % 5)
                s = F.sha('blob', d)
                content.setdefault(s, ('blob', d))
                w.put(OBJ + '/' + ('incoming-x1/%s/%s', '%s/tmp_obj_%.6s', 'tmp_objdir-incoming-a/%s/%s', '%s/%sx')[j - 5] % (hx(s)[:2], hx(s)[2:]), F.loose_bytes('blob', d))

    w.midcall = lambda f: foreign(f['what'])

    def view():
        v = {}
        if target == 'git':
            v.update({s: content[s] for s in loose})
        for p in complete().values():
            v.update(p['objs'])
        return v

    def opendb():
        return gdb.PackedDB(PACK) if target == 'pack' else gdb.GitDB(OBJ)

    def db():
        if st['db'] is None:
            st['db'] = opendb()
        return st['db']

    def verify(D, where):
        v = view()
        for s in sorted(v):
            check_object(D, s, *v[s])
        for s in sorted(content):
            if s not in v:
                check_absent(D, s)
        want = sorted([s for p in complete().values() for s in p['objs']] + (list(loose) if target == 'git' else []))
        got = sorted(bytes(x) for x in D.sha_iter())
        if got != want:
            fail('iter', '%s: sha_iter lists %d ids instead of %d (missing %s, extra %s)' % (
                where, len(got), len(want), [hx(x) for x in set(want) - set(got)][:3], [hx(x) for x in set(got) - set(want)][:3]))
        if D.size() != len(want):
            fail('size', '%s: size() is %r instead of %d' % (where, D.size(), len(want)))
        if target == 'pack':
            ents = sorted(e.pack().path() for e in D.entities())
            if ents != sorted('%s/pack-%s.pack' % (PACK, n) for n in complete()):
                fail('entities', '%s: entities() are %s' % (where, ents))

    def hit():
        return sum(v for k, v in w.fired.items() if k != 'clock_jump')

    for op in plan['ops']:
        w.cur.op = op['id']
        k = op['op']
        if k in FOREIGN + RARE:
            foreign(op)
            continue
        if k == 'reopen':
            st.update(db=None, fresh=False, held=[], seen=None)
            past.clear()
            continue
        h0 = hit()
        if k == 'update':
            D = db()
            m0 = dir_mtime()
            c0 = changes[0]
            ok, r = attempt(D.update_cache, op['force'])
            w.cur.op = -1
            if not ok:
                st['seen'] = None
            if not ok:
                if not isinstance(r, (OSError, MemoryError, ValueError, BufferError)) or hit() == h0:
                    fail('update-failed', 'update_cache raised %s: %s' % (exname(r), r))
                w.probe('failed_updates')
                # nothing is poisoned: the next one works
                D.update_cache(force=True)
                ok, c0 = True, changes[0]
                op = dict(op, force=True)
            if ok and c0 == changes[0]:
                if op['force'] or m0 not in past:
                    st['fresh'] = True
            elif ok:
                # changed meanwhile: an unforced update notices that by the modification time
                if dir_mtime() not in past:
                    D.update_cache()
                    st['fresh'] = True
                    w.probe('raced_updates')
            if st['fresh']:
                now = sorted(complete())
                if ok and r is False and 't0' not in cfg and st['seen'] not in (None, now) and c0 == changes[0]:
                    fail('unannounced', 'update_cache returned False although there were changes')
                st['seen'] = now
                verify(D, 'after update_cache')
                w.probe('fresh_views')
                if changes[0] >= 2:
                    looked[0] += 1
            continue
        # lookups: anything but wrong content or (unless fresh) a wrong answer
        D = db()
        c0 = changes[0]
        pool = sorted(content)
        s = pool[op['i'] % len(pool)] if pool else F.sha('blob', b'nothing')
        if k == 'store':
            if target != 'git':
                continue
            new = not pool or op['i'] % 3 == 0
            t, d = ('blob', b'stored by the client %d' % op['i']) if new else content[s]
            s = F.sha(t, d)
            new = s not in content
            content[s] = (t, d)
            c0 = changes[0]
            ok, r = attempt(D.store, IStream(otype(t, len(d)), len(d), BytesIO(d)))
            path = '%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])
            if ok and c0 == changes[0] and not exists(path):
                fail('not-stored', 'store returned, but there is no file of %s' % hx(s))
            if exists(path):
                loose[s] = path
            elif not ok and hit() == h0:
                fail('spurious', 'store failed: %r' % r)
            elif new:
                del content[s]
            continue
        w.log('lookup', k)
        if k == 'has':
            ok, r = attempt(D.has_object, s)
        elif k == 'info':
            ok, r = attempt(D.info, s)
            if ok:
                check_info(r, s, content[s][0], len(content[s][1]), 'info')
        elif k in ('stream', 'hold'):
            def get():
                x = D.stream(s)
                check_info(x, s, content[s][0], len(content[s][1]), 'stream')
                if k == 'hold':
                    n = len(content[s][1]) // 2
                    if n and x.read(n) != content[s][1][:n]:
                        fail('content', 'first half of %s' % hx(s))
                    st['held'].append((x, content[s][1][n:]))
                    return True
                return drain(x, PATTERNS[op['pat']])
            ok, r = attempt(get)
            if ok and k == 'stream' and r != content[s][1]:
                fail('content', 'stale or wrong content of %s: %s instead of %s' % (hx(s), short(r), short(content[s][1])))
        elif k == 'iter':
            ok, r = attempt(lambda: [bytes(x) for x in D.sha_iter()])
            if ok and not set(r) <= set(content):
                fail('ghost', 'sha_iter lists ids that never existed')
            if ok and target == 'git' and c0 == changes[0] and not set(loose) <= set(r):
                fail('hidden', 'sha_iter does not list the loose object %s' % hx(min(set(loose) - set(r))))
        elif k == 'size':
            ok, r = attempt(D.size)
            if ok and target == 'git' and c0 == changes[0] and r < len(loose):
                fail('hidden', 'size() is %d, there are %d loose objects' % (r, len(loose)))
        elif k == 'entities':
            ok, r = attempt(D.entities if target == 'pack' else D.databases)
        elif k == 'partial':
            if target == 'git':
                ok, r = attempt(D.partial_to_complete_sha_hex, hx(s))
            else:
                ok, r = attempt(D.partial_to_complete_sha, s, 40)
            if ok and bytes(r) != s:
                fail('partial', 'full id resolves to another one')
        # an object present all the time since a fresh view must be found
        if st['fresh'] and hit() == h0:
            v = view()
            present = s in v
            found = ok and r is not False
            if k in ('has', 'info', 'stream', 'hold', 'partial'):
                if found != present:
                    fail('lost' if present else 'ghost', '%s of %s gives %r, it is %s' % (k, hx(s), r, 'there' if present else 'not there'))
            elif not ok:
                fail('spurious', '%s failed: %r' % (k, r))
        if not ok and isinstance(r, (OSError, BadObject)):
            pass
        elif not ok and hit() == h0:
            fail('wrong-exception', '%s raised %s: %s' % (k, exname(r), r))
        r = None
        looked[0] += changes[0] >= 2
    # ---- at the end everything is in place after one update
    w.cur.op = -1
    w.env = []
    for x, rest in st['held']:
        got = drain(x, None)
        if got != rest:
            fail('content', 'an open stream delivers something else after the storage changed')
    D = db()
    D.update_cache(force=True)
    verify(D, 'at the end')
    verify(opendb(), 'fresh database')
    w.probe('looks', looked[0])
    for p in ('failed_updates', 'raced_updates', 'fresh_views'):
        w.probe(p, 0)


def nontrivial(plan, r):
    return r.probes.get('looks', 0) > 0
