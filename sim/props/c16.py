"""C16: degraded but legal environments do not change results."""
import pathlib

from ..lib import *
from .. import lib, core
from .c14 import NAMES

RUNS = {'quick': 2250, 'thorough': 40000}
RULE = ("a run is a history (5-20 steps) of stores, raw stores, lookups, streams, enumerations, pack creations and reads, memory copies, LockedFD sessions and reopenings on two databases at odd "
        "paths, in an environment that refuses O_NOATIME (or lacks it), file maps of loose objects or anonymous maps, always or now and then, reads short, refuses chmod up to 13 times, collides "
        "temporary names, orders directories differently or rejects all changes during lookups; everything must go as in a normal environment; non-trivial: the environment interfered at least "
        "twice; distinct by the log of all simulated calls")


def gen_env(rng, names):
    env = []

    def every():
        e = {}
        c = rng.random()
        if c < .5:
            e['every'] = 1
        elif c < .8:
            e['every'] = rng.choice((2, 3, 7))
        if rng.random() < .25:
            e['off'] = rng.randrange(6)
        if rng.random() < .15:
            e['end'] = rng.randrange(1, 12)
        if rng.random() < .3:
            e['in'] = rng.choice(names)
        return e
    pick = [k for k in ('noatime', 'mmapf', 'mmapa', 'read', 'chmod') if rng.random() < .45] or ['noatime']
    for k in pick:
        if k == 'noatime':
            env.append(dict(every(), cls='open', do='err', errno=rng.choice(('EPERM', 'EPERM', 'EACCES')), noatime=True))
        elif k == 'mmapf':
            env.append(dict(every(), cls='mmapf', do='err', errno=rng.choice(('ENOMEM', 'EACCES', 'EPERM', 'EBUSY')), notin='pack'))
        elif k == 'mmapa':
            e = dict(every(), cls='mmapa', do='err', errno='ENOMEM')
            e.pop('in', None)
            env.append(e)
        elif k == 'read':
            env.append(dict(every(), cls='read', do='short', n=rng.choice((1, 2, 7, 100, 4095))))
        else:
            n = rng.choice((2, 3, 5, 13))
            env.append({'cls': 'chmod', 'do': 'err', 'errno': rng.choice(('EPERM', 'EACCES')), 'burst': n, 'notin': 'junk'})
    return env


def gen(rng, tier):
    names = [rng.choice(NAMES) % i for i in range(2)]
    cfg = {'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(5), 'dirs': names, 'slash': rng.random() < .2, 'abs': rng.random() < .4, 'env': gen_env(rng, names), 'knobs': {},
           'umask': rng.choice((0o022, 0o022, 0o077, 0, 0o027)), 'nonoatime': rng.random() < .1, 'pathlib': rng.random() < .2}
    if rng.random() < .4:
        cfg['names'] = rng.choice((3, 5, 20))
    if cfg.get('names', 20) >= 20 and rng.random() < .5:
        cfg['collide'] = rng.choice((2, 2, 3, 5))
    if rng.random() < .5:
        cfg['knobs']['chunk'] = rng.choice((64, 511, 4096))
    ops = []
    for i in range(rng.randrange(5, 21)):
        k = rng.choice(('store', 'store', 'store', 'again', 'raw', 'look', 'look', 'look', 'iter', 'partial', 'fpack', 'cpack', 'lock', 'copy', 'reopen', 'two', 'missing', 'junk'))
        op = {'op': k, 'd': rng.randrange(2), 'i': rng.randrange(1 << 16), 'pat': rng.randrange(len(PATTERNS))}
        if k in ('store', 'raw'):
            r = F.recipe(rng)
            if cfg['knobs'].get('chunk', 4096) < 512 or any(e['cls'] == 'read' and e['n'] < 100 for e in cfg['env']):
                r['n'] = min(r['n'], 3000)
            op.update(t=rng.choice(F.TYPES), c=r, src=gen_src(rng, r['n']), enc=F.encoding(rng, r['n']))
        elif k in ('fpack', 'cpack'):
            op.update(objs=[gen_obj(rng, j, .5, (0, 1, 10, 300, 5000)) for j in range(rng.choice((1, 2, 4)))], v=rng.choice((1, 2, 2)))
        elif k == 'lock':
            op.update(c=F.recipe(rng, (0, 1, 300, 5000)), stream=rng.random() < .5)
        elif k == 'junk':
            op['n'] = rng.choice((0, 0, 3, 150))
        elif k == 'reopen':
            op['kind'] = rng.choice(('loose', 'git'))
        ops.append(op)
    return {'cfg': cfg, 'ops': ops}


def execute(w, plan):
    cfg = plan['cfg']
    dirs = cfg['dirs']
    st = {}
    loose = [{}, {}]
    packed = [{}, {}]
    kinds = ['git', 'loose']
    seen = {}

    real_match = w._match

    def match(act, cls, k, rel=''):
        # chmod: refused that often for every file, then granted
        f = real_match(act, cls, k, rel)
        if f is not None and 'burst' in f:
            n = seen.get(rel, 0)
            seen[rel] = n + 1
            if n >= f['burst']:
                return None
        return f
    w._match = match

    def root(i):
        p = dirs[i]
        if cfg.get('abs'):
            p = os.path.abspath(p)
        p += '/' if cfg.get('slash') else ''
        return pathlib.Path(p) if cfg.get('pathlib') else p

    def opendb(i, kind=None):
        return gdb.LooseObjectDB(root(i)) if (kind or kinds[i]) == 'loose' else gdb.GitDB(root(i))

    def db(i):
        if i not in st:
            st[i] = opendb(i)
        return st[i]

    def view(i):
        v = dict(loose[i])
        if kinds[i] == 'git':
            for m in packed[i].values():
                v.update(m)
        return v

    def quiet(name, rel, rel2):
        fail('mutation', 'a lookup changes the disk: %s(%s)' % (name, rel))

    class RO:
        def __enter__(self):
            w.hooks.append(quiet)

        def __exit__(self, *a):
            w.hooks.remove(quiet)

    def others():
        # temporary files of other processes which took the name first
        for rel in sorted(w.foreign):
            try:
                ok = w.get(rel) == b'not yours'
            except OSError:
                ok = False
            if not ok:
                fail('foreign', 'the temporary file of another process, %s, is gone or changed' % rel)
            w.delete(rel)
        w.foreign.clear()

    def stored(i, s, where):
        others()
        p = '%s/%s/%s' % (dirs[i], hx(s)[:2], hx(s)[2:])
        with w.pause():
            try:
                m = os.stat(p).st_mode & 0o777
            except OSError:
                fail('lost', '%s: no file for %s' % (where, hx(s)))
        if m != 0o444:
            fail('mode', '%s: object file has mode %o' % (where, m))
        try:
            F.check_loose('%s/%s' % (hx(s)[:2], hx(s)[2:]), w.get(p))
        except F.FormatError as e:
            fail('bad-file', '%s: %s' % (where, e))
        left = [f for f in w.tree(dirs[i]) if not F.is_loose_path(f[len(dirs[i]) + 1:]) and not f[len(dirs[i]) + 1:].startswith(('pack/', 'info/', 'junk'))]
        if left:
            fail('temp-left', '%s leaves %s' % (where, left))

    for i in (0, 1):
        w.mkdirs(dirs[i] + '/pack')
    um = cfg.get('umask', 0o022)
    os.umask(um)
    noat = getattr(os, 'O_NOATIME', None)
    if cfg.get('nonoatime') and noat is not None:
        del os.O_NOATIME
    try:
        for op in plan['ops']:
            w.cur.op = op['id']
            k = op['op']
            i = op['d']
            D = db(i)
            v = view(i)
            if k in ('store', 'raw', 'again'):
                if k == 'again':
                    if not v:
                        continue
                    s = sorted(v)[op['i'] % len(v)]
                    t, d = v[s]
                    ist = mk_istream(t, d, {'mode': 'full'})
                else:
                    t, d = op['t'], F.content(op['c'])
                    s = F.sha(t, d)
                    ist = mk_istream(t, d, op['src']) if k == 'store' else IStream(otype(t, len(d)), len(d), mk_src(F.loose_bytes(t, d, op['enc']), op['src']), s)
                t0 = w.slept_ns
                r = D.store(ist)
                if r.binsha != s:
                    fail('store-sha', 'store yields another id')
                if w.slept_ns - t0 > 2 * 10 ** 9:
                    fail('slow', 'store slept for %.1f s' % ((w.slept_ns - t0) / 1e9))
                loose[i][s] = (t, d)
                stored(i, s, k)
                v = view(i)
            elif k == 'fpack' or k == 'cpack':
                pk = Packer()
                for o in op['objs']:
                    pk.add(o)
                if pk.objs:
                    if k == 'fpack':
                        name, _ = foreign_pack(w, pk.objs, dirs[i], op['v'])
                        base = '%s/pack/pack-%s' % (dirs[i], name)
                    else:
                        l = [OStream(F.sha(o['type'], o['data']), o['type'].encode(), len(o['data']), BytesIO(o['data'])) for o in pk.objs]
                        e = gpack.PackEntity.create(l, os.path.join(root(i), 'pack'), len(l))
                        base = os.path.relpath(e.pack().path()[:-5])
                        others()
                        try:
                            F.check_pair(w.get(base + '.pack'), w.get(base + '.idx'))
                        except F.FormatError as e:
                            fail('bad-pack', str(e))
                        with RO():
                            for s in sorted(pk.model()):
                                if not e.is_valid_stream(s, bool(op['i'] & 1)):
                                    fail('invalid', 'a new pack is not valid')
                        e = None
                    packed[i][base] = pk.model()
                    if kinds[i] == 'git':
                        D.update_cache(force=True)
                v = view(i)
            elif k == 'lock':
                p = dirs[i] + '/junk.locked'
                d = F.content(op['c'])
                L = gutil.LockedFD(p)
                f = L.open(write=True, stream=op['stream'])
                if op['stream']:
                    f.write(d)
                else:
                    gstream.FDStream(f).write(d)
                L.commit()
                L = gutil.LockedFD(p)
                got = drain(L.open(stream=True), [4096])      # (as any raw stream, it may deliver less than asked for)
                L.rollback()
                if got != d or w.get(p) != d:
                    fail('lock', 'wrote %s, read %s' % (short(d), short(got)))
                got = bytes(gutil.file_contents_ro_filepath(p, allow_mmap=False)[:])
                if d and got == d:
                    got = bytes(gutil.file_contents_ro_filepath(p, stream=True)[:])
                if got != d:
                    fail('contents', 'file_contents_ro: %s instead of %s' % (short(got), short(d)))
                w.delete(p)
            elif k == 'copy':
                m = gdb.MemoryDB()
                o = dict(list(sorted(v.items()))[:4])
                for s in o:
                    m.store(mk_istream(*o[s], {'mode': 'full'}))
                have = view(1 - i)
                n = m.stream_copy(sorted(o), db(1 - i))
                if n != len(set(o) - set(have)):
                    fail('copy', 'copied %d of %d objects' % (n, len(set(o) - set(have))))
                for s in o:
                    if s not in have:
                        loose[1 - i][s] = o[s]
                        stored(1 - i, s, 'copy')
            elif k == 'reopen':
                kinds[i] = op['kind']
                st.pop(i, None)
            elif k == 'junk':
                w.put(dirs[i] + '/junk', b'x')
                w.mkdirs(dirs[i] + '/zz')
                w.mkdirs(dirs[i] + '/info')
                rng = random.Random(op['i'])
                for j in range(op.get('n', 0)):
                    # what others leave next to the packs
                    w.put('%s/pack/%s' % (dirs[i], rng.choice(('tmp_pack_%s', 'pack-%s.keep', 'pack-%s.rev', 'pack-%s.bitmap', '.tmp-%s.idx', 'tmp_idx_%s', 'pack-%s.mtimes')) % rng.randbytes(20).hex()), b'x')
            elif k == 'missing':
                with RO():
                    check_absent(D, F.sha('blob', b'missing %d' % op['i']))
            elif k == 'iter':
                with RO():
                    got = [bytes(x) for x in D.sha_iter()]
                    if set(got) != set(v):
                        fail('iter', 'sha_iter: %d ids instead of %d' % (len(set(got)), len(v)))
                    if D.size() != len(got):
                        fail('iter', 'size() %d, %d ids' % (D.size(), len(got)))
            elif v and k == 'two':
                # two streams in turns
                l = sorted(v)
                a, b = l[op['i'] % len(l)], l[op['i'] // 7 % len(l)]
                with RO():
                    x, y = D.stream(a), D.stream(b)
                    n = 1 + op['i'] % 300
                    ox, oy = [], []
                    while True:
                        p, q = x.read(n), y.read(n)
                        ox.append(p)
                        oy.append(q)
                        if not p and not q:
                            break
                    if b''.join(ox) != v[a][1] or b''.join(oy) != v[b][1]:
                        fail('content', 'two streams read in turns')
                    x = y = None
            elif v:
                s = sorted(v)[op['i'] % len(v)]
                with RO():
                    if k == 'partial':
                        if bytes(D.partial_to_complete_sha_hex(hx(s))) != s:
                            fail('partial', 'full id resolves to another one')
                    else:
                        check_object(D, s, *v[s], PATTERNS[op['pat']])
            w.probe('steps')
        w.cur.op = -2
        for kind in ('loose', 'git'):
            for i in (0, 1):
                kinds[i] = kind
                with RO():
                    D = opendb(i)
                    v = view(i)
                    for s in sorted(v):
                        check_object(D, s, *v[s])
                    D = None
    finally:
        os.umask(0o022)
        if noat is not None:
            os.O_NOATIME = noat
        del w._match


def nontrivial(plan, r):
    return sum(r.fired.values()) >= 2
