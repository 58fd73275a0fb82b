"""C06: a written pack and its index are complete, consistent and faithful."""
from ..lib import *
from .. import lib
import struct
import hashlib

RUNS = {'quick': 562, 'thorough': 6000}
RULE = ("a run creates 1-4 packs or indices (create, write_pack with user writers, IndexWriter) from random objects with random sources, counts, compression levels and "
        "chunk sizes, fault-free and then up to four times with system-call faults, and reads each back with an independent parser and with gitdb; non-trivial: a pack with "
        "two or more objects was published, or a creation failed; distinct by the log of all simulated calls")

CLASSES = ('creat', 'write', 'write', 'close', 'rename', 'unlink', 'open', 'alloc')
PACK = OBJ + '/pack'


def gen(rng, tier):
    cfg = {'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4)}
    if rng.random() < .6:
        cfg['knobs'] = {'pchunk': rng.choice((1, 7, 64, 511, 512, 4096))}
    small = cfg.get('knobs', {}).get('pchunk', 9999) < 100
    ops = []
    for i in range(rng.randrange(1, 5)):
        c = rng.random()
        if c < .15:
            n = rng.choice((0, 1, 2, 5, 20, 100) if rng.random() < .9 else (260, 1000))
            ops.append({'op': 'idx', 'n': n, 's': rng.randrange(1 << 30), 'big': rng.choice((0, 0, 1, 2)), 'order': rng.randrange(3)})
            continue
        if c < .2:
            ops.append({'op': 'cap', 'n': rng.choice((0, 1, 10, 50, 500, 3000))})
            continue
        if c < .24 and i:
            ops.append({'op': 'repeat', 'i': rng.randrange(8)})
            continue
        if rng.random() < .003 and not small:
            ops.append({'op': 'giant', 'n': [rng.choice(((1 << 22) + 1, (1 << 25) - 1, 1 << 25, (1 << 25) + 1, 1 << 26, 1 << 27, 1 << 28)), rng.choice((4, 15, 16, 2047, 2048, (1 << 18) - 1, 1 << 18))],
                        'most': rng.choice((None, None, 1 << 16, 1000003)), 'f': rng.random() < .5, 't': rng.choice(F.TYPES)})
            continue
        n = rng.choice((0, 1, 1, 2, 3, 5, 8))
        objs = []
        for j in range(n):
            r = F.recipe(rng)
            r['n'] = min(r['n'], (200 if cfg['knobs']['pchunk'] < 8 else 2000) if small else 70000)
            src = gen_src(rng, r['n'])
            if rng.random() < .06:
                src = {'mode': rng.choice(('err', 'eof')), 'p': rng.choice((0, r['n'] // 2, max(0, r['n'] - 1))), 's': rng.randrange(1 << 16)}
            objs.append({'t': rng.choice(F.TYPES), 'c': r, 'src': src, 'from': rng.choice(('plain', 'plain', 'plain', 'mem', 'istream'))})
        if rng.random() < .008:
            for j in range(rng.choice((260, 600, 1500))):
                objs.append({'t': 'blob', 'c': {'k': 'rand', 'n': rng.randrange(6, 40), 's': rng.randrange(1 << 30)}, 'src': {'mode': 'full'}, 'from': rng.choice(('plain', 'istream'))})
        if rng.random() < .1:
            # ids which differ in their last bytes only
            s = rng.randrange(8) * 2
            for x in rng.sample((s, s + 1), 2):
                d = F.content({'k': 'near', 'n': 1, 's': x})
                objs.insert(rng.randrange(len(objs) + 1), {'t': 'blob', 'c': {'k': 'near', 'n': len(d), 's': x}, 'src': {'mode': 'full'}, 'from': rng.choice(('plain', 'mem', 'istream'))})
        ops.append({'op': rng.choice(('create', 'create', 'create', 'write')), 'objs': objs, 'level': rng.choice((-1, 0, 1, 1, 5, 9)),
                    'count': rng.choice(('none', 'none', 'exact', 'exact', 'more', 'fewer', 'raise')) if rng.random() < .5 else 'exact',
                    'iter': rng.choice(('list', 'tuple', 'gen')), 'index': rng.random() < .8, 'failw': rng.choice((None, None, None, 0, 1, 2, 5, 9)),
                    'dflt': rng.random() < .3})
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 4:
        return None
    out = []
    for _ in range(rng.choice((1, 1, 1, 2, 2))):
        cl = rng.choice(CLASSES)
        f = pick_fault(rng, trace, (cl,)) or pick_fault(rng, trace, CLASSES)
        if f:
            out.append(f)
    return interrupts(rng, out) or None


class GenError(Exception):
    pass


class WriterError(Exception):
    pass


def verify_entity(ent, psha, objs, name):
    """gitdb's own readers agree; objs: list of (sha, type, data) in pack order"""
    idx, pk = ent.index(), ent.pack()
    n = len(objs)
    model = {s: (t, d) for s, t, d in objs}
    if pk.size() != n or idx.size() != n:
        fail('count', 'pack has %r, index %r objects instead of %d' % (pk.size(), idx.size(), n))
    if idx.version() != 2 or pk.version() != 2:
        fail('version', 'versions %r %r' % (idx.version(), pk.version()))
    if bytes(pk.checksum()) != psha or bytes(idx.packfile_checksum()) != psha:
        fail('checksum', 'checksum() of the pack and its index are not the trailer')
    shas = [bytes(idx.sha(i)) for i in range(n)]
    if shas != sorted(model):
        fail('index-ids', 'ids of the index')
    offs = [idx.offset(i) for i in range(n)]
    if sorted(idx.offsets()) != sorted(offs):
        fail('offsets', 'offsets() %r instead of %r' % (list(idx.offsets())[:5], offs[:5]))
    seq = []
    for st in pk.stream_iter():
        d = drain(st, [1000])
        seq.append((tname(st.type), d))
    if seq != [(t, d) for s, t, d in objs]:
        fail('pack-iter', 'iterating the pack yields other objects: %s' % [(t, short(d, 5)) for t, d in seq])
    infos = {bytes(o.binsha): (tname(o.type), o.size) for o in ent.info_iter()}
    if infos != {s: (t, len(d)) for s, (t, d) in model.items()}:
        fail('info-iter', 'info_iter of the entity')
    got = {}
    for o in ent.stream_iter():
        got[bytes(o.binsha)] = (tname(o.type), drain(o))
    if got != model:
        fail('stream-iter', 'stream_iter of the entity')
    for s, (t, d) in model.items():
        check_info(ent.info(s), s, t, len(d), 'entity.info')
        st = ent.stream(s)
        if drain(st, [777]) != d:
            fail('content', 'entity.stream of %s' % hx(s))
        if ent.is_valid_stream(s, use_crc=False) is not True:
            fail('valid', 'is_valid_stream by sha is not True')
        if n and ent.is_valid_stream(s, use_crc=True) is not True:
            fail('valid', 'is_valid_stream by crc is not True')
        i = idx.sha_to_index(s)
        if i is None or bytes(idx.sha(i)) != s:
            fail('lookup', 'sha_to_index')


def execute(w, plan):
    w.mkdirs(PACK)
    published = {}      # name -> objs
    todo = []

    def nf():
        with w.pause():
            return nfds()

    def unl():
        return sum(v for k, v in w.fired.items() if k.startswith('unlink'))
    garbage = set()
    hist = []
    may = [False]       # the source may fail behind the last byte

    def objects(op, clean=False):
        """:return: (iterable, objs [(sha, type, data)], why it must fail or None, count)"""
        objs = []
        why = None
        may[0] = False
        seen = set()
        streams = []
        mem = None
        for o in op['objs']:
            t, d = o['t'], F.content(o['c'])
            s = F.sha(t, d)
            if s in seen:
                continue
            seen.add(s)
            objs.append((s, t, d))
            src = o['src'] if not (clean and o['src']['mode'] in ('err', 'eof')) else {'mode': 'full'}
            if o['from'] == 'mem':
                if mem is None:
                    mem = gdb.MemoryDB()
                with w.pause():
                    mem.store(IStream(otype(t, len(d)), len(d), BytesIO(d)))
                    streams.append(mem.stream(s))
                continue
            if src['mode'] == 'err':
                may[0] = True
            if src['mode'] in ('err', 'eof') and src['p'] < len(d):
                why = why or ('source', len(objs))
            st = mk_src(d, src)
            streams.append(OStream(s, t.encode(), len(d), st))
        n = len(objs)
        if n > 1000:
            w.probe('thousand')
        c = op['count'] if not clean else 'exact'
        if c == 'none':
            count = None
        elif c == 'exact':
            count = n
        elif c == 'more':
            count = n + 1
            why = why or ('count', n)
        elif c == 'fewer':
            count = max(1, n - 1)
        else:
            count = n
        if c == 'fewer' and n > 1:
            objs = objs[:count]
            if why and why[0] == 'source' and why[1] > count:
                why = None
        elif c == 'fewer' and n == 0:
            why = ('count', 0)
        if c == 'raise':
            why = why or ('iter', 0)

            def it():
                for x in streams[:max(0, n - 1)]:
                    yield x
                raise GenError("iteration failed")
            if n == 0 and False:
                why = None
            return it(), objs, why, count
        if op['iter'] == 'gen':
            it = (x for x in streams)
        else:
            it = streams if op['iter'] == 'list' else tuple(streams)
        return it, objs, why, count

    def verify_files(name, objs):
        base = '%s/pack-%s' % (PACK, name)
        try:
            got = F.check_pair(w.get(base + '.pack'), w.get(base + '.idx'))
        except F.FormatError as e:
            fail('bad-pack', 'pack-%s: %s' % (name, e))
        if got != {s: (t, d) for s, t, d in objs}:
            fail('bad-pack', 'pack-%s holds other objects' % name)
        order = [(s) for _, t, d, _, s, _ in F.parse_pack(w.get(base + '.pack'))]
        if order != [s for s, t, d in objs]:
            fail('bad-pack', 'objects of pack-%s are in another order' % name)

    def files_check(where, uf):
        have = set(p[len(PACK) + 1:] for p in w.tree(PACK))
        want = set()
        for n in published:
            want.update(('pack-%s.pack' % n, 'pack-%s.idx' % n))
        miss = want - have
        if miss:
            fail('harmed', '%s: %s disappeared' % (where, sorted(miss)))
        left = have - want - garbage
        if left:
            if unl() > uf:
                garbage.update(left)
            else:
                fail('left-over', '%s leaves %s' % (where, sorted(left)))

    def create(op, clean):
        it, objs, why, count = objects(op, clean)
        fds = nf()
        hit = sum(w.fired.values())
        uf = unl()
        args = {} if count is None else {'object_count': count}
        if not op.get('dflt'):
            args['zlib_compression'] = op['level']
        ok, ent = attempt(gpack.PackEntity.create, it, PACK, **args)
        del it
        where = 'create(%d objects, count %r) -> %s' % (len(objs), count, 'ok' if ok else repr(ent))
        if nf() != fds:
            fail('fd-leak', '%s: %d descriptors open, %d before' % (where, nf(), fds))
        op_id, w.cur.op = w.cur.op, -1
        if ok:
            if why:
                fail('not-raised', '%s although the %s is bad' % (where, why[0]))
            with w.pause():
                name = os.path.basename(ent.pack().path())[5:-5]
            if os.path.dirname(ent.pack().path()) != PACK:
                fail('bad-pack', 'pack created at %r' % ent.pack().path())
            if 'pack-%s.pack' % name in garbage:
                garbage.discard('pack-%s.pack' % name)
                garbage.discard('pack-%s.idx' % name)
            published[name] = objs
            verify_files(name, objs)
            with w.pause():
                psha = w.get(ent.pack().path())[-20:]
            if name != hx(psha):
                fail('bad-pack', 'pack with checksum %s is named %s' % (hx(psha), name))
            files_check(where, uf)
            verify_entity(ent, psha, objs, name)
            ent.close()
            w.probe('created' if len(objs) > 1 else 'created_small')
        else:
            if not why and not may[0] and sum(w.fired.values()) == hit:
                fail('spurious', '%s although nothing went wrong' % where)
            files_check(where, uf)
            for n in published:
                verify_files(n, published[n])
            w.probe('failed')
        w.cur.op = op_id
        return ok

    def write(op):
        it, objs, why, count = objects(op)
        hit = sum(w.fired.values())
        pbuf, ibuf = [], []
        left = [op['failw']]
        failed = []

        def pw(d):
            if left[0] is not None:
                if left[0] == 0:
                    failed.append(1)
                    raise WriterError()
                left[0] -= 1
            pbuf.append(bytes(d))
            return len(d)

        def iw(d):
            ibuf.append(bytes(d))
            return len(d)
        ok, r = attempt(gpack.PackEntity.write_pack, it, pw, iw if op['index'] else None, count, op['level'])
        if not ok:
            if not why and not may[0] and not failed and sum(w.fired.values()) == hit:
                fail('spurious', 'write_pack failed: %r' % r)
            return
        if why or failed:
            fail('not-raised', 'write_pack returned although the %s failed' % (why[0] if why else 'writer'))
        praw = b''.join(pbuf)
        model = {s: (t, d) for s, t, d in objs}
        try:
            if op['index']:
                got = F.check_pair(praw, b''.join(ibuf))
                if r[1] != b''.join(ibuf)[-20:]:
                    fail('result', 'index sha returned is not its trailer')
            else:
                got = {e[4]: (e[1], e[2]) for e in F.parse_pack(praw)}
                if r[1] is not None or ibuf:
                    fail('result', 'index sha %r without index' % (r[1],))
        except F.FormatError as e:
            fail('bad-pack', 'write_pack: %s' % e)
        if got != model:
            fail('bad-pack', 'write_pack: other objects')
        if r[0] != praw[-20:]:
            fail('result', 'pack sha returned is not the trailer')
        w.probe('written')

    def index(op):
        rng = random.Random(op['s'])
        ents = set()
        offs = {12}
        fb = [rng.randrange(256) for _ in range(3)]
        while len(ents) < op['n']:
            s = rng.randbytes(20)
            if rng.random() < .5:
                s = bytes([rng.choice(fb)]) + s[1:]
            if ents and rng.random() < .3:
                # next to another one
                m = rng.choice((2, 4, 8, 16, 19))
                s = rng.choice(sorted(ents))[:m] + s[m:]
            ents.add(s)
        rows = []
        o = 12
        for s in sorted(ents, key=lambda x: (x[::-1] if op['order'] else x)):
            rows.append((s, rng.choice((0, 1, 0x7fffffff, 0x80000000, 0xffffffff, rng.getrandbits(32))), o))
            o += rng.randrange(1, 1000)
            if op['big'] and rng.random() < .3:
                o += rng.choice((0x7fffffff, 0x80000000, 0xffffffff, 1 << 33, 1 << 40)) if op['big'] == 2 else rng.choice((0x70000000, 0x7fffffff - o - 1 if o < 0x7ffffff0 else 5))
                o = max(o, rows[-1][2] + 1)
        psha = rng.randbytes(20)
        iw = gpack.IndexWriter()
        rng.shuffle(rows)
        for r in rows:
            iw.append(r[0], r[1], r[2])
        buf = []
        got = iw.write(psha, buf.append)
        raw = b''.join(buf)
        if got != raw[-20:]:
            fail('result', 'IndexWriter.write returned another sha')
        try:
            v, e, ps = F.parse_index(raw)
        except F.FormatError as ex:
            fail('bad-index', 'IndexWriter: %s' % ex)
        rows.sort()
        if v != 2 or ps != psha or e != [(s, o, c & 0xffffffff) for s, c, o in rows]:
            fail('bad-index', 'IndexWriter wrote other entries')
        w.put('w/some%d.idx' % op['id'], raw)
        i = gpack.PackIndexFile('w/some%d.idx' % op['id'])
        if i.size() != len(rows) or i.version() != 2 or bytes(i.indexfile_checksum()) != raw[-20:] or bytes(i.packfile_checksum()) != psha:
            fail('index-read', 'size, version or checksums of the index')
        for n, (s, c, o) in enumerate(rows):
            if (i.offset(n), bytes(i.sha(n)), i.crc(n)) != (o, s, c) or tuple(i.entry(n)) != (o, s, c):
                fail('index-read', 'entry %d reads %r instead of %r' % (n, i.entry(n), (o, s, c)))
            if i.sha_to_index(s) != n:
                fail('index-read', 'sha_to_index')
            m = rng.choice((0, 1, 2, 10, 19))
            other = s[:m] + bytes([s[m] ^ 1 << rng.randrange(8)]) + s[m + 1:]
            if other not in ents and i.sha_to_index(other) is not None:
                fail('index-read', 'sha_to_index of an id which is not there gives %r' % i.sha_to_index(other))
        if list(i.offsets()) != [o for s, c, o in rows]:
            fail('offsets', 'offsets() gives %r instead of %r' % (list(i.offsets())[:6], [o for s, c, o in rows][:6]))
        for _ in range(5):
            s = rng.randbytes(20)
            if s not in ents and i.sha_to_index(s) is not None:
                fail('index-read', 'found an id that is not there')
        i.close()
        w.probe('indices')

    def headers(op):
        """what is written in front of an object, for sizes no test will ever write"""
        rng = random.Random(op['s'])
        for _ in range(12):
            n = rng.choice((0, 15, 16, rng.randrange(1 << rng.randrange(1, 64)), (1 << rng.randrange(1, 63)) - 1, 1 << rng.randrange(0, 63)))
            t = rng.choice((1, 2, 3, 4, 6, 7))
            h = bytes(gfun.create_pack_object_header(t, n))
            if h != F.obj_header(t, n):
                fail('header', 'the header of an object of type %d with %d bytes is %s instead of %s' % (t, n, hx(h), hx(F.obj_header(t, n))))

    def giant(op):
        """objects larger than any buffer"""
        l = [(F.zeros_sha(op['t'], n), n) for n in op['n']]
        if op['f']:
            l.reverse()
        w.mkdirs('w/giant')
        e = gpack.PackEntity.create([OStream(s, op['t'].encode(), n, F.Zeros(n, op['most'])) for s, n in l], 'w/giant', 2)
        base = os.path.relpath(e.pack().path()[:-5])
        raw, ents = w.get(base + '.pack'), []
        pos = 12
        for s, n in l:
            head = F.obj_header(F.TYPE_ID[op['t']], n)
            if raw[pos:pos + len(head)] != head:
                fail('bad-pack', 'header of an object of %d bytes is %r instead of %r' % (n, raw[pos:pos + len(head)], head))
            try:
                got, used = F.zeros_in_zlib(raw[pos + len(head):-20])
            except F.FormatError as x:
                fail('bad-pack', 'object of %d zero bytes: %s' % (n, x))
            if got != n:
                fail('bad-pack', 'object of %d bytes holds %d' % (n, got))
            ents.append((s, pos, zlib.crc32(raw[pos:pos + len(head) + used])))
            pos += len(head) + used
        if raw[:12] != struct.pack('>4sLL', b'PACK', 2, 2) or pos != len(raw) - 20 or hashlib.sha1(raw[:-20]).digest() != raw[-20:]:
            fail('bad-pack', 'header or checksum of the pack, or something behind the last object')
        if w.get(base + '.idx') != F.build_index(ents, raw[-20:], 2):
            fail('bad-index', 'the index is not what it should be')
        for s, n in l:
            check_info(e.info(s), s, op['t'], n, 'entity.info')
            if e.is_valid_stream(s, True) is not True:
                fail('valid', 'is_valid_stream by crc is not True')
        if [(o.pack_offset, o.size) for o in e.pack().stream_iter()] != [(x[1], n) for x, (s, n) in zip(ents, l)]:
            fail('pack-iter', 'iterating the pack')
        e = None
        for x in ('.pack', '.idx'):
            w.delete(base + x)
        w.probe('giant')

    for op in plan['ops']:
        w.cur.op = op['id']
        k = op['op']
        if k == 'repeat':
            if not hist:
                continue
            op = dict(hist[op['i'] % len(hist)])
            k = 'create'
        if k == 'create':
            if not create(op, False):
                cap, w.capacity = w.capacity, None
                w.cur.op = -1
                if not create(op, True):
                    fail('retry', 'repeating the failed creation failed')
                w.capacity = cap
            hist.append(op)
        elif k == 'write':
            write(op)
        elif k == 'idx':
            w.cur.op = -1
            index(op)
            headers(op)
        elif k == 'giant':
            w.cur.op = -1
            cap, w.capacity = w.capacity, None
            giant(op)
            w.capacity = cap
        elif k == 'cap':
            w.capacity = op['n']
    w.cur.op = -1
    w.capacity = None
    db = gdb.PackedDB(PACK)
    model = {}
    for n, objs in published.items():
        verify_files(n, objs)
        for s, t, d in objs:
            model[s] = (t, d)
    for s, (t, d) in model.items():
        check_object(db, s, t, d)
    if set(bytes(x) for x in db.sha_iter()) != set(model):
        fail('iter', 'PackedDB lists other objects')
    for p in ('created', 'failed', 'written', 'indices'):
        w.probe(p, 0)


def nontrivial(plan, r):
    return r.probes.get('created', 0) + r.probes.get('failed', 0) + r.probes.get('written', 0) > 0
