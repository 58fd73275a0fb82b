"""C07: packed objects, delta chains included, resolve to their exact content."""
from ..lib import *
from .. import lib
import hashlib
import struct

RUNS = {'quick': 487, 'thorough': 12000}
RULE = ("a run builds 1-3 packs from 1-20 objects (whole, empty, chains of offset and reference deltas, missing bases), version 1/2/64-bit indices, and executes 10-40 lookups "
        "and interleaved partial reads on several databases and entities, fault-free and then up to three times with failing opens, maps and reads; non-trivial: a delta "
        "chain of depth two or more was resolved, or a fault hit; distinct by the log of all simulated calls and results")
STUBS = 'clock, directory order, fault decisions, packs written by an independent generator'
PACK = OBJ + '/pack'
AS_LIMIT = 24 << 30      # packs of 4 GiB and more are mapped as a whole
KINDS = ('has', 'in', 'info', 'stream', 'stream', 'stream', 'open', 'open', 'iter', 'size', 'einfo', 'estream', 'atindex', 'valid', 'collect', 'packiter', 'entiter', 'absent', 'tables')
CLASSES = ('mmapf', 'mmapf', 'mmapa', 'open', 'open', 'close', 'read', 'scan', 'stat', 'alloc')


def gen(rng, tier):
    cfg = {'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4)}
    kn = {}
    if rng.random() < .4:
        kn['sort'] = rng.choice((1, 2, 3, 7))
    if rng.random() < .3:
        kn['pchunk'] = rng.choice((64, 511, 4096))
    cfg['knobs'] = kn
    if rng.random() < .15:
        cfg['env'] = [{'cls': 'mmapa', 'do': 'err', 'errno': 'ENOMEM', 'every': rng.choice((1, 2, 3))}]
    ops = []
    for p in range(rng.choice((1, 1, 1, 2, 2, 3))):
        n = rng.choice((0, 1, 2, 3, 5, 8, 8, 14))
        style = rng.random()
        delta = .55
        sizes = None
        if style < .15:
            n = rng.choice((15, 30, 60))
            delta = 1
            sizes = (0, 1, 40, 200)
        elif style < .3:
            # copies of 64 KiB and more
            n = rng.choice((2, 3, 4, 6))
            delta = .8
        huge = not p and rng.random() < .006
        if huge:
            # offsets that need four bytes
            n, delta, style = rng.choice((2, 3, 4)), 1, 1
        for j in range(n):
            o = gen_obj(rng, j, delta, sizes)
            if huge and not j:
                o.update(c={'k': 'rand', 'n': (1 << 24) + rng.randrange(1, 1 << 20), 's': rng.randrange(99)}, enc={'l': 0})
            elif huge and rng.random() < .7:
                o['b'] = 0
            if .15 <= style < .3:
                if not j:
                    o = gen_obj(rng, 0, 0, (65536, 65537, 70000, 140000), True)
                elif 'b' in o and rng.random() < .7:
                    o['b'] = 0
            if style < .15 and 'b' in o:
                o['b'] = j - 1
            ops.append(o)
        if rng.random() < .15:
            ops.append({'op': 'thin', 'ds': rng.randrange(1 << 30), 'on': rng.random() < .4})
        ops.append({'op': 'pack', 'v': rng.choice((1, 2, 2, 2)), 'large': rng.random() < .2, 'perm': rng.choice((None, rng.randrange(1000))), 'new': rng.random() < .8})
    cfg['git'] = rng.random() < .3
    if rng.random() < .04:
        ops.append({'op': 'giant', 'n': rng.choice((1 << 27, 1 << 28, (1 << 28) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) + 5)), 'depth': rng.choice((1, 1, 2, 3)), 'v': rng.choice((1, 2)),
                    'kind': rng.choice(('ofs', 'ref')), 's': rng.randrange(1 << 16)})
    if rng.random() < .04:
        ops.append({'op': 'wide', 'at': rng.choice((1 << 30, 1 << 30, 1 << 31, 1 << 32)), 'n': rng.choice((1, 2, 3, 5)), 'v': rng.choice((1, 2, 2)), 's': rng.randrange(1 << 16)})
    if rng.random() < .012:
        ops.append({'op': 'long', 'n': rng.choice((51, 257, 300, 1001, 2000, 4095)), 'v': rng.choice((1, 2)), 'ref': rng.choice((0, 0, .01, .3, 1)), 's': rng.randrange(1 << 16)})
    if rng.random() < .004:
        ops.append({'op': 'many', 'n': rng.choice((255, 257, 3000, 20000, 70000)), 'v': rng.choice((1, 2)), 's': rng.randrange(1 << 16)})
    if rng.random() < .01:
        ops.append({'op': 'packs', 'n': rng.choice((20, 65, 130, 260)), 's': rng.randrange(1 << 16)})
    for i in range(rng.randrange(10, 40)):
        k = rng.choice(KINDS)
        if rng.random() < .35:
            k = rng.choice(('read', 'read', 'read', 'seek', 'drop', 'reopen'))
        op = {'op': k, 'i': rng.randrange(1 << 16)}
        if k in ('stream', 'estream', 'atindex', 'entiter'):
            op['pat'] = rng.randrange(len(PATTERNS))
        if k == 'read':
            op['n'] = rng.choice((1, 7, 100, 511, 4096, 70000, -1))
        if k == 'valid':
            op['crc'] = rng.random() < .5
        ops.append(op)
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 3:
        return None
    out = []
    # (a failing stat while GitDB looks for its directories is taken for 'not there' by os.path.exists: not claimed)
    classes = [c for c in CLASSES if c != 'stat' or not plan['cfg'].get('git')]
    for _ in range(rng.choice((1, 1, 2, 3))):
        f = pick_fault(rng, trace, (rng.choice(classes),)) or pick_fault(rng, trace, classes)
        if f and f['do'] == 'err' and rng.random() < .5:
            f['times'] = rng.choice((2, 4, 1000))     # the map manager retries
        if f:
            out.append(f)
    return out or None


def execute(w, plan):
    w.mkdirs(PACK)
    packs = []          # (base path, entity or None, {sha: (type, data)}, [sha in pack order], bad shas, version)
    model = {}
    bad = set()
    cur = [Packer(), []]
    depth = 0
    st = {'db': None}
    streams = []

    def db():
        if st['db'] is None:
            st['db'] = gdb.GitDB(OBJ) if plan['cfg'].get('git') else gdb.PackedDB(PACK)
        return st['db']

    def fired():
        return sum(w.fired.values())

    def guarded(where, fn, check, *a):
        """run fn; it may only fail if a fault hit; then the same call works without faults"""
        hit = fired()
        ok, r = attempt(fn, *a)
        if ok:
            check(r)
            return r
        if fired() == hit:
            fail('spurious', '%s failed: %s: %s' % (where, exname(r), r))
        del r
        w.probe('failed_calls')
        w.cur.op = -1
        ok, r = attempt(fn, *a)
        if not ok:
            fail('not-recovered', '%s still fails after the resources are back: %s: %s' % (where, exname(r), r))
        check(r)
        return r

    def ent(p):
        if p[1] is None:
            p[1] = gpack.PackEntity(p[0] + '.pack')
        return p[1]

    def giant(op):
        """objects too large to be read here, with information and a beginning we can read"""
        rng = random.Random(op['s'])
        n = op['n']
        out = bytearray(struct.pack('>4sLL', b'PACK', 2, 1 + op['depth']))
        info = []

        def put(sha, data):
            info.append((sha, len(out), zlib.crc32(data), len(out) + len(data)))
            out.extend(data)
        put(rng.randbytes(20), F.obj_header(F.TYPE_ID['blob'], n) + F.zeros_zlib(n))
        sizes = [n]
        for i in range(op['depth']):
            size = rng.choice((n, n - 1, 1000, 1, (1 << 28) + i))
            size = min(size, sizes[-1])
            delta = F.varint(sizes[-1]) + F.varint(size)
            pos = 0
            while pos < size:
                m = min(0xffffff, size - pos)
                delta += F.copy_op(rng.choice((0, min(pos, sizes[-1] - m, 0xffffffff))), m)
                pos += m
            if op['kind'] == 'ofs':
                h = F.obj_header(F.OFS, len(delta)) + F.ofs_bytes(len(out) - info[-1][1])
            else:
                h = F.obj_header(F.REF, len(delta)) + info[-1][0]
            put(rng.randbytes(20), h + F.deflate(delta))
            sizes.append(size)
        out += hashlib.sha1(out).digest()
        base = 'w/giant%d/pack-%s' % (op['id'], hx(out[-20:]))
        w.put(base + '.pack', bytes(out))
        w.put(base + '.idx', F.build_index(info, bytes(out[-20:]), op['v']))
        e = gpack.PackEntity(base + '.pack')
        for D in (gdb.PackedDB(os.path.dirname(base)), e):
            for (s, _, _, _), size in zip(info, sizes):
                guarded('info', D.info, lambda r: check_info(r, s, 'blob', size, 'info of a large object'), s)
            guarded('stream', lambda: [bytes(x.read(m)) for x in [D.stream(info[0][0])] for m in (1, 300, 5000)],
                    lambda r: r == [bytes(m) for m in (1, 300, 5000)] or fail('content', 'the beginning of a large object is wrong'))
        guarded('info_iter', lambda: sorted((bytes(o.binsha), o.size) for o in e.info_iter()),
                lambda r: r == sorted((x[0], size) for x, size in zip(info, sizes)) or fail('info', 'info_iter of the entity'))
        w.probe('giant')

    def wide(op):
        """a pack larger than a map window or 32 bit, with holes, and objects around the border"""
        rng = random.Random(op['s'])
        at = op['at']
        objs = []           # sha, data, offset, bytes, kind of the object
        parts = [(0, struct.pack('>4sLL', b'PACK', 2, 1 + op['n'] + 1))]

        def put(ofs, data, i=None):
            t = 'blob'
            if i is None:
                raw = F.obj_header(F.TYPE_ID[t], len(data)) + F.deflate(data, {'l': rng.choice((0, 6))})
            else:
                base = objs[i]
                delta, data = F.make_delta(base[1], rng)
                ref = rng.random() < .3
                raw = (F.obj_header(F.REF, len(delta)) + base[0] if ref else F.obj_header(F.OFS, len(delta)) + F.ofs_bytes(ofs - base[2])) + F.deflate(delta)
            s = F.sha(t, data)
            if any(o[0] == s for o in objs):
                return ofs
            objs.append((s, data, ofs, raw))
            parts.append((ofs, raw))
            return ofs + len(raw)
        put(12, rng.randbytes(rng.choice((1, 50, 3000))))
        end = at - rng.choice((0, 1, 2, 5, 12, 21, 30, 300, 5000, 60000))
        if rng.random() < .2:
            end = 1 << 20
        for i in range(op['n']):
            end = put(end, rng.randbytes(rng.choice((10, 100, 5000, 70000))), rng.choice((None, None, 0, len(objs) - 1)))
        if end < at - 4096:
            end = put(at - rng.choice((0, 3, 10)), b'last %d' % op['s'])
        sure = [o for i, o in enumerate(objs[1:], 1) if i + 1 == len(objs) or objs[i + 1][2] == o[2] + len(o[3])]     # no hole behind it
        trailer = rng.randbytes(20)
        parts.append((end, trailer))
        v = op['v'] if end < 1 << 32 else 2
        base = 'w/wide%d/pack-%s' % (op['id'], hx(trailer))
        w.put(base + '.pack', parts)
        w.put(base + '.idx', F.build_index([(o[0], o[2], zlib.crc32(o[3])) for o in objs], trailer, v))
        e = gpack.PackEntity(base + '.pack')
        D = gdb.PackedDB(os.path.dirname(base))
        for s, d, ofs, raw in objs:
            X = rng.choice((D, e))
            guarded('info', X.info, lambda r: check_info(r, s, 'blob', len(d), 'info in a large pack'), s)
            guarded('stream', lambda: drain(X.stream(s), rng.choice(PATTERNS)), lambda r: r == d or fail('content', 'object at %d of a large pack: %s instead of %s' % (ofs, short(r), short(d))))
            guarded('pack.info', lambda: e.pack().info(ofs).pack_offset, lambda r: r == ofs or fail('info', 'info(%d) is at %r' % (ofs, r)))
        for s, d, ofs, raw in sure:
            for crc in (False, True):
                if crc and v == 1:
                    continue
                guarded('is_valid_stream', lambda: e.is_valid_stream(s, use_crc=crc), lambda r: r is True or fail('valid', 'object at %d of a large pack is said to be damaged' % ofs))
        guarded('checksum', lambda: bytes(e.pack().checksum()), lambda r: r == trailer or fail('checksum', 'checksum of a large pack is %r' % r))
        w.probe('wide')
        w.delete(base + '.idx')
        w.delete(base + '.pack')
    def long(op):
        """a chain of very many deltas"""
        rng = random.Random(op['s'])
        d = rng.randbytes(40)
        objs = [{'type': 'tree', 'data': d}]
        for i in range(op['n']):
            # no two of them are equal
            n = rng.randrange(4, len(d))
            new = rng.randbytes(rng.choice((0, 0, 1, 2, 5)) if len(d) > 20 else 9)
            e = struct.pack('>L', i) + d[4:n] + new + d[n + rng.randrange(4):]
            tail = len(e) - n - len(new)
            delta = (F.varint(len(d)) + F.varint(len(e)) + b'\4' + e[:4] + (F.copy_op(4, n - 4) if n > 4 else b'') + (bytes([len(new)]) + new if new else b'')
                     + (F.copy_op(len(d) - tail, tail) if tail else b''))
            assert F.apply_delta(d, delta) == e
            objs.append({'type': 'tree', 'data': e, 'delta': delta, 'base': i, 'kind': 'ref' if rng.random() < op['ref'] else 'ofs'})
            d = e
        raw, info = F.build_pack(objs)
        base = 'w/long%d/pack-%s' % (op['id'], hx(raw[-20:]))
        w.put(base + '.pack', raw)
        w.put(base + '.idx', F.build_index(info, raw[-20:], op['v']))
        e = gpack.PackEntity(base + '.pack')
        D = gdb.PackedDB(os.path.dirname(base))
        for X in (D, e):
            for i in (op['n'], rng.randrange(op['n'] + 1)):
                s, d = info[i][0], objs[i]['data']
                guarded('info', X.info, lambda r: check_info(r, s, 'tree', len(d), 'info at depth %d' % i), s)
                guarded('stream', lambda: drain(X.stream(s), PATTERNS[rng.randrange(len(PATTERNS))]), lambda r: r == d or fail('content', 'object at depth %d: %s instead of %s' % (i, short(r), short(d))))
        guarded('is_valid_stream', lambda: e.is_valid_stream(info[-1][0], False), lambda r: r is True or fail('valid', 'object at depth %d is said to be damaged' % op['n']))
        guarded('collect_streams', lambda: len(e.collect_streams(info[-1][0])), lambda r: r == op['n'] + 1 or fail('collect', 'collect_streams yields %d of %d' % (r, op['n'] + 1)))
        w.probe('long')

    def many(op):
        """a pack of very many objects"""
        rng = random.Random(op['s'])
        raw = bytearray(struct.pack('>4sLL', b'PACK', 2, op['n']))
        info = []
        for i in range(op['n']):
            d = b'%08d' % i
            z = F.obj_header(3, 8) + F.deflate(d, {'l': 0})
            info.append((F.sha('blob', d), len(raw), zlib.crc32(z), len(raw) + len(z)))
            raw += z
        raw += hashlib.sha1(raw).digest()
        base = 'w/many%d/pack-%s' % (op['id'], hx(raw[-20:]))
        w.put(base + '.pack', bytes(raw))
        w.put(base + '.idx', F.build_index(info, bytes(raw[-20:]), op['v']))
        e = gpack.PackEntity(base + '.pack')
        D = gdb.PackedDB(os.path.dirname(base))
        ids = sorted(x[0] for x in info)
        pos = {x[0]: i for i, x in enumerate(info)}
        some = [ids[0], ids[-1], info[0][0], info[-1][0]] + rng.sample(ids, 40)
        for X in (D, e):
            for s in some:
                d = b'%08d' % pos[s]
                guarded('info', X.info, lambda r: check_info(r, s, 'blob', 8, 'info among many'), s)
                guarded('stream', lambda: bytes(X.stream(s).read()), lambda r: r == d or fail('content', 'object among many: %s instead of %s' % (short(r), short(d))))
        for j in range(5):
            guarded('has_object', D.has_object, lambda r: r is False or fail('ghost', 'unknown id found among many'), rng.randbytes(20))
        guarded('sha_iter', lambda: [bytes(x) for x in D.sha_iter()] == ids, lambda r: r or fail('iter', 'sha_iter of many'))
        guarded('size', lambda: (D.size(), e.index().size(), e.pack().size()), lambda r: r == (op['n'],) * 3 or fail('size', 'sizes %r instead of %d' % (r, op['n'])))
        guarded('offsets', lambda: sorted(e.index().offsets()) == [x[1] for x in info], lambda r: r or fail('tables', 'offsets of many'))
        for s in some[:3]:
            guarded('is_valid_stream', lambda: e.is_valid_stream(s, op['v'] == 2), lambda r: r is True or fail('valid', 'object among many is said to be damaged'))
        w.probe('many')

    def very_many_packs(op):
        rng = random.Random(op['s'])
        where = 'w/packs%d' % op['id']
        mine = {}
        w.mkdirs(where + '/pack')
        for i in range(op['n']):
            d = b'in pack %d' % i
            foreign_pack(w, [{'type': 'blob', 'data': d}], where, rng.choice((1, 2)))
            mine[F.sha('blob', d)] = d
        D = gdb.PackedDB(where + '/pack')
        ids = sorted(mine)
        for s in rng.sample(ids, 15) + ids:
            guarded('has_object', D.has_object, lambda r: r is True or fail('lost', 'object of one of many packs is not found'), s)
        for s in rng.sample(ids, 15):
            guarded('stream', lambda: bytes(D.stream(s).read()), lambda r: r == mine[s] or fail('content', 'object of one of many packs: %s' % short(r)))
        guarded('has_object', D.has_object, lambda r: r is False or fail('ghost', 'unknown id found in many packs'), rng.randbytes(20))
        guarded('sha_iter', lambda: sorted(bytes(x) for x in D.sha_iter()) == ids, lambda r: r or fail('iter', 'sha_iter of many packs'))
        guarded('size', D.size, lambda r: r == op['n'] or fail('size', 'size of many packs'))
        s = ids[0]
        guarded('partial', lambda: bytes(D.partial_to_complete_sha(s, 40)), lambda r: r == s or fail('partial', 'full id in many packs'))
        w.probe('packs')

    done_query = False
    for op in plan['ops']:
        w.cur.op = op['id']
        k = op['op']
        if k == 'obj':
            cur[0].add(op)
            continue
        if k == 'thin':
            cur[1].append(op)
            continue
        if k == 'giant':
            giant(op)
            continue
        if k == 'wide':
            wide(op)
            continue
        if k in ('long', 'many', 'packs'):
            {'long': long, 'many': many, 'packs': very_many_packs}[k](op)
            continue
        if k == 'pack':
            pk, thin = cur
            if op['new']:
                cur = [Packer(), []]
            objs = [dict(o) for o in pk.ordered(op['perm'])]
            badhere = set()
            for t in thin:
                rng = random.Random(t['ds'])
                base = b'base that is not here %d' % t['ds'] * 5
                delta, d = F.make_delta(base, rng)
                d += b'x'       # never equal to a real object
                s = F.sha('blob', d)
                if s in badhere or F.sha('blob', d + b'y') in badhere or F.sha('blob', d[:-1]) in badhere:
                    continue
                objs.append({'type': 'blob', 'data': d, 'delta': delta, 'base_sha': F.sha('blob', base), 'kind': 'ref'})
                badhere.add(s)
                if t['on']:
                    d2 = d + b'y'
                    delta2, _ = F.make_delta(d, rng)
                    objs.append({'type': 'blob', 'data': d2, 'delta': delta2, 'base': len(objs) - 1, 'kind': rng.choice(('ofs', 'ref'))})
                    badhere.add(F.sha('blob', d2))
            if badhere & set(model) or (bad | badhere) & set(pk.model()):
                continue        # by chance, an object is there with and without base
            if not objs and packs:
                continue
            if any(p[0] == '%s/pack-%s' % (PACK, hx(F.build_pack(objs)[0][-20:])) for p in packs):
                continue
            name, info = foreign_pack(w, objs, version=op['v'], large=op['large'] and op['v'] == 2)
            base = '%s/pack-%s' % (PACK, name)
            packs.append([base, None, pk.model(), [e[0] for e in info], badhere, op['v'], info, objs])
            model.update(pk.model())
            bad |= badhere
            depth = max(depth, pk.depth())
            if done_query and st['db'] is not None:
                st['db'].update_cache(force=True)
            continue
        if not packs:
            continue
        done_query = True
        shas = sorted(model)
        D = db()
        if k == 'absent':
            check = lambda r: r is False or fail('ghost', 'has_object of an unknown id')
            guarded('has_object', D.has_object, check, F.sha('blob', b'unknown %d' % op['i']))
            continue
        if k == 'tables':
            p = packs[op['i'] % len(packs)]
            info = sorted(p[6])
            v = p[5]
            fields = {e[1]: o for e, o in zip(p[6], p[7])}

            def tables():
                x = ent(p).index()
                n = len(info)
                return ([x.version(), x.size(), x.path(), bytes(x.packfile_checksum()), bytes(x.indexfile_checksum()), sorted(x.offsets())]
                        + [[(o, bytes(b), c) for o, b, c in map(x.entry, range(n))], [bytes(x.sha(i)) for i in range(n)], [x.offset(i) for i in range(n)], [x.crc(i) for i in range(n)]]
                        + [[x.sha_to_index(e[0]) for e in info]])

            def check(r):
                with w.pause():
                    tail = w.get(p[0] + '.idx')[-40:]
                crcs = [e[2] if v == 2 else 0 for e in info]
                want = [v, len(info), p[0] + '.idx', tail[:20], tail[20:], sorted(e[1] for e in info),
                        [(e[1], e[0], c) for e, c in zip(info, crcs)], [e[0] for e in info], [e[1] for e in info], crcs, list(range(len(info)))]
                if r != want:
                    j = [a == b for a, b in zip(r, want)].index(False)
                    fail('tables', '%s of the index is %s instead of %s' % (
                        ('version', 'size', 'path', 'packfile_checksum', 'indexfile_checksum', 'offsets', 'entry', 'sha', 'offset', 'crc', 'sha_to_index')[j], str(r[j])[:200], str(want[j])[:200]))
            guarded('index tables', tables, check)

            def heads():
                x = ent(p).pack()
                return [x.size(), x.version(), x.path(), bytes(x.checksum())] + [[(o.pack_offset, o.type_id, o.size, getattr(o, 'delta_info', None)) for o in map(f, sorted(fields))] for f in (x.info, x.stream)]

            def check(r):
                want = []
                for off in sorted(fields):
                    o = fields[off]
                    if 'delta' not in o:
                        want.append((off, F.TYPE_ID[o['type']], len(o['data']), None))
                    elif o['kind'] == 'ofs':
                        want.append((off, F.OFS, len(o['delta']), off - p[6][o['base']][1]))
                    else:
                        want.append((off, F.REF, len(o['delta']), o.get('base_sha') or p[6][o['base']][0]))
                r[4:] = [[x[:3] + (bytes(x[3]) if isinstance(x[3], memoryview) else x[3],) for x in l] for l in r[4:]]
                with w.pause():
                    tail = w.get(p[0] + '.pack')[-20:]
                if r != [len(info), 2, p[0] + '.pack', tail, want, want]:
                    fail('heads', 'the pack file has %s instead of %s' % (str(r)[:300], str([len(info), 2, p[0] + '.pack', tail, want])[:300]))
            guarded('pack headers', heads, check)
            continue
        if k in ('iter', 'size', 'packiter', 'entiter'):
            if k == 'iter':
                def check(r):
                    if sorted(r) != sorted(s for p in packs for s in list(p[2]) + list(p[4])):
                        fail('iter', 'sha_iter yields other ids')
                if plan['cfg'].get('git'):
                    continue
                guarded('sha_iter', lambda: [bytes(x) for x in D.sha_iter()], check)
            elif k == 'size':
                n = sum(len(p[2]) + len(p[4]) for p in packs)
                guarded('size', D.size, lambda r: r == n or fail('size', 'size() %r instead of %d' % (r, n)))
            elif k == 'packiter':
                p = packs[op['i'] % len(packs)]

                def it():
                    out = []
                    for s in ent(p).pack().stream_iter():
                        drain(s, [4096])
                        out.append(s.pack_offset)
                    offs = sorted(ent(p).index().offsets())
                    # from any object on
                    j = op['i'] // 7 % (len(offs) + 1)
                    if j < len(offs):
                        some = [s.pack_offset for s in ent(p).pack().stream_iter(offs[j])]
                        if some != offs[j:]:
                            fail('pack-iter', 'stream_iter(%d) finds objects at %r instead of %r' % (offs[j], some[:8], offs[j:][:8]))
                        one = ent(p).pack().stream(offs[j])
                        if one.pack_offset != offs[j]:
                            fail('pack-iter', 'stream(%d) is at %d' % (offs[j], one.pack_offset))
                        one = ent(p).pack().info(offs[j])
                        if one.pack_offset != offs[j]:
                            fail('pack-iter', 'info(%d) is at %d' % (offs[j], one.pack_offset))
                    return out, offs

                def check(r):
                    if r[0] != r[1]:
                        fail('pack-iter', 'stream_iter finds objects at %r, the index %r' % (r[0][:8], r[1][:8]))
                guarded('stream_iter', it, check)
            else:
                p = packs[op['i'] % len(packs)]
                if p[4]:
                    continue
                pat = PATTERNS[op['pat']]
                if max([len(d) for t, d in p[2].values()], default=0) > 1 << 23:
                    pat = None

                def check(r):
                    if r[0] != {s: (t, len(d)) for s, (t, d) in p[2].items()}:
                        fail('info', 'info_iter of the entity')
                    if r[1] != p[2]:
                        fail('content', 'stream_iter of the entity')
                guarded('entity iteration', lambda: ({bytes(o.binsha): (tname(o.type), o.size) for o in ent(p).info_iter()},
                                                     {bytes(o.binsha): (tname(o.type), drain(o, pat)) for o in ent(p).stream_iter()}), check)
            continue
        if k in ('read', 'seek', 'drop'):
            if not streams:
                continue
            e = streams[op['i'] % len(streams)]
            if k == 'drop':
                streams.remove(e)
                del e
                continue
            if k == 'seek':
                hit = fired()
                ok, r = attempt(e[0].stream.seek, 0)
                if not ok:
                    if fired() == hit:
                        fail('spurious', 'seek: %r' % r)
                    streams.remove(e)
                    continue
                e[2] = 0
                continue
            n = op['n']
            want = e[1][e[2]:] if n < 0 else e[1][e[2]:e[2] + n]
            hit = fired()
            ok, r = attempt(e[0].read, n)
            if not ok:
                if fired() == hit:
                    fail('spurious', 'read failed: %r' % r)
                w.probe('failed_calls')
                del r
                ok, r = attempt(e[0].stream.seek, 0)
                e[2] = 0
                if not ok:
                    streams.remove(e)
                continue
            if bytes(r) != want:
                fail('content', 'read(%d) at %d of %d gives %s instead of %s' % (n, e[2], len(e[1]), short(r), short(want)))
            e[2] += len(want)
            w.log('read', len(want))
            continue
        if k == 'reopen':
            st['db'] = None
            for p in packs:
                p[1] = None
            continue
        pool = shas + sorted(bad)
        if not pool:
            continue
        s = pool[op['i'] % len(pool)]
        home = [p for p in packs if s in p[2] or s in p[4]][0]
        if s in bad:
            if k in ('has', 'in'):
                continue
            # never content: base missing
            for fn in (D.stream, lambda x: ent(home).stream(x)):
                ok, r = attempt(fn, s)
                if ok:
                    ok, r = attempt(r.read)
                if ok:
                    fail('thin', 'delta without base yields %s' % short(r))
            ok, r = attempt(D.info, s)
            if ok:
                fail('thin', 'info of a delta without base: %r' % (r,))
            if home is not None:
                hit = fired()
                ok, r = attempt(lambda: [x.type_id for x in ent(home).collect_streams(s)])
                if not ok and fired() == hit:
                    fail('thin', 'collect_streams of a delta without base raised %s: %s' % (exname(r), r))
                if ok and (r[-1] != 7 or any(x not in (6, 7) for x in r)):
                    fail('thin', 'collect_streams of a delta without base gives %r' % r)
            w.probe('thin')
            continue
        t, d = model[s]
        if k == 'has' or k == 'in':
            guarded('has_object', D.has_object if k == 'has' else D.__contains__, lambda r: r is True or fail('lost', '%s %s gives %r' % (k, hx(s), r)), s)
        elif k == 'info':
            guarded('info', D.info, lambda r: check_info(r, s, t, len(d), 'info'), s)
        elif k == 'einfo':
            guarded('entity.info', lambda x: ent(home).info(x), lambda r: check_info(r, s, t, len(d), 'entity.info'), s)
        elif k in ('stream', 'estream', 'open', 'atindex'):
            def get():
                if k == 'estream':
                    r = ent(home).stream(s)
                elif k == 'atindex':
                    i = ent(home).index().sha_to_index(s)
                    if i is None:
                        fail('lost', 'sha_to_index of %s' % hx(s))
                    oi = ent(home).info_at_index(i)
                    check_info(oi, s, t, len(d), 'info_at_index')
                    r = ent(home).stream_at_index(i)
                else:
                    r = D.stream(s)
                check_info(r, s, t, len(d), k)
                if k == 'open':
                    return r
                return drain(r, PATTERNS[op['pat']] if len(d) < 1 << 23 else None, len(d))
            r = guarded(k, get, lambda r: k == 'open' or r == d or fail('content', '%s of %s %s gives %s instead of %s' % (k, t, hx(s), short(r), short(d))))
            if k == 'open' and len(streams) < 10:
                streams.append([r, d, 0])
            del r
            w.probe('streams')
        elif k == 'valid':
            if op['crc'] and home[5] == 1:
                ok, r = attempt(ent(home).is_valid_stream, s, True)
                if ok:
                    fail('valid', 'crc check with a version 1 index gives %r' % r)
                continue
            guarded('is_valid_stream', lambda: ent(home).is_valid_stream(s, op['crc']), lambda r: r is True or fail('valid', 'is_valid_stream gives %r' % r))
        elif k == 'collect':
            def coll():
                l = ent(home).collect_streams(s)
                return [x.type_id for x in l], tname(l[-1].type)

            def check(r):
                if r[1] != t or any(x not in (6, 7) for x in r[0][:-1]):
                    fail('collect', 'collect_streams gives %r' % (r,))
            guarded('collect_streams', coll, check)
    w.cur.op = -1
    if packs:
        D = db()
        for e in streams:
            rest = drain(e[0], None)
            if rest != e[1][e[2]:]:
                fail('content', 'rest of an open stream differs')
        for s, (t, d) in model.items():
            check_object(D, s, t, d)
    w.probe('max_depth', 1 if depth >= 2 else 0)
    w.probe('failed_calls', 0)
    w.probe('streams', 0)


def nontrivial(plan, r):
    return r.probes.get('max_depth', 0) > 0 and r.probes.get('streams', 0) > 0 or sum(r.fired.values()) > 0
