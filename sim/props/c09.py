"""C09: stored damage is never certified as valid and never spreads."""
from ..lib import *
from .. import lib

RUNS = {'quick': 937, 'thorough': 15000}
CPU_LIMIT = 8
AS_LIMIT = 2 << 30
RULE = ("a run builds one or two packs (whole objects, offset and reference deltas, version 1/2/64-bit indices) and some loose objects, then several rounds damage 1-3 places of their stored bytes "
        "(flip, zero, overwrite, cut, redirect delta bases, aimed at headers, delta references, tables or anywhere) and read, verify and enumerate everything from a fresh process; "
        "non-trivial: a read or verification of a damaged object was judged; distinct by the log of all simulated calls and results")
STUBS = 'clock, directory order, packs and damage written by an independent generator'
NOTE = 'Sampled, not exhaustive. CRC verification is only judged with an intact index, as the CRC itself is stored there.'
PACK = OBJ + '/pack'

# headers of loose objects that promise something else, or nothing at all
HEADS = ('%(t)s %(more)d\0', '%(t)s %(less)d\0', '%(t)s %(n)d', '%(t)s%(n)d\0', '%(t)s  %(n)d\0', '%(t)s %(n)d \0', '%(t)s\0%(n)d\0', ' %(n)d\0', '%(t)s \0', '%(t)s x%(n)d\0', '%(t)s -%(n)d\0', '%(t)s -1\0',
         '%(t)s 0\0', '%(t)s 00%(n)d\0', '%(t)s +%(n)d\0', 'blobb %(n)d\0', '%(t)s 0x%(n)d\0', '%(t)s %(n)d.0\0', '', '\0', '%(t)s 99999999999999999999\0', '%(t)s %(n)d\n\0', '%(t)s 1_0\0')


def gen(rng, tier):
    cfg = {'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4), 'knobs': {}}
    if rng.random() < .3:
        cfg['knobs']['pchunk'] = rng.choice((64, 511, 4096))
    ops = []
    if rng.random() < .04:
        # huge ones, of which the compressed data is all right
        for j in range(rng.choice((2, 3))):
            ops.append(gen_obj(rng, j, .5, (5, 1 << 20, (1 << 20) + 1, 2 << 20), True))
            if 'c' in ops[-1]:
                ops[-1]['c']['k'] = rng.choice(('zero', 'run', 'hdr'))
        ops.append({'op': 'pack', 'v': 2, 'large': False, 'perm': None})
        ops[-1]['forge'] = [{'i': rng.randrange(1 << 16), 's': rng.randrange(1 << 30), 'k': rng.choice(F.FORGERIES + ('head', 'base', 'encdata', 'encdata'))} for _ in range(rng.choice((1, 2)))]
        ops.append({'op': 'q', 'git': rng.random() < .5, 'pat': rng.randrange(len(PATTERNS)), 's': rng.randrange(1 << 16)})
        return {'cfg': cfg, 'ops': ops}
    for p in range(rng.choice((1, 1, 1, 2))):
        n = rng.choice((1, 2, 3, 5, 8, 12))
        for j in range(n):
            ops.append(gen_obj(rng, j, .6, (0, 1, 5, 30, 200, 700, 5000) if rng.random() < .98 else (20000, 70000, 300000), True))
        ops.append({'op': 'pack', 'v': rng.choice((1, 2, 2, 2)), 'large': rng.random() < .15, 'perm': rng.choice((None, rng.randrange(1000)))})
        if rng.random() < .35:
            # packed by someone who got objects wrong
            ops[-1]['forge'] = [{'i': rng.randrange(1 << 16), 's': rng.randrange(1 << 30), 'k': rng.choice(F.FORGERIES + ('head', 'base', 'base', 'encdata'))} for _ in range(rng.choice((1, 1, 2, 4)))]
    for i in range(rng.choice((0, 1, 2, 3))):
        ops.append({'op': 'loose', 't': rng.choice(F.TYPES), 'c': F.recipe(rng, (0, 1, 30, 700, 9000, 20000, 20000, 70000)), 'enc': F.encoding(rng, 60) if rng.random() < .5 else {'l': rng.choice((0, 1, 6))}})
        if rng.random() < .25:
            ops[-1]['forge'] = rng.randrange(len(HEADS))
    for r in range(rng.choice((3, 5, 8))):
        if rng.random() < .4:
            # opened and verified before the bytes change in place below the maps
            ops.append({'op': 'warm', 'git': rng.random() < .5, 'all': rng.random() < .7, 'pat': rng.randrange(len(PATTERNS)), 's': rng.randrange(1 << 16)})
        for d in range(rng.choice((1, 1, 1, 2, 3))):
            k = rng.choice(('flip', 'flip', 'flip', 'zero', 'ff', 'rand', 'cut', 'cut', 'add', 'crc', 'ref'))
            op = {'op': 'dmg', 'f': rng.randrange(1 << 16), 'k': k, 'at': rng.choice(('any', 'obj', 'obj', 'body', 'end', 'table')), 'i': rng.randrange(1 << 16), 'p': rng.random(),
                  'v': rng.randrange(1, 256), 'n': rng.choice((1, 1, 2, 4, 20, 100, 1000))}
            ops.append(op)
        ops.append({'op': 'q', 'git': rng.random() < .5, 'pat': rng.randrange(len(PATTERNS)), 's': rng.randrange(1 << 16)})
    return {'cfg': cfg, 'ops': ops}


def execute(w, plan):
    w.mkdirs(PACK)
    cur = Packer()
    packs = []      # dict: base, raw, idx, info, objs, v, model
    loose = {}      # rel -> (sha, type, data, raw)
    bogus = {}
    state = {}      # rel -> damaged bytes
    ranges = {}     # rel -> set of changed positions is too fine: list of (lo, hi)
    proc = [0]
    live = {}           # what is open while bytes change: base path -> entity, 'db', 'ldb'

    def files():
        out = []
        for p in packs:
            out += [p['base'] + '.pack', p['base'] + '.pack', p['base'] + '.idx']
        return out + sorted(loose)

    def original(rel):
        if rel in loose:
            return loose[rel][3]
        for p in packs:
            if rel == p['base'] + '.pack':
                return p['raw']
            if rel == p['base'] + '.idx':
                return p['idx']

    def spot(op, rel, n):
        """:return: position the damage starts at"""
        at = op['at']
        if rel.endswith('.pack') and at in ('obj', 'body'):
            p = [p for p in packs if rel == p['base'] + '.pack'][0]
            e = p['info'][op['i'] % len(p['info'])]
            if at == 'obj':
                return min(n - 1, e[1] + int(op['p'] * op['p'] * 8))        # type, size, base reference
            return min(n - 1, e[1] + int(op['p'] * (e[3] - e[1])))
        if rel.endswith('.idx') and at in ('table', 'obj', 'body'):
            p = [p for p in packs if rel == p['base'] + '.idx'][0]
            lo = 1024 if p['v'] == 1 else 1032
            return min(n - 1, lo + int(op['p'] * (n - lo)))
        if at == 'end':
            return max(0, n - 1 - int(op['p'] * 30))
        if at == 'table':
            return min(n - 1, int(op['p'] * 16))
        return int(op['p'] * n)

    def damage(op):
        fl = files()
        if live:
            fl = [f for f in fl if not f.endswith('.idx')]
        if not fl:
            return
        rel = fl[op['f'] % len(fl)]
        raw = bytearray(state.get(rel, original(rel)))
        if not raw:
            return
        pos = spot(op, rel, len(raw))
        n = op['n']
        k = op['k']
        if live and k in ('cut', 'add'):
            k = 'flip'
        if k == 'crc':
            # the object's crc changes in one bit, one half or the like only
            p = [p for p in packs if rel == p['base'] + '.pack']
            e = p and p[0]['info'][op['i'] % len(p[0]['info'])]
            if not e or e[3] - e[1] < 20 or len(raw) < e[3]:
                return
            target = (1 << 31, 1, 1 << op['v'] % 32, 0xff000000, 0xffff0000, 0xffff, 0x00ffffff, 0x7fffffff)[op['n'] % 8]
            raw[e[1]:e[3]] = F.crc_damage(bytes(raw[e[1]:e[3]]), int(op['p'] * (e[3] - e[1] - 12)), target)
            if zlib.crc32(bytes(raw[e[1]:e[3]])) == e[2]:
                return      # back at the right one
        elif k == 'ref':
            # reference deltas name other objects of the pack as their base: circles, too
            p = [p for p in packs if rel == p['base'] + '.pack']
            if not p or len(raw) < p[0]['info'][-1][3]:
                return
            refs = [i for i, o in enumerate(p[0]['objs']) if 'delta' in o and o['kind'] == 'ref']
            if not refs:
                return
            rng = random.Random(op['i'])
            for i in rng.sample(refs, min(len(refs), 1 + op['n'] % 4)):
                at = p[0]['info'][i][1]
                while p[0]['raw'][at] & 0x80:
                    at += 1
                to = rng.choice(refs) if rng.random() < .8 else rng.randrange(len(p[0]['info']))
                raw[at + 1:at + 21] = p[0]['info'][to][0]
        elif k == 'cut':
            del raw[pos:]
        elif k == 'add':
            raw += bytes([op['v']]) * n
        else:
            rng = random.Random(op['i'])
            for x in range(pos, min(len(raw), pos + (n if k != 'flip' else 1))):
                if k == 'flip':
                    raw[x] ^= op['v'] if op['n'] > 1 else 1 << op['v'] % 8
                elif k == 'zero':
                    raw[x] = 0
                elif k == 'ff':
                    raw[x] = 255
                else:
                    raw[x] = rng.randrange(256)
        raw = bytes(raw)
        if raw == original(rel):
            return
        state[rel] = raw
        w.fire(('live-' if live else '') + 'damage:' + k)
        (w.patch if live else w.put)(rel, raw)

    def forge(objs, g):
        """:return: objs with one that is not what it should be"""
        rng = random.Random(g['s'])
        k = g['k']
        cand = [i for i, o in enumerate(objs) if 'forged' not in o and (k in ('head', 'encdata') or 'delta' in o)]
        if not cand:
            return objs
        i = cand[g['i'] % len(cand)]
        o = dict(objs[i], forged=True)
        if k == 'head':
            n = len(o['delta'] if 'delta' in o else o['data'])
            o['hsize'] = max(0, n + rng.choice((-1, 1, -n, 16, 5000, 1 << 20, 1 << 33)))
            if o['hsize'] == n:
                return objs
        elif k == 'encdata':
            # the whole object, but another one or a part
            d = o.pop('delta', None)
            o['as'] = rng.choice((b'', o['data'][:-1], o['data'] + b'x', b'something else', d or b'delta'))
            o['hsize'] = rng.choice((len(o['as']), len(o['data'])))
            o['forged'] = 'whole'
            if o['as'] == o['data'] and o['hsize'] == len(o['data']):
                return objs
        elif k == 'base':
            to = [j for j in range(len(objs)) if j != o['base'] and (j < i or o['kind'] == 'ref' and j != i)]
            if not to:
                return objs
            o['base'] = rng.choice(to)
        else:
            o['delta'] = F.forge_delta(o['delta'], k, rng)
            if o['delta'] == objs[i]['delta']:
                return objs
        w.fire('forged:' + k)
        return objs[:i] + [o] + objs[i + 1:]

    def same(rel, lo, hi):
        a, b = original(rel), state.get(rel)
        return b is None or a[lo:hi] == b[lo:hi]

    def intact(p, i):
        """stored bytes of object i and all its bases are unchanged"""
        rel = p['base'] + '.pack'
        if not same(rel, 0, 12):
            return False
        while True:
            e = p['info'][i]
            if not same(rel, e[1], e[3]):
                return False
            o = p['objs'][i]
            if 'forged' in o:
                return False
            if 'delta' not in o:
                return True
            i = o['base']

    def resolved(p, i):
        """:return: (type, content) the forged bytes of object i stand for, 'refuse', or None if that is open"""
        o = p['objs'][i]
        if 'hsize' in o and ('delta' not in o or o['hsize'] < len(o['delta'])):
            return None
        if 'hsize' in o:
            return 'refuse'
        if 'delta' not in o:
            return o['type'], o['data']
        b = resolved(p, o['base'])
        if b is None or b == 'refuse':
            return b
        try:
            return b[0], F.apply_delta(b[1], o['delta'])
        except (F.FormatError, IndexError):
            return 'refuse'

    def header(x):
        """:return: (type, content) of a loose object, or 'refuse'"""
        z = x[:8192].find(b'\0')
        f = x[:z].split(b' ')
        if z < 0 or len(f) != 2:
            return 'refuse'
        if not f[1].isdigit():
            # signs, digits of python and the like are nothing to insist on
            try:
                return 'refuse' if int(f[1]) < 0 else None
            except ValueError:
                return 'refuse'
        return tname(f[0]), x[z + 1:z + 1 + int(f[1])]

    def circular(p, i):
        seen = []
        while 'delta' in p['objs'][i]:
            if i in seen:
                return True
            seen.append(i)
            i = p['objs'][i]['base']

    def agree(p, i, got):
        """objects which are stored as nonsense, although nothing is damaged: refused, or what the stored bytes say"""
        if got is None or p['base'] + '.pack' in state or p['base'] + '.idx' in state:
            return
        r = 'refuse' if circular(p, i) else resolved(p, i)
        if r == 'refuse':
            fail('nonsense', 'object %s, which does not resolve, reads as %s %s' % (hx(p['info'][i][0]), got[0], short(got[1])))
        if r is not None and r != got:
            fail('nonsense', 'object %s reads as %s %s instead of %s %s' % (hx(p['info'][i][0]), got[0], short(got[1]), r[0], short(r[1])))
        w.probe('forged_read' if not intact(p, i) else 'plain_read')

    def read(get, sha, where, must, want, pat):
        """reading raises or delivers what is announced; :return: content or None"""
        def f():
            s = get(sha)
            n = s.size
            ok, r = attempt(drain, s, pat)
            if not ok:
                # once more from the start: refused again, or what is announced
                attempt(s.stream.seek, 0)
                ok, r2 = attempt(drain, s, None)
                if not ok:
                    raise r
                r = r2
            return tname(s.type), n, r
        ok, r = attempt(f)
        w.log('read', ok, ok and r[1])
        if not ok:
            if must:
                fail('spread', '%s of intact object %s raised %s: %s' % (where, hx(sha), exname(r), r))
            w.probe('refused')
            return None
        if len(r[2]) != r[1]:
            fail('short', '%s of %s announced %d bytes, delivered %d' % (where, hx(sha), r[1], len(r[2])))
        if must and (r[0], r[2]) != want:
            fail('spread', '%s of intact object %s delivered %s %s' % (where, hx(sha), r[0], short(r[2])))
        w.probe('delivered')
        return r[0], r[2]

    def query(op):
        if not live:
            proc[0] += 1
            w.restart(proc[0])
        pat = PATTERNS[op['pat'] % len(PATTERNS)]
        if pat and min(pat) == 1:
            pat = [300, 7]
        rng = random.Random(op['s'])
        for p in packs:
            ent = live.get(p['base']) or gpack.PackEntity(p['base'] + '.pack')
            idx_ok = p['base'] + '.idx' not in state
            pdirty = p['base'] + '.pack' in state
            cut = pdirty and len(state[p['base'] + '.pack']) != len(p['raw'])
            order = list(range(len(p['info'])))
            rng.shuffle(order)
            last = max(e[1] for e in p['info']) if p['info'] else 0
            for i in order:
                sha, off, crc, end = p['info'][i]
                want = (p['objs'][i]['type'], p['objs'][i]['data'])
                good = idx_ok and intact(p, i)
                if not good:
                    w.probe('judged_damaged')
                ok, r = attempt(ent.info, sha)
                if good and (not ok or (tname(r.type), r.size) != (want[0], len(want[1]))):
                    fail('spread', 'info of intact object %s: %s' % (hx(sha), r))
                got = read(ent.stream, sha, 'entity stream', good, want, pat)
                agree(p, i, got)
                ok, r = attempt(ent.is_valid_stream, sha, False)
                w.log('sha', ok and r)
                if ok and r and got != want:
                    # (whether a damaged checksum behind the content gets noticed depends on how much is read at once)
                    for pp in (None, [4096 * 1000], [700]):
                        if got != want:
                            got = read(ent.stream, sha, 'entity stream', False, want, pp)
                if ok and r and got != want:
                    fail('certified', 'is_valid_stream(%s) by sha gives %r, the content read is %s' % (hx(sha), r, 'unreadable' if got is None else short(got[1])))
                if good and not (ok and r is True):
                    fail('rejected', 'is_valid_stream(%s) by sha of an intact object: %r' % (hx(sha), r))
                if p['v'] == 2 and idx_ok:
                    ok, r = attempt(ent.is_valid_stream, sha, True)
                    w.log('crc', ok and r)
                    own = same(p['base'] + '.pack', off, end)
                    if ok and r and not own:
                        fail('certified', 'is_valid_stream(%s) by crc gives %r although the stored bytes changed' % (hx(sha), r))
                    if own and not (ok and r is True) and not (cut and off == last) and same(p['base'] + '.pack', 0, 12):
                        fail('rejected', 'is_valid_stream(%s) by crc of intact bytes: %r' % (hx(sha), r))
            # walking everything ends, and what is delivered is as long as announced
            for name in ('stream_iter', 'info_iter'):
                def walk():
                    for o in getattr(ent, name)():
                        if name == 'stream_iter':
                            d = drain(o)
                            if len(d) != o.size:
                                fail('short', 'entity iteration: %s announced %d bytes, delivered %d' % (hx(o.binsha), o.size, len(d)))
                attempt(walk)
                if name == 'stream_iter':
                    def walk2():
                        for o in ent.pack().stream_iter():
                            d = drain(o)
                            if len(d) != o.size:
                                fail('short', 'pack iteration: object at %d announced %d bytes, delivered %d' % (o.pack_offset, o.size, len(d)))
                    attempt(walk2)
        db = live.get('db') or (gdb.GitDB(OBJ) if op['git'] else gdb.PackedDB(PACK))
        all_idx = not any(r.endswith('.idx') for r in state)
        head_ok = all(same(p['base'] + '.pack', 0, 12) for p in packs)
        seen = {}
        for p in packs:
            for i, e in enumerate(p['info']):
                seen.setdefault(e[0], []).append((p, i))
        for sha in sorted(seen):
            want = seen[sha][0][0]['objs'][seen[sha][0][1]]
            want = want['type'], want['data']
            good = all_idx and head_ok and all(intact(*x) for x in seen[sha])
            if db.__class__ is gdb.GitDB and any(v[0] == sha for v in loose.values()):
                good = False
            ok, r = attempt(db.has_object, sha)
            if good and not (ok and r is True):
                fail('spread', 'has_object of intact object %s: %r' % (hx(sha), r))
            attempt(db.info, sha)
            read(db.stream, sha, 'stream', good, want, pat)
        attempt(lambda: list(db.sha_iter()))
        attempt(db.size)
        for sha in sorted(seen)[:3]:
            if db.__class__ is gdb.GitDB:
                attempt(db.partial_to_complete_sha_hex, hx(sha)[:7])
            else:
                attempt(db.partial_to_complete_sha, sha[:4], 8)
        ldb = live.get('ldb') or gdb.LooseObjectDB(OBJ)
        for rel in sorted(loose):
            sha, t, d, raw = loose[rel]
            good = rel not in state and rel not in bogus
            if not good:
                w.probe('judged_damaged')
            ok, r = attempt(ldb.info, sha)
            if good and (not ok or (tname(r.type), r.size) != (t, len(d))):
                fail('spread', 'info of intact loose object %s: %s' % (hx(sha), r))
            got = read(ldb.stream, sha, 'loose stream', good, (t, d), pat)
            if rel in bogus and rel not in state:
                promise = header(bogus[rel])
                if promise == 'refuse' and (got is not None or ok):
                    fail('nonsense', 'loose object %s without valid header: info %s, content %s' % (hx(sha), ok, got and short(got[1])))
                if isinstance(promise, tuple) and got is not None and got != promise:
                    fail('nonsense', 'loose object %s reads as %s %s instead of %s' % (hx(sha), got[0], short(got[1]), short(promise[1])))

    for op in plan['ops']:
        w.cur.op = op['id']
        k = op['op']
        if k == 'obj':
            cur.add(op)
        elif k == 'pack':
            if cur.objs:
                objs = cur.ordered(op['perm'])
                for g in op.get('forge', ()):
                    objs = forge(objs, g)
                raw, info = F.build_pack(objs)
                v = op['v'] if not op['large'] else 2
                p = {'raw': raw, 'idx': F.build_index(info, raw[-20:], v, op['large']), 'info': info, 'objs': objs, 'v': v, 'base': '%s/pack-%s' % (PACK, hx(raw[-20:]))}
                w.put(p['base'] + '.pack', raw)
                w.put(p['base'] + '.idx', p['idx'])
                packs.append(p)
            cur = Packer()
        elif k == 'loose':
            d = F.content(op['c'])
            s = F.sha(op['t'], d)
            rel = '%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])
            raw = F.loose_bytes(op['t'], d, op['enc'])
            bogus.pop(rel, None)
            if 'forge' in op:
                h = HEADS[op['forge']] % {'t': op['t'], 'n': len(d), 'more': len(d) + 1 + len(d) // 7 * 1000, 'less': len(d) // 2}
                raw = F.deflate(h.encode() + d, op['enc'])
                bogus[rel] = h.encode() + d
                w.fire('forged:header')
            loose[rel] = (s, op['t'], d, raw)
            w.put(rel, raw)
        elif k == 'dmg':
            damage(op)
        elif k == 'warm':
            if packs and not state and not live:
                proc[0] += 1
                w.restart(proc[0])
                live.update({p['base']: gpack.PackEntity(p['base'] + '.pack') for p in packs})
                live.update(db=gdb.GitDB(OBJ) if op['git'] else gdb.PackedDB(PACK), ldb=gdb.LooseObjectDB(OBJ))
                if op['all']:
                    query(op)
                w.probe('warm')
        elif k == 'q':
            query(op)
            live.clear()
            proc[0] += 1
            w.restart(proc[0])
            for rel in list(state):
                w.put(rel, original(rel))
            state.clear()


def nontrivial(plan, r):
    return r.probes.get('judged_damaged', 0) > 0
