"""C11: streams deliver exact bytes under any read pattern."""
from ..lib import *
from .. import lib
import struct

RUNS = {'quick': 5625, 'thorough': 60000}
RULE = ("a run opens 1-6 streams (loose, memory, packed whole, packed delta, bare zlib with trailing bytes) over random contents and zlib encodings and executes "
        "40-150 reads, rewinds, drops and reopenings interleaved over them; non-trivial: at least two streams with content were read in several pieces; "
        "distinct by the log of calls and read results")

SIZES = (1, 1, 2, 3, 5, 7, 8, 9, 16, 64, 100, 255, 511, 512, 513, 1000, 4096, 8191, 8192, 8193, 20000, 100000, -1)


def gen(rng, tier):
    cfg = {'nseed': rng.randrange(1 << 30)}
    if rng.random() < .25:
        cfg['env'] = [{'cls': 'mmapf', 'notin': 'pack/', 'do': 'err', 'errno': 'ENOMEM', 'every': rng.choice((1, 2, 3))}]
    if rng.random() < .25:
        cfg.setdefault('env', []).append({'cls': 'mmapa', 'do': 'err', 'errno': 'ENOMEM', 'every': rng.choice((1, 2, 3))})
    ops = []
    n = 0
    for i in range(rng.randrange(1, 6)):
        c = rng.random()
        if c < .35:
            ops.append(gen_obj(rng, n))
            if 'c' not in ops[-1] and not n:
                ops[-1].update(t='blob', c=F.recipe(rng))
            n += 1
        else:
            r = F.recipe(rng)
            enc = F.encoding(rng, r['n'])
            ops.append({'op': rng.choice(('loose', 'loosedb', 'lazy', 'bare', 'bare', 'mem')), 't': rng.choice(F.TYPES), 'c': r, 'enc': enc,
                        'tail': rng.choice((0, 0, 1, 7, 30, 5000)), 'ts': rng.randrange(1000)})
    if n and rng.random() < .6:
        for i in range(rng.randrange(1, 5)):
            ops.append(gen_obj(rng, n, 1))
            n += 1
    if rng.random() < .0015:
        n = rng.choice((1 << 24, 1 << 25, 1 << 26, (1 << 27) + 1, 1 << 28, 1 << 31, (1 << 32) - 1, (1 << 32) + 5))
        ops.append({'op': 'giant', 'n': n, 'k': rng.choice(('bare', 'loosedb', 'loose')), 'seq': rng.choice(([-1], [n], [100, -1], [8192, 1, n], [4096000], [1 << 20, 1 << 24], [70000, (1 << 24) + 1]))})
    ops.append({'op': 'pack', 'perm': rng.randrange(1000), 'v': rng.choice((1, 2))})
    focus = rng.random() < .3
    for i in range(rng.randrange(1, 5)):
        ops.append({'op': 'open', 'i': rng.randrange(1 << 16)})
    small = rng.choice(SIZES)
    for i in range(rng.randrange(40, 150)):
        c = rng.random()
        if c < .08:
            ops.append({'op': 'open', 'i': rng.randrange(1 << 16)})
        elif c < .14:
            ops.append({'op': 'seek', 'i': rng.randrange(1 << 16)})
        elif c < .155:
            ops.append({'op': 'seekto', 'i': rng.randrange(1 << 16), 'n': rng.choice((1, 2, 100, 5000, -1, 0, 0)), 'wh': rng.choice((0, 0, 1, 2))})
        elif c < .17:
            ops.append({'op': 'drop', 'i': rng.randrange(1 << 16)})
        elif c < .22:
            ops.append({'op': 'cbr', 'i': rng.randrange(1 << 16)})
        elif c < .25:
            ops.append({'op': 'rest', 'i': rng.randrange(1 << 16), 'n': rng.choice((64, 1000, 4096))})
        else:
            op = {'op': 'read', 'na': rng.random() < .3, 'i': rng.randrange(1 << 16), 'n': small if focus and rng.random() < .8 else rng.choice(SIZES)}
            if rng.random() < .25:
                op['to'] = [rng.choice(('end', 'end', 'hdr', 'hdr', 'page', 'half')), rng.choice((-1, 0, 0, 0, 1))]
            ops.append(op)
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 1 or rng.random() < .6:
        return None
    by = {o['id']: o['op'] for o in plan['ops']}
    reads = [t for t in trace if by.get(t[0]) in ('read', 'rest', 'open')]
    out = []
    for _ in range(rng.choice((1, 1, 2, 4))):
        f = pick_fault(rng, reads, ('alloc', 'mmapa'))
        if f:
            if f['do'] == 'err' and rng.random() < .2:
                f['errno'] = 'INTR'     # a signal whose handler raises
            out.append(f)
    return out or None


def execute(w, plan):
    w.mkdirs(OBJ + '/pack')
    things = []         # (kind, type, data, opener, clen or None)
    streams = []        # [thing, stream, pos, pieces]
    packer = Packer()
    ldb = gdb.LooseObjectDB(OBJ)
    mdb = gdb.MemoryDB()
    pdb = None
    R = gstream.DecompressMemMapReader
    multi = 0

    def giant(op):
        n = op['n']
        hdr = b'blob %d\0' % n
        s = b'\xee' * 16 + struct.pack('>L', n & 0xffffffff)
        z = F.zeros_zlib(n, hdr if op['k'] != 'bare' else b'')
        if op['k'] == 'bare':
            x = R(z, False, n)
        elif op['k'] == 'loose':
            t, m, x = R.new(z, False)
            if (t, m) != (b'blob', n):
                fail('header', 'new() reports %r %r for an object of %d bytes' % (t, m, n))
        else:
            w.put('%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:]), z)
            i = ldb.info(s)
            if i.size != n or i.type != b'blob':
                fail('header', 'info reports %r %r for an object of %d bytes' % (i.type, i.size, n))
            x = ldb.stream(s)
            if x.size != n or x.type != b'blob':
                fail('header', 'stream reports %r %r for an object of %d bytes' % (x.type, x.size, n))
        pos = 0
        for i in range(5 if n > 1 << 28 else 10 ** 6):
            m = op['seq'][i % len(op['seq'])]
            if n > 1 << 28:
                m = min(m, 1 << 26) if m > 0 else 1 << 26
            want = n - pos if m < 0 else min(m, n - pos)
            got = x.read(m)
            if len(got) != want or got.count(0) != want:
                fail('bytes:length' if len(got) != want else 'bytes:content', 'read(%d) at %d of %d gave %d bytes, %d of them zero' % (m, pos, n, len(got), got.count(0)))
            pos += want
            if not want:
                break
        w.probe('giant')
    for op in plan['ops']:
        w.cur.op = op['id']
        k = op['op']
        if k in ('loose', 'loosedb', 'lazy', 'bare', 'mem'):
            t, d = op['t'], F.content(op['c'])
            s = F.sha(t, d)
            if k == 'bare':
                z = F.deflate(d, op['enc'])
                clen = len(z)
                junk = random.Random(op['ts']).randbytes(op['tail'])
                things.append((k, t, d, lambda z=z, j=junk, d=d: R(z + j, False, len(d)), clen))
            else:
                z = F.loose_bytes(t, d, op['enc'])
                if k == 'loose':
                    def f(z=z, t=t, d=d):
                        ty, n, st = R.new(z, False)
                        if ty != t.encode() or n != len(d):
                            fail('header', 'new() reports %r %r for %s %d' % (ty, n, t, len(d)))
                        return st
                    things.append((k, t, d, f, len(z)))
                elif k == 'lazy':
                    things.append((k, t, d, lambda z=z: R(z, False), len(z)))
                elif k == 'loosedb':
                    foreign_loose(w, t, d, op['enc'])
                    things.append((k, t, d, lambda s=s: ldb.stream(s), None))
                else:
                    mdb.store(mk_istream(t, d, {'mode': 'full'}))
                    things.append((k, t, d, lambda s=s: mdb.stream(s), None))
        elif k == 'giant':
            giant(op)
        elif k == 'obj':
            packer.add(op)
        elif k == 'pack':
            if packer.objs and pdb is None:
                foreign_pack(w, packer.ordered(op['perm']), version=op['v'])
                pdb = gdb.PackedDB(OBJ + '/pack')
                for s, (t, d) in packer.model().items():
                    things.append(('packed', t, d, lambda s=s: pdb.stream(s), None))
        elif not things:
            continue
        elif k == 'open':
            th = things[op['i'] % len(things)]
            if len(streams) < 12:
                for retry in range(5):
                    hit = sum(w.fired.values())
                    ok, s = attempt(th[3])
                    if ok or sum(w.fired.values()) == hit:
                        break
                    w.probe('failed_opens')
                if not ok:
                    if sum(w.fired.values()) == hit:
                        fail('spurious', '%s: opening raised %s: %s' % (th[0], exname(s), s))
                    continue
                if th[0] in ('loosedb', 'mem', 'packed'):
                    # what could not be computed is computed when asked again
                    for retry in range(5):
                        hit = sum(w.fired.values())
                        ok, x = attempt(lambda: s.size)
                        if ok or sum(w.fired.values()) == hit:
                            break
                        w.probe('failed_sizes')
                    if not ok:
                        if sum(w.fired.values()) == hit:
                            fail('spurious', '%s: asking for the size raised %s: %s' % (th[0], exname(x), x))
                        continue
                    if s.type != th[1].encode() or s.size != len(th[2]):
                        fail('header', '%s stream reports %r %r for %s %d' % (th[0], s.type, s.size, th[1], len(th[2])))
                streams.append([th, s, 0, 0, False])
        elif not streams:
            continue
        else:
            e = streams[op['i'] % len(streams)]
            th, s, pos, pieces = e[:4]
            data = th[2]
            if k == 'read' or k == 'rest':
                n = op['n']
                if 'to' in op:
                    # up to where something ends inside: the content, what parsing the header left over, a page
                    t = {'end': len(data), 'hdr': 8192 - len(b'%s %d\0' % (th[1].encode(), len(data))), 'half': len(data) // 2,
                         'page': (pos // 4096 + 1) * 4096}[op['to'][0]] + op['to'][1] - pos
                    n = t if t > 0 else n
                while True:
                    hit = sum(w.fired.values())
                    ok, got = attempt(s.read, *(() if n < 0 and op.get('na') else (n,)))
                    if not ok:
                        if sum(w.fired.values()) == hit and not e[4]:
                            fail('spurious', '%s: read(%d) at %d of %d raised %s: %s' % (th[0], n, e[2], len(data), exname(got), got))
                        del got
                        e[4] = True
                        w.probe('failed_reads')
                        if op['id'] % 3 == 0:
                            break       # whatever it says from now on has to be right
                        hit = sum(w.fired.values())
                        ok, got = attempt((s.stream if th[0] in ('loosedb', 'mem', 'packed') else s).seek, 0)
                        e[2] = 0
                        e[4] = False        # as good as new
                        if not ok:
                            if sum(w.fired.values()) == hit:
                                fail('spurious', '%s: rewinding after a failed read raised %s: %s' % (th[0], exname(got), got))
                            del got
                            streams.remove(e)
                        break
                    want = data[e[2]:] if n < 0 else data[e[2]:e[2] + n]
                    if bytes(got) != want:
                        fail('bytes:' + ('length' if len(got) != len(want) else 'content'),
                             '%s: read(%d) at %d of %d gave %s instead of %s' % (th[0], n, e[2], len(data), short(got), short(want)))
                    w.log('read', len(got))
                    e[2] += len(want)
                    e[3] += 1
                    if e[3] == 3:
                        multi += 1
                    if k == 'read' or not got:
                        break
            elif k == 'seek':
                hit = sum(w.fired.values())
                ok, got = attempt((s.stream if th[0] in ('loosedb', 'mem', 'packed') else s).seek, 0)
                if not ok and sum(w.fired.values()) == hit:
                    fail('spurious', '%s: seek(0) raised %s: %s' % (th[0], exname(got), got))
                if not ok:
                    del got
                    streams.remove(e)
                    continue
                e[2] = 0
                e[4] = False
                w.probe('rewinds')
            elif k == 'seekto':
                # refused without any effect, or carried out
                n = op['n'] + {0: 0, 1: pos, 2: len(data)}[op['wh']]
                if 0 <= n <= len(data) and attempt((s.stream if th[0] in ('loosedb', 'mem', 'packed') else s).seek, op['n'], op['wh'])[0]:
                    e[2] = n
            elif k == 'drop':
                streams.remove(e)
                del s, e
            elif k == 'cbr' and th[4] is not None:
                if e[4]:
                    continue
                got = s.compressed_bytes_read()
                if e[2] < len(data):
                    # just looking
                    if not 0 <= got <= th[4]:
                        fail('compressed-bytes', '%s: compressed_bytes_read() at %d of %d is %r, the compressed data has %d' % (th[0], e[2], len(data), got, th[4]))
                    continue
                if got != th[4]:
                    fail('compressed-bytes', '%s: compressed_bytes_read() is %r, the compressed data has %d' % (th[0], got, th[4]))
                w.probe('cbr')
                rest = s.read()
                if rest != b'':
                    fail('bytes:content', 'read after the end gave %s' % short(rest))
    w.cur.op = -1
    for e in streams:
        th, s, pos = e[:3]
        ok, got = attempt(drain, s, None)
        if not ok and e[4]:
            continue
        if not ok:
            fail('spurious', '%s: reading the rest raised %s: %s' % (th[0], exname(got), got))
        if got != th[2][pos:]:
            fail('bytes:content', '%s: remaining bytes at %d are %s instead of %s' % (th[0], pos, short(got), short(th[2][pos:])))
    # every stream can be rewound and read again
    for e in streams:
        th, s, pos = e[:3]
        if e[4]:
            continue
        (s.stream if th[0] in ('loosedb', 'mem', 'packed') else s).seek(0)
        if drain(s, [777]) != th[2]:
            fail('bytes:content', '%s: content after rewind differs' % th[0])
    w.probe('multi_piece_streams', multi)
    w.probe('cbr', 0)
    w.probe('rewinds', 0)


def nontrivial(plan, r):
    return r.probes.get('multi_piece_streams', 0) >= 2
