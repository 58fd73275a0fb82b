"""Git's object, pack and index formats, written from their documentation; shares no code with gitdb.

Used to generate inputs and as the independent reader that judges what gitdb wrote."""
import zlib
import struct
import hashlib
import random
import binascii

from .core import REAL

_compressobj = REAL.get('compressobj', zlib.compressobj)
_decompressobj = REAL.get('decompressobj', zlib.decompressobj)

TYPES = ('blob', 'tree', 'commit', 'tag')
TYPE_ID = {'commit': 1, 'tree': 2, 'blob': 3, 'tag': 4}
ID_TYPE = {v: k for k, v in TYPE_ID.items()}
OFS, REF = 6, 7


class FormatError(Exception):
    pass


# --------------------------------------------------------------------------------------------------------- contents

WORDS = b'lorem ipsum dolor sit amet consectetur tree blob parent author 1234 \0 \n committer'.split(b' ')


def content(r):
    """:return: bytes for a content recipe {'k': kind, 'n': size, 's': seed}"""
    k, n, s = r['k'], r['n'], r.get('s', 0)
    if n == 0:
        return b''
    if k == 'near':
        return b'near %d' % NEAR[s // 2 % 8][s % 2]
    if k == 'zero':
        tag = b'%d;' % s
        return (tag + b'\0' * n)[:n]
    if k == 'run':
        return bytes([s % 251 + 1]) * n
    rnd = random.Random(s * 1000003 + n)
    if k == 'rand':
        return rnd.randbytes(n)
    if k == 'text':
        out = []
        l = 0
        while l < n:
            w = rnd.choice(WORDS) + (b'\n' if rnd.random() < .2 else b' ')
            out.append(w)
            l += len(w)
        return b''.join(out)[:n]
    if k == 'hdr':       # looks like an object header itself
        return (b'blob %d\0' % s + b'tree 7\0' * (n // 7 + 1))[:n]
    if k == 'mix':
        out = []
        l = 0
        while l < n:
            c = rnd.randrange(4)
            m = min(rnd.choice((3, 30, 300, 3000)), n - l)
            out.append((rnd.randbytes(m), b'\0' * m, b' ' * m, b'abcd' * (m // 4 + 1))[c][:m])
            l += len(out[-1])
        return b''.join(out)[:n]
    raise ValueError(k)


def recipe(rng, sizes=None):
    k = rng.choice(('text', 'text', 'rand', 'mix', 'zero', 'run', 'hdr'))
    n = size(rng) if sizes is None else rng.choice(sizes)
    return {'k': k, 'n': n, 's': rng.randrange(1 << 20)}


def size(rng, big=True):
    c = rng.random()
    if c < .08:
        return 0
    if c < .2:
        return rng.randrange(1, 12)
    if c < .55:
        return rng.randrange(1, 400)
    if c < .75:
        return rng.choice((512, 1024, 4096, 8192)) + rng.randrange(-16, 17)
    if c < .95 or not big:
        return rng.randrange(400, 9000)
    if c < .99:
        return rng.choice((16384, 32768, 65536)) + rng.randrange(-20, 21)
    return rng.randrange(60000, 300000)


def crc_damage(body, pos, target):
    """:return: body with some bits in the 12 bytes from pos on flipped, so that exactly the given bits of its crc change"""
    base = zlib.crc32(bytes(len(body)))
    rows = []
    for bit in range(96):
        b = bytearray(len(body))
        b[pos + bit // 8] = 1 << bit % 8
        v, m = zlib.crc32(bytes(b)) ^ base, 1 << bit
        for rv, rm in rows:
            if v ^ rv < v:
                v, m = v ^ rv, m ^ rm
        if v:
            rows.append((v, m))
            rows.sort(reverse=True)
    t, m = target, 0
    for rv, rm in rows:
        if t ^ rv < t:
            t, m = t ^ rv, m ^ rm
    assert t == 0
    out = bytearray(body)
    for bit in range(96):
        if m >> bit & 1:
            out[pos + bit // 8] ^= 1 << bit % 8
    assert zlib.crc32(bytes(out)) ^ zlib.crc32(body) == target
    return bytes(out)


def zeros_zlib(n, prefix=b''):
    """:return: prefix and n zero bytes as a zlib stream, made without compressing them all"""
    c = _compressobj(9, zlib.DEFLATED, -15)
    first = c.compress(prefix) + c.flush(zlib.Z_FULL_FLUSH) if prefix else b''
    c = _compressobj(9, zlib.DEFLATED, -15)
    block = c.compress(bytes(1 << 20)) + c.flush(zlib.Z_FULL_FLUSH)
    c = _compressobj(9, zlib.DEFLATED, -15)
    rest = c.compress(bytes(n & (1 << 20) - 1)) + c.flush()
    a = zlib.adler32(prefix)
    return b'\x78\x9c' + first + block * (n >> 20) + rest + struct.pack('>L', ((a >> 16) + n * (a & 0xffff)) % 65521 << 16 | a & 0xffff)


_zero_sha = {}


def zeros_sha(type, n):
    """:return: id of an object of n zero bytes"""
    if (type, n) not in _zero_sha:
        h = hashlib.sha1(b'%s %d\0' % (type.encode(), n))
        for _ in range(n >> 20):
            h.update(_MIB)
        h.update(bytes(n & (1 << 20) - 1))
        _zero_sha[type, n] = h.digest()
    return _zero_sha[type, n]


_MIB = bytes(1 << 20)


def zeros_in_zlib(raw, prefix=b''):
    """:return: (number of zero bytes behind the prefix, bytes used); FormatError if anything else is in the stream"""
    d = _decompressobj()
    n = 0
    tail = raw
    head = b''
    done = False
    try:
        while not d.eof:
            out = d.decompress(tail, 1 << 20)
            tail = d.unconsumed_tail
            if not out and not tail and not d.eof:
                raise FormatError('incomplete zlib stream')
            if not done:
                head += out
                if len(head) < len(prefix):
                    continue
                if not head.startswith(prefix):
                    break
                out = head[len(prefix):]
                done = True
            if out.count(0) != len(out):
                raise FormatError('something but zeros')
            n += len(out)
    except zlib.error as e:
        raise FormatError('zlib: %s' % e)
    if not done:
        raise FormatError('starts with %r' % head[:50])
    return n, len(raw) - len(d.unused_data)


class Zeros:
    """a source of n zero bytes"""

    def __init__(self, n, most=None):
        self.n = n
        self.most = most

    def read(self, n=-1):
        if n < 0 or n > self.n:
            n = self.n
        if self.most:
            n = min(n, self.most)
        self.n -= n
        return _MIB if n == 1 << 20 else bytes(n)


# 'near <n>': blobs whose ids share their first four bytes
NEAR = ((174104, 215359), (28507, 224208), (177355, 240817), (94823, 256384), (254218, 274545), (152360, 283386), (68697, 319787), (311240, 342105))


def sha(type, data):
    return hashlib.sha1(b'%s %d\0' % (type.encode(), len(data)) + data).digest()


def hexs(b):
    return binascii.hexlify(b).decode()


# ------------------------------------------------------------------------------------------------------------- zlib

def deflate(data, e=None):
    """:param e: {'l': level, 'st': strategy, 'w': wbits, 'm': memlevel, 'fl': [[pos, mode, empty blocks?]..]}"""
    if not e:
        return zlib.compress(data, 1)
    c = _compressobj(e.get('l', 1), zlib.DEFLATED, e.get('w', 15), e.get('m', 8), e.get('st', 0))
    out = []
    last = 0
    for fl in sorted(e.get('fl', ())):
        pos, mode = fl[:2]
        pos = min(len(data), pos)
        out.append(c.compress(data[last:pos]))
        out.append(c.flush(mode))
        if len(fl) > 2:
            # many blocks without content
            out.append(b'\0\0\0\xff\xff' * fl[2])
        last = pos
    out.append(c.compress(data[last:]))
    out.append(c.flush())
    return b''.join(out)


def encoding(rng, n):
    e = {'l': rng.choice((0, 1, 1, 3, 6, 6, 9)), 'st': rng.choice((0, 0, 0, 1, 2, 3, 4)), 'w': rng.choice((15, 15, 15, 9, 10, 12)),
         'm': rng.choice((8, 8, 1, 9))}
    if rng.random() < .3:
        e['fl'] = [[rng.randrange(n + 1), rng.choice((zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH))]
                   for _ in range(rng.randrange(1, 5))]
        if rng.random() < .1:
            e['fl'][0][1:] = [zlib.Z_FULL_FLUSH, rng.choice((1, 10, 100, 1000, 1700, 5000))]
            if rng.random() < .5:
                e['fl'][0][0] = rng.choice((0, n, n, n + 9, n + 99, 5, 8))
    return e


# ------------------------------------------------------------------------------------------------------ loose objects

def loose_bytes(type, data, e=None):
    return deflate(b'%s %d\0' % (type.encode(), len(data)) + data, e)


def parse_loose(raw):
    """:return: (type, data) of a loose object file; raises FormatError if it is not complete and valid"""
    d = _decompressobj()
    try:
        x = d.decompress(raw)
        x += d.flush()
    except zlib.error as e:
        raise FormatError('zlib: %s' % e)
    if not d.eof:
        raise FormatError('incomplete zlib stream')
    if d.unused_data:
        raise FormatError('trailing bytes after the object')
    z = x.find(b'\0')
    if z < 0 or z > 40:
        raise FormatError('no header')
    try:
        t, n = x[:z].split(b' ')
        t = t.decode('ascii')
        if not n.isdigit():
            raise FormatError('bad size')
        n = int(n)
    except ValueError:
        raise FormatError('bad header')
    if t not in TYPE_ID:
        raise FormatError('bad type')
    data = x[z + 1:]
    if len(data) != n:
        raise FormatError('size mismatch: header %d, content %d' % (n, len(data)))
    return t, data


def is_loose_path(rel):
    """:return: hex id if rel (relative to the objects directory) is the final name of a loose object"""
    p = rel.split('/')
    if len(p) == 2 and len(p[0]) == 2 and len(p[1]) == 38:
        h = p[0] + p[1]
        try:
            binascii.unhexlify(h)
        except ValueError:
            return None
        return h
    return None


def check_loose(rel, raw):
    """:return: (binsha, type, data); rel relative to the objects directory"""
    h = is_loose_path(rel)
    t, data = parse_loose(raw)
    s = sha(t, data)
    if hexs(s) != h:
        raise FormatError('content has id %s' % hexs(s))
    return s, t, data


# --------------------------------------------------------------------------------------------------------------- deltas

def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def copy_op(off, size, full=False, form=0):
    assert 0 < size <= 0xffffff
    c = 0x80
    args = bytearray()
    for i in range(4):
        b = (off >> (8 * i)) & 0xff
        if b or full:
            c |= 1 << i
            args.append(b)
    if size == 0x10000:
        # zero bytes stand for it, however many there are; or it is spelled out
        flags, b = ((0, b''), (0x10, b'\0'), (0x30, b'\0\0'), (0x70, b'\0\0\1'), (0x40, b'\1'), (0x20, b'\0'), (0x70, b'\0\0\0'))[form % 7]
        c |= flags
        args += b
    else:
        for i in range(3):
            b = (size >> (8 * i)) & 0xff
            if b or (full and i < 2):
                c |= 0x10 << i
                args.append(b)
    return bytes([c]) + bytes(args)


def make_delta(base, rng, target_hint=None):
    """:return: (delta bytes, target bytes) by a random program over base"""
    ops = []
    out = []
    nops = rng.choice((0, 1, 1, 2, 3, 5, 8, 20))
    for _ in range(nops):
        c = rng.random()
        if base and c < .6:
            off = rng.choice((0, rng.randrange(len(base)), rng.randrange(len(base))))
            if len(base) > 1 << 24 and rng.random() < .6:
                off = rng.randrange(1 << 24, len(base))         # needs the fourth offset byte
            ln = rng.choice((1, 4, 30, 255, 256, 1000, 65535, 65536, len(base)))
            if len(base) >= 65536 and rng.random() < .3:
                ln = 65536
                off = rng.randrange(len(base) - 65536 + 1)
            ln = max(1, min(ln, len(base) - off, 0xffffff))
            ops.append(copy_op(off, ln, rng.random() < .3, rng.randrange(7)))
            out.append(base[off:off + ln])
        else:
            ln = rng.choice((1, 2, 16, 126, 127, rng.randrange(1, 128)))
            d = rng.randbytes(ln) if rng.random() < .5 else bytes([rng.randrange(256)]) * ln
            ops.append(bytes([ln]) + d)
            out.append(d)
    target = b''.join(out)
    return varint(len(base)) + varint(len(target)) + b''.join(ops), target


# ---------------------------------------------------------------------------------------------------------------- packs

def obj_header(tid, n):
    c = (tid << 4) | (n & 15)
    n >>= 4
    out = bytearray()
    while n:
        out.append(c | 0x80)
        c = n & 0x7f
        n >>= 7
    out.append(c)
    return bytes(out)


def ofs_bytes(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        n -= 1
        out.append(0x80 | (n & 0x7f))
        n >>= 7
    return bytes(reversed(out))


def build_pack(objs, version=2):
    """
    :param objs: list of dicts: {'type', 'data', 'enc'} whole object, or {'delta': bytes, 'base': index, 'kind': 'ofs'|'ref',
        'type', 'data' (resolved), 'enc'}; 'ofs' bases come earlier in the list; optional 'base_sha' for a foreign base
    :return: (pack bytes, [(sha, offset, crc, end)] in list order)"""
    out = bytearray(struct.pack('>4sLL', b'PACK', version, len(objs)))
    info = []
    for o in objs:
        start = len(out)
        if 'delta' in o:
            if o['kind'] == 'ofs':
                hdr = obj_header(OFS, o.get('hsize', len(o['delta']))) + ofs_bytes(start - info[o['base']][1])
            else:
                bs = o.get('base_sha')
                if bs is None:
                    b = objs[o['base']]
                    bs = sha(b['type'], b['data'])
                hdr = obj_header(REF, o.get('hsize', len(o['delta']))) + bs
            body = deflate(o['delta'], o.get('enc'))
        else:
            hdr = obj_header(TYPE_ID[o['type']], o.get('hsize', len(o['data'])))
            body = deflate(o.get('as', o['data']), o.get('enc'))
        out += hdr
        out += body
        info.append((sha(o['type'], o['data']), start, zlib.crc32(bytes(out[start:])), len(out)))
    out += hashlib.sha1(bytes(out)).digest()
    return bytes(out), info


def build_index(info, pack_sha, version=2, large=False):
    """:param large: store all offsets through the 64 bit table"""
    ents = sorted(info)
    fan = [0] * 256
    for e in ents:
        fan[e[0][0]] += 1
    for i in range(1, 256):
        fan[i] += fan[i - 1]
    f = struct.pack('>256L', *fan)
    if version == 1:
        out = f + b''.join(struct.pack('>L', e[1]) + e[0] for e in ents)
    else:
        out = b'\xfftOc' + struct.pack('>L', 2) + f
        out += b''.join(e[0] for e in ents)
        out += b''.join(struct.pack('>L', e[2]) for e in ents)
        big = []
        for e in ents:
            if e[1] > 0x7fffffff or large:
                out += struct.pack('>L', 0x80000000 | len(big))
                big.append(e[1])
            else:
                out += struct.pack('>L', e[1])
        out += b''.join(struct.pack('>Q', b) for b in big)
    out += pack_sha
    return out + hashlib.sha1(out).digest()


def parse_index(raw):
    """:return: (version, [(sha, offset, crc or None)], pack_sha); validates everything"""
    if len(raw) < 1024 + 40:
        raise FormatError('index too short')
    if hashlib.sha1(raw[:-20]).digest() != raw[-20:]:
        raise FormatError('index checksum')
    pack_sha = raw[-40:-20]
    v2 = raw[:4] == b'\xfftOc'
    pos = 0
    if v2:
        if struct.unpack_from('>L', raw, 4)[0] != 2:
            raise FormatError('index version')
        pos = 8
    fan = struct.unpack_from('>256L', raw, pos)
    if any(a > b for a, b in zip(fan, fan[1:])):
        raise FormatError('fanout not monotone')
    n = fan[255]
    pos += 1024
    ents = []
    if v2:
        need = pos + n * 28 + 40
        if len(raw) < need:
            raise FormatError('index too short for %d objects' % n)
        shas = [raw[pos + i * 20:pos + i * 20 + 20] for i in range(n)]
        crc = struct.unpack_from('>%dL' % n, raw, pos + n * 20)
        ofs = struct.unpack_from('>%dL' % n, raw, pos + n * 24)
        p64 = pos + n * 28
        used = 0
        for i in range(n):
            o = ofs[i]
            if o & 0x80000000:
                if p64 + ((o & 0x7fffffff) + 1) * 8 > len(raw) - 40:
                    raise FormatError('64 bit offset outside of table')
                o = struct.unpack_from('>Q', raw, p64 + (o & 0x7fffffff) * 8)[0]
                used += 1
            ents.append((shas[i], o, crc[i]))
        if p64 + used * 8 != len(raw) - 40:
            raise FormatError('index size')
    else:
        if len(raw) != pos + n * 24 + 40:
            raise FormatError('index size')
        for i in range(n):
            o, s = struct.unpack_from('>L20s', raw, pos + i * 24)
            ents.append((s, o, None))
    prev = None
    for i, e in enumerate(ents):
        if prev is not None and e[0] < prev:
            raise FormatError('index not sorted')
        prev = e[0]
        b = e[0][0]
        if not ((fan[b - 1] if b else 0) <= i < fan[b]):
            raise FormatError('fanout does not cover entry')
    return (2 if v2 else 1), ents, pack_sha


def apply_delta(base, d):
    def vi(i):
        s = n = 0
        while True:
            c = d[i]
            i += 1
            n |= (c & 0x7f) << s
            s += 7
            if not c & 0x80:
                return n, i
    n, i = vi(0)
    if n != len(base):
        raise FormatError('delta base size')
    tn, i = vi(i)
    out = bytearray()
    while i < len(d):
        c = d[i]
        i += 1
        if c & 0x80:
            off = sz = 0
            for b in range(4):
                if c & (1 << b):
                    off |= d[i] << (8 * b)
                    i += 1
            for b in range(3):
                if c & (0x10 << b):
                    sz |= d[i] << (8 * b)
                    i += 1
            sz = sz or 0x10000
            if off + sz > len(base):
                raise FormatError('delta copy range')
            out += base[off:off + sz]
        elif c:
            if i + c > len(d):
                raise FormatError('delta insert range')
            out += d[i:i + c]
            i += c
        else:
            raise FormatError('delta opcode 0')
    if len(out) != tn:
        raise FormatError('delta target size')
    return bytes(out)


def delta_parts(d):
    """:return: (base size, target size, [command bytes])"""
    def vi(i):
        s = n = 0
        while True:
            c = d[i]
            i += 1
            n |= (c & 0x7f) << s
            s += 7
            if not c & 0x80:
                return n, i
    a, i = vi(0)
    b, i = vi(i)
    cmds = []
    while i < len(d):
        c = d[i]
        n = 1 + (bin(c & 0x7f).count('1') if c & 0x80 else c)
        cmds.append(d[i:i + n])
        i += n
    return a, b, cmds


FORGERIES = ('none', 'drop', 'drop', 'dup', 'src', 'dst', 'dst', 'beyond', 'insert', 'zero', 'empty', 'varint', 'cutcmd', 'swap', 'huge', 'more')


def forge_delta(d, how, rng):
    """:return: a delta that is well compressed but does not say what it should (or nothing sensible at all)"""
    a, b, cmds = delta_parts(d)
    if how == 'empty':
        return b''
    if how == 'varint':
        return rng.choice((b'\x80', varint(a) + b'\xff', b'\xff' * 12, varint(a)))
    if how == 'none':
        cmds = []
    elif how == 'drop' and cmds:
        del cmds[rng.randrange(len(cmds))]
    elif how == 'dup' and cmds:
        cmds.insert(rng.randrange(len(cmds) + 1), rng.choice(cmds))
    elif how == 'src':
        a = max(0, a + rng.choice((-1, 1, -a, 100, 1 << 31)))
    elif how == 'dst':
        b = max(0, b + rng.choice((-1, 1, -b, 100, -100, 1 << 20)))
    elif how == 'beyond':
        n = rng.choice((1, 10, 5000))
        cmds.insert(rng.choice((0, len(cmds))), copy_op(max(0, a - rng.choice((0, 1, n // 2))) + rng.choice((0, 1, 1 << 24)), n))
        if rng.random() < .5:
            b += n
    elif how == 'insert':
        cmds.append(bytes([rng.choice((1, 5, 127))]))
        if rng.random() < .5:
            b += cmds[-1][0]
    elif how == 'zero':
        cmds.insert(rng.randrange(len(cmds) + 1), b'\0')
    elif how == 'cutcmd':
        cmds = [c if i + 1 < len(cmds) else c[:-1] for i, c in enumerate(cmds)]
    elif how == 'swap':
        rng.shuffle(cmds)
    elif how == 'huge':
        b += rng.choice((1 << 24, 1 << 30, 1 << 40, 1 << 63))
    elif how == 'more':
        cmds.append(bytes([3]) + b'xyz')
    return varint(a) + varint(b) + b''.join(cmds)


def parse_pack(raw):
    """:return: list of (offset, type, data, end, sha, is_delta) in order; validates header, every stream and trailer"""
    if len(raw) < 32 or raw[:4] != b'PACK':
        raise FormatError('pack signature')
    ver, n = struct.unpack_from('>LL', raw, 4)
    if ver not in (2, 3):
        raise FormatError('pack version')
    if hashlib.sha1(raw[:-20]).digest() != raw[-20:]:
        raise FormatError('pack checksum')
    pos = 12
    end = len(raw) - 20
    ents = []
    for _ in range(n):
        start = pos
        if pos >= end:
            raise FormatError('pack has fewer objects than announced')
        c = raw[pos]
        pos += 1
        tid = (c >> 4) & 7
        sz = c & 15
        sh = 4
        while c & 0x80:
            c = raw[pos]
            pos += 1
            sz |= (c & 0x7f) << sh
            sh += 7
        ref = None
        if tid == OFS:
            c = raw[pos]
            pos += 1
            o = c & 0x7f
            while c & 0x80:
                c = raw[pos]
                pos += 1
                o = ((o + 1) << 7) | (c & 0x7f)
            ref = start - o
        elif tid == REF:
            ref = raw[pos:pos + 20]
            pos += 20
        elif tid not in ID_TYPE:
            raise FormatError('object type %d' % tid)
        d = _decompressobj()
        try:
            data = d.decompress(raw[pos:end])
        except zlib.error as e:
            raise FormatError('zlib: %s' % e)
        if not d.eof:
            raise FormatError('incomplete object')
        pos = end - len(d.unused_data)
        if len(data) != sz:
            raise FormatError('object size')
        ents.append((start, tid, ref, data, pos))
    if pos != end:
        raise FormatError('garbage after the last object')
    byofs = {e[0]: e for e in ents}
    done = {}

    def resolve(ofs, depth=0):
        if ofs in done:
            return done[ofs]
        if depth > 900:
            raise FormatError('delta cycle')
        start, tid, ref, data, e = byofs[ofs]
        if tid == OFS:
            if ref not in byofs:
                raise FormatError('delta base offset')
            t, b = resolve(ref, depth + 1)
            r = t, apply_delta(b, data)
        else:
            r = ID_TYPE[tid], data
        done[ofs] = r
        return r
    pending = [e for e in ents]
    for e in ents:
        x = e
        refs = False
        while x[1] in (OFS, REF):
            if x[1] == REF:
                refs = True
                break
            x = byofs[x[2]]
        if not refs:
            resolve(e[0])
    changed = True
    while changed:
        changed = False
        byshas = {sha(*done[o]): o for o in done}
        for e in ents:
            if e[0] in done:
                continue
            if e[1] == REF and e[2] in byshas:
                t, b = done[byshas[e[2]]]
                done[e[0]] = t, apply_delta(b, e[3])
                changed = True
            elif e[1] == OFS and e[2] in done:
                t, b = done[e[2]]
                done[e[0]] = t, apply_delta(b, e[3])
                changed = True
    out = []
    for e in ents:
        if e[0] not in done:
            raise FormatError('unresolved delta')
        t, data = done[e[0]]
        out.append((e[0], t, data, e[4], sha(t, data), e[1] in (OFS, REF)))
    return out


def check_pair(praw, iraw):
    """:return: {sha: (type, data)} if pack and index are complete and agree"""
    ents = parse_pack(praw)
    v, idx, psha = parse_index(iraw)
    if psha != praw[-20:]:
        raise FormatError('index belongs to another pack')
    if sorted((e[4], e[0]) for e in ents) != sorted((s, o) for s, o, c in idx):
        raise FormatError('index does not list the objects of the pack')
    byo = {e[0]: e for e in ents}
    for s, o, c in idx:
        if c is not None and zlib.crc32(praw[o:byo[o][3]]) != c:
            raise FormatError('crc of %s' % hexs(s))
    return {e[4]: (e[1], e[2]) for e in ents}
