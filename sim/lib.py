"""Shared pieces of the property workloads."""
import os
import gc
import sys
import time
import zlib
import random
from io import BytesIO

from . import core
from . import gitfmt as F
from .core import Violation, REAL

FAULTS = (OSError, core.SimIntr)     # what a call fails with if we make it fail

gitdb = core.load_gitdb()
# (attributes of the package are shadowed by modules of gitdb.db)
gdb = sys.modules['gitdb.db']
gpack = sys.modules['gitdb.pack']
gstream = sys.modules['gitdb.stream']
gfun = sys.modules['gitdb.fun']
gutil = sys.modules['gitdb.util']
from gitdb.base import IStream, OStream       # noqa: E402
from gitdb.exc import BadObject, AmbiguousObjectName, ODBError   # noqa: E402

OBJ = 'w/objects'


def fail(cls, msg):
    raise Violation(cls, msg)


def short(b, n=40):
    b = bytes(b)
    return '%r%s[%d]' % (b[:n], '...' if len(b) > n else '', len(b))


def hx(s):
    return F.hexs(s)


class Caught(Exception):
    """An exception the code under test raised, kept without its frames."""


def attempt(fn, *a, **k):
    """:return: (True, value) or (False, exception).  Crashes, hangs and violations pass through."""
    try:
        return True, fn(*a, **k)
    except (Exception, KeyboardInterrupt) as e:
        e.__traceback__ = None
        # break the chain of frames held by the causes as well: they would keep handles alive
        c = e
        seen = 0
        while c is not None and seen < 10:
            c.__traceback__ = None
            c = c.__cause__ or c.__context__
            seen += 1
        return False, e


def exname(e):
    return type(e).__name__


# ------------------------------------------------------------------------------------------------------------- sources

class SourceError(IOError):
    pass


# what reading raises, depending on what is behind the stream
ERRORS = (SourceError, SourceError, EOFError, ValueError, zlib.error, MemoryError, StopIteration, TimeoutError, InterruptedError, BlockingIOError, KeyError, PermissionError, FileExistsError, FileNotFoundError,
          ConnectionResetError, UnicodeError, AssertionError, AttributeError, BadObject, IsADirectoryError)


class Source:
    """A content stream.  mode: full | short (at most p bytes per read, p varies with seed) | err / eof (after p bytes)
    :param reuse: hand out the same memory each time
    :param stall: seconds the first read from the middle on takes"""

    def __init__(self, data, mode='full', p=0, s=0, big=False, reuse=False, stall=0):
        self.exc = ERRORS[s % len(ERRORS)]
        self.memory = bytearray() if reuse else None
        self.stall = stall
        self.data = data
        self.sizes = (100000, 65536, max(1, p)) if big else (1, 2, 7, 100, 512, 4000, max(1, p))
        self.pos = 0
        self.mode = mode
        self.p = p
        self.r = random.Random(s)
        self.hit = False

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        limit = len(self.data)
        if self.mode in ('err', 'eof'):
            limit = min(limit, self.p)
        if self.mode == 'short' or (self.mode in ('err', 'eof') and self.r.random() < .5):
            n = min(n, self.r.choice(self.sizes))
        out = self.data[self.pos:min(limit, self.pos + n)]
        if not out and self.mode == 'err' and n and self.pos >= limit:
            self.hit = True
            raise self.exc("source failed")
        if not out and self.mode == 'eof':
            self.hit = True
        self.pos += len(out)
        if self.stall and self.pos * 2 > len(self.data):
            s, self.stall = self.stall, 0
            time.sleep(s)
        if self.memory is not None:
            if len(out) > len(self.memory):
                self.memory = bytearray(len(out))
            self.memory[:] = bytes([self.r.randrange(256)]) * len(self.memory)
            self.memory[:len(out)] = out
            return memoryview(self.memory)[:len(out)]
        return out


def gen_src(rng, n):
    c = rng.random()
    if c < .45:
        return {'mode': 'full'}
    src = {'mode': 'short', 'p': rng.choice((1, 3, 64, 1000, 5000)), 's': rng.randrange(1 << 16)}
    if c > .8:
        src['reuse'] = True
    return src


def mk_src(data, s):
    if s['mode'] == 'full':
        return BytesIO(data)
    return Source(data, s['mode'], s.get('p', 0), s.get('s', 0), s.get('big'), s.get('reuse'), s.get('stall', 0))


def otype(type, n):
    """types may be given as bytes or text"""
    return type if n % 3 == 2 else type.encode()


def mk_istream(type, data, src, size=None):
    return IStream(otype(type, len(data)), len(data) if size is None else size, mk_src(data, src))


# ------------------------------------------------------------------------------------------------------------- reading

def drain(stream, pattern=None, limit=None):
    """read a stream to its end.  pattern: list of read sizes used in turn (-1: rest)"""
    out = []
    total = 0
    i = 0
    while True:
        n = pattern[i % len(pattern)] if pattern else -1
        i += 1
        d = stream.read(n) if pattern else stream.read()
        if not isinstance(d, (bytes, memoryview, bytearray)):
            fail('read-type', 'read() returned %r' % type(d))
        if len(d) == 0:
            return b''.join(out)
        if n > 0 and len(d) > n:
            fail('read-over', 'read(%d) returned %d bytes' % (n, len(d)))
        out.append(bytes(d))
        total += len(d)
        if limit is not None and total > limit:
            fail('read-over', 'stream delivered more than its size %d' % limit)


PATTERNS = (None, None, [1000], [1, 7, 300], [4096], [1 << 20], [5, -1], [8192, 1])


def tname(t):
    return t.decode() if isinstance(t, bytes) else t


def check_info(o, sha, type, n, where):
    if bytes(o.binsha) != sha:
        fail('info-sha', '%s: binsha %s instead of %s' % (where, hx(o.binsha), hx(sha)))
    if bytes(o.hexsha) != hx(sha).encode():
        fail('info-sha', '%s: hexsha %r instead of %s' % (where, o.hexsha, hx(sha)))
    if o.type_id != F.TYPE_ID[type]:
        fail('info-type', '%s: type_id %r of a %s' % (where, o.type_id, type))
    if tname(o.type) != type or not isinstance(o.type, bytes):
        fail('info-type', '%s: type %r instead of %r' % (where, o.type, type))
    if o.size != n:
        fail('info-size', '%s: size %r instead of %d' % (where, o.size, n))


def check_object(db, sha, type, data, pattern=None, full=True):
    """all read methods report exactly this object"""
    if full:
        if db.has_object(sha) is not True:
            fail('lost', 'has_object(%s) is not True' % hx(sha))
        if (sha in db) is not True:
            fail('lost', '%s not `in` database' % hx(sha))
        check_info(db.info(sha), sha, type, len(data), 'info')
    s = db.stream(sha)
    check_info(s, sha, type, len(data), 'stream')
    got = drain(s, pattern, len(data))
    if got != data:
        fail('content', '%s %s: stream delivered %s instead of %s' % (type, hx(sha), short(got), short(data)))


def check_absent(db, sha):
    if db.has_object(sha) is not False:
        fail('ghost', 'has_object(%s) is not False' % hx(sha))
    if (sha in db) is not False:
        fail('ghost', '%s is `in` the database' % hx(sha))
    for name in ('info', 'stream'):
        ok, e = attempt(getattr(db, name), sha)
        if ok:
            fail('ghost', '%s of a missing object returned %r' % (name, e))
        if not isinstance(e, BadObject):
            fail('wrong-exception', '%s of a missing object raised %s: %s' % (name, exname(e), e))


def audit_loose(w, objdir=OBJ):
    """:return: {sha: (type, data)} of all loose objects, each one complete and valid; (objects, other files)"""
    objs = {}
    other = []
    n = len(objdir) + 1
    for rel in w.tree(objdir):
        p = rel[n:]
        if F.is_loose_path(p):
            try:
                s, t, d = F.check_loose(p, w.get(rel))
            except F.FormatError as e:
                fail('bad-object-file', '%s: %s' % (p, e))
            objs[s] = (t, d)
        elif p.startswith('pack/') or p.startswith('info/'):
            pass
        else:
            other.append(p)
    return objs, other


def foreign_loose(w, type, data, e=None, objdir=OBJ):
    s = F.sha(type, data)
    h = hx(s)
    w.put('%s/%s/%s' % (objdir, h[:2], h[2:]), F.loose_bytes(type, data, e))
    return s


def foreign_pack(w, pk, objdir=OBJ, version=2, large=False, idx=True, pack=True, name=None):
    """:param pk: list of object dicts; :return: (name, info)"""
    raw, info = F.build_pack(pk)
    name = name or hx(raw[-20:])
    base = '%s/pack/pack-%s' % (objdir, name)
    if pack:
        w.put(base + '.pack', raw)
    if idx:
        w.put(base + '.idx', F.build_index(info, raw[-20:], version, large))
    return name, info


def nfds():
    return len(os.listdir('/proc/self/fd'))


def knobs(w, cfg):
    """apply tuning knobs of this run; undone by reset_knobs"""
    k = cfg.get('knobs') or {}
    if 'chunk' in k:
        gdb.LooseObjectDB.stream_chunk_size = k['chunk']
    if 'pchunk' in k and hasattr(gpack, 'chunk_size'):
        gpack.chunk_size = k['pchunk']
    if 'sort' in k and hasattr(gdb.PackedDB, '_sort_interval'):
        gdb.PackedDB._sort_interval = k['sort']


_defaults = {
    'chunk': gdb.LooseObjectDB.stream_chunk_size,
    'pchunk': getattr(gpack, 'chunk_size', None),
    'sort': getattr(gdb.PackedDB, '_sort_interval', None),
}


def reset_knobs():
    gdb.LooseObjectDB.stream_chunk_size = _defaults['chunk']
    if _defaults['pchunk'] is not None:
        gpack.chunk_size = _defaults['pchunk']
    if _defaults['sort'] is not None:
        gdb.PackedDB._sort_interval = _defaults['sort']


# ---------------------------------------------------------------------------------------------------------------- faults

MENU = {
    'open': [('err', 'EMFILE'), ('err', 'EIO'), ('err', 'EACCES'), ('err', 'ENFILE')],
    'creat': [('err', 'EMFILE'), ('err', 'ENOSPC'), ('err', 'EACCES'), ('err', 'EROFS')],
    'write': [('err', 'ENOSPC'), ('err', 'EIO'), ('short', None), ('short', None), ('err', 'EDQUOT')],
    'close': [('err', 'EIO'), ('err', 'EDQUOT')],
    'rename': [('err', 'EIO'), ('err', 'EACCES'), ('err', 'ENOSPC'), ('err', 'EXDEV')],
    'mkdir': [('err', 'ENOSPC'), ('err', 'EACCES'), ('err', 'EIO')],
    'chmod': [('err', 'EPERM'), ('err', 'EIO')],
    'unlink': [('err', 'EIO'), ('err', 'EACCES')],
    'scan': [('err', 'EIO'), ('err', 'EACCES'), ('err', 'EMFILE')],
    'read': [('err', 'EIO'), ('short', None)],
    'mmapf': [('err', 'ENOMEM')],
    'mmapa': [('err', 'ENOMEM')],
    'fsync': [('err', 'EIO')],
    'stat': [('err', 'EIO'), ('err', 'EACCES')],
    'alloc': [('err', 'NOMEM')],
}


def pick_fault(rng, trace, classes, ops=None):
    by = {}
    for t in trace:
        if t[0] >= 0 and t[1] in classes and (ops is None or t[0] in ops):
            by.setdefault(t[1], []).append(t)
    if not by:
        return None
    cls = rng.choice(sorted(by))
    t = rng.choice(by[cls])
    do, en = rng.choice(MENU[cls])
    f = {'op': t[0], 'cls': cls, 'k': t[2], 'do': do}
    if do == 'err':
        f['errno'] = en
        if cls == 'write' and rng.random() < .4:
            f['frac'] = rng.choice((.2, .5, .9))
        if cls == 'chmod' and rng.random() < .5:
            f['times'] = rng.choice((1, 2, 5, 13, 14, 1000))
        if rng.random() < .1:
            f['times'] = rng.choice((2, 1000))
        if cls == 'alloc' and rng.random() < .5:
            f['late'] = True
    else:
        if rng.random() < .3:
            f['n'] = rng.choice((0, 1)) if cls == 'write' else 1
        else:
            f['frac'] = rng.choice((.1, .5, .9, .99))
        if rng.random() < .3:
            f['times'] = rng.choice((2, 3, 1000, 1000))
            if f['times'] == 1000:
                f.pop('n', None)
    return f


def interrupts(rng, fs, p=.1):
    """some of the planned errors become signals whose handler raises"""
    for f in fs:
        if f['do'] == 'err' and f['cls'] in ('open', 'creat', 'read', 'write', 'mkdir', 'rename', 'chmod', 'stat', 'mmapf', 'mmapa', 'scan', 'alloc') and rng.random() < p:
            f['errno'] = 'INTR'
            f.pop('frac', None)
            f.pop('times', None)
    return fs


def pick_crash(rng, trace, ops=None):
    c = [t for t in trace if t[0] >= 0 and t[1] == 'mut' and (ops is None or t[0] in ops)]
    if not c:
        return None
    # prefer renames/creates a little: they are the rare calls
    hot = [t for t in c if t[3] in ('rename', 'replace', 'link', 'chmod', 'unlink', 'remove', 'mkdir')]
    t = rng.choice(hot) if hot and rng.random() < .4 else rng.choice(c)
    mode = rng.choice(('before', 'after', 'torn')) if t[3] == 'write' else rng.choice(('before', 'after'))
    f = {'op': t[0], 'cls': 'mut', 'k': t[2], 'do': 'crash', 'mode': mode}
    if mode == 'torn':
        f['frac'] = rng.choice((0.05, .5, .95))
    return f


def gen_sched(rng, total=200, mean=None):
    mean = mean or rng.choice((1, 2, 4, 10, 30))
    out = []
    n = 0
    while n < total and len(out) < 120:
        k = int(rng.expovariate(1.0 / mean))
        out.append([k, rng.randrange(12)])
        n += k + 1
    return out


# ---------------------------------------------------------------------------------------------------------------- packs

def gen_obj(rng, i, delta=.55, sizes=None, big=False):
    """:return: op adding one object to the pack being assembled"""
    op = {'op': 'obj', 'enc': F.encoding(rng, 60) if rng.random() < .5 else {'l': rng.choice((0, 1, 6))}}
    if i and rng.random() < delta:
        op.update(b=rng.randrange(1 << 16) if rng.random() < .5 else i - 1, kind=rng.choice(('ofs', 'ofs', 'ref')), ds=rng.randrange(1 << 30))
    else:
        op.update(t=rng.choice(F.TYPES), c=F.recipe(rng, sizes))
        if op['c']['n'] > 60000 and not big:
            op['c']['n'] //= 8
    return op


class Packer:
    """assembles packs from 'obj' operations; survives removal of any of them"""

    def __init__(self):
        self.objs = []
        self.shas = set()

    def add(self, op):
        if 'c' in op or not self.objs:
            if 'c' not in op:
                return None
            t, d = op['t'], F.content(op['c'])
            o = {'type': t, 'data': d, 'enc': op['enc']}
        else:
            b = op['b'] % len(self.objs)
            base = self.objs[b]
            rng = random.Random(op['ds'])
            for _ in range(6):
                delta, d = F.make_delta(base['data'], rng)
                if len(d) < 120000:
                    break
            else:
                return None
            t = base['type']
            o = {'type': t, 'data': d, 'enc': op['enc'], 'delta': delta, 'base': b, 'kind': op['kind']}
        s = F.sha(t, d)
        if s in self.shas:
            return None
        self.shas.add(s)
        self.objs.append(o)
        return s

    def model(self):
        return {F.sha(o['type'], o['data']): (o['type'], o['data']) for o in self.objs}

    def ordered(self, perm):
        """:return: object list in a file order that keeps offset bases in front of their deltas"""
        n = len(self.objs)
        if perm is None:
            return self.objs
        rng = random.Random(perm)
        left = list(range(n))
        rng.shuffle(left)
        done = []
        placed = set()
        while left:
            for i in left:
                o = self.objs[i]
                if o.get('kind') == 'ofs' and 'delta' in o and o['base'] not in placed:
                    continue
                done.append(i)
                placed.add(i)
                left.remove(i)
                break
        pos = {i: k for k, i in enumerate(done)}
        out = []
        for i in done:
            o = dict(self.objs[i])
            if 'delta' in o:
                o['base'] = pos[o['base']]
            out.append(o)
        return out

    def depth(self):
        ds = []
        for o in self.objs:
            ds.append(ds[o['base']] + 1 if 'delta' in o else 0)
        return max(ds or [0])


# ---------------------------------------------------------------------------------------------------------- disk watch

class DiskWatch:
    """Checks after every mutating call that each file at an object's or pack's final name is complete, right and stays so.

    Under the process-crash model the disk after any call is what a crash there would leave, so this judges every crash
    point of a history, not only the one a plan picks."""

    def __init__(self, w, objdir=OBJ, allowed=None):
        self.w = w
        self.dir = objdir
        self.n = len(objdir) + 1
        self.files = {}         # rel -> (signature, value)
        self.allowed = allowed  # callable: sha -> (type, data) or None
        self.checked = 0
        w.hooks.append(self.hook)
        self.scan('start')

    def kind(self, rel):
        if not rel or not rel.startswith(self.dir + '/'):
            return None
        p = rel[self.n:]
        if F.is_loose_path(p):
            return 'loose'
        if p.startswith('pack/pack-') and p.endswith(('.pack', '.idx')):
            return 'pack'
        return None

    def sig(self, rel):
        try:
            s = REAL['stat'](rel)
        except OSError:
            return None
        return s.st_ino, s.st_size, s.st_mtime_ns

    def look(self, rel, where):
        sig = self.sig(rel)
        old = self.files.get(rel)
        if sig is None:
            if old is not None and self.kind(rel) == 'loose':
                fail('vanished', '%s: %s has disappeared' % (where, rel))
            self.files.pop(rel, None)       # a failing creation takes its pack back
            return
        if old is not None and old[0] == sig:
            return
        self.checked += 1
        raw = self.w.get(rel)
        p = rel[self.n:]
        try:
            if self.kind(rel) == 'loose':
                s, t, d = F.check_loose(p, raw)
                val = (s, t, d)
                if self.allowed is not None:
                    a = self.allowed(s)
                    if a is None:
                        fail('ghost-object', '%s: object %s that nobody stored appears' % (where, hx(s)))
                    if a != (t, d):
                        fail('wrong-object', '%s: %s holds another object' % (where, p))
            elif p.endswith('.pack'):
                objs = F.parse_pack(raw)
                if p != 'pack/pack-%s.pack' % hx(raw[-20:]):
                    fail('pack-name', '%s: %s has checksum %s' % (where, p, hx(raw[-20:])))
                val = {o[4]: (o[1], o[2]) for o in objs}
            else:
                F.parse_index(raw)
                other = rel[:-4] + '.pack'
                if self.sig(other) is not None:
                    val = F.check_pair(self.w.get(other), raw)
                else:
                    val = None
        except F.FormatError as e:
            fail('bad-file', '%s: %s: %s' % (where, p, e))
        if old is not None and self.kind(rel) == 'loose' and old[1] != val:
            fail('replaced', '%s: %s was replaced by something else' % (where, p))
        if old is not None and old[0][0] == sig[0]:
            fail('in-place', '%s: %s was changed in place' % (where, p))
        self.files[rel] = (sig, val)

    def hook(self, name, rel, rel2):
        where = 'after %s(%s)' % (name, rel)
        # contents behind an old name: writes through a descriptor of a file renamed before it was complete
        for f in list(self.files):
            self.look(f, where)
        if name not in ('write',):
            for r in (rel, rel2):
                if r and self.kind(r):
                    self.look(r, where)

    def scan(self, where):
        """look at everything; :return: {sha: (type, data)} of the loose objects"""
        for rel in self.w.tree(self.dir):
            if self.kind(rel):
                self.look(rel, where)
        for f in list(self.files):
            self.look(f, where)
        return {v[1][0]: v[1][1:] for f, v in self.files.items() if self.kind(f) == 'loose'}

    def packs(self):
        """:return: {sha: (type, data)} of complete packs"""
        out = {}
        for f, (sig, val) in self.files.items():
            if f.endswith('.pack') and f[:-5] + '.idx' in self.files:
                out.update(val)
        return out

    def forget(self, rel):
        self.files.pop(rel, None)
