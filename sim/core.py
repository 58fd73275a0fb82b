"""The simulator: seam over the operating system, simulated clock, faults, crashes, actors and their schedule.

install() must run before gitdb / smmap are imported.  Everything passes through to the real system unless a World
is active, not paused, and the calling thread is the actor the scheduler is running.
"""
import os
import sys
import errno
import hashlib
import _thread

REAL = {}
ACTIVE = None           # the World in force
real_ident = _thread.get_ident


class SimCrash(BaseException):
    """The simulated process is dead."""


class SimHang(BaseException):
    """A run exceeded its budget of calls or CPU."""


class SimAbort(BaseException):
    """The run is over (another actor failed); unwind."""


class SimIntr(KeyboardInterrupt):
    """A signal handler raised while a call was waiting."""


class Violation(BaseException):
    def __init__(self, cls, msg):
        BaseException.__init__(self, cls, msg)
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------- seam

# name -> (argument kind, class, mutating)
TABLE = {
    'open': ('open', 'open', False),
    'close': ('fd', 'close', False),
    'read': ('fd', 'read', False),
    'pread': ('fd', 'read', False),
    'readv': ('fd', 'read', False),
    'write': ('fd', 'write', True),
    'pwrite': ('fd', 'write', True),
    'writev': ('fd', 'write', True),
    'sendfile': ('fd', 'write', True),
    'copy_file_range': ('fd2', 'write', True),
    'splice': ('fd2', 'write', True),
    'ftruncate': ('fd', 'write', True),
    'truncate': ('path', 'write', True),
    'posix_fallocate': ('fd', 'write', True),
    'fsync': ('fd', 'fsync', False),
    'fdatasync': ('fd', 'fsync', False),
    'fchmod': ('fd', 'chmod', True),
    'fstat': ('fd', 'stat', False),
    'stat': ('path', 'stat', False),
    'lstat': ('path', 'stat', False),
    'access': ('path', 'stat', False),
    'readlink': ('path', 'stat', False),
    'chmod': ('path', 'chmod', True),
    'lchmod': ('path', 'chmod', True),
    'utime': ('path', 'chmod', True),
    'rename': ('path2', 'rename', True),
    'replace': ('path2', 'rename', True),
    'link': ('path2', 'rename', True),
    'symlink': ('path2', 'rename', True),
    'unlink': ('path', 'unlink', True),
    'remove': ('path', 'unlink', True),
    'rmdir': ('path', 'unlink', True),
    'mkdir': ('path', 'mkdir', True),
    'listdir': ('dir', 'scan', False),
    'scandir': ('dir', 'scan', False),
    'dup': ('fd', 'dup', False),
}


def _wrap_os(name):
    real = getattr(os, name)
    REAL[name] = real
    spec = TABLE[name]

    def call(*a, **k):
        w = ACTIVE
        if w is None or w.paused or real_ident() != w.cur.ident:
            return real(*a, **k)
        return w.syscall(name, spec, real, a, k)
    call.__name__ = name
    call.__qualname__ = name
    for sup in ('supports_dir_fd', 'supports_effective_ids', 'supports_fd', 'supports_follow_symlinks'):
        s = getattr(os, sup, None)
        if s is not None and real in s:
            s.add(call)
    setattr(os, name, call)


def on():
    """:return: the world if the calling code is simulated"""
    w = ACTIVE
    if w is None or w.paused or real_ident() != w.cur.ident:
        return None
    return w


class SimLock:
    """Replacement for threading.Lock inside actors: blocking is a scheduling decision."""
    _re = False

    def __init__(self):
        self._l = _thread.RLock() if self._re else _thread.allocate_lock()
        self._waiting = []

    def acquire(self, blocking=True, timeout=-1):
        w = on()
        if w is None or not w.multi:
            return self._l.acquire(blocking, timeout)
        w.yield_point('lock')
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        waited = 0
        while True:
            if timeout >= 0:
                w.sleep(0.001)
            else:
                self._waiting.append(w.cur)
                w.block_point()
            if self._l.acquire(False):
                return True
            waited += 1
            if timeout >= 0 and waited > 50:
                return False

    def release(self):
        self._l.release()
        while self._waiting:
            self._waiting.pop().blocked = False

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):        # _is_owned etc. used by Condition
        return getattr(self._l, name)


class SimRLock(SimLock):
    _re = True


class _Scan:
    """sorted / permuted directory listing with the scandir protocol"""

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


LIVE_MAPS = None
_installed = False


CWD = '/proc/self/cwd'


def install():
    global _installed, LIVE_MAPS
    if _installed:
        return
    _installed = True
    for m in sys.modules:
        if m.split('.')[0] in ('gitdb', 'smmap', 'tempfile', 'random', 'mmap'):
            raise HarnessError("seam installed too late: %s is already imported" % m)
    for name in TABLE:
        if hasattr(os, name):
            _wrap_os(name)

    real_urandom = os.urandom
    REAL['urandom'] = real_urandom

    def urandom(n):
        w = on()
        if w is None:
            return real_urandom(n)
        return w.rand_bytes(n)
    os.urandom = urandom

    # absolute names of the scratch directory are the same in every run
    REAL['getcwd'] = os.getcwd
    REAL['realpath'] = os.path.realpath

    def getcwd():
        return CWD if ACTIVE is not None else REAL['getcwd']()
    os.getcwd = getcwd

    def realpath(p, *a, **k):
        w = ACTIVE
        if w is not None and w.rel(p) is not None:
            return os.path.abspath(p)
        return REAL['realpath'](p, *a, **k)
    os.path.realpath = realpath

    real_getpid = os.getpid
    REAL['getpid'] = real_getpid

    import zlib
    REAL['decompressobj'] = zlib.decompressobj

    class Decompress:
        """a decompression object which may run out of memory, before or after it made progress"""
        __slots__ = ('_z',)

        def __init__(self, z):
            self._z = z

        def __getattr__(self, name):
            return getattr(self._z, name)

        def decompress(self, *a, **k):
            w = on()
            if w is not None:
                late = w.alloc_call('decompress', True)
                if late is not None:
                    self._z.decompress(*a, **k)
                    w._err(late, 'alloc', None)
            return self._z.decompress(*a, **k)

        def copy(self):
            return Decompress(self._z.copy())

    def decompressobj(*a, **k):
        # counted: following references in circles opens a new stream each time
        w = on()
        if w is not None:
            w.nzip += 1
            if w.nzip > w.MAX_ZIP:
                raise SimHang()
            w.alloc_call('decompressobj')
            return Decompress(REAL['decompressobj'](*a, **k))
        return REAL['decompressobj'](*a, **k)
    zlib.decompressobj = decompressobj
    REAL['compressobj'] = zlib.compressobj

    class Compress:
        """a compression object which may run out of memory"""
        __slots__ = ('_z',)

        def __init__(self, z):
            self._z = z

        def compress(self, data):
            w = on()
            if w is not None:
                w.alloc_call('compress')
            return self._z.compress(data)

        def flush(self, *a):
            w = on()
            if w is not None:
                w.alloc_call('flush')
            return self._z.flush(*a)

        def copy(self):
            return Compress(self._z.copy())

    def compressobj(*a, **k):
        w = on()
        if w is None:
            return REAL['compressobj'](*a, **k)
        w.alloc_call('compressobj')
        return Compress(REAL['compressobj'](*a, **k))
    zlib.compressobj = compressobj

    def getpid():
        w = on()
        if w is None:
            return real_getpid()
        return w.pid()
    os.getpid = getpid

    # main threads of processes forked from one parent have the same ident
    import threading

    def get_ident():
        w = on()
        if w is None:
            return real_ident()
        return 0x7f5a20000740 + 0x801000 * w.cur.index
    _thread.get_ident = threading.get_ident = get_ident
    real_native = threading.get_native_id

    def get_native_id():
        w = on()
        if w is None:
            return real_native()
        return w.pid() + w.cur.index
    _thread.get_native_id = threading.get_native_id = get_native_id

    import time
    for name, scale in (('time', 1), ('monotonic', 1), ('perf_counter', 1), ('time_ns', 0), ('monotonic_ns', 0), ('perf_counter_ns', 0)):
        def mk(name, real, scale):
            def f():
                w = on()
                if w is None:
                    return real()
                w.tick()
                return w.now_ns / 1e9 if scale else w.now_ns
            f.__name__ = name
            return f
        REAL['time.' + name] = getattr(time, name)
        setattr(time, name, mk(name, getattr(time, name), scale))
    real_sleep = time.sleep
    REAL['sleep'] = real_sleep

    def sleep(s):
        w = on()
        if w is None:
            return real_sleep(s)
        w.sleep(s)
    time.sleep = sleep

    import mmap
    import weakref
    LIVE_MAPS = weakref.WeakSet()
    real_mmap = mmap.mmap
    REAL['mmap'] = real_mmap

    class SimMmap(real_mmap):
        def __new__(cls, fileno, length, *a, **k):
            w = on()
            if w is not None:
                w.mmap_call(fileno, length)
            r = real_mmap.__new__(cls, fileno, length, *a, **k)
            if w is not None:
                LIVE_MAPS.add(r)
            return r
        __hash__ = object.__hash__

        def __eq__(self, other):
            return self is other
    SimMmap.__name__ = 'mmap'
    mmap.mmap = SimMmap

    REAL['Lock'] = threading.Lock
    threading.Lock = SimLock
    threading.RLock = SimRLock

    import io
    import builtins
    import _pyio
    real_open = io.open
    REAL['io.open'] = real_open

    def sim_open(file, *a, **k):
        w = on()
        if w is not None:
            if isinstance(file, int):
                inside = file in w.fdpath
            else:
                inside = w.rel(file) is not None
            if inside:
                return _pyio.open(file, *a, **k)
        return real_open(file, *a, **k)
    sim_open.__name__ = 'open'
    io.open = sim_open
    builtins.open = sim_open

    import random       # noqa
    import tempfile
    REAL['name_sequence'] = tempfile._RandomNameSequence

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            w = on()
            if w is None:
                self.real = getattr(self, 'real', None) or REAL['name_sequence']()
                return next(self.real)
            return w.temp_name()
    tempfile._name_sequence = Names()
    REAL['gettempdir'] = tempfile.gettempdir

    def gettempdir():
        w = on()
        if w is None:
            return REAL['gettempdir']()
        return os.path.join(w.root, 'tmp')
    tempfile._gettempdir = gettempdir
    tempfile.gettempdir = gettempdir

    def unraisable(u):
        if isinstance(u.exc_value, (SimCrash, SimAbort)):
            return
        w = ACTIVE
        if w is not None:
            w.unraisable.append('%s: %s' % (type(u.exc_value).__name__, u.exc_value))
            return
        sys.__unraisablehook__(u)
    sys.unraisablehook = unraisable


# ------------------------------------------------------------------------------------------------------- map manager

class ManProxy:
    """Stands for gitdb's global map manager: every simulated process has its own."""

    def __init__(self, orig):
        self.__dict__['_orig'] = orig
        self.__dict__['_cls'] = type(orig)

    def _man(self):
        w = ACTIVE
        if w is None:
            return self._orig
        proc = w.cur.proc
        m = w.mans.get(proc)
        if m is None:
            p = w.paused
            w.paused = 1
            try:
                m = w.mans[proc] = self._cls(**(w.man_args or {}))
            finally:
                w.paused = p
        return m

    def __getattr__(self, name):
        return getattr(self._man(), name)

    def __setattr__(self, name, value):
        setattr(self._man(), name, value)


GITDB_DIR = None


def load_gitdb():
    """import gitdb through the seam"""
    global GITDB_DIR
    install()
    import gitdb
    import gitdb.db
    import gitdb.util
    import gitdb.pack
    import gitdb.stream
    import gitdb.fun      # noqa
    repo = os.environ.get('GITDB_REPO', '/repo')
    GITDB_DIR = os.path.dirname(os.path.abspath(gitdb.__file__))
    if os.path.realpath(GITDB_DIR) != os.path.realpath(os.path.join(repo, 'gitdb')):
        raise HarnessError("gitdb imported from %s instead of %s" % (GITDB_DIR, repo))
    import smmap
    bases = tuple(getattr(smmap, n) for n in ('StaticWindowMapManager', 'SlidingWindowMapManager') if hasattr(smmap, n))
    proxies = {}
    for name, mod in list(sys.modules.items()):
        if name == 'gitdb' or name.startswith('gitdb.'):
            for attr, val in list(vars(mod).items()):
                if isinstance(val, bases):
                    p = proxies.setdefault(id(val), ManProxy(val))
                    setattr(mod, attr, p)
    global GLOBALS
    GLOBALS = Globals()
    return gitdb


# ----------------------------------------------------------------------------------------------------- global variables

class Globals:
    """The module and class level variables of gitdb: every run starts with those of a fresh import, and every simulated
    process has its own (their values only get swapped once a run was found to change any)."""
    KNOBS = ('stream_chunk_size', 'chunk_size', '_sort_interval')

    def __init__(self):
        self.used = False
        self.spaces = []        # namespaces: modules and classes
        self.boxes = []         # mutable containers found in them
        self.caches = []
        seen = set()
        for name, mod in sorted(sys.modules.items()):
            if (name == 'gitdb' or name.startswith('gitdb.')) and not name.startswith('gitdb.test') and mod is not None:
                self._space(mod, seen)
        self.base = self.capture()

    def _space(self, o, seen):
        if id(o) in seen:
            return
        seen.add(id(o))
        self.spaces.append(o)
        for k, v in list(vars(o).items()):
            if k.startswith('__') and k.endswith('__'):
                continue
            self._value(v, seen)

    def _value(self, v, seen):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, type):
            if (v.__module__ or '').split('.')[0] == 'gitdb':
                self._space(v, seen)
        elif hasattr(v, 'cache_clear') and callable(v.cache_clear):
            self.caches.append(v)
        elif hasattr(v, '__defaults__'):
            for d in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                self._value(d, seen)
        elif isinstance(v, (dict, list, set, bytearray)) or (hasattr(v, 'clear') and hasattr(v, 'update')) and not isinstance(v, ManProxy):
            if id(v) not in seen:
                seen.add(id(v))
                self.boxes.append(v)
        elif (type(v).__module__ or '').split('.')[0] == 'gitdb' and hasattr(v, '__dict__') and id(v) not in seen:
            seen.add(id(v))
            self.boxes.append(v.__dict__)

    def capture(self):
        return [dict(vars(o)) for o in self.spaces], [(type(b) if isinstance(b, (list, set, bytearray)) else dict)(b) for b in self.boxes]

    def load(self, state):
        """:return: True if anything was different"""
        diff = False
        for o, want in zip(self.spaces, state[0]):
            have = vars(o)
            for k in [k for k in have if k not in want]:
                if not k.startswith('__'):
                    delattr(o, k)
                    diff = True
            for k, v in want.items():
                if have.get(k, self) is not v and k not in self.KNOBS and not k.startswith('__'):
                    setattr(o, k, v)
                    diff = True
        for b, want in zip(self.boxes, state[1]):
            if isinstance(b, (list, bytearray)):
                if len(b) != len(want) or any(x is not y for x, y in zip(b, want)):
                    b[:] = want
                    diff = True
            elif len(b) != len(want) or (isinstance(b, set) and b != want) or (not isinstance(b, set) and any(b.get(k, self) is not v for k, v in want.items())):
                b.clear()
                b.update(want)
                diff = True
        for c in self.caches:
            if c.cache_info().currsize:
                c.cache_clear()
                diff = True
        return diff


GLOBALS = None


# ------------------------------------------------------------------------------------------------------- bytecode points

_instrumented = {}
_keep = []


def _on_instruction(code, offset):
    w = ACTIVE
    if w is None or not w.multi or w.opcodes is None or w.paused or id(code) not in w.opcodes:
        return
    if real_ident() != w.cur.ident or w.cur.dead:
        return
    w.yield_point('op')


def _codes(mod):
    seen = {}

    def walk(co):
        if id(co) not in seen:
            seen[id(co)] = co
            for c in co.co_consts:
                if hasattr(c, 'co_code'):
                    walk(c)
    for v in list(vars(mod).values()):
        fs = [v]
        if isinstance(v, type):
            fs = [getattr(x, '__func__', getattr(x, 'fget', x)) for x in vars(v).values()]
        for f in fs:
            co = getattr(f, '__code__', None)
            if co is not None and co.co_filename == getattr(mod, '__file__', None):
                walk(co)
    return list(seen.values())


def instrument(tf):
    """every bytecode of the gitdb functions chosen by tf(file, name) becomes a scheduling point.

    The instrumentation stays for the life of the process (it does nothing outside of runs that want it): changing it
    while another thread is inside such a function crashes CPython 3.12."""
    key = tf
    if key in _instrumented:
        return _instrumented[key]
    mon = sys.monitoring
    if not _instrumented:
        mon.use_tool_id(4, 'gitdbsim')
        mon.register_callback(4, mon.events.INSTRUCTION, _on_instruction)
    out = []
    for name, mod in sorted(sys.modules.items()):
        f = getattr(mod, '__file__', None)
        if (name == 'gitdb' or name.startswith('gitdb.')) and f and f.startswith(GITDB_DIR):
            for co in _codes(mod):
                if tf(f[len(GITDB_DIR) + 1:], co.co_qualname):
                    out.append(co)
    for co in out:
        mon.set_local_events(4, co, mon.events.INSTRUCTION)
    _keep.extend(out)
    _instrumented[key] = r = frozenset(id(co) for co in out)
    return r


# ------------------------------------------------------------------------------------------------------------- world

class Actor:
    def __init__(self, name, proc, index=0):
        self.name = name
        self.proc = proc
        self.index = index      # number of the thread within its process
        self.ident = None
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.dead = False
        self.blocked = False
        self.op = -1
        self.exc = None


ERR = {n: getattr(errno, n) for n in ('EIO', 'ENOSPC', 'EMFILE', 'EACCES', 'EPERM', 'ENOMEM', 'EDQUOT', 'EROFS', 'EINTR',
                                      'ENFILE', 'EBUSY', 'EXDEV', 'ENOENT', 'ESTALE')}


class World:
    MAX_CALLS = 300000
    MAX_ZIP = 100000

    def __init__(self, root, plan):
        cfg = plan.get('cfg', {})
        self.root = root                    # absolute scratch directory; it is the cwd
        self.rootp = root + '/'
        self.plan = plan
        self.cfg = cfg
        self.paused = 0
        self.multi = False
        self.opcodes = None
        self.yield_sys = True
        self.yield_after = False
        self.main = Actor('main', 0)
        self.main.ident = real_ident()
        self.cur = self.main
        self.actors = []
        self.fdpath = {}
        self.fdproc = {}
        self.outer = set()
        self.strict_close = True
        self.badclose = 0
        self.mans = {}
        self.gstate = {}
        self.man_args = cfg.get('man')
        self.dead_procs = set()
        self.unraisable = []
        self.now_ns = 1700000000 * 10 ** 9 + cfg.get('t0', 0) * 1000
        self.t_start = self.now_ns
        self.slept_ns = 0
        self.tick_ns = cfg.get('tick', 50000)
        self.ncalls = 0
        self.nzip = 0
        self.nswitch = 0
        self.npoints = 0
        self.cnt = {}
        self.trace = []                     # (op, cls, k, name, rel, size)
        self.fired = {}
        self.probes = {}
        self.events = []
        self.ev_hash = hashlib.sha1()
        self.hooks = []                     # called after each mutating call
        self.capacity = None
        self.ncand = 0
        self.taken = set()
        self.foreign = set()
        self.escapes = []
        self.env = [dict(e) for e in cfg.get('env', ())]
        self.faults = {}
        self.sched_left = 0
        self.sched = list(plan.get('sched', ()))
        self.sched_i = 0
        self.sched_sig = hashlib.sha1()
        self.abort = None
        self.dirorder = cfg.get('dirorder', 0)
        import random
        self._rand = random.Random(cfg.get('nseed', 1))
        self._names = random.Random(cfg.get('nseed', 1) + 1)
        self._name_space = cfg.get('names', 10 ** 9)
        for f in plan.get('faults', ()):
            self.add_fault(f)

    # ------------------------------------------------------------------ bookkeeping
    def add_fault(self, f):
        self.faults.setdefault((f['op'], f['cls']), []).append(f)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    def log(self, *what):
        s = repr(what)
        if len(self.events) < 4000:
            self.events.append(s)
        self.ev_hash.update(s.encode())

    def rand_bytes(self, n):
        return bytes(self._rand.getrandbits(8) for _ in range(n))

    def pid(self):
        # in containers of their own all processes have the same
        return 7 if self.cfg.get('pidns') else 10000 + self.cur.proc

    def temp_name(self):
        v = self._names.randrange(self._name_space)
        al = 'abcdefghijklmnopqrstuvwxyz0123456789_'
        out = ''
        for _ in range(8):
            v, r = divmod(v, 37)
            out += al[r]
        c = self.cfg.get('collide')
        if c:
            self.ncand += 1
            if self.ncand % c == 0:
                self.taken.add(out)
        return out

    def collide(self, p, rel):
        """another process, which came upon the same temporary name, is faster"""
        b = os.path.basename(rel)
        for c in self.taken:
            if c in b:
                self.taken.discard(c)
                try:
                    fd = REAL['open'](p, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o600)
                except OSError:
                    return
                REAL['write'](fd, b'not yours')
                REAL['close'](fd)
                self.foreign.add(rel)
                self.fire('name-taken')
                return

    def tick(self, ns=None):
        self.now_ns += self.tick_ns if ns is None else ns

    def jump_clock(self, ns):
        self.now_ns += ns
        self.fire('clock_jump')

    def sleep(self, s):
        self.slept_ns += int(s * 1e9)
        self.now_ns += max(0, int(s * 1e9))
        self.ncalls += 1
        if self.ncalls > self.MAX_CALLS:
            raise SimHang()
        self.log(self.cur.name, 'sleep', round(s, 6))
        if self.cur.dead:
            raise SimCrash()
        if self.multi:
            self.yield_point('sleep')

    def rel(self, path):
        """:return: normalised path relative to the scratch root, or None if outside"""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p.startswith('/'):
            p = os.path.normpath(p)
            if p == CWD or p == self.root:
                return '.'
            if p.startswith(CWD + '/'):
                return p[len(CWD) + 1:]
            if not p.startswith(self.rootp):
                return None
            return p[len(self.rootp):]
        p = os.path.normpath(p)
        if p == '..' or p.startswith('../'):
            return None
        return p

    def pause(self):
        return _Pause(self)

    # ------------------------------------------------------------------ clocked disk changes (harness side and real side)
    def stamp(self, rel):
        try:
            REAL['utime'](rel, ns=(self.now_ns, self.now_ns))
        except OSError:
            pass

    def stamp_parent(self, rel):
        self.stamp(os.path.dirname(rel) or '.')

    def put(self, rel, data, mode=0o444):
        """foreign process writes a file (atomically, new inode)

        :param data: bytes, or a list of (offset, bytes) for a file with holes"""
        with self.pause():
            self.tick()
            os.makedirs(os.path.dirname(rel), exist_ok=True)
            tmp = 'tmp/.foreign'
            fd = REAL['open'](tmp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, mode)
            try:
                for ofs, part in data if isinstance(data, list) else ((0, data),):
                    v = memoryview(part)
                    os.lseek(fd, ofs, os.SEEK_SET)
                    while v:
                        n = REAL['write'](fd, v)
                        v = v[n:]
            finally:
                REAL['close'](fd)
            REAL['chmod'](tmp, mode)
            REAL['rename'](tmp, rel)
            self.stamp(rel)
            self.stamp_parent(rel)

    def patch(self, rel, data):
        """the bytes of an existing file change in place, behind everybody's back"""
        with self.pause():
            mode = os.stat(rel).st_mode & 0o777
            REAL['chmod'](rel, 0o600)
            fd = REAL['open'](rel, os.O_WRONLY)
            try:
                if os.fstat(fd).st_size != len(data):
                    raise HarnessError('patch must keep the size')
                pos = 0
                while pos < len(data):
                    pos += REAL['pwrite'](fd, data[pos:], pos)
            finally:
                REAL['close'](fd)
            REAL['chmod'](rel, mode)

    def delete(self, rel):
        with self.pause():
            self.tick()
            REAL['unlink'](rel)
            self.stamp_parent(rel)

    def mkdirs(self, rel):
        with self.pause():
            self.tick()
            os.makedirs(rel, exist_ok=True)
            self.stamp(rel)
            self.stamp_parent(rel)

    def get(self, rel):
        with self.pause():
            with REAL['io.open'](rel, 'rb') as f:
                return f.read()

    def tree(self, rel):
        """:return: sorted list of files below rel"""
        out = []
        with self.pause():
            for root, dirs, files in os.walk(rel):
                dirs.sort()
                for f in files:
                    out.append(os.path.normpath(os.path.join(root, f)))
        return sorted(out)

    # ------------------------------------------------------------------ faults
    def _match(self, act, cls, k, rel=''):
        r = None
        fl = self.faults.get((act.op, cls))
        if fl:
            for f in fl:
                if f['k'] <= k < f['k'] + f.get('times', 1) and ('notin' not in f or f['notin'] not in rel):
                    r = f
                    break
        if r is None and self.env:
            for e in self.env:
                if e['cls'] == cls and ('proc' not in e or e['proc'] == act.proc) and ('notin' not in e or e['notin'] not in rel) and ('in' not in e or e['in'] in rel):
                    n = e.get('_n', 0)
                    e['_n'] = n + 1
                    if e.get('off', 0) <= n < e.get('end', 1 << 60) and (n - e.get('off', 0)) % e.get('every', 1) == 0:
                        return e
        return r

    def _count(self, act, cls):
        key = (act.op, cls)
        k = self.cnt.get(key, 0)
        self.cnt[key] = k + 1
        return k

    def _err(self, f, cls, rel):
        n = f.get('errno', 'EIO')
        self.fire('%s:%s' % (cls, n))
        self.log(self.cur.name, 'FAULT', cls, n)
        if n == 'INTR':
            raise SimIntr()
        if n == 'NOMEM':
            raise MemoryError()
        e = ERR[n]
        raise OSError(e, os.strerror(e), rel)

    def crash(self, act, what):
        self.fire('crash:' + what)
        self.log(act.name, 'CRASH', what)
        self.kill(act.proc)
        raise SimCrash()

    def kill(self, proc):
        for a in self.actors + [self.main]:
            if a.proc == proc:
                a.dead = True
        self.dead_procs.add(proc)
        for fd in [fd for fd, p in self.fdproc.items() if p == proc]:
            del self.fdproc[fd]
            del self.fdpath[fd]
            try:
                REAL['close'](fd)
            except OSError:
                pass
        self.mans.pop(proc, None)

    def restart(self, proc):
        """the main actor continues as a new process"""
        self.main.dead = False
        self.swap(self.main.proc, proc)
        self.main.proc = proc
        self.log('restart', proc)

    def swap(self, old, new):
        """the global variables of process new replace those of process old"""
        if old != new and GLOBALS.used:
            self.gstate[old] = GLOBALS.capture()
            GLOBALS.load(self.gstate.get(new) or GLOBALS.base)

    # ------------------------------------------------------------------ calls
    def mmap_call(self, fileno, length):
        act = self.cur
        if act.dead:
            raise SimCrash()
        cls = 'mmapa' if fileno == -1 else 'mmapf'
        rel = self.fdpath.get(fileno, '') if fileno != -1 else ''
        self.ncalls += 1
        self.tick()
        if self.multi and self.yield_sys:
            self.yield_point('mmap')
            if act.dead:
                raise SimCrash()
        k = self._count(act, cls)
        self.trace.append((act.op, cls, k, 'mmap', rel, length))
        self.log(act.name, 'mmap', rel, length)
        f = self._match(act, cls, k, rel or '')
        if f is not None:
            if f.get('do') == 'call':
                return self.call(f)
            self._err(f, cls, rel)

    def alloc_call(self, what, late=False):
        """an allocation which may fail
        :return: the fault, if it is to hit after the call was made"""
        act = self.cur
        if act.dead:
            raise SimCrash()
        k = self._count(act, 'alloc')
        self.trace.append((act.op, 'alloc', k, what, None, 0))
        f = self._match(act, 'alloc', k)
        if f is not None:
            if late and f.get('late'):
                return f
            self._err(f, 'alloc', None)

    midcall = None

    def call(self, f):
        """somebody else acts right before this call"""
        if self.midcall is not None:
            self.fire('midcall')
            self.log('MIDCALL', f['cls'], f['k'])
            self.paused += 1
            try:
                self.midcall(f)
            finally:
                self.paused -= 1

    def syscall(self, name, spec, real, a, k):
        act = self.cur
        if act.dead:
            raise SimCrash()
        kind, cls, mut = spec
        rel = rel2 = None
        # -- is it ours?
        if kind == 'fd' or kind == 'fd2':
            fd = a[0] if a else None
            if name == 'dup':
                r = real(*a, **k)
                if fd in self.fdpath:
                    self.fdpath[r] = self.fdpath[fd]
                    self.fdproc[r] = act.proc
                return r
            rel = self.fdpath.get(fd)
            if rel is None and kind == 'fd2':
                rel = self.fdpath.get(a[1]) if len(a) > 1 else None
            if rel is None:
                if name == 'close' and fd not in self.outer and self.strict_close:
                    # closed twice (or never opened): the number may belong to somebody else by now
                    self.badclose += 1
                    self.log(act.name, 'BADCLOSE')
                    raise OSError(errno.EBADF, os.strerror(errno.EBADF))
                self.outer.discard(fd)
                return real(*a, **k)
            if self.fdproc.get(fd) is not None and self.fdproc[fd] != act.proc and kind == 'fd':
                # a descriptor number of another process: does not exist here
                raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        else:
            if a:
                p = a[0]
            elif kind == 'path2':
                p = k.get('src')
            else:
                p = k.get('path', '.')
            if isinstance(p, int):
                rel = self.fdpath.get(p)
                if rel is None:
                    return real(*a, **k)
            else:
                rel = self.rel(p)
            if kind == 'path2':
                rel2 = self.rel(a[1] if len(a) > 1 else k.get('dst'))
            if kind == 'open':
                flags = a[1] if len(a) > 1 else k.get('flags', 0)
                if flags & os.O_CREAT:
                    cls, mut = 'creat', True
                elif flags & os.O_TRUNC:
                    mut = True
                writes = mut or flags & (os.O_WRONLY | os.O_RDWR)
            else:
                writes = mut
            if rel is None or (kind == 'path2' and rel2 is None):
                if writes:
                    self.escapes.append((name, repr(a[:2])))
                    raise PermissionError(errno.EACCES, "outside of the simulated disk", repr(a[:1]))
                r = real(*a, **k)
                if kind == 'open':
                    self.outer.add(r)
                return r
        # -- time, schedule
        self.ncalls += 1
        if self.ncalls > self.MAX_CALLS:
            raise SimHang()
        self.now_ns += self.tick_ns
        if self.multi and self.yield_sys:
            self.yield_point(name)
            if act.dead:
                raise SimCrash()
        if self.taken and cls == 'creat' and flags & os.O_EXCL:
            self.collide(a[0], rel)
        kc = self._count(act, cls)
        size = 0
        if cls == 'write' and name in ('write', 'pwrite'):
            size = len(a[1])
        self.trace.append((act.op, cls, kc, name, rel, size))
        f = self._match(act, cls, kc, rel or '')
        crash = None
        if mut or cls in ('close', 'chmod'):
            km = self._count(act, 'mut')
            self.trace.append((act.op, 'mut', km, name, rel, size))
            crash = self._match(act, 'mut', km)
        if crash is not None and crash.get('mode', 'before') == 'before':
            self.crash(act, 'before-' + name)
        if crash is not None and crash['mode'] == 'torn' and name == 'write':
            n = int(len(a[1]) * crash.get('frac', 0.5))
            if n:
                real(a[0], memoryview(a[1])[:n])
            self._after(act, name, kind, rel, rel2, mut)
            self.crash(act, 'torn-write')
        # -- faults
        if f is not None:
            do = f.get('do', 'err')
            if do == 'call':
                self.call(f)
            elif do == 'err':
                if cls == 'close':
                    # the descriptor is gone, the error is reported
                    self.fdpath.pop(a[0], None)
                    self.fdproc.pop(a[0], None)
                    real(*a, **k)
                if name == 'open' and f.get('noatime'):
                    if flags & getattr(os, 'O_NOATIME', 0):
                        self._err(f, cls, rel)
                else:
                    if cls == 'write' and f.get('frac') and size:
                        n = int(size * f['frac'])
                        if n:
                            real(a[0], memoryview(a[1])[:n])
                            self._after(act, name, kind, rel, rel2, mut)
                    if name == 'access':
                        # (this one never raises)
                        try:
                            self._err(f, cls, rel)
                        except OSError:
                            return False
                    self._err(f, cls, rel)
            elif do == 'short':
                if name == 'write' and size > 0:
                    n = min(size, int(size * f.get('frac', 0.5)))
                    if f.get('n') is not None:
                        n = min(size, f['n'])
                    if n < size:
                        self.fire('write:short')
                        self.log(act.name, 'FAULT', 'short', n)
                        a = (a[0], memoryview(a[1])[:n])
                elif name == 'read' and len(a) > 1 and a[1] > 1:
                    n = max(1, int(a[1] * f.get('frac', 0.5)))
                    if f.get('n') is not None:
                        n = max(1, min(a[1], f['n']))
                    if n < a[1]:
                        self.fire('read:short')
                        self.log(act.name, 'FAULT', 'shortread', n)
                        a = (a[0], n)
            elif do == 'fake':
                # the call claims success but has no effect (used for nothing by default)
                self.fire('%s:lost' % cls)
                return None
        if self.capacity is not None and name == 'write' and rel is not None:
            if len(a[1]) > self.capacity:
                if self.capacity <= 0:
                    self._err({'errno': 'ENOSPC'}, 'write-cap', rel)
                self.fire('write-cap:short')
                a = (a[0], memoryview(a[1])[:self.capacity])
            self.capacity -= len(a[1])
        # -- the call
        try:
            r = real(*a, **k)
        except OSError as e:
            self.log(act.name, name, rel, rel2, 'E%s' % e.errno)
            raise
        if kind == 'open':
            self.fdpath[r] = rel
            self.fdproc[r] = act.proc
            if mut:
                # exact for O_EXCL; otherwise harmless
                self._after(act, name, kind, rel, rel2, True)
            self.log(act.name, 'open', rel, flags & ~getattr(os, 'O_CLOEXEC', 0))
        else:
            if name == 'close':
                self.fdpath.pop(a[0], None)
                self.fdproc.pop(a[0], None)
            if mut:
                self._after(act, name, kind, rel, rel2, mut)
            if cls == 'scan':
                r = self._scan(name, r)
            self.log(act.name, name, rel, rel2, r if isinstance(r, int) else None)
        if crash is not None:
            self.crash(act, 'after-' + name)
        if self.multi and self.yield_after:
            self.yield_point(name)
            if act.dead:
                raise SimCrash()
        return r

    def _scan(self, name, r):
        if name == 'scandir':
            l = list(r)
            r.close()
            key = lambda e: e.name
        else:
            l = r
            key = lambda e: e
        l.sort(key=key)
        o = self.dirorder
        if o == 1:
            l.reverse()
        elif o > 1:
            def hk(e):
                n = key(e)
                if isinstance(n, str):
                    n = n.encode('utf8', 'surrogateescape')
                return hashlib.md5(b'%d' % o + n).digest()
            l.sort(key=hk)
        return _Scan(l) if name == 'scandir' else l

    def _after(self, act, name, kind, rel, rel2, mut):
        """stamp times from the simulated clock, tell observers"""
        if name in ('write', 'pwrite', 'writev', 'ftruncate', 'truncate'):
            self.stamp(rel)
        elif name in ('rename', 'replace', 'link', 'symlink'):
            self.stamp_parent(rel)
            if rel2:
                self.stamp_parent(rel2)
        elif name in ('open', 'unlink', 'remove', 'rmdir', 'mkdir'):
            self.stamp_parent(rel)
            if name in ('open', 'mkdir'):
                self.stamp(rel)
        if self.hooks:
            self.paused += 1
            try:
                for h in self.hooks:
                    h(name, rel, rel2)
            finally:
                self.paused -= 1

    # ------------------------------------------------------------------ actors
    def run_actors(self, specs):
        """:param specs: list of (name, proc, fn, trace_filter or None); run them to completion under the schedule"""
        assert not self.multi
        self.actors = []
        self._main_lock = _thread.allocate_lock()
        self._main_lock.acquire()
        started = _thread.allocate_lock()
        started.acquire()
        fin = _thread.allocate_lock()       # threads stay until all are through
        fin.acquire()
        tf = [s[3] for s in specs if s[3] is not None]
        self.opcodes = instrument(tf[0]) if tf else None
        for name, proc, fn, tf in specs:
            act = Actor(name, proc, len([a for a in self.actors + [self.main] if a.proc == proc]))
            self.actors.append(act)

            def body(act=act, fn=fn, tf=tf):
                act.ident = real_ident()
                started.release()
                act.lock.acquire()
                try:
                    if self.abort is None:
                        fn(act)
                except SimCrash as e:
                    e.__traceback__ = None
                except SimAbort:
                    pass
                except BaseException as e:
                    act.exc = e
                    if self.abort is None:
                        self.abort = act
                fn = None
                act.done = True
                self._finish(act)
                fin.acquire()
                fin.release()
            _thread.start_new_thread(body, ())
            started.acquire()
        self.multi = True
        self.sched_i = 0
        self.sched_left = 0
        first = self._pick(None)
        self.swap(self.main.proc, first.proc)
        self.cur = first
        first.lock.release()
        self._main_lock.acquire()
        self.swap(self.cur.proc, self.main.proc)
        self.cur = self.main
        self.multi = False
        before = _thread._count()
        fin.release()
        while _thread._count() > before - len(specs):
            REAL['sleep'](0.0002)
        self.opcodes = None
        acts = self.actors
        if self.abort is not None:
            if isinstance(self.abort, Actor):
                raise self.abort.exc
            raise self.abort
        return acts

    def _runnable(self):
        return [a for a in self.actors if not a.done and not a.blocked]

    def _pick(self, cur):
        """next actor according to the plan; None if nobody can run"""
        r = self._runnable()
        if not r:
            return None
        if self.sched_i < len(self.sched):
            n, j = self.sched[self.sched_i]
            self.sched_i += 1
            self.sched_left = n
            a = r[j % len(r)]
        else:
            self.sched_left = 1 << 60
            a = cur if cur in r else r[0]
        self.sched_sig.update(b'%d:%d,' % (self.npoints, self.actors.index(a)))
        return a

    def yield_point(self, what):
        self.npoints += 1
        if self.abort is not None:
            raise SimAbort()
        if self.sched_left > 0:
            self.sched_left -= 1
            return
        act = self.cur
        nxt = self._pick(act)
        self._switch(act, nxt)

    def block_point(self):
        """the current actor waits until somebody releases a lock"""
        act = self.cur
        if self.abort is not None:
            raise SimAbort()
        self.npoints += 1
        act.blocked = True
        nxt = self._pick(act)
        if nxt is None:
            act.blocked = False
            raise Violation('deadlock', 'all threads wait for a lock')
        self._switch(act, nxt)

    def _switch(self, act, nxt):
        if nxt is act or nxt is None:
            return
        self.nswitch += 1
        self.log('switch', nxt.name)
        self.swap(self.cur.proc, nxt.proc)
        self.cur = nxt
        nxt.lock.release()
        act.lock.acquire()
        if self.abort is not None:
            raise SimAbort()

    def _finish(self, act):
        if self.abort is not None:
            # unwind everybody
            for a in self.actors:
                if not a.done:
                    self.swap(self.cur.proc, a.proc)
                    self.cur = a
                    a.lock.release()
                    return
            self._main_lock.release()
            return
        nxt = self._pick(None)
        if nxt is None:
            left = [a for a in self.actors if not a.done]
            if left:
                self.abort = Violation('deadlock', '%s waits for a lock nobody will release' % left[0].name)
                self.swap(self.cur.proc, left[0].proc)
                self.cur = left[0]
                left[0].lock.release()
            else:
                self._main_lock.release()
            return
        self.log('switch', nxt.name)
        self.swap(self.cur.proc, nxt.proc)
        self.cur = nxt
        nxt.lock.release()

    # ------------------------------------------------------------------ activation
    def activate(self):
        global ACTIVE
        ACTIVE = self

    def deactivate(self):
        global ACTIVE
        ACTIVE = None

    def digest(self):
        return self.ev_hash.hexdigest()


class _Pause:
    __slots__ = ('w',)

    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.w.paused += 1

    def __exit__(self, *a):
        self.w.paused -= 1
