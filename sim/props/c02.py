"""C02: a store that fails publishes nothing partial and leaks nothing."""
from ..lib import *
from .. import lib

RUNS = {'quick': 1031, 'thorough': 12000}
RULE = ("a run is a history (3-10 operations) of stores and raw stores on a loose or git database, executed fault-free and then up to five times with one to three "
        "faults at system calls of the stores (errors, short writes, disk capacity) or in the source stream; non-trivial: a store failed or a short write, "
        "capacity limit or refused chmod was survived; distinct by the log of all simulated calls")

CLASSES = ('creat', 'write', 'write', 'write', 'close', 'rename', 'mkdir', 'chmod', 'unlink', 'open', 'fsync', 'alloc')


class Interrupt(BaseException):
    pass


def gen(rng, tier):
    cfg = {'target': rng.choice(('loose', 'git')), 'nseed': rng.randrange(1 << 30)}
    kn = {}
    if rng.random() < .7:
        kn['chunk'] = rng.choice((16, 64, 511, 512, 4096, 10000))
    cfg['knobs'] = kn
    ops = []
    nst = 0
    for i in range(rng.randrange(3, 11)):
        c = rng.random()
        r = F.recipe(rng)
        if kn.get('chunk', 1000) < 512:
            r['n'] = min(r['n'], 5000)
        elif rng.random() < .08:
            # large enough to be written in several pieces
            r = {'k': 'rand', 'n': rng.choice((30000, 70000, 150000)), 's': rng.randrange(99)}
        src = gen_src(rng, r['n'])
        if r['n'] > 20000:
            src = {'mode': 'full'}
        if rng.random() < .25:
            src = {'mode': rng.choice(('err', 'eof', 'intr')), 'p': rng.choice((0, r['n'] // 2, max(0, r['n'] - 1), r['n'])), 's': rng.randrange(1 << 16)}
        if nst == 0 or c < .55:
            ops.append({'op': 'store', 'type': rng.choice(F.TYPES), 'c': r, 'src': src})
            nst += 1
        elif c < .72:
            if src['mode'] == 'eof':
                src['mode'] = 'err'     # a raw source has no declared length
            ops.append({'op': 'raw', 'type': rng.choice(F.TYPES), 'c': r, 'enc': F.encoding(rng, r['n']), 'src': src})
            nst += 1
        elif c < .8:
            ops.append({'op': 'again', 'i': rng.randrange(nst), 'src': src})
        elif c < .86:
            ops.append({'op': 'redirect', 'type': rng.choice(F.TYPES), 'c': r, 'src': src})
        elif c < .93:
            ops.append({'op': 'cap', 'n': rng.choice((0, 1, 2, 10, 30, 100, 1000, 10000))})
        elif c < .96:
            ops.append({'op': 'nocap'})
        else:
            ops.append({'op': 'reopen'})
        if ops[-1]['op'] in ('store', 'raw', 'again'):
            ops[-1]['retry'] = rng.random() < .6
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 5:
        return None
    out = []
    if rng.random() < .15:
        # a large piece is written in several goes, or not to the end
        big = [t for t in trace if t[0] >= 0 and t[1] == 'write' and t[5] > 3000]
        if big:
            t = rng.choice(big)
            out.append({'op': t[0], 'cls': 'write', 'k': t[2], 'do': 'short', 'times': rng.choice((1, 2, 2, 3))})
            if rng.random() < .3:
                out[0]['n'] = rng.choice((0, 1, 1000))
            else:
                out[0]['frac'] = rng.choice((.1, .5, .9, .99))
            return out
    for _ in range(rng.choice((1, 1, 1, 2, 2, 3))):
        cl = rng.choice(CLASSES)
        f = pick_fault(rng, trace, (cl,)) or pick_fault(rng, trace, CLASSES)
        if f:
            out.append(f)
    return interrupts(rng, out) or None


class ISource(Source):
    def read(self, n=-1):
        if self.mode == 'intr':
            self.mode = 'err'
            try:
                return Source.read(self, n)
            except self.exc:
                raise Interrupt() from None
            finally:
                self.mode = 'intr'
        return Source.read(self, n)


def opendb(t):
    return gdb.LooseObjectDB(OBJ) if t == 'loose' else gdb.GitDB(OBJ)


def execute(w, plan):
    target = plan['cfg'].get('target', 'loose')
    w.mkdirs(OBJ)
    db = opendb(target)
    model = {}
    order = []

    def stat():
        with w.pause():
            return nfds()

    def unlink_failed():
        return sum(v for k, v in w.fired.items() if k.startswith('unlink'))

    garbage = set()

    def audit(where, new=None, must=False, uf=0):
        objs, other = audit_loose(w)
        for s in model:
            if objs.get(s) != model[s]:
                fail('harmed', '%s: earlier object %s is gone or changed' % (where, hx(s)))
        extra = set(objs) - set(model)
        if extra - ({new} if new else set()):
            fail('wrong-object', '%s: objects nobody stored: %s' % (where, sorted(map(hx, extra))))
        left = set(other) - garbage
        if left:
            if unlink_failed() > uf:
                garbage.update(left)
            else:
                fail('temp-left', '%s: leaves %s' % (where, sorted(left)))
        if must and new not in objs:
            fail('not-stored', '%s: returned normally, but there is no object %s' % (where, hx(new)))
        return new in objs

    def store(op, t, d, s, raw, src, faulted=True):
        """:return: True if stored"""
        z = F.loose_bytes(t, d, op.get('enc')) if raw else d
        st = ISource(z, src['mode'], src.get('p', 0), src.get('s', 0), reuse=src.get('reuse')) if src['mode'] != 'full' else BytesIO(z)
        ist = IStream(otype(t, len(d)), len(d), st, s if raw else None)
        fds = stat()
        uf = unlink_failed()
        slept = w.slept_ns
        try:
            ok, r = attempt(db.store, ist)
        except Interrupt as e:
            e.__traceback__ = None
            ok, r = False, None
        where = '%s of %s %s (%s)' % ('raw store' if raw else 'store', t, short(d, 10), 'ok' if ok else repr(r))
        if stat() != fds:
            fail('fd-leak', '%s: %d descriptors open, %d before' % (where, stat(), fds))
        if w.slept_ns - slept > 5e9:
            fail('slow', '%s: slept %.1f s' % (where, (w.slept_ns - slept) / 1e9))
        if ok:
            if r is not ist or ist.binsha != s:
                fail('store-sha', '%s: id %r instead of %s' % (where, ist.binsha, hx(s)))
            if src['mode'] in ('err', 'eof', 'intr') and src.get('p', 0) < len(z):
                fail('short-source', '%s: the source provided %d of %d bytes' % (where, src['p'], len(z)))
        elif ist.binsha != (s if raw else None):
            fail('binsha', '%s: failed, but the id of the input stream became %r' % (where, ist.binsha))
        if audit(where, s, ok, uf):
            if s not in model:
                order.append(s)
            model[s] = (t, d)
        w.probe('stored' if ok else 'failed')
        return ok

    for op in plan['ops']:
        w.cur.op = op['id']
        k = op['op']
        if k in ('store', 'raw', 'again'):
            if k == 'again':
                if not order:
                    continue
                s = order[op['i'] % len(order)]
                t, d = model[s]
            else:
                t, d = op['type'], F.content(op['c'])
                s = F.sha(t, d)
            nfired = sum(w.fired.values())
            bad_src = op['src']['mode'] in ('err', 'eof', 'intr')
            ok = store(op, t, d, s, k == 'raw', op['src'])
            if not ok and not bad_src and sum(w.fired.values()) == nfired:
                fail('spurious', 'store failed although nothing went wrong')
            if not ok and op.get('retry'):
                w.cur.op = -1
                cap, w.capacity = w.capacity, None
                if not store(op, t, d, s, k == 'raw', {'mode': 'full'}):
                    fail('retry', 'repeating the failed store failed again')
                w.capacity = cap
                check_object(db, s, t, d)
                w.probe('retried')
        elif k == 'redirect':
            t, d = op['type'], F.content(op['c'])
            before = w.tree('w')
            db.set_ostream(gstream.Sha1Writer())
            src = op['src']
            ist = IStream(otype(t, len(d)), len(d), ISource(d, src['mode'], src.get('p', 0), src.get('s', 0), reuse=src.get('reuse')) if src['mode'] != 'full' else BytesIO(d))
            try:
                ok, r = attempt(db.store, ist)
            except Interrupt as e:
                e.__traceback__ = None
                ok = False
            db.set_ostream(None)
            if ist.binsha != (F.sha(t, d) if ok else None):
                fail('binsha', 'redirected store %s, but the id is %r' % ('succeeded' if ok else 'failed', ist.binsha))
            if ok and src['mode'] in ('err', 'eof', 'intr') and src.get('p', 0) < len(d):
                fail('short-source', 'redirected store: the source provided %d of %d bytes' % (src['p'], len(d)))
            if w.tree('w') != before:
                fail('redirect-touched', 'redirected store changed the directory')
        elif k == 'cap':
            w.capacity = op['n']
        elif k == 'nocap':
            w.capacity = None
        elif k == 'reopen':
            db = opendb(target)
    w.cur.op = -1
    w.capacity = None
    for d in (db, opendb(target)):
        for s in model:
            check_object(d, s, *model[s])
        if sorted(bytes(x) for x in d.sha_iter()) != sorted(model):
            fail('iter', 'sha_iter does not list the stored objects')
    for p in ('stored', 'failed', 'retried'):
        w.probe(p, 0)


def nontrivial(plan, r):
    return r.probes.get('failed', 0) > 0 or sum(r.fired.values()) > 0
