"""C01: identity and exact content of stored objects."""
from ..lib import *
import hashlib
from .. import lib

RUNS = {'quick': 937, 'thorough': 12000}
RULE = ("a run is a random history (5-25 operations) of stores, raw stores, redirected stores, lookups, enumerations and reopenings on a loose, git or "
        "memory database with random sources, chunk sizes and short system reads; non-trivial: at least two stores succeeded and one lookup ran; "
        "distinct by the log of all simulated calls")

TARGETS = ('loose', 'git', 'git', 'mem', 'loose')


def gen(rng, tier):
    target = rng.choice(TARGETS)
    cfg = {'target': target, 'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4)}
    kn = {}
    if rng.random() < .6:
        kn['chunk'] = rng.choice((1, 7, 64, 511, 512, 4096, 10000))
    cfg['knobs'] = kn
    if rng.random() < .3:
        cfg['env'] = [{'cls': 'mmapf', 'do': 'err', 'errno': 'ENOMEM', 'every': rng.choice((1, 2, 3))}]
        cfg['env'].append({'cls': 'read', 'do': 'short', 'frac': rng.choice((.1, .5, .9)), 'every': rng.choice((1, 2))})
    ops = []
    nst = 0
    small = kn.get('chunk', 10000) < 64
    for i in range(rng.randrange(5, 26)):
        c = rng.random()
        if nst == 0 or c < .4:
            r = F.recipe(rng)
            if small:
                r['n'] = min(r['n'], 20000)
            if tier == 'thorough' and rng.random() < .003 or rng.random() < .001:
                r['n'] = 4096000 + rng.randrange(-2, 70000)
                r['k'] = 'mix'
            src = gen_src(rng, r['n'])
            if r['n'] > 1000000:
                src = {'mode': 'short', 'p': 100000, 's': 1, 'big': 1}
                if kn.get('chunk', 10 ** 6) < 4096:
                    r['n'] = 50000
            ops.append({'op': 'store', 'type': rng.choice(F.TYPES), 'c': r, 'src': src, 'how': rng.choice((None, None, None, 'set', 'more'))})
            nst += 1
        elif c < .45 and nst:
            ops.append({'op': 'again', 'i': rng.randrange(nst), 'src': gen_src(rng, 0)})
        elif c < .52:
            r = F.recipe(rng)
            ops.append({'op': 'raw', 'type': rng.choice(F.TYPES), 'c': r, 'enc': F.encoding(rng, r['n']), 'src': gen_src(rng, r['n'])})
            nst += 1
        elif c < .58 and target != 'mem':
            r = F.recipe(rng)
            ops.append({'op': 'redirect', 'type': rng.choice(F.TYPES), 'c': r, 'w': rng.choice(('sha', 'zip', 'sub', 'flex')), 'src': gen_src(rng, r['n']),
                        'raw': rng.random() < .3, 'known': rng.random() < .3, 'i': rng.randrange(1 << 16)})
        elif c < .6:
            r = F.recipe(rng)
            ops.append({'op': 'write', 'type': rng.choice(F.TYPES), 'c': r, 'src': gen_src(rng, r['n']), 'chunk': rng.choice((0, 500, 4096, 100000))})
        elif c < .8:
            ops.append({'op': 'get', 'i': rng.randrange(nst), 'pat': rng.randrange(len(PATTERNS))})
        elif c < .86:
            ops.append({'op': 'iter'})
        elif c < .9:
            ops.append({'op': 'absent', 's': rng.randrange(1 << 30)})
        elif c < .94:
            ops.append({'op': 'foreign', 'type': rng.choice(F.TYPES), 'c': F.recipe(rng), 'enc': F.encoding(rng, 50)})
            if target == 'mem':
                ops.pop()
            else:
                nst += 1
        else:
            ops.append({'op': 'reopen'})
    if rng.random() < .012:
        # many objects
        for i in range(rng.choice((65, 130, 400))):
            ops.insert(rng.randrange(len(ops) + 1), {'op': 'store', 'type': rng.choice(F.TYPES), 'c': {'k': 'rand', 'n': rng.randrange(6, 40), 's': rng.randrange(1 << 30)}, 'src': {'mode': 'full'},
                                                     'how': rng.choice((None, 'set'))})
        ops += [{'op': 'iter'}, {'op': 'reopen'}, {'op': 'iter'}]
    if target != 'mem' and kn.get('chunk', 10000) >= 4096 and rng.random() < .012:
        # more than any buffer holds
        ops.append({'op': 'giant', 'n': rng.choice(((1 << 22) + 1, 4096000, (1 << 24) - 1, 1 << 25, (1 << 26) + 7, 1 << 27)), 'type': rng.choice(F.TYPES),
                    'most': rng.choice((None, None, 1 << 16, 1000003)), 'm': rng.choice((1 << 20, 4096000, 1 << 25))})
    return {'cfg': cfg, 'ops': ops}


class Counting(gstream.Sha1Writer):
    """a user defined Sha1Writer"""

    def __init__(self):
        super().__init__()
        self.n = 0

    def write(self, data):
        self.n += len(data)
        return super().write(data)


def opendb(target):
    if target == 'loose':
        return gdb.LooseObjectDB(OBJ)
    if target == 'git':
        return gdb.GitDB(OBJ)
    return gdb.MemoryDB()


def execute(w, plan):
    target = plan['cfg'].get('target', 'loose')
    w.mkdirs(OBJ)
    db = opendb(target)
    model = {}
    order = []
    stores = 0

    def seen(s, t, d):
        if s not in model:
            model[s] = (t, d)
        order.append(s)
    for op in plan['ops']:
        w.cur.op = op['id']
        k = op['op']
        if k in ('store', 'again'):
            if k == 'again':
                if not order:
                    continue
                s = order[op['i'] % len(order)]
                t, d = model[s]
            else:
                t, d = op['type'], F.content(op['c'])
                s = F.sha(t, d)
            how = op.get('how')
            if how == 'set':
                # the same stream object, filled in step by step
                ist = IStream(b'blob', 7, None)
                ist.type, ist.size, ist.stream = t.encode(), len(d), mk_src(d, op['src'])
            elif how == 'more':
                # only the announced bytes belong to the object
                more = mk_src(d + b'more that is not part of it', op['src'])
                ist = IStream(otype(t, len(d)), len(d), more)
            else:
                ist = mk_istream(t, d, op['src'])
            r = db.store(ist)
            if r is not ist:
                fail('store-result', 'store did not return the input stream')
            if ist.binsha != s:
                fail('store-sha', 'stored %s %s as %s instead of %s' % (t, short(d), ist.binsha and hx(ist.binsha), hx(s)))
            if ist.hexsha != hx(s).encode() and ist.hexsha != hx(s):
                fail('store-sha', 'hexsha %r' % (ist.hexsha,))
            if ist.size != len(d) or tname(ist.type) != t:
                fail('store-result', 'input stream changed: %r %r' % (ist.type, ist.size))
            seen(s, t, d)
            stores += 1
            w.probe('stores')
        elif k == 'raw':
            t, d = op['type'], F.content(op['c'])
            s = F.sha(t, d)
            z = F.loose_bytes(t, d, op['enc'])
            ist = IStream(otype(t, len(d)), len(d), mk_src(z, op['src']), s)
            fresh = s not in model
            db.store(ist)
            if ist.binsha != s:
                fail('store-sha', 'raw store changed the id to %s' % hx(ist.binsha))
            if fresh and target != 'mem':
                with w.pause():
                    h = hx(s)
                    got = w.get('%s/%s/%s' % (OBJ, h[:2], h[2:]))
                if got != z:
                    fail('raw-bytes', 'raw store wrote %s instead of %s' % (short(got), short(z)))
            seen(s, t, d)
            stores += 1
            w.probe('raw')
        elif k == 'giant':
            n, t = op['n'], op['type']
            s = F.zeros_sha(t, n)
            ist = db.store(IStream(t.encode(), n, F.Zeros(n, op['most'])))
            if ist.binsha != s:
                fail('store-sha', 'stored %d zero bytes as %s instead of %s' % (n, hx(ist.binsha), hx(s)))
            p = '%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:])
            try:
                got, used = F.zeros_in_zlib(w.get(p), b'%s %d\0' % (t.encode(), n))
            except F.FormatError as e:
                fail('files', 'file of %d zero bytes: %s' % (n, e))
            if got != n or used != len(w.get(p)):
                fail('files', 'file of %d zero bytes holds %d and %d more' % (n, got, len(w.get(p)) - used))
            for x in (db.info(s), db.stream(s)):
                if (x.size, tname(x.type)) != (n, t):
                    fail('info', '%d %r for %d zero bytes' % (x.size, x.type, n))
            got = 0
            while True:
                b = x.read(op['m'])
                if len(b) != min(op['m'], n - got) or b.count(0) != len(b):
                    fail('content', 'read(%d) at %d of %d zero bytes gives %s' % (op['m'], got, n, short(b)))
                got += len(b)
                if not b:
                    break
            w.delete(p)
            db.update_cache()
            w.probe('giant')
        elif k == 'write':
            t, d = op['type'], F.content(op['c'])
            out = []

            def write(b):
                out.append(bytes(b))
                return len(b)
            n = gfun.write_object(t.encode(), len(d), mk_src(d, op['src']).read, write, **({'chunk_size': op['chunk']} if op['chunk'] else {}))
            want = b'%s %d\0' % (t.encode(), len(d)) + d
            if b''.join(out) != want or n != len(want):
                fail('write-object', 'write_object wrote %s and returned %r instead of %d bytes' % (short(b''.join(out)), n, len(want)))
        elif k == 'redirect':
            t, d = op['type'], F.content(op['c'])
            s = F.sha(t, d)
            if op.get('known') and order:
                s = order[op['i'] % len(order)]
                t, d = model[s]
            sent = b'%s %d\0' % (t.encode(), len(d)) + d
            if op.get('raw'):
                sent = F.loose_bytes(t, d)
            before = w.tree('w')
            passed = []
            if op['w'] == 'flex':
                wr = gstream.FlexibleSha1Writer(lambda b: passed.append(bytes(b)))
            else:
                wr = {'sha': gstream.Sha1Writer, 'zip': gstream.ZippedStoreShaWriter, 'sub': Counting}[op['w']]()
            prev = db.set_ostream(wr)
            if prev is not None:
                fail('ostream', 'previous stream %r' % prev)
            if db.ostream() is not wr:
                fail('ostream', 'ostream() is not the stream set')
            ist = mk_istream(t, d, op['src'])
            if op.get('raw'):
                # passed on as it is
                ist = IStream(otype(t, len(d)), len(d), mk_src(sent, op['src']), s)
            db.store(ist)
            back = db.set_ostream(None)
            if back is not wr or db.ostream() is not None:
                fail('ostream', 'set_ostream did not return the previous stream')
            if ist.binsha != s or wr.sha() != (s if not op.get('raw') else hashlib.sha1(sent).digest()):
                fail('store-sha', 'redirected store computed %s instead of %s' % (hx(ist.binsha), hx(s)))
            if w.tree('w') != before:
                fail('redirect-touched', 'redirected store changed the directory')
            if op['w'] == 'zip' and not op.get('raw'):
                wr.close()
                if F.parse_loose(wr.getvalue()) != (t, d):
                    fail('redirect-content', 'redirected stream holds another object')
            if op['w'] == 'flex' and b''.join(passed) != sent:
                fail('redirect-content', 'redirected stream passed on other bytes')
            if op['w'] == 'sub' and wr.n != len(sent):
                fail('redirect-content', 'redirected stream received %d bytes' % wr.n)
            if s not in model:
                check_absent(db, s)
            w.probe('redirect')
        elif k == 'foreign':
            t, d = op['type'], F.content(op['c'])
            s = F.sha(t, d)
            if s not in model:
                foreign_loose(w, t, d, op['enc'])
            seen(s, t, d)
        elif k == 'get':
            if not order:
                continue
            s = order[op['i'] % len(order)]
            check_object(db, s, *model[s], pattern=PATTERNS[op['pat']])
            w.probe('gets')
        elif k == 'iter':
            got = [bytes(x) for x in db.sha_iter()]
            if sorted(got) != sorted(model):
                fail('iter', 'sha_iter yields %s instead of %s' % (sorted(map(hx, got)), sorted(map(hx, model))))
            if db.size() != len(model):
                fail('size', 'size() is %r, %d objects stored' % (db.size(), len(model)))
        elif k == 'absent':
            s = F.sha('blob', b'never stored %d' % op['s'])
            check_absent(db, s)
        elif k == 'reopen' and target != 'mem':
            db = opendb(target)
    w.cur.op = -1
    for s in model:
        check_object(db, s, *model[s])
    if target != 'mem':
        db2 = opendb(target)
        for s in model:
            check_object(db2, s, *model[s], pattern=[4096])
        objs, other = audit_loose(w)
        if objs != model:
            fail('files', 'files on disk hold %d objects, %d stored' % (len(objs), len(model)))
        if other:
            fail('leftover', 'unexpected files %s' % other)
    w.probe('stores', 0)
    w.probe('objects', len(model))


def nontrivial(plan, r):
    return r.probes.get('objects', 0) >= 2
