"""C14: alternates and compound databases show the union of what exists."""
from ..lib import *
from .. import lib, core

RUNS = {'quick': 562, 'thorough': 15000}
RULE = ("a run is a history (5-25 steps) on up to six object directories whose alternates files form a random acyclic graph: directories appear and vanish, alternates files are written (with missing, "
        "empty, invalid, duplicate and undecodable entries), removed and created, objects and packs are added, stores and lookups go through a git or reference database; fault-free and then up to four "
        "times with failing calls or with a change in the middle of a client step; non-trivial: an object of an alternate was found after a change; distinct by the log of all simulated calls")
STUBS = 'clock, directory order, fault decisions; the other repositories are written by an independent generator'

NAMES = ('w/alt%d', 'w/alt%d', 'w/deep/er/alt%d', 'w/with space %d', 'w/[br]ack*ets?%d', 'w/\xfcml\xe4ut%d', 'w/\u4e2d\u6587%d', 'w/latin\udcff%d', 'w/next\x85line%d', 'w/feed\x0c%d', 'w/#hash%d', 'w/$HOME%d', 'w/${PATH}%d', 'w/~%d', 'w/back\\slash%d', 'w/%%41%d', 'w/alt%d.git', 'w/a%d:b', 'w/*%d', 'w/..alt%d', 'w/"quote"%d')
SPELL = ('', '', '', '/', '//', '/.', ' ', '\t', '\r')
BAD = ('missing', 'empty', 'file', 'nul', 'comment', 'long', 'latin', 'blank', 'inside', 'emptydir', 'url')
EDITS = ('alts', 'alts', 'rmalts', 'vanish', 'appear', 'loose', 'pack', 'odd')


def gen_edit(rng, n, kinds=EDITS):
    k = rng.choice(kinds)
    op = {'op': k, 'i': rng.randrange(n + 1), 's': rng.randrange(1 << 30)}
    if k == 'alts':
        # directory 0 is the one of the client; edges go upwards
        op['i'] = 0 if rng.random() < .55 else rng.randrange(n + 1)
        ents = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
            if rng.random() < .65 and op['i'] < n:
                ents.append({'d': rng.randrange(op['i'] + 1, n + 1), 'sp': rng.choice(SPELL)})
            else:
                ents.append({'bad': rng.choice(BAD)})
        if ents and rng.random() < .2:
            ents.append(dict(rng.choice(ents)))
        op['ents'] = ents
        op['nl'] = rng.random() < .8
    elif k == 'loose':
        op.update(t=rng.choice(F.TYPES), c=F.recipe(rng, (0, 1, 10, 300, 4000)))
    elif k == 'pack':
        op.update(objs=[gen_obj(rng, j, .4, (0, 1, 10, 300)) for j in range(rng.choice((1, 1, 2, 3)))], v=rng.choice((1, 2, 2)))
    elif k == 'odd':
        op['how'] = rng.choice(('altdir', 'junk'))
    return op


def gen(rng, tier):
    n = rng.choice((1, 2, 2, 3, 3, 5, 5, 8))
    cfg = {'kind': rng.choice(('git', 'git', 'git', 'ref')), 'nseed': rng.randrange(1 << 30), 'dirorder': rng.randrange(4), 'dirs': [rng.choice(NAMES) % i for i in range(1, n + 1)]}
    if rng.random() < .3:
        cfg['env'] = [{'cls': 'read', 'do': 'short', 'every': rng.choice((1, 3)), 'n': rng.choice((1, 7, 30))}]
    ops = []
    chain = 0
    if rng.random() < .08:
        # each is an alternate of the one before
        n = rng.choice((6, 8, 12, 20))
        cfg['dirs'] = [rng.choice(NAMES) % i for i in range(1, n + 1)]
        for i in range(n, -1, -1):
            ops.append({'op': 'appear', 'i': i, 's': 0})
            if i < n:
                ops.append({'op': 'alts', 'i': i, 's': 0, 'ents': [{'d': i + 1, 'sp': rng.choice(SPELL)}], 'nl': rng.random() < .8})
        chain = len(ops)
    crowd = not chain and rng.random() < .012
    if crowd:
        # many alternates of one directory
        n = rng.choice((17, 33, 70))
        cfg['dirs'] = [rng.choice(NAMES) % i for i in range(1, n + 1)]
        ents = [{'d': i, 'sp': rng.choice(SPELL)} for i in range(1, n + 1)] + [{'bad': rng.choice(BAD)} for i in range(rng.choice((0, 1, 5, 40)))]
        rng.shuffle(ents)
        ops.append({'op': 'alts', 'i': 0, 's': 0, 'ents': ents, 'nl': rng.random() < .8})
    for i in range(1, n + 1):
        if crowd:
            ops += [{'op': 'appear', 'i': i, 's': 0}, dict(gen_edit(rng, n, ('loose', 'loose', 'pack')), i=i)]
            continue
        if rng.random() < .9:
            ops.append({'op': 'appear', 'i': i, 's': 0})
        ops.append(gen_edit(rng, n, ('loose', 'pack', 'alts')))
        if ops[-1]['op'] != 'alts':
            ops[-1]['i'] = i
        elif chain and rng.random() < .9:
            ops.pop()
    if chain:
        ops.append({'op': 'update', 'force': False})
    for i in range(rng.randrange(5, 22)):
        c = rng.random()
        if c < .45:
            ops.append(gen_edit(rng, n))
        elif c < .7:
            ops.append({'op': 'update', 'force': rng.random() < .5})
        elif c < .73:
            ops.append({'op': 'reopen'})
        elif c < .76:
            ops.append({'op': 'another'})
        elif c < .8:
            ops.append({'op': 'store', 'i': rng.randrange(1 << 16)})
        else:
            ops.append({'op': rng.choice(('has', 'info', 'stream', 'iter', 'size', 'partial')), 'i': rng.randrange(1 << 16), 'ext': rng.random() < .2, 'pat': rng.randrange(len(PATTERNS))})
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 4:
        return None
    out = []
    by = {o['id']: o['op'] for o in plan['ops']}
    if rng.random() < .4:
        c = [t for t in trace if t[0] >= 0 and t[1] in ('scan', 'stat', 'open', 'mmapf', 'close', 'read') and by.get(t[0]) not in (None,) + EDITS]
        alt = [t for t in c if 'alternates' in str(t[4])]
        if alt and rng.random() < .5:
            c = alt
        if c:
            t = rng.choice(c)
            out.append({'op': t[0], 'cls': t[1], 'k': t[2], 'do': 'call', 'what': gen_edit(rng, len(plan['cfg']['dirs']))})
    classes = ['scan', 'open', 'mmapf', 'close', 'read', 'stat']
    if not out or rng.random() < .2:
        for _ in range(rng.choice((1, 1, 2))):
            tr = trace
            if rng.random() < .4:
                tr = [t for t in trace if 'alternates' in str(t[4])] or trace
            f = pick_fault(rng, tr, (rng.choice(classes),)) or pick_fault(rng, tr, classes)
            if f:
                if f['do'] == 'err' and rng.random() < .5:
                    f['times'] = rng.choice((2, 4, 1000))
                out.append(f)
    return out or None


def execute(w, plan):
    cfg = plan['cfg']
    kind = cfg.get('kind', 'git')
    dirs = [OBJ] + [d for d in cfg['dirs']]
    n = len(dirs) - 1
    w.mkdirs(OBJ + '/pack')
    w.put('w/file', b'not a directory')
    w.mkdirs('w/empty')
    here = [True] + [False] * n
    content = {}
    own = [{} for _ in dirs]         # loose: sha -> True
    packed = [{} for _ in dirs]      # name -> objs
    alts = [None] * (n + 1)          # list of entries
    altdir = [False] * (n + 1)       # 'info/alternates' is a directory there
    changes = [0]
    found = [0]
    st = {'db': None, 'fresh': False}

    def path(i):
        """where directory i is now"""
        return dirs[i] if here[i] else 'w/gone%d' % i

    def line(e):
        if 'd' in e:
            p = os.path.abspath(dirs[e['d']])
            sp = e.get('sp', '')
            if sp == '//':
                return p.replace('/w/', '//w/', 1)
            return p + sp
        b = e['bad']
        root = os.path.abspath('w')
        return {'missing': root + '/nowhere/at all', 'empty': '', 'file': root + '/file', 'nul': root + '/nu\0l', 'comment': '# a comment', 'long': root + '/' + 'x' * 5000,
                'latin': root + '/no\udcfe\udcff', 'blank': ' \t ', 'inside': root + '/file/objects', 'emptydir': root + '/empty', 'url': 'https://example.com/objects'}[b]

    def foreign(op):
        k = op['op']
        i = min(op['i'], n)
        changes[0] += 1
        st['fresh'] = False
        p = path(i)
        if k == 'appear':
            if i and not here[i]:
                with w.pause():
                    w.tick()
                    os.makedirs(os.path.dirname(dirs[i]), exist_ok=True)
                    if os.path.isdir(p):
                        os.rename(p, dirs[i])
                    else:
                        os.mkdir(dirs[i])
                        if op['s'] % 3:
                            os.mkdir(dirs[i] + '/pack')
                here[i] = True
        elif k == 'vanish':
            if i and here[i]:
                here[i] = False
                with w.pause():
                    w.tick()
                    os.rename(dirs[i], path(i))
        elif k == 'alts':
            ents = [e for e in op['ents'] if 'bad' in e or i < e['d'] <= n]
            if altdir[i]:
                with w.pause():
                    os.rmdir(p + '/info/alternates')
                altdir[i] = False
            alts[i] = ents
            w.put(p + '/info/alternates', os.fsencode('\n'.join(line(e) for e in ents) + ('\n' if op['nl'] else '')))
        elif k == 'rmalts':
            if alts[i] is not None:
                w.delete(p + '/info/alternates')
                alts[i] = None
        elif k == 'loose':
            d = F.content(op['c'])
            s = F.sha(op['t'], d)
            content[s] = (op['t'], d)
            if s not in own[i]:
                own[i][s] = True
                foreign_loose(w, op['t'], d, None, p)
        elif k == 'pack':
            pk = Packer()
            for o in op['objs']:
                pk.add(o)
            if pk.objs:
                raw, info = F.build_pack(pk.objs)
                name = hx(raw[-20:])
                if name not in packed[i]:
                    foreign_pack(w, pk.objs, p, op['v'])
                    packed[i][name] = pk.model()
                    content.update(pk.model())
        elif k == 'odd' and i:
            if op['how'] == 'altdir' and alts[i] is None and not altdir[i]:
                w.mkdirs(p + '/info/alternates')
                altdir[i] = True
            elif op['how'] == 'junk':
                w.put(p + '/info/packs', b'P pack-1.pack\n')
                w.put(p + '/pack_', b'x')

    def safe_foreign(op):
        with w.pause():
            if not os.path.isdir(path(min(op['i'], n))) and op['op'] != 'appear':
                return
        with w.pause():
            foreign(op)
    w.midcall = lambda f: safe_foreign(f['what'])

    def view(i, seen=None):
        """the objects database i shows"""
        v = {}
        for s in own[i]:
            v[s] = content[s]
        for o in packed[i].values():
            v.update(o)
        v.update(ref(i))
        return v

    def ref(i):
        v = {}
        for e in alts[i] or ():
            if 'd' in e and here[e['d']]:
                v.update(view(e['d']))
        return v

    def now():
        return view(0) if kind == 'git' else ref(0)

    def opendb():
        if kind == 'git':
            return gdb.GitDB(OBJ)
        return gdb.ReferenceDB(OBJ + '/info/alternates')

    def db():
        if st['db'] is None:
            st['db'] = opendb()
        return st['db']

    def verify(D, where):
        v = now()
        mine = set(own[0]).union(*packed[0].values()) if kind == 'git' else set()
        for s in sorted(content):
            try:
                if s in v:
                    check_object(D, s, *v[s])
                    if D.partial_to_complete_sha_hex(hx(s)) != s:
                        fail('partial', 'full id resolves to another one')
                    found[0] += changes[0] > 1 and s not in mine
                else:
                    check_absent(D, s)
            except core.Violation as e:
                fail(e.cls, '%s: %s' % (where, e.msg))
        got = [bytes(x) for x in D.sha_iter()]
        if set(got) != set(v):
            fail('iter', '%s: sha_iter lists %d ids instead of %d (missing %s, extra %s)' % (
                where, len(set(got)), len(v), [hx(x) for x in set(v) - set(got)][:3], [hx(x) for x in set(got) - set(v)][:3]))
        if D.size() != len(got):
            fail('size', '%s: size() is %r, sha_iter yields %d' % (where, D.size(), len(got)))

    def hit():
        return sum(v for k, v in w.fired.items() if k != 'read:short')

    def outside(name, rel, rel2):
        for r in (rel, rel2):
            if r and not (r + '/').startswith(OBJ + '/'):
                fail('outside', '%s(%s) by the client outside of its own database' % (name, r))

    for op in plan['ops']:
        w.cur.op = op['id']
        k = op['op']
        if k in EDITS:
            safe_foreign(op)
            continue
        if k == 'another':
            # someone else in this process, opened right now
            w.cur.op = -1
            D = opendb()
            verify(D, 'another database')
            st.setdefault('others', []).append(D)
            continue
        if k == 'reopen':
            st.update(db=None, fresh=False)
            continue
        h0 = hit()
        c0 = changes[0]
        w.hooks.append(outside)
        D = db()
        if k == 'update':
            ok, r = attempt(D.update_cache, op['force'])
            w.cur.op = -1
            if not ok:
                if hit() == h0:
                    fail('update-failed', 'update_cache raised %s: %s' % (exname(r), r))
                w.probe('failed_updates')
            if hit() != h0 or c0 != changes[0]:
                # whatever failed or changed in between, the next update is enough
                D.update_cache(op['force'] and hit() != h0 or not ok)
                w.probe('repaired')
            verify(D, 'after update_cache')
            st['fresh'] = True
            w.probe('fresh_views')
        elif k == 'store':
            if kind == 'git':
                d = b'stored by the client %d' % op['i']
                s = F.sha('blob', d)
                ok, r = attempt(D.store, IStream(b'blob', len(d), BytesIO(d)))
                with w.pause():
                    there = os.path.exists('%s/%s/%s' % (OBJ, hx(s)[:2], hx(s)[2:]))
                if ok and not there:
                    fail('lost', 'a stored object is not in the own database')
                if there:
                    content[s] = ('blob', d)
                    own[0][s] = True
                elif hit() == h0:
                    fail('spurious', 'store failed: %r' % r)
        else:
            pool = sorted(content)
            s = pool[op['i'] % len(pool)] if pool else F.sha('blob', b'nothing')
            w.log('lookup', k)
            r = None
            if k == 'has':
                ok, r = attempt(D.has_object, s)
            elif k == 'info':
                ok, r = attempt(D.info, s)
                if ok:
                    check_info(r, s, content[s][0], len(content[s][1]), 'info')
            elif k == 'stream':
                ok, r = attempt(lambda: drain(D.stream(s), PATTERNS[op['pat']]))
                if ok and r != content[s][1]:
                    fail('content', 'wrong content of %s: %s instead of %s' % (hx(s), short(r), short(content[s][1])))
            elif k == 'iter':
                ok, r = attempt(lambda: [bytes(x) for x in D.sha_iter()])
                if ok and not set(r) <= set(content):
                    fail('ghost', 'sha_iter lists ids that never existed')
            elif k == 'size':
                ok, r = attempt(D.size)
            elif k == 'partial':
                ok, r = attempt(D.partial_to_complete_sha_hex, hx(s))
                if ok and bytes(r) != s:
                    fail('partial', 'full id resolves to another one')
            if st['fresh'] and hit() == h0 and k in ('has', 'info', 'stream', 'partial'):
                if (ok and r is not False) != (s in now()):
                    fail('lost' if s in now() else 'ghost', '%s of %s gives %r' % (k, hx(s), r))
            if not ok and not isinstance(r, (OSError, BadObject, ODBError)):
                if hit() == h0 or not isinstance(r, (ValueError, MemoryError, AssertionError)):
                    fail('wrong-exception', '%s raised %s: %s' % (k, exname(r), r))
            r = None
            if hit() != h0:
                # a failed first access may have hidden something until the next update
                st['fresh'] = False
        w.hooks.remove(outside)
    w.cur.op = -1
    w.env = []
    D = db()
    D.update_cache()
    verify(D, 'at the end')
    verify(opendb(), 'fresh database')
    w.probe('found', found[0])
    for p in ('failed_updates', 'repaired', 'fresh_views'):
        w.probe(p, 0)


def nontrivial(plan, r):
    return r.probes.get('found', 0) > 0
