"""C12: an abbreviated id resolves to the one object it names, or is refused."""
from ..lib import *
from .. import lib
import hashlib
import struct

RUNS = {'quick': 1312, 'thorough': 30000}
RULE = ("a run distributes 2-25 ids, many with shared prefixes of 4 to 39 digits, over loose files and packs of a database and its alternates and resolves 10-40 abbreviations of every length, "
        "fault-free and then with another process storing objects or finishing packs right before a system call of a lookup; non-trivial: an ambiguous abbreviation was resolved, or "
        "objects appeared during a lookup; distinct by the log of all simulated calls and results")
STUBS = 'clock, directory order, foreign processes, object files and packs written by an independent generator'
DIRS = (OBJ, 'w/alt1', 'w/alt2')

_table = []


def table():
    """real objects whose ids share prefixes: list of groups [(sha, content)]"""
    if not _table:
        by = {}
        for i in range(60000):
            d = b'c12 %d' % i
            s = hashlib.sha1(b'blob %d\0' % len(d) + d).digest()
            by.setdefault(s[:2], []).append((s, d))
        groups = [sorted(g) for k, g in sorted(by.items()) if len(g) > 1]
        # the closest pairs first
        closest = sorted(groups, key=lambda g: min(int.from_bytes(b[0], 'big') ^ int.from_bytes(a[0], 'big') for a, b in zip(g, g[1:])))
        # pairs whose index has something like the second id behind its last entry: the first one's checksum
        crc = {}
        for g in by.values():
            for s, d in g:
                raw, info = F.build_pack([{'type': 'blob', 'data': d}]) if s[0] < 16 else (None, None)
                if raw:
                    crc.setdefault(struct.pack('>L', info[0][2])[:2], (s, d))
        behind = [[crc[k], g[-1]] for k, g in sorted(by.items()) if k in crc and crc[k][0] < g[-1][0]]
        edges = [g for g in groups if g[0][0][0] in (0, 255)]
        _table.append((groups, closest[:60], edges, behind))
    return _table[0]


def pool(seed):
    rng = random.Random(seed)
    groups, closest, edges, behind = table()
    out = []
    if rng.random() < .1:
        return sorted(rng.choice(behind))
    for i in range(rng.choice((1, 2, 3))):
        g = rng.choice(rng.choice((groups, closest, closest, edges)))
        out += rng.sample(g, min(len(g), rng.choice((2, 2, 3, 4))))
    for i in range(rng.choice((0, 1, 4))):
        out.append(rng.choice(rng.choice(groups)))
    # ids sharing long prefixes: such objects exist, we cannot compute their contents
    for i in range(rng.choice((0, 0, 1, 2, 3))):
        s, d = rng.choice(out)
        n = rng.choice((5, 8, 9, 15, 16, 31, 38, 39))
        h = hx(s)
        c = rng.choice([x for x in '0123456789abcdef' if x != h[n]])
        t = bytes.fromhex(h[:n] + c + ''.join(rng.choice('0123456789abcdef') for _ in range(39 - n)))
        out.append((t, d))
    seen = {}
    for s, d in out:
        seen.setdefault(s, d)
    return sorted(seen.items())


def gen(rng, tier):
    top = rng.choice(('loose', 'pack', 'pack', 'git', 'git', 'alt', 'alt', 'ref'))
    cfg = {'top': top, 'pseed': rng.randrange(1 << 30), 'nseed': 1, 'dirorder': rng.randrange(4)}
    n = len(pool(cfg['pseed']))
    nd = 1 if top in ('loose', 'pack', 'git') else 3
    ops = []

    def add():
        kind = rng.choice(('loose', 'pack', 'pack'))
        if top in ('loose', 'pack'):
            kind = top
        return {'op': 'add', 'kind': kind, 'd': rng.randrange(nd), 'o': [rng.randrange(n) for _ in range(1 if kind == 'loose' else rng.choice((1, 2, 3, 6)))], 'v': rng.choice((1, 2, 2)),
                'dup': rng.randrange(8) if rng.random() < .15 else None}

    def q():
        return {'op': 'q', 'o': rng.randrange(n), 'len': rng.choice((4, 4, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 38, 39, 40, rng.randrange(4, 41))), 'mut': rng.random() < .12, 'b': rng.random() < .5,
                'case': rng.choice((0, 0, 0, 0, 1, 2)), 'x': rng.randrange(1 << 16)}
    for i in range(rng.choice((1, 2, 4, 6))):
        ops.append(add())
    if rng.random() < .025:
        # many objects or packs besides
        kind = rng.choice(('loose', 'pack', 'packs'))
        if top in ('loose', 'pack'):
            kind = rng.choice(('pack', 'packs')) if top == 'pack' else top
        ops.insert(rng.randrange(len(ops) + 1), {'op': 'crowd', 'kind': kind, 'd': rng.randrange(nd), 'n': rng.choice((65, 130, 300)) if kind != 'packs' else rng.choice((33, 66, 130)), 'x': rng.randrange(1 << 20)})
    for i in range(rng.randrange(8, 30)):
        c = rng.random()
        if c < .1:
            ops.append(add())
        elif c < .17:
            ops.append({'op': 'update', 'force': rng.random() < .5})
        elif c < .2:
            ops.append({'op': 'reopen'})
        elif c < .27:
            ops.append({'op': 'warm', 'o': rng.randrange(n), 'k': rng.choice(('has', 'has', 'info', 'read'))})
        elif c < .34:
            ops.append({'op': 'prune', 'o': rng.randrange(n), 'then': rng.choice((0, 0, 4, 40, 40))})
        else:
            ops.append(q())
    return {'cfg': cfg, 'ops': ops}


def place(rng, plan, trace, nf):
    if nf >= 3:
        return None
    qs = {op['id'] for op in plan['ops'] if op['op'] == 'q'}
    t = [x for x in trace if x[0] in qs and x[1] in ('scan', 'stat', 'open')]
    if not t:
        return None
    out = []
    n = len(pool(plan['cfg']['pseed']))
    nd = 1 if plan['cfg']['top'] in ('loose', 'pack', 'git') else 3
    if plan['cfg']['top'] in ('loose', 'pack', 'git') and rng.random() < .3:
        # (alternates which can't be read are not there)
        f = pick_fault(rng, [x for x in trace if x[0] in qs], ('scan', 'open', 'mmapf', 'read'))
        if f:
            return [f]
    for _ in range(rng.choice((1, 1, 2))):
        x = rng.choice(t)
        kind = rng.choice(('loose', 'pack'))
        if plan['cfg']['top'] in ('loose', 'pack'):
            kind = plan['cfg']['top']
        out.append({'op': x[0], 'cls': x[1], 'k': x[2], 'do': 'call', 'kind': kind, 'd': rng.randrange(nd), 'o': [rng.randrange(n) for _ in range(rng.choice((1, 2)))], 'v': 2})
    return out


def execute(w, plan):
    cfg = plan['cfg']
    top = cfg['top']
    P = pool(cfg['pseed'])
    for d in DIRS:
        w.mkdirs(d + '/pack')
    if top == 'alt':
        w.put(OBJ + '/info/alternates', b'%s\n' % os.path.abspath(DIRS[1]).encode())
        w.put(DIRS[1] + '/info/alternates', b'%s\n' % os.path.abspath(DIRS[2]).encode())
    elif top == 'ref':
        w.put('w/alternates', b''.join(os.path.abspath(d).encode() + b'\n' for d in DIRS))
    behind = []
    crowded = []
    files = {}          # id: [loose object file]
    packed = set()
    known = set()       # what the database must know of packs
    st = {'db': None, 'first': True}

    def add(op):
        d = DIRS[op['d'] % len(DIRS)]
        objs = {P[i % len(P)] for i in op['o']}
        if op['kind'] == 'loose':
            for s, c in objs:
                path = '%s/%s/%s' % (d, hx(s)[:2], hx(s)[2:])
                w.put(path, F.loose_bytes('blob', c))
                if path not in files.setdefault(s, []):
                    files[s].append(path)
        else:
            objs = sorted(objs)
            if op.get('dup') is not None:
                # some objects are there more than once
                objs = sorted(objs + [objs[op['dup'] % len(objs)]] * (1 + op['dup'] % 2))
            raw, info = F.build_pack([{'type': 'blob', 'data': c} for s, c in objs])
            info = [(s,) + e[1:] for e, (s, c) in zip(info, objs)]
            # (the same contents under other ids make another pack)
            name = hashlib.sha1(b''.join(e[0] for e in info) + raw[-20:] + b'%d' % op['v']).hexdigest()
            base = '%s/pack/pack-%s' % (d, name)
            if os.path.exists(base + '.idx'):
                return
            w.put(base + '.pack', raw)
            w.put(base + '.idx', F.build_index(info, raw[-20:], op['v']))
            packed.update(e[0] for e in info)
            # what follows the last id in the index
            behind.append((struct.pack('>L', min(info)[2]) + bytes(4), raw[-20:], raw[-16:])[op['v'] and op['o'][0] % 3])
    w.midcall = add

    def crowd(op):
        w.probe('crowd-' + op['kind'])
        d = DIRS[op['d'] % len(DIRS)]
        taken = {s for s, c in P}
        objs = []
        for i in range(op['n']):
            c = b'crowd %d %d' % (op['x'], i)
            s = F.sha('blob', c)
            if s not in taken:
                objs.append((s, c))
        crowded.extend(s for s, c in objs)
        if op['kind'] == 'loose':
            for s, c in objs:
                path = '%s/%s/%s' % (d, hx(s)[:2], hx(s)[2:])
                w.put(path, F.loose_bytes('blob', c))
                files.setdefault(s, []).append(path)
            return
        for part in [[o] for o in objs] if op['kind'] == 'packs' else [objs]:
            raw, info = F.build_pack([{'type': 'blob', 'data': c} for s, c in part])
            base = '%s/pack/pack-%s' % (d, hashlib.sha1(raw).hexdigest())
            w.put(base + '.pack', raw)
            w.put(base + '.idx', F.build_index(info, raw[-20:], 2))
            packed.update(e[0] for e in info)

    def db():
        if st['db'] is None:
            if top == 'loose':
                st['db'] = gdb.LooseObjectDB(OBJ)
            elif top == 'pack':
                st['db'] = gdb.PackedDB(OBJ + '/pack')
            elif top == 'ref':
                st['db'] = gdb.ReferenceDB('w/alternates')
            else:
                st['db'] = gdb.GitDB(OBJ)
            st['first'] = True
        return st['db']

    ops = []
    for op in plan['ops']:
        ops.append(op)
        if op['op'] == 'prune' and op['then']:
            ops.append({'op': 'q', 'id': op['id'], 'o': op['o'], 'len': op['then'], 'mut': False, 'b': False, 'x': 0})
    for op in ops:
        w.cur.op = op['id']
        k = op['op']
        if k == 'add':
            with w.pause():
                add(op)
        elif k == 'crowd':
            with w.pause():
                crowd(op)
        elif k == 'update':
            if not st['first'] and top != 'loose':
                before = set(packed)
                db().update_cache(force=op['force'])
                known = before
        elif k == 'warm':
            # (what these tell about removed objects is not claimed)
            D = db()
            if st['first']:
                known = set(packed)
                st['first'] = False
            s = P[op['o'] % len(P)][0]
            ok, r = attempt(D.has_object if op['k'] == 'has' else D.info if op['k'] == 'info' else lambda x: D.stream(x).read(), s)
            del r
        elif k == 'prune':
            # loose object files go, as after 'git prune-packed' or 'git gc'
            with w.pause():
                s = P[op['o'] % len(P)][0]
                for path in files.pop(s, ()):
                    os.remove(path)
                    w.probe('pruned')
        elif k == 'reopen':
            st.update(db=None, first=True)
        elif k == 'q':
            D = db()
            if st['first']:
                known = set(packed)
                st['first'] = False
            s = P[op['o'] % len(P)][0]
            if crowded and op['x'] % 5 == 0:
                s = crowded[op['x'] // 5 % len(crowded)]
            n = op['len']
            pre = hx(s)[:n]
            if op['mut']:
                j = op['x'] % n
                pre = pre[:j] + '0123456789abcdef'[(int(pre[j], 16) + 1 + op['x'] % 15) % 16] + pre[j + 1:]
            if op['mut'] and behind and op['x'] % 3 == 0:
                pre = hx(behind[op['x'] // 3 % len(behind)])[:n]
                n = len(pre)
            h0 = sum(w.fired.values())
            lower = {x for x in known | set(files) if hx(x).startswith(pre)}
            low, c = pre, op.get('case')
            if c:
                pre = pre.upper() if c == 1 else ''.join(ch.upper() if j & 1 else ch for j, ch in enumerate(pre))
            if top == 'pack':
                b = bytes.fromhex(pre if n % 2 == 0 else pre + '0')
                ok, r = attempt(D.partial_to_complete_sha, b, n)
            else:
                ok, r = attempt(D.partial_to_complete_sha_hex, pre.encode() if op['b'] else pre)
            upper = {x for x in packed | set(files) if hx(x).startswith(low)}
            w.log('q', ok, hx(r) if ok else exname(r))
            where = 'resolving %s (%d digits; %d objects match before, %d after the call)' % (pre, n, len(lower), len(upper))
            if lower != upper:
                w.probe('appeared')
            if len(lower) > 1:
                w.probe('ambiguous')
            elif lower:
                w.probe('unique')
            if ok:
                if not isinstance(r, bytes) or len(r) != 20:
                    fail('result', '%s gives %r' % (where, r))
                if r not in upper:
                    fail('wrong', '%s gives %s, which does not match or does not exist' % (where, hx(r)))
                if not lower <= {r}:
                    fail('not-ambiguous', '%s gives %s although %s matches as well' % (where, hx(r), hx(sorted(lower - {r})[0])))
            elif isinstance(r, AmbiguousObjectName):
                if len(upper) < 2:
                    fail('ambiguous', '%s is refused as ambiguous' % where)
            elif isinstance(r, BadObject):
                if lower:
                    fail('lost', '%s: no such object' % where)
            elif isinstance(r, (OSError, MemoryError, ValueError)) and sum(w.fired.values()) != h0:
                w.probe('refused')
            else:
                fail('exception', '%s raised %s: %s' % (where, exname(r), r))


def nontrivial(plan, r):
    return r.probes.get('ambiguous', 0) > 0 or r.probes.get('appeared', 0) > 0
