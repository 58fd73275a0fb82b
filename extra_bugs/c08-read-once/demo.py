import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    import hashlib, struct, zlib
    from gitdb import PackedDB, GitDB
    def hdr(typ, n):
        c = typ << 4 | n & 15
        n >>= 4
        h = b''
        while n:
            h += bytes([c | 0x80]); c = n & 0x7f; n >>= 7
        return h + bytes([c])
    def var(n):
        h = b''
        while True:
            c = n & 0x7f; n >>= 7
            if n:
                h += bytes([c | 0x80])
            else:
                return h + bytes([c])
    def ofs(rel):
        e = [rel & 0x7f]
        rel >>= 7
        while rel:
            rel -= 1
            e.insert(0, 0x80 | rel & 0x7f); rel >>= 7
        return bytes(e)
    def idx_of(rows, trailer):
        rows = sorted(rows)
        idx = b'\xfftOc' + struct.pack('>L', 2)
        for b in range(256):
            idx += struct.pack('>L', sum(1 for r in rows if r[0][0] <= b))
        idx += b''.join(r[0] for r in rows) + b''.join(struct.pack('>L', r[2]) for r in rows) + b''.join(struct.pack('>L', r[1]) for r in rows) + trailer
        return idx + hashlib.sha1(idx).digest()
    def sid(c, t=b'blob'):
        return hashlib.sha1(t + b' %d\0' % len(c) + c).digest()
    def simple_pack(path, blobs):
        raw = b'PACK' + struct.pack('>LL', 2, len(blobs))
        rows = []
        for c in blobs:
            e = hdr(3, len(c)) + zlib.compress(c)
            rows.append((sid(c), len(raw), zlib.crc32(e)))
            raw += e
        raw += hashlib.sha1(raw).digest()
        open(path + '.pack', 'wb').write(raw)
        open(path + '.idx', 'wb').write(idx_of(rows, raw[-20:]))
    def put_loose(objects, c):
        h = sid(c).hex()
        os.makedirs(objects + '/' + h[:2], exist_ok=True)
        open(objects + '/' + h[:2] + '/' + h[2:], 'wb').write(zlib.compress(b'blob %d\0' % len(c) + c))
        return bytes.fromhex(h)

    import shutil
    os.makedirs(scratch + '/o/pack')
    simple_pack(scratch + '/o/pack/pack-a', [b'one'])
    db = GitDB(scratch + '/o')
    assert db.has_object(sid(b'one'))
    shutil.rmtree(scratch + '/o/pack')
    db.update_cache()
    assert not db.has_object(sid(b'one'))


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
