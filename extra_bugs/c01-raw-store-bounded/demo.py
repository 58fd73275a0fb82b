import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    import hashlib, random, zlib
    from gitdb import IStream, LooseObjectDB
    rnd = random.Random(1)
    data = rnd.randbytes(60000)
    z = zlib.compressobj(6)
    raw = [z.compress(b'blob %d\0' % len(data))]
    for i in range(0, len(data), 150):          # a producer flushing after every little record
        raw.append(z.compress(data[i:i + 150]))
        raw.append(z.flush(zlib.Z_SYNC_FLUSH))
    raw = b''.join(raw) + z.flush()
    sha = hashlib.sha1(b'blob %d\0' % len(data) + data).digest()
    db = LooseObjectDB(scratch)
    db.store(IStream(b'blob', len(data), BytesIO(raw), sha))
    assert db.stream(sha).read() == data


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
