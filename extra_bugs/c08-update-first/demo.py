import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    from gitdb import GitDB, IStream, OStream
    from gitdb.pack import PackEntity
    import hashlib
    os.makedirs(scratch + '/pack')
    db = GitDB(scratch)
    s = db.store(IStream(b'blob', 4, BytesIO(b'gone'))).binsha
    assert db.has_object(s)
    os.remove(scratch + '/%s/%s' % (s.hex()[:2], s.hex()[2:]))
    sha = hashlib.sha1(b'blob 5\0hello').digest()
    PackEntity.create([OStream(sha, b'blob', 5, BytesIO(b'hello'))], scratch + '/pack')
    db.update_cache(force=True)
    assert db.has_object(sha) and not db.has_object(s)


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
