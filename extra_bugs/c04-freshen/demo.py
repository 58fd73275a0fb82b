import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    import io
    from gitdb import LooseObjectDB, IStream
    import gitdb.db.loose as L
    os.mkdir(scratch + '/o')
    db = LooseObjectDB(scratch + '/o')
    real = L.chmod
    hit = []
    def chmod(p, m):
        real(p, m)
        os.chmod(p, 0o644)
    s = db.store(IStream(b'blob', 3, io.BytesIO(b'abc'))).binsha
    p = db.readable_db_object_path(s.hex().encode())
    os.chmod(p, 0o644)
    rn = L.rename
    def rename(a, b):
        hit.append(os.path.exists(p))
        return rn(a, b)
    L.rename = rename
    LooseObjectDB(scratch + '/o').store(IStream(b'blob', 3, io.BytesIO(b'abc')))
    assert all(hit), hit


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
