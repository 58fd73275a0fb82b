import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    from gitdb import IStream, LooseObjectDB
    import gitdb.db.loose as m
    real = m.chmod
    class Crash(BaseException):
        pass
    def chmod(*a, **k):
        raise Crash()
    m.chmod = chmod
    try:
        LooseObjectDB(scratch).store(IStream(b'blob', 3, BytesIO(b'abc')))
    except Crash:
        pass
    m.chmod = real
    db = LooseObjectDB(scratch)
    s = db.store(IStream(b'blob', 3, BytesIO(b'abc')))
    h = s.hexsha.decode()
    assert os.stat('%s/%s/%s' % (scratch, h[:2], h[2:])).st_mode & 0o777 == 0o444


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
