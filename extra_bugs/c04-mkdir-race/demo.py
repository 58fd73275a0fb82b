import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    from gitdb import IStream, LooseObjectDB
    real = os.mkdir
    def mkdir(path, *a, **k):
        if len(os.path.basename(path)) == 2 and not os.path.isdir(path):
            real(path)              # another process was faster
        return real(path, *a, **k)
    os.mkdir = mkdir
    db = LooseObjectDB(scratch)
    s = db.store(IStream(b'blob', 3, BytesIO(b'abc')))
    assert db.has_object(s.binsha)


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
