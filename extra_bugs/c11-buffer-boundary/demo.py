import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    from gitdb import IStream, LooseObjectDB
    db = LooseObjectDB(scratch)
    data = bytes(range(256)) * 100
    sha = db.store(IStream('blob', len(data), BytesIO(data))).binsha
    for n in list(range(1, 9000, 977)) + list(range(8170, 8200)):
        s = db.stream(sha)
        assert s.read(n) == data[:n], n
        assert s.read() == data[n:], n


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
