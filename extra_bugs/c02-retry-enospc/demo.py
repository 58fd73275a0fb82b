import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    from gitdb import IStream, LooseObjectDB
    import gitdb.stream as st, errno
    real = st.write
    n = [0]
    def write(fd, d):
        if len(d) > 50:
            raise OSError(errno.EDQUOT, 'quota')
        return real(fd, d)
    st.write = write
    db = LooseObjectDB(scratch)
    data = os.urandom(300)
    i = IStream(b'blob', 300, BytesIO(data))
    try:
        db.store(i)
    except OSError:
        assert i.binsha is None
    else:
        assert db.stream(i.binsha).read() == data


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
