import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from gitdb.util import LockedFD
    import gitdb.util
    open(scratch + '/real', 'w').write('old')
    os.symlink('real', scratch + '/f')
    l = LockedFD(scratch + '/f')
    os.write(l.open(write=True), b'new')
    real = os.rename
    def fail(a, b):
        raise OSError(5, 'EIO')
    os.rename = fail
    try:
        l.commit()
        assert 0
    except OSError:
        pass
    os.rename = real
    assert open(scratch + '/f').read() == 'old'


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
