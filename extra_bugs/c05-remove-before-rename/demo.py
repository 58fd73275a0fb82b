import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from gitdb.util import LockedFD
    path = scratch + '/f'
    open(path, 'w').write('old')
    l = LockedFD(path)
    os.write(l.open(write=True), b'new')
    real = os.rename
    def fail(*args):
        raise OSError(5, 'Input/output error')
    os.rename = fail
    try:
        l.commit()
    except OSError:
        pass
    finally:
        os.rename = real
    assert open(path).read() == 'old'


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
