import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from gitdb.util import LockedFD
    import gitdb.util as gu
    path = scratch + '/f'
    open(path, 'w').write('old')
    real = os.rename
    def rename(*args):
        raise OSError(16, 'Device or resource busy')
    os.rename = rename
    ino = os.stat(path).st_ino
    l = LockedFD(path)
    os.write(l.open(write=True), b'new')
    # whoever has the file open must not see it change
    f = open(path)
    try:
        l.commit()
    except OSError:
        pass
    finally:
        os.rename = real
    assert f.read() == 'old'


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
