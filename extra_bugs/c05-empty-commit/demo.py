import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from gitdb.util import LockedFD
    path = scratch + '/f'
    open(path, 'w').write('old')
    l = LockedFD(path)
    l.open(write=True)
    l.commit()
    assert open(path).read() == ''


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
