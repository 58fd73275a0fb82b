import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    from gitdb import GitDB, LooseObjectDB, IStream
    a, b = scratch + '/a', scratch + '/issue#5'
    os.makedirs(a + '/info'); os.makedirs(b)
    open(a + '/info/alternates', 'w').write(b + '\n')
    s = LooseObjectDB(b).store(IStream(b'blob', 4, BytesIO(b'gone'))).binsha
    assert GitDB(a).has_object(s)


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
