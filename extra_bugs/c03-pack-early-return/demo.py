import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    import hashlib
    from gitdb import OStream
    from gitdb.pack import PackEntity
    d = b'content'
    s = hashlib.sha1(b'blob 7\0' + d).digest()
    def make():
        return PackEntity.create([OStream(s, b'blob', 7, BytesIO(d))], scratch, 1)
    class Died(BaseException): pass
    real = os.rename
    def rename(a, b):
        if b.endswith('.idx'):
            os._exit(0)
        real(a, b)
    pid = os.fork()
    if not pid:
        os.rename = rename
        make()
        os._exit(1)
    os.waitpid(pid, 0)
    assert [f for f in os.listdir(scratch) if f.endswith('.pack')] and not [f for f in os.listdir(scratch) if f.endswith('.idx')]
    e = make()
    assert e.stream(s).read() == d


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
