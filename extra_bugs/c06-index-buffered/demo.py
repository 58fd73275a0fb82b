import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    from gitdb import OStream
    import gitdb.stream as st, hashlib, errno
    from gitdb.pack import PackEntity
    data = b'abc' * 100
    sha = hashlib.sha1(b'blob 300\0' + data).digest()
    n = [0]
    for k in range(400):
        for f in os.listdir(scratch):
            os.remove(scratch + '/' + f)
        real = os.write
        cnt = [0]
        def write(fd, d):
            cnt[0] += 1
            if cnt[0] > k:
                raise OSError(errno.ENOSPC, 'full')
            return real(fd, d)
        os.write = write
        try:
            e = PackEntity.create([OStream(sha, b'blob', len(data), BytesIO(data))], scratch)
        except OSError:
            continue
        finally:
            os.write = real
        assert e.index().size() == 1 and e.stream(sha).read() == data, k
        break
    else:
        assert 0


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
