import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())         # the gitdb under test
scratch = tempfile.mkdtemp(prefix='gitdb-demo-')
os.environ['TMPDIR'] = tempfile.tempdir = scratch
import gitdb
assert os.path.dirname(os.path.dirname(os.path.abspath(gitdb.__file__))) == os.getcwd(), gitdb.__file__


def main():
    from io import BytesIO
    from gitdb import IStream, LooseObjectDB
    import gitdb.db.loose as gl
    import zlib, hashlib
    raw = b'blob 3000\0' + b'0123456789' * 300
    sha = hashlib.sha1(raw).digest()
    db = LooseObjectDB(scratch)
    db.store(IStream(b'blob', 3000, BytesIO(zlib.compress(raw, 0)), sha))
    def die(*args):
        raise SystemExit
    real, gl.rename = gl.rename, die
    try:
        LooseObjectDB(scratch).store(IStream(b'blob', 3000, BytesIO(raw[10:])))
    except SystemExit:
        pass
    gl.rename = real
    assert LooseObjectDB(scratch).stream(sha).read() == raw[10:]


try:
    main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ok")
