From d8050ea537d8d68d8a41fc8b31e58950ea1b6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:15 +0000
Subject: [PATCH 01/47] fix: 'sha in db' raised AttributeError instead of
 querying the database

---
 gitdb/db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 7312fe0..245bce2 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -28,7 +28,7 @@ class ObjectDBR:
     Objects are identified either by their 20 byte bin sha"""
 
     def __contains__(self, sha):
-        return self.has_obj
+        return self.has_object(sha)
 
     #{ Query Interface
     def has_object(self, sha):
-- 
2.43.0


From 44235a20d1dafa20d44b07c6fd73a3315331cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:00 +0000
Subject: [PATCH 02/47] fix: short reads of a source stream truncated stored
 objects silently

---
 gitdb/fun.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index a272e5c..6766c51 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -496,14 +496,18 @@ def write_object(type, size, read, write, chunk_size=chunk_size):
     :param write: write method of the output stream
     :param close_target_stream: if True, the target stream will be closed when
         the routine exits, even if an error is thrown
-    :return: The actual amount of bytes written to stream, which includes the header and a trailing newline"""
+    :return: The actual amount of bytes written to stream, which includes the header and a trailing newline
+    :raise IOError: if the stream did not provide size bytes"""
     tbw = 0                                             # total num bytes written
 
     # WRITE HEADER: type SP size NULL
     tbw += write(loose_object_header(type, size))
-    tbw += stream_copy(read, write, size, chunk_size)
+    dbw = stream_copy(read, write, size, chunk_size)
+    if dbw != size:
+        raise OSError("Expected %i bytes of object data, but the stream provided %i" % (size, dbw))
+    # END assure the object matches its header
 
-    return tbw
+    return tbw + dbw
 
 
 def stream_copy(read, write, size, chunk_size):
@@ -526,7 +530,8 @@ def stream_copy(read, write, size, chunk_size):
         data_len = len(data)
         dbw += data_len
         write(data)
-        if data_len < cs or dbw == size:
+        # a read may return less than we asked for, only an empty one marks the end
+        if data_len == 0 or dbw >= size:
             break
         # END check for stream end
     # END duplicate data
-- 
2.43.0


From 657692fe9c119d2c678b839285360e47bf104349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 03/47] fix: FlexibleSha1Writer.write returned None, so it
 could not be used as output stream

---
 gitdb/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1e0be84..c62b21d 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -598,9 +598,11 @@ class FlexibleSha1Writer(Sha1Writer):
         self.writer = writer
 
     def write(self, data):
-        Sha1Writer.write(self, data)
+        alen = Sha1Writer.write(self, data)
         self.writer(data)
 
+        return alen
+
 
 class ZippedStoreShaWriter(Sha1Writer):
 
-- 
2.43.0


From 2a1a5148ba2b885cb57d4eadf27b9295a5a2a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 04/47] fix: reading a file without memory map could return
 truncated contents

---
 gitdb/util.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index bb6d879..d64fcfc 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -182,8 +182,17 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
         pass
     # END exception handling
 
-    # read manually
-    contents = os.read(fd, os.fstat(fd).st_size)
+    # read manually - a single read may return less than we ask for
+    chunks = list()
+    bytes_left = os.fstat(fd).st_size
+    while bytes_left:
+        chunk = os.read(fd, bytes_left)
+        if not chunk:
+            break
+        chunks.append(chunk)
+        bytes_left -= len(chunk)
+    # END while there is something to read
+    contents = b''.join(chunks)
     if stream:
         return _RandomAccessBytesIO(contents)
     return contents
-- 
2.43.0


From 045eb8f2510e447131a01aa6c1b053848b6c790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 05/47] fix: object streams could end early or deliver too many
 bytes, depending on the compression

---
 gitdb/stream.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index c62b21d..60ecaac 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -218,10 +218,26 @@ class DecompressMemMapReader(LazyMixin):
             size = min(size, self._s - self._br)
         # END clamp size
 
-        if size == 0:
-            return b''
-        # END handle depletion
-
+        return self._read(size)
+
+    def _read(self, size):
+        """:return: size uncompressed bytes, or less if the compressed stream ends before"""
+        chunks = list()
+        while size > 0:
+            chunk = self._read_some(size)
+            chunks.append(chunk)
+            size -= len(chunk)
+            # It can happen, depending on the compression, that we get less bytes than ordered,
+            # or none at all, even though there are more to come
+            if self._zip.eof and not self._buflen:
+                break
+            if not chunk and not self._zip.unconsumed_tail and self._cwe >= len(self._m):
+                break
+        # END until we have all bytes
+        return b''.join(chunks)
+
+    def _read_some(self, size):
+        """:return: up to size uncompressed bytes, as obtained by decompressing the next window"""
         # deplete the buffer, then just continue using the decompress object
         # which has an own buffer. We just need this to transparently parse the
         # header from the zlib stream
@@ -307,15 +323,6 @@ class DecompressMemMapReader(LazyMixin):
             dcompdat = dat + dcompdat
         # END prepend our cached data
 
-        # it can happen, depending on the compression, that we get less bytes
-        # than ordered as it needs the final portion of the data as well.
-        # Recursively resolve that.
-        # Note: dcompdat can be empty even though we still appear to have bytes
-        # to read, if we are called by compressed_bytes_read - it manipulates
-        # us to empty the stream
-        if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
-            dcompdat += self.read(size - len(dcompdat))
-        # END handle special case
         return dcompdat
 
 
-- 
2.43.0


From 8201ede2cb102a16b278e7814e19273a442e2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:42 +0000
Subject: [PATCH 06/47] fix: wrong base for an offset delta found behind a
 reference delta

PackEntity.collect_streams_at_offset used the (relative) delta offset as if it was absolute
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index e559e11..31a7042 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -889,7 +889,7 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.delta_info)
+                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
             # END resolve ref streams
-- 
2.43.0


From b6f0655e5b57ebe7307de6c5046cb02e44025578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:17 +0000
Subject: [PATCH 07/47] fix: compressed_bytes_read() did not terminate for
 empty objects

Scrubbing the stream must not be clamped by the announced size, and is done
when the decompressor saw the end of the compressed stream.
---
 gitdb/stream.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 60ecaac..86e3716 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -172,18 +172,18 @@ class DecompressMemMapReader(LazyMixin):
 
         # Only scrub the stream forward if we are officially done with the
         # bytes we were to have.
-        if self._br == self._s and not self._zip.unused_data:
+        if self._br == self._s and not self._zip.eof:
             # manipulate the bytes-read to allow our own read method to continue
             # but keep the window at its current position
             self._br = 0
             if hasattr(self._zip, 'status'):
                 while self._zip.status == zlib.Z_OK:
-                    self.read(mmap.PAGESIZE)
+                    self._read_some(mmap.PAGESIZE)
                 # END scrub-loop custom zlib
             else:
-                # pass in additional pages, until we have unused data
-                while not self._zip.unused_data and self._cbr != len(self._m):
-                    self.read(mmap.PAGESIZE)
+                # pass in additional pages, until the end of the compressed stream was seen
+                while not self._zip.eof and self._cbr != len(self._m):
+                    self._read_some(mmap.PAGESIZE)
                 # END scrub-loop default zlib
             # END handle stream scrubbing
 
-- 
2.43.0


From 336d0bbe48b22fbc94dd7ac980adb91d17ad4361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:17 +0000
Subject: [PATCH 08/47] fix: compressed_bytes_read() was too small if the
 stream ended behind a partially consumed window

The remaining input can be in unused_data and unconsumed_tail, it was subtracted twice
---
 gitdb/stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 86e3716..dcd2681 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -312,6 +312,9 @@ class DecompressMemMapReader(LazyMixin):
         # IT's CERTAINLY GOING TO BITE US IN THE FUTURE ... .
         if getattr(zlib, 'ZLIB_RUNTIME_VERSION', zlib.ZLIB_VERSION) in ('1.2.7', '1.2.5') and not sys.platform == 'darwin':
             unused_datalen = len(self._zip.unconsumed_tail)
+        elif self._zip.eof:
+            # what remains may be found in both attributes
+            unused_datalen = len(self._zip.unused_data)
         else:
             unused_datalen = len(self._zip.unconsumed_tail) + len(self._zip.unused_data)
         # # end handle very special case ...
-- 
2.43.0


From b9e2f18588864309d4f415ebeee44bf38157090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:25 +0000
Subject: [PATCH 09/47] fix: rewinding a partially read object stream delivered
 stale bytes

DecompressMemMapReader.seek() kept the buffer filled when parsing the header
---
 gitdb/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index dcd2681..344b758 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -206,6 +206,8 @@ class DecompressMemMapReader(LazyMixin):
 
         self._zip = zlib.decompressobj()
         self._br = self._cws = self._cwe = self._cbr = 0
+        self._buf = None        # drop what remains from parsing the header
+        self._buflen = 0
         if self._phi:
             self._phi = False
             del(self._s)        # trigger header parsing on first access
-- 
2.43.0


From 7d82a9c360f49602c8df2e361f44a6ecd75733f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:33 +0000
Subject: [PATCH 10/47] fix: all streams of one object in a MemoryDB shared
 their position

---
 gitdb/db/mem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index d4772fd..821d6bd 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -71,9 +71,9 @@ class MemoryDB(ObjectDBR, ObjectDBW):
     def stream(self, sha):
         try:
             ostream = self._cache[sha]
-            # rewind stream for the next one to read
-            ostream.stream.seek(0)
-            return ostream
+            # hand out a new stream each time, the position must not be shared among readers
+            decomp_stream = DecompressMemMapReader(ostream.stream.data(), close_on_deletion=False)
+            return OStream(ostream.binsha, ostream.type, ostream.size, decomp_stream)
         except KeyError as e:
             raise BadObject(sha) from e
         # END exception handling
-- 
2.43.0


From d691034460c09c677d6566a74584155e058ab2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 11/47] fix: a failing mkdir or rename left the temporary
 object file behind

---
 gitdb/db/loose.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index e6765cd..dbed1b8 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -220,14 +220,19 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         if tmp_path:
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
-            os.makedirs(obj_dir, exist_ok=True)
-            # END handle destination directory
-            # rename onto existing doesn't work on NTFS
-            if isfile(obj_path):
+            try:
+                os.makedirs(obj_dir, exist_ok=True)
+                # END handle destination directory
+                # rename onto existing doesn't work on NTFS
+                if isfile(obj_path):
+                    remove(tmp_path)
+                else:
+                    rename(tmp_path, obj_path)
+                # end rename only if needed
+            except:
                 remove(tmp_path)
-            else:
-                rename(tmp_path, obj_path)
-            # end rename only if needed
+                raise
+            # END assure tmpfile removal on error
 
             # Ensure rename is actually done and file is stable
             # Retry up to 14 times - quadratic wait & retry in ms.
-- 
2.43.0


From a013fcb213c3a290b6934986bc647eb21178247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 12/47] fix: FDCompressedSha1Writer.close() leaked the
 descriptor if the final write failed

---
 gitdb/stream.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 344b758..022665d 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -683,10 +683,13 @@ class FDCompressedSha1Writer(Sha1Writer):
         return len(data)
 
     def close(self):
-        remainder = self.zip.flush()
-        if write(self.fd, remainder) != len(remainder):
-            raise self.exc
-        return close(self.fd)
+        try:
+            remainder = self.zip.flush()
+            if write(self.fd, remainder) != len(remainder):
+                raise self.exc
+        finally:
+            close(self.fd)
+        # END assure the descriptor is released
 
     #} END stream interface
 
-- 
2.43.0


From 0d8a7d0d5e1926da5fa08a8cd21908477359efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:09 +0000
Subject: [PATCH 13/47] fix: FDStream.write() silently lost bytes if the system
 wrote less than asked for

---
 gitdb/stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 022665d..b4ffd9c 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -706,8 +706,13 @@ class FDStream:
         self._pos = 0
 
     def write(self, data):
-        self._pos += len(data)
-        os.write(self._fd, data)
+        view = memoryview(data)
+        while view:
+            written = os.write(self._fd, view)
+            self._pos += written
+            view = view[written:]
+        # END handle short writes
+        return len(data)
 
     def read(self, count=0):
         if count == 0:
-- 
2.43.0


From 1c36032c648183c3306295921d26ce431af056e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:40 +0000
Subject: [PATCH 14/47] fix: FDStream.read() without a count raised
 AttributeError

---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index b4ffd9c..afc0a8b 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -716,7 +716,7 @@ class FDStream:
 
     def read(self, count=0):
         if count == 0:
-            count = os.path.getsize(self._filepath)
+            count = os.fstat(self._fd).st_size
         # END handle read everything
 
         bytes = os.read(self._fd, count)
-- 
2.43.0


From c9c6c6fd90e36777a5ce3bd11821b01db25ebcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 15/47] fix: LockedFD kept its lock forever if closing or
 renaming failed

The descriptor could be closed twice as well, hitting an unrelated one
---
 gitdb/util.py | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index d64fcfc..f8de908 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -330,15 +330,22 @@ class LockedFD:
         lockmode = os.O_WRONLY | os.O_CREAT | os.O_EXCL | binary
         try:
             fd = os.open(self._lockfilepath(), lockmode, int("600", 8))
-            if not write:
-                os.close(fd)
-            else:
-                self._fd = fd
-            # END handle file descriptor
         except OSError as e:
             raise OSError("Lock at %r could not be obtained" % self._lockfilepath()) from e
         # END handle lock retrieval
 
+        if write:
+            self._fd = fd
+        else:
+            try:
+                os.close(fd)
+            except:
+                # assure we release our lockfile
+                remove(self._lockfilepath())
+                raise
+            # END handle lockfile
+        # END handle file descriptor
+
         # open actual file if required
         if self._fd is None:
             # we could specify exclusive here, as we obtained the lock anyway
@@ -382,19 +389,27 @@ class LockedFD:
         if self._fd is None:
             return
 
-        os.close(self._fd)
-        self._fd = None
-
         lockfile = self._lockfilepath()
-        if self._write and successful:
-            # on windows, rename does not silently overwrite the existing one
-            if sys.platform == "win32":
-                if isfile(self._filepath):
-                    remove(self._filepath)
-                # END remove if exists
-            # END win32 special handling
-            os.rename(lockfile, self._filepath)
+        fd, self._fd = self._fd, None       # never try to close it twice
+        try:
+            os.close(fd)
+
+            if self._write and successful:
+                # on windows, rename does not silently overwrite the existing one
+                if sys.platform == "win32":
+                    if isfile(self._filepath):
+                        remove(self._filepath)
+                    # END remove if exists
+                # END win32 special handling
+                os.rename(lockfile, self._filepath)
+            # END put new contents in place
+        except:
+            # assure we release our lockfile
+            remove(lockfile)
+            raise
+        # END handle failure
 
+        if self._write and successful:
             # assure others can at least read the file - the tmpfile left it at rw--
             # We may also write that file, on windows that boils down to a remove-
             # protection as well
-- 
2.43.0


From baf9b1e55db6794ef10289755fc29aabcd56e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:01 +0000
Subject: [PATCH 16/47] fix: PackEntity.create() ignored short writes and left
 files and descriptors behind on failure

A short write resulted in a published, but truncated pack
---
 gitdb/pack.py | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 31a7042..53575ff 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -55,6 +55,7 @@ from gitdb.stream import (
     DeltaApplyReader,
     Sha1Writer,
     NullStream,
+    FDStream,
     FlexibleSha1Writer
 )
 
@@ -63,6 +64,7 @@ from binascii import crc32
 
 from gitdb.const import NULL_BYTE
 
+from contextlib import ExitStack, suppress
 import tempfile
 import array
 import os
@@ -1011,20 +1013,37 @@ class PackEntity(LazyMixin):
         :return: PackEntity instance initialized with the new pack
 
         **Note:** for more information on the other parameters see the write_pack method"""
-        pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
-        index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
-        pack_write = lambda d: os.write(pack_fd, d)
-        index_write = lambda d: os.write(index_fd, d)
-
-        pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
-        os.close(pack_fd)
-        os.close(index_fd)
-
-        fmt = "pack-%s.%s"
-        new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-        new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
-        os.rename(pack_path, new_pack_path)
-        os.rename(index_path, new_index_path)
+        paths = list()                                  # files to remove if we fail
+        try:
+            with ExitStack() as stack:
+                def tmp_writer(prefix):
+                    fd, path = tempfile.mkstemp('', prefix, base_dir)
+                    paths.append(path)
+                    stack.callback(os.close, fd)
+                    return FDStream(fd).write
+                # END utility
+                pack_write = tmp_writer('pack')
+                index_write = tmp_writer('index')
+                pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
+            # END assure files are closed
+
+            fmt = "pack-%s.%s"
+            new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+            for i, path in enumerate((new_pack_path, new_index_path)):
+                is_new = not os.path.exists(path)
+                os.rename(paths[i], path)
+                if is_new:
+                    paths[i] = path
+                # END never remove a file which was there before
+            # END for each file to publish
+        except:
+            for path in paths:
+                with suppress(OSError):
+                    os.remove(path)
+            # END for each path
+            raise
+        # END assure nothing is left behind
 
         return cls(new_pack_path)
 
-- 
2.43.0


From 88d108f6adc13b9d35834e59b91e3fae636f54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:20 +0000
Subject: [PATCH 17/47] fix: short reads of a source stream truncated objects
 in written packs

---
 gitdb/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 53575ff..3f400c7 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -155,7 +155,8 @@ def write_stream_to_pack(read, write, zstream, base_crc=None):
             crc = crc32(compressed, crc)
         # END handle crc
 
-        if len(chunk) != chunk_size:
+        # a read may return less than we asked for, only an empty one marks the end
+        if not chunk:
             break
     # END copy loop
 
-- 
2.43.0


From d0a5a4f11f455dcd4fe56792b3cd95637984ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:57 +0000
Subject: [PATCH 18/47] fix: packs created by PackEntity.create() were named
 after the repr of the checksum

Names like pack-b'...'.pack are not those git uses for packs
---
 gitdb/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 3f400c7..625f46c 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1029,8 +1029,9 @@ class PackEntity(LazyMixin):
             # END assure files are closed
 
             fmt = "pack-%s.%s"
-            new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-            new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+            pack_hexsha = bin_to_hex(pack_binsha).decode('ascii')
+            new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
             for i, path in enumerate((new_pack_path, new_index_path)):
                 is_new = not os.path.exists(path)
                 os.rename(paths[i], path)
-- 
2.43.0


From 2403d76b7e477ed5b66208270342fbc882d1342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:18 +0000
Subject: [PATCH 19/47] fix: PackIndexFile.offsets() returned table positions
 instead of 64 bit offsets

---
 gitdb/pack.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 625f46c..32f2528 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -412,10 +412,13 @@ class PackIndexFile(LazyMixin):
             # networkbyteorder to something array likes more
             if sys.byteorder == 'little':
                 a.byteswap()
-            return a
-        else:
-            return tuple(self.offset(index) for index in range(self.size()))
+
+            # entries with the high-bit set refer to the 64 bit offset table
+            if not any(offset & 0x80000000 for offset in a):
+                return a
+            # END handle 64 bit offsets
         # END handle version
+        return tuple(self.offset(index) for index in range(self.size()))
 
     def sha_to_index(self, sha):
         """
-- 
2.43.0


From ad0cc986f5aed4cae9d609ebb115868c77434025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:16 +0000
Subject: [PATCH 20/47] fix: a failing directory listing made PackedDB forget
 its packs for good

glob hides errors of the listing, and the time stamp was remembered before
anything was known. Packs without an index (being fetched) made all lookups fail.
---
 gitdb/db/pack.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 274ea59..00cfae8 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -22,7 +22,6 @@ from gitdb.pack import PackEntity
 from functools import reduce
 
 import os
-import glob
 
 __all__ = ('PackedDB', )
 
@@ -50,7 +49,6 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
     def _set_cache_(self, attr):
         if attr == '_entities':
-            self._entities = list()
             self.update_cache(force=True)
         # END handle entities initialization
 
@@ -142,33 +140,31 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         if not force and stat.st_mtime <= self._st_mtime:
             return False
         # END abort early on no change
-        self._st_mtime = stat.st_mtime
-
         # packs are supposed to be prefixed with pack- by git-convention
-        # get all pack files, figure out what changed
-        pack_files = set(glob.glob(os.path.join(self.root_path(), "pack-*.pack")))
-        our_pack_files = {item[1].pack().path() for item in self._entities}
+        # get all pack files, figure out what changed. Those without an index are not
+        # complete yet.
+        # NOTE: Our state is only changed once we know everything, as a failure must not
+        # make us believe that we are up-to-date
+        names = set(os.listdir(self.root_path()))
+        pack_files = {os.path.join(self.root_path(), name) for name in names
+                      if name.startswith('pack-') and name.endswith('.pack')
+                      and name[:-len('.pack')] + '.idx' in names}
+
+        # keep the packs which are still there
+        entities = [item for item in vars(self).get('_entities', ())
+                    if item[1].pack().path() in pack_files]
+        our_pack_files = {item[1].pack().path() for item in entities}
 
         # new packs
         for pack_file in (pack_files - our_pack_files):
             # init the hit-counter/priority with the size, a good measure for hit-
             # probability. Its implemented so that only 12 bytes will be read
             entity = PackEntity(pack_file)
-            self._entities.append([entity.pack().size(), entity, entity.index().sha_to_index])
+            entities.append([entity.pack().size(), entity, entity.index().sha_to_index])
         # END for each new packfile
 
-        # removed packs
-        for pack_file in (our_pack_files - pack_files):
-            del_index = -1
-            for i, item in enumerate(self._entities):
-                if item[1].pack().path() == pack_file:
-                    del_index = i
-                    break
-                # END found index
-            # END for each entity
-            assert del_index != -1
-            del(self._entities[del_index])
-        # END for each removed pack
+        self._entities = entities
+        self._st_mtime = stat.st_mtime
 
         # reinitialize prioritiess
         self._sort_entities()
-- 
2.43.0


From f52395498a9d626aa04ec8b54e8e3c3d799e271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 21/47] fix: GitDB.update_cache() never noticed a pack
 directory created later

The same is true for info/alternates, as the list of databases was determined once.
---
 gitdb/db/git.py | 63 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index a1ed142..097610d 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -43,34 +43,49 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
-            self._dbs = list()
-            loose_db = None
-            for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
-                                   (self.loose_dir, self.LooseDBCls),
-                                   (self.alternates_dir, self.ReferenceDBCls)):
-                path = self.db_path(subpath)
-                if os.path.exists(path):
-                    self._dbs.append(dbcls(path))
-                    if dbcls is self.LooseDBCls:
-                        loose_db = self._dbs[-1]
-                    # END remember loose db
-                # END check path exists
-            # END for each db type
-
-            # should have at least one subdb
-            if not self._dbs:
-                raise InvalidDBRoot(self.root_path())
-            # END handle error
-
-            # we the first one should have the store method
-            assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
-
-            # finally set the value
-            self._loose_db = loose_db
+            self._update_dbs()
         else:
             super()._set_cache_(attr)
         # END handle attrs
 
+    def _update_dbs(self):
+        """Set our databases according to what exists on disk, and keep the ones we have already"""
+        cur_dbs = {type(db): db for db in vars(self).get('_dbs', ())}
+        dbs = list()
+        loose_db = None
+        for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
+                               (self.loose_dir, self.LooseDBCls),
+                               (self.alternates_dir, self.ReferenceDBCls)):
+            path = self.db_path(subpath)
+            if os.path.exists(path):
+                dbs.append(cur_dbs.get(dbcls) or dbcls(path))
+                if dbcls is self.LooseDBCls:
+                    loose_db = dbs[-1]
+                # END remember loose db
+            # END check path exists
+        # END for each db type
+
+        # should have at least one subdb
+        if not dbs:
+            raise InvalidDBRoot(self.root_path())
+        # END handle error
+
+        # we the first one should have the store method
+        assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
+
+        # finally set the value
+        self._loose_db = loose_db
+        self._dbs = dbs
+
+    #{ CachingDB interface
+
+    def update_cache(self, force=False):
+        # the packs directory or the alternates may have come into existence, or vanished
+        self._update_dbs()
+        return super().update_cache(force)
+
+    #} END cachingdb interface
+
     #{ ObjectDBW interface
 
     def store(self, istream):
-- 
2.43.0


From ae26617de26ee2df2301c459558300765a8333e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:51 +0000
Subject: [PATCH 22/47] fix: LooseObjectDB remembered objects which were packed
 or pruned forever

As it had no update_cache(), a GitDB kept asking it for objects that had moved
into a pack, and reported them as missing.
---
 gitdb/db/loose.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index dbed1b8..046c6c4 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -7,7 +7,8 @@ from contextlib import suppress
 from gitdb.db.base import (
     FileDBBase,
     ObjectDBR,
-    ObjectDBW
+    ObjectDBW,
+    CachingDB
 )
 
 from gitdb.exc import (
@@ -60,7 +61,7 @@ import time
 __all__ = ('LooseObjectDB', )
 
 
-class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
+class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
     """A database which operates on loose object files"""
 
@@ -122,6 +123,11 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
             raise BadObject(partial_hexsha)
         return candidate
 
+    def update_cache(self, force=False):
+        # forget about the objects we have seen, they may have been packed or pruned
+        self._hexsha_to_file = dict()
+        return False
+
     #} END interface
 
     def _map_loose_object(self, sha):
-- 
2.43.0


From d1043737ba434c6b80fe2cfcde68da9de8fe9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:02 +0000
Subject: [PATCH 23/47] fix: PackedDB.update_cache() ignored changes if the
 clock went backwards

---
 gitdb/db/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 00cfae8..b10dde7 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -137,7 +137,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         :return: True if the packs have been updated so there is new information,
             False if there was no change to the pack database"""
         stat = os.stat(self.root_path())
-        if not force and stat.st_mtime <= self._st_mtime:
+        if not force and stat.st_mtime == self._st_mtime:
             return False
         # END abort early on no change
         # packs are supposed to be prefixed with pack- by git-convention
-- 
2.43.0


From 8bb8148a33b4783df74163160611cfe9d418118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:59 +0000
Subject: [PATCH 24/47] fix: concurrent lookups in a ReferenceDB missed objects
 while its list of databases was being built

---
 gitdb/db/ref.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index bd30156..f9b5b25 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -25,7 +25,6 @@ class ReferenceDB(CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs':
-            self._dbs = list()
             self._update_dbs_from_ref_file()
         else:
             super()._set_cache_(attr)
@@ -48,17 +47,11 @@ class ReferenceDB(CompoundDB):
             pass
         # END handle alternates
 
+        # keep the databases which are still referred to
+        # NOTE: others may be using the current list, it must not be changed while we fill the new one
         ref_paths_set = set(ref_paths)
-        cur_ref_paths_set = {db.root_path() for db in self._dbs}
-
-        # remove existing
-        for path in (cur_ref_paths_set - ref_paths_set):
-            for i, db in enumerate(self._dbs[:]):
-                if db.root_path() == path:
-                    del(self._dbs[i])
-                    continue
-                # END del matching db
-        # END for each path to remove
+        dbs = [db for db in vars(self).get('_dbs', ()) if db.root_path() in ref_paths_set]
+        cur_ref_paths_set = {db.root_path() for db in dbs}
 
         # add new
         # sort them to maintain order
@@ -70,11 +63,12 @@ class ReferenceDB(CompoundDB):
                 if isinstance(db, CompoundDB):
                     db.databases()
                 # END verification
-                self._dbs.append(db)
+                dbs.append(db)
             except Exception:
                 # ignore invalid paths or issues
                 pass
         # END for each path to add
+        self._dbs = dbs
 
     def update_cache(self, force=False):
         # re-read alternates and update databases
-- 
2.43.0


From 87229c95ca3b6d4812cdaab35901c33cdc4a5fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:50 +0000
Subject: [PATCH 25/47] fix: concurrent lookups in a PackedDB missed objects
 while its packs were being sorted

---
 gitdb/db/pack.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index b10dde7..dab6094 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -22,6 +22,7 @@ from gitdb.pack import PackEntity
 from functools import reduce
 
 import os
+from threading import RLock
 
 __all__ = ('PackedDB', )
 
@@ -46,6 +47,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # self._entities = list()       # lazy loaded list
         self._hit_count = 0             # amount of hits
         self._st_mtime = 0              # last modification data of our root path
+        # serializes changes of the list of entities. Lookups don't need it as the list
+        # is only ever replaced, never changed in place
+        self._update_lock = RLock()
 
     def _set_cache_(self, attr):
         if attr == '_entities':
@@ -53,7 +57,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # END handle entities initialization
 
     def _sort_entities(self):
-        self._entities.sort(key=lambda l: l[0], reverse=True)
+        # NOTE: a list being sorted in place appears to be empty to other threads
+        with self._update_lock:
+            self._entities = sorted(self._entities, key=lambda l: l[0], reverse=True)
 
     def _pack_info(self, sha):
         """:return: tuple(entity, index) for an item at the given sha
@@ -136,6 +142,10 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
             does not appear to have changed according to its modification timestamp.
         :return: True if the packs have been updated so there is new information,
             False if there was no change to the pack database"""
+        with self._update_lock:
+            return self._update_entities(force)
+
+    def _update_entities(self, force):
         stat = os.stat(self.root_path())
         if not force and stat.st_mtime == self._st_mtime:
             return False
-- 
2.43.0


From 3987de97515894beed579db67b008ace697a5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:12 +0000
Subject: [PATCH 26/47] fix: a lookup racing with update_cache() of a
 CompoundDB could leave a stale database in the new cache

---
 gitdb/db/base.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 245bce2..b0c1c6e 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -183,15 +183,17 @@ class CompoundDB(ObjectDBR, LazyMixin, CachingDB):
         :raise BadObject:"""
         # most databases use binary representations, prevent converting
         # it every time a database is being queried
+        # NOTE: if the cache is updated meanwhile, our result must not end up in the new one
+        db_cache = self._db_cache
         try:
-            return self._db_cache[sha]
+            return db_cache[sha]
         except KeyError:
             pass
         # END first level cache
 
         for db in self._dbs:
             if db.has_object(sha):
-                self._db_cache[sha] = db
+                db_cache[sha] = db
                 return db
         # END for each database
         raise BadObject(sha)
@@ -228,14 +230,17 @@ class CompoundDB(ObjectDBR, LazyMixin, CachingDB):
         return tuple(self._dbs)
 
     def update_cache(self, force=False):
-        # something might have changed, clear everything
-        self._db_cache.clear()
         stat = False
-        for db in self._dbs:
-            if isinstance(db, CachingDB):
-                stat |= db.update_cache(force)
-            # END if is caching db
-        # END for each database to update
+        try:
+            for db in self._dbs:
+                if isinstance(db, CachingDB):
+                    stat |= db.update_cache(force)
+                # END if is caching db
+            # END for each database to update
+        finally:
+            # something might have changed, clear everything
+            self._db_cache = dict()
+        # END assure the cache is cleared
         return stat
 
     def partial_to_complete_sha_hex(self, partial_hexsha):
-- 
2.43.0


From c722b51abfb188a34091a3391b4a5671800cd827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:08 +0000
Subject: [PATCH 27/47] fix: a lookup racing with update_cache() of a
 LooseObjectDB could leave a stale entry in the new cache

---
 gitdb/db/loose.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 046c6c4..e8d57ca 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -94,14 +94,16 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         """
         :return: readable object path to the object identified by hexsha
         :raise BadObject: If the object file does not exist"""
+        # NOTE: if the cache is updated meanwhile, our result must not end up in the new one
+        hexsha_to_file = self._hexsha_to_file
         with suppress(KeyError):
-            return self._hexsha_to_file[hexsha]
+            return hexsha_to_file[hexsha]
         # END ignore cache misses
 
         # try filesystem
         path = self.db_path(self.object_path(hexsha))
         if exists(path):
-            self._hexsha_to_file[hexsha] = path
+            hexsha_to_file[hexsha] = path
             return path
         # END handle cache
         raise BadObject(hexsha)
-- 
2.43.0


From cdb9e2c7af24447c47ccb319e51c94e62eacc16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:22 +0000
Subject: [PATCH 28/47] fix: reading a truncated object silently delivered less
 bytes than announced

---
 gitdb/stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index afc0a8b..469fb10 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -26,6 +26,7 @@ from gitdb.util import (
     close,
 )
 
+from gitdb.exc import ParseError
 from gitdb.const import NULL_BYTE, BYTE_SPACE
 from gitdb.utils.encoding import force_bytes
 
@@ -101,7 +102,7 @@ class DecompressMemMapReader(LazyMixin):
         # And for good reason !! This needs to be that high for the header to be read correctly in all cases
         maxb = 8192
         self._s = maxb
-        hdr = self.read(maxb)
+        hdr = self._read(maxb)
         hdrend = hdr.find(NULL_BYTE)
         typ, size = hdr[:hdrend].split(BYTE_SPACE)
         size = int(size)
@@ -220,7 +221,11 @@ class DecompressMemMapReader(LazyMixin):
             size = min(size, self._s - self._br)
         # END clamp size
 
-        return self._read(size)
+        data = self._read(size)
+        if len(data) < size:
+            raise ParseError("Compressed data ended %i bytes before the end of the object" % (size - len(data)))
+        # END handle truncated data
+        return data
 
     def _read(self, size):
         """:return: size uncompressed bytes, or less if the compressed stream ends before"""
-- 
2.43.0


From 509594304a6affb4c1687425b03dfcc9da881246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 29/47] fix: a damaged delta base led to an endless loop

---
 gitdb/pack.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 32f2528..afd4d7f 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -600,6 +600,14 @@ class PackFile(LazyMixin):
 
     #{ Pack Specific
 
+    def _delta_base_offset(self, ostream):
+        """:return: offset of the base of the given OFS_DELTA stream
+        :raise ParseError: if it doesn't precede the delta, which would lead us in circles"""
+        offset = ostream.pack_offset - ostream.delta_info
+        if not self.first_object_offset <= offset < ostream.pack_offset:
+            raise ParseError("Invalid base offset %i of delta at offset %i" % (offset, ostream.pack_offset))
+        return offset
+
     def collect_streams(self, offset):
         """
         :return: list of pack streams which are required to build the object
@@ -615,7 +623,7 @@ class PackFile(LazyMixin):
             ostream = pack_object_at(c, offset, True)[1]
             out.append(ostream)
             if ostream.type_id == OFS_DELTA:
-                offset = ostream.pack_offset - ostream.delta_info
+                offset = self._delta_base_offset(ostream)
             else:
                 # the only thing we can lookup are OFFSET deltas. Everything
                 # else is either an object, or a ref delta, in the latter
@@ -880,6 +888,7 @@ class PackEntity(LazyMixin):
         # a REF delta, or a base object, as OFFSET deltas are resolved by the pack
         if streams[-1].type_id == REF_DELTA:
             stream = streams[-1]
+            offsets = {s.pack_offset for s in streams}
             while stream.type_id in delta_types:
                 if stream.type_id == REF_DELTA:
                     # smmap can return memory view objects, which can't be compared as buffers/bytes can ...
@@ -895,9 +904,13 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
+                    stream = self._pack.stream(self._pack._delta_base_offset(stream))
                     streams.append(stream)
                 # END handle ref delta
+                if stream.pack_offset in offsets:
+                    raise ParseError("Delta at offset %i is based on itself" % stream.pack_offset)
+                # END handle circles
+                offsets.add(stream.pack_offset)
             # END resolve ref streams
         # END resolve streams
 
-- 
2.43.0


From 51f9bddda6f99350ff61f10c6acfff63f14ec9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 30/47] fix: a damaged fanout table made enumeration of an
 index run through billions of entries

---
 gitdb/pack.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index afd4d7f..1e709dc 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -360,7 +360,14 @@ class PackIndexFile(LazyMixin):
 
     def _initialize(self):
         """initialize base data"""
-        self._fanout_table = self._read_fanout((self._version == 2) * 8)
+        fanout_table = self._read_fanout((self._version == 2) * 8)
+
+        # the table says how many entries there are, they have to be in the file
+        entries_size = fanout_table[255] * (28 if self._version == 2 else 24)
+        if (self._version == 2) * 8 + 1024 + entries_size + 40 > len(self._cursor.map()):
+            raise ParseError("Index file at %s is too small for %i objects" % (self._indexpath, fanout_table[255]))
+        # END check size
+        self._fanout_table = fanout_table
 
         if self._version == 2:
             self._crc_list_offset = self._sha_list_offset + self.size() * 20
-- 
2.43.0


From c4e177d9c0ce7b1be7ba456628276b4025e6cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:33 +0000
Subject: [PATCH 31/47] fix: abbreviated ids were never ambiguous within one
 pack

---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 1e709dc..6857bb7 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -497,7 +497,7 @@ class PackIndexFile(LazyMixin):
                 next_sha = None
                 if lo + 1 < self.size():
                     next_sha = get_sha(lo + 1)
-                if next_sha and next_sha == cur_sha:
+                if next_sha and is_equal_canonical_sha(canonical_length, partial_bin_sha, next_sha):
                     raise AmbiguousObjectName(partial_bin_sha)
                 return lo
             # END if we have a match
-- 
2.43.0


From dbd7d6192367400a85992acbba86d171a7de7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 32/47] fix: MemoryDB.store() compressed already compressed
 streams once more

---
 gitdb/db/mem.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index 821d6bd..1aedf7c 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -20,6 +20,7 @@ from gitdb.exc import (
 )
 
 from gitdb.stream import (
+    FlexibleSha1Writer,
     ZippedStoreShaWriter,
     DecompressMemMapReader,
 )
@@ -47,11 +48,18 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         raise UnsupportedOperation("MemoryDB's always stream into memory")
 
     def store(self, istream):
-        zstream = ZippedStoreShaWriter()
-        self._db.set_ostream(zstream)
-
-        istream = self._db.store(istream)
-        zstream.close()     # close to flush
+        if istream.binsha is not None:
+            # the stream delivers compressed data already, which must not be compressed again
+            zstream = BytesIO()
+            self._db.set_ostream(FlexibleSha1Writer(zstream.write))
+            istream = self._db.store(istream)
+        else:
+            zstream = ZippedStoreShaWriter()
+            self._db.set_ostream(zstream)
+
+            istream = self._db.store(istream)
+            zstream.close()     # close to flush
+        # END handle direct stream copies
         zstream.seek(0)
 
         # don't provide a size, the stream is written in object format, hence the
-- 
2.43.0


From 8694c643b7e626a43a8c83b8ce3f9e4ff984a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 33/47] fix: one undecodable line in an alternates file made
 the whole database unusable

---
 gitdb/db/ref.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index f9b5b25..ab6c7cd 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -2,7 +2,7 @@
 #
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
-import codecs
+import os
 from gitdb.db.base import (
     CompoundDB,
 )
@@ -41,8 +41,9 @@ class ReferenceDB(CompoundDB):
         # try to get as many as possible, don't fail if some are unavailable
         ref_paths = list()
         try:
-            with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
-                ref_paths = [l.strip() for l in f]
+            # NOTE: paths may contain anything but a newline, and may not even be valid unicode
+            with open(self._ref_file, 'rb') as f:
+                ref_paths = [os.fsdecode(l.strip()) for l in f]
         except OSError:
             pass
         # END handle alternates
-- 
2.43.0


From 0665ba44784af98167a06d8d8297131554288393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 34/47] fix: an alternate which vanished made update_cache()
 fail for good

---
 gitdb/db/ref.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index ab6c7cd..d6e7538 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -48,10 +48,11 @@ class ReferenceDB(CompoundDB):
             pass
         # END handle alternates
 
-        # keep the databases which are still referred to
+        # keep the databases which are still referred to, unless they vanished
         # NOTE: others may be using the current list, it must not be changed while we fill the new one
         ref_paths_set = set(ref_paths)
-        dbs = [db for db in vars(self).get('_dbs', ()) if db.root_path() in ref_paths_set]
+        dbs = [db for db in vars(self).get('_dbs', ()) if db.root_path() in ref_paths_set
+               and os.path.isdir(db.root_path())]
         cur_ref_paths_set = {db.root_path() for db in dbs}
 
         # add new
-- 
2.43.0


From e2b7d9cbcb3d4cfb98add547f7a9ba24d3eb448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 35/47] fix: LooseObjectDB.sha_iter() listed objects of
 quarantine directories

os.walk() descends into everything below the root, so that objects in a
directory like incoming-x/ab were reported although they are not part of the
database.
---
 gitdb/db/loose.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index e8d57ca..d14c51f 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -267,8 +267,11 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         # find all files which look like an object, extract sha from there
         for root, dirs, files in os.walk(self.root_path()):
             root_base = basename(root)
-            if len(root_base) != 2:
+            if root == self.root_path():
+                # objects further down are not ours, but in quarantine for instance
+                dirs[:] = [name for name in dirs if len(name) == 2]
                 continue
+            del dirs[:]
 
             for f in files:
                 if len(f) != 38:
-- 
2.43.0


From 7668b8ce290206e210fa32766d5354c3d3fe92c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:40 +0000
Subject: [PATCH 36/47] fix: store() left descriptor and temporary file behind
 if there was no memory for the compressor

The compressor is created after the temporary file, but outside of the block that removes
the file if something fails.
---
 gitdb/db/loose.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index d14c51f..4fc2377 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -35,6 +35,7 @@ from gitdb.util import (
     bin_to_hex,
     exists,
     chmod,
+    close,
     isfile,
     remove,
     rename,
@@ -190,11 +191,19 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
             # open a tmp file to write the data to
             fd, tmp_path = tempfile.mkstemp(prefix='obj', dir=self._root_path)
 
-            if istream.binsha is None:
-                writer = FDCompressedSha1Writer(fd)
-            else:
-                writer = FDStream(fd)
-            # END handle direct stream copies
+            try:
+                if istream.binsha is None:
+                    writer = FDCompressedSha1Writer(fd)
+                else:
+                    writer = FDStream(fd)
+                # END handle direct stream copies
+            except:
+                try:
+                    close(fd)
+                finally:
+                    remove(tmp_path)
+                raise
+            # END assure nothing is left if there is no memory for the compressor
         # END handle custom writer
 
         try:
-- 
2.43.0


From 0f68d7499f348efdf496b2eb730f7862b23ca42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 37/47] fix: objects at the border of the map window of a large
 pack could not be read

Packs larger than the window of the map manager, 1 GiB by default, were mapped in
pieces: an object which didn't end within the piece it started in was truncated, the
last object of the pack was given a wrong extent, and the checksum was cut if it
crossed the border.
---
 gitdb/pack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 6857bb7..4738661 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -14,6 +14,7 @@ from gitdb.exc import (
 
 from gitdb.util import (
     mman,
+    SlidingWindowMapManager,
     LazyMixin,
     unpack_from,
     bin_to_hex,
@@ -544,7 +545,12 @@ class PackFile(LazyMixin):
 
     def _set_cache_(self, attr):
         # we fill the whole cache, whichever attribute gets queried first
-        self._cursor = mman.make_cursor(self._packpath).use_region()
+        cursor = mman.make_cursor(self._packpath)
+        if 0 < mman.window_size() < cursor.file_size():
+            # objects are read from a single window, but may start and end anywhere in the file
+            cursor = SlidingWindowMapManager(window_size=cursor.file_size()).make_cursor(self._packpath)
+        # END assure the window holds the whole pack
+        self._cursor = cursor.use_region()
 
         # read the header information
         type_id, self._version, self._size = unpack_from(">LLL", self._cursor.map(), 0)
-- 
2.43.0


From 60fb51c22667ace7b58cf1e9cc62bd6a07e6b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 38/47] fix: threads reading from one pack got each other's
 data

pack_object_at() moved the cursor all readers of a pack share to the offset of the
object, and then asked it for the buffer: another thread could have moved it meanwhile.
---
 gitdb/pack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 4738661..9805c89 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -86,7 +86,8 @@ def pack_object_at(cursor, offset, as_stream):
     :parma offset: offset in to the data at which the object information is located
     :param as_stream: if True, a stream object will be returned that can read
         the data, otherwise you receive an info object only"""
-    data = cursor.use_region(offset).buffer()
+    # NOTE: the cursor is shared by all readers, and must not be moved: other threads might be using it
+    data = memoryview(cursor.map())[offset:]
     type_id, uncomp_size, data_rela_offset = pack_object_header_info(data)
     total_rela_offset = None                # set later, actual offset until data stream begins
     delta_info = None
@@ -604,7 +605,7 @@ class PackFile(LazyMixin):
 
     def checksum(self):
         """:return: 20 byte sha1 hash on all object sha's contained in this file"""
-        return self._cursor.use_region(self._cursor.file_size() - 20).buffer()[:]
+        return memoryview(self.data())[-20:]
 
     def path(self):
         """:return: path to the packfile"""
@@ -751,7 +752,7 @@ class PackEntity(LazyMixin):
             sha = self._index.sha(index)
         # END assure sha is present ( in output )
         offset = self._index.offset(index)
-        type_id, uncomp_size, data_rela_offset = pack_object_header_info(self._pack._cursor.use_region(offset).buffer())
+        type_id, uncomp_size, data_rela_offset = pack_object_header_info(memoryview(self._pack.data())[offset:])
         if as_stream:
             if type_id not in delta_types:
                 packstream = self._pack.stream(offset)
-- 
2.43.0


From fc593f569f3b95f425cf011107cf6387018acb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:09 +0000
Subject: [PATCH 39/47] fix: LooseObjectDB.sha_iter() listed nothing for
 pathlib roots, and left out what it could not list

The root was compared to what os.walk() yields for it, which is a string. os.walk() ignores errors
listing a directory, hence objects were missing from enumeration, size and abbreviated ids if the
process ran out of descriptors, for instance.
---
 gitdb/db/loose.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 4fc2377..d8baa79 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -274,9 +274,16 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
     def sha_iter(self):
         # find all files which look like an object, extract sha from there
-        for root, dirs, files in os.walk(self.root_path()):
+        def on_error(error):
+            # directories may vanish, or not exist yet, but otherwise objects would be missing
+            if not isinstance(error, FileNotFoundError):
+                raise error
+        # END error handler
+
+        root_path = os.fspath(self.root_path())
+        for root, dirs, files in os.walk(root_path, onerror=on_error):
             root_base = basename(root)
-            if root == self.root_path():
+            if root == root_path:
                 # objects further down are not ours, but in quarantine for instance
                 dirs[:] = [name for name in dirs if len(name) == 2]
                 continue
-- 
2.43.0


From a0254208f2bf02a6f65b131e885148d7cb184815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 40/47] fix: threads storing in one MemoryDB corrupted each
 other's objects

They wrote to the output stream of whoever came last. Iterating the ids failed as well if somebody
stored an object meanwhile.
---
 gitdb/db/mem.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index 1aedf7c..c403cfd 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -39,8 +39,6 @@ class MemoryDB(ObjectDBR, ObjectDBW):
 
     def __init__(self):
         super().__init__()
-        self._db = LooseObjectDB("path/doesnt/matter")
-
         # maps 20 byte shas to their OStream objects
         self._cache = dict()
 
@@ -48,16 +46,18 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         raise UnsupportedOperation("MemoryDB's always stream into memory")
 
     def store(self, istream):
+        # NOTE: others may be storing meanwhile, and must not get our output stream
+        db = LooseObjectDB("path/doesnt/matter")
         if istream.binsha is not None:
             # the stream delivers compressed data already, which must not be compressed again
             zstream = BytesIO()
-            self._db.set_ostream(FlexibleSha1Writer(zstream.write))
-            istream = self._db.store(istream)
+            db.set_ostream(FlexibleSha1Writer(zstream.write))
+            istream = db.store(istream)
         else:
             zstream = ZippedStoreShaWriter()
-            self._db.set_ostream(zstream)
+            db.set_ostream(zstream)
 
-            istream = self._db.store(istream)
+            istream = db.store(istream)
             zstream.close()     # close to flush
         # END handle direct stream copies
         zstream.seek(0)
@@ -90,7 +90,8 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         return len(self._cache)
 
     def sha_iter(self):
-        return self._cache.keys()
+        # NOTE: objects may be stored while the caller iterates
+        return tuple(self._cache)
 
     #{ Interface
     def stream_copy(self, sha_iter, odb):
-- 
2.43.0


From 62fdde5255107313b067da62a001dbeae068a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:22 +0000
Subject: [PATCH 41/47] fix: deltas which do not fit their base, or do not
 yield what they announce, were applied silently

---
 gitdb/fun.py    | 2 +-
 gitdb/stream.py | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 6766c51..ef169c5 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -669,7 +669,7 @@ def apply_delta_data(src_buf, src_buf_size, delta_buf, delta_buf_size, write):
             rbound = cp_off + cp_size
             if (rbound < cp_size or
                     rbound > src_buf_size):
-                break
+                raise ValueError("delta copies bytes its base does not have")
             write(src_buf[cp_off:cp_off + cp_size])
         elif c:
             write(db[i:i + c])
diff --git a/gitdb/stream.py b/gitdb/stream.py
index 469fb10..74e0774 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -459,7 +459,7 @@ class DeltaApplyReader(LazyMixin):
         # work on the op-codes to reconstruct everything.
         # For the actual copying, we use a seek and write pattern of buffer
         # slices.
-        final_target_size = None
+        final_target_size = self._bstream.size
         for (dbuf, offset, src_size, target_size), dstream in zip(reversed(buffer_info_list), reversed(self._dstreams)):
             # allocate a buffer to hold all delta data - fill in the data for
             # fast access. We do this as we know that reading individual bytes
@@ -471,11 +471,18 @@ class DeltaApplyReader(LazyMixin):
             # read the rest from the stream. The size we give is larger than necessary
             stream_copy(dstream.read, ddata.write, dstream.size, 256 * mmap.PAGESIZE)
 
+            if src_size != final_target_size:
+                raise ParseError("Delta is made for a base of %i bytes, but it has %i" % (src_size, final_target_size))
+            # END assure we have the right base
+
             #######################################################################
             if 'c_apply_delta' in globals():
                 c_apply_delta(bbuf, ddata, tbuf)
             else:
                 apply_delta_data(bbuf, src_size, ddata, len(ddata), tbuf.write)
+                if tbuf.tell() != target_size:
+                    raise ParseError("Delta yields %i bytes instead of %i" % (tbuf.tell(), target_size))
+                # END handle incomplete result
             #######################################################################
 
             # finally, swap out source and target buffers. The target is now the
-- 
2.43.0


From ba2b7e143eee800f50a1b053f3d2325b19f05908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 42/47] fix: loose objects without a terminated header or with
 a negative size were read as something

---
 gitdb/fun.py    | 13 ++++++++++---
 gitdb/stream.py |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index ef169c5..4e98a2d 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -14,6 +14,7 @@ import mmap
 from itertools import islice
 from functools import reduce
 
+from gitdb.exc import ParseError
 from gitdb.const import NULL_BYTE, BYTE_SPACE
 from gitdb.utils.encoding import force_text
 from gitdb.typ import (
@@ -407,9 +408,15 @@ def loose_object_header_info(m):
     :param m: memory map from which to read the compressed object data"""
     decompress_size = 8192      # is used in cgit as well
     hdr = decompressobj().decompress(m, decompress_size)
-    type_name, size = hdr[:hdr.find(NULL_BYTE)].split(BYTE_SPACE)
-
-    return type_name, int(size)
+    hdrend = hdr.find(NULL_BYTE)
+    if hdrend < 0:
+        raise ParseError("Loose object header is not terminated")
+    type_name, size = hdr[:hdrend].split(BYTE_SPACE)
+    size = int(size)
+    if size < 0:
+        raise ParseError("Loose object header has negative size %i" % size)
+
+    return type_name, size
 
 
 def pack_object_header_info(data):
diff --git a/gitdb/stream.py b/gitdb/stream.py
index 74e0774..9426da0 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -104,8 +104,12 @@ class DecompressMemMapReader(LazyMixin):
         self._s = maxb
         hdr = self._read(maxb)
         hdrend = hdr.find(NULL_BYTE)
+        if hdrend < 0:
+            raise ParseError("Loose object header is not terminated")
         typ, size = hdr[:hdrend].split(BYTE_SPACE)
         size = int(size)
+        if size < 0:
+            raise ParseError("Loose object header has negative size %i" % size)
         self._s = size
 
         # adjust internal state to match actual header length that we ignore
-- 
2.43.0


From c5329ada927b40f4b9a1f657a90951851fd4aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:00 +0000
Subject: [PATCH 43/47] fix: an object stream delivered wrong bytes after one
 of its reads had failed

---
 gitdb/stream.py | 62 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 9426da0..21696f2 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -101,15 +101,19 @@ class DecompressMemMapReader(LazyMixin):
         # should really be enough, cgit uses 8192 I believe
         # And for good reason !! This needs to be that high for the header to be read correctly in all cases
         maxb = 8192
-        self._s = maxb
-        hdr = self._read(maxb)
-        hdrend = hdr.find(NULL_BYTE)
-        if hdrend < 0:
-            raise ParseError("Loose object header is not terminated")
-        typ, size = hdr[:hdrend].split(BYTE_SPACE)
-        size = int(size)
-        if size < 0:
-            raise ParseError("Loose object header has negative size %i" % size)
+        try:
+            hdr = self._read(maxb)
+            hdrend = hdr.find(NULL_BYTE)
+            if hdrend < 0:
+                raise ParseError("Loose object header is not terminated")
+            typ, size = hdr[:hdrend].split(BYTE_SPACE)
+            size = int(size)
+            if size < 0:
+                raise ParseError("Loose object header has negative size %i" % size)
+        except BaseException:
+            self.seek(0)            # the next attempt has to start over
+            raise
+        # END handle failure
         self._s = size
 
         # adjust internal state to match actual header length that we ignore
@@ -233,18 +237,26 @@ class DecompressMemMapReader(LazyMixin):
 
     def _read(self, size):
         """:return: size uncompressed bytes, or less if the compressed stream ends before"""
+        if self._zip is None:
+            raise ParseError("Stream needs to be rewound after a read failed")
         chunks = list()
-        while size > 0:
-            chunk = self._read_some(size)
-            chunks.append(chunk)
-            size -= len(chunk)
-            # It can happen, depending on the compression, that we get less bytes than ordered,
-            # or none at all, even though there are more to come
-            if self._zip.eof and not self._buflen:
-                break
-            if not chunk and not self._zip.unconsumed_tail and self._cwe >= len(self._m):
-                break
-        # END until we have all bytes
+        try:
+            while size > 0:
+                chunk = self._read_some(size)
+                chunks.append(chunk)
+                size -= len(chunk)
+                # It can happen, depending on the compression, that we get less bytes than ordered,
+                # or none at all, even though there are more to come
+                if self._zip.eof and not self._buflen:
+                    break
+                if not chunk and not self._zip.unconsumed_tail and self._cwe >= len(self._m):
+                    break
+            # END until we have all bytes
+        except BaseException:
+            # What was decompressed so far is lost, reading on would silently skip it
+            self._zip = None
+            raise
+        # END handle failure
         return b''.join(chunks)
 
     def _read_some(self, size):
@@ -424,6 +436,16 @@ class DeltaApplyReader(LazyMixin):
 
     def _set_cache_brute_(self, attr):
         """If we are here, we apply the actual deltas"""
+        try:
+            self._apply_deltas()
+        except BaseException:
+            # the next attempt has to start over
+            for stream in self._dstreams + (self._bstream,):
+                stream.stream.seek(0)
+            raise
+        # END handle failure
+
+    def _apply_deltas(self):
         # TODO: There should be a special case if there is only one stream
         # Then the default-git algorithm should perform a tad faster, as the
         # delta is not peaked into, causing less overhead.
-- 
2.43.0


From 5460d33b8c3a7f8c5228ebe1e6456b91ace3b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 44/47] fix: abbreviated ids in upper case did not match loose
 objects

---
 gitdb/db/loose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index d8baa79..992ab0f 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -115,8 +115,9 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         :raise AmbiguousObjectName:
         :raise BadObject: """
         candidate = None
+        prefix = force_bytes(partial_hexsha).lower()
         for binsha in self.sha_iter():
-            if bin_to_hex(binsha).startswith(force_bytes(partial_hexsha)):
+            if bin_to_hex(binsha).startswith(prefix):
                 # it can't ever find the same object twice
                 if candidate is not None:
                     raise AmbiguousObjectName(partial_hexsha)
-- 
2.43.0


From 8e57334b68e94f0669fe754b1535025bd7923d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 45/47] fix: the name of an object which a pack contains twice
 was ambiguous

---
 gitdb/pack.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 9805c89..3b30465 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -496,9 +496,13 @@ class PackIndexFile(LazyMixin):
         if lo < self.size():
             cur_sha = get_sha(lo)
             if is_equal_canonical_sha(canonical_length, partial_bin_sha, cur_sha):
+                # the pack may contain the same object more than once
+                next_index = lo + 1
+                while next_index < self.size() and get_sha(next_index) == cur_sha:
+                    next_index += 1
                 next_sha = None
-                if lo + 1 < self.size():
-                    next_sha = get_sha(lo + 1)
+                if next_index < self.size():
+                    next_sha = get_sha(next_index)
                 if next_sha and is_equal_canonical_sha(canonical_length, partial_bin_sha, next_sha):
                     raise AmbiguousObjectName(partial_bin_sha)
                 return lo
-- 
2.43.0


From ce636ac7e6586b46be5e359b139bb7ba3c883040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 46/47] fix: memory databases handed out objects with a text
 type if stored with one, which have no type id and cannot be packed

---
 gitdb/db/mem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index c403cfd..4919e46 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -25,6 +25,8 @@ from gitdb.stream import (
     DecompressMemMapReader,
 )
 
+from gitdb.utils.encoding import force_bytes
+
 from io import BytesIO
 
 __all__ = ("MemoryDB", )
@@ -65,7 +67,8 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         # don't provide a size, the stream is written in object format, hence the
         # header needs decompression
         decomp_stream = DecompressMemMapReader(zstream.getvalue(), close_on_deletion=False)
-        self._cache[istream.binsha] = OStream(istream.binsha, istream.type, istream.size, decomp_stream)
+        # types are bytes in what we hand out, as in any other database
+        self._cache[istream.binsha] = OStream(istream.binsha, force_bytes(istream.type), istream.size, decomp_stream)
 
         return istream
 
-- 
2.43.0


From aa898a700fe25b1334c6aaab92155cb7956015e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:08 +0000
Subject: [PATCH 47/47] fix: a delta stream could not be read anymore after
 rewinding its parts had failed

---
 gitdb/stream.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 21696f2..224b6e7 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -436,16 +436,11 @@ class DeltaApplyReader(LazyMixin):
 
     def _set_cache_brute_(self, attr):
         """If we are here, we apply the actual deltas"""
-        try:
-            self._apply_deltas()
-        except BaseException:
-            # the next attempt has to start over
-            for stream in self._dstreams + (self._bstream,):
-                stream.stream.seek(0)
-            raise
-        # END handle failure
+        # a previous attempt may have failed midway, start over
+        for stream in self._dstreams + (self._bstream,):
+            stream.stream.seek(0)
+        # END rewind streams
 
-    def _apply_deltas(self):
         # TODO: There should be a special case if there is only one stream
         # Then the default-git algorithm should perform a tad faster, as the
         # delta is not peaked into, causing less overhead.
-- 
2.43.0

