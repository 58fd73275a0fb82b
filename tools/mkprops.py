"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "Stored objects keep their git identity and their exact content",
  "Storing an object of any type, size and content into a loose, git or memory database yields the git SHA-1 of 'type SP size NUL content', and from then on has_object, `in`, info, stream, sha_iter and size report exactly the objects stored, byte for byte, from the same instance, from a fresh one and for any git reader of the files. "
  "This holds however the source delivers its bytes (large, tiny or shorter-than-asked reads) and for every copy chunk size, and raw storage of an already compressed object with a known id preserves it unchanged. "
  "With the output redirected by set_ostream the id is computed and the database is left untouched.",
  ["inputs", "histories", "configurations"],
  "every object type/size/content, every split of the source into reads, every copy chunk size, every order of store/query/reopen operations",
  "The tests store a handful of fixed strings from BytesIO sources that never return short, with one chunk size, and mostly check the id only.",
  ["gitdb/db/loose.py", "gitdb/db/mem.py", "gitdb/db/git.py", "gitdb/db/base.py", "gitdb/fun.py", "gitdb/stream.py", "gitdb/base.py"],
  [("LooseObjectDB.store", "gitdb/db/loose.py"), ("write_object / stream_copy", "gitdb/fun.py"), ("Sha1Writer family", "gitdb/stream.py"), ("MemoryDB.store", "gitdb/db/mem.py")],
  observe=["ObjectDBW.store", "ObjectDBR.has_object/info/stream/sha_iter/size", "files below the objects directory"])

p("C02", "A store that fails publishes nothing partial and leaks nothing",
  "When storing into a loose or git database meets an error (a failing, short or out-of-space write, an error of open, close, mkdir, rename or chmod, a failing allocation, an interrupting signal, a source stream that raises or ends before the declared size), the call raises, leaves the input stream's binsha as it was, and leaves neither a partial or wrong object, nor a temporary file, nor an open descriptor. "
  "A store that returns normally has stored the complete object, whatever faults happened on the way, and no earlier object is harmed. "
  "Repeating a failed store once the fault is gone succeeds.",
  ["fault_sequences", "inputs", "histories"],
  "every sequence of stores with system-call errors, short writes, full disks and source-stream errors placed at any call",
  "No test injects an I/O failure; the tests never execute an error branch of a store.",
  ["gitdb/db/loose.py", "gitdb/stream.py", "gitdb/fun.py"],
  [("tmp file + rename, removal on error", "gitdb/db/loose.py LooseObjectDB.store"), ("short write detection", "gitdb/stream.py FDCompressedSha1Writer.write/close, FDStream.write"), ("copied size check", "gitdb/fun.py write_object/stream_copy")],
  observe=["exception of store", "directory listing", "/proc/self/fd"])

p("C03", "A process crash at any point never exposes a partial object, pack or file",
  "If the process dies at any system call while storing objects, creating a pack or committing a locked file, then every object acknowledged before is still readable afterwards, no file at an object's or pack's final name is incomplete or wrong, and a locked file holds either its complete old or its complete new content. "
  "A new process can open the databases, read everything acknowledged, and repeat the interrupted operation successfully (a lock file left by the dead process may have to be deleted first).",
  ["crash_points", "histories"],
  "every operation history and every system call (before, after, or in the middle of a write) at which the process may die, including a second crash during the repetition",
  "Tests never interrupt an operation; only complete runs are observed.",
  ["gitdb/db/loose.py", "gitdb/pack.py", "gitdb/util.py", "gitdb/db/pack.py"],
  [("tmp file + rename", "gitdb/db/loose.py LooseObjectDB.store"), ("pack and index tmp files + rename", "gitdb/pack.py PackEntity.create"), ("lock file + rename", "gitdb/util.py LockedFD"), ("packs without index are not used", "gitdb/db/pack.py PackedDB.update_cache")],
  observe=["files below the objects and pack directories after the crash", "databases opened by a new process"])

p("C04", "Concurrent writers and readers of one objects directory stay consistent",
  "When several threads or processes store (the same or different objects) and look up objects in one objects directory at the same time, every store succeeds, every object whose store returned is seen complete and exact by every later lookup, enumeration and count, and no lookup ever sees a partial object or one nobody stored. "
  "Once stored, an object's file is never truncated, changed in place or replaced by anything but the same object, and it is read-only whenever no store of it is in progress. Threads sharing one memory database store, look up and enumerate objects with the same guarantees.",
  ["schedules", "histories"],
  "every interleaving, at system-call granularity (and at bytecode-line granularity for threads sharing one database instance), of two to four clients",
  "All tests are single-threaded with one database instance at a time.",
  ["gitdb/db/loose.py", "gitdb/stream.py", "gitdb/util.py", "gitdb/db/mem.py"],
  [("unique tmp names, rename into place, existing target kept", "gitdb/db/loose.py LooseObjectDB.store"), ("existence cache", "gitdb/db/loose.py readable_db_object_path")],
  observe=["invoke/return history of every client", "every file at an object's final name after each mutating system call"])

p("C05", "LockedFD gives exclusive access and all-or-nothing replacement",
  "While one LockedFD is open on a file, every other open of that file through LockedFD fails with an OSError and disturbs neither the holder's lock nor its data; the file's content changes only at a commit of a writer, at once and completely, and a rollback, a dropped instance or any failed operation leaves it untouched (a commit failing only in setting the mode has replaced it completely). "
  "When commit, rollback, deletion or a failed open/commit has finished, the lock is free and the descriptor is closed; a writer that gets past a short write has written everything or raised.",
  ["schedules", "fault_sequences", "crash_points"],
  "every interleaving of writers and readers, system-call faults at any call, writers killed at any call",
  "test_lockedfd runs one scripted, fault-free, single-threaded sequence.",
  ["gitdb/util.py", "gitdb/stream.py"],
  [("O_EXCL lock file", "gitdb/util.py LockedFD.open"), ("rename on commit, removal on rollback", "gitdb/util.py LockedFD._end_writing"), ("FDStream", "gitdb/stream.py")],
  observe=["exceptions of open/commit/rollback", "content of the file and existence of the .lock file after each system call"])

p("C06", "A written pack and its index are complete, consistent and faithful",
  "A pack written from any sequence of objects, at any compression level and with sources that may read short, contains exactly those objects, and its version-2 index agrees with it in ids, order, offsets (beyond 4 GiB too), CRCs and checksums, so that every reader, gitdb's own iteration, lookup and verification included, gets each object back unchanged. "
  "If writing fails (write errors, short writes, full disk, failing allocations, an interrupting signal, a source that raises, ends early or yields fewer objects than announced), the call raises and publishes no pack and no index, leaves no temporary file or descriptor behind, and can be repeated.",
  ["inputs", "fault_sequences"],
  "every sequence of objects and sizes (empty ones included), compression level, and fault placed at any call of the writer",
  "Tests write a few packs from one fixture repository and never fail a write.",
  ["gitdb/pack.py", "gitdb/fun.py", "gitdb/stream.py"],
  [("PackEntity.write_pack / create", "gitdb/pack.py"), ("IndexWriter.write", "gitdb/pack.py"), ("PackFile.stream_iter", "gitdb/pack.py"), ("create_pack_object_header", "gitdb/fun.py")],
  observe=["the published .pack/.idx files", "PackEntity iteration, lookup, is_valid_stream"])

p("C07", "Packed objects, delta chains included, resolve to their exact content",
  "For every well-formed pack with a version 1 or 2 index (whole objects, empty objects, chains of offset and reference deltas mixed in any order and depth), every lookup by id or index reports the right type, size and content, and enumeration lists exactly the pack's objects. "
  "This holds for any order in which several object streams are opened and read piecewise in turns, and if memory mapping or opening fails on the way the call raises, and the same call works once resources are back; a delta whose base is missing raises instead of yielding content. "
  "The size of a pack or of its objects makes no difference: offsets and sizes beyond a map window (1 GiB), 2 GiB and 4 GiB included.",
  ["inputs", "histories", "fault_sequences"],
  "every pack layout and delta program, every interleaving of reads on several streams, resource faults at any open/mmap",
  "Three fixture packs with one layout each are tested, fault-free, one stream at a time.",
  ["gitdb/pack.py", "gitdb/stream.py", "gitdb/fun.py", "gitdb/db/pack.py"],
  [("collect_streams_at_offset", "gitdb/pack.py"), ("DeltaApplyReader", "gitdb/stream.py"), ("apply_delta_data, msb_size, pack_object_header_info", "gitdb/fun.py"), ("PackIndexFile v1/v2 access", "gitdb/pack.py")],
  observe=["PackedDB and PackEntity info/stream/sha_iter/size"])

p("C08", "Cached database views follow the storage after update_cache",
  "After a successful update_cache(force=True), or update_cache() when the pack directory's modification time differs from the last one seen, a pack or git database shows exactly the objects stored on disk now (packs added, removed or repacked, loose objects packed and pruned, pack directory created later), with nothing lost and nothing stale; packs whose index is missing are ignored until it appears. "
  "A lookup never returns wrong content, whatever happened on disk in between, and a first access or update that fails with an I/O error raises and does not prevent a later one from seeing everything; clock jumps change nothing. Enumerating and counting never silently leave out loose objects whose directory cannot be listed. An object stored through the instance is on disk when the store returns, whatever the instance believed to be there.",
  ["histories", "fault_sequences"],
  "every history of foreign repacks, fetches in progress, prunes and lookups, with failing directory listings, opens and maps, and clocks that jump",
  "Tests call update_cache once on a static directory.",
  ["gitdb/db/pack.py", "gitdb/db/git.py", "gitdb/db/base.py", "gitdb/db/loose.py"],
  [("PackedDB.update_cache / _set_cache_", "gitdb/db/pack.py"), ("CompoundDB.update_cache, _db_cache", "gitdb/db/base.py"), ("existence cache", "gitdb/db/loose.py")],
  state=[("_entities", "packs known", "gitdb/db/pack.py"), ("_st_mtime", "directory mtime last seen", "gitdb/db/pack.py"), ("_db_cache", "object to sub-database map", "gitdb/db/base.py")],
  observe=["has_object/info/stream/sha_iter/size/entities after each update_cache"])

p("C09", "Stored damage is never certified as valid and never spreads",
  "For any damage to stored bytes of packs, indices or loose objects (flipped, zeroed, overwritten, appended or cut-off bytes), verification of a packed object by SHA-1 never returns true unless its content is still the original, verification by CRC (with an intact index) never returns true if the object's stored bytes have changed, reading a loose or packed object either raises or yields exactly as many bytes as announced (never silently fewer), and no call loops forever or through entries the files do not hold. "
  "An object stored as nonsense although its bytes decompress (a delta which does not fit its base, leaves or claims too much, or copies what the base does not have; a loose object whose header is not terminated or names no valid size) is refused and never read as something else. "
  "With intact indices and pack headers, objects whose own stored bytes and delta bases are intact stay readable and verifiable.",
  ["fault_sequences", "inputs"],
  "every placement and kind of stored-byte damage on every layout",
  "No test reads damaged data.",
  ["gitdb/pack.py", "gitdb/stream.py", "gitdb/fun.py", "gitdb/db/loose.py"],
  [("PackEntity.is_valid_stream", "gitdb/pack.py"), ("DecompressMemMapReader.read", "gitdb/stream.py"), ("apply_delta_data checks", "gitdb/fun.py")],
  observe=["is_valid_stream result", "bytes read versus announced size", "CPU time of a call"])

p("C10", "Concurrent lookups on one database instance never lose objects",
  "When several threads query one loose, pack, git or reference database instance at the same time, including its very first, lazily initialising access, its periodic re-sorting and a concurrent update_cache, a lookup (has_object, info, stream, enumeration, size or abbreviated name) of an object whose loose file or pack stays on disk throughout never reports it missing, returns wrong data or fails otherwise, except for the not-found error of a pack file another process has deleted. "
  "Once an update_cache that began after the last change on disk has returned, lookups are exact, whatever other lookups and updates overlapped with it; no lookup deadlocks. "
  "Threads may read different objects of one pack at the same time, each through a stream of its own. Thread switches are considered anywhere inside gitdb's database, pack and stream classes; the map manager below them (smmap) is taken as it is.",
  ["schedules"],
  "every interleaving of two to three threads at bytecode granularity inside gitdb/db, gitdb/pack.py and gitdb/stream.py, with other processes adding, repacking and pruning meanwhile",
  "All tests are single-threaded; the code comments state the intended multi-thread guarantee and nothing exercises it.",
  ["gitdb/db/pack.py", "gitdb/db/base.py", "gitdb/db/git.py", "gitdb/db/ref.py", "gitdb/util.py"],
  [("lock-free lookup and re-sorting", "gitdb/db/pack.py PackedDB._pack_info/_sort_entities"), ("lazy initialisation", "gitdb/util.py LazyMixin, _set_cache_ methods")],
  observe=["results of concurrent lookups"])

p("C11", "Object streams deliver the exact bytes under any read pattern",
  "A stream of a loose, in-memory or packed (whole or delta) object delivers exactly min(n, bytes left) bytes for read(n) with n >= 1 and the rest for read() or read(-1), in order and unchanged, then empty bytes, for any sequence of reads and rewinds (seek(0)), with any number of streams open and read in turns. "
  "This holds for every valid zlib encoding of the data (level, strategy, window, flush points), with or without an embedded header, and compressed_bytes_read() of a fully read stream is the exact length of its compressed data even if other bytes follow. "
  "After a read failed (for want of memory, say), a stream delivers the exact bytes again once it was rewound, and refuses to be read, or goes on where it was, before.",
  ["inputs", "schedules", "fault_sequences"],
  "every zlib encoding and content, every sequence and interleaving of read sizes and rewinds over several streams",
  "Tests read a few sizes of two fixed payloads compressed with one setting.",
  ["gitdb/stream.py", "gitdb/base.py", "gitdb/db/mem.py"],
  [("DecompressMemMapReader.read/seek/compressed_bytes_read", "gitdb/stream.py"), ("DeltaApplyReader.read/seek", "gitdb/stream.py")],
  observe=["bytes returned by each read call"])

p("C12", "An abbreviated id resolves to the one object it names, or is refused",
  "In every arrangement of loose, packed and alternate storage, resolving an abbreviated hexadecimal id (4 to 40 digits, odd or even, upper or lower case) returns the id of the only object starting with it, raises AmbiguousObjectName when two or more distinct objects do, and BadObject when none does. "
  "The same object present in several places, or twice in one pack, is not ambiguous, and while other processes store objects or finish packs the answer accounts for every object that was there before the call (packs: at the last update_cache) and only for objects that are there at its end; if the storage cannot be listed or read, it raises instead of answering from a part of it (except for alternates, which count as absent if they cannot be read).",
  ["inputs", "histories", "schedules"],
  "every set of ids (shared prefixes included) distributed over loose files, packs and alternates, every prefix length, with objects being added meanwhile",
  "Tests resolve unambiguous prefixes of one fixture only.",
  ["gitdb/db/base.py", "gitdb/db/pack.py", "gitdb/db/loose.py", "gitdb/pack.py", "gitdb/fun.py"],
  [("CompoundDB.partial_to_complete_sha_hex", "gitdb/db/base.py"), ("PackIndexFile.partial_sha_to_index", "gitdb/pack.py"), ("is_equal_canonical_sha", "gitdb/fun.py")],
  observe=["result or exception of partial_to_complete_sha(_hex)"])

p("C13", "Copying from a memory database conserves objects and is resumable",
  "MemoryDB.stream_copy into a loose, git or memory database transfers exactly the requested objects, unchanged, returns the number of objects that were missing there, and leaves present ones alone. "
  "If the copy fails or the process dies anywhere, the target holds only complete objects, the memory database is unharmed, and repeating the copy completes the transfer, counting only what was still missing.",
  ["fault_sequences", "crash_points", "histories"],
  "every set of objects, overlap and order, faults and crashes at any call, repeated attempts, streams of the memory database partly read before",
  "test_mem copies once, fault-free, into an empty directory.",
  ["gitdb/db/mem.py", "gitdb/db/loose.py", "gitdb/stream.py"],
  [("MemoryDB.stream_copy", "gitdb/db/mem.py"), ("raw store path", "gitdb/db/loose.py LooseObjectDB.store")],
  observe=["return value", "objects of the target after each attempt"])

p("C14", "Alternates and compound databases show the union of what exists",
  "A git or reference database with any acyclic set of alternates (missing or invalid paths, duplicates, nested alternates) finds exactly the objects of its own and all reachable valid alternates, with right type and content, and unusable entries never hide the others. "
  "After the alternates file is edited, removed or created, or an alternate appears or vanishes, update_cache() makes the view match again, also when reading the alternates file or one alternate failed in between.",
  ["configurations", "histories", "fault_sequences"],
  "every acyclic topology and edit history of alternates, with I/O faults while reading them",
  "test_ref uses one alternate at a time and no failures.",
  ["gitdb/db/ref.py", "gitdb/db/git.py", "gitdb/db/base.py"],
  [("ReferenceDB._update_dbs_from_ref_file", "gitdb/db/ref.py"), ("CompoundDB delegation", "gitdb/db/base.py"), ("GitDB._set_cache_", "gitdb/db/git.py")],
  observe=["has_object/info/stream/sha_iter and databases() after each step"])

p("C15", "File descriptors and maps are released after every operation",
  "Loose-object operations, LockedFD and pack creation leave no file descriptor and no memory map open once the call and the streams it returned are gone, whether they succeeded or failed at any point; repeating them any number of times does not accumulate descriptors. "
  "Pack and git databases release theirs once the instances are dropped and the map manager has collected unused regions. Closing a stream or a pack entity explicitly releases its map even while the object is still referenced.",
  ["histories", "fault_sequences"],
  "every mix of successful and failing operations, faults at any call",
  "The tests only count descriptors of one successful loop indirectly (ulimit).",
  ["gitdb/util.py", "gitdb/stream.py", "gitdb/db/loose.py", "gitdb/pack.py"],
  [("file_contents_ro_filepath", "gitdb/util.py"), ("DecompressMemMapReader.close", "gitdb/stream.py"), ("FDCompressedSha1Writer.close", "gitdb/stream.py"), ("PackEntity.create", "gitdb/pack.py")],
  observe=["/proc/self/fd", "live memory maps"])

p("C16", "Degraded but legal environments do not change results",
  "Reading and writing objects gives the same results as in a normal environment when O_NOATIME is refused, loose object files cannot be memory-mapped, anonymous maps are refused, reads return fewer bytes than asked, chmod is refused a few times before succeeding, file names from the temporary-name generator collide, directories are listed in any order, or roots are given as pathlib paths. "
  "Falling back is per database and never turns a present object into a missing one.",
  ["configurations", "fault_sequences"],
  "every combination of these conditions, switched on at any call and for any number of calls, over every read/write operation",
  "Tests run on one healthy Linux file system; none of the fallback branches is executed.",
  ["gitdb/db/loose.py", "gitdb/util.py", "gitdb/stream.py"],
  [("O_NOATIME fallback", "gitdb/db/loose.py _map_loose_object"), ("mmap fallback", "gitdb/util.py file_contents_ro, allocate_memory"), ("chmod retry with backoff", "gitdb/db/loose.py LooseObjectDB.store")],
  observe=["results of store/info/stream", "simulated time slept"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
