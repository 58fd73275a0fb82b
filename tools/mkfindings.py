"""writes known_findings.json: genuine defects repaired in /repo ("fixed" entries suppress nothing) and, if any, open ones"""
import json
import os
import subprocess

PROP = [  # (property, start of the commit subject)
    ('C01', "'sha in db'"), ('C01', 'short reads of a source stream truncated stored'), ('C01', 'FlexibleSha1Writer'), ('C16', 'reading a file without memory map'),
    ('C11', 'object streams could end early'), ('C07', 'wrong base for an offset delta'), ('C11', 'compressed_bytes_read() did not'), ('C11', 'compressed_bytes_read() was too small'),
    ('C11', 'rewinding a partially'), ('C11', 'all streams of one object'), ('C02', 'a failing mkdir'), ('C02', 'FDCompressedSha1Writer.close'), ('C02', 'FDStream.write()'),
    ('C05', 'FDStream.read()'), ('C05', 'LockedFD kept'), ('C06', 'PackEntity.create() ignored'), ('C06', 'short reads of a source stream truncated objects in written'),
    ('C06', 'packs created by'), ('C06', 'PackIndexFile.offsets'), ('C08', 'a failing directory listing'), ('C08', 'GitDB.update_cache() never'), ('C08', 'LooseObjectDB remembered'),
    ('C08', 'PackedDB.update_cache() ignored'), ('C10', 'concurrent lookups in a ReferenceDB'), ('C10', 'concurrent lookups in a PackedDB'), ('C10', 'a lookup racing with update_cache() of a CompoundDB'),
    ('C10', 'a lookup racing with update_cache() of a LooseObjectDB'), ('C09', 'reading a truncated object'), ('C09', 'a damaged delta base'), ('C09', 'a damaged fanout'),
    ('C12', 'abbreviated ids'), ('C12', 'the name of an object'), ('C01', 'memory databases handed out'), ('C13', 'MemoryDB.store()'), ('C14', 'one undecodable'), ('C14', 'an alternate which vanished'), ('C08', 'LooseObjectDB.sha_iter() listed objects'), ('C02', 'store() left descriptor'),
    ('C07', 'objects at the border of the map window'), ('C10', 'threads reading from one pack'), ('C08', 'LooseObjectDB.sha_iter() listed nothing'), ('C04', 'threads storing in one MemoryDB'),
    ('C09', 'deltas which do not fit'), ('C09', 'loose objects without a terminated'), ('C11', 'an object stream delivered wrong bytes after'), ('C11', 'a delta stream could not be read anymore'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True, check=True).stdout.splitlines()
out = []
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [a for a, b in PROP if s.startswith(b)]
    assert len(p) == 1, line
    out.append({'id': 'F%02d' % (len(out) + 1), 'property': p[0], 'status': 'fixed', 'commit': h, 'text': 'fixed: property=%s %s %s' % (p[0], h, s)})
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'known_findings.json'), 'w') as f:
    json.dump({'findings': out}, f, indent=1)
    f.write('\n')
print(len(out))
