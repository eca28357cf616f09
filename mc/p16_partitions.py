"""P16: partition tables list exactly the partitions described by an intact table."""

import itertools
import struct
import uuid
import zlib

from dfir_ntfs import PartitionTable

from .core import Group, Violation, equal, check

ID = 'P16'
ASSUMPTIONS = ['GPT headers and entry arrays as in the UEFI specification, with the limits documented in PartitionTable.py; disks are a whole number of sectors',
               'extended boot records: first entry relative to the record, second entry relative to the first record of the chain',
               'a table which is not intact is reported with ValueError']


class Disk(object):
    """A sparse read-only file which records whether anything but seek, tell and read was asked of it."""

    def __init__(self, size):
        self.size = size
        self.parts = {}
        self.pos = 0

    def put(self, off, data):
        assert off >= 0 and off + len(data) <= self.size
        self.parts[off] = data

    def bytes_at(self, off, n):
        n = max(0, min(n, self.size - off))
        buf = bytearray(n)
        for o, d in sorted(self.parts.items()):
            a, b = max(o, off), min(o + len(d), off + n)
            if a < b:
                buf[a - off:b - off] = d[a - o:b - o]
        return bytes(buf)

    def poke(self, off, value):
        for o, d in self.parts.items():
            if o <= off < o + len(d):
                d = bytearray(d)
                d[off - o] = value
                self.parts[o] = bytes(d)
                return
        self.parts[off] = bytes([value])

    def seek(self, off, whence = 0):
        pos = {0: 0, 1: self.pos, 2: self.size}[whence] + off
        if pos < 0:
            raise OSError(22, 'Invalid argument')
        if pos >= 1 << 63:
            raise OverflowError('Python int too large to convert to C long')
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def read(self, n = None):
        if n is None or n < 0:
            n = max(0, self.size - self.pos)
        if n >= 1 << 63:
            raise OverflowError('cannot fit \'int\' into an index-sized integer')
        if n > 1 << 32:
            raise MemoryError
        data = self.bytes_at(self.pos, n)
        self.pos += len(data)
        return data


TYPE_A = bytes(range(1, 17))
TYPE_B = b'\x00' * 15 + b'\x01'


def entry(tag, kind = 'a', size = 128):
    """An entry of the array; kind 'u': unused."""
    if kind == 'u':
        # Everything but the type is there.
        return (b'\x00' * 16 + bytes([tag]) * (size - 16)), None
    t = TYPE_A if kind in 'anbslf' else TYPE_B
    unique = bytes([tag]) + bytes(range(100, 115))
    first, last, attrs = 100 + tag, (1 << 40) + tag, (1 << 63) | tag
    if kind == 'n':
        raw, name = b'\x00' * 72, ''
    elif kind == 's':  # An unpaired surrogate: not decodable.
        raw, name = b'\x41\x00\x00\xd8' + b'\x41\x00' * 34, ''
    elif kind == 'l':  # No terminator.
        name = 'N' * 35 + chr(0x400 + tag)
        raw = name.encode('utf-16le')
    elif kind == 'f':  # Something after the terminator.
        name = 'F' + chr(0x3b1)
        raw = (name + '\x00' + 'rest').encode('utf-16le').ljust(72, b'\x00')
    elif kind == 'b':
        name = '\U0001f600x'
        raw = name.encode('utf-16le').ljust(72, b'\x00')
    else:
        name = 'part{}'.format(tag)
        raw = name.encode('utf-16le').ljust(72, b'\x00')
    data = struct.pack('<16s16sQQQ72s', t, unique, first, last, attrs, raw)
    data += b'\xee' * (size - 128)
    return data, (uuid.UUID(bytes_le = t), uuid.UUID(bytes_le = unique), first, last, attrs, name)


def header(my_lba, alt, array_lba, array, count, size, header_size = 92, ss = 512, **over):
    my = my_lba
    f = {'signature': b'EFI PART', 'revision': 0x10000, 'header_size': header_size, 'my': my, 'alt': alt, 'first': (2 * ss + 16384) // ss, 'last': 1 << 33,
         'guid': bytes(range(16, 32)), 'array_lba': array_lba, 'count': count, 'size': size, 'array_crc': zlib.crc32(array)}
    f.update(over)
    crc = f.pop('crc', None)

    def pack(c):
        return struct.pack('<8sLLLLQQQQ16sQLLL', f['signature'], f['revision'], f['header_size'] & 0xffffffff, c, 0, f['my'], f['alt'], f['first'], f['last'],
                           f['guid'], f['array_lba'], f['count'], f['size'], f['array_crc'])
    buf = pack(0) + bytes((i * 7 + 3) & 0xff for i in range(ss - 92))
    if crc is None:
        crc = zlib.crc32(buf[:max(0, min(f['header_size'], ss))])
    return pack(crc) + buf[92:]


def accept(disk, ss, lba, signature_only = False):
    """The reference: (alternate LBA if the signature is there, header fields if the copy of the table is intact)."""
    off = lba * ss
    if off < 0 or off + ss > disk.size:
        return None, None
    buf = disk.bytes_at(off, ss)
    sig, rev, hs, crc, _, my, alt, first, last, guid, alba, count, size, acrc = struct.unpack('<8sLLLLQQQQ16sQLLL', buf[:92])
    if sig != b'EFI PART':
        return None, None
    if rev == 0 or not 92 <= hs <= ss:
        return alt, None
    if zlib.crc32(buf[:16] + b'\x00' * 4 + buf[20:hs]) != crc:
        return alt, None
    if my != lba or alt in (my, 0) or first * ss < 2 * ss + 16384 - (2 * ss + 16384) % ss:
        return alt, None
    if alba < 2 or alba >= disk.size // ss - 1 or size < 128 or size % 128:
        return alt, None
    if alba * ss + count * size > disk.size:
        return alt, None
    array = disk.bytes_at(alba * ss, count * size)
    if zlib.crc32(array) != acrc:
        return alt, None
    parts = []
    for i in range(count):
        e = array[i * size:i * size + 128]
        if e[:16] == b'\x00' * 16:
            continue
        try:
            name = e[56:128].decode('utf-16le').split('\x00')[0]
        except UnicodeDecodeError:
            name = ''
        parts.append((uuid.UUID(bytes_le = e[:16]), uuid.UUID(bytes_le = e[16:32])) + struct.unpack('<QQQ', e[32:56]) + (name,))
    return alt, ((first, last, uuid.UUID(bytes_le = guid), alba, count, size, acrc), parts)


def expected(disk, ss):
    last = disk.size // ss - 1
    alt, got = accept(disk, ss, 1)
    if got is not None:
        return (0,) + got
    if alt is not None:
        _, got = accept(disk, ss, alt)
        if got is not None:
            return (2,) + got
    _, got = accept(disk, ss, last)
    if got is not None:
        return (1,) + got
    return None


def observe(disk, ss, ctx):
    ctx.op()
    gpt = PartitionTable.GPT(disk, ss)
    try:
        h = gpt.read_gpt_header()
    except ValueError:
        h = None
    try:
        again = gpt.read_gpt_header()
    except ValueError:
        again = None
    equal(again, h, 'the header read again')
    if h is None:
        return None
    ctx.op()
    parts = gpt.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)
    return (h.location, (h.first_usable_lba, h.last_usable_lba, h.disk_guid, h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32),
            [(p.partition_type_guid, p.unique_partition_guid, p.starting_lba, p.ending_lba, p.attributes, p.partition_name) for p in parts])


def compare(disk, ss, ctx):
    want = expected(disk, ss)
    got = observe(disk, ss, ctx)
    equal(got, want, 'GPT')
    return None if got is None else (got[0], len(got[2]))


# The states of a copy: what is written into its header over the right values, and the state of its array.
HEADERS = [('ok', {}), ('absent', None), ('signature', {'signature': b'EFI PARU'}), ('revision', {'revision': 0}), ('crc', {'crc': 0x12345678}),
           ('my', {'my': 7}), ('alt-self', {'alt': 'my'}), ('alt-zero', {'alt': 0}), ('first', {'first': 'low'}), ('first-limit', {'first': 'limit'}),
           ('array-1', {'array_lba': 1}), ('array-last', {'array_lba': 'last'}), ('array-past', {'array_lba': 'past'}), ('array-huge', {'array_lba': (1 << 64) - 1}),
           ('size-127', {'size': 127}), ('size-0', {'size': 0}), ('size-192', {'size': 192}), ('count-huge', {'count': 0xffffffff}), ('both-huge', {'count': 0xffffffff, 'size': 0xffffff80}),
           ('hsize-91', {'header_size': 91}), ('hsize-ss', {'header_size': 'ss'}), ('hsize-big', {'header_size': 'ss+1'}), ('count-0', {'count': 0, 'array_crc': 0}),
           ('revision-2', {'revision': 1}), ('guid-0', {'guid': b'\x00' * 16})]
HEADERS_SHORT = [h for h in HEADERS if h[0] in ('ok', 'absent', 'signature', 'crc', 'my', 'array-past', 'both-huge')]


def disk_with(ss, copies, count = 128, size = 128):
    """copies: list of (where, header state, alternate, array state); where: 'primary', 'last', 'middle'."""
    sectors = 16384 // ss * 4 + 40
    disk = Disk(sectors * ss)
    asec = (count * size + ss - 1) // ss
    where = {'primary': (1, 2), 'last': (sectors - 1, sectors - 1 - asec), 'middle': (sectors // 2, sectors // 2 + 1)}
    alts = {'last': sectors - 1, 'middle': sectors // 2, 'primary': 1, 'past': sectors, 'huge': (1 << 64) - 1, 'empty': sectors // 2 - 2}
    for i, (w, hname, alt, astate) in enumerate(copies):
        over = dict(HEADERS)[hname]
        if over is None:
            continue
        over = dict(over)
        lba, alba = where[w]
        for k in over:
            over[k] = {'my': lba, 'low': (2 * ss + 16384) // ss - 1, 'limit': (2 * ss + 16384) // ss, 'last': sectors - 1 if k == 'array_lba' else None,
                       'past': sectors, 'ss': ss, 'ss+1': ss + 1}.get(over[k], over[k]) if isinstance(over[k], str) else over[k]
        array = b''.join(entry(10 * i + 1 + j, 'a', size)[0] for j in range(2)).ljust(count * size, b'\x00')
        over.setdefault('alt', alts[alt])
        h = header(lba, over.pop('alt'), over.pop('array_lba', alba), array, over.pop('count', count), over.pop('size', size), ss = ss, **over)
        if astate == 'bad':
            array = array[:-1] + b'\x01'
        disk.put(lba * ss, h)
        disk.put(alba * ss, array)
    return disk


def gen_copies(thorough):
    def gen():
        seconds = HEADERS if thorough else HEADERS_SHORT
        for ss in (512, 4096):
            for h in HEADERS:
                for alt in ('last', 'middle', 'past', 'huge', 'empty'):
                    for a in ('ok', 'bad'):
                        for h2 in seconds:
                            for a2 in ('ok', 'bad'):
                                for mid in (('absent', 'ok'), ('ok', 'ok'), ('ok', 'bad'), ('crc', 'ok'), ('my', 'ok')):
                                    if alt != 'middle' and mid != ('ok', 'ok'):
                                        continue
                                    yield (ss, h[0], alt, a, h2[0], a2) + mid
    return gen


def run_copies(case, ctx):
    ss, h, alt, a, h2, a2, hm, am = case
    disk = disk_with(ss, [('primary', h, alt, a), ('last', h2, 'primary', a2), ('middle', hm, 'primary', am)])
    return compare(disk, ss, ctx)


def gen_bytes(thorough):
    def gen():
        for copies in (1, 2):
            for hs in ((92, 100) if thorough else (92,)):
                for off in list(range(hs + 4)) + [511] + list(range(512, 512 + (1024 if thorough else 300))) + [512 + 16383, 512 + 16384]:
                    for x in ((1, 2, 4, 8, 16, 32, 64, 128, 255) if thorough else (1, 0x80, 0xff)):
                        yield copies, hs, off, x
    return gen


def run_bytes(case, ctx):
    copies, hs, off, x = case
    ss, sectors = 512, 80
    disk = Disk(sectors * ss)
    for i, (lba, alba) in enumerate(((1, 2), (sectors - 1, sectors - 33))):
        if i == 1 and copies == 1:
            break
        array = b''.join(entry(20 * i + 1 + j, 'a')[0] for j in range(3)).ljust(16384, b'\x00')
        disk.put(lba * ss, header(lba, sectors - lba, alba, array, 128, 128, header_size = hs))
        disk.put(alba * ss, array)
    clean = observe(disk, ss, ctx)
    before = disk.bytes_at(ss + off, 1)[0]
    disk.poke(ss + off, before ^ x)
    r = compare(disk, ss, ctx)
    got = observe(disk, ss, ctx)
    harmless = hs <= off < 512 or off >= 512 + 16384
    if harmless:
        equal(got, clean, 'GPT with a change of a byte which is not a part of the table')
    elif copies == 1:
        equal(got, None, 'a damaged GPT without a backup')
    else:
        check(got is not None and got[0] in (1, 2) and len(got[2]) == 3 and got[2][0][5] == 'part21', 'the backup GPT is not used: {}', got)
    return r


def gen_entries(thorough):
    def gen():
        for ss in (512, 1024, 4096):
            for size in (128, 256, 384):
                for count in (0, 1, 2, 3):
                    for kinds in itertools.product('aunslfbx', repeat = count):
                        if ss != 512 and size != 128 and not thorough:
                            continue
                        yield ss, size, kinds, 0
        for kinds in itertools.product('aun', repeat = 4):
            yield 512, 128, kinds, 1
        for size in (512, 1024, 1152, 2048, 4096):
            for ss in (512, 4096):
                for kinds in itertools.product('auf', repeat = 3):
                    yield ss, size, kinds, 0
                    yield ss, size, kinds, 1
        # The array may hold any number of entries and end at the end of the disk only.
        for count in (4, 127, 128, 129, 200, 256):
            for pos in ((0, 1, count - 2, count - 1)):
                kinds = ['u'] * count
                kinds[pos] = 'a'
                yield 512, 128, tuple(kinds), 0
    return gen


def run_entries(case, ctx):
    ss, size, kinds, backup = case
    sectors = 16384 // ss * 8 + 40
    disk = Disk(sectors * ss)
    items = [entry(i % 200 + 1, k, size) for i, k in enumerate(kinds)]
    array = b''.join(x[0] for x in items)
    lba, alba = (sectors - 1, 40) if backup else (1, 3)
    disk.put(lba * ss, header(lba, sectors - lba, alba, array, len(kinds), size, ss = ss))
    if array:
        disk.put(alba * ss, array)
    got = observe(disk, ss, ctx)
    check(got is not None, 'an intact GPT is not found')
    equal(got[0], 1 if backup else 0, 'location')
    equal(got[2], [x[1] for x in items if x[1] is not None], 'partitions')
    # The same entries under other descriptions.
    gpt = PartitionTable.GPT(disk, ss)
    crc = zlib.crc32(array)
    if kinds:
        for args in ((alba, len(kinds), size, crc ^ 1), (alba + 1, len(kinds), size, crc), (1, len(kinds), size, crc), (sectors, len(kinds), size, crc), (sectors - 1, len(kinds), size, crc),
                     (alba, len(kinds), size + 64, crc), (alba, len(kinds), 0, crc)):
            if args[0] == alba + 1 and disk.bytes_at((alba + 1) * ss, len(array)) == array:
                continue
            try:
                bad = gpt.read_gpt_partitions(*args)
            except ValueError:
                bad = None
            equal(bad, None, 'partitions read with wrong parameters')
    # No entries: nothing to read, wherever the array is said to be.
    for args in ((alba, 0, size, 0), (0, 0, 0, 1), ((1 << 64) - 1, 0, 128, 5)):
        equal(gpt.read_gpt_partitions(*args), [], 'partitions of an empty array')
    return len(got[2])


def gen_sizes(thorough):
    def gen():
        for ss in (0, 1, 256, 511, 512, 513, 768, 1024, 1536, 2048, 4096):
            for d in (-1, 0, 1):
                for what in ('gpt', 'mbr'):
                    yield ss, d, what
    return gen


def run_sizes(case, ctx):
    ss, d, what = case
    low = 3 * ss + 2 * 16384 if what == 'gpt' else 2 * ss
    size = max(0, low + d)
    cls = PartitionTable.GPT if what == 'gpt' else PartitionTable.MBR
    ctx.op()
    try:
        cls(Disk(size), ss)
        ok = True
    except ValueError:
        ok = False
    equal(ok, ss >= 512 and ss % 512 == 0 and size >= low, 'geometry accepted')
    return ok


# MBR.

TYPES = (0, 1, 5, 7, 0xf, 0x85, 0xee, 0xff)


def slot(tag, t, lba, size):
    return struct.pack('<B3sB3sLL', 0x80 if tag % 2 else 0, bytes([tag, 1, 2]), t, bytes([tag, 3, 4]), lba, size)


def mbr_sector(slots, signature = 0xaa55, code = (0xfa, 0x33), disk_signature = 0xdeadbeef):
    buf = bytearray(512)
    buf[0:2] = bytes(code)
    buf[440:444] = struct.pack('<L', disk_signature)
    buf[446:446 + 64] = b''.join(slots)
    buf[510:512] = struct.pack('<H', signature)
    return bytes(buf)


def gen_mbr(thorough):
    def gen():
        for ss in (512, 4096):
            for types in itertools.product(TYPES if thorough else (0, 1, 7, 0xff), repeat = 4):
                yield ss, types, 0xaa55, (0xfa, 0x33), 0xdeadbeef
                yield ss, types, 0xaa55, (0, 0), 0
        for sig in (0xaa55, 0x55aa, 0, 0xaa54, 0xab55):
            for code in ((0, 0), (1, 0), (0, 1), (1, 1), (255, 255)):
                for ds in (0, 1, 0x01020304, 0xffffffff):
                    yield 512, (7, 0, 0, 7), sig, code, ds
    return gen


def run_mbr(case, ctx):
    ss, types, sig, code, ds = case
    disk = Disk(ss * 20)
    slots = []
    want = []
    for i, t in enumerate(types):
        lba, size = 0xfffffff0 + i if i % 2 else 1000 + i, 0xffffff00 - i
        # An unused slot is either empty or has stale values.
        slots.append(b'\x00' * 16 if not t and ds == 0 else slot(i, t, lba, size))
        if t:
            want.append((0x80 if i % 2 else 0, bytes([i, 1, 2]), t, bytes([i, 3, 4]), lba, size))
    disk.put(0, mbr_sector(slots, sig, code, ds))
    mbr = PartitionTable.MBR(disk, ss)
    ctx.op(2)
    equal([tuple(p) for p in mbr.read_mbr_partitions()], want, 'MBR partitions')
    try:
        m = mbr.read_mbr()
        got = (m.is_boot_code_present, m.disk_signature)
    except ValueError:
        got = None
    if sig != 0xaa55:
        equal(got, None, 'MBR without the signature')
    else:
        check(got is not None, 'an MBR is not read')
        equal(got[1], ds, 'disk signature')
        equal(got[0], 0 not in code, 'boot code present')
    return len(want)


# Extended chains: the MBR has extended partitions starting at some of the places, each place holds an extended boot record or not.

PLACES = (3, 5, 8)


def records(thorough):
    """What a place may hold: None or (signature, type, next place or None or a number of sectors out of the disk)."""
    out = [None]
    for t in (0, 7):
        for nxt in (None,) + PLACES + ('past',):
            out.append((True, t, nxt))
    out.append((False, 7, PLACES[1]))
    out.append((True, 5, None))
    return out


def gen_ebr(thorough):
    def gen():
        exts = [(), ((5, 3),), ((0xf, 3),), ((0x85, 3),), ((7, 3),), ((5, 0),), ((5, 100),), ((5, 3), (0xf, 5)), ((5, 5), (5, 3)), ((5, 0), (5, 3)), ((5, 3), (5, 0)), ((7, 8), (5, 3)), ((5, 100), (5, 3))]
        recs = records(thorough)
        for ext in exts:
            for a, b, c in itertools.product(recs, repeat = 3):
                if not thorough and len(ext) > 1 and c not in (None, (True, 7, None), (True, 7, 3)):
                    continue
                yield 512, ext, (a, b, c)
        for ext in (((5, 3),), ((5, 3), (5, 5))):
            for a, b, c in itertools.product([r for r in recs if r is None or r[1] == 7], repeat = 3):
                yield 4096, ext, (a, b, c)
    return gen


def run_ebr(case, ctx):
    ss, ext, recs = case
    disk = Disk(12 * ss)
    slots = [slot(i, t, lba, 3) for i, (t, lba) in enumerate(ext)]
    slots += [b'\x00' * 16] * (4 - len(slots))
    disk.put(0, mbr_sector(slots))
    here = dict(zip(PLACES, recs))
    # The links are relative to the first record of a chain; with two chains they are encoded for the first chain reaching the place.
    firsts = [lba for t, lba in ext if t in (5, 0xf, 0x85)]
    content = {}

    def follow(write):
        seen = set()
        out = []
        for first in firsts:
            if first == 0:
                continue
            lba = first
            while lba not in seen:
                seen.add(lba)
                r = here.get(lba)
                if r is None or not r[0]:
                    break
                if lba not in content:
                    nxt = r[2]
                    if nxt is None:
                        rel = 0
                    elif nxt == 'past':
                        rel = 0xfffffff0
                    else:
                        rel = nxt - first
                    if rel < 0 or (nxt is not None and rel == 0):
                        # Not expressible: links go forward of the first record. The record links to itself instead.
                        rel = lba - first
                    content[lba] = (r[1], rel, first)
                t, rel, _ = content[lba]
                if t:
                    out.append((0x80 if lba % 2 else 0, t, lba + 60 + lba, 7 * lba))
                if rel == 0:
                    break
                lba = first + rel
        return out
    want = follow(True)
    for lba, r in here.items():
        if r is None:
            continue
        t, rel, _ = content.get(lba, (r[1], 0, 0))
        e2 = slot(0, 5 if rel else 0, rel, 1)
        disk.put(lba * ss, mbr_sector([slot(lba, t, lba + 60, 7 * lba), e2, b'\x00' * 16, b'\x00' * 16], 0xaa55 if r[0] else 0, (0, 0), 0))
    mbr = PartitionTable.MBR(disk, ss)
    ctx.op()
    got = [tuple(p) for p in mbr.read_ebr_partitions()]
    equal(got, want, 'logical partitions')
    return tuple(x[2] for x in got)


def gen_long(thorough):
    def gen():
        for n in ((1, 2, 10, 100, 2000) if thorough else (1, 2, 10, 300)):
            for end in (None, 0, n // 2, n - 1):
                yield n, end
    return gen


def run_long(case, ctx):
    n, end = case
    ss = 512
    disk = Disk((n + 2) * 2 * ss + ss * 10)
    disk.put(0, mbr_sector([slot(1, 0xf, 4, 9)] + [b'\x00' * 16] * 3))
    want = []
    for i in range(n):
        lba = 4 + 2 * i
        if i < n - 1:
            rel = 2 * (i + 1)
        elif end is None:
            rel = 0
        else:
            rel = 2 * end
        disk.put(lba * ss, mbr_sector([slot(0, 7, 1, i + 1), slot(0, 5 if rel else 0, rel, 1), b'\x00' * 16, b'\x00' * 16], 0xaa55, (0, 0), 0))
        want.append((0, 7, lba + 1, i + 1))
    ctx.op()
    got = [tuple(p) for p in PartitionTable.MBR(disk, ss).read_ebr_partitions()]
    equal(got, want, 'logical partitions')
    return n


def gen_far(thorough):
    def gen():
        N = (1, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff)
        for ss in (512, 4096):
            for first in N:
                for rel in N:
                    for part in N:
                        yield ss, first, rel, part
    return gen


def run_far(case, ctx):
    """Two records of a chain anywhere on a large disk."""
    ss, first, rel, part = case
    disk = Disk(ss << 34)
    disk.put(0, mbr_sector([slot(1, 0xf, first, 0xffffffff)] + [b'\x00' * 16] * 3))
    want = []
    for i, (lba, nxt) in enumerate(((first, rel), (first + rel, 0))):
        disk.put(lba * ss, mbr_sector([slot(i, 7, part, 0xfffffff0 + i), slot(0, 5 if nxt else 0, nxt, 0xffffffff), b'\x00' * 16, b'\x00' * 16], 0xaa55, (0, 0), 0))
        want.append((0x80 if i % 2 else 0, 7, lba + part, 0xfffffff0 + i))
    ctx.op()
    equal([tuple(p) for p in PartitionTable.MBR(disk, ss).read_ebr_partitions()], want, 'logical partitions')
    return len(want)


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('gpt-copies', gen_copies(th), run_copies, 'every state of the primary header (25) and array x alternate LBA x state of the backup in the last sector x state of a backup in the middle, sector sizes 512 and 4096'),
        Group('gpt-bytes', gen_bytes(th), run_bytes, 'every byte of the primary header and of the used part of the entry array changed, with and without a backup'),
        Group('gpt-entries', gen_entries(th), run_entries, 'every array of up to 3 entries over 8 kinds, entry sizes 128, 256, 384 (arrays of three entries: up to 4096), sector sizes 512, 1024, 4096; large arrays with one used entry'),
        Group('geometry', gen_sizes(th), run_sizes, 'every sector size of the list and disk sizes around the limit'),
        Group('mbr', gen_mbr(th), run_mbr, 'every assignment of partition types to the four slots; boot signature, boot code and disk signature values'),
        Group('ebr', gen_ebr(th), run_ebr, 'every content of three places for extended boot records (links to any place, past the end, none; missing records and signatures) x sets of extended partitions'),
        Group('ebr-far', gen_far(th), run_far, 'two records and their partitions at every combination of the limits of 16, 31 and 32-bit numbers of sectors'),
        Group('ebr-long', gen_long(th), run_long, 'chains of up to 300 (thorough 2000) records with and without a loop'),
    ]
