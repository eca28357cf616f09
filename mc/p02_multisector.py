"""P02: torn multi-sector structures are never taken for intact ones; intact ones are restored exactly."""

import binascii
import itertools
import struct

from dfir_ntfs import MFT, Attributes, LogFile

from . import ntfs
from .core import Group, Violation, equal, check

ID = 'P02'
ASSUMPTIONS = ['a torn write leaves each 512-byte sector either entirely old or entirely new (all subsets enumerated); two versions with distinct update sequence numbers']


def fill(size, salt):
    return bytes((salt + 3 * i + i // 512 * 17) & 0xFF or 1 for i in range(size))


def build_frs(size, first_free, version, short = False, usn = None):
    """A record whose resident $DATA value covers the used area up to first_free."""
    usa_off = 42 if short else 48
    first_attr = (usa_off + (size // 512 + 1) * 2 + 7) // 8 * 8
    value_len = first_free - first_attr - 8 - 24
    raw = ntfs.frs_raw([ntfs.attr_resident(ntfs.DATA, fill(value_len, 11 * version)[:value_len])], size = size, number = 77, seq = 1, lsn = version, short = short)
    # Data in the slack, including at the sector ends.
    used = struct.unpack('<L', raw[24:28])[0]
    raw[used:] = fill(size, 90 + version)[used:]
    return bytes(raw), ntfs.protect(raw, usn if usn is not None else 0x100 + version)


def mix(old, new, pattern):
    out = b''
    for i, bit in enumerate(pattern):
        out += (new if bit else old)[i * 512:(i + 1) * 512]
    return out


def gen_frs():
    for size in (1024, 4096):
        n = size // 512
        ffs = sorted(set([512 * k + d for k in range(0, n + 1) for d in (-8, 0, 8)]))
        ffs = [f for f in ffs if 136 <= f <= size]
        for short in (False, True):
            for ff_new in ffs:
                for ff_old in ((ff_new,) if size == 4096 else ffs):
                    for pattern in itertools.product((1, 0), repeat = n):
                        yield (size, ff_old, ff_new, short, pattern)


def run_frs(case, ctx):
    size, ff_old, ff_new, short, pattern = case
    raw_old, old = cached(build_frs, size, ff_old, 1, short)
    raw_new, new = cached(build_frs, size, ff_new, 2, short)
    buf = mix(old, new, pattern)
    ver = pattern[0]
    ff = ff_new if ver else ff_old
    raw = raw_new if ver else raw_old
    intact = all(p == ver for i, p in enumerate(pattern) if i * 512 < ff)
    ctx.op()
    arg = bytearray(buf)
    try:
        rec = MFT.FileRecordSegment(arg)
    except MFT.FileRecordSegmentException:
        check(not intact, 'an intact record (used area not torn) was rejected')
        return 'rejected'
    check(intact, 'a torn record was accepted: sector versions {}, used bytes {}', pattern, ff)
    equal(bytes(arg), buf, 'the input buffer')
    attrs = list(rec.attributes())
    equal(len(attrs), 1, 'attribute count')
    first_attr = struct.unpack('<H', raw[20:22])[0]
    vlen = struct.unpack('<L', raw[first_attr + 16:first_attr + 20])[0]
    equal(bytes(attrs[0].value), raw[first_attr + 24:first_attr + 24 + vlen], 'attribute value')
    equal(rec.get_logfile_sequence_number(), 2 if ver else 1, 'LSN')
    # The unused area up to the first stale sector is restored too.
    good = n = 0
    for i, p in enumerate(pattern):
        if p != ver:
            break
        good = (i + 1) * 512
    slack = bytes(rec.get_slack().value)
    start = ff - 4
    equal(slack[:max(0, good - start)], raw[start:good] if good > start else b'', 'slack')
    equal(len(slack), size - start, 'slack size')
    return ('accepted', ver)


_cache = {}


def cached(f, *a):
    k = (f,) + a
    if k not in _cache:
        if len(_cache) > 4000:
            _cache.clear()
        _cache[k] = f(*a)
    return _cache[k]


def gen_tied():
    for kind in ('frs', 'indx', 'log'):
        for size in {'frs': (1024, 4096), 'indx': (1024, 4096), 'log': (4096,)}[kind]:
            for pattern in itertools.product((1, 0), repeat = size // 512):
                yield (kind, size, pattern)


def build_tied(kind, size, version):
    usn, other = 0x100 + version, 0x103 - version
    if kind == 'frs':
        raw = bytearray(build_frs(size, size - 8, version)[0])
    elif kind == 'indx':
        raw = bytearray(build_indx(size, version)[0])
    else:
        raw = bytearray(build_log(b'RCRD', version, False)[0])
    for i in range(512, size + 1, 512):
        raw[i - 2:i] = struct.pack('<H', other)
    return bytes(raw), ntfs.protect(raw, usn)


def run_tied(case, ctx):
    kind, size, pattern = case
    raw_old, old = cached(build_tied, kind, size, 1)
    raw_new, new = cached(build_tied, kind, size, 2)
    buf = mix(old, new, pattern)
    intact = len(set(pattern)) == 1
    raw = raw_new if pattern[0] else raw_old
    ctx.op()
    if kind == 'frs':
        try:
            got = bytes(MFT.FileRecordSegment(buf).frs_data)
        except MFT.FileRecordSegmentException:
            got = None
        usa = (48, 48 + 2 * (size // 512 + 1))
    elif kind == 'indx':
        got = Attributes.VerifyAndUnprotectIndexSectors(bytearray(buf))
        usa = (40, 40 + 2 * (size // 512 + 1))
    else:
        try:
            got = LogFile.LogRecordPage(buf, 4, 64).buf
        except LogFile.UpdateSequenceArrayException:
            got = None
        usa = (40, 58)
    check((got is not None) == intact, 'a structure with sectors of the versions {} is {}', pattern, 'rejected' if got is None else 'accepted')
    if intact:
        equal(strip(bytes(got), usa), strip(raw, usa), 'restored bytes')
    return intact


def gen_header():
    sigs = [b'FILE', b'BAAD', b'CHKD', b'INDX', b'FILF', b'\x00\x00\x00\x00', b'file']
    for size in (1024, 4096):
        for sig in sigs:
            yield ('sig', size, sig, 48, size // 512 + 1)
        for off in list(range(36, 60)) + [100, 128, 254, 255, 256, 500, 502, 504, 505, 506, 507, 508, 510, 511, 512, 1000, 1020, 4090, 65534]:
            for cnt in (0, 1, 2, 3, 4, 8, 9, 10, 255, 65535):
                yield ('usa', size, b'FILE', off, cnt)
    for size in (0, 1, 42, 512, 1023, 1025, 1536, 2048, 3072, 4095, 4097, 8192):
        yield ('size', size, b'FILE', 48, max(1, size // 512 + 1))
    for size in (1024, 4096):
        for declared in (0, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192):
            yield ('declared', size, declared, 48, size // 512 + 1)
        for ff in (0, 1, 41, 42, 43, 48, 64, size - 1, size, size + 1, size + 8, 0xFFFFFFFF):
            yield ('first_free', size, ff, 48, size // 512 + 1)
        for fa in list(range(0, 80)) + [size - 32, size - 25, size - 24, size - 23, size - 16, size, size + 8, 65528]:
            yield ('first_attr', size, fa, 48, size // 512 + 1)


def run_header(case, ctx):
    kind, size, x, off, cnt = case
    ctx.op()
    if kind == 'sig':
        raw = ntfs.frs_raw([], size = size)
        raw[0:4] = x
        buf = ntfs.protect(raw)
        want = x in (b'FILE', b'BAAD', b'CHKD')
    elif kind == 'size':
        raw = ntfs.frs_raw([], size = 4096)
        buf = (ntfs.protect(raw) * 3)[:size]
        want = False
    elif kind == 'declared':
        raw = ntfs.frs_raw([], size = size)
        struct.pack_into('<L', raw, 28, x)
        buf = ntfs.protect(raw)
        want = x in (1024, 4096) and x <= size
    elif kind == 'first_free':
        raw = ntfs.frs_raw([], size = size)
        struct.pack_into('<L', raw, 24, x)
        buf = ntfs.protect(raw)
        want = 42 <= x <= size
    elif kind == 'first_attr':
        raw = ntfs.frs_raw([], size = size)
        struct.pack_into('<H', raw, 20, x)
        buf = ntfs.protect(raw)
        want = x >= 8 and x % 8 == 0 and x <= size - 24 and x >= off + 2 * cnt
    else:
        good_cnt = size // 512 + 1
        fa = max((off + 2 * min(cnt, 16) + 7) // 8 * 8, 72)
        raw = ntfs.frs_raw([], size = size, first_attr = min(fa, size - 32))
        raw[4:8] = struct.pack('<HH', off, cnt)
        want = 42 <= off <= 506 and cnt == good_cnt and min(fa, size - 32) >= off + 2 * cnt
        if cnt == good_cnt and off + 2 * cnt <= size and off >= 42:
            buf = protect_at(raw, off, cnt)
        else:
            buf = bytes(raw)
        if off < 48 and off >= 42 and want:
            pass
        # An array that runs over a protected sector end overwrites its own elements; leave those out.
        if want and any(off <= e - 1 and e - 2 < off + 2 * cnt for e in range(512, size + 1, 512)):
            return 'skipped'
        if want and off < 48:
            # A short header: the number comes from the caller.
            rec = MFT.FileRecordSegment(buf, suggested_mft_number = 1234)
            equal(rec.get_master_file_table_number(), 1234, 'number of a record with a short header')
            return 'short'
    try:
        rec = MFT.FileRecordSegment(buf)
        got = True
    except MFT.FileRecordSegmentException:
        got = False
    equal(got, want, 'acceptance of a record header')
    if got and kind == 'sig':
        equal(rec.is_bad(), x != b'FILE', 'bad flag')
    return got


def protect_at(raw, off, cnt):
    raw = bytearray(raw)
    usn = b'\x77\x66'
    saved = [bytes(raw[i * 512 - 2:i * 512]) for i in range(1, cnt)]
    raw[off:off + 2] = usn
    for i, s in enumerate(saved):
        raw[off + 2 + 2 * i:off + 4 + 2 * i] = s
    for i in range(1, cnt):
        raw[i * 512 - 2:i * 512] = usn
    return bytes(raw)


def build_indx(size, version):
    raw = ntfs.index_buffer_raw([], size = size, vcn = 0, lsn = version)
    start = struct.unpack('<L', raw[24:28])[0] + 24
    raw[start:] = fill(size, 40 * version)[start:]
    return bytes(raw), ntfs.protect(raw, 0x200 + version)


def gen_indx():
    for size in (1024, 2048, 4096, 8192):
        n = size // 512
        pats = itertools.product((1, 0), repeat = n) if n <= 8 else [tuple(0 if i in s else 1 for i in range(n)) for k in (0, 1, 2, 15, 16) for s in itertools.combinations(range(n), k)]
        for p in pats:
            for api in ('function', 'attribute'):
                yield (size, p, api)


def run_indx(case, ctx):
    size, pattern, api = case
    raw_old, old = cached(build_indx, size, 1)
    raw_new, new = cached(build_indx, size, 2)
    buf = mix(old, new, pattern)
    intact = len(set(pattern)) == 1
    raw = raw_new if pattern[0] else raw_old
    ctx.op()
    usa = (40, 40 + 2 * (size // 512 + 1))
    if api == 'function':
        got = Attributes.VerifyAndUnprotectIndexSectors(bytearray(buf))
        if not intact:
            equal(got, None, 'a torn index buffer')
            return 'rejected'
        check(got is not None, 'an intact index buffer was rejected')
        got = bytes(got)
    else:
        # Placed second in an index allocation whose first buffer is intact: only it is affected.
        stream = ntfs.Image(new + buf + new)
        bufs = list(Attributes.IndexAllocation(ImageStream(stream)).index_buffers())
        ctx.op()
        equal(len(bufs), 3 if intact else 2, 'number of index buffers')
        equal(strip(bytes(bufs[0].index_buffer_raw), usa), strip(raw_new, usa), 'the buffer before')
        equal(strip(bytes(bufs[-1].index_buffer_raw), usa), strip(raw_new, usa), 'the buffer after')
        if not intact:
            return 'rejected'
        got = bytes(bufs[1].index_buffer_raw)
    equal(strip(got, usa), strip(raw, usa), 'restored bytes')
    return ('accepted', pattern[0])


def strip(b, usa):
    return b[:usa[0]] + b[usa[1]:]


class ImageStream(object):
    """What an index allocation needs of a stream."""
    def __init__(self, image):
        self.image = image
        self.file_size = len(image.data)

    def seek(self, *a):
        return self.image.seek(*a)

    def read(self, *a):
        return self.image.read(*a)

    def tell(self):
        return self.image.tell()


def build_log(sig, version, crc):
    if sig == b'RSTR':
        hdr = struct.pack('<4sHHQLLHHH', sig, 30, 9, 0, 4096, 4096, 48, 1, 1)
        body = bytearray(hdr.ljust(48, b'\x00') + struct.pack('<QHHHHLHHqLHHL', version, 1, 0xFFFF, 0, 0, 50, 224, 64, 1 << 20, 0, 48, 64, 7).ljust(64, b'\x00'))
        body = bytearray(bytes(body).ljust(4096, b'\x00'))
    else:
        hdr = struct.pack('<4sHHQLHHHH4sQ', sig, 40, 9, version, 1, 1, 1, 0x60, 0, b'\x00' * 4, version)
        body = bytearray(hdr.ljust(4096, b'\x00'))
    start = 300
    body[start:] = fill(4096, 60 * version)[start:]
    usa_off = 30 if sig == b'RSTR' else 40
    raw = bytes(body)
    if crc:
        body[usa_off:usa_off + 18] = b'\x00' * 18
        c = binascii.crc32(bytes(body))
        body[usa_off:usa_off + 18] = (struct.pack('<L', c) + b'CRC4').ljust(18, b'\x00' if version == 1 else b'\xa7')
        return raw, bytes(body)
    return raw, ntfs.protect(body, 0x300 + version)


def gen_log():
    for sig in (b'RSTR', b'RCRD'):
        for crc in (False, True):
            for p in itertools.product((1, 0), repeat = 8):
                yield (sig, crc, p)


def run_log(case, ctx):
    sig, crc, pattern = case
    raw_old, old = cached(build_log, sig, 1, crc)
    raw_new, new = cached(build_log, sig, 2, crc)
    buf = mix(old, new, pattern)
    intact = len(set(pattern)) == 1
    raw = raw_new if pattern[0] else raw_old
    usa = (30, 48) if sig == b'RSTR' else (40, 58)
    ctx.op()
    try:
        if sig == b'RSTR':
            page = LogFile.RestartPage(buf)
        else:
            page = LogFile.LogRecordPage(buf, 4, 64)
    except LogFile.UpdateSequenceArrayException:
        check(not intact, 'an intact log page was rejected')
        return 'rejected'
    check(intact, 'a torn log page was accepted: {}', pattern)
    equal(strip(bytes(page.buf), usa), strip(raw, usa), 'restored bytes')
    return ('accepted', pattern[0])


def gen_arrays():
    """Index buffers and log pages whose update sequence array is declared elsewhere or for another size."""
    offs = [0, 7, 8, 28, 30, 38, 39, 40, 41, 42, 48, 60, 100, 256, 480, 488, 490, 500, 504, 505, 506, 507, 508, 510, 512, 1000, 65534]
    for size in (1024, 2048, 4096):
        n = size // 512
        for off in offs:
            for cnt in sorted({0, 1, 2, 3, n // 2 + 1, n, n + 1, n + 2, 2 * n + 1, 255, 256, 65535}):
                yield ('INDX', size, off, cnt)
                if size == 4096:
                    yield ('RCRD', size, off, cnt)
                    yield ('RSTR', size, off, cnt)
    for size in (0, 8, 512, 1023, 1025, 1536, 3072):
        yield ('INDX', size, 40, size // 512 + 1)


def run_arrays(case, ctx):
    """The array must describe exactly the sectors of the buffer; otherwise the buffer is not accepted."""
    kind, size, off, cnt = case
    low = 40 if kind == 'INDX' else 8
    good = low <= off <= 506 and cnt == size // 512 + 1 and size >= 1024 and size % 512 == 0
    if good and off + 2 * cnt > 510:
        return 'skipped'
    raw = bytearray(fill(max(size, 64), 3))
    raw[0:8] = struct.pack('<4sHH', kind.encode(), off, cnt)
    if kind == 'RSTR':
        # A usable restart page around the array.
        raw[0:4096] = build_log(b'RSTR', 2, False)[0]
        raw[4:8] = struct.pack('<HH', off, cnt)
        if good and off < 300:
            return 'skipped'
    if kind == 'RCRD' and good and off < 40:
        return 'skipped'
    raw = raw[:size]
    plain = bytes(raw)
    # Every sector that a smaller or a larger array would cover carries the expected number.
    if off + 2 <= size:
        usn = b'\x77\x66'
        saved = [bytes(raw[i * 512 - 2:i * 512]) for i in range(1, size // 512 + 1)]
        for i in range(1, size // 512 + 1):
            raw[i * 512 - 2:i * 512] = usn
        elems = usn + b''.join(saved)
        room = max(0, min(len(elems), size - off))
        if off >= 8:
            raw[off:off + room] = elems[:room]
    ctx.op()
    if kind == 'INDX':
        got = Attributes.VerifyAndUnprotectIndexSectors(bytearray(raw))
        if not good:
            equal(got, None, 'an index buffer with a misplaced or missized array')
            return 'rejected'
        check(got is not None, 'an intact index buffer was rejected')
        got = bytes(got)
    else:
        try:
            page = LogFile.RestartPage(bytes(raw)) if kind == 'RSTR' else LogFile.LogRecordPage(bytes(raw), 4, 64)
        except LogFile.UpdateSequenceArrayException:
            check(not good, 'an intact log page was rejected')
            return 'rejected'
        except (LogFile.LogFileException, NotImplementedError):
            # Something else in the page is not as expected.
            return 'other'
        check(good, 'a log page with a misplaced or missized array was accepted')
        got = bytes(page.buf)
    equal(strip(got, (off, off + 2 * cnt)), strip(plain, (off, off + 2 * cnt)), 'restored bytes')
    return 'accepted'


def gen_log_sigs():
    sigs = [b'RSTR', b'RCRD', b'CHKD', b'BAAD', b'FILE', b'INDX', b'HOLE', b'\x00\x00\x00\x00', b'\xff\xff\xff\xff', b'rcrd', b'RCRE', b'RSTS']
    for base in (b'RSTR', b'RCRD'):
        for crc in (False, True):
            for version in (1, 2):
                for x in sigs:
                    yield (base, crc, version, x)
        for s in range(8):
            yield (base, 'chance', s, None)


def run_log_sigs(case, ctx):
    base, crc, version, x = case
    ctx.op()
    usa = (30, 48) if base == b'RSTR' else (40, 58)
    if crc == 'chance':
        # The data at the ends of the sectors, as saved in the array, looks like the mark of the other scheme.
        raw = bytearray(cached(build_log, base, 2, False)[0])
        raw[1022:1024] = b'CR'
        raw[1534:1536] = b'C4'
        raw[0:8] = struct.pack('<4sHH', base, usa[0], 9)
        buf = bytearray(ntfs.protect(bytearray(raw), 0x777))
        want = version == 0
        if version:
            buf[512 * version + 510] ^= 1
    else:
        raw, buf = cached(build_log, base, version, crc)
        raw = bytearray(raw)
        raw[0:4] = x
        buf = bytearray(raw)
        if crc:
            saved = bytes(cached(build_log, base, version, True)[1][usa[0] + 8:usa[1]])
            buf[usa[0]:usa[1]] = b'\x00' * 18
            c = binascii.crc32(bytes(buf))
            buf[usa[0]:usa[1]] = struct.pack('<L', c) + b'CRC4' + saved[:10]
        else:
            buf = ntfs.protect(buf, 0x555)
        want = x in (base, b'CHKD', b'BAAD')
    try:
        page = LogFile.RestartPage(bytes(buf)) if base == b'RSTR' else LogFile.LogRecordPage(bytes(buf), 4, 64)
    except (LogFile.LogFileException, NotImplementedError):
        page = None
    check((page is not None) == want, 'an intact page is {}', 'rejected' if page is None else 'accepted')
    if page is not None:
        equal(strip(bytes(page.buf), usa), strip(bytes(raw), usa), 'restored bytes')
    return want


def gen_log_bits():
    for sig in (b'RSTR', b'RCRD'):
        for crc in (False, True):
            for s in range(8):
                for pos in ((510, 511) if not crc else (0, 1, 100, 255, 300, 301, 509, 510, 511)):
                    for bit in range(8):
                        yield (sig, crc, s * 512 + pos, bit)


def run_log_bits(case, ctx):
    """One flipped bit in a protected position is noticed."""
    sig, crc, pos, bit = case
    raw, buf = cached(build_log, sig, 2, crc)
    b = bytearray(buf)
    b[pos] ^= 1 << bit
    if crc and pos < 8:
        return 'header'
    ctx.op()
    try:
        if sig == b'RSTR':
            LogFile.RestartPage(bytes(b))
        else:
            LogFile.LogRecordPage(bytes(b), 4, 64)
    except (LogFile.LogFileException, NotImplementedError):
        return 'rejected'
    raise Violation('a damaged log page was accepted: byte {} bit {}'.format(pos, bit))


def groups(tier):
    return [
        Group('header', gen_header, run_header, 'every signature, array offset/count, declared size, used size and first-attribute offset of the listed domains'),
        Group('frs', gen_frs, run_frs, '1024/4096-byte records, used sizes at every sector boundary +-8, all 2^2 / 2^8 old/new sector patterns, both header forms'),
        Group('tied', gen_tied, run_tied, 'records, index buffers and log pages where both versions end their sectors with data equal to the number of the other version: all patterns'),
        Group('indx', gen_indx, run_indx, 'index buffers of 2..8 sectors: all 2^n patterns; 16 sectors: <=2 deviations'),
        Group('arrays', gen_arrays, run_arrays, 'index buffers and log pages: 27 array offsets x up to 12 counts, every sector carrying the number'),
        Group('log', gen_log, run_log, 'restart and record pages, both protection schemes, all 2^8 patterns'),
        Group('log_sigs', gen_log_sigs, run_log_sigs, '12 signatures of both kinds of pages, both schemes; pages whose array looks like the other scheme by chance, intact and torn'),
        Group('log_bits', gen_log_bits, run_log_bits, 'every single-bit change of a protected position of a log page'),
    ]
