"""P08: timestamps and fields of attribute structures are decoded exactly."""

import datetime
import itertools
import struct
import uuid

from dfir_ntfs import MFT, Attributes, WSL
from dfir_ntfs.addons import FAT, exFAT

from . import ntfs
from .core import Group, Violation, equal, check

ID = 'P08'
ASSUMPTIONS = ['timestamps are reported as naive date-time values with microseconds; the conversion may be off by one microsecond (by 20 after the year 2170), which the existing tests pin down']

MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return MDAYS[m - 1] + (1 if m == 2 and leap(y) else 0)


def days_before_year(y):
    """Days from 0001-01-01."""
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400


def day_number(y, m, d):
    return days_before_year(y) + sum(mdays(y, k) for k in range(1, m)) + d - 1


D1601 = day_number(1601, 1, 1)
D1582 = day_number(1582, 10, 15)
D1970 = day_number(1970, 1, 1)
DAY = 864000000000


def ticks(dt, epoch):
    """100 ns ticks of a date-time since the epoch day."""
    return (day_number(dt.year, dt.month, dt.day) - epoch) * DAY + ((dt.hour * 60 + dt.minute) * 60 + dt.second) * 10000000 + dt.microsecond * 10


LIMIT = (day_number(2170, 1, 1) - D1601) * DAY


def near(got, value, epoch, what):
    check(got is not None, '{}: the value {} was not decoded', what, value)
    err = abs(ticks(got, epoch) - value)
    tol = 15 if value < LIMIT else 200
    check(err <= tol, '{}: {} was decoded as {}, which is {} ticks of 100 ns off', what, value, got, err)


TIMES = (0, 1, 4, 6, 10, 36000000000, 452961234560, 452961234567, DAY - 10000000, DAY - 600000000, DAY - 20)


def gen_filetime(last):
    def g():
        for y in range(1601, last + 1):
            yield y
    return g


def run_filetime(case, ctx):
    y = case
    n = day_number(y, 1, 1) - D1601
    for k in range(366 if leap(y) else 365):
        for t in TIMES:
            v = (n + k) * DAY + t
            ctx.op()
            got = Attributes.DecodeFiletime(v)
            near(got, v, D1601, 'FILETIME')
    return y


def gen_filetime_bits():
    for b in range(64):
        yield (1 << b,)
        yield ((1 << b) - 1,)
        yield ((1 << b) | 0x01D0000000000000,)
    top = (day_number(9999, 12, 31) - D1601 + 1) * DAY
    for d in (-10000000, -1000, 0, 1, 1000, DAY):
        yield (top + d,)
    yield (0x7FFFFFFFFFFFFFFF,)
    yield (0xFFFFFFFFFFFFFFFF,)


TOP = (day_number(9999, 12, 31) - D1601 + 1) * DAY


def run_filetime_bits(case, ctx):
    v = case[0]
    ctx.op(2)
    got = Attributes.DecodeFiletime(v)
    if v >= TOP:
        equal(got, None, 'FILETIME {} past the year 9999'.format(v))
        try:
            Attributes.DecodeFiletime(v, False)
        except Exception:
            pass
        else:
            raise Violation('FILETIME {} past the year 9999: no error on request'.format(v))
    elif v >= TOP - 2000:
        if got is not None:
            near(got, v, D1601, 'FILETIME')
    else:
        near(got, v, D1601, 'FILETIME')
        equal(Attributes.DecodeFiletime(v, False), got, 'strict decoding')
    # Through the structures.
    si = Attributes.StandardInformation(struct.pack('<QQQQ', v, 0, 0, 0) + b'\x00' * 40)
    equal(si.get_ctime(), got, 'the same value in a structure')
    return repr(got)


def gen_guid(last):
    def g():
        for y in list(range(1583, last + 1)) + list(range(last + 1, 5236, 50)):
            yield y
    return g


def run_guid(case, ctx):
    y = case
    for m in range(1, 13):
        for d in (1, 15, mdays(y, m)):
            for t in TIMES[3:]:
                v = (day_number(y, m, d) - D1582) * DAY + t
                if v >= 1 << 60:
                    continue
                ctx.op()
                near(Attributes.DecodeGUIDTime(v), v, D1582, 'GUID time')
                g = struct.pack('<LHH', v & 0xFFFFFFFF, (v >> 32) & 0xFFFF, ((v >> 48) & 0x0FFF) | 0x1000) + b'\x81\x02\x03\x04\x05\x06\x07\x08'
                o = Attributes.ObjectID(bytearray(g + b'EXTRA'))
                near(o.get_timestamp(), v, D1582, 'object identifier time')
    return y


def gen_guid_versions():
    for version in range(16):
        for variant in (0x00, 0x40, 0x80, 0xBF, 0xC0, 0xE0):
            yield (version, variant)


def run_guid_versions(case, ctx):
    """Only a time-based identifier (version 1 of the standard variant) carries a time."""
    version, variant = case
    v = (day_number(2010, 5, 6) - D1582) * DAY + TIMES[3]
    g = struct.pack('<LHH', v & 0xFFFFFFFF, (v >> 32) & 0xFFFF, ((v >> 48) & 0x0FFF) | version << 12) + bytes([variant]) + b'\x02\x03\x04\x05\x06\x07\x08'
    ctx.op()
    got = Attributes.ObjectID(bytearray(g)).get_timestamp()
    if version == 1 and variant >> 6 == 2:
        near(got, v, D1582, 'time of a time-based identifier')
    else:
        equal(got, None, 'time of an identifier of version {}'.format(version))
    return got is None


def gen_fatdate():
    for hi in range(256):
        yield hi


def ref_date(v):
    d, m, y = v % 32, v // 32 % 16, 1980 + v // 512
    if d < 1 or m < 1 or m > 12 or d > mdays(y, m):
        return None
    return (y, m, d)


def ref_time(v):
    s, mi, h = v % 32 * 2, v // 32 % 64, v // 2048
    if s > 58 or mi > 59 or h > 23:
        return None
    return (h, mi, s)


def run_fatdate(case, ctx):
    for lo in range(256):
        v = case * 256 + lo
        ctx.op(2)
        d = FAT.DecodeFATDate(v)
        equal(None if d is None else (d.year, d.month, d.day), ref_date(v), 'FAT date {:#06x}'.format(v))
        t = FAT.DecodeFATTime(v)
        equal(None if t is None else (t.hour, t.minute, t.second, t.microsecond), None if ref_time(v) is None else ref_time(v) + (0,), 'FAT time {:#06x}'.format(v))
    return case


def gen_exfat():
    for hi in range(256):
        yield ('date', hi)
        yield ('time', hi)
        yield ('ms', hi)
    yield ('tz', 0)


def exfat_time(v, ms):
    d, t = ref_date(v >> 16), ref_time(v & 0xFFFF)
    if d is None or t is None:
        return None
    if ms > 199:
        ms = 0
    sec = ((t[0] * 60 + t[1]) * 60 + t[2]) * 10000000 + ms * 100000
    return (day_number(*d) - D1601) * DAY + sec


def run_exfat(case, ctx):
    kind, hi = case
    if kind == 'tz':
        for v in range(256):
            ctx.op()
            off = v & 0x7F
            want = None if v < 128 else (off if off < 64 else off - 128)
            equal(exFAT.DecodeFATTimezone(v), want, 'time zone byte {:#04x}'.format(v))
        return 'tz'
    for lo in range(256):
        v = hi * 256 + lo
        if kind == 'date':
            pairs = [((v << 16) | 0x8C35, 0), ((v << 16) | 0xBF7D, 199)]
        elif kind == 'time':
            pairs = [((0x5A9C << 16) | v, 0), ((0x5A9C << 16) | v, 150)]
        else:
            pairs = [((0x5A9C << 16) | 0x8C35, lo), ((0xFF9F << 16) | 0xBF7D, lo)]
        for val, ms in pairs:
            ctx.op()
            got = exFAT.DecodeFATTimestamp(val, ms)
            equal(None if got is None else ticks(got, D1601), exfat_time(val, ms), 'exFAT timestamp {:#010x} + {} x 10 ms'.format(val, ms))
    return case


def gen_unix():
    for s in (0, 1, 59, 86399, 951782400, 951868799, 1600000000, 2147483647, 2147483648, 4294967295, 4294967296, 32503680000, 253402300799):
        for ns in (0, 1, 499, 999, 1000, 123456789, 999999000, 999999999):
            yield (s, ns)
    for s in (253402300800, 1 << 40, 1 << 62, 1 << 63, (1 << 64) - 1):
        yield (s, 0)


def run_unix(case, ctx):
    s, ns = case
    val = bytearray(struct.pack('<HH', 0, 1) + b'\x00' * 52)
    out = []
    for nso, so, get in ((20, 32, 'get_atime'), (24, 40, 'get_mtime'), (28, 48, 'get_chtime')):
        v = bytearray(val)
        struct.pack_into('<L', v, nso, ns)
        struct.pack_into('<Q', v, so, s)
        w = WSL.LXATTRB(bytes(v))
        ctx.op(3)
        got = getattr(w, get)()
        if s > 253402300799:
            equal(got, None, 'Unix time {}'.format(s))
        elif s == 253402300799 and ns > 999999000:
            pass
        else:
            want = s * 10000000 + ns // 100
            check(got is not None and abs(ticks(got, D1970) - want) <= 15, 'Unix time {}.{:09d} was decoded as {}', s, ns, got)
        for other in ('get_atime', 'get_mtime', 'get_chtime'):
            if other != get:
                equal(getattr(w, other)(), datetime.datetime(1970, 1, 1), other + ' of zero')
        out.append(str(got))
    return tuple(out)


# Structures: (class, size, [(getter, offset, format, kind)]); kind: int or time.
T = 'time'
STRUCTS = {
    'SI': (Attributes.StandardInformation, 0x10, 72, 48, [
        ('get_ctime', 0, '<Q', T), ('get_mtime', 8, '<Q', T), ('get_etime', 16, '<Q', T), ('get_atime', 24, '<Q', T), ('get_file_attributes', 32, '<L', 0),
        ('get_maximum_versions', 36, '<L', 0), ('get_version_number', 40, '<L', 0), ('get_extra_flags', 40, '<L', 0), ('get_class_id', 44, '<L', 0), ('get_owner_id', 48, '<L', 0),
        ('get_security_id', 52, '<L', 0), ('get_quota_charged', 56, '<Q', 0), ('get_usn', 64, '<Q', 0)]),
    'FN': (Attributes.FileName, 0x30, 66, 66, [
        ('get_parent_directory', 0, '<Q', 0), ('get_ctime', 8, '<Q', T), ('get_mtime', 16, '<Q', T), ('get_etime', 24, '<Q', T), ('get_atime', 32, '<Q', T),
        ('get_allocated_length', 40, '<q', 0), ('get_file_size', 48, '<q', 0), ('get_file_attributes', 56, '<L', 0), ('get_packed_ea_size', 60, '<H', 0),
        ('get_unpacked_ea_size_difference', 62, '<H', 0), ('get_file_name_length', 64, '<B', 0), ('get_flags', 65, '<B', 0)]),
    'VI': (Attributes.VolumeInformation, 0x70, 12, 12, [('get_major_version', 8, '<B', 0), ('get_minor_version', 9, '<B', 0), ('get_flags', 10, '<H', 0)]),
    'RP': (Attributes.ReparsePoint, 0xC0, 8, 8, [('get_reparse_tag', 0, '<L', 0), ('get_reparse_data_length', 4, '<H', 0)]),
    'EAI': (Attributes.EAInformation, 0xD0, 8, 8, [('get_packed_ea_size', 0, '<H', 0), ('get_need_ea_count', 2, '<H', 0), ('get_unpacked_ea_size', 4, '<L', 0)]),
    'IR': (Attributes.IndexRoot, 0x90, 32, 32, [('get_indexed_attribute_type_code', 0, '<L', 0), ('get_collation_rule', 4, '<L', 0), ('get_bytes_per_index_buffer', 8, '<L', 0), ('get_blocks_per_index_buffer', 12, '<L', 0)]),
    'IH': (Attributes.IndexHeader, None, 16, 16, [('get_first_index_entry', 0, '<L', 0), ('get_first_free_byte', 4, '<L', 0), ('get_bytes_available', 8, '<L', 0), ('get_flags', 12, '<B', 0)]),
    'DUP': (Attributes.DuplicatedInformation, None, 56, 56, [
        ('get_ctime', 0, '<Q', T), ('get_mtime', 8, '<Q', T), ('get_etime', 16, '<Q', T), ('get_atime', 24, '<Q', T),
        ('get_allocated_length', 32, '<q', 0), ('get_file_size', 40, '<q', 0), ('get_file_attributes', 48, '<L', 0), ('get_packed_ea_size', 52, '<H', 0), ('get_unpacked_ea_size_difference', 54, '<H', 0)]),
    'LX': (WSL.LXATTRB, None, 56, 56, [('get_mode', 4, '<L', 0), ('get_uid', 8, '<L', 0), ('get_gid', 12, '<L', 0), ('get_rdev', 16, '<L', 0)]),
}


def read_field(buf, off, fmt):
    n = struct.calcsize(fmt)
    raw = buf[off:off + n]
    return int.from_bytes(raw, 'little', signed = fmt == '<q')


def want_field(buf, off, fmt, kind):
    v = read_field(buf, off, fmt)
    if kind == T:
        if v >= TOP - 2000:
            return None
        return ('t', v)
    return v


def compare(obj, buf, fields, name):
    for get, off, fmt, kind in fields:
        got = getattr(obj, get)()
        want = want_field(buf, off, fmt, kind)
        if isinstance(want, tuple):
            near(got, want[1], D1601, name + '.' + get)
        else:
            if got != want:
                raise Violation('{}.{}: expected {}, got {}; structure {}'.format(name, get, want, got, bytes(buf).hex()))


def gen_structs():
    for name in STRUCTS:
        size = STRUCTS[name][2]
        bases = ['00', 'ff', 'count']
        for b in bases:
            for byte in range(size):
                yield (name, b, byte)


def base_bytes(b, size):
    if b == '00':
        return bytearray(size)
    if b == 'ff':
        return bytearray(b'\xff' * size)
    return bytearray((i * 37 + 11) & (0x7F if i % 8 != 7 else 0x01) for i in range(size))


def run_structs(case, ctx):
    name, b, byte = case
    cls, code, size, minimum, fields = STRUCTS[name]
    for value in (0x00, 0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xFF, 0x7F, 0x5A):
        buf = base_bytes(b, size)
        buf[byte] = value
        if name == 'LX':
            buf[0:4] = b'\x00\x00\x01\x00'
        ctx.op(len(fields))
        for conv in (bytes, bytearray):
            obj = cls(conv(buf))
            compare(obj, buf, fields, name)
        if name == 'SI':
            x = read_field(buf, 40, '<L')
            equal((bool(obj.is_case_sensitive()), obj.get_storage_reserve_id(), obj.get_known_folder_information(), obj.get_trust_level()),
                  (x % 2 == 1, x // 256 % 16, x // 2 % 8, x // 16 % 4), 'extra flags {:#x}'.format(x))
        if name == 'RP':
            equal(bool(obj.is_reparse_tag_microsoft()), read_field(buf, 0, '<L') >= 1 << 31, 'Microsoft tag')
    return name


def gen_sizes():
    for name in STRUCTS:
        if STRUCTS[name][1] is not None:
            for n in range(0, STRUCTS[name][2] + 17):
                yield (name, n)


def run_sizes(case, ctx):
    """Values of every size, through a file record: short ones are not reported as the structure."""
    name, n = case
    cls, code, size, minimum, fields = STRUCTS[name]
    buf = bytes((i * 37 + 11) & (0x7F if i % 8 != 7 else 0x01) for i in range(n))
    seg = MFT.FileRecordSegment(bytearray(ntfs.frs([ntfs.attr_resident(code, buf)])))
    attrs = list(seg.attributes())
    equal(len(attrs), 1, 'attributes')
    ctx.op(1 + len(fields))
    try:
        obj = attrs[0].value_decoded()
    except MFT.MasterFileTableException:
        obj = None
    if n < minimum:
        check(type(obj) is not cls, 'a value of {} bytes is reported as a {}', n, name)
        return 'short'
    check(type(obj) is cls, 'a value of {} bytes is not reported as a {}', n, name)
    for get, off, fmt, kind in fields:
        got = getattr(obj, get)()
        if off + struct.calcsize(fmt) > n:
            equal(got, None, '{}.{} of a value of {} bytes'.format(name, get, n))
        elif kind == T and want_field(buf, off, fmt, kind) is None:
            equal(got, None, get)
        elif kind == T:
            near(got, read_field(buf, off, fmt), D1601, get)
        else:
            equal(got, read_field(buf, off, fmt), '{}.{} of a value of {} bytes'.format(name, get, n))
    return 'ok'


ATTRS = {0x1: 'READ_ONLY', 0x2: 'HIDDEN', 0x4: 'SYSTEM', 0x10: 'DIRECTORY', 0x20: 'ARCHIVE', 0x40: 'DEVICE', 0x80: 'NORMAL', 0x100: 'TEMPORARY', 0x200: 'SPARSE',
         0x400: 'REPARSE_POINT', 0x800: 'COMPRESSED', 0x1000: 'OFFLINE', 0x2000: 'NOT_CONTENT_INDEXED', 0x4000: 'ENCRYPTED', 0x8000: 'INTEGRITY_STREAM', 0x10000: 'VIRTUAL',
         0x20000: 'NO_SCRUB_DATA', 0x40000: 'RECALL_ON_OPEN', 0x80000: 'PINNED', 0x100000: 'UNPINNED', 0x400000: 'RECALL_ON_DATA_ACCESS'}


def gen_attrs():
    bits = [1 << i for i in range(32)]
    for n in (0, 1, 2, 3):
        for c in itertools.combinations(bits, n):
            yield sum(c)
    yield 0xFFFFFFFF


def run_attrs(case, ctx):
    ctx.op()
    got = Attributes.ResolveFileAttributes(case)
    want = ' | '.join(ATTRS[b] for b in sorted(ATTRS) if case & b)
    equal(got, want, 'file attributes {:#x}'.format(case))
    return got


def gen_partial():
    for off in range(0, 42):
        for n in range(0, 50):
            yield (off, n)


def run_partial(case, ctx):
    """A part of the structure logged at an offset: a timestamp is reported exactly when it is covered completely."""
    off, n = case
    base = 0x01D0000000000000
    whole = struct.pack('<QQQQ', base + 100000, base + 200000, base + 300000, base + 400000) + bytes(range(64))
    for val in (whole[off:off + n],):
        obj = Attributes.StandardInformationPartial(val, off)
        for i, get in enumerate(('get_ctime', 'get_mtime', 'get_etime', 'get_atime')):
            ctx.op()
            got = getattr(obj, get)()
            if off <= i * 8 and off + len(val) >= i * 8 + 8:
                near(got, base + (i + 1) * 100000, D1601, get)
            else:
                equal(got, None, '{} of {} bytes at {}'.format(get, n, off))
    return n


def gen_names():
    units = (0x41, 0x00E9, 0x4E2D, 0xD83D, 0xDE00, 0x0000, 0x002F)
    for n in range(0, 4):
        for t in itertools.product(units, repeat = n):
            yield t
    for n in (254, 255):
        yield (0x61,) * n


def run_names(case, ctx):
    raw = b''.join(struct.pack('<H', u) for u in case)
    want = raw.decode('utf-16le', 'replace')
    ctx.op(4)
    fn = Attributes.FileName(ntfs.v_file_name(5, raw) + b'TAIL')
    equal((fn.get_file_name_length(), fn.get_file_name()), (len(case), want), 'file name')
    equal(Attributes.VolumeName(bytearray(raw)).get_name(), want, 'volume name')
    o = struct.pack('<LHH', 1, 2, 3) + b'\x80\x01ABCDEF'
    for extra in (b'', raw):
        oid = Attributes.ObjectID(o + extra)
        equal((oid.get_object_id(), bytes(oid.get_extra_data())), (uuid.UUID('00000001-0002-0003-8001-414243444546'), extra), 'object identifier')
        equal(oid.get_timestamp(), None, 'time of a non-time identifier')
    for cut in (0, 15):
        equal(Attributes.ObjectID(o[:cut]).get_object_id(), None, 'a cut object identifier')
    # Reparse points.
    for tag in (0xA0000003, 0xA000000C, 0x00000123, 0x7FFFFFFF, 0x80000000):
        ms = tag >= 1 << 31
        val = struct.pack('<LHH', tag, len(raw), 0) + (b'' if ms else o) + raw + b'TAIL'
        for conv in (bytes, bytearray):
            rp = Attributes.ReparsePoint(conv(val))
            equal((rp.get_reparse_tag(), rp.get_reparse_data_length(), bytes(rp.get_reparse_buffer())), (tag, len(raw), raw), 'reparse point')
            equal(rp.get_reparse_guid(), None if ms else uuid.UUID('00000001-0002-0003-8001-414243444546'), 'reparse identifier')
    return want


LIST = [(0x10, None, 0, ntfs.ref(5, 1), 0), (0x80, None, 7, ntfs.ref(0x123456789ABC, 0xFFFE), 65535), (0x80, 'ab', 1 << 40, ntfs.ref(9, 9), 3), (0xA0, '$I30', 0, ntfs.ref(1, 1), 1), (0x80, 'x', 0, 0, 2)]


def gen_list():
    for n in range(0, 4):
        for c in itertools.product(range(len(LIST)), repeat = n):
            yield ('seq', c, 0, 0)
    for n in (1, 2, 3):
        for victim in range(n):
            for field, values in (('len', (0, 1, 25, 26, 27, 31, 33, 40, 0x100, 0xFFFF)), ('nlen', (0, 1, 3, 4, 5, 255)), ('noff', (0, 25, 26, 30, 255))):
                for v in values:
                    yield (field, (2, 3, 1)[:n], victim, v)
    for cut in range(0, 110):
        yield ('cut', (2, 3, 1), 0, cut)


def run_list(case, ctx):
    kind, idx, victim, v = case
    entries = [LIST[i] for i in idx]
    raw = bytearray(ntfs.v_attr_list(entries))
    starts = [len(ntfs.v_attr_list(entries[:i])) for i in range(len(entries))]
    if kind == 'len':
        struct.pack_into('<H', raw, starts[victim] + 4, v)
    elif kind == 'nlen':
        raw[starts[victim] + 6] = v
    elif kind == 'noff':
        raw[starts[victim] + 7] = v
    elif kind == 'cut':
        raw = raw[:v]
    want = []
    pos = 0
    while pos + 26 <= len(raw):
        t, ln, nl, no, vcn, r, inst = struct.unpack('<LHBBQQH', raw[pos:pos + 26])
        if ln < 26 or (nl and no + 2 * nl > ln):
            break
        name = bytes(raw[pos + no:pos + no + 2 * nl]).decode('utf-16le', 'replace') if nl else None
        want.append((t, name, inst, vcn, r))
        pos += (ln + 7) // 8 * 8
    ctx.op()
    got = [(e.attribute_type_code, e.attribute_name, e.attribute_instance, e.lowest_vcn, e.segment_reference) for e in Attributes.AttributeList(raw).entries()]
    equal(got, want, 'attribute list')
    return len(got)


def gen_compacted():
    for sign in (b'DC', b'DX', b'XC', b'CD', b'\0\0', b'dc'):
        for fill in (0, 0xff, 0x5a):
            for n in (0, 1, 0xff, 0x100, 0x12345678, 0x80000000, 0xffffffff):
                for extra in (0, 1, 32):
                    yield sign, fill, n, extra


def run_compacted(case, ctx):
    """The size kept behind the first entry of an attribute list, if it is marked."""
    sign, fill, n, extra = case
    raw = bytearray(struct.pack('<LHBBQQH', 0x80, 32, 0, 26, 0, (5 << 48) | 40, 3)) + sign + struct.pack('<L', n) + bytes([fill]) * extra
    raw[8:16] = bytes([fill]) * 8
    ctx.op()
    equal(Attributes.AttributeList(bytes(raw)).get_last_compacted_size(), n if sign == b'DC' else None, 'last compacted size')
    return sign


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('filetime_bits', gen_filetime_bits, run_filetime_bits, 'all powers of two, their predecessors, and the end of the range'),
        Group('structures', gen_structs, run_structs, '9 structures x 3 backgrounds x every byte position x 12 values, all getters'),
        Group('sizes', gen_sizes, run_sizes, 'every value size from 0 to full + 16 bytes of 6 structures'),
        Group('names', gen_names, run_names, 'all names of <=3 code units over 7 units; identifiers and reparse points'),
        Group('list', gen_list, run_list, 'all attribute lists of <=3 entries over 5 kinds; length, name and cut corruptions'),
        Group('compacted', gen_compacted, run_compacted, 'the marked size in the first entry of an attribute list: 6 marks x 7 sizes x 9 surroundings'),
        Group('partial', gen_partial, run_partial, 'all offsets 0..41 and lengths 0..49'),
        Group('file_attributes', gen_attrs, run_attrs, 'all combinations of <=3 of 32 bits'),
        Group('unix', gen_unix, run_unix, '13 x 8 values and 5 out of range, in each of three positions'),
        Group('fat', gen_fatdate, run_fatdate, 'all 65536 dates and times'),
        Group('exfat', gen_exfat, run_exfat, 'all 65536 dates, times and all 256 sub-second and time zone bytes'),
        Group('filetime', gen_filetime(9998 if th else 2400), run_filetime, 'every day of 1601..{} at {} times of day'.format(9998 if th else 2400, len(TIMES))),
        Group('guid_versions', gen_guid_versions, run_guid_versions, '16 identifier versions x 6 variants'),
        Group('guid', gen_guid(5200 if th else 2600), run_guid, '36 days of every year'),
    ]
