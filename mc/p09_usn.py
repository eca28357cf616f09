"""P09: every intact change journal record is found exactly once, with its fields."""

import itertools
import struct

from dfir_ntfs import USN

from . import ntfs
from .core import Group, Violation, equal, check
from .p08_fields import near, D1601, TOP

ID = 'P09'
ASSUMPTIONS = ['records of at most 8192 bytes, aligned to 8 bytes, as NTFS writes them']


def v2(name, usn = 0, ref = 5, parent = 6, ts = 0x01D0000000000000, reason = 1, source = 0, sec = 7, attrs = 0x20, off = None, length = None, minor = 0):
    nm = name.encode('utf-16le')
    n = (60 + len(nm) + 7) // 8 * 8
    n = max(n, 64)
    b = struct.pack('<LHHQQQQLLLLHH', n if length is None else length, 2, minor, ref, parent, usn, ts, reason, source, sec, attrs, len(nm), 60 if off is None else off) + nm
    return b.ljust(n, b'\x00')


def v3(name, usn = 0, ref = 5, parent = 6, ts = 0x01D0000000000000, reason = 1, source = 0, sec = 7, attrs = 0x20):
    nm = name.encode('utf-16le')
    n = max((76 + len(nm) + 7) // 8 * 8, 80)
    b = struct.pack('<LHH', n, 3, 0) + ref.to_bytes(16, 'little') + parent.to_bytes(16, 'little')
    b += struct.pack('<QQLLLLHH', usn, ts, reason, source, sec, attrs, len(nm), 76) + nm
    return b.ljust(n, b'\x00')


def v4(extents, usn = 0, ref = 5, parent = 6, reason = 1, source = 0, remaining = 0, esize = 16, count = None):
    n = 64 + len(extents) * esize
    n = max((n + 7) // 8 * 8, 80)
    b = struct.pack('<LHH', n, 4, 0) + ref.to_bytes(16, 'little') + parent.to_bytes(16, 'little')
    b += struct.pack('<QLLLHH', usn, reason, source, remaining, len(extents) if count is None else count, esize)
    for e in extents:
        b += struct.pack('<qq', *e) if isinstance(e, tuple) else e
    return b.ljust(n, b'\x00')


def valid(buf, pos):
    """The length of a valid record at pos, or None."""
    if pos + 8 > len(buf):
        return None
    ln, maj, mnr = struct.unpack('<LHH', buf[pos:pos + 8])
    need = {2: 64, 3: 80, 4: 80}.get(maj)
    if need is None or ln < need or ln % 8 or pos + ln > len(buf) or ln > 8192:
        return None
    return ln


def reference(buf):
    out = []
    pos = 0
    while pos < len(buf):
        ln = valid(buf, pos)
        if ln is None:
            pos += 8
        else:
            out.append((pos, bytes(buf[pos:pos + ln])))
            pos += ln
    return out


ITEMS = {
    'a': v2('a', usn = 0x1111),
    'b': v2('name.txt', usn = 0x2222),
    'L': v2('n' * 255, usn = 0x3333),
    'c': v3('c3', usn = 0x4444, ref = (7 << 64) | 9),
    'C': v3('x' * 120, usn = 0x4545, ref = (7 << 64) | 9),
    'd': v4([(1, 2)], usn = 0x5555),
    'D': v4([(0, 4096), (8192, 10), (-1, 1)], usn = 0x6666, remaining = 3),
    'e': v4([], usn = 0x7777),
    '0': b'\x00' * 8,
    'P': b'\x00' * 4096,
    'Z': b'\x00' * 8192,
    'Y': b'\x00' * 8184,
    'X': b'\x00' * 8200,
    'g': b'\xff' * 16,
    'u': struct.pack('<LHH', 64, 5, 0) + b'\x00' * 56,           # an unknown version
    'v': struct.pack('<LHH', 61, 2, 0) + b'\x00' * 56,           # an unaligned length
    'w': struct.pack('<LHH', 0x7FFFFFF8, 2, 0) + b'\x00' * 8,    # a huge length
    't': v2('trunc', usn = 0x8888)[:40],                         # cut by what follows (or by the end)
    's': struct.pack('<LHH', 8, 2, 0),                           # too small
}


def gen_seq(n):
    def g():
        for k in range(0, n + 1):
            for s in itertools.product(sorted(ITEMS), repeat = k):
                yield ''.join(s)
    return g


def run_seq(case, ctx):
    buf = b''.join(ITEMS[c] for c in case)
    return drive(buf, ctx, case)


def key(raw):
    ln, maj = struct.unpack('<LH', raw[:6])
    wide = maj != 2
    usn, reason = {2: (24, 40), 3: (40, 56), 4: (40, 48)}[maj]
    return (ln, maj, struct.unpack('<Q', raw[usn:usn + 8])[0], int.from_bytes(raw[8:24 if wide else 16], 'little'), struct.unpack('<L', raw[reason:reason + 4])[0])


def drive(buf, ctx, what):
    img = ntfs.Image(buf)
    want = reference(buf)
    got = []
    for r in USN.ChangeJournalParser(img).usn_records():
        ctx.op()
        got.append((r.get_record_length(), r.get_major_version(), r.get_usn(), r.get_file_reference_number(), r.get_reason()))
        if len(got) > len(want) + 5:
            break
    if got != [key(w[1]) for w in want]:
        raise Violation('journal {}: {} records expected at {}, {} reported: {}'.format(what if len(what) < 200 else what[:200], len(want), [w[0] for w in want][:30], len(got), got[:10]))
    check(not img.writes, 'the journal was written to')
    return tuple(w[0] for w in want)


def gen_edges(step):
    """Records around the 8192-byte boundaries of the file."""
    def g():
        for lead in list(range(8192 - 640, 8192 + 17, step)) + list(range(16384 - 160, 16384 + 9, 8)):
            for fill in ('zero', 'records', 'garbage'):
                for tail in ('', 'a', 'Lc', '0b', 'tD'):
                    yield (lead, fill, tail)
    return g


def run_edges(case, ctx):
    lead, fill, tail = case
    if fill == 'zero':
        buf = b'\x00' * lead
    elif fill == 'garbage':
        buf = b'\xfe' * lead
    else:
        buf = ITEMS['a'] * (lead // 64)
        buf += b'\x00' * (lead - len(buf))
    buf += ITEMS['L'] + b''.join(ITEMS[c] for c in tail)
    out = drive(buf, ctx, case)
    return len(out)


def sized(length, usn):
    """A record of exactly the given length."""
    if length <= 576:
        n = (length - 60) // 2
        if 0 < n <= 255:
            r = v2('s' * n, usn = usn)
            if len(r) == length:
                return r
    k = (length - 64) // 16
    r = bytearray(v4([(i, i + 1) for i in range(k)], usn = usn).ljust(length, b'\x00'))
    r[0:4] = struct.pack('<L', length)
    return bytes(r)


def gen_lengths(step):
    def g():
        for length in list(range(80, 1100, 8)) + list(range(1104, 8193, step)):
            for gap in (0, 8, 4096, 8184, 8192, 8200):
                for after in (0, 8, 8192):
                    yield (length, gap, after)
    return g


def run_lengths(case, ctx):
    """Records of every length after a zeroed stretch."""
    length, gap, after = case
    buf = ITEMS['a'] + b'\x00' * gap + sized(length, 0x9999) + b'\x00' * after + ITEMS['b']
    return len(drive(buf, ctx, str(case)))


def gen_cut():
    whole = ITEMS['b'] + ITEMS['c'] + ITEMS['D'] + ITEMS['a']
    for n in range(0, len(whole) + 1):
        yield n


def run_cut(case, ctx):
    whole = ITEMS['b'] + ITEMS['c'] + ITEMS['D'] + ITEMS['a']
    return drive(whole[:case], ctx, 'cut at {}'.format(case))


USNS = ['zero', 'own', 'own-8', 'own+8', 'before', 'page', 'high', 'max']


def gen_usns():
    for kinds in itertools.product(USNS, repeat = 3):
        for gap in (0, 8, 4096, 8184):
            yield (kinds, gap)


def run_usns(case, ctx):
    """The stored sequence numbers say nothing about where the next record is."""
    kinds, gap = case
    buf = b''
    for i, k in enumerate(kinds):
        pos = len(buf)
        usn = {'zero': 0, 'own': pos, 'own-8': max(0, pos - 8), 'own+8': pos + 8, 'before': pos // 2, 'page': 4088, 'high': 1 << 40, 'max': (1 << 64) - 1}[k]
        buf += (v2('name{}'.format(i), usn = usn), v3('n', usn = usn), v4([(1, 2), (3, 4)], usn = usn))[i] + b'\x00' * gap
    buf += v2('last', usn = 0)
    return len(drive(buf, ctx, str(case)))


F2 = [('get_record_length', 0, 4), ('get_major_version', 4, 2), ('get_minor_version', 6, 2), ('get_file_reference_number', 8, 8), ('get_parent_file_reference_number', 16, 8),
      ('get_usn', 24, 8), ('get_timestamp', 32, 8), ('get_reason', 40, 4), ('get_source_info', 44, 4), ('get_security_id', 48, 4), ('get_file_attributes', 52, 4), ('get_file_name_length', 56, 2), ('get_file_name_offset', 58, 2)]
F3 = [('get_record_length', 0, 4), ('get_major_version', 4, 2), ('get_minor_version', 6, 2), ('get_file_reference_number', 8, 16), ('get_parent_file_reference_number', 24, 16)] + [(g, o + 16, n) for g, o, n in F2[5:]]
F4 = [('get_record_length', 0, 4), ('get_major_version', 4, 2), ('get_minor_version', 6, 2), ('get_file_reference_number', 8, 16), ('get_parent_file_reference_number', 24, 16), ('get_usn', 40, 8), ('get_reason', 48, 4),
      ('get_source_info', 52, 4), ('get_remaining_extents', 56, 4), ('get_number_of_extents', 60, 2), ('get_extent_size', 62, 2)]


def gen_fields():
    for ver, fields in ((2, F2), (3, F3), (4, F4)):
        size = 64 if ver == 2 else 80 if ver == 3 else 112
        for byte in range(6, size):
            yield (ver, byte)


def run_fields(case, ctx):
    ver, byte = case
    fields = {2: F2, 3: F3, 4: F4}[ver]
    out = 0
    for bg in (0, 1):
        for value in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255):
            rec = bytearray({2: v2('name'), 3: v3('name'), 4: v4([(1, 2), (3, 4), (5, 6)])}[ver])
            if bg:
                for i in range(8, len(rec)):
                    rec[i] = (i * 29 + 3) & (0x7F if i % 8 != 7 else 1)
            rec[byte] = value
            # Another record follows: nothing of it may leak into this one.
            img = ntfs.Image(bytes(rec) + ITEMS['b'])
            rs = list(USN.ChangeJournalParser(img).usn_records())
            check(len(rs) >= 1, 'the record was not found')
            r = rs[0]
            for get, off, n in fields:
                v = int.from_bytes(rec[off:off + n], 'little')
                ctx.op()
                got = getattr(r, get)()
                if get == 'get_timestamp':
                    if v < TOP - 2000:
                        near(got, v, D1601, 'record timestamp')
                    else:
                        equal(got, None, 'record timestamp')
                elif got != v:
                    raise Violation('version {} record: {} returned {}, stored {}'.format(ver, get, got, v))
            if ver != 4:
                o, n = r.get_file_name_offset(), r.get_file_name_length()
                try:
                    nm = r.get_file_name()
                except ValueError:
                    check(o + n > len(rec), 'the file name lies in the record, but was rejected')
                else:
                    check(o + n <= len(rec), 'a file name crossing the end of the record was returned')
                    equal(nm, bytes(rec[o:o + n]).decode('utf-16le', 'replace'), 'file name')
            else:
                cnt, es = r.get_number_of_extents(), r.get_extent_size()
                want = []
                pos = 64
                for k in range(min(cnt, 70000 if es else 0) if es else 0):
                    if pos + es > len(rec):
                        break
                    raw = bytes(rec[pos:pos + es])
                    want.append(struct.unpack('<qq', raw) if es == 16 else raw)
                    pos += es
                if es:
                    equal([x if isinstance(x, tuple) else bytes(x) for x in r.extents()], want, 'extents')
            out += 1
    return out


REASONS = {0x1: 'DATA_OVERWRITE', 0x2: 'DATA_EXTEND', 0x4: 'DATA_TRUNCATION', 0x10: 'NAMED_DATA_OVERWRITE', 0x20: 'NAMED_DATA_EXTEND', 0x40: 'NAMED_DATA_TRUNCATION',
           0x100: 'FILE_CREATE', 0x200: 'FILE_DELETE', 0x400: 'EA_CHANGE', 0x800: 'SECURITY_CHANGE', 0x1000: 'RENAME_OLD_NAME', 0x2000: 'RENAME_NEW_NAME', 0x4000: 'INDEXABLE_CHANGE',
           0x8000: 'BASIC_INFO_CHANGE', 0x10000: 'HARD_LINK_CHANGE', 0x20000: 'COMPRESSION_CHANGE', 0x40000: 'ENCRYPTION_CHANGE', 0x80000: 'OBJECT_ID_CHANGE', 0x100000: 'REPARSE_POINT_CHANGE',
           0x200000: 'STREAM_CHANGE', 0x400000: 'TRANSACTED_CHANGE', 0x800000: 'INTEGRITY_CHANGE', 0x80000000: 'CLOSE'}
SOURCES = {1: 'DATA_MANAGEMENT', 2: 'AUXILIARY_DATA', 4: 'REPLICATION_MANAGEMENT', 8: 'CLIENT_REPLICATION_MANAGEMENT'}


def gen_codes():
    bits = [1 << i for i in range(32)]
    for n in range(0, 4):
        for c in itertools.combinations(bits, n):
            yield sum(c)
    yield 0xFFFFFFFF
    yield 0x80FFFF77


def run_codes(case, ctx):
    for table, prefix, fn in ((REASONS, 'USN_REASON_', USN.ResolveReasonCodes), (SOURCES, 'USN_SOURCE_', USN.ResolveSourceCodes)):
        ctx.op()
        got = fn(case)
        parts = got.split(' | ') if got else []
        want = {prefix + table[b] for b in table if case & b}
        rest = case & ~sum(table)
        named = [p for p in parts if not p.startswith('0x')]
        other = [p for p in parts if p.startswith('0x')]
        check(sorted(named) == sorted(want), 'code {:#x} rendered as {!r}', case, got)
        check([int(x, 16) for x in other] == ([rest] if rest else []), 'unknown bits of code {:#x} rendered as {!r}', case, got)
    return got


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('fields', gen_fields, run_fields, '3 record versions x every byte x 10 values x 2 backgrounds, all getters'),
        Group('usns', gen_usns, run_usns, '3 records x 8 kinds of sequence numbers each x 4 gaps'),
        Group('codes', gen_codes, run_codes, 'all combinations of <=3 of 32 bits, reasons and sources'),
        Group('cut', gen_cut, run_cut, 'a journal of four records cut at every byte'),
        Group('lengths', gen_lengths(8 if th else 128), run_lengths, 'records of every length to 1100 bytes and every {}th to 8192, after and before zeroed stretches'.format(8 if th else 128)),
        Group('edges', gen_edges(8), run_edges, 'records at every 8-byte position around the 8192-byte block boundaries x 3 fillers x 5 tails'),
        Group('sequences', gen_seq(4 if th else 3), run_seq, 'all sequences of <={} items over {} kinds of records, gaps and damage'.format(4 if th else 3, len(ITEMS))),
    ]
