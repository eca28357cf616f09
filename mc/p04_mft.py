"""P04: the file table is assembled exactly: every base record once, with the extension records that belong to it."""

import io
import itertools
import struct

from dfir_ntfs import MFT, Attributes

from . import ntfs
from .core import Group, Violation, equal, check

ID = 'P04'
ASSUMPTIONS = ['tables of 6 fixed system records and up to 4 (thorough: 5) free slots, each slot drawn from an alphabet of record states including damaged ones']


def effective(seq, in_use):
    """The sequence number references use: freeing a record increments it (0xFFFF wraps to 0); 1 cannot come from a free."""
    if in_use:
        return seq
    if seq == 0:
        return 0xFFFF
    return seq - 1 if seq >= 2 else seq


BASE = 6

# Slot alphabet: ('bad',) damaged; ('torn',); ('base', in_use, seq); ('child', in_use, seq, base slot, base seq); ('zero',)
SLOTS = [
    ('base', 1, 1), ('base', 1, 2), ('base', 0, 2), ('base', 0, 1), ('base', 0, 0),
    ('child', 1, 1, 6, 1), ('child', 1, 1, 6, 2), ('child', 0, 2, 6, 1), ('child', 1, 3, 7, 1), ('child', 1, 1, 6, 0xFFFF), ('child', 0, 0, 7, 2),
    ('moved', 1, 1, 6, 1), ('bad',), ('torn',), ('zero',), ('baad', 1, 1),
]


def slot_bytes(slot, number, size, short):
    kind = slot[0]
    tag = struct.pack('<HH', number, 0xBEEF)
    attr = ntfs.attr_resident(0x80, tag, name = 's{}'.format(number))
    if kind == 'zero':
        return b'\x00' * size
    if kind == 'bad':
        return b'XXXX' + ntfs.frs([attr], size = size, number = number)[4:]
    if kind == 'torn':
        b = bytearray(ntfs.frs([attr], size = size, number = number))
        b[510] ^= 0xFF
        return bytes(b)
    if kind == 'baad':
        return ntfs.frs([attr], size = size, number = number, seq = slot[2], flags = slot[1], signature = b'BAAD', short = short)
    if kind == 'base':
        return ntfs.frs([attr], size = size, number = number, seq = slot[2], flags = slot[1], lsn = number * 100, short = short)
    if kind == 'moved':
        # An extension record that states a wrong number: its place in the table counts.
        number = BASE
    return ntfs.frs([attr], size = size, number = number, seq = slot[2], flags = slot[1], base = ntfs.ref(slot[3], slot[4]), short = short)


def table(slots, size, short = False, tail = 0):
    out = b''.join(ntfs.system_frs(i, size) for i in range(BASE))
    for i, s in enumerate(slots):
        out += slot_bytes(s, BASE + i, size, short)
    return out + b'\x77' * tail


def model(slots):
    """number -> (in_use, effective seq, is_base, [children numbers])"""
    recs = {}
    for i in range(BASE):
        recs[i] = (True, {0: 1, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5}[i], True, [])
    children = {}
    for i, s in enumerate(slots):
        n = BASE + i
        if s[0] in ('child', 'moved'):
            children.setdefault((s[3], s[4]), []).append(n)
    for i, s in enumerate(slots):
        n = BASE + i
        if s[0] in ('base', 'baad'):
            e = effective(s[2], bool(s[1]))
            recs[n] = (bool(s[1]), e, True, children.get((n, e), []))
        elif s[0] in ('child', 'moved'):
            recs[n] = (bool(s[1]), effective(s[2], bool(s[1])), False, (s[3], s[4]))
    return recs


def describe(fr):
    """A record as an observer sees it: own number, and which slots its attributes come from."""
    names = []
    for a in fr.attributes():
        if a.type_code == 0x80 and a.name and a.name.startswith('s'):
            names.append(int(a.name[1:]))
    return (fr.get_master_file_table_number(), fr.is_in_use(), names)


def gen_tables(depth, sizes):
    def g():
        for size in sizes:
            for n in range(0, depth + 1):
                for slots in itertools.product(SLOTS, repeat = n):
                    yield (size, slots, False)
        for size in (1024,):
            for n in range(1, 3):
                for slots in itertools.product(SLOTS, repeat = n):
                    yield (size, slots, True)
    return g


def run_tables(case, ctx):
    size, slots, short = case
    recs = model(slots)
    img = ntfs.Image(table(slots, size, short))
    parser = MFT.MasterFileTableParser(img)
    total = BASE + len(slots)

    def expected(n):
        in_use, seq, is_base, kids = recs[n]
        own = [n] if n >= BASE else []
        return (n, in_use, own + list(kids))

    want = [expected(n) for n in sorted(recs) if recs[n][2]]
    got = [describe(fr) for fr in parser.file_records()]
    ctx.op()
    equal(got, want, 'file records')
    got = [describe(fr) for fr in parser.file_records(True)]
    ctx.op()
    equal(got, [w for w in want if w[1]], 'file records in use')
    kids = sum(1 for n in recs if not recs[n][2])
    equal(tuple(parser.statistics), (len(recs), kids), 'statistics')

    outcomes = []
    for n in list(range(BASE, total)) + [total, total + 1, 1 << 40, -1]:
        seqs = [None]
        if n in recs:
            e = recs[n][1]
            seqs += sorted({e, (e + 1) & 0xFFFF, (e - 1) & 0xFFFF})
        for s in seqs:
            for allow in (True, False):
                ctx.op()
                try:
                    r = describe(parser.get_file_record_by_number(n, s, allow))
                except MFT.MasterFileTableException:
                    r = None
                if n not in recs or (s is not None and s != recs[n][1]):
                    w = None
                elif recs[n][2]:
                    w = expected(n)
                elif not allow:
                    w = None
                else:
                    bn, bs = recs[n][3]
                    w = expected(bn) if bn in recs and recs[bn][2] and recs[bn][1] == bs else None
                equal(r, w, 'lookup of record {} with sequence number {} (extension allowed: {})'.format(n, s, allow))
                outcomes.append(w)
        ctx.op()
        try:
            seg = parser.get_file_record_segment_by_number(n)
            r = seg.get_master_file_table_number()
        except MFT.MasterFileTableException:
            r = None
        if n in recs and n >= BASE and slots[n - BASE][0] == 'moved' and not short:
            check(r == BASE, 'segment {} states the number {}', n, r)
            continue
        equal(r, n if n in recs else None, 'segment {}'.format(n))
    equal(img.writes, [], 'writes to the input')
    return repr(outcomes)


def gen_trunc():
    slots = (('base', 1, 1), ('child', 1, 1, 6, 1), ('base', 0, 2), ('child', 1, 2, 6, 1))
    for size in (1024, 4096):
        full = (BASE + len(slots)) * size
        for cut in sorted(set([k * size + d for k in range(BASE, BASE + len(slots) + 1) for d in (-512, -1, 0, 1, 512)])):
            if 0 < cut <= full + 512:
                yield (size, slots, cut)


def run_trunc(case, ctx):
    size, slots, cut = case
    data = table(slots, size, False, 512)[:cut]
    nrec = cut // size
    keep = max(0, nrec - BASE)
    if nrec < BASE:
        keep_sys = nrec
    else:
        keep_sys = BASE
    ctx.op()
    parser = MFT.MasterFileTableParser(ntfs.Image(data))
    recs = model(slots[:keep])
    want = []
    for n in sorted(recs):
        if n < keep_sys or n >= BASE:
            if recs[n][2]:
                want.append((n, recs[n][0], ([n] if n >= BASE else []) + list(recs[n][3])))
    equal([describe(fr) for fr in parser.file_records()], want, 'records of a truncated table')
    return len(want)


def gen_seq():
    for in_use in (0, 1):
        for seq in list(range(0, 8)) + [0x7FFF, 0x8000, 0xFFFE, 0xFFFF]:
            for expected in list(range(0, 9)) + [0x7FFE, 0x7FFF, 0x8000, 0xFFFD, 0xFFFE, 0xFFFF]:
                for child in (0, 1):
                    yield (in_use, seq, expected, child)


def run_seq(case, ctx):
    """An extension record is found through the sequence number its base had when it was in use."""
    in_use, seq, expected, child = case
    slots = [('base', in_use, seq), ('child', 1, 9, 6, expected)]
    if child:
        slots = [('base', 1, 1), ('child', in_use, seq, 6, 1)]
    parser = MFT.MasterFileTableParser(ntfs.Image(table(slots, 1024)))
    ctx.op(2)
    eff = effective(seq, bool(in_use))
    n = 7 if child else 6
    try:
        r = describe(parser.get_file_record_by_number(n, expected))
    except MFT.MasterFileTableException:
        r = None
    if eff != expected:
        w = None
    elif child:
        w = (6, True, [6, 7])
    else:
        w = (6, bool(in_use), [6, 7])
    equal(r, w, 'lookup')
    return w


def gen_refs():
    nums = [0, 1, 0xFFFFFFFF, 0x100000000, 0xFFFFFFFFFFFF]
    for n in nums:
        for s in (0, 1, 0x7FFF, 0x8000, 0xFFFF):
            yield (n, s)


def run_refs(case, ctx):
    n, s = case
    ctx.op(2)
    r = MFT.EncodeFileRecordSegmentReference(n, s)
    equal(r, n + s * 2 ** 48, 'reference')
    equal(tuple(MFT.DecodeFileRecordSegmentReference(r)), (n, s), 'decoded reference')
    # The record number is 48 bits wide, with the high half stored first.
    rec = MFT.FileRecordSegment(ntfs.frs([], number = n, seq = s, base = r))
    equal(rec.get_master_file_table_number(), n, 'record number')
    equal(rec.get_base_file_record_segment(), r, 'base reference')
    equal(rec.is_base_file_record_segment(), r == 0, 'base flag')
    equal(rec.get_sequence_number(), s, 'sequence number')
    return r


def gen_version():
    for major in (0, 1, 2, 3, 4, 255):
        for minor in (0, 1, 2, 255):
            for form in ('ok', 'none', 'torn'):
                yield (major, minor, form)
    for sig in (b'FILE', b'BAAD', b'INDX', b'\x00\x00\x00\x00'):
        for declared in (0, 512, 1024, 2048, 4096):
            yield (sig, declared, 'first')


def run_version(case, ctx):
    a, b, form = case
    ctx.op()
    size = 1024
    recs = [bytearray(ntfs.system_frs(i, size)) for i in range(BASE)]
    if form == 'first':
        raw = ntfs.frs_raw([], size = size)
        raw[0:4] = a
        struct.pack_into('<L', raw, 28, b)
        recs[0] = ntfs.protect(raw)
        want = a == b'FILE' and b == 1024
    else:
        attr = ntfs.attr_resident(0x70, ntfs.v_volume_information(a, b)) if form != 'none' else ntfs.attr_resident(0x60, b'V\x00')
        recs[3] = bytearray(ntfs.frs([attr], size = size, number = 3))
        if form == 'torn':
            recs[3][1022] ^= 1
            recs[3][510] ^= 1
        want = form == 'ok' and a == 3 and b >= 1
    try:
        MFT.MasterFileTableParser(ntfs.Image(b''.join(bytes(r) for r in recs)))
        got = True
    except MFT.MasterFileTableException:
        got = False
    equal(got, want, 'acceptance of a file table')
    return got


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('references', gen_refs, run_refs, '25 references at the width boundaries'),
        Group('version', gen_version, run_version, 'volume versions, absent or torn volume record, first-record signatures and sizes'),
        Group('sequence', gen_seq, run_seq, 'sequence numbers at the wrap boundaries x expected ones x in use or not x base or extension'),
        Group('truncated', gen_trunc, run_trunc, 'tables cut around every record boundary'),
        Group('tables', gen_tables(4 if th else 3, (1024,) if th else (1024, 4096)), run_tables, 'all tables of <={} slots over 16 record states; every lookup'.format(4 if th else 3)),
    ]
