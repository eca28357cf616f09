"""P03: the attributes of a file record are enumerated completely, in order, and never from bytes outside of it."""

import itertools
import struct

from dfir_ntfs import MFT

from . import ntfs
from .p01_runs import ref_decode
from .core import Group, Violation, equal, check

ID = 'P03'
ASSUMPTIONS = ['records of 1024 and 4096 bytes with 0..4 attributes from an alphabet of 10 shapes; malformed headers differ from a valid one in at most two fields (three in the thorough tier for a single attribute)']


def ref_attributes(data):
    """Reference enumeration over an unprotected record: (list of attributes, ended well?, end position or None)."""
    out = []
    pos, = struct.unpack_from('<H', data, 20)
    used, = struct.unpack_from('<L', data, 24)
    size = len(data)
    while pos < used:
        left = size - pos
        if left < 4:
            return out, False, None
        if struct.unpack_from('<L', data, pos)[0] == 0xFFFFFFFF:
            return out, True, pos + 4
        if left < 16:
            return out, False, None
        t, ln, form, nlen, noff, flags, inst = struct.unpack_from('<LLBBHHH', data, pos)
        if ln < 8 or ln % 8 or pos + ln > used:
            return out, False, None
        name = None
        nend = 0
        if nlen:
            low = {0: 24, 1: 64}.get(form, 0)
            if noff % 2 or noff < low or pos + noff + 2 * nlen > used:
                return out, False, None
            nend = noff + 2 * nlen
            name = bytes(data[pos + noff:pos + nend]).decode('utf-16le', 'replace')
        if form == 0:
            if left < 24:
                return out, False, None
            vlen, voff = struct.unpack_from('<LH', data, pos + 16)
            if voff % 8 or voff < 24 and not nlen or voff < 8 or voff < nend or voff + vlen > ln:
                return out, False, None
            out.append((t, name, 'resident', bytes(data[pos + voff:pos + voff + vlen])))
        elif form == 1:
            if left < 64:
                return out, False, None
            low, high, mpo = struct.unpack_from('<QQH', data, pos + 16)
            alloc, fsize, valid = struct.unpack_from('<qqq', data, pos + 40)
            if low > high or mpo >= ln or mpo < (nend or 64) or valid < 0 or valid > fsize or alloc < fsize:
                return out, False, None
            runs = ref_decode(bytes(data[pos + mpo:pos + ln]))
            if runs is None:
                return out, False, None
            out.append((t, name, 'nonresident', (runs, low, high, fsize)))
        else:
            return out, False, None
        pos += ln
    return out, True, None


def observe(rec):
    out = []
    try:
        for a in rec.attributes():
            if type(a) is MFT.AttributeRecordResident:
                out.append((a.type_code, a.name, 'resident', bytes(a.value)))
            else:
                out.append((a.type_code, a.name, 'nonresident', ([tuple(r) for r in a.data_runs], a.lowest_vcn, a.highest_vcn, a.file_size)))
            if len(out) > 2000:
                raise Violation('the enumeration does not end')
    except MFT.AttributeException:
        return out, False
    return out, True


SHAPES = [
    ntfs.attr_resident(0x10, b'S' * 72),
    ntfs.attr_resident(0x80, b''),
    ntfs.attr_resident(0x80, b'abcde', name = 'ads'),
    ntfs.attr_resident(0x1000, b'custom!!', name = 'N'),
    ntfs.attr_nonresident(0x80, ntfs.mp_encode([(100, 4)]), 0, 3, 16384),
    ntfs.attr_nonresident(0x80, ntfs.mp_encode([(None, 4), (9, 300)]), 0, 303, 16000, name = 'x', allocated = 1 << 21, valid = 7),
    ntfs.attr_nonresident(0xA0, ntfs.mp_encode([(100, 4), (50, 2)], 3), 7, 12, 0, name = '$I30'),
    ntfs.attr_resident(0x30, ntfs.v_file_name(5, 'name.txt')),
    ntfs.attr_resident(0xE0, b'\x00' * 200),
    ntfs.attr_nonresident(0x80, b'\x00', 0, 0, 0),
]


def gen_lists(depth):
    def g():
        for size in (1024, 4096):
            for n in range(depth + 1):
                for combo in itertools.product(range(len(SHAPES)), repeat = n):
                    if sum(len(SHAPES[i]) for i in combo) > size - 100:
                        continue
                    for end in (0, 1):
                        yield (size, combo, end)
    return g


def run_lists(case, ctx):
    size, combo, end = case
    raw = ntfs.frs_raw([SHAPES[i] for i in combo], size = size, number = 0x123456789ABC, seq = 0xFFFE, end = bool(end), flags = 3, lsn = 1 << 63, base = 0, refcount = 513, next_instance = 0x4321)
    rec = MFT.FileRecordSegment(ntfs.protect(raw))
    ctx.op(2)
    want, ok, endpos = ref_attributes(raw)
    equal(ok, True, 'self check')
    equal(len(want), len(combo), 'self check')
    got, gok = observe(rec)
    equal(gok, True, 'a well-formed record')
    equal(got, want, 'attributes')
    equal((rec.get_master_file_table_number(), rec.get_sequence_number(), rec.get_flags(), rec.is_in_use(), rec.get_logfile_sequence_number(), rec.get_reference_count(), rec.get_next_attribute_instance(), rec.get_base_file_record_segment(), rec.is_base_file_record_segment(), rec.get_file_record_segment_size(), rec.is_bad()),
          (0x123456789ABC, 0xFFFE, 3, True, 1 << 63, 513, 0x4321, 0, True, size, False), 'header fields')
    slack = rec.get_slack()
    if end:
        equal(bytes(slack.value), bytes(raw[endpos:]), 'slack')
    else:
        equal(slack, None, 'slack of a record without an end marker')
    if size == 4096:
        # A small record in a larger buffer: what follows belongs to the slack.
        struct.pack_into('<L', raw, 28, 1024)
        if struct.unpack_from('<L', raw, 24)[0] <= 1024:
            raw[1024:1030] = b'behind'
            rec2 = MFT.FileRecordSegment(ntfs.protect(raw))
            ctx.op()
            slack = rec2.get_slack()
            equal(None if slack is None else bytes(slack.value), bytes(raw[endpos:]) if end else None, 'slack of a record in a larger buffer')
            equal(observe(rec2), (got, True), 'attributes of a record in a larger buffer')
    # A second enumeration gives the same answer.
    equal(observe(rec), (got, True), 'second enumeration')
    return len(got)


SEG = [(), (1,), (2,), (4,), (5,), (6,), (9,), (0, 5), (5, 2), (4, 6)]


def gen_segments(rich):
    """A base record and up to two extension records, each with some attributes, with or without an end marker."""
    def g():
        for n in (0, 1, 2):
            opts = range(len(SEG)) if n < 2 or rich else (0, 2, 4, 5, 8)
            for combo in itertools.product(opts, repeat = n + 1):
                for ends in itertools.product((1, 0), repeat = n + 1):
                    yield (combo, ends)
    return g


def run_segments(case, ctx):
    combo, ends = case
    segs = []
    want = []
    slacks = []
    for k, (c, end) in enumerate(zip(combo, ends)):
        raw = ntfs.frs_raw([SHAPES[i] for i in SEG[c]], number = 40 + k, end = bool(end), base = 0 if k == 0 else ntfs.ref(40, 1), slack = bytes([0x61 + k]) * 8)
        a, ok, endpos = ref_attributes(raw)
        equal(ok, True, 'self check')
        want += a
        if end:
            slacks.append(bytes(raw[endpos:]))
        segs.append(MFT.FileRecordSegment(ntfs.protect(raw)))
    fr = MFT.FileRecord(segs[0], segs[1:])
    ctx.op(3)
    equal([bytes(s.value) for s in fr.slack()], slacks, 'slack of the segments')
    got, ok = observe(fr)
    equal(ok, True, 'well-formed segments')
    equal(got, want, 'attributes of the segments')
    merged = [(a.type_code, a.name, bytes(a.value)) for a in fr.attributes(True) if type(a) is MFT.AttributeRecordResident]
    equal(merged, [(t, n, v) for t, n, f, v in want if f == 'resident'], 'resident attributes with split ones merged')
    equal([bytes(s.value) for s in fr.slack()], slacks, 'slack of the segments, after the attributes')
    return (len(want), len(slacks))


FIELDS = {
    # name: (offset, format, values)
    'type': (0, '<L', [0x10, 0x80, 0xFFFFFFFF, 0]),
    'length': (4, '<L', None),
    'form': (8, 'B', [0, 1, 2, 255]),
    'name_length': (9, 'B', [0, 1, 2, 3, 8, 120, 255]),
    'name_offset': (10, '<H', [0, 8, 16, 22, 23, 24, 25, 26, 62, 63, 64, 65, 66, 72, 96, 500, 65534]),
}
RES = {
    'value_length': (16, '<L', [0, 1, 4, 5, 6, 8, 9, 40, 47, 48, 49, 72, 73, 200, 1000, 0x7FFFFFFF, 0xFFFFFFFF]),
    'value_offset': (20, '<H', [0, 4, 8, 16, 20, 23, 24, 25, 32, 40, 48, 96, 104, 1000, 65528]),
}
NONRES = {
    'lowest': (16, '<Q', [0, 1, 3, 4, 1 << 63]),
    'highest': (24, '<Q', [0, 2, 3, 1 << 63, (1 << 64) - 1]),
    'mp_offset': (32, '<H', [0, 8, 56, 63, 64, 65, 66, 70, 71, 72, 73, 80, 65535]),
    'allocated': (40, '<q', [-1, 0, 16383, 16384, 1 << 62]),
    'size': (48, '<q', [-1, 0, 15999, 16000, 16384, 16385, 1 << 62]),
    'valid': (56, '<q', [-1, 0, 7, 16000, 16384, 16385]),
}
HDR = {
    'first_free': (24, '<L', None),
    'first_attr': (20, '<H', None),
}


def gen_mutations(depth):
    victims = [2, 0, 5, 4, 6]
    def g():
        for v in victims:
            shape = SHAPES[v]
            nonres = shape[8] == 1
            fields = dict(FIELDS)
            fields.update(NONRES if nonres else RES)
            ln = len(shape)
            names = sorted(fields) + ['first_free', 'first_attr']
            for after in (None, 1, 4):
                for d in range(1, depth + 1):
                    if d == 3 and after is not None:
                        continue
                    for combo in itertools.combinations(names, d):
                        doms = []
                        for f in combo:
                            if f == 'length':
                                dom = sorted(set([0, 4, 7, 8, 16, 24, 64, ln - 8, ln - 4, ln + 4, ln + 8, ln + 16, ln + 24, 600, 1024, 0xFFFFFFF8]))
                            elif f == 'first_free':
                                base = 56 + ln
                                dom = [56, 57, 60, 64, 72, base - 8, base - 4, base, base + 4, base + 8, 1000, 1024]
                            elif f == 'first_attr':
                                dom = [56, 64, 72, 80, 1000]
                            else:
                                dom = fields[f][2]
                            doms.append(dom if d < 3 else dom[::2])
                        for vals in itertools.product(*doms):
                            yield (v, after, combo, vals)
    return g


def run_mutations(case, ctx):
    v, after, names, vals = case
    attrs = [SHAPES[v]] + ([SHAPES[after]] if after is not None else [])
    raw = ntfs.frs_raw(attrs, number = 9)
    for f, x in zip(names, vals):
        if f in HDR:
            off, fmt, _ = HDR[f]
            struct.pack_into(fmt, raw, off, x)
        else:
            off, fmt, _ = FIELDS.get(f) or RES.get(f) or NONRES.get(f)
            if SHAPES[v][8] == 1 and f in NONRES:
                off, fmt, _ = NONRES[f]
            struct.pack_into(fmt, raw, 56 + off, x)
    rec = MFT.FileRecordSegment(ntfs.protect(raw))
    ctx.op()
    want, ok, endpos = ref_attributes(raw)
    got, gok = observe(rec)
    equal(got, want, 'attributes before any malformed one')
    equal(gok, ok, 'acceptance of the attribute list')
    return (len(want), ok)


def gen_tail():
    """The used area ends at every possible distance from the end of the record."""
    for size in (1024, 4096):
        for k in range(0, 33):
            for marker in ('end', 'zero', 'attr'):
                for free in (0, 4, 8, 12, 16, 24):
                    yield (size, k, marker, free)


def run_tail(case, ctx):
    size, k, marker, free = case
    first = 56 if size == 1024 else 72
    # A filler attribute pushes the position to size - 8 * k.
    target = size - 8 * k
    fill_len = target - first
    if fill_len < 24:
        return 'n/a'
    raw = ntfs.frs_raw([], size = size)
    filler = struct.pack('<LLBBHHH', 0x80, fill_len, 0, 0, 24, 0, 0) + struct.pack('<LHBB', fill_len - 24, 24, 0, 0)
    raw[first:first + 24] = filler
    raw[first + 24:target] = b'\x31' * (fill_len - 24)
    body = {'end': b'\xff\xff\xff\xff', 'zero': b'\x00' * 16, 'attr': SHAPES[1]}[marker]
    raw[target:] = body[:size - target].ljust(size - target, b'\x00')
    struct.pack_into('<L', raw, 24, min(size, target + free))
    rec = MFT.FileRecordSegment(ntfs.protect(raw))
    ctx.op()
    want, ok, endpos = ref_attributes(raw)
    got, gok = observe(rec)
    equal(got, want, 'attributes')
    equal(gok, ok, 'acceptance')
    return (len(want), ok)


NAMES = [0x41, 0xD83D, 0xDE00, 0x0000, 0xFFFF, 0x2F]


def gen_names():
    for n in range(1, 4):
        for u in itertools.product(NAMES, repeat = n):
            yield u
    for n in (1, 2, 100, 127, 128, 200, 255):
        yield (0x61,) * n


def run_names(case, ctx):
    raw_name = b''.join(struct.pack('<H', u) for u in case)
    off = (24 + len(raw_name) + 7) // 8 * 8
    ln = off + 8
    a = struct.pack('<LLBBHHH', 0x80, ln, 0, len(case), 24, 0, 0) + struct.pack('<LHBB', 3, off, 0, 0) + raw_name
    a = a.ljust(off, b'\x00') + b'xyz'.ljust(8, b'\x00')
    rec = MFT.FileRecordSegment(ntfs.frs([a]))
    ctx.op()
    got, ok = observe(rec)
    equal(ok, True, 'acceptance')
    equal(got, [(0x80, raw_name.decode('utf-16le', 'replace'), 'resident', b'xyz')], 'a named attribute')
    return got[0][1]


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('lists', gen_lists(4 if th else 3), run_lists, 'all lists of <={} attributes over 10 shapes, 2 record sizes, with and without an end marker'.format(4 if th else 3)),
        Group('segments', gen_segments(th), run_segments, 'base records with 0..2 extension records over 10 attribute lists, with and without an end marker in each'),
        Group('names', gen_names, run_names, 'all names of <=3 code units over 6 units, and every listed length'),
        Group('tail', gen_tail, run_tail, 'attribute list ending within 256 bytes of the record end, all remainders'),
        Group('mutations', gen_mutations(3 if th else 2), run_mutations, '5 victim attributes x all combinations of <={} header fields set to boundary values x following attribute'.format(3 if th else 2)),
    ]
