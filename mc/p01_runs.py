"""P01: cluster run lists are decoded exactly, or rejected."""

import itertools

from dfir_ntfs import MFT

from . import ntfs
from .core import Group, Violation, equal, check

ID = 'P01'
ASSUMPTIONS = ['byte strings over an 13-symbol alphabet (run headers, field bytes at sign and carry boundaries); runs with values at every width boundary']


def ref_decode(b):
    """The documented rule: (list, None) or (None, reason)."""
    runs = []
    lcn = 0
    rest = list(b)
    while True:
        if not rest:
            return None
        head = rest.pop(0)
        if head == 0:
            return runs
        nl, no = head % 16, head // 16
        if nl == 0 or nl > 8 or no > 8:
            return None
        if len(rest) < nl:
            return None
        length = from_signed(rest[:nl])
        rest = rest[nl:]
        if length <= 0:
            return None
        if no == 0:
            runs.append((None, length))
            continue
        if len(rest) < no:
            return None
        lcn += from_signed(rest[:no])
        rest = rest[no:]
        if lcn < 0 or (lcn == 0 and runs):
            return None
        runs.append((lcn, length))


def from_signed(bs):
    v = 0
    for i, x in enumerate(bs):
        v += x * 256 ** i
    if bs[-1] >= 128:
        v -= 256 ** len(bs)
    return v


def decode(buf):
    try:
        return list(MFT.DecodeMappingPairs(buf))
    except MFT.MappingPairsException:
        return None


ALPHABET = [0x00, 0x01, 0x11, 0x21, 0x12, 0x31, 0x02, 0x7F, 0x80, 0xFF, 0x10, 0x91, 0x19]


def gen_bytes(depth):
    def g():
        for n in range(depth + 1):
            for b in itertools.product(ALPHABET, repeat = n):
                yield bytes(b)
    return g


def run_bytes(case, ctx):
    ctx.op()
    want = ref_decode(case)
    got = decode(case)
    equal(got, want, 'run list {}'.format(case.hex()))
    return want


def gen_headers():
    """Every header byte, with every sign of both fields, complete and cut at every byte."""
    for head in range(1, 256):
        nl, no = head & 15, head >> 4
        for lastc in (0x00, 0x01, 0x7F, 0x80, 0xFF):
            for lasto in (0x00, 0x01, 0x7F, 0x80, 0xFF):
                for fill in (0x00, 0x5A, 0xFF):
                    c = bytes([fill] * (nl - 1) + [lastc]) if nl else b''
                    o = bytes([fill] * (no - 1) + [lasto]) if no else b''
                    full = bytes([head]) + c + o + b'\x00'
                    for tail in (b'', b'\x11\x03\x02\x00'):
                        yield full[:-1] + (tail or b'\x00')
                if not no:
                    break
    for head in (0x11, 0x21, 0x32, 0x48, 0x88, 0x18, 0x81, 0x01, 0x08):
        nl, no = head & 15, head >> 4
        full = bytes([head]) + b'\x01' * nl + b'\x02' * no + b'\x00'
        for cut in range(len(full)):
            yield full[:cut]


VALUES = [1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 23) - 1, 1 << 23, (1 << 31) - 1, 1 << 31, (1 << 47) - 1, 1 << 47, (1 << 55), (1 << 62)]


def gen_values(depth):
    lcns = [None, 0, 1, 5, 127, 128, 129, 255, 256, 32767, 32768, 40000, (1 << 23), (1 << 31), (1 << 40) + 3]
    def g():
        for pad in (0, 1, 3, 7):
            for v in VALUES:
                for l in lcns:
                    yield (pad, [(l, v)])
            for n in range(2, depth + 1):
                for runs in itertools.product([(l, c) for l in lcns for c in ((1,) if n > 2 else (1, 200))], repeat = n):
                    yield (pad, list(runs))
    return g


def gen_counts():
    """Counts and distances of every width in runs around each other."""
    for a in VALUES:
        for kind in (None, 70):
            for b in (None, 5, 70, 1 << 20, 1 << 33, (1 << 48) - 1):
                for c in (1, 300, 1 << 40):
                    for d in (None, 3, 1 << 21):
                        yield (0, [(90, 2), (kind, a), (b, c), (d, 1)])


def run_values(case, ctx):
    pad, runs = case
    ctx.op()
    buf = ntfs.mp_encode(runs, pad)
    want = ref_decode(buf)
    if not any(i > 0 and r[0] == 0 for i, r in enumerate(runs)):
        equal(want, [tuple(r) for r in runs], 'self check of the encoder')
    equal(decode(bytearray(buf)), want, 'runs {} encoded as {}'.format(runs, buf.hex()))
    return want


def gen_long():
    for n in range(1, 260):
        yield (0, [(None if i % 7 == 3 else 1000 + ((i * 37) % 211) * (1 if i % 2 else 300), 1 + i % 130) for i in range(n)])


# A stream's run list split over several attribute records, spread over a base record and extension records.

RUNSETS = [
    [(10, 3)],
    [(10, 2), (None, 4), (30, 1)],
    [(10, 1), (9, 2), (100, 3), (50, 1)],
    [(None, 2), (7, 2), (None, 1), (300, 2)],
    [(40, 2), (None, 3), (40, 2), (None, 3)],
]


def gen_split():
    for ri, runs in enumerate(RUNSETS):
        n = len(runs)
        for k in range(1, min(3, n) + 1):
            for cuts in itertools.combinations(range(1, n), k - 1):
                for perm in itertools.permutations(range(k)):
                    for place in itertools.product(range(3), repeat = k):
                        for fault in ('none', 'gap', 'overlap', 'missing_first', 'missing_middle'):
                            if fault in ('gap', 'overlap', 'missing_middle') and k < 2:
                                continue
                            if fault == 'overlap' and sum(c for _, c in runs[:cuts[0]]) < 2:
                                continue
                            if fault == 'missing_middle' and k < 3:
                                continue
                            for name in (None, 'ads'):
                                for index in (False, True):
                                    yield (ri, cuts, perm, place, fault, name, index)


def run_split(case, ctx):
    ri, cuts, perm, place, fault, name, index = case
    runs = RUNSETS[ri]
    bounds = [0] + list(cuts) + [len(runs)]
    pieces = [runs[a:b] for a, b in zip(bounds, bounds[1:])]
    type_code = ntfs.IALLOC if index else ntfs.DATA
    total = sum(c for _, c in runs)
    size = total * 4096 - 5
    extents = []
    vcn = 0
    for i, p in enumerate(pieces):
        ln = sum(c for _, c in p)
        low = vcn
        if i == 1 and fault == 'gap':
            low += 1
        if i == 1 and fault == 'overlap':
            low -= 1
        extents.append((low, vcn + ln - 1 if vcn + ln - 1 >= low else low, p, i))
        vcn += ln
    if fault == 'missing_first':
        extents = [e for e in extents if e[3] != 0]
    if fault == 'missing_middle':
        extents = [e for e in extents if e[3] != 1]
    # Decoys: other streams (also split ones) and other types must not be mixed in.
    decoy = [
        ntfs.attr_nonresident(type_code, ntfs.mp_encode([(999, 2)]), 0, 1, 8192, name = 'decoy'),
        ntfs.attr_nonresident(ntfs.BITMAP, ntfs.mp_encode([(888, 2)]), 0, 1, 8192, name = name),
        ntfs.attr_nonresident(ntfs.BITMAP, ntfs.mp_encode([(777, 2)]), 2, 3, 0, name = name),
        ntfs.attr_nonresident(type_code, ntfs.mp_encode([(666, 2)]), 2, 3, 0, name = 'decoy'),
        ntfs.attr_nonresident(type_code, ntfs.mp_encode([(555, 1)]), 0, 0, 4096, name = 'ADS'),
        ntfs.attr_nonresident(type_code, ntfs.mp_encode([(444, 1)]), 1, 1, 0, name = 'ADS'),
    ]
    slots = [[], [], []]
    slots[0] += [decoy[1], decoy[5]]
    slots[1] += [decoy[2], decoy[3]]
    by_index = {e[3]: e for e in extents}
    for pos in perm:
        if pos in by_index:
            low, high, p, i = by_index[pos]
            slots[place[pos]].append(ntfs.attr_nonresident(type_code, ntfs.mp_encode(p), low, high, size if i == 0 else 0, name = name))
    slots[2] += [decoy[0], decoy[4]]
    base = MFT.FileRecordSegment(ntfs.frs(slots[0], number = 20))
    kids = [MFT.FileRecordSegment(ntfs.frs(s, number = 21 + i, base = ntfs.ref(20, 1))) for i, s in enumerate(slots[1:])]
    fr = MFT.FileRecord(base, kids)
    ctx.op(3)

    try:
        got = fr.get_data_runs(name, index)
    except MFT.MasterFileTableException:
        got = 'rejected'
    if not extents:
        want = None
    elif fault == 'none':
        want = [tuple(r) for r in runs]
    else:
        want = 'rejected'
    equal(got, want, 'data runs')
    if extents and by_index.get(0) is not None:
        equal(fr.get_data_size(name, index), size, 'data size')
    else:
        equal(fr.get_data_size(name, index), None, 'data size')
    if name is None and not index:
        try:
            got2 = fr.get_data_runs('', index)
        except MFT.MasterFileTableException:
            got2 = 'rejected'
        equal(got2, want, 'an empty stream name means the unnamed stream')
    equal(fr.get_data_runs('absent', index), None, 'absent stream')
    equal(fr.get_data_runs('decoy', index), [(999, 2), (666, 2)], 'another stream')
    equal(fr.get_data_runs('ADS', index), [(555, 1), (444, 1)], 'a stream with a similar name')

    if fault == 'none':
        merged = {}
        for a in fr.attributes(True):
            key = (a.type_code, a.name)
            check(key not in merged, 'a merged attribute is yielded twice: {}', key)
            merged[key] = a
        want_keys = {(type_code, name), (type_code, 'decoy'), (ntfs.BITMAP, name), (type_code, 'ADS')}
        equal(set(merged), want_keys, 'merged attributes')
        for key, w in (((type_code, 'decoy'), [(999, 2), (666, 2)]), ((ntfs.BITMAP, name), [(888, 2), (777, 2)]), ((type_code, 'ADS'), [(555, 1), (444, 1)])):
            equal([tuple(r) for r in merged[key].data_runs], w, 'merged data runs of {}'.format(key))
        m = merged[(type_code, name)]
        equal([tuple(r) for r in m.data_runs], [tuple(r) for r in runs], 'merged data runs')
        equal((m.lowest_vcn, m.highest_vcn, m.file_size), (0, total - 1, size), 'merged extent')
        plain = sorted((a.type_code, str(a.name), a.lowest_vcn) for a in fr.attributes())
        equal(len(plain), len(extents) + 6, 'attribute count without merging')
    return want


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('split', gen_split, run_split, 'all splits of 5 run lists into <=3 extents, all orders, all placements over 3 records, 4 fault kinds, named/unnamed, data/index'),
        Group('headers', gen_headers, run_bytes, 'all 255 header bytes x sign patterns, and every truncation'),
        Group('values', gen_values(3), run_values, 'run lists of <=3 runs over 15 LCNs (incl. sparse) x boundary counts x 4 field paddings'),
        Group('counts', gen_counts, run_values, 'lists of four runs, counts of every width in sparse and other runs in front of near and far ones'),
        Group('long', gen_long, run_values, 'run lists of every length from 1 to 259'),
        Group('bytes', gen_bytes(6 if th else 5), run_bytes, 'all byte strings of length <={} over a 13-symbol alphabet'.format(6 if th else 5)),
    ]
