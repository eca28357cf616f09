"""P07: the file table is found and read through the boot sector, wherever its pieces lie."""

import itertools
import struct

from dfir_ntfs import MFT, BootSector

from . import ntfs
from .core import Group, Violation, equal, check

ID = 'P07'
ASSUMPTIONS = ['tables of up to 14 records; up to 4 extents; extension records of the table lie in a part of the table described before (as NTFS guarantees)']


class Sparse(object):
    """A read-only sparse volume: {offset: bytes}, zeros elsewhere."""

    def __init__(self, size):
        self.size = size
        self.parts = []
        self.pos = 0
        self.writes = 0

    def put(self, off, data):
        self.parts.append((off, bytes(data)))

    def seek(self, off, whence = 0):
        p = {0: 0, 1: self.pos, 2: self.size}[whence] + off
        if p < 0:
            raise ValueError('negative seek')
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def read(self, n = -1):
        if n is None or n < 0:
            n = max(0, self.size - self.pos)
        n = max(0, min(n, self.size - self.pos))
        buf = bytearray(n)
        a, b = self.pos, self.pos + n
        for off, data in self.parts:
            lo, hi = max(a, off), min(b, off + len(data))
            if lo < hi:
                buf[lo - a:hi - a] = data[lo - off:hi - off]
        self.pos += n
        return bytes(buf)

    def write(self, data):
        self.writes += 1
        raise OSError('read-only')


def record(number, size, seq = None, base = 0, attrs = None):
    if number in (3, 5):
        return ntfs.system_frs(number, size)
    tag = ntfs.attr_resident(0x80, struct.pack('<LL', number, 0xFACE), name = 'tag') if attrs is None else None
    body = attrs if attrs is not None else [tag]
    return ntfs.frs(body, size = size, number = number, seq = seq or max(1, number), flags = 1, base = base)


def layout(nrec, frs, cs, file_clusters, extents, child_at, al_mode, extra, order, tweak = None):
    """Return (table bytes, attribute list clusters or None).

    file_clusters: LCN of every cluster of the table in order. extents: numbers of clusters per extent. child_at: record numbers of the extension records.
    """
    size = nrec * frs
    starts = [sum(extents[:i]) for i in range(len(extents))]
    pieces = []
    for st, n in zip(starts, extents):
        runs = []
        for lcn in file_clusters[st:st + n]:
            if runs and runs[-1][0] + runs[-1][1] == lcn:
                runs[-1][1] += 1
            else:
                runs.append([lcn, 1])
        pieces.append((st, st + n - 1, [tuple(r) for r in runs]))

    def dattr(i):
        lo, hi, runs = pieces[i]
        return ntfs.attr_nonresident(0x80, ntfs.mp_encode(runs), lo, hi, size if i == 0 else 0, allocated = len(file_clusters) * cs if i == 0 else 0, instance = 1)

    base_attrs = [ntfs.attr_resident(0x10, ntfs.v_standard_information())]
    al = None
    if len(extents) > 1 or al_mode != 'none':
        entries = [(0x10, None, 0, ntfs.ref(0, 1), 0)]
        ents = [(0x80, None, pieces[0][0], ntfs.ref(0, 1), 1)] + [(0x80, None, pieces[i + 1][0], ntfs.ref(c, c), 1) for i, c in enumerate(child_at)]
        if tweak == 'no_data':
            ents = []
        if tweak == 'first_foreign':
            ents[0] = (0x80, None, 0, ntfs.ref(7, 7), 1)
        if tweak == 'wrong_order':
            pass
        entries += [ents[i] for i in order] if ents and order is not None else ents
        if extra:
            entries.insert(1, (0x80, 'named', 0, ntfs.ref(9, 9), 3))
            entries.append((0xB0, None, 0, ntfs.ref(0, 1), 4))
        al = ntfs.v_attr_list(entries)
        if al_mode == 'resident':
            base_attrs.append(ntfs.attr_resident(0x20, al))
        else:
            ncl = (len(al) + cs - 1) // cs
            al_lcns = [al_mode[1] + 2 * k for k in range(ncl)]
            base_attrs.append(ntfs.attr_nonresident(0x20, ntfs.mp_encode([(l, 1) for l in al_lcns]), 0, ncl - 1, len(al), allocated = ncl * cs))
    if tweak == 'resident_data':
        base_attrs.append(ntfs.attr_resident(0x80, b'1234'))
    elif tweak != 'missing_data':
        base_attrs.append(dattr(0))
    if extra:
        base_attrs.append(ntfs.attr_nonresident(0x80, ntfs.mp_encode([(1, 1)]), 0, 0, 10, name = 'zz'))
    recs = [record(0, frs, 1, attrs = base_attrs)]
    for n in range(1, nrec):
        if n in child_at:
            i = child_at.index(n) + 1
            r = record(n, frs, base = ntfs.ref(0, 1), attrs = [dattr(i)])
            if tweak == ('torn', i):
                r = bytearray(r)
                r[511] ^= 0x55
                r = bytes(r)
            if tweak == ('nodata', i):
                r = record(n, frs, base = ntfs.ref(0, 1), attrs = [ntfs.attr_resident(0x10, ntfs.v_standard_information())])
            recs.append(r)
        else:
            recs.append(record(n, frs))
    return b''.join(recs), al


def make_volume(bps, spc, frs, voff, mft_lcn_clusters, table, al, al_lcns, boot = None, cut = None):
    cs = bps * spc
    total = (max(mft_lcn_clusters + list(al_lcns) + [4]) + 3) * cs
    vol = Sparse(voff + total if cut is None else voff + cut)
    b = boot or ntfs.boot_sector(bps, spc, total // bps, mft_lcn_clusters[0], 2, frs_size = frs)
    vol.put(0, b'\xEE' * min(voff, 4096))
    vol.put(voff, b)
    for i, lcn in enumerate(mft_lcn_clusters):
        piece = table[i * cs:(i + 1) * cs]
        vol.put(voff + lcn * cs, piece)
        if len(piece) < cs:
            vol.put(voff + lcn * cs + len(piece), b'\x99' * min(cs - len(piece), 4096))
    if al is not None:
        for i, lcn in enumerate(al_lcns):
            piece = al[i * cs:(i + 1) * cs]
            # The rest of the last cluster holds entries of an older, longer list.
            stale = ntfs.v_attr_list([(0x80, None, 1 << 20, ntfs.ref(9, 9), 1), (0x80, None, 0, ntfs.ref(8, 8), 1)])
            vol.put(voff + lcn * cs, piece + stale[:max(0, cs - len(piece))])
    return vol


def verify(vol, voff, table, nrec, ctx, full = True):
    fs = MFT.FileSystemParser(vol, voff)
    ctx.op(3)
    equal(fs.tell(), 0, 'initial position')
    equal(fs.file_size, len(table), 'size of the table')
    got = fs.read()
    if got != table:
        k = next((i for i, (x, y) in enumerate(zip(got, table)) if x != y), min(len(got), len(table)))
        raise Violation('the table read from the volume differs at byte {} (sizes {} and {})'.format(k, len(got), len(table)))
    if full:
        fs.seek(0)
        mft = MFT.MasterFileTableParser(fs)
        for n in range(nrec):
            ctx.op()
            s = mft.get_file_record_segment_by_number(n)
            equal(s.get_master_file_table_number(), n, 'number of record {}'.format(n))
            for a in s.attributes():
                if a.name == 'tag':
                    equal(bytes(a.value), struct.pack('<LL', n, 0xFACE), 'tag of record {}'.format(n))
    check(not vol.writes, 'the volume was written to')


BPS = (512, 1024, 2048, 4096)


def gen_geometry():
    for bps in BPS:
        for spc_raw in (1, 2, 4, 8, 16, 64, 128, 0xFC, 0xF8, 0xF4):
            spc = spc_raw if spc_raw <= 128 else 1 << (256 - spc_raw)
            for frs in (1024, 4096):
                for voff in (0, 512, 63 * 512, 1048576 + 3):
                    yield (bps, spc_raw, spc, frs, voff)


def run_geometry(case, ctx):
    bps, spc_raw, spc, frs, voff = case
    cs = bps * spc
    nrec = 9
    ncl = (nrec * frs + cs - 1) // cs
    lcns = [6 + 2 * i for i in range(ncl)] if ncl <= 12 else [6 + i + (i // 9) for i in range(ncl)]
    table, al = layout(nrec, frs, cs, lcns, [ncl], [], 'none', False, None)
    total = (lcns[-1] + 3) * cs
    boot = ntfs.boot_sector(bps, spc, total // bps, lcns[0], 2, frs_size = frs, spc_raw = spc_raw)
    vol = make_volume(bps, spc, frs, voff, lcns, table, None, [], boot)
    verify(vol, voff, table, nrec, ctx)
    return (cs, ncl)


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for i in range(1, total - parts + 2):
        for rest in compositions(total - i, parts - 1):
            yield (i,) + rest


PLACEMENTS = [
    [10 + i for i in range(14)],                               # contiguous
    [40 - 2 * i for i in range(14)],                           # every cluster its own run, backwards
    [10 + i // 3 * 7 + i % 3 for i in range(14)],              # runs of three
]


def gen_extents(maxparts, placements):
    nrec = 12
    def g():
        for p in placements:
            for parts in range(1, maxparts + 1):
                for comp in compositions(nrec, parts):
                    # Extension records: any record from 6 covered by the previous extents.
                    doms = []
                    covered = 0
                    for i in range(1, parts):
                        covered += comp[i - 1]
                        doms.append([r for r in range(6, covered)])
                    for child in itertools.product(*doms):
                        if len(set(child)) != len(child):
                            continue
                        # Two extension records per case at the edges and otherwise the extremes only, to keep the product small.
                        if parts > 2 and any(c not in (d[0], d[-1]) for c, d in zip(child, doms)):
                            continue
                        for mode in ('resident', ('nr', 60)):
                            yield (p, comp, child, mode, 0, False)
                        if parts > 1:
                            for order in itertools.permutations(range(parts)):
                                yield (p, comp, child, 'resident', order, True)
    return g


def run_extents(case, ctx):
    p, comp, child, mode, order, extra = case
    frs = cs = 1024
    lcns = PLACEMENTS[p][:12]
    table, al = layout(12, frs, cs, lcns, list(comp), list(child), mode, extra, order or None)
    al_lcns = []
    if mode != 'resident':
        al_lcns = [mode[1] + 2 * k for k in range((len(al) + cs - 1) // cs)]
    vol = make_volume(512, 2, frs, 512, lcns, table, al if al_lcns else None, al_lcns)
    verify(vol, 512, table, 12, ctx, full = False)
    return comp


def gen_biglist():
    """A nonresident attribute list of several clusters."""
    for fill in range(0, 60, 3):
        for cs in (512, 1024):
            yield (fill, cs)


def run_biglist(case, ctx):
    fill, cs = case
    frs = 1024
    spr = frs // cs if cs < frs else 1
    ncl = 12 * frs // cs
    lcns = [100 + 3 * i for i in range(ncl)]
    comp = [8 * frs // cs, 2 * frs // cs, 2 * frs // cs]
    child = [6, 7]
    size = 12 * frs
    # Build by hand: the list has `fill` foreign entries between the $DATA ones.
    table, al = layout(12, frs, cs, lcns, comp, child, ('nr', 60), False, None)
    entries = [(0x10, None, 0, ntfs.ref(0, 1), 0), (0x80, None, 0, ntfs.ref(0, 1), 1)]
    entries += [(0x80, 's{}'.format(i), 0, ntfs.ref(9, 9), i) for i in range(fill)]
    entries += [(0x80, None, comp[0], ntfs.ref(6, 6), 1), (0x80, None, comp[0] + comp[1], ntfs.ref(7, 7), 1)]
    al = ntfs.v_attr_list(entries)
    nal = (len(al) + cs - 1) // cs
    al_lcns = [60 + 2 * k for k in range(nal)]
    base = [ntfs.attr_resident(0x10, ntfs.v_standard_information()),
            ntfs.attr_nonresident(0x20, ntfs.mp_encode([(l, 1) for l in al_lcns]), 0, nal - 1, len(al), allocated = nal * cs),
            ntfs.attr_nonresident(0x80, ntfs.mp_encode([(l, 1) for l in lcns[:comp[0]]]), 0, comp[0] - 1, size, allocated = size)]
    table = record(0, frs, 1, attrs = base) + table[frs:]
    vol = make_volume(512, cs // 512, frs, 0, lcns, table, al, al_lcns)
    verify(vol, 0, table, 12, ctx)
    return nal


def gen_faults():
    for t in ('no_data', 'first_foreign', 'missing_data', 'resident_data', ('torn', 1), ('torn', 2), ('nodata', 1), ('nodata', 2), 'gap', 'overlap'):
        yield ('table', t)
    for cut in (0, 100, 511, 512, 1024, 9 * 1024, 10 * 1024, 10 * 1024 + 700):
        yield ('cut', cut)
    for f in ('signature', 'bps', 'bps0', 'spc0', 'mft0', 'frs0', 'mft_beyond', 'torn0'):
        yield ('boot', f)


def run_faults(case, ctx):
    kind, what = case
    frs = cs = 1024
    lcns = PLACEMENTS[0][:12]
    comp = [8, 2, 2]
    tweak = what if kind == 'table' else None
    table, al = layout(12, frs, cs, lcns, comp, [6, 7], 'resident', False, None, tweak)
    if tweak in ('gap', 'overlap'):
        shift = 1 if tweak == 'gap' else -1
        bad = ntfs.attr_nonresident(0x80, ntfs.mp_encode([(lcns[8], 2)]), 8 + shift, 9 + shift, 0)
        table = bytearray(table)
        table[6 * frs:7 * frs] = record(6, frs, base = ntfs.ref(0, 1), attrs = [bad])
    boot = None
    if kind == 'boot':
        b = bytearray(ntfs.boot_sector(512, 2, 60, lcns[0], 2, frs_size = frs))
        if what == 'signature':
            b[3:11] = b'NTFS   X'
        elif what == 'bps':
            b[11] = 1
        elif what == 'bps0':
            b[12] = 0
        elif what == 'spc0':
            b[13] = 0
        elif what == 'mft0':
            b[48:56] = b'\x00' * 8
        elif what == 'frs0':
            b[64] = 0
        elif what == 'mft_beyond':
            b[48:56] = struct.pack('<Q', 500)
        elif what == 'torn0':
            table = bytearray(table)
            table[510] ^= 1
        boot = bytes(b)
    vol = make_volume(512, 2, frs, 0, lcns, bytes(table), None, [], boot, what if kind == 'cut' else None)
    ctx.op()
    try:
        fs = MFT.FileSystemParser(vol, 0)
    except Exception as e:
        check(type(e).__module__.startswith('dfir_ntfs'), 'undocumented error {!r}', e)
        return type(e).__name__
    if what == ('nodata', 2):
        # The end of the table is undescribed: what is described must read right, the rest must be an error.
        for i in range(12):
            fs.seek(i * frs)
            ctx.op()
            try:
                got = fs.read(frs)
            except MFT.MasterFileTableException:
                check(i >= 10, 'record {} cannot be read', i)
            else:
                check(i < 10 and got == table[i * frs:(i + 1) * frs], 'record {} is not described by any extent, but was read', i)
        return 'partial'
    raise Violation('an inconsistent volume was opened: {}'.format(fs.data_runs))


def gen_trunc():
    for k in range(10, 22):
        yield k


def run_trunc(case, ctx):
    """A volume image cut in the middle of the table: reads up to the cut are right, reads past it fail."""
    frs = cs = 1024
    lcns = PLACEMENTS[0][:12]
    table, al = layout(12, frs, cs, lcns, [12], [], 'none', False, None)
    vol = make_volume(512, 2, frs, 0, lcns, table, None, [], None, case * cs + 700)
    have = case - 10
    try:
        fs = MFT.FileSystemParser(vol, 0)
    except MFT.MasterFileTableException:
        equal(have, 0, 'records before the cut of a volume that cannot be opened')
        return 'error'
    check(have > 0, 'a volume cut within the first record was opened')
    for i in range(12):
        ctx.op()
        fs.seek(i * frs)
        try:
            got = fs.read(frs)
        except MFT.MasterFileTableException:
            check(i >= have, 'record {} cannot be read although the volume is cut after it', i)
        else:
            check(i < have and got == table[i * frs:(i + 1) * frs], 'record {} read from a volume cut at record {}', i, have)
    return have


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('faults', gen_faults, run_faults, '10 inconsistent table descriptions, 8 cuts, 8 damaged boot sectors'),
        Group('truncated', gen_trunc, run_trunc, 'a volume cut in every cluster of the table'),
        Group('geometry', gen_geometry, run_geometry, '4 sector sizes x 10 cluster sizes (both encodings) x 2 record sizes x 4 volume positions'),
        Group('biglist', gen_biglist, run_biglist, 'attribute lists of 4..64 entries over several clusters'),
        Group('extents', gen_extents(5 if th else 4, (0, 1, 2)), run_extents, 'all compositions of a 12-cluster table into <={} extents, placements of their records, entry orders, 3 disk layouts'.format(5 if th else 4)),
    ]
