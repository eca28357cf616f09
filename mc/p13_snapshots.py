"""P13: a shadow copy reads as the volume at the time of the snapshot."""

import datetime
import itertools
import struct
import uuid

from dfir_ntfs import ShadowCopy

from . import vss
from .core import Group, Violation, equal, check

ID = 'P13'
ASSUMPTIONS = ['volsnap behaves as the model in mc/vss.py (regular, forwarder and overlay entries as described in the code); a block moved back to its origin within one snapshot period is a forwarder entry to itself which stores the data',
               'the content of a block that was unused at the time and is mentioned by a later copy is not specified']

TOTAL = 256


def histories(ops, depth, first = 's', minimum = 2):
    """All sequences of operations that make sense, starting with a snapshot; only maximal states are not needed: every prefix is a case of its own."""
    def rec(seq, used, snaps):
        if len(seq) >= minimum:
            yield tuple(seq)
        if len(seq) == depth:
            return
        for op in ops:
            k = op[0]
            if k == 'd' and op[1] not in used:
                continue
            if k == 'm' and (op[1] not in used or op[2] in used):
                continue
            if k == 's' and seq and seq[-1] == 's' and len(seq) > 1 and seq[-2] == 's':
                continue
            if k == 'w':
                u = used | {op[1]}
            elif k == 'd':
                u = used - {op[1]}
            elif k == 'm':
                u = (used | {op[2]}) - {op[1]}
            else:
                u = used
            yield from rec(seq + [op], u, snaps)
    yield from rec([first], frozenset('12'), 1)


def build(h, null = True, blocks = 3, size = None, again = False):
    m = vss.Model(blocks, (1, 2), null, size, again)
    for op in h:
        if not m.apply(op):
            return None
    return m


def compare_block(got, want, what):
    if len(got) != vss.BLOCK:
        raise Violation('{}: {} bytes are returned'.format(what, len(got)))
    for i in range(32):
        if want[i] is not None and got[i * 512:i * 512 + 512] != want[i]:
            g = got[i * 512:i * 512 + 512]
            raise Violation('{}, part {}: expected {}, got {}'.format(what, i, want[i][:8], g[:8]))


def check_shadows(p, m, drop = 0, total = TOTAL):
    info = sorted((tuple(x) for x in p.shadows()), key = lambda x: x[0])
    want = [(10 + s.number, datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds = (vss.FILETIME + s.number * 10000000) // 10), vss.guid(s.number), s.size or total * vss.BLOCK)
            for s in m.stores[drop:]]
    equal(info, want, 'list of shadow copies')


def read_all(p, m, ctx, drop = 0, by_guid = False, place = None):
    out = []
    for s in m.stores[drop:]:
        p.select_shadow(vss.guid(s.number) if by_guid else 10 + s.number)
        for x in range(1, m.n + 1):
            ctx.op()
            p.seek((place[x] if place else x) * vss.BLOCK)
            compare_block(p.read(vss.BLOCK), m.expected(s.number, x), 'shadow copy {}, block {}'.format(s.number, x))
    for k in list(range(drop)) + [len(m.stores)]:
        try:
            p.select_shadow(vss.guid(k) if by_guid else 10 + k)
        except ShadowCopy.ShadowCopyNotFoundException:
            pass
        else:
            raise Violation('a shadow copy that does not exist is selected')


def run_history(case, ctx):
    h, null, two, layout, drop = case
    m = build(h, null, again = layout == 1)
    if m is None:
        return 'not applicable'
    if drop >= len(m.stores):
        return 'not applicable'
    ctx.state(repr([(s.entries, sorted(s.unused), s.previous and sorted(s.previous)) for s in m.stores] + [sorted(m.cur.items())]))
    vol, store = vss.encode(m, two, layout = layout, drop = drop, total = TOTAL)
    base = 0x100000 if layout == 1 else 0
    a = vss.Image(vol, TOTAL * vss.BLOCK, base)
    if two:
        b = vss.Image(store, TOTAL * vss.BLOCK, base * 2)
        p = ShadowCopy.ShadowParserTwoVolumes(a, b, base, TOTAL * vss.BLOCK if layout else None, base * 2)
    else:
        p = ShadowCopy.ShadowParser(a, base, TOTAL * vss.BLOCK if layout else None)
    check_shadows(p, m, drop)
    read_all(p, m, ctx, drop, layout == 1)
    return len(m.stores), tuple(len(s.entries) for s in m.stores)


def run_placed(case, ctx):
    h, places, total, cut, two, layout = case
    m = build(h, True, again = layout == 1)
    if m is None:
        return 'not applicable'
    place = dict(enumerate(places, 1))
    size = total * vss.BLOCK - cut
    vol, store = vss.encode(m, two, layout = layout, total = total, volume_size = size, place = place)
    a = vss.Image(vol, total * vss.BLOCK, 0)
    if two:
        p = ShadowCopy.ShadowParserTwoVolumes(a, vss.Image(store, TOTAL * vss.BLOCK, 0), 0, None, 0)
    else:
        p = ShadowCopy.ShadowParser(a, 0, None)
    out = []
    for s in m.stores:
        p.select_shadow(vss.guid(s.number))
        for x in range(1, m.n + 1):
            ctx.op()
            p.seek(place[x] * vss.BLOCK)
            got = p.read(vss.BLOCK)
            want = m.expected(s.number, x)
            end = size - place[x] * vss.BLOCK
            if end < vss.BLOCK:
                equal(len(got), end, 'bytes read from the last block')
                got = got.ljust(vss.BLOCK, b'\x00')
                want = [w if (i + 1) * 512 <= end else None for i, w in enumerate(want)]
            compare_block(got, want, 'shadow copy {}, block {}'.format(s.number, place[x]))
    return len(m.stores)


# Blocks around the limits of the bytes of a bitmap, of the volume, and of a bitmap block.
PLACES = [((1, 7, 8), 128, 0), ((9, 15, 6), 128, 0), ((120, 127, 126), 128, 0), ((120, 127, 126), 128, 0x3E00), ((128, 7, 1), 129, 0), ((1, 7, 128), 129, 512), ((128, 135, 134), 136, 512), ((200, 255, 254), 256, 0),
          ((130046, 130047, 130048), 130049, 0), ((130047, 3, 130048), 130049, 0x3E00), ((130048, 3, 130055), 130056, 0x2000), ((130049, 260096, 260095), 260097, 0)]


def gen_placed(ops, depth, configs):
    def g():
        for places, total, cut in PLACES:
            for h in histories(ops, depth):
                for two, layout in configs:
                    yield (h, places, total, cut, two, layout)
    return g


def gen(ops, depth, configs):
    def g():
        for h in histories(ops, depth):
            for c in configs:
                yield (h,) + c
    return g


# Flags without a known meaning, and entries to be ignored which look like others.
UNKNOWN = [sum(b for i, b in enumerate((8, 0x10, 0x20, 0x40, 0x80)) if n >> i & 1) for n in range(1, 32)]


def gen_flags(depth, configs):
    def g():
        for h in histories(['s', 'w1', 'w2', 'm13', 'm31', 'i1', 'i2'], depth):
            m = build(h)
            if m is None:
                continue
            for s in m.stores:
                for k, e in enumerate(s.entries):
                    if e[4] == 0:
                        bits = UNKNOWN
                    elif e[4] == 4:
                        bits = [1, 2, 8, 0x20, 0x81, 0xf8, 0xfa, 0xf9]
                    else:
                        continue
                    for b in bits:
                        for two in configs:
                            yield (h, two, (s.number, k, b))
    return g


def run_flags(case, ctx):
    h, two, bits = case
    m = build(h)
    vol, store = vss.encode(m, two, total = TOTAL, bits = bits)
    a = vss.Image(vol, TOTAL * vss.BLOCK, 0)
    if two:
        p = ShadowCopy.ShadowParserTwoVolumes(a, vss.Image(store, TOTAL * vss.BLOCK, 0), 0, None, 0)
    else:
        p = ShadowCopy.ShadowParser(a, 0, None)
    read_all(p, m, ctx)
    return bits[2]


# Fields of the blocks and items: (getter, offset, format); formats: integers, 'guid' (decoded), 'raw' (16 bytes), 'time'.
FIELDS = {
    'start': [('get_version', 16, '<L'), ('get_max_diff_area_size', 56, '<Q'), ('get_volume_guid', 64, 'guid'), ('get_volume_guid_raw', 64, 'raw'), ('get_storage_guid', 80, 'guid'), ('get_storage_guid_raw', 80, 'raw'),
              ('get_application_flags', 96, '<Q'), ('get_free_space_precopy_percentage', 104, '<Q'), ('get_hot_blocks_precopy_percentage', 112, '<Q'), ('get_hot_blocks_days', 120, '<L'), ('get_protection_flags', 124, '<L')],
    'item2': [('get_snapshot_priority', 4, 'B'), ('get_volume_size', 8, '<Q'), ('get_store_guid', 16, 'guid'), ('get_store_guid_raw', 16, 'raw'), ('get_stack_position', 32, '<Q'), ('get_flags', 40, '<Q'), ('get_timestamp', 48, 'time')],
    'item3': [('get_diff_area_block_offset', 8, '<Q'), ('get_store_guid', 16, 'guid'), ('get_store_guid_raw', 16, 'raw'), ('get_application_information_block_offset', 32, '<Q'), ('get_location_description_block_offset', 40, '<Q'),
              ('get_bitmap_offset', 48, '<Q'), ('get_file_reference', 56, '<Q'), ('get_allocation_size', 64, '<Q'), ('get_previous_bitmap_offset', 72, '<Q')],
    'bitmap': [('get_version', 16, '<L'), ('get_volume_offset', 32, '<Q'), ('get_next_volume_offset', 40, '<Q')],
    'table': [('get_version', 16, '<L'), ('get_volume_offset', 32, '<Q'), ('get_next_volume_offset', 40, '<Q')],
    'location': [('get_version', 16, '<L'), ('get_volume_offset', 32, '<Q'), ('get_next_volume_offset', 40, '<Q')],
    'application': [('get_version', 16, '<L'), ('get_volume_offset', 32, '<Q')],
    'control': [('get_version', 16, '<L'), ('get_volume_offset', 32, '<Q'), ('get_next_control_block_volume_offset', 40, '<Q')],
}
WIDTH = {'guid': 16, 'raw': 16, 'time': 8}
KINDS = {'start': 1, 'control': 2, 'table': 3, 'application': 4, 'location': 5, 'bitmap': 6}


def gen_fields():
    for kind in sorted(FIELDS):
        for at in sorted({(o, WIDTH.get(f) or struct.calcsize(f)) for _, o, f in FIELDS[kind]}):
            for value in ('one', 'ff', 'inverse', 'count', 'high'):
                yield kind, at, value


def run_fields(case, ctx):
    kind, (at, width), value = case
    mark = {'one': b'\x01' + bytes(width - 1), 'ff': b'\xff' * width, 'inverse': bytes(width), 'count': bytes(range(1, width + 1)), 'high': bytes(width - 1) + b'\x80'}[value]
    fill = 0xff if value == 'inverse' else 0
    if kind in ('item2', 'item3'):
        raw = bytearray([fill] * 0x80)
        raw[:4] = struct.pack('<L', int(kind[4]))
        if kind == 'item2' and at != 8:
            raw[8:16] = struct.pack('<Q', 1 << 30)
        if kind == 'item2' and at == 8 and value == 'inverse':
            mark = struct.pack('<Q', 1 << 40)
        base = 0
    else:
        base = 7680 if kind == 'start' else 0
        raw = bytearray([fill] * (8192 if kind == 'start' else 0x4000))
        raw[base:base + 24] = vss.GUID + struct.pack('<LL', 1, KINDS[kind])
        if kind == 'start':
            raw[:11] = b'\xeb\x52\x90NTFS    '
            raw[base + 24:base + 56] = struct.pack('<QQQQ', 7680, 7680, 0, 0x4000)
        elif kind == 'control':
            raw[24:32] = bytes(8)
    raw[base + at:base + at + width] = mark
    cls = {'start': 'StartBlock', 'control': 'ControlBlock', 'table': 'DiffAreaTable', 'application': 'ApplicationInformation', 'location': 'LocationDescription', 'bitmap': 'Bitmap', 'item2': 'ControlBlockItem2', 'item3': 'ControlBlockItem3'}[kind]
    ctx.op()
    x = getattr(ShadowCopy, cls)(bytes(raw))
    for name, o, f in FIELDS[kind]:
        part = bytes(raw[base + o:base + o + (WIDTH.get(f) or struct.calcsize(f))])
        if f == 'guid':
            want = uuid.UUID(bytes_le = part)
        elif f == 'raw':
            want = part
        elif f == 'time':
            n = struct.unpack('<Q', part)[0]
            want = datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds = n // 10) if n < 2650467744000000000 else None
            if want is not None and n % 10:
                continue
        else:
            want = struct.unpack(f, part)[0]
        equal(getattr(x, name)(), want, '{}.{}'.format(cls, name))
    if kind == 'start':
        equal(x.get_first_control_block_offset(), 0x4000, 'first control block')
        equal(x.is_storage_local(), raw[base + 64:base + 80] == raw[base + 80:base + 96], 'local storage')
    elif kind in ('bitmap', 'application'):
        equal(bytes(x.get_bitmap() if kind == 'bitmap' else x.get_application_information()), bytes(raw[0x80:]), 'content')
    return kind


W = ['w1', 'w2', 'w3']
D = ['d1', 'd2', 'd3']
M = ['m12', 'm13', 'm21', 'm23', 'm31', 'm32']
O = ['o1a', 'o1b', 'o3b']
ONE = [(True, False, 0, 0)]
ALL = [(True, False, 0, 0), (False, False, 1, 0), (True, True, 0, 0), (False, True, 1, 0), (True, False, 1, 1), (True, True, 1, 1)]


def groups(tier):
    q = tier == 'quick'
    return [
        Group('all', gen(['s'] + W + D + M + O + ['i1'], 6 if q else 7, ONE), run_history, 'all histories of up to {} operations: snapshots, writes, frees, moves, overlays and ignored entries over 3 blocks'.format(6 if q else 7)),
        Group('configs', gen(['s'] + W + D + M + O + ['i1'], 5 if q else 6, ALL), run_history, 'all histories of up to {} operations x null blocks or not x one or two volumes x 2 layouts x oldest shadow copy deleted'.format(5 if q else 6)),
        Group('full', gen(['s'] + W + D + M + O + ['i1'], 4 if q else 5, [(True, False, 2, 0), (False, True, 2, 0)]), run_history, 'all histories of up to {} operations, items and tables running over the end of a block, one and two volumes'.format(4 if q else 5)),
        Group('flags', gen_flags(4 if q else 5, (False, True)), run_flags, 'all histories of up to {} snapshots, writes, moves and ignored entries x each regular entry with every combination of flags of unknown meaning, each ignored entry with other flags, one and two volumes'.format(4 if q else 5)),
        Group('fields', gen_fields, run_fields, 'every field of the start block, the items of control blocks and the headers of the other blocks, with 5 values (alone and with everything around it set)'),
        Group('places', gen_placed(['s', 'w1', 'w2', 'w3', 'd1', 'd2', 'm13', 'm31', 'm23'], 4 if q else 5, [(False, 0), (True, 1)]), run_placed, 'blocks at 12 sets of places around the limits of a byte of the bitmap, of a bitmap block and of the volume (aligned and not): all histories of up to {} operations, one and two volumes'.format(4 if q else 5)),
        Group('moves-two', gen(['s', 'w1', 'w3'] + D + M, 6 if q else 7, [(True, True, 0, 0)]), run_history, 'two volumes: all histories of up to {} snapshots, writes, frees and moves'.format(6 if q else 7)),
        Group('overlays-two', gen(['s', 'w1', 'm13', 'm31', 'w3', 'o1a', 'o1b'], 6 if q else 7, [(True, True, 0, 0)]), run_history, 'two volumes: all histories of up to {} snapshots, writes, moves and overlays'.format(6 if q else 7)),
        Group('moves', gen(['s', 'w1', 'w3'] + D + M, 7 if q else 8, ONE), run_history, 'all histories of up to {} snapshots, writes, frees and moves'.format(7 if q else 8)),
        Group('writes', gen(['s', 'w1', 'w3', 'd1'], 8 if q else 10, ONE), run_history, 'all histories of up to {} snapshots, writes and frees'.format(8 if q else 10)),
        Group('overlays', gen(['s', 'w1', 'm13', 'm31', 'w3', 'o1a', 'o1b'], 7 if q else 8, ONE), run_history, 'all histories of up to {} snapshots, writes, moves and overlays'.format(7 if q else 8)),
    ]
