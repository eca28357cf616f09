"""P30: the journal, log and move table reports of the NTFS program contain one exact block per record."""

import datetime
import itertools
import struct
import uuid

from dfir_ntfs import Attributes

from . import cli, lfs, ntfs
from . import p05_paths as paths
from . import p09_usn as usn
from . import p12_logtargets as targets
from . import p17_movetable as move
from . import p26_reports as p26
from .p26_reports import BASE, T, T0, stamps, guid1, GUID4, guid_time
from .core import Group, Violation, equal, check

ID = 'P30'
ASSUMPTIONS = ['the text of the reports is the one the program writes for intact records (labels, order of lines, separators)',
               'a name cut short by the end of its data is reported as far as it is there; timestamps of the enumerated records have an exact representation',
               'the decoded part of a log record whose list of clusters is cut short is not specified',
               'the programs are run in this process, in a scratch directory, with read-only input files']

def fmt(t):
    """The text for a timestamp (the rounding of those without an exact representation is not specified, see P08)."""
    if T0 <= t < T(1000) and (t - T0) % (10 * 1024 * 997) == 0:
        return p26.fmt(t)
    d = Attributes.DecodeFiletime(t)
    if d is None:
        return 'N/A'
    check(abs((d - p26.EPOCH) / datetime.timedelta(microseconds = 1) - t / 10) <= 100, 'timestamp {}', t)
    return d.strftime('%Y-%m-%d %H:%M:%S.%f')


SEP = '\n\n---\n\n'

# The file table the reports refer to.
SLOTS = (('dir', (('R', 'own', 1),)), ('file', ((0, 'own', 1),)), ('delfile', (('R', 'own', 1),)), ('bad', ()), ('file', ()), ('dir', (('M', 'own', 1),)))
TABLE = paths.build(SLOTS)
R = {'root': ntfs.ref(5, 5), 'dir': ntfs.ref(6, 1), 'file': ntfs.ref(7, 1), 'del': ntfs.ref(8, 1), 'del2': ntfs.ref(8, 2), 'bad': ntfs.ref(9, 1), 'noname': ntfs.ref(10, 1), 'orphan': ntfs.ref(11, 1),
     'stale': ntfs.ref(6, 4), 'missing': ntfs.ref(50, 1), 'huge': ntfs.ref((1 << 48) - 1, 0xFFFF), 'sys': ntfs.ref(0, 1)}


def path_of(number, seq = None):
    """The path of a record in the table (None if there is none)."""
    if number == 5 and seq in (5, None):
        return '/.'
    k = number - BASE
    if not 0 <= k < len(SLOTS) or SLOTS[k][0] == 'bad' or not SLOTS[k][1] or seq not in (None, 1):
        return None
    return paths.ref_path(SLOTS, k, SLOTS[k][1][0])


def path_of_reference(ref):
    return path_of(ref & 0xFFFFFFFFFFFF, ref >> 48)


def flags_text(v, table, prefix):
    out = [prefix + table[b] for b in sorted(table) if v & b]
    rest = v & ~sum(table)
    if rest:
        out.append(hex(rest))
    return ' | '.join(out)


# Kinds of redo and undo data.

def si_value(n, attributes = 0x20):
    return ntfs.v_standard_information(usn = 4, attributes = attributes, **stamps(n))


def fn_value(parent, name, n):
    return ntfs.v_file_name(R[parent], name, 1, attributes = 0x20, size = 9, alloc = 16, **stamps(n))


def resident(t, value, name = None):
    return ntfs.attr_resident(t, value, name = name)


def frs(attrs, size = 1024, trim = True, **kw):
    b = bytes(ntfs.frs_raw(attrs, size = size, number = 77, seq = 3, **kw))
    used = struct.unpack('<L', b[24:28])[0]
    return b[:used] if trim else b


USN2 = usn.v2('journal.txt', usn = 0x777, ref = R['file'], parent = R['dir'], ts = T(61), reason = 0x80000100, source = 1)
USN3 = usn.v3('three', usn = 0x778, ref = R['dir'] | 5 << 64, parent = R['root'], ts = T(62), reason = 0x1000, source = 0)
USN4 = usn.v4([(0, 4096)], usn = 0x779, ref = R['file'], parent = R['dir'], reason = 2, source = 16)

KINDS = {
    '-': b'',
    'x': b'Some data, 1234567.\x00\xff',
    'frs': frs([resident(0x10, si_value(10)), resident(0x30, fn_value('dir', 'created', 20)), resident(0x40, guid1().bytes_le), resident(0x80, b'')]),
    'frs1k': frs([resident(0x10, si_value(11, 0x26)), resident(0x30, fn_value('missing', 'c2', 21)), ntfs.attr_nonresident(0x80, ntfs.mp_encode([(10, 3)]), 0, 2, 5000)], trim = False),
    'frscut': frs([resident(0x10, si_value(12)), resident(0x30, fn_value('root', 'gone', 22))])[:56 + 24 + 72],
    'frsbad': b'XXXX' + frs([resident(0x10, si_value(13))])[4:],
    'asi': resident(0x10, si_value(30, 0x27)),
    'asi48': resident(0x10, si_value(31)[:48]),
    'asi40': resident(0x10, si_value(32)[:40]),
    'afn': resident(0x30, fn_value('dir', 'attribute', 33)),
    'afnroot': resident(0x30, fn_value('root', 'in root', 34)),
    'afnstale': resident(0x30, fn_value('stale', 'lost', 35)),
    'afnhuge': resident(0x30, fn_value('huge', 'lost2', 36)),
    'afn60': resident(0x30, fn_value('dir', 'attribute', 37)[:60]),
    'aoid': resident(0x40, guid1().bytes_le + b'\x05' * 48),
    'aoid4': resident(0x40, GUID4.bytes_le),
    'aoid9': resident(0x40, GUID4.bytes_le[:9]),
    'adata': resident(0x80, b'contents', name = 'ads'),
    'anon': ntfs.attr_nonresident(0x80, ntfs.mp_encode([(10, 3)]), 0, 2, 5000),
    'acut': resident(0x10, si_value(38))[:60],
    'ahdr': resident(0x30, fn_value('dir', 'z', 39))[:23],
    'ie': ntfs.index_entry(R['file'], fn_value('dir', 'indexed', 40)),
    'iev': ntfs.index_entry(R['file'], fn_value('noname', 'indexed2', 41), 1, vcn = 3),
    'ieroot': ntfs.index_entry(R['sys'], fn_value('root', 'n', 42)),
    'ieend': ntfs.index_entry(0, fn_value('dir', 'end', 43), 2),
    'ieempty': ntfs.index_entry(0, b''),
    'ie66': ntfs.index_entry(R['file'], fn_value('dir', '', 44)),
    'iecut': ntfs.index_entry(R['file'], fn_value('orphan', 'long name', 45))[:16 + 66 + 8],
    'ie15': ntfs.index_entry(R['file'], fn_value('dir', 'short', 46))[:15],
    'ie9': ntfs.index_entry(R['file'], fn_value('dir', 'short', 47))[:9],
    'di': ntfs.v_duplicated(**stamps(50)),
    'di55': ntfs.v_duplicated(**stamps(51))[:55],
    'di57': ntfs.v_duplicated(**stamps(52)) + b'!',
    's7': struct.pack('<Q', T(53))[:7],
    's8': struct.pack('<Q', T(54)),
    's16': struct.pack('<QQ', T(55), T(56)),
    's28': struct.pack('<QQQL', T(57), T(58), T(59), 32),
    's32': struct.pack('<QQQQ', T(60), (1 << 64) - 1, T(61), T(62)),
    'u2': USN2,
    'u3': USN3,
    'u4': USN4,
    'u2more': USN2 + USN3,
    'u2cut': USN2[:-8],
    'u2name': USN2[:56] + struct.pack('<H', 200) + USN2[58:],
    'u2odd': struct.pack('<L', 62) + USN2[4:],
    'u5': USN2[:4] + b'\x05' + USN2[5:],
    'u7': USN2[:7],
    'BAD': None,        # The offset of the data points into the header.
    'CUT': b'cut off by the end of the record',
}


def hexdump(b):
    if not b:
        return '-'
    out = []
    for i in range(0, len(b), 16):
        row = b[i:i + 16]
        h = ''.join('{:02X}'.format(c) + ('' if k == len(row) - 1 else '-' if k == 7 else ' ') for k, c in enumerate(row))
        out.append('{:08X}  {}  {}'.format(i, h + '   ' * (16 - len(row)), ''.join(chr(c) if 32 <= c < 127 else '.' for c in row)))
    return '\n'.join(out)


def q(b, off):
    return struct.unpack('<Q', b[off:off + 8])[0]


def mace_lines(c, m, e, a):
    return [' * M timestamp: ' + m, ' * A timestamp: ' + a, ' * C timestamp: ' + c, ' * E timestamp: ' + e]


def four(b):
    return mace_lines(fmt(q(b, 0)), fmt(q(b, 8)), fmt(q(b, 16)), fmt(q(b, 24)))


ATTRIBUTES = {0x1: 'READ_ONLY', 0x2: 'HIDDEN', 0x4: 'SYSTEM', 0x20: 'ARCHIVE'}


def attribute_lines(t, v):
    if t == 0x10 and len(v) >= 48:
        a = struct.unpack('<L', v[32:36])[0]
        return ['$STANDARD_INFORMATION:'] + four(v) + [' * File attributes: ' + file_attributes(a), '']
    if t == 0x30 and len(v) >= 66:
        return ['$FILE_NAME:'] + name_lines(v)
    if t == 0x40:
        if len(v) < 16:
            return ['$OBJECT_ID:', ' * GUID: None', ' * Timestamp: N/A', '']
        g = uuid.UUID(bytes_le = v[:16])
        return ['$OBJECT_ID:', ' * GUID: {}'.format(g), ' * Timestamp: ' + (guid_time() if g == guid1() else 'N/A'), '']
    return []


def file_attributes(a):
    return ' | '.join(Attributes.FILE_ATTR_LIST[b] for b in sorted(Attributes.FILE_ATTR_LIST) if a & b)


def name_lines(v):
    out = four(v[8:]) + [' * File name: ' + v[66:66 + 2 * v[64]].decode('utf-16le', 'replace')]
    parent = q(v, 0)
    out.append(' * Parent (file reference number): {}'.format(parent))
    p = path_of_reference(parent)
    if p is not None:
        out.append(' * Parent path (from $MFT): ' + p)
    return out + ['']


FRS = {
    'frs': attribute_lines(0x10, si_value(10)) + attribute_lines(0x30, fn_value('dir', 'created', 20)) + attribute_lines(0x40, guid1().bytes_le),
    'frs1k': attribute_lines(0x10, si_value(11, 0x26)) + attribute_lines(0x30, fn_value('missing', 'c2', 21)),
    'frscut': attribute_lines(0x10, si_value(12)),
}


def record_attribute_lines(b):
    if len(b) < 24:
        return []
    t = struct.unpack('<L', b[:4])[0]
    n, off = struct.unpack('<LH', b[16:22])
    if off == 0 or off % 8 or n == 0 or off + n > len(b):
        return []
    return attribute_lines(t, b[off:off + n])


def entry_lines(b):
    if len(b) < 16:
        return []
    n, flags = struct.unpack('<HH', b[10:14])
    if flags & 2:
        return []
    v = b[16:16 + n]
    if len(v) <= 66:
        return []
    return ['$FILE_NAME in index:'] + name_lines(v)


def usn_lines(b):
    if len(b) < 8:
        return []
    ln, major = struct.unpack('<LH', b[:6])
    need = {2: 64, 3: 80, 4: 80}.get(major)
    if need is None or ln < need or ln % 8 or ln > len(b):
        return []
    b = b[:ln]
    wide = 8 if major == 2 else 16
    out = ['USN record (version 4):' if major == 4 else 'USN record:']
    p = 8 + 2 * wide
    out.append(' Number: {}'.format(q(b, p)))
    reason, source = struct.unpack('<LL', b[p + 8:p + 16] if major == 4 else b[p + 16:p + 24])
    out.append(' Source: ' + flags_text(source, usn.SOURCES, 'USN_SOURCE_'))
    out.append(' Reason: ' + flags_text(reason, usn.REASONS, 'USN_REASON_'))
    out.append(' File reference number: {}'.format(int.from_bytes(b[8:8 + wide], 'little')))
    out.append(' Parent file reference number: {}'.format(int.from_bytes(b[8 + wide:8 + 2 * wide], 'little')))
    if major != 4:
        out.append(' Timestamp: ' + fmt(q(b, p + 8)))
        n, off = struct.unpack('<HH', b[p + 32:p + 36])
        if off + n <= len(b):
            out.append(' File name: ' + b[off:off + n].decode('utf-16le', 'replace'))
    return out + ['']


INDEX_OPS = (0xC, 0xE, 0x10)
NAME_OPS = (0x13, 0x14)

# Entries of the open attribute table.
OAT = [(R['file'], '$J'), (R['dir'], '$I30'), (R['del'], ''), (R['missing'], '$J'), (R['stale'], '$SDS'), (R['root'], '$I30')]
OAT_TABLE = {24 + 40 * i: e for i, e in enumerate(OAT)}


def name_of(op):
    return targets.NAMES[op] if op < len(targets.NAMES) else hex(op)


def block(spec, lsn, trans, data, deleted):
    """The text for a log record."""
    redo, undo, rk, uk, geo, lcns, target = spec
    vcn, cbo, block_size, record_offset, attribute_offset = geo
    rd = data[0]
    ud = data[1]
    out = ['LSN: {}'.format(lsn), 'Transaction ID: {}'.format(trans), 'Log record, redo operation: {}, undo operation: {}'.format(name_of(redo), name_of(undo))]
    res = redo in targets.RESIDENT or undo in targets.RESIDENT
    non = redo in targets.NONRESIDENT or undo in targets.NONRESIDENT
    name = None
    offset = None
    if res:
        number = (vcn * 4096 + cbo * 512) // (block_size * 512 or 1024)
        out.append('Target (file number): {}'.format(number))
        p = path_of(number)
        if p is not None:
            out.append('Target path (from $MFT, likely wrong if the file was deleted later): ' + p)
        offset = record_offset + attribute_offset
    elif non and target in OAT_TABLE:
        ref, name = OAT_TABLE[target]
        out.append('Target (file reference number): {}'.format(ref))
        out.append('Target (attribute name): ' + (name or '-'))
        p = path_of_reference(ref)
        if p is not None:
            out.append('Target path (from $MFT): ' + p)
    else:
        out.append('Unknown target, target attribute: {}'.format(target))
    if non and not res:
        offset = vcn * 4096 + cbo * 512 + record_offset + attribute_offset
    out.append('Unknown offset in target' if offset is None else 'Offset in target: {}'.format(offset))
    if lcns == 'cut':
        return '\n'.join(out + ['Warning: truncated page'])
    if lcns:
        out.append('LCN(s): ' + ' '.join(str(x) for x in lcns))
    out += ['Redo data:', hexdump(rd), '', 'Undo data:', hexdump(ud), '']
    if redo == 3:
        deleted.append(str(number))
    if redo == 2:
        if block_size in (0, 2):
            out += FRS.get(rk, [])
        elif rk in FRS:
            return None
    if redo == 5 or undo == 5 or redo == 4 or undo == 4:
        if redo == 5:
            b = rd
        elif undo == 5:
            b = ud
        else:
            b = rd if len(rd) > len(ud) else ud
        out += record_attribute_lines(b)
    if offset is not None and (redo == 7 or undo == 7):
        base = {1024: 80, 4096: 96}.get(block_size * 512 or 1024)
        if base is not None and base <= offset <= base + 32:
            off = offset - base
            for b, what in ((rd, 'redo'), (ud, 'undo')):
                if len(b) >= 8:
                    out.append('Possible update to $STANDARD_INFORMATION ({} data):'.format(what))
                    v = [fmt(q(b, k - off)) if off <= k and off + len(b) >= k + 8 else 'N/A' for k in (0, 8, 16, 24)]
                    out += mace_lines(*v) + ['']
    if redo in INDEX_OPS or undo in INDEX_OPS:
        out += entry_lines(rd if redo in INDEX_OPS else ud)
    for op, b, what in ((redo, rd, 'redo'), (undo, ud, 'undo')):
        if op in NAME_OPS and len(b) == 56:
            out += ['Update to duplicated information ({} data):'.format(what)] + four(b) + ['']
    if name == '$J':
        for op, b in ((redo, rd), (undo, ud)):
            if op == 8:
                out += usn_lines(b)
    return '\n'.join(out)


def restart_block(lsn, major, minor, checkpoint, tables):
    names = ('Open attribute table', 'Attribute names', 'Dirty page table', 'Transaction table')
    out = ['LSN: {}'.format(lsn), 'Restart area, version: {}.{}'.format(major, minor), ' Start of checkpoint LSN: {}'.format(checkpoint), ' Tables (LSN and length):']
    return '\n'.join(out + [' * {}: {} {}'.format(n, l, k) for n, (l, k) in zip(names, tables)])


def client(spec):
    """The bytes of a record and the data it carries."""
    redo, undo, rk, uk, geo, lcns, target = spec
    vcn, cbo, block_size, record_offset, attribute_offset = geo
    a, b = KINDS[rk], KINDS[uk]
    raw = lfs.client_record(a if a is not None else b'\x99' * 16, redo, undo, b if b is not None else b'\x98' * 16, target = target, lcns = lcns if lcns != 'cut' else (), record_offset = record_offset,
                            attribute_offset = attribute_offset, cbo = cbo, block = block_size, vcn = vcn)
    raw = bytearray(raw)
    if a is None:
        raw[4:6] = struct.pack('<H', 24)
        a = b''
    if b is None:
        raw[8:10] = struct.pack('<H', 31)
        b = b''
    if uk == 'CUT':
        # The length of the undo data leaves the record.
        o = struct.unpack('<H', raw[8:10])[0]
        raw[10:12] = struct.pack('<H', 999)
        b = bytes(raw[o:])
    elif rk == 'CUT':
        o = struct.unpack('<H', raw[4:6])[0]
        raw[6:8] = struct.pack('<H', 60000)
        a = bytes(raw[o:])
    if lcns == 'cut':
        raw[14:16] = struct.pack('<H', 0xFFF)
    return bytes(raw), (a, b)


def run_log(specs, ctx, version = (1, 0), tables = True, size = None):
    """Write a log with the records and compare the report."""
    made = [client(s) for s in specs]
    total = sum(len(m[0]) + 48 for m in made) + 2000
    log = lfs.Log((1, 1), total // (lfs.CAP - 48) + 3, 0)
    first = log.append(lfs.client_restart(major = version[0], minor = version[1], cluster = 4096, checkpoint = 77, oat = 11, names = 22, dirty = 33, trans = 44, lens = (5, 6, 7, 8)), type = 2)
    want = [restart_block(first.lsn, version[0], version[1], 77, ((11, 5), (22, 6), (33, 7), (44, 8)))]
    deleted = []
    if tables:
        for op, b in ((0x1D, targets.dump(1, OAT_TABLE, len(OAT))), (0x1E, targets.names(OAT_TABLE, False))):
            r = log.append(lfs.client_record(b, op, 0), prev = log.records[-1].lsn, trans = 0)
            want.append(block((op, 0, 'x', '-', (0, 0, 2, 0, 0), (), 0), r.lsn, 0, (b, b''), deleted))
    for i, (s, (raw, data)) in enumerate(zip(specs, made)):
        r = log.append(raw, prev = log.records[-1].lsn, trans = 24 + i)
        want.append(block(s, r.lsn, 24 + i, data, deleted))
    img = log.image(log.restart_page(clients = [(first.lsn, first.lsn)]))
    ctx.op(len(specs) + 1)
    r = cli.run('ntfs_parser', ['--log', 'MFT', 'LOG', 'OUT'], {'MFT': TABLE, 'LOG': img})
    if r.error is not None:
        cli.rows(r)
    check(r.written is not None, 'no report was written')
    got = r.written.decode('utf-8').split(SEP)
    check(got[-1] == '', 'the report ends with {!r}', got[-1])
    got = got[:-1]
    if deleted:
        want.append('Files and directories with these MFT numbers were deleted (in this order):\n' + ' '.join(deleted))
    for k, (g, w) in enumerate(itertools.zip_longest(got, want)):
        if w is None and k < len(want):
            continue
        if g != w:
            n = k - (3 if tables else 1)
            raise Violation('block {} of the report, record {}: expected\n{}\ngot\n{}'.format(k, specs[n] if 0 <= n < len(specs) else '-', w, g))
    return len(got)


PLAIN = (3, 4, 2, 56, 24)       # The target is record 14 (not in the table); the offset is the one of $STANDARD_INFORMATION.
GEOS = [PLAIN, (1, 4, 2, 56, 24), (1, 4, 0, 56, 32), (1, 6, 2, 60, 24), (7, 0, 8, 72, 24), (1, 0, 2, 56, 40), (2, 0, 2, 56, 48), (2, 2, 2, 56, 16), (2, 4, 2, 88, 24), (2, 6, 2, 0, 0), (5, 0, 8, 72, 32), (3, 0, 1, 56, 24), (7, 0, 16, 96, 0),
        (0, 10, 2, 72, 24), (1, 7, 2, 60, 28), (9, 0, 8, 60, 24)]
SPECIAL = (2, 3, 4, 5, 7, 8, 0xC, 0xE, 0x10, 0x13, 0x14, 0xD, 0x1B)


def gen_pairs(th):
    kinds = sorted(KINDS)
    few = ['-', 'x', 'frs', 'afn', 'ie', 'di', 's16', 'u2', 'BAD']

    def gen():
        for redo in range(0, 0x28):
            for undo in range(0, 0x28):
                if redo in (0x1C, 0x1D, 0x1E) and undo in targets.NONRESIDENT:
                    continue        # These change the table of open attributes (see P12).
                full = redo in SPECIAL and undo in SPECIAL
                for rk in kinds if full or th else few:
                    yield redo, undo, rk, full or th
    return gen


def run_pairs(case, ctx):
    redo, undo, rk, full = case
    few = ['-', 'x', 'frs', 'afn', 'ie', 'di', 's16', 'u2', 'BAD']
    specs = []
    for i, uk in enumerate(sorted(KINDS) if full else few):
        if rk == 'CUT' and uk == 'CUT':
            continue
        if rk == 'CUT' and uk == 'BAD' or rk == 'BAD' and uk == 'CUT':
            continue
        specs.append((redo, undo, rk, uk, PLAIN, (), 24))
    return run_log(specs, ctx)


def gen_geometry(th):
    def gen():
        for redo, undo in ((7, 7), (7, 0), (0, 7), (8, 8), (8, 0), (0, 8), (0xE, 0xF), (0x14, 0x14), (3, 2), (2, 3), (5, 6), (6, 5), (0x1B, 1), (0x15, 0x16), (0x13, 0x13), (0x26, 0x27)):
            for geo in GEOS:
                for target in (24, 64, 104, 144, 184, 224, 264, 0, 0xFFFF):
                    yield redo, undo, geo, target
    return gen


def run_geometry(case, ctx):
    redo, undo, geo, target = case
    specs = []
    for rk, uk in (('s16', 's32'), ('s8', '-'), ('s7', 's28'), ('u2', 'u3'), ('u4', 'u2name'), ('frs', 'frs') if geo[2] in (0, 2) else ('x', 'x'), ('afn', 'asi'), ('ie', 'ie'), ('di', 'di')):
        for lcns in ((), (5,), (7, 0, -1, 1 << 40), 'cut'):
            if lcns == 'cut' and redo == 3:
                continue
            specs.append((redo, undo, rk, uk, geo, lcns, target))
    return run_log(specs, ctx) + run_log(specs[:12], ctx, tables = False) if target not in OAT_TABLE else run_log(specs, ctx)


def gen_extreme(th):
    def gen():
        for redo in (3, 7, 8, 0x14):
            for vcn in (0, 1, -1, -(1 << 63), (1 << 63) - 1, 1 << 40, (1 << 52)):
                for block_size in (0, 1, 2, 0xFFFF):
                    for off in (0, 0xFFFF):
                        yield redo, (vcn, off, block_size, off, off)
    return gen


def run_extreme(case, ctx):
    redo, geo = case
    return run_log([(redo, 0, 's16', '-', geo, (), 24), (redo, redo, 'x', 'x', geo, (1,), 64), (7, 7, 's8', 's8', PLAIN, (), 24)], ctx)


def gen_cuts(th):
    """Every truncation of the data of decoded operations."""
    def gen():
        for op, ks in ((5, ('asi', 'afn', 'aoid')), (4, ('afn',)), (0xC, ('ie', 'iev')), (0x10, ('ie',)), (8, ('u2', 'u3', 'u4', 'u2name')), (0x13, ('di',)), (7, ('s32',))):
            for k in ks:
                for n in range(0, len(KINDS[k]) + 1):
                    yield op, k, n
    return gen


def run_cuts(case, ctx):
    op, k, n = case
    tag = '{}[:{}]'.format(k, n)
    KINDS[tag] = KINDS[k][:n]
    try:
        specs = [(op, 0, tag, '-', PLAIN, (), 24), (0, op, '-', tag, PLAIN, (), 24), (op, op, 'x', 'x', PLAIN, (), 24)]
        return run_log(specs, ctx)
    finally:
        del KINDS[tag]


SEQ = [(3, 2, '-', 'frs', (1, 4, 2, 0, 0), (), 0), (3, 2, '-', '-', (2, 2, 2, 0, 0), (), 0), (2, 0, 'frs', '-', (1, 6, 2, 0, 0), (9,), 0), (8, 0, 'u2', '-', (0, 1, 2, 0, 8), (4,), 24), (7, 7, 's16', 's16', PLAIN, (), 0),
       (0xE, 0xF, 'ie', '-', (2, 0, 8, 24, 64), (3,), 64), (0x1B, 1, '-', '-', (0, 0, 0, 0, 0), (), 0), (5, 6, 'afn', 'BAD', PLAIN, (), 0), (0x15, 0x16, 'x', 'x', PLAIN, 'cut', 184)]


def gen_sequences(th):
    def gen():
        for k in range(0, 4 if not th else 5):
            yield from itertools.product(range(len(SEQ)), repeat = k)
    return gen


def run_sequences(case, ctx):
    return run_log([SEQ[i] for i in case], ctx, version = ((1, 0), (0, 0), (2, 7))[0])


def gen_restart(th):
    def gen():
        vals = (0, 1, (1 << 63) - 1, (1 << 64) - 1)
        for major in (0, 1, 2, 0xFFFFFFFF):
            for minor in (0, 1, 0xFFFFFFFF):
                for v in vals:
                    for k in range(5):
                        for length in (64, 72, 112):
                            yield major, minor, v, k, length
    return gen


def run_restart(case, ctx):
    major, minor, v, k, length = case
    t = [77, 11, 22, 33, 44]
    t[k] = v
    lens = [5, 6, 7, 8]
    if k:
        lens[k - 1] = v & 0xFFFFFFFF
    log = lfs.Log((1, 1), 4, 0)
    r = log.append(lfs.client_restart(major = major, minor = minor, checkpoint = t[0], oat = t[1], names = t[2], dirty = t[3], trans = t[4], lens = lens, length = length), type = 2)
    img = log.image(log.restart_page(clients = [(r.lsn, r.lsn)]))
    ctx.op()
    out = cli.run('ntfs_parser', ['--log', 'MFT', 'LOG', 'OUT'], {'MFT': TABLE, 'LOG': img}, stale = b'an older report, longer than the new one' * 100)
    if out.error is not None:
        cli.rows(out)
    equal(out.written.decode('utf-8'), restart_block(r.lsn, major, minor, t[0], list(zip(t[1:], lens))) + SEP, 'report')
    return case


# The journal.

USN_HEADER = ['USN value', 'Source', 'Reason', 'MFT reference number', 'Parent MFT reference number', 'Timestamp', 'File name', 'File path (from $MFT)']
NAMES = ['a', 'new\nline', 'comma, "quote"', 'Ünï-字', '']
JITEMS = {}
for _i, (_n, _r) in enumerate((('a', 'file'), ('new\nline', 'dir'), ('comma, "quote"', 'del'), ('Ünï-字😀', 'orphan'), ('', 'root'), ('st', 'stale'), ('mi', 'missing'), ('d2', 'del2'), ('nn', 'noname'), ('b', 'bad'), ('h', 'huge'))):
    JITEMS['2' + _r] = usn.v2(_n, usn = 1000 + _i, ref = R[_r], parent = R['dir'], ts = T(_i), reason = 1 << _i | 0x80000000, source = _i)
    JITEMS['3' + _r] = usn.v3(_n, usn = 2000 + _i, ref = R[_r], parent = R['dir'] | _i << 64, ts = T(_i) if _i else 1 << 63, reason = 1 << (2 * _i), source = 1 << _i)
JITEMS['3high'] = usn.v3('high', usn = 2100, ref = R['file'] | 1 << 64, parent = 1 << 127, ts = T(3), reason = 0xFFFFFFFF, source = 0xFFFFFFFF)
JITEMS['4file'] = usn.v4([(0, 1)], usn = 3000, ref = R['file'], parent = R['dir'], reason = 0x10, source = 2)
JITEMS['4none'] = usn.v4([], usn = (1 << 64) - 1, ref = R['missing'], parent = 0, reason = 0, source = 0)
JITEMS['cutname'] = JITEMS['2file'][:56] + struct.pack('<H', 9000) + JITEMS['2file'][58:]
JITEMS['farname'] = JITEMS['2dir'][:58] + struct.pack('<H', 900) + JITEMS['2dir'][60:]
JITEMS['zero'] = b'\x00' * 64
JITEMS['page'] = b'\x00' * 4096
JITEMS['junk'] = b'\xff' * 24
JITEMS['unknown'] = usn.ITEMS['u']
JITEMS['odd'] = usn.ITEMS['v']
JITEMS['trunc'] = usn.v2('trunc', usn = 4000)[:40]


def usn_row(b):
    major = b[4]
    wide = 8 if major == 2 else 16
    p = 8 + 2 * wide
    ref = int.from_bytes(b[8:8 + wide], 'little')
    reason, source = struct.unpack('<LL', b[p + 8:p + 16] if major == 4 else b[p + 16:p + 24])
    ts = name = ''
    if major != 4:
        ts = fmt(q(b, p + 8))
        n, off = struct.unpack('<HH', b[p + 32:p + 36])
        if off + n <= len(b):
            name = b[off:off + n].decode('utf-16le', 'replace')
    return [str(q(b, p)), flags_text(source, usn.SOURCES, 'USN_SOURCE_'), flags_text(reason, usn.REASONS, 'USN_REASON_'), str(ref), str(int.from_bytes(b[8 + wide:8 + 2 * wide], 'little')), ts, name, path_of_reference(ref) or '']


def gen_journal(th):
    def gen():
        ks = sorted(JITEMS)
        for n in range(0, 3):
            yield from itertools.product(ks, repeat = n)
        few = ['2file', '3dir', '4file', 'cutname', 'zero', 'junk', 'trunc', '2missing', '3high', 'page']
        for n in (3, 4) if th else (3,):
            yield from itertools.product(few, repeat = n)
    return gen


def run_journal(case, ctx):
    buf = b''.join(JITEMS[k] for k in case)
    want = [usn_row(b) for pos, b in usn.reference(buf)]
    ctx.op()
    got = cli.rows(cli.run('ntfs_parser', ['--usn', 'MFT', 'J', 'OUT'], {'MFT': TABLE, 'J': buf}))
    equal(got[:1], [USN_HEADER], 'header')
    equal(len(got) - 1, len(want), 'number of rows')
    for g, w in zip(got[1:], want):
        equal(g, w, 'row')
    return len(want)


# The move table.

def gen_move(th):
    def gen():
        for n in (0, 1, 2) if not th else (0, 1, 2, 3):
            for types in itertools.product((2, 1), repeat = 4 * n):
                if n >= 2 and types[:4] not in ((2, 2, 2, 2), (1, 2, 1, 2), (1, 1, 1, 1), (2, 1, 2, 2)):
                    continue
                yield types
    return gen


def guid_stamp(g):
    if g.variant == uuid.RFC_4122 and g.version == 1:
        return guid_time() if g == guid1() else None
    return 'N/A'


def run_move(case, ctx):
    g = guid1().bytes_le
    raws = []
    want = ['File header:\n * Machine ID: ws-1\n * Volume object ID: {}'.format(uuid.UUID(bytes_le = bytes(range(50, 66))))]
    for i, t in enumerate(case):
        over = {}
        for k, what in enumerate(('oid', 'obj', 'bobj')):
            if (i + k) % 3 == 0:
                over[what] = g
        # A high part for which the range is exact when rounded.
        ts = 0x01D00000 + 256 * i
        raw = move.entry_bytes(i, t, ts = ts, **over)
        raws.append(raw)
        if t != 2:
            continue
        x = [uuid.UUID(bytes_le = raw[a:a + 16]) for a in (20, 36, 52, 84, 100)]
        st = [guid_stamp(x[k]) for k in (0, 2, 4)]
        if None in st:
            want.append(None)
            continue
        low, high = (Attributes.DecodeFiletime(v).strftime('%Y-%m-%d %H:%M:%S.%f') for v in (ts << 32, ts << 32 | 0xFFFFFFFF))
        want.append('Object ID: {}\n\nDomain-relative object ID, volume: {}\nDomain-relative object ID, file: {}\n\nMachine ID: {}\n\nBirth domain-relative object ID, volume: {}\nBirth domain-relative object ID, file: {}\n\n'
                    'GUID timestamps:\n * Object ID: {}\n * Domain-relative object ID, file: {}\n * Birth domain-relative object ID, file: {}\n\nTimestamp (range): {} - {}'.format(
                        x[0], x[1], x[2], 'host-%d' % i, x[3], x[4], st[0], st[1], st[2], low, high))
    data = move.header_sector(512)
    for k in range(len(case) // 4):
        data += move.sector_bytes(512, raws[4 * k:4 * k + 4], 0, 4)
    ctx.op()
    r = cli.run('ntfs_parser', ['--move', 'LOG', 'OUT'], {'LOG': data})
    if r.error is not None:
        cli.rows(r)
    got = r.written.decode('utf-8').split(SEP)
    equal(got[-1], '', 'end of the report')
    equal(len(got) - 1, len(want), 'number of blocks')
    for a, b in zip(got, want):
        if b is not None:
            equal(a, b, 'block')
    return len(got)


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('pairs', gen_pairs(th), run_pairs, 'all 40 x 40 pairs of operations x {} pairs of kinds of data ({} for the {} decoded operations)'.format('all' if th else 81, len(KINDS) ** 2, len(SPECIAL))),
        Group('geometry', gen_geometry(th), run_geometry, '16 pairs of operations x 16 geometries x 9 targets x 9 pairs of data x 4 lists of clusters'),
        Group('extreme', gen_extreme(th), run_extreme, 'positions of the target at the limits of their fields'),
        Group('cuts', gen_cuts(th), run_cuts, 'every truncation of the data of each decoded operation'),
        Group('sequences', gen_sequences(th), run_sequences, 'all sequences of up to {} log records over {} kinds'.format(4 if th else 3, len(SEQ))),
        Group('restart', gen_restart(th), run_restart, 'restart areas over versions, positions and lengths of the tables'),
        Group('journal', gen_journal(th), run_journal, 'all sequences of up to 2 journal items over {} kinds, up to {} over 10'.format(len(JITEMS), 4 if th else 3)),
        Group('move', gen_move(th), run_move, 'move tables of up to {} sectors, used and free entries'.format(3 if th else 2)),
    ]
