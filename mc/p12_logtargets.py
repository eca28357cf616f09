"""P12: log records name their operation, data and target exactly."""

import itertools
import struct

from dfir_ntfs import LogFile

from . import lfs, ntfs
from .core import Group, Violation, equal, check

ID = 'P12'
ASSUMPTIONS = ['histories of table operations are complete (no open operation was lost in a damaged page)',
               'an entry without a name is reported with an empty name or with none']

NAMES = ('Noop CompensationLogRecord InitializeFileRecordSegment DeallocateFileRecordSegment WriteEndOfFileRecordSegment CreateAttribute DeleteAttribute UpdateResidentValue '
         'UpdateNonresidentValue UpdateMappingPairs DeleteDirtyClusters SetNewAttributeSizes AddIndexEntryRoot DeleteIndexEntryRoot AddIndexEntryAllocation DeleteIndexEntryAllocation '
         'WriteEndOfIndexBuffer SetIndexEntryVcnRoot SetIndexEntryVcnAllocation UpdateFileNameRoot UpdateFileNameAllocation SetBitsInNonresidentBitMap ClearBitsInNonresidentBitMap HotFix '
         'EndTopLevelAction PrepareTransaction CommitTransaction ForgetTransaction OpenNonresidentAttribute OpenAttributeTableDump AttributeNamesDump DirtyPageTableDump '
         'TransactionTableDump UpdateRecordDataRoot UpdateRecordDataAllocation UpdateRelativeDataIndex UpdateRelativeDataAllocation ZeroEndOfFileRecord').split()

RESIDENT = {2, 3, 4, 5, 6, 7, 9, 0xB, 0xC, 0xD, 0x11, 0x13, 0x21, 0x23, 0x25}
NONRESIDENT = {8, 0xE, 0xF, 0x10, 0x12, 0x14, 0x15, 0x16, 0x22, 0x24}


# Layout of one record.

def gen_layout(tier):
    lens = (32, 40, 48, 64) if tier == 'quick' else (32, 33, 40, 48, 56, 64, 72)

    def g():
        for length in lens:
            offs = sorted({1, 8, 31, 32, 33, 40, length - 8, length - 1, length, length + 1, 0xFFFF})
            for off in offs:
                for n in sorted({0, 1, 7, 8, length - off, length - off + 1, 0xFFFF}):
                    if n >= 0:
                        for other in ((0, 0), (32, 8), (40, 3), (5, 9)):
                            for lcns in (0, 1, 2, 4, 0xFFFF):
                                yield (length, off, n, other, lcns)
    return g


def run_layout(case, ctx):
    length, off, n, other, lcns = case
    for swap in (False, True):
        a, b = ((off, n), other) if not swap else (other, (off, n))
        raw = struct.pack('<HHHHHHHHHHHHq', 0x8107, 0x9208, a[0], a[1], b[0], b[1], 0xA309, lcns, 0xB40A, 0xC50B, 0xD60C, 0xE70D, -0x0102030405060708)
        raw += bytes((0x40 + i * 5) & 0xFF for i in range(length - 32))
        for buf in (raw, bytearray(raw)):
            r = LogFile.NTFSLogRecord(buf, 77, 99, 4096)
            ctx.op(4)
            equal((r.lsn, r.transaction_id), (77, 99), 'LSN and transaction')
            equal((r.get_redo_operation(), r.get_undo_operation(), r.get_redo_length(), r.get_undo_length(), r.get_target_attribute(), r.get_lcns_to_follow(), r.get_record_offset(),
                   r.get_attribute_offset(), r.get_cluster_block_offset(), r.get_target_block_size(), r.get_target_vcn()),
                  (0x8107, 0x9208, a[1], b[1], 0xA309, lcns, 0xB40A, 0xC50B, 0xD60C, 0xE70D, -0x0102030405060708), 'fields')
            for (o, k), get, what in ((a, r.get_redo_data, 'redo'), (b, r.get_undo_data, 'undo')):
                try:
                    got = bytes(get())
                except LogFile.ClientException:
                    got = 'error'
                if k == 0:
                    want = b''
                elif o < 32:
                    want = 'error'
                else:
                    want = raw[o:o + k]
                equal(got, want, what + ' data')
            try:
                got = r.get_lcns_for_page()
            except LogFile.ClientException:
                got = 'error'
            want = 'error' if 32 + lcns * 8 > length else [struct.unpack('<q', raw[32 + i * 8:40 + i * 8])[0] for i in range(lcns)]
            equal(got, want, 'clusters of the page')
    return (a, b, want == 'error')


def gen_short():
    for n in range(0, 120):
        for kind in (1, 2, 0, 3):
            yield (n, kind)


def run_short(case, ctx):
    """Records cut short are rejected; restart areas report the fields they have."""
    n, kind = case
    raw = bytes((i * 7 + 3) & 0xFF for i in range(n))
    d = LogFile.ClientData(raw, kind, 5, 6, 4096)
    ctx.op()
    try:
        x = d.data_decoded()
    except LogFile.ClientException:
        check(kind in (1, 2) and n < (32 if kind == 1 else 64), 'a record of {} bytes is rejected', n)
        return 'short'
    except NotImplementedError:
        check(kind not in (1, 2), 'a record of a known type is rejected')
        return 'type'
    check(kind in (1, 2), 'a record of an unknown type is accepted')
    if kind == 1:
        check(n >= 32 and type(x) is LogFile.NTFSLogRecord, 'a record of {} bytes is accepted', n)
        return 'record'
    check(n >= 64 and type(x) is LogFile.NTFSRestartArea, 'a restart area of {} bytes is accepted', n)

    def f(off, fmt):
        size = struct.calcsize(fmt)
        return struct.unpack(fmt, raw[off:off + size])[0] if off + size <= n else None

    got = (x.lsn, x.get_major_version(), x.get_minor_version(), x.get_start_of_checkpoint_lsn(), x.get_open_attribute_table_lsn(), x.get_attribute_names_lsn(), x.get_dirty_page_table_lsn(),
           x.get_transaction_table_lsn(), x.get_open_attribute_table_length(), x.get_attribute_names_length(), x.get_dirty_page_table_length(), x.get_transaction_table_length(),
           x.get_usn_journal_restart_offset(), x.get_last_lsn(), x.get_bytes_per_cluster(), x.get_usn_journal_reference(), x.get_usn_base(), x.get_oldest_lsn())
    want = (5, f(0, '<L'), f(4, '<L'), f(8, '<Q'), f(16, '<Q'), f(24, '<Q'), f(32, '<Q'), f(40, '<Q'), f(48, '<L'), f(52, '<L'), f(56, '<L'), f(60, '<L'),
            f(64, '<q'), f(72, '<Q'), f(80, '<L'), f(88, '<Q'), f(96, '<q'), f(104, '<Q'))
    equal(got, want, 'fields of the restart area')
    return got


# Targets of updates.

def gen_target(tier):
    geo = [(0, 0, 0, 4096), (1, 0, 2, 4096), (7, 6, 2, 4096), (5, 0, 8, 65536), (3, 1, 2, 512), (10, 7, 0, 4096), (9, 120, 2, 65536), (1 << 33, 2, 8, 2048)]

    def g():
        for redo in range(0, 0x28):
            for undo in range(0, 0x28):
                for geom in geo:
                    yield (redo, undo) + geom
    return g


def run_target(case, ctx):
    redo, undo, vcn, cbo, block, cluster = case
    raw = lfs.client_record(b'x' * 8, redo, undo, b'', target = 24, record_offset = 56, attribute_offset = 24, cbo = cbo, block = block, vcn = vcn)
    r = LogFile.NTFSLogRecord(raw, 1, 2, cluster)
    ctx.op(3)
    resident = redo in RESIDENT or undo in RESIDENT
    nonresident = redo in NONRESIDENT or undo in NONRESIDENT
    number = offset = None
    if resident:
        number = (vcn * cluster + cbo * 512) // (block * 512 or 1024)
        offset = 56 + 24
    elif nonresident:
        offset = vcn * cluster + cbo * 512 + 56 + 24
    equal(r.calculate_mft_target_number(), number, 'number of the target file record')
    equal(r.calculate_offset_in_target(), offset, 'offset in the target')
    equal(r.calculate_mft_target_reference_and_name(), None, 'target without an open attribute table')
    r.oat = {24: (0x0005000000000123, '$I30')}
    got = r.calculate_mft_target_reference_and_name()
    equal(got, (0x0005000000000123, '$I30') if nonresident else None, 'target found in the open attribute table')
    for code in (redo, undo):
        equal(LogFile.ResolveNTFSOperation(code), NAMES[code] if code < len(NAMES) else hex(code), 'name of an operation')
    str(r)
    return (number, offset, got)


# Histories of open operations and table dumps.

FILES = [(0x0001000000000030, '$I30'), (0x00020000000000A1, 'S'), (0x0003000000000C02, ''), (0x0004000000000D00, 'long name of a stream')]


def entry(version, ref, index, attr = 0xA0):
    if version >= 1:
        return struct.pack('<LLLLQQQ', 0xFFFFFFFF, 4096, attr, 0, ref, 0x1111, 0x2222)
    return struct.pack('<LLQQLLLLL', 0xFFFFFFFF, index, ref, 0x1111, 0x3333, attr, 0x4444, 0x5555, 4096)


def esize(version):
    return 40 if version >= 1 else 44


def dump(version, table, slots):
    n = esize(version)
    b = struct.pack('<HHHHLLLL', n, slots, len(table), 0, 0xFFFFFFFF, 0, 0, 0)
    for k in range(slots):
        idx = 24 + n * k
        b += entry(version, table[idx][0], idx) if idx in table else struct.pack('<L', 0).ljust(n, b'\xEE')
    return b


def names(table, order):
    b = b''
    for idx in sorted(table, reverse = order):
        raw = table[idx][1].encode('utf-16le')
        if raw:
            b += struct.pack('<HH', idx, len(raw)) + raw + b'\x00\x00'
    return b + b'\x00' * 4


OPS = ['oaA', 'oaB', 'obC', 'obA', 'D', 'E', 'N', 'M', 'ua', 'ub', 'x', 'y']
# o<slot><file>: open; D, N: dumps of the tables; u<slot>: an update; x: an open operation cut short (slot a); y: an open operation with an invalid data offset (slot b);
# E, M: dumps of the tables which cannot be read.


def histories(depth, ops):
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat = n):
            if not any(o[0] == 'u' for o in h):
                continue
            # The names are dumped after the table they belong to.
            pending = False
            ok = True
            for o in h:
                if o in 'DE':
                    if pending:
                        ok = False
                        break
                    pending = True
                elif o in 'NM':
                    if not pending:
                        ok = False
                        break
                    pending = False
            if ok and h[-1][0] == 'u':
                yield h


def gen_oat(depth, ops = OPS):
    def g():
        for h in histories(depth, ops):
            for version in (1, 0, 2):
                for prior in (0, 1):
                    yield (h, version, prior)
    return g


def run_oat(case, ctx):
    h, version, prior = case
    n = esize(version)
    slot = {'a': 24, 'b': 24 + n}
    files = {'A': FILES[0], 'B': FILES[1], 'C': FILES[2], 'P': FILES[3]}
    log = lfs.Log((1, 1), 6, 0)
    restart = log.append(lfs.client_restart(major = version, cluster = 2048), type = 2)
    table = {24: files['P']} if prior else {}     # Opened before the records in this log.
    told = {}           # What the log has told so far: index -> entry, or 'unsure'.
    dumped = {}         # The last completed pair of dumps.
    half = None
    want = []
    first = restart
    for i, o in enumerate(h):
        if o[0] == 'o':
            idx = slot[o[1]]
            table[idx] = files[o[2]]
            told[idx] = table[idx]
            data = lfs.client_record(entry(version, table[idx][0], idx), 0x1C, 0, table[idx][1].encode('utf-16le'), target = idx)
            expect = None
        elif o == 'D':
            half = dict(table)
            data = lfs.client_record(dump(version, table, 3), 0x1D, 0)
        elif o == 'N':
            data = lfs.client_record(names(half, bool(i % 2)), 0x1E, 0)
            if version < 2:
                dumped = half
            half = None
        elif o in 'EM':
            data = lfs.client_record(b'\x11' * 64, 0x1D if o == 'E' else 0x1E, 0)
            data = data[:4] + struct.pack('<H', 8) + data[6:]
            if o == 'E':
                half = {}
            else:
                if version < 2:
                    dumped = {k: ((v[0], ''), v) for k, v in half.items()}
                half = None
        elif o in 'xy':
            # An attribute is opened, but what was opened cannot be read.
            idx = slot['a' if o == 'x' else 'b']
            table[idx] = files['C']
            told[idx] = 'unsure'
            if o == 'x':
                data = lfs.client_record(b'\xFF' * 24, 0x1C, 0, b'', target = idx)
            else:
                data = lfs.client_record(entry(version, table[idx][0], idx), 0x1C, 0, b'', target = idx)
                data = data[:4] + struct.pack('<H', 8) + data[6:]
        r = None
        if o[0] == 'u':
            idx = slot[o[1]]
            if idx not in table:
                return 'not applicable: nothing is open there'
            data = lfs.client_record(b'data' * 2, 0x0E, 0x0F, b'', target = idx, vcn = 3 + i, cbo = 2, record_offset = 16, attribute_offset = 40)
        r = log.append(data, prev = log.records[-1].lsn)
        if o[0] == 'u':
            allowed = []
            if idx in table:
                allowed.append(table[idx])
            known = told.get(idx)
            if known is None:
                known = dumped.get(idx)
                if known is not None and type(known[0]) is tuple:
                    allowed += known        # The names could not be read.
            if known is None or known == 'unsure':
                allowed.append(None)        # The log does not tell (completely).
            want.append((r.lsn, allowed, (3 + i) * 2048 + 2 * 512 + 56))
    img = log.image(log.restart_page(clients = [(first.lsn, restart.lsn)]))
    p = LogFile.LogFileParser(ntfs.Image(img))
    got = {}
    seen = []
    for x in p.parse_ntfs_records(True):
        ctx.op()
        seen.append(x.lsn)
        if type(x) is LogFile.NTFSLogRecord:
            got[x.lsn] = x
            if x.get_redo_operation() != 0x0E:
                equal(x.calculate_mft_target_reference_and_name(), None, 'target of a record that is not an update')
    equal(seen, [r.lsn for r in log.records], 'records')
    out = []
    for lsn, allowed, offset in want:
        # The target is asked for after the iteration: later records must not change what earlier ones refer to.
        t = got[lsn].calculate_mft_target_reference_and_name()
        if t is not None:
            t = (t[0], t[1] or '')
        check(t in allowed, 'the update (LSN {}) is attributed to {}, expected one of {}', lsn, t, allowed)
        equal(got[lsn].calculate_offset_in_target(), offset, 'offset in the target')
        out.append(t)
    return tuple(out)


# Histories with losses: a pair of a file and a name which never was one is not reported.

def gen_lost(depth):
    def g():
        for n in range(2, depth + 1):
            for h in itertools.product('AqDnuk', repeat = n):
                if h[-1] == 'u' and ('n' in h or 'k' in h):
                    for version in (1, 0):
                        yield (''.join(h), version)
    return g


def run_lost(case, ctx):
    """A: an attribute is opened; q: another one is, but the record is lost; D: both dumps; n: both dumps, that of the table is lost;
    k: an update whose undo operation is an open operation; u: an update."""
    h, version = case
    log = lfs.Log((1, 1), 6, 0)
    restart = log.append(lfs.client_restart(major = version, cluster = 2048), type = 2)
    table = {24: FILES[3]}
    ever = [FILES[3]]
    told = dumped = None
    sure = False        # Everything since the last record about the slot is there.
    want = []
    for i, o in enumerate(h):
        items = []
        if o in 'Aq':
            table[24] = FILES[0] if o == 'A' else FILES[1]
            ever.append(table[24])
            sure = o == 'A'
            if o == 'A':
                told = table[24]
                items.append(lfs.client_record(entry(version, table[24][0], 24), 0x1C, 0, table[24][1].encode('utf-16le'), target = 24))
        elif o in 'Dn':
            if o == 'D':
                items.append(lfs.client_record(dump(version, table, 3), 0x1D, 0))
                if told is None:
                    dumped, sure = table[24], True
            items.append(lfs.client_record(names(table, False), 0x1E, 0))
        elif o == 'k':
            items.append(lfs.client_record(b'data' * 2, 0x07, 0x1C, entry(version, 0x0009000000000999, 24), target = 24))
        else:
            items.append(lfs.client_record(b'data' * 2, 0x0E, 0x0F, b'', target = 24))
        for data in items:
            r = log.append(data, prev = log.records[-1].lsn)
        if o == 'u':
            want.append((r.lsn, [table[24]] if sure else ever + [None]))
    p = LogFile.LogFileParser(ntfs.Image(log.image(log.restart_page(clients = [(restart.lsn, restart.lsn)]))))
    got = {x.lsn: x for x in p.parse_ntfs_records(True)}
    equal(sorted(got), [r.lsn for r in log.records], 'records')
    out = []
    for lsn, allowed in want:
        ctx.op()
        t = got[lsn].calculate_mft_target_reference_and_name()
        check(t in allowed, 'the update (LSN {}) is attributed to {}, expected one of {}', lsn, t, allowed)
        out.append(t)
    return tuple(out)


def gen_clients(depth):
    def g():
        for n in range(2, depth + 1):
            for h in itertools.product(('o0', 'o1', 'r0', 'D0', 'D1', 'u0', 'u1'), repeat = n):
                if h[-1][0] == 'u' and any(o[1] == '0' for o in h) and any(o[1] == '1' for o in h):
                    for version in (1, 0):
                        yield (h, version)
    return g


def run_clients(case, ctx):
    """Every client of the log has its own tables."""
    h, version = case
    log = lfs.Log((1, 1), 6, 0)
    restart = log.append(lfs.client_restart(major = version, cluster = 2048), type = 2)
    tables = [{}, {}]
    told = [{}, {}]
    want = []
    for o in h:
        c = int(o[1])
        items = []
        if o[0] in 'or':
            tables[c][24] = told[c][24] = FILES[2 * c + (o[0] == 'r')]
            items.append(lfs.client_record(entry(version, tables[c][24][0], 24), 0x1C, 0, tables[c][24][1].encode('utf-16le'), target = 24))
        elif o[0] == 'D':
            told[c] = dict(tables[c])
            items.append(lfs.client_record(dump(version, tables[c], 3), 0x1D, 0))
            items.append(lfs.client_record(names(tables[c], False), 0x1E, 0))
        else:
            items.append(lfs.client_record(b'data' * 2, 0x0E, 0x0F, b'', target = 24))
        for data in items:
            r = log.append(data, client = c)
        if o[0] == 'u':
            if 24 not in tables[c] and 'D' + o[1] in h:
                return 'not applicable: nothing is open there'
            want.append((r.lsn, tables[c].get(24)))
    p = LogFile.LogFileParser(ntfs.Image(log.image(log.restart_page(clients = [(restart.lsn, restart.lsn), (0, 0)]))))
    got = {x.lsn: x for x in p.parse_ntfs_records(True)}
    equal(sorted(got), [r.lsn for r in log.records], 'records')
    out = []
    for lsn, w in want:
        ctx.op()
        t = got[lsn].calculate_mft_target_reference_and_name()
        if t is not None:
            t = (t[0], t[1] or '')
        equal(t, w, 'target of the update (LSN {})'.format(lsn))
        out.append(t)
    return tuple(out)


# What the client restart record tells about the volume and the format.

def gen_config():
    for major in (0, 1, 2, 3, 0x10000):
        for minor in (0, 1, 2, 0xFFFFFFFF):
            for cluster in [512 << k for k in range(0, 13)]:
                for length in (112, 96, 88):
                    yield (major, minor, cluster, length)
            for cluster in (0, 1, 256, 511, 513, 4095, 0xFFFFFFFF):
                yield (major, minor, cluster, 112)
            for length in (64, 72, 80):
                yield (major, minor, 1024, length)


def run_config(case, ctx):
    major, minor, cluster, length = case
    log = lfs.Log((1, 1), 3, 0)
    restart = log.append(lfs.client_restart(major, minor, cluster = cluster, length = length), type = 2)
    log.append(lfs.client_record(entry(min(major, 1), FILES[1][0], 24), 0x1C, 0, FILES[1][1].encode('utf-16le'), target = 24))
    up = [log.append(lfs.client_record(b'data' * 2, 0x0E, 0x0F, b'', target = 24, vcn = vcn, cbo = 3, record_offset = 16, attribute_offset = 40)) for vcn in (0, 1, 7, 1 << 33)]
    p = LogFile.LogFileParser(ntfs.Image(log.image(log.restart_page(clients = [(0, restart.lsn)]))))
    size = cluster if length >= 88 and cluster and cluster % 512 == 0 else 4096      # Without a usable value, the usual size.
    got = {x.lsn: x for x in p.parse_ntfs_records()}
    equal(sorted(got), [r.lsn for r in log.records], 'records')
    for r, vcn in zip(up, (0, 1, 7, 1 << 33)):
        ctx.op(2)
        equal(got[r.lsn].calculate_mft_target_reference_and_name(), FILES[1], 'target')
        equal(got[r.lsn].calculate_offset_in_target(), vcn * size + 3 * 512 + 56, 'offset in the target')
    return size


# Tables: every slot, every name.

def gen_tables(tier):
    def g():
        for version in (1, 0):
            for slots in (1, 2, 3):
                for fill in itertools.product((None, 0, 1, 2, 3), repeat = slots):
                    for order in (False, True):
                        for k in range(slots + 1):
                            yield (version, fill, order, k)
    return g


def run_tables(case, ctx):
    version, fill, order, k = case
    n = esize(version)
    table = {24 + n * i: (FILES[f][0] + i, FILES[f][1] and FILES[f][1] + str(i)) for i, f in enumerate(fill) if f is not None}
    d = LogFile.OpenAttributeTableDumpParser(dump(version, table, len(fill)), version)
    a = LogFile.AttributeNamesDumpParser(names(table, order))
    for i in range(24):
        # The header of the table is not an entry.
        ctx.op()
        try:
            got = d.find_file_reference_by_index(i)
        except LogFile.ClientException:
            continue
        raise Violation('index {} (the header of the table) is resolved to {}'.format(i, got))
    idx = 24 + n * k
    ctx.op(2)
    if k >= len(fill):
        try:
            d.find_file_reference_by_index(idx)
        except LogFile.ClientException:
            pass
        else:
            raise Violation('an index outside of the table is resolved')
        equal(a.find_name_by_index(idx), None, 'name for an index outside of the table')
        return None
    if idx not in table:
        equal(a.find_name_by_index(idx), None, 'name of a free entry')
        return None
    equal(d.find_file_reference_by_index(idx), table[idx][0], 'file reference')
    equal(a.find_name_by_index(idx) or '', table[idx][1], 'name')
    raw = entry(version, table[idx][0], idx)
    for cut in range(len(raw) + 1):
        cls = LogFile.OpenAttributeEntry1 if version >= 1 else LogFile.OpenAttributeEntry0
        ctx.op()
        try:
            e = cls(raw[:cut])
        except LogFile.ClientException:
            check(cut < len(raw), 'an entry is rejected')
            continue
        check(cut == len(raw), 'an entry cut to {} bytes is accepted', cut)
        equal((e.get_allocated_or_next_free(), e.get_file_reference(), e.get_attribute_type_code(), e.get_bytes_per_index_buffer(), e.get_lsn_of_open_record()),
              (0xFFFFFFFF, table[idx][0], 0xA0, 4096, 0x1111), 'fields of an entry')
    return table[idx]


def groups(tier):
    q = tier == 'quick'
    return [
        Group('layout', gen_layout(tier), run_layout, 'record lengths x redo/undo offsets and lengths at boundaries x numbers of clusters'),
        Group('short', gen_short, run_short, 'client data of every length 0..119 x 4 record types'),
        Group('target', gen_target(tier), run_target, 'all 40 x 40 pairs of operations x 8 geometries'),
        Group('config', gen_config, run_config, 'client restart records: 5 x 4 versions x 20 cluster sizes x lengths, updates at 4 positions'),
        Group('tables', gen_tables(tier), run_tables, 'both formats, tables of up to 3 slots over 4 files or free, both orders of names, every index, every truncation of an entry'),
        Group('lost', gen_lost(6 if q else 7), run_lost, 'all histories of up to {} operations over one slot with lost open operations, lost table dumps and updates undone by an open operation, both formats'.format(6 if q else 7)),
        Group('clients', gen_clients(5 if q else 6), run_clients, 'all histories of up to {} opens, dumps and updates of two clients, both formats'.format(5 if q else 6)),
        Group('oat', gen_oat(5 if q else 6), run_oat, 'all histories of up to {} operations over 10 (opens of 2 slots, table and name dumps, updates, damaged opens), 3 versions, with and without an attribute opened before'.format(5 if q else 6)),
        Group('oat-deep', gen_oat(7 if q else 8, ['oaA', 'oaB', 'D', 'N', 'ua'] if q else ['oaA', 'oaB', 'D', 'N', 'ua', 'x']), run_oat, 'all histories of up to {} operations over one slot'.format(7 if q else 8)),
    ]
