"""P10: every log record reachable from the restart areas and page headers is found once, in order, with its data."""

import itertools

from dfir_ntfs import LogFile

from . import lfs, ntfs
from .core import Group, Violation, equal, check

ID = 'P10'
ASSUMPTIONS = ['logs of 3 to 5 circular pages of 4096 bytes; records written by the model writer in mc/lfs.py (headers never cross a page, data does)']

OPS = 'smFfhgnNeXc'


PATTERN = b''.join((0xE0000000 + k * 0x101).to_bytes(4, 'little') for k in range(8192))


def payload(i, size):
    """Client data of exactly `size` bytes: an update record with its number in it."""
    b = lfs.client_record(PATTERN[i * 4:i * 4 + size - 32], target = i, vcn = i * 3 + 1)
    return b[:size].ljust(size, b'\x00')


def data_size(op, left, hdr = lfs.HDR, cap = lfs.CAP):
    """The length of client data that makes the record end where the operation says, or None if impossible here."""
    room = left - hdr
    if room < 0:
        room = cap - hdr
    n = {'s': 40, 'm': 1000, 'c': 40, 'F': room, 'f': room - 40, 'h': room - 48, 'g': room - 56, 'n': room + 504, 'N': room + cap, 'e': room + cap - 40, 'X': room + cap + 304}[op]
    return n if n >= 40 else None


def build(ops, pages, start, residue, links, version = (1, 1), seq = 5, clients = 1, restart_at = None, log = None):
    log = log or lfs.Log(version, pages, start, seq, residue)
    last = {}
    for i, op in enumerate(ops):
        n = data_size(op, log.left, log.hdr, lfs.PAGE - log.data)
        if n is None:
            return None
        trans = 24 + (i % 2) * 40 if links == 'trans' else 24
        prev = 0 if links == 'none' else last.get(trans, 0)
        undo = last.get(24, 0) if links == 'undo' else prev if links == 'trans' else 0
        if links == 'undo':
            prev = 0
        elif links.startswith('jump'):
            # Only the last record has a link, far back.
            prev = undo = 0
            if i and i == len(ops) - 1:
                prev, undo = (log.records[0].lsn, 0) if links == 'jump-prev' else (0, log.records[0].lsn)
        r = log.append(payload(i, n), client = i % clients, trans = trans, prev = prev, undo = undo, close = op == 'c')
        last[trans] = r.lsn
    return log


def laid(log, page, case, **kw):
    """The image of a log with the restart page in both places or in one of them."""
    k = sum(map(ord, str(case))) % 3
    blank = b'\x00' * lfs.PAGE
    return log.image(blank if k == 1 else page, blank if k == 2 else page, **kw)


def compare(log, img, damaged, must, ctx, recover = True):
    image = ntfs.Image(img)
    p = LogFile.LogFileParser(image)
    whole = {r.lsn: r for r in log.intact(damaged)}
    started = {}
    for r in log.records:
        page, off = r.where[0][0], r.lsn * 8 % lfs.PAGE
        if page not in damaged and log.pages[page][off:off + 8] == r.lsn.to_bytes(8, 'little'):
            started[r.lsn] = r      # The header is still there (in an overwritten page, it may have survived behind the new records).
    seen = {}
    last = {}
    for x in p.parse_ntfs_records(recover):
        ctx.op()
        r = started.get(x.lsn)
        if r is None:
            raise Violation('a record that was never written (or is overwritten) is reported: LSN {}'.format(x.lsn))
        check(x.lsn not in seen, 'the record with LSN {} is reported twice', x.lsn)
        seen[x.lsn] = True
        check(last.get(r.client, -1) < x.lsn, 'records of a client are out of order')
        last[r.client] = x.lsn
        check((type(x) is LogFile.NTFSRestartArea) == (r.type == 2), 'the record type of LSN {} is wrong', x.lsn)
        if r.type == 2:
            if x.lsn in whole:
                equal(bytes(x.buf), r.data, 'the data of the restart record')
            continue
        if r.lsn not in whole and log.gen[r.where[0][0]] != r.where[0][1]:
            continue
        equal(x.transaction_id, r.trans, 'transaction of LSN {}'.format(x.lsn))
        equal((x.get_target_attribute(), x.get_target_vcn()), (int.from_bytes(r.data[12:14], 'little'), int.from_bytes(r.data[24:32], 'little')), 'fields of LSN {}'.format(x.lsn))
        off = int.from_bytes(r.data[4:6], 'little')
        n = int.from_bytes(r.data[6:8], 'little')
        want = r.data[off:off + n]
        got = bytes(x.get_redo_data())
        if x.lsn in whole:
            if got != want:
                raise Violation('the data of LSN {} differs from what was written: {} of {} bytes are right'.format(x.lsn, sum(a == b for a, b in zip(got, want)), len(want)))
        else:
            check(want.startswith(got), 'the data of the damaged record with LSN {} is not what was written', x.lsn)
    lost = sorted(set(must) - set(seen))
    if lost:
        order = sorted(must)
        raise Violation('{} of {} records are not reported, the first is number {} (LSN {}, page {}, offset {})'.format(
            len(lost), len(must), order.index(lost[0]), lost[0], must[lost[0]].where, (lost[0] << 3) % 4096))
    check(not image.writes, 'the log file was written to')
    return len(seen)


CONFIGS = [(3, 0, False, 'none'), (3, 1, True, 'none'), (3, 2, True, 'chain'), (4, 3, True, 'trans')]


def gen_place(n, ops = OPS, configs = CONFIGS):
    def g():
        for k in range(1, n + 1):
            for s in itertools.product(ops, repeat = k):
                for c in configs:
                    yield (''.join(s),) + c
    return g


def run_place(case, ctx):
    ops, pages, start, residue, links = case
    log = build(ops, pages, start, residue, links)
    if log is None:
        return 'not applicable'
    whole = log.intact()
    # The restart area points to the oldest record still needed: everything from there on is live.
    oldest = whole[0].lsn
    must = lfs.reachable(log, [oldest])
    equal(len(must), len(whole), 'model: the live records are contiguous')
    return compare(log, laid(log, log.restart_page(clients = [(oldest, 0)]), case), (), must, ctx)


def gen_anchor(n):
    """The restart area points to one of the records, or to nothing: what the page headers point to has to be found."""
    def g():
        for k in range(2, n + 1):
            for s in itertools.product('smFNnc', repeat = k):
                for start in (1, 2):
                    for links in ('none', 'chain', 'undo', 'jump-prev', 'jump-undo'):
                        for anchor in (0, -1):
                            yield (''.join(s), start, links, anchor)
    return g


def run_anchor(case, ctx):
    ops, start, links, anchor = case
    log = build(ops, 3, start, True, links)
    if log is None:
        return 'not applicable'
    lsn = 0 if anchor == 0 else log.records[anchor].lsn
    must = lfs.reachable(log, [lsn] + lfs.page_anchors(log))
    return compare(log, laid(log, log.restart_page(current = lsn), case), (), must, ctx)


def gen_damage(n):
    def g():
        for k in range(2, n + 1):
            for s in itertools.product('smFfhNX', repeat = k):
                for links in ('none', 'chain'):
                    for d in range(4):
                        for kind in ('torn', 'blank', 'sig', 'CHKD', 'BAAD'):
                            if k == n and kind in ('sig', 'CHKD', 'BAAD'):
                                continue
                            yield (''.join(s), links, d, kind)
    return g


def run_damage(case, ctx):
    ops, links, d, kind = case
    log = build(ops, 4, 2, False, links)
    if log is None:
        return 'not applicable'
    page = log.first + d
    if page not in log.pages:
        return 'not applicable'
    b = bytearray(log.page_bytes(page))
    if kind == 'torn':
        b[1022:1024] = b'\x77\x77'
    elif kind == 'sig':
        b[0:4] = b'RCRX'
    elif kind in ('CHKD', 'BAAD'):
        b[0:4] = kind.encode()
    else:
        b = b'\x00' * lfs.PAGE
    damaged = (page,) if kind not in ('CHKD', 'BAAD') else ()     # Only marked by the file system checker.
    anchors = [log.records[0].lsn] + lfs.page_anchors(log, damaged) + [log.records[-1].lsn]
    must = lfs.reachable(log, anchors, damaged)
    return compare(log, laid(log, log.restart_page(clients = [(log.records[0].lsn, 0)]), case, replace = {page: bytes(b)}), damaged, must, ctx)


def gen_v2(n):
    def g():
        for version in ((2, 0), (3, 0)):
            for k in range(1, n + 1):
                for s in itertools.product('smFfNX', repeat = k):
                    for start in (0, 2):
                        yield (version, ''.join(s), start)
    return g


def run_v2(case, ctx):
    version, ops, start = case
    log = build(ops, 3, start, True, 'none', version)
    if log is None:
        return 'not applicable'
    oldest = log.intact()[0].lsn
    must = lfs.reachable(log, [oldest])
    return compare(log, laid(log, log.restart_page(clients = [(oldest, 0)]), case), (), must, ctx)


def gen_long(n):
    """Several laps around the log with the same kind of record."""
    def g():
        for op in itertools.product('smFfhgnNeXc', repeat = 2):
            for count in range(2, n + 1):
                for start in (0, 2):
                    for seq in (1, 5, 255):
                        yield (''.join(op), count, start, seq)
    return g


def run_long(case, ctx):
    op, count, start, seq = case
    log = build((op * count)[:count], 3, start, True, 'none', seq = seq)
    if log is None:
        return 'not applicable'
    whole = log.intact()
    must = lfs.reachable(log, [whole[0].lsn])
    equal(len(must), len(whole), 'model: the live records are contiguous')
    return compare(log, laid(log, log.restart_page(clients = [(whole[0].lsn, 0)]), case), (), must, ctx)


def gen_clients(n):
    def g():
        for k in range(2, n + 1):
            for s in itertools.product('smFN', repeat = k):
                for start in (0, 2):
                    for clients in (2, 3):
                        yield (''.join(s), start, clients)
    return g


def run_clients(case, ctx):
    """Records of several clients in one log."""
    ops, start, clients = case
    log = build(ops, 3, start, True, 'none', clients = clients)
    if log is None:
        return 'not applicable'
    whole = log.intact()
    must = lfs.reachable(log, [whole[0].lsn])
    return compare(log, laid(log, log.restart_page(clients = [(whole[0].lsn, 0)] * clients), case), (), must, ctx)


def gen_restart(n):
    def g():
        for k in range(1, n + 1):
            for s in itertools.product('smFN', repeat = k):
                for field in range(5):
                    for target in range(k):
                        for where in ('client', 'current', 'header'):
                            for odd in (0, 1, 2, 3) if k < 3 else (0,):
                                yield (''.join(s), field, target, where, odd)
    return g


def run_restart(case, ctx):
    """What a client restart record points to is found, together with everything after it."""
    ops, field, target, where, odd = case
    log = build(ops, 5, 0, False, 'none')
    if log is None or log.cur != log.first and target != 0 and False:
        return 'not applicable'
    lsns = [0] * 5
    lsns[field] = log.records[target].lsn
    # Other restart records, which are too short, before and after the one.
    short = [log.append(b'\x01' * 56, type = 2, close = True)] if odd & 1 else []
    r = log.append(lfs.client_restart(1, 0, *lsns), type = 2, close = True)
    if odd & 2:
        short += [log.append(b'\x01' * 16, type = 2) for _ in range(3)]
    whole = log.intact()
    if log.records[target] not in whole or r not in whole:
        return 'not applicable'
    page = log.restart_page(current = r.lsn if where == 'current' else 0, clients = [(0, r.lsn if where == 'client' else 0)])
    must = lfs.reachable(log, [r.lsn] + lfs.page_anchors(log), late = [log.records[target].lsn])
    for x in short:
        must.pop(x.lsn, None)
    return compare(log, laid(log, page, case), (), must, ctx)


def gen_restart_links(n):
    def g():
        for k in range(2, n + 1):
            for s in itertools.product('smFN', repeat = k):
                for t in range(1, k):
                    for u in range(t):
                        for kind in ('prev', 'undo', 'two'):
                            for field in (0, 1, 4):
                                yield (''.join(s), t, u, kind, field)
    return g


def run_restart_links(case, ctx):
    """What the records a client restart record points to have links to is found, too."""
    ops, t, u, kind, field = case
    log = lfs.Log((1, 1), 5, 0, 5, False)
    for i, op in enumerate(ops):
        n = data_size(op, log.left)
        if n is None:
            return 'not applicable'
        prev = undo = 0
        if i == t:
            if kind != 'undo':
                prev = log.records[u].lsn
            if kind != 'prev':
                undo = log.records[u if kind == 'undo' else 0].lsn
        log.append(payload(i, n), prev = prev, undo = undo)
    lsns = [0] * 5
    lsns[field] = log.records[t].lsn
    r = log.append(lfs.client_restart(1, 0, *lsns), type = 2, close = True)
    whole = log.intact()
    if len(whole) != len(log.records):
        return 'not applicable'
    must = lfs.reachable(log, [r.lsn] + lfs.page_anchors(log), late = [log.records[t].lsn])
    return compare(log, laid(log, log.restart_page(current = 0, clients = [(0, r.lsn)]), case), (), must, ctx)


def gen_restart_span():
    for ops in itertools.product('smFfhg', repeat = 2):
        for op in OPS:
            for after in ('', 's', 'N'):
                for start in (0, 2):
                    for version in ((1, 1), (2, 0)):
                        yield (''.join(ops), op, after, start, version)


def run_restart_span(case, ctx):
    """Client restart records of any length, which may span several pages."""
    ops, op, after, start, version = case
    log = build(ops, 4, start, False, 'none', version)
    n = log and data_size(op, log.left)
    if n is None:
        return 'not applicable'
    n = max(n, 64)
    r = log.append(lfs.client_restart(1, 0) + PATTERN[:n - 112] if n > 112 else lfs.client_restart(1, 0, length = n), type = 2, close = op == 'c')
    for i, o in enumerate(after):
        k = data_size(o, log.left)
        if k is None:
            return 'not applicable'
        log.append(payload(9 + i, k))
    whole = log.intact()
    if len(whole) != len(log.records):
        return 'not applicable'
    must = lfs.reachable(log, [whole[0].lsn])
    return compare(log, laid(log, log.restart_page(clients = [(whole[0].lsn, r.lsn)]), case), (), must, ctx)


def gen_headers(n):
    def g():
        for hdr in (48, 56, 64, 88):
            for data in (64, 72, 128):
                for k in range(1, n + 1):
                    for s in itertools.product(OPS, repeat = k):
                        for start in (0, 2):
                            yield (hdr, data, ''.join(s), start)
    return g


def run_headers(case, ctx):
    hdr, data, ops, start = case
    log = build(ops, 3, start, True, 'none', log = lfs.Log((1, 1), 3, start, 5, True, hdr = hdr, data = data))
    if log is None:
        return 'not applicable'
    whole = log.intact()
    must = lfs.reachable(log, [whole[0].lsn])
    return compare(log, laid(log, log.restart_page(clients = [(whole[0].lsn, 0)]), case), (), must, ctx)


def gen_lsn():
    for bits in range(4, 64):
        yield bits


def run_lsn(case, ctx):
    """LSNs encode a sequence number and an 8-byte aligned file offset, without loss."""
    log = lfs.Log((1, 1), 3)
    log.append(payload(0, 40))
    p = LogFile.LogFileParser(ntfs.Image(log.image(log.restart_page(bits = case))))
    width = 64 - case
    pages = [1, 2, 3, 4, 5, 15, 16, 255, 256, 4095, 65535, 1 << 20]
    for page in pages:
        for off in (0, 8, 16, 64, 72, 4080, 4088):
            if (page * 4096 + off) >> 3 >= 1 << width:
                continue
            for seq in (0, 1, 2, 5, (1 << case) - 1, 1 << (case - 1)):
                lsn = ((page * 4096 + off) >> 3) | (seq << width)
                ctx.op(3)
                equal(p.offset_to_lsn(page, off, seq), lsn, 'LSN of page {}, offset {}, sequence number {}'.format(page, off, seq))
                equal(p.lsn_to_offset(lsn), (page, off), 'position of LSN {:#x}'.format(lsn))
                equal(p.lsn_to_seqnum(lsn), seq, 'sequence number of LSN {:#x}'.format(lsn))
    return case


def gen_other():
    for size in list(range(8, 120, 8)):
        for type in (1, 2, 3, 0):
            yield (size, type)


def run_other(case, ctx):
    """A record that cannot be decoded (too short, or of an unknown type) hides no other record."""
    size, rtype = case
    log = lfs.Log((1, 1), 3, 0)
    log.append(payload(0, 64))
    odd = log.append(bytes(range(1, 5)) * (size // 4), type = rtype)
    log.append(payload(2, 64))
    log.append(payload(3, 64))
    log.append(payload(4, 64))
    log.append(payload(5, 64), close = True)
    must = {r.lsn: r for r in log.records if r is not odd}
    image = ntfs.Image(log.image(log.restart_page(clients = [(log.records[0].lsn, 0)])))
    ctx.op()
    got = [x.lsn for x in LogFile.LogFileParser(image).parse_ntfs_records()]
    ok = (rtype == 1 and size >= 32) or (rtype == 2 and size >= 64)
    equal(got, sorted(list(must) + ([odd.lsn] if ok else [])), 'reported records')
    return got


# Where every field of a structure is: (getter, offset, format).
RESTART = [('get_chkdsk_lsn', 8, '<Q'), ('get_system_page_size', 16, '<L'), ('get_log_page_size', 20, '<L'), ('get_restart_offset', 24, '<H'), ('get_minor_version', 26, '<H'), ('get_major_version', 28, '<H')]
AREA = [('get_current_lsn', 0, '<Q'), ('get_log_clients', 8, '<H'), ('get_client_free_list', 10, '<H'), ('get_client_in_use_list', 12, '<H'), ('get_flags', 14, '<H'), ('get_sequence_number_bits', 16, '<L'),
        ('get_restart_area_length', 20, '<H'), ('get_client_array_offset', 22, '<H'), ('get_file_size', 24, '<q'), ('get_last_lsn_data_length', 32, '<L'), ('get_record_header_length', 36, '<H'),
        ('get_log_page_data_offset', 38, '<H'), ('get_revision_number', 40, '<L')]
CLIENT = [('get_oldest_lsn', 0, '<Q'), ('get_client_restart_lsn', 8, '<Q'), ('get_prev_client', 16, '<H'), ('get_next_client', 18, '<H'), ('get_sequence_number', 20, '<H'), ('get_client_name_length', 28, '<L')]
RCRD = [('get_last_lsn', 8, '<Q'), ('get_file_offset_11', 8, '<q'), ('get_flags', 16, '<L'), ('get_page_count', 20, '<H'), ('get_page_position', 22, '<H'), ('get_next_record_offset', 24, '<H'), ('get_last_end_lsn', 32, '<Q'), ('get_file_offset_2x', 60, '<L')]
HEADER = [('get_this_lsn', 0, '<Q'), ('get_client_previous_lsn', 8, '<Q'), ('get_client_undo_next_lsn', 16, '<Q'), ('get_client_data_length', 24, '<L'), ('get_client_id', 28, '<L'), ('get_record_type', 32, '<L'),
          ('get_transaction_id', 36, '<L'), ('get_flags', 40, '<H')]
BYTES = (0, 1, 2, 7, 0x10, 0x40, 0x7F, 0x80, 0xFF)


def gen_fields():
    for i in range(30):
        for v in BYTES:
            yield ('page', i, v)
    for i in range(44):
        for v in BYTES:
            yield ('area', i, v)
    for k in range(3):
        for i in range(32):
            for v in BYTES:
                yield ('client', k, i, v)
    for n in range(0, 130, 2):
        yield ('name', n)
    yield ('name', 'surrogate')
    for i in list(range(8, 40)) + list(range(60, 64)):
        for v in BYTES:
            yield ('rcrd', i, v)
    for hdr in (48, 64):
        for off in (64, 72, 512, 4048):
            for i in range(48):
                for v in BYTES:
                    yield ('header', hdr, off, i, v)


def run_fields(case, ctx):
    """Every field of the pages and headers is the one stored."""
    import struct
    log = lfs.Log((1, 1), 3, 0)
    log.append(payload(0, 40))
    kind = case[0]
    if kind in ('rcrd', 'header'):
        b = bytearray(PATTERN[:lfs.PAGE])
        if kind == 'rcrd':
            b = bytearray(log.pages[log.first])
            b[8:40] = bytes(range(0x21, 0x41))
            b[60:64] = b'\x51\x52\x53\x54'
            b[case[1]] = case[2]
        else:
            b[case[2] + case[3]] = case[4]
        b[0:8] = struct.pack('<4sHH', b'RCRD', 40, 9)
        b[40:58] = b'\x00' * 18
        page = LogFile.LogRecordPage(ntfs.protect(bytearray(b), 3), 4, 64)
        if kind == 'rcrd':
            for name, off, fmt in RCRD:
                if name == 'get_file_offset_2x':
                    continue
                ctx.op()
                equal(getattr(page, name)(), struct.unpack_from(fmt, b, off)[0], name)
            return 'page'
        hdr, off = case[1:3]
        if off + hdr > lfs.PAGE:
            return 'outside'
        h = page.get_log_record_at_offset(off, hdr)
        for name, o, fmt in HEADER:
            ctx.op()
            equal(getattr(h, name)(), struct.unpack_from(fmt, b, off + o)[0], name)
        return 'header'
    raw = bytearray(ntfs.unprotect(log.restart_page(clients = [(0x1112131415161718, 0x2122232425262728), (3, 4), (5, 6)])))
    at = 64 + 48
    if kind == 'page':
        raw[case[1]] = case[2]
    elif kind == 'area':
        raw[64 + case[1]] = case[2]
    elif kind == 'client':
        raw[at + 160 * case[1] + case[2]] = case[3]
    want_name = 'NTFS'
    if kind == 'name':
        name = 'abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ!#'
        if case[1] == 'surrogate':
            raw[at + 28:at + 32] = struct.pack('<L', 6)
            raw[at + 32:at + 38] = b'a\x00\x00\xd8b\x00'
            want_name = None
        else:
            raw[at + 28:at + 32] = struct.pack('<L', case[1])
            raw[at + 32:at + 160] = name.encode('utf-16le')
            want_name = name[:case[1] // 2]
    if kind == 'page' and case[1] < 8:
        return 'protection'
    try:
        page = LogFile.RestartPage(ntfs.protect(bytearray(raw), 9))
        area = page.get_restart_area()
        clients = list(area.clients())
    except (LogFile.LogFileException, NotImplementedError):
        def index(o):
            return struct.unpack_from('<H', raw, o)[0] in (0, 1, 2, 0xFFFF)
        free = kind == 'name' or (kind == 'page' and 8 <= case[1] < 16)
        if kind == 'client' and case[2] < 28:
            free = index(at + 160 * case[1] + 16) and index(at + 160 * case[1] + 18)
        if kind == 'area' and (case[1] < 8 or case[1] in (10, 11, 12, 13) or 32 <= case[1] < 36 or case[1] >= 40):
            free = index(64 + 10) and index(64 + 12)
        check(not free, 'a restart page is rejected for {}', case)
        return 'rejected'
    at = struct.unpack_from('<H', raw, 24)[0]
    for obj, where, fields in [(page, 0, RESTART), (area, at, AREA)] + [(c, at + struct.unpack_from('<H', raw, at + 22)[0] + 160 * k, CLIENT) for k, c in enumerate(clients)]:
        for name, off, fmt in fields:
            ctx.op()
            equal(getattr(obj, name)(), struct.unpack_from(fmt, raw, where + off)[0], name)
    equal(len(clients), struct.unpack_from('<H', raw, at + 8)[0], 'number of clients')
    if kind == 'name':
        got = clients[0].get_client_name()
        if want_name is None:
            check(got.startswith('a') and got.endswith('b'), 'the name is {!r}', got)
        else:
            equal(got, want_name, 'name of the client')
    return 'restart'


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('fields', gen_fields, run_fields, 'every byte of the restart page, restart area, client records, record page and record headers x 9 values, all getters; client name lengths'),
        Group('lsn', gen_lsn, run_lsn, 'every sequence number width x positions and sequence numbers at boundaries'),
        Group('other', gen_other, run_other, 'undecodable records: 14 lengths x 4 types'),
        Group('restart', gen_restart(4 if th else 3), run_restart, 'client restart records: all sequences of <=3 records x 5 table pointers x all targets x 3 anchors; too short ones around'),
        Group('restart-links', gen_restart_links(4), run_restart_links, 'client restart records pointing to a record with links: all sequences of <=4 records over 4 lengths x targets x linked records x 3 kinds of links x 3 pointers'),
        Group('restart-span', gen_restart_span, run_restart_span, 'client restart records of 11 lengths and placements behind all pairs of records, 3 followers x 2 start pages x 2 versions'),
        Group('headers', gen_headers(4 if th else 3), run_headers, '4 lengths of a record header x 3 positions of the data in a page x all sequences of <={} records over 11 placements x 2 start pages'.format(4 if th else 3)),
        Group('clients', gen_clients(6 if th else 5), run_clients, '2 and 3 clients, all sequences of <={} records over 4 lengths'.format(6 if th else 5)),
        Group('v2', gen_v2(4 if th else 3), run_v2, 'versions 2.0 and 3.0: all sequences of <={} records over 6 placements x 2 start pages'.format(4 if th else 3)),
        Group('long', gen_long(24 if th else 12), run_long, 'alternating pairs of 11 placements repeated up to {} records (several laps) x 2 start pages x 3 sequence numbers'.format(24 if th else 12)),
        Group('anchors', gen_anchor(5 if th else 4), run_anchor, 'all sequences of <={} records over 6 placements, 5 kinds of links, without a restart pointer or with one to the last record'.format(5 if th else 4)),
        Group('damage', gen_damage(5 if th else 4), run_damage, 'all sequences of <={} records over 7 placements x each damaged page x 5 kinds of damage x 2 kinds of links'.format(5 if th else 4)),
        Group('placements', gen_place(5 if th else 4), run_place, 'all sequences of <={} records over {} placements x {} log configurations (start page, residue, links)'.format(5 if th else 4, len(OPS), len(CONFIGS))),
    ]
