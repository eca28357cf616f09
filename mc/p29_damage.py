"""P29: damage in evidence is contained."""

import collections
import dis
import itertools
import struct

from dfir_ntfs import MFT, Attributes, LogFile, PartitionTable, BootSector, ShadowCopy, USN, MoveTable, WSL

from . import cli, core, exfat, fat, lfs, ntfs, vss
from . import p05_paths as paths
from . import p09_usn as usn
from . import p16_partitions as part
from . import p17_movetable as move
from . import p26_reports as p26
from . import p27_mount as p27
from . import p30_logreports as p30
from . import p31_fatreports as p31
from .core import Group, Violation, equal, check

ID = 'P29'
ASSUMPTIONS = ['one byte is damaged at a time (the neighbourhoods of other faults are those of P02, P10, P11, P15, P16, P19-P22 and P30)',
               'documented errors: the exceptions of the package, and ValueError and NotImplementedError raised by a raise statement of the package',
               'which information is reported for the damaged structure itself is not specified here, except where the reports follow from the bytes (change journal)',
               'a damaged reference to a base record can add attributes to another record']


def documented(e):
    if type(e).__module__.startswith('dfir_ntfs'):
        return True
    if type(e) in (ValueError, NotImplementedError):
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        code = tb.tb_frame.f_code
        if code.co_filename.startswith(core.REPO):
            op = code.co_code[tb.tb_lasti]
            return dis.opname[op] in ('RAISE_VARARGS', 'RERAISE')
    return False


def run_tool(tool, args, files, what):
    """Run a program; return the outcome (None after a documented error)."""
    r = cli.run(tool, args, files)
    if r.error is not None:
        if not documented(r.error):
            import traceback
            raise Violation('{}: {}'.format(what, ''.join(traceback.format_exception(r.error))[-1800:]))
        return None
    return r


def values(b, th):
    if th:
        return [x for x in range(256) if x != b]
    return sorted({0, 1, 0x7f, 0x80, 0xff, b ^ 1, b ^ 0x10, (b + 8) & 255} - {b})


def many(th):
    return list(range(256)) if th else sorted(set(range(0, 25)) | set(range(32, 256, 8)) | {0x31, 0x42, 0x7f, 0x81, 0xfe, 0xff})


# The file table.

def table(which):
    """(slots, records of the extension), see P26."""
    if which == 'plain':
        return ((('dir', (('R', 'own', 1),), ('si', 'ir')), ('file', ((0, 'own', 1), ('R', 'DOS~1', 2)), ('si', 'd5', 'a1', 'oid1', 'ea', 'dn')), ('file', (('R', 'own', 1),), ('si2', 'a2', 'd0')), ('delfile', ((0, 'own', 1),), ('si', 'dn'))), False)
    if which == 'slack':
        return ((('dir', (('R', 'own', 1),), ('si', 'irbad', 'slk')), ('file', (('R', 'own', 1),), ('si48', 'ea2')), ('deldir', (('R', 'own', 1),), ('ir',)), ('file', ((0, 'own', 1),), ('si',))), False)
    return ((('dir', (('R', 'own', 1),), ('si', 'ir')), ('file', (('R', 'own', 1),), ('si', 'd5', 'a1', 'ea')), ('file', ((0, 'own', 1),), ('si',))), True)


_TABLES = {}


def mft(which):
    if which not in _TABLES:
        slots, child = table(which)
        data = p26.build(slots, child)
        _TABLES[which] = (slots, child, data)
    return _TABLES[which]


def dependent(slots, child, record):
    """Slots whose rows can depend on a record."""
    n = len(slots)
    k = record - p26.BASE
    if k < 0:
        return set(range(n)) if record == 5 else set()
    if k >= n:
        k = k - n                # The extension record of this slot.
    out = {k}
    for _ in range(n):
        for i, (state, names, feats) in enumerate(slots):
            if any(p in out for p, t, ns in names) or (set(feats) & {'slk', 'slkp'} and 0 in out):
                out.add(i)
    return out


def gen_mft(th):
    def gen():
        for which in ('plain', 'slack', 'child'):
            slots, child, data = mft(which)
            for pos in range(len(data)):
                q = pos % 1024
                if pos < p26.BASE * 1024 and (which != 'plain' or pos // 1024 not in (0, 3, 5)):
                    continue
                b = data[pos]
                rest = data[pos:pos // 1024 * 1024 + 1024]
                if not any(rest) and q % (64 if not th else 4):
                    continue            # The unused part of a record.
                yield which, pos
    return gen


def run_mft(th):
    def run(case, ctx):
        which, pos = case
        slots, child, data = mft(which)
        record = pos // 1024
        touched = dependent(slots, child, record)
        refs = {str(ntfs.ref(p26.BASE + i, paths.STATES[slots[i][0]][1])) for i in range(len(slots)) if i not in touched}
        want = collections.Counter(tuple(r) for r in p26.expected(slots) if r[0] == 'File record' and r[1] in refs)
        system = collections.Counter(tuple(r) for n, r in enumerate(p26.system_rows()) if n != record)
        base_field = 32 <= pos % 1024 < 40
        for x in values(data[pos], th):
            img = data[:pos] + bytes([x]) + data[pos + 1:]
            ctx.op()
            if record < p26.BASE:
                # A record every file table has to have: an error is reported, or the other records are.
                r = run_tool('ntfs_parser', ['--mft', 'MFT', 'OUT'], {'MFT': img}, 'byte {} of record {} is {:#x}'.format(pos % 1024, record, x))
                if r is None:
                    continue
            else:
                r = cli.run('ntfs_parser', ['--mft', 'MFT', 'OUT'], {'MFT': img})
            got = collections.Counter(tuple(r) for r in cli.rows(r)[1:])
            if base_field:
                continue
            missing = (want + system) - got
            if missing:
                raise Violation('byte {} of record {} is {:#x}: rows of other records are not reported: {}'.format(pos % 1024, record, x, list(missing.elements())[:3]))
        return len(want)
    return run


# Everything that can be asked of a damaged record.

def ask(obj, depth = 0):
    """Call every getter without arguments."""
    for name in dir(obj):
        if not (name.startswith('get_') or name.startswith('is_') or name in ('attributes', 'entries', 'items', 'find_first_item', 'index_entries', 'slack', 'file_names', 'print_information')):
            continue
        f = getattr(obj, name)
        if not callable(f):
            continue
        code = getattr(f, '__code__', None)
        if code is None or code.co_argcount - len(f.__defaults__ or ()) > 1:
            continue
        try:
            v = f()
            if hasattr(v, '__next__'):
                v = list(itertools.islice(v, 2000))
        except Exception as e:
            if not documented(e):
                raise
            continue
        if depth < 3:
            for y in (v if isinstance(v, (list, tuple)) else [v]):
                if type(y).__module__.startswith('dfir_ntfs') and not isinstance(y, tuple):
                    ask(y, depth + 1)


def walk_record(buf):
    """All methods of a file record and of its attributes."""
    n = 0
    try:
        frs = MFT.FileRecordSegment(buf)
    except Exception as e:
        if not documented(e):
            raise
        return -1
    ask_header(frs)
    try:
        for attr in frs.attributes():
            n += 1
            ask(attr)
            if type(attr) is MFT.AttributeRecordResident:
                try:
                    v = attr.value_decoded()
                except Exception as e:
                    if not documented(e):
                        raise
                else:
                    if type(v).__module__.startswith('dfir_ntfs'):
                        ask(v)
            else:
                try:
                    list(itertools.islice(attr.mapping_pairs.items() if hasattr(attr, 'mapping_pairs') and hasattr(attr.mapping_pairs, 'items') else [], 100))
                except Exception as e:
                    if not documented(e):
                        raise
    except Exception as e:
        if not documented(e):
            raise
    return n


def ask_header(frs):
    for name in dir(frs):
        if name.startswith('get_') or name.startswith('is_'):
            f = getattr(frs, name)
            code = getattr(f, '__code__', None)
            if code is None or code.co_argcount - len(f.__defaults__ or ()) > 1:
                continue
            try:
                f()
            except Exception as e:
                if not documented(e):
                    raise


def record_bytes():
    """Records with every kind of attribute."""
    sd = struct.pack('<BBHLLLL', 1, 0, 0x8004, 0, 0, 0, 20) + struct.pack('<BBHHH', 2, 0, 8, 0, 0)
    reparse = struct.pack('<LHH', 0xA0000003, 12, 0) + struct.pack('<HHHH', 0, 2, 4, 0) + b'a\x00b\x00'
    ents = [ntfs.index_entry(ntfs.ref(90, 2), ntfs.v_file_name(ntfs.ref(5, 5), 'child', c = 5)), ntfs.index_entry(0, b'', 2)]
    al = ntfs.v_attr_list([(0x10, None, 0, ntfs.ref(7, 1), 0), (0x80, 'ads', 3, ntfs.ref(8, 1), 1)])
    one = [ntfs.attr_resident(0x10, ntfs.v_standard_information(**p26.stamps(1))), ntfs.attr_resident(0x20, al), ntfs.attr_resident(0x30, ntfs.v_file_name(ntfs.ref(5, 5), 'name', 3)),
           ntfs.attr_resident(0x40, p26.guid1().bytes_le + b'\x01' * 48), ntfs.attr_resident(0x50, sd), ntfs.attr_resident(0x60, 'label'.encode('utf-16le')), ntfs.attr_resident(0x70, ntfs.v_volume_information()),
           ntfs.attr_resident(0x80, b'data', name = 'ads')]
    two = [ntfs.attr_resident(0x90, ntfs.index_root(ents), name = '$I30'), ntfs.attr_nonresident(0xA0, ntfs.mp_encode([(10, 4), (None, 2), (99, 1)]), 0, 6, 28672, name = '$I30'), ntfs.attr_resident(0xB0, b'\x07' * 8, name = '$I30'),
           ntfs.attr_resident(0xC0, reparse), ntfs.attr_resident(0xE0, p26.ea_list([(b'LXATTRB', p26.lx(1), 0, 4), (b'LXXATTR', b'\x00\x00\x01\x00' + struct.pack('<LHB', 0, 3, 4) + b'user' + b'val', 0, 4)])),
           ntfs.attr_resident(0x100, b'\x05' * 16, name = '$EFS')]
    return [ntfs.frs_raw(one, number = 7), ntfs.frs_raw(two, number = 8, flags = 3)]


def gen_records(th):
    def gen():
        for k, b in enumerate(record_bytes()):
            for pos in range(len(b)):
                if not any(b[pos:]) and pos % 16:
                    continue
                yield k, pos
    return gen


def run_records(th):
    recs = record_bytes()

    def run(case, ctx):
        k, pos = case
        b = recs[k]
        n = 0
        for x in many(th):
            d = bytearray(b)
            d[pos] = x
            n += walk_record(ntfs.protect(bytes(d)))
            ctx.op()
        return n
    return run


class File(object):
    """Like a file (offsets which do not fit are refused), but small."""

    def __init__(self, data):
        self.data, self.pos = data, 0

    def seek(self, off, whence = 0):
        p = {0: 0, 1: self.pos, 2: len(self.data)}[whence] + off
        if p < 0:
            raise OSError(22, 'Invalid argument')
        if p >= 1 << 63:
            raise OverflowError('Python int too large to convert to C long')
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def read(self, n = None):
        if n is None or n < 0:
            n = len(self.data)
        if n >= 1 << 63:
            raise OverflowError('Python int too large to convert to C ssize_t')
        b = self.data[self.pos:self.pos + n]
        self.pos += len(b)
        return b

    def close(self):
        pass


# Index buffers.

def index_bytes():
    fn = lambda nm, i: ntfs.v_file_name(ntfs.ref(5, 5), nm, 1, **p26.stamps(i))
    raw = [ntfs.index_entry(ntfs.ref(40, 1), fn('first', 1)), ntfs.index_entry(ntfs.ref(41, 1), fn('second', 5), 1, 3), ntfs.index_entry(0, b'', 3, 4)]
    return ntfs.index_buffer_raw(raw, slack = b'\x00' * 8 + fn('old', 9) + b'\x00' * 6 + fn('older', 13))


def gen_index(th):
    def gen():
        b = index_bytes()
        for pos in range(len(b)):
            if not any(b[pos:]) and pos % 64:
                continue
            yield pos
    return gen


class Stream(File):
    file_size = property(lambda self: len(self.data))


def run_index(pos, ctx, th = True):
    b = index_bytes()
    n = 0
    for x in many(th):
        d = bytearray(b)
        d[pos] = x
        ctx.op()
        try:
            ia = Attributes.IndexAllocation(Stream(ntfs.protect(bytes(d))))
            for ib in itertools.islice(ia.index_buffers(), 10):
                ask(ib)
                for e in itertools.islice(ib.index_entries(), 5000):
                    n += 1
                    ask(e)
                    if e.get_attribute() and len(e.get_attribute()) >= 66:
                        try:
                            ask(Attributes.FileName(e.get_attribute()))
                        except Exception as e:
                            if not documented(e):
                                raise
            for y in MFT.SlackSpace(ia.get_slack()).carve(True):
                n += 1
                if not isinstance(y, str):
                    ask(y)
        except Exception as e:
            if not documented(e):
                raise
    return n


def gen_indx(th):
    def gen():
        img = indx_image()
        for lcn, length in ((40, 12), (4, p26.BASE + 2)):
            for pos in range(lcn * p26.CS, (lcn + length) * p26.CS):
                if any(img[pos:pos + 24]) and (pos >= 40 * p26.CS or pos >= (4 + p26.BASE) * p26.CS):
                    yield pos
        for pos in range(0, 512):
            yield pos
    return gen


_INDX = {}
TREE = (('dir', (('R', 'own', 1),)), ('dir', ((0, 'own', 1),)))
DIRS = ((('own', 'slack', 'other'), 'two'), (('own',), 'one'))


def indx_image():
    if 'i' not in _INDX:
        _INDX['i'] = bytes(p26.volume(TREE, DIRS, 0))
        _INDX['w'] = collections.Counter(map(tuple, p26.expected_indx(TREE, DIRS)))
        _INDX['w1'] = collections.Counter(map(tuple, p26.expected_indx(TREE, (((), 'one'), DIRS[1]))))
    return _INDX['i']


def run_indx(th):
    def run(pos, ctx):
        img = indx_image()
        for x in values(img[pos], th):
            d = img[:pos] + bytes([x]) + img[pos + 1:]
            ctx.op()
            r = run_tool('ntfs_parser', ['--indx', 'IMG', '0', 'OUT'], {'IMG': d}, 'byte {} of the volume is {:#x}'.format(pos, x))
            if pos >= 40 * p26.CS:
                # An index block of the first directory: the blocks of the other one are not affected.
                check(r is not None, 'byte {} of an index block is {:#x}: no report', pos, x)
                got = collections.Counter(map(tuple, cli.rows(r)[1:]))
                if pos < 80 * p26.CS and _INDX['w1'] - got:
                    raise Violation('byte {} of an index block is {:#x}: rows of another directory are not reported: {}'.format(pos, x, list((_INDX['w1'] - got).elements())[:3]))
        return None
    return run


# Volumes: boot sectors and the first records.

def gen_volume(th):
    def gen():
        img = indx_image()
        for pos in range(512):
            yield pos
        for pos in range(4 * p26.CS, 5 * p26.CS):
            if any(img[pos:5 * p26.CS]):
                yield pos
    return gen


def run_volume(th):
    def run(pos, ctx):
        img = indx_image()
        n = 0
        for x in range(256) if th or pos < 512 else values(img[pos], False):
            d = img[:pos] + bytes([x]) + img[pos + 1:]
            ctx.op()
            try:
                fs = MFT.FileSystemParser(File(d), 0)
                fs.seek(0)
                fs.read(16384)
                fs.seek(0)
                m = MFT.MasterFileTableParser(fs)
                for r in itertools.islice(m.file_records(), 1000):
                    n += 1
            except Exception as e:
                if not documented(e):
                    raise
            try:
                bs = BootSector.BootSector(d[:512])
                ask(bs)
            except Exception as e:
                if not documented(e):
                    raise
        return n
    return run


# Positions of data runs which do not fit into a file.

def gen_positions(th):
    def gen():
        for k in range(20, 64):
            for cs in (512, 4096, 65536, 2097152):
                for d in (-1, 0, 1):
                    yield k, cs, d
    return gen


def run_positions(case, ctx):
    k, cs, d = case
    n = 0
    for runs in ([((1 << k) + d, 4)], [(0, 1), ((1 << k) + d, 3)]):
        ff = MFT.FragmentedFile(File(b'\x11' * 4096), 512, 512, runs, 2048)
        ff.cluster_size = cs
        ctx.op()
        try:
            ff.seek(len(runs) * cs - cs)
            ff.file_size = 4 * cs
            n += len(ff.read(10))
        except Exception as e:
            if not documented(e):
                raise
    return n


# The log file.

_LOG = {}


def log_image(kind):
    if kind not in _LOG:
        log = lfs.Log(version = {'v1': (1, 1), 'v2': (2, 0)}[kind], pages = 2)
        for op in (2, 5, 7, 9, 8, 0x0e, 0x13, 0x1c, 0x1d, 0x1e):
            log.append(lfs.client_record(b'\x11' * 24, redo_op = op, undo_op = 7, undo = b'\x22' * 8, target = 24, lcns = (4,)), close = op == 8)
        log.append(lfs.client_restart(), type = 2, close = True)
        _LOG[kind] = (log, log.image())
    return _LOG[kind]


def gen_log(th):
    def gen():
        for kind in ('v1', 'v2'):
            log, img = log_image(kind)
            for pos in range(len(img)):
                rest = img[pos:pos + 40]
                if not any(rest) or not any(x != 0xff for x in rest):
                    continue
                yield kind, pos
    return gen


def run_log(th):
    def run(case, ctx):
        kind, pos = case
        log, img = log_image(kind)
        n = 0
        for x in values(img[pos], th):
            d = img[:pos] + bytes([x]) + img[pos + 1:]
            ctx.op()
            r = run_tool('ntfs_parser', ['--log', 'MFT', 'LOG', 'OUT'], {'MFT': p30.TABLE, 'LOG': d}, 'byte {} of the log is {:#x}'.format(pos, x))
            if r is not None:
                n += r.written.count(b'---')
        return n
    return run


# The change journal: what is reported follows from the bytes.

JOURNAL = ['2file', '3dir', 'zero', '4file', '2del', '3orphan']


def gen_journal(th):
    def gen():
        yield from range(sum(len(p30.JITEMS[k]) for k in JOURNAL))
    return gen


def run_journal(th):
    def run(pos, ctx):
        buf = b''.join(p30.JITEMS[k] for k in JOURNAL)
        for x in values(buf[pos], th):
            d = buf[:pos] + bytes([x]) + buf[pos + 1:]
            want = [p30.usn_row(b) for _, b in usn.reference(d)]
            ctx.op()
            got = cli.rows(cli.run('ntfs_parser', ['--usn', 'MFT', 'J', 'OUT'], {'MFT': p30.TABLE, 'J': d}))[1:]
            equal(len(got), len(want), 'number of rows')
            for g, w in zip(got, want):
                equal(g, w, 'row')
        return len(want)
    return run


# The tracking log.

def move_table():
    return move.header_sector(512) + move.sector_bytes(512, [move.entry_bytes(i) for i in range(4)], 0, 4)


def gen_move(th):
    def gen():
        yield from range(len(move_table()))
    return gen


def run_move(th):
    def run(pos, ctx):
        data = move_table()
        whole = cli.run('ntfs_parser', ['--move', 'LOG', 'OUT'], {'LOG': data}).written.split(b'\n\n---\n\n')
        n = 0
        for x in range(256) if th else values(data[pos], False):
            d = data[:pos] + bytes([x]) + data[pos + 1:]
            ctx.op()
            r = run_tool('ntfs_parser', ['--move', 'LOG', 'OUT'], {'LOG': d}, 'byte {} of the move table is {:#x}'.format(pos, x))
            if r is None:
                # (An entry of another kind is not supported, see P17.)
                check(pos < 512 or 8 <= (pos - 512) % 124 < 12, 'byte {} of the move table is {:#x}: no report', pos, x)
                continue
            got = r.written.split(b'\n\n---\n\n')
            k = (pos - 512) // 124 if pos >= 512 else None
            if k is not None and k < 4:
                for i in range(4):
                    if i != k and whole[1 + i] not in got:
                        raise Violation('byte {} of entry {} is {:#x}: entry {} is not reported'.format((pos - 512) % 124, k, x, i))
            n += len(got)
        return n
    return run


# FAT and exFAT volumes.

def fat_volume(kind):
    if kind == 'exfat':
        v = p31.ex_volume(exfat.file_set('a name', cluster = 20, size = 600), exfat.file_set('inner', size = 3) + exfat.file_set('deleted', used = False))
        return v
    sub = fat.short(b'INNER   TXT', size = 5, cluster = 6) + b''.join(fat.long_entries('A long name.txt', b'ALONGN~1TXT')) + fat.short(b'ALONGN~1TXT', size = 7)
    return p31.volume(kind, fat.short(b'A       TXT', cluster = 7, size = 600) + fat.short(b'LABEL      ', attr = 8), sub)


_FAT = {}


def fat_image(kind):
    if kind not in _FAT:
        v = fat_volume(kind)
        img = p31.content(v.image())
        r = cli.run('fat_parser', ['IMG', '0', 'OUT'], {'IMG': img})
        if kind == 'exfat':
            base = v.heap * v.bps
            places = [(0, 512), (11 * 512, 11 * 512 + 4), (12 * 512, 12 * 512 + 120), (v.fatoff * v.bps, v.fatoff * v.bps + 48), (base, base + 8), (base + 3 * 512, base + 4 * 512), (base + 4 * 512, base + 5 * 512)]
        else:
            places = [(0, 512), (v.rsvd * v.bps, v.rsvd * v.bps + 48), (v.root_off, v.root_off + 128), (v.data_off, v.data_off + (128 if kind == 32 else 0)), (v.data_off + 3 * 512, v.data_off + 3 * 512 + 320)]
        _FAT[kind] = (v, img, cli.rows(r)[1:], places)
    return _FAT[kind]


def gen_fat(th):
    def gen():
        for kind in (12, 32, 'exfat') + ((16,) if th else ()):
            for a, b in fat_image(kind)[3]:
                for pos in range(a, b):
                    yield kind, pos
    return gen


def run_fat(th):
    def run(case, ctx):
        kind, pos = case
        v, img, rows, places = fat_image(kind)
        n = 0
        for x in range(256) if th else values(img[pos], False):
            d = img[:pos] + bytes([x]) + img[pos + 1:]
            ctx.op()
            r = run_tool('fat_parser', ['IMG', '0', 'OUT'], {'IMG': d}, 'byte {} of the volume is {:#x}'.format(pos, x))
            if r is None:
                n -= 1
                continue
            got = cli.rows(r)[1:]
            n += len(got)
            if places[-1][0] <= pos < places[-1][1]:
                # The subdirectory: the entries of the root directory are not affected.
                # (Which of several volume labels is marked as such is decided by P31.)
                found = [[y.replace(' (Volume Label)', '') for y in row] for row in got]
                for row in rows:
                    if row[2].count('/') <= 1 and [y.replace(' (Volume Label)', '') for y in row] not in found:
                        raise Violation('byte {} of a subdirectory is {:#x}: {} is not reported'.format(pos - places[-1][0], x, row))
        return n
    return run


# Shadow copies: the list and the data of a mounted one.

def gen_shadow(th):
    def gen():
        m, images, whole, size, (vol, store) = p27.files(1, 0, False)
        for n, d in sorted(vol.items()):
            if n == 0:
                for pos in list(range(0, 24)) + list(range(7680, 7680 + 128)):
                    yield n, pos
            elif d[:16] == vss.GUID:
                for pos in range(0, len(d)):
                    if pos < 48 or any(d[pos:pos + 12]):
                        yield n, pos
    return gen


def run_shadow(th):
    def run(case, ctx):
        n, pos = case
        m, images, whole, size, (vol, store) = p27.files(1, 0, False)
        b = vol[n]
        k = 0
        for x in values(b[pos], th):
            v = dict(vol)
            v[n] = b[:pos] + bytes([x]) + b[pos + 1:]
            img = vss.Image(v, (max(vol) + 1) * vss.BLOCK)
            ctx.op()
            try:
                p = ShadowCopy.ShadowParser(img)
                for sc in p.shadows():
                    str(sc.timestamp)
                    k += 1
            except Exception as e:
                if not documented(e):
                    raise
                continue
            for i in range(3):
                try:
                    p.select_shadow(10 + i)
                    p.seek(0)
                    p.read(p27.SCENARIOS[1][2])
                except Exception as e:
                    if not documented(e):
                        raise
        return k
    return run


def groups(tier):
    th = tier == 'thorough'
    v = 'all 255 other values' if th else 'up to 8 other values'
    return [
        Group('mft', gen_mft(th), run_mft(th), 'three file tables, every used byte of every record, {}: the report never fails and has all rows of other records'.format(v)),
        Group('records', gen_records(th), run_records(th), 'two file records with every kind of attribute, every byte before the protection is applied, {} values: every method of the record, its attributes and their values'.format(len(many(th)))),
        Group('index', gen_index(th), lambda case, ctx: run_index(case, ctx, th), 'an index buffer, every byte before the protection is applied, {} values: entries and slack'.format(len(many(th)))),
        Group('indx', gen_indx(th), run_indx(th), 'a volume with two directories, every used byte of the index blocks, the records and the boot sector, {}: the index report'.format(v)),
        Group('volume', gen_volume(th), run_volume(th), 'every byte of the boot sector (all values) and of the first file record: opening the volume and reading all file records'),
        Group('positions', gen_positions(th), run_positions, 'data runs at 2**k - 1, 2**k and 2**k + 1 for every k, 4 cluster sizes'),
        Group('log', gen_log(th), run_log(th), 'two log files, every used byte, {}: the log report'.format(v)),
        Group('journal', gen_journal(th), run_journal(th), 'six change journal records, every byte, {}: the report follows from the bytes'.format(v)),
        Group('move', gen_move(th), run_move(th), 'a tracking log, every byte, {}: the report has all other entries'.format(v)),
        Group('fat', gen_fat(th), run_fat(th), 'FAT12, FAT32 and exFAT volumes, every byte of boot sectors, tables and directories, {}'.format(v)),
        Group('shadow', gen_shadow(th), run_shadow(th), 'shadow copies, every used byte of the metadata, {}: the list and the data'.format(v)),
    ]
