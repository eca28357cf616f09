"""P32: what a parser answers depends on the bytes it reads only, and not on what was asked before."""

import datetime
import inspect
import itertools
import io
import os
import pickle
import signal
import struct
import traceback
import uuid
import zlib

from dfir_ntfs import BootSector, LogFile, MFT, MoveTable, PartitionTable, ShadowCopy, USN
from dfir_ntfs.addons import FAT, exFAT

from . import exfat
from . import fat
from . import lfs
from . import ntfs
from . import p09_usn as usn
from . import p12_logtargets as p12
from . import p14_shadowreads as p14
from . import p16_partitions as parts
from . import p17_movetable as move
from . import vss
from .core import Group, Violation, equal, check, short

ID = 'P32'
ASSUMPTIONS = ['the bytes of the image do not change during a session',
               'two iterations over the records of one log file do not overlap (a log file being iterated works on a recovered copy); an iteration which is closed early is in scope',
               'calls come from one thread']

PREFIXES = ('get_', 'is_', 'calculate_')
NAMES = ('attributes', 'slack', 'entries', 'index_entries', 'value_decoded', 'data_decoded', 'extents', 'carve', 'clients', 'items', 'log_entries', 'type_str')
FIELDS = ('type_code', 'name', 'value', 'lowest_vcn', 'highest_vcn', 'file_size', 'data_runs', 'lsn', 'transaction_id')
PLAIN = (int, str, bytes, float, type(None), datetime.date, datetime.time, datetime.timedelta, uuid.UUID)
_METHODS = {}


def methods(cls):
    """The public questions without arguments that objects of a class answer."""
    if cls not in _METHODS:
        out = []
        for n in dir(cls):
            if n.startswith(PREFIXES) or n in NAMES:
                f = getattr(cls, n)
                if callable(f):
                    ps = list(inspect.signature(f).parameters.values())[1:]
                    if all(p.default is not p.empty for p in ps):
                        out.append(n)
        _METHODS[cls] = out
    return _METHODS[cls]


def canon(x, depth = 0):
    """A value which says everything that can be seen of an answer."""
    if isinstance(x, PLAIN):
        return x
    if isinstance(x, bytearray):
        return bytes(x)
    if isinstance(x, memoryview):
        return bytes(x)
    if isinstance(x, dict):
        return ('dict',) + tuple(sorted((repr(k), canon(v, depth)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted(repr(i) for i in x))
    if isinstance(x, BaseException):
        return ('raised', type(x).__name__)
    if isinstance(x, (tuple, list)) or hasattr(x, '__next__'):
        out = []
        try:
            for i in x:
                out.append(canon(i, depth))
        except Exception as e:
            out.append(canon(e))
        return tuple(out)
    if not type(x).__module__.startswith('dfir_ntfs'):
        return repr(type(x))
    if depth > 6:
        return type(x).__name__
    out = [type(x).__name__]
    for n in FIELDS:
        if n in x.__dict__:
            out.append((n, canon(x.__dict__[n], depth + 1)))
    for n in methods(type(x)):
        try:
            v = canon(getattr(x, n)(), depth + 1)
        except Exception as e:
            v = canon(e)
        out.append((n, v))
    if isinstance(x, LogFile.LogRecordPage):
        out.append(('data', bytes(x.buf)))
    if isinstance(x, MFT.FileRecord):
        try:
            out.append(('merged', canon(x.attributes(True), depth + 1)))
        except Exception as e:
            out.append(('merged', canon(e)))
    return tuple(out)


def ask(call, obj):
    """The answer, which is an exception when one is raised."""
    try:
        return call(obj)
    except Exception as e:
        return e


# The subjects: an image (two variants of the same shape), how to open it, what to ask and what to iterate over.

class Subject(object):
    def __init__(self, image, make, calls, iters, overlap = True, pair = True):
        self.image, self.make, self.calls, self.iters, self.overlap, self.pair = image, make, calls, iters, overlap, pair


SUBJECTS = {}


def mft_records(v):
    n, r = ntfs, ntfs.ref

    def names(*items):
        return [n.attr_resident(0x30, n.v_file_name(p, t, ns)) for p, t, ns in items]

    recs = [n.system_frs(i) for i in range(6)]
    node = [n.index_entry(r(15, 7), n.v_file_name(r(6, 1), 'sub' + v)), n.index_entry(r(7, 1), n.v_file_name(r(6, 1), 'one' + v)), n.index_entry(0, b'', 2)]
    recs.append(n.frs(names((r(5, 5), 'dir' + v, 1)) + [n.attr_resident(0x40, bytes(range(16, 80))), n.attr_resident(0x90, n.index_root(node, slack = n.v_file_name(r(6, 1), 'past' + v)), name = '$I30')], number = 6, flags = 3))
    # A file in three records, with two names and a split stream.
    recs.append(n.frs([n.attr_resident(0x20, n.v_attr_list([(0x30, None, 0, r(7, 1), 0), (0x30, None, 0, r(8, 1), 0), (0x80, None, 0, r(8, 1), 1), (0x80, None, 4, r(9, 1), 1)]))] + names((r(6, 1), 'one' + v, 1)), number = 7))
    recs.append(n.frs(names((r(5, 5), 'two' + v, 0)) + [n.attr_nonresident(0x80, n.mp_encode([(20, 4)]), 0, 3, 6 * 512, instance = 1)], number = 8, base = r(7, 1)))
    recs.append(n.frs([n.attr_nonresident(0x80, n.mp_encode([(40 + ord(v), 2)]), 4, 5, 0, instance = 1)], number = 9, base = r(7, 1)))
    # A deleted file with an extension record, a file with a stale parent, a bad record.
    recs.append(n.frs(names((r(6, 1), 'DEL~1', 2), (r(6, 1), 'deleted' + v, 1)) + [n.attr_resident(0x80, b'gone' + v.encode())], number = 10, seq = 4, flags = 0,
                      slack = n.attr_resident(0x30, n.v_file_name(r(6, 1), 'slack' + v, 1, c = 130000000000000000, m = 130000000000000000, e = 130000000000000000, a = 130000000000000000))))
    recs.append(n.frs([n.attr_resident(0x80, b'ext' + v.encode(), name = 'ads')], number = 11, seq = 2, base = r(10, 3)))
    recs.append(n.frs(names((r(6, 9), 'lost' + v, 1)), number = 12, seq = 5))
    recs.append(b'BAAD' + b'\x00' * 1020)
    recs.append(n.frs(names((r(6, 1), 'sub' + v, 3)), number = 14, seq = 2, flags = 3))
    recs.append(n.frs(names((r(14, 2), 'deep' + v, 3)) + [n.attr_resident(0x10, n.v_standard_information(c = 130000000000000000 + ord(v)))], number = 15, seq = 7))
    return recs


def table(v):
    return b''.join(mft_records(v))


def by_number(*args):
    return lambda p: p.get_file_record_by_number(*args)


def by_path(v, *args):
    return lambda p: p.get_file_record_by_path(*args)


def paths(i, attrs = False):
    return lambda p: p.build_full_paths(p.get_file_record_by_number(i), attrs)


def first_pass(p):
    p.execute_first_pass()
    return p.statistics


MFT_CALLS = {
    'rec6': by_number(6), 'rec7': by_number(7), 'rec7-seq': by_number(7, 1), 'rec7-wrong': by_number(7, 2), 'child': by_number(9), 'child-not': by_number(9, None, False), 'rec10': by_number(10), 'rec10-seq': by_number(10, 3),
    'bad': by_number(13), 'outside': by_number(99), 'frs8': lambda p: p.get_file_record_segment_by_number(8),
    'path': by_path('', '/dirA/subA/deepA'), 'path-case': by_path('', '/DIRA/SUBA/DEEPA', True), 'path-none': by_path('', '/nothing'), 'path-bad': by_path('', '//'),
    'paths7': paths(7), 'paths10': paths(10, True), 'paths12': paths(12), 'paths15': paths(15), 'first-pass': first_pass,
}
MFT_ITERS = {'all': lambda p: p.file_records(), 'used': lambda p: p.file_records(True)}
SUBJECTS['mft'] = Subject(lambda v: ntfs.Image(table(v)), lambda f: MFT.MasterFileTableParser(f), MFT_CALLS, MFT_ITERS)


def ntfs_volume(v):
    recs = table(v)
    boot = ntfs.boot_sector(spc = 2, mft_lcn = 4, total_sectors = 400)
    lcns = [4, 5, 6, 7, 30, 31, 32, 33, 34, 60, 61, 62, 63, 64, 65, 66]
    first = ntfs.frs([ntfs.attr_resident(0x10, ntfs.v_standard_information()), ntfs.attr_nonresident(0x80, ntfs.mp_encode([(4, 4), (30, 5), (60, 7)]), 0, 15, 16384)], number = 0)
    recs = first + recs[1024:]
    img = bytearray(200 * 1024)
    img[0:512] = boot
    for i, l in enumerate(lcns):
        img[l * 1024:l * 1024 + 1024] = recs[i * 1024:i * 1024 + 1024]
    for l in (20, 21, 22, 23, 40 + ord(v), 41 + ord(v)):
        img[l * 1024:l * 1024 + 1024] = bytes([l & 0xff, ord(v)]) * 512
    return ntfs.Image(bytes(img))


class Pair(object):
    """A parser of a volume and what is built on it."""

    def __init__(self, f):
        self.fs = MFT.FileSystemParser(f)
        self.mft = MFT.MasterFileTableParser(self.fs)
        fr = self.mft.get_file_record_by_number(7)
        self.file = MFT.FragmentedFile(f, 0, 1024, fr.get_data_runs(), 5999)
        self.other = MFT.FragmentedFile(f, 0, 1024, [(30, 2), (None, 1), (20, 1)], 4000)


def read_at(name, pos, size):
    def call(p):
        f = getattr(p, name)
        f.seek(pos)
        return (f.read(size), f.tell())
    return call


def pieces(name, pos, *sizes):
    def it(p):
        # The position belongs to the object: it is set before each read.
        f = getattr(p, name)
        at = pos
        for s in sizes:
            f.seek(at)
            d = f.read(s)
            at += len(d)
            yield d
    return it


SUBJECTS['volume'] = Subject(ntfs_volume, Pair, {
    'table': read_at('fs', 0, 16384), 'table-mid': read_at('fs', 4000, 5000), 'table-end': read_at('fs', 16000, None), 'file': read_at('file', 0, None), 'file-mid': read_at('file', 4095, 2), 'file-end': read_at('file', 9999, 5),
    'sparse': read_at('other', 2000, 1500), 'record': lambda p: p.mft.get_file_record_by_number(7), 'paths': lambda p: p.mft.build_full_paths(p.mft.get_file_record_by_number(15)), 'size': lambda p: (p.fs.seek(0, 2), p.file.seek(-3, 2), p.file.read()),
}, {'records': lambda p: p.mft.file_records(), 'pieces': pieces('file', 100, 1000, 1, 4000, 5000)})


# A directory index and an attribute list outside of the file record.

def index_volume(v):
    img = bytearray(64 * 1024)
    blocks = []
    for i in range(4):
        ents = [ntfs.index_entry(ntfs.ref(20 + i, 1), ntfs.v_file_name(ntfs.ref(6, 1), 'e%d%d%s' % (i, k, v))) for k in range(2)] + [ntfs.index_entry(0, b'', 2)]
        blocks.append(ntfs.protect(ntfs.index_buffer_raw(ents, size = 2048, vcn = 2 * i, slack = b'stale%d' % i + v.encode() * 40), 0x300 + i))
    blocks[2] = blocks[2][:-2] + b'??'
    data = b''.join(blocks)
    for k, lcn in enumerate((10, 11, 12, 30, 31, 20, 21, 22)):
        img[lcn * 1024:(lcn + 1) * 1024] = data[k * 1024:(k + 1) * 1024]
    raw = ntfs.v_attr_list([(0x30, None, 0, ntfs.ref(7, 1), 0), (0x80, 'n' * 250, 0, ntfs.ref(8, ord(v)), 0), (0x80, 'm' * 250, 4, ntfs.ref(9, 1), 1), (0xc0, 'x' * 255, 4, ntfs.ref(9, 1), 1)])
    for k, lcn in enumerate((40, 50)):
        img[lcn * 1024:(lcn + 1) * 1024] = raw[k * 1024:(k + 1) * 1024].ljust(1024, b'\xee')
    return ntfs.Image(bytes(img)), len(raw)


class Directory(object):
    def __init__(self, f):
        self.f = f
        self.index = MFT.AttributeRecordNonresident(0xa0, '$I30', ntfs.mp_encode([(10, 3), (30, 2), (20, 3)]), 0, 7, 8192)
        self.list = MFT.AttributeRecordNonresident(0x20, None, ntfs.mp_encode([(40, 1), (50, 1)]), 0, 1, index_volume('A')[1])
        self.decoded = self.index.value_decoded(f, 0, 1024)


SUBJECTS['index'] = Subject(lambda v: index_volume(v)[0], Directory, {
    'open': lambda p: list(p.index.value_decoded(p.f, 0, 1024).index_buffers()), 'buffers': lambda p: list(p.decoded.index_buffers()), 'slack': lambda p: p.decoded.get_slack(), 'list': lambda p: list(p.list.value_decoded(p.f, 0, 1024).entries()),
    'first': lambda p: list(next(p.decoded.index_buffers()).index_entries()),
}, {'buffers': lambda p: p.decoded.index_buffers()})


def journal(v):
    a = usn.v2('one' + v, usn = 0x100 + ord(v))
    b = usn.v3('two' + v, usn = 0x200, ref = (7 << 64) | ord(v))
    c = usn.v4([(1, 2), (3, ord(v))], usn = 0x300)
    d = usn.v2(v * 200, usn = 0x400)
    return ntfs.Image(a + b + b'\x00' * 4096 + c + b'\x11' * 24 + d + b'\x00' * (4096 * 6) + a + c)


SUBJECTS['journal'] = Subject(journal, lambda f: USN.ChangeJournalParser(f), {'list': lambda p: list(p.usn_records())}, {'records': lambda p: p.usn_records()})


def logfile(version, late):
    def build(v):
        log = lfs.Log(version, 3, 0)
        recs = []
        if late != 'only':
            recs.append(log.append(lfs.client_restart(1, 0, cluster = 512), type = 2, trans = 0))
        recs.append(log.append(lfs.client_record(b'redo' + v.encode() * 4, 7, 7, b'undo' + v.encode() * 4, target = 0x18, lcns = (5,), vcn = 3)))
        recs.append(log.append(lfs.client_record(open_entry(v), 0x1c, 0, ('name' + v).encode('utf-16le'), target = 0x18)))
        for i in range(3):
            recs.append(log.append(lfs.client_record(b'x' * 900, 8, 8, b'y' * 800, target = 0x18, lcns = (9, 10), vcn = 1)))
        # From here on: only in the copies.
        before = {n: log.page_bytes(n) for n in log.pages}
        if late:
            log.append(lfs.client_restart(0, 0, cluster = 1024), type = 2, trans = 0)
        for i in range(5):
            log.append(lfs.client_record(b'late' + v.encode() * (4 + 8 * i), 7, 8, target = 0x18, lcns = (6,), vcn = i))
        replace = {}
        replace.update(before)
        n = sorted(log.pages)[1]
        if version == (1, 1):
            replace[2] = log.page_bytes(n, last_lsn = n * lfs.PAGE)
            replace[3] = b'\xff' * lfs.PAGE
        else:
            replace[2] = log.page_bytes(n, fast = n * lfs.PAGE)
        return ntfs.Image(log.image(log.restart_page(recs[0].lsn, [(recs[0].lsn, recs[0].lsn)]), replace = replace))
    return build


def open_entry(v):
    """An open attribute entry (the 64-bit format) of the file table."""
    return struct.pack('<LLLLQQQ', 0xFFFFFFFF, 0, 0x80, 0, ntfs.ref(30 + ord(v), 2), 0, 0)


def take(n, it):
    """The first items of an iteration which is then closed."""
    out = list(itertools.islice(it, n))
    out = canon(out)
    it.close()
    return out


LOG_CALLS = {
    'recover': lambda p: list(p.parse_ntfs_records()), 'plain': lambda p: list(p.parse_ntfs_records(False)), 'recover-2': lambda p: take(2, p.parse_ntfs_records()), 'plain-1': lambda p: take(1, p.parse_ntfs_records(False)),
    'recover-0': lambda p: take(0, p.parse_ntfs_records()), 'page': lambda p: p.get_log_record_page_by_number(p.file_size // p.log_page_size - 3), 'pages': lambda p: list(p.log_record_pages(1)),
    'recover-6': lambda p: take(6, p.parse_ntfs_records()),
}
LOG_ITERS = {'pages': lambda p: p.log_record_pages(0)}
for _v, _n in (((1, 1), 'log11'), ((2, 0), 'log20')):
    for _l in ('', 'late', 'only'):     # Where the restart areas of the client are.
        SUBJECTS[_n + _l] = Subject(logfile(_v, _l), lambda f: LogFile.LogFileParser(f), LOG_CALLS, LOG_ITERS)


def moves(v):
    out = [move.header_sector(512, machine = b'ws-' + v.encode())]
    for s in range(3):
        out.append(move.sector_bytes(512, [move.entry_bytes(10 * s + i, 2, machine = ('m%s%d' % (v, s)).encode()) for i in range(4)], s, s + 1))
    return ntfs.Image(b''.join(out))


SUBJECTS['move'] = Subject(moves, lambda f: MoveTable.MoveTableParser(f, 512), {'sectors': lambda p: list(p.log_sectors()), 'entries': lambda p: list(p.log_entries()), 'header': lambda p: p.get_header()},
                           {'sectors': lambda p: p.log_sectors(), 'entries': lambda p: p.log_entries()})


def mbr_disk(v):
    k = ord(v)

    def rec(*entries):
        b = bytearray(512)
        for i, (t, first, n) in enumerate(entries):
            struct.pack_into('<BBBBBBBBLL', b, 446 + 16 * i, 0, 0, 0, 0, t, 0, 0, 0, first, n)
        b[510:512] = b'\x55\xaa'
        return bytes(b)
    img = bytearray(300 * 512)
    img[0:512] = rec((7, 1, k), (5, 100, 200), (0x83, 10, 5))
    img[100 * 512:101 * 512] = rec((0x83, 2, 10), (5, 50, 20))
    img[150 * 512:151 * 512] = rec((7, 3, k % 16), (0, 0, 0))
    return ntfs.Image(bytes(img))


SUBJECTS['mbr'] = Subject(mbr_disk, lambda f: PartitionTable.MBR(f, 512), {'mbr': lambda p: p.read_mbr(), 'primary': lambda p: list(p.read_mbr_partitions()), 'all': lambda p: list(p.read_ebr_partitions())}, {})


def gpt_disk(v, broken):
    """broken: the main header of the table is damaged."""
    array = b''.join(parts.entry(ord(v) + i, 'a')[0] for i in range(4)) + b'\x00' * (124 * 128)
    img = bytearray(200 * 512)
    img[446 + 4] = 0xee
    img[510:512] = b'\x55\xaa'
    img[512:1024] = parts.header(1, 199, 2, array, 128, 128) if not broken else b'\x00' * 512
    img[1024:1024 + 16384] = array
    other = b''.join(parts.entry(ord(v) + 40 + i, 'a')[0] for i in range(4)) + b'\x00' * (124 * 128)
    img[167 * 512:199 * 512] = other
    img[199 * 512:200 * 512] = parts.header(199, 1, 167, other, 128, 128)
    return ntfs.Image(bytes(img))


def gpt_all(p):
    h = p.read_gpt_header()
    return (h, p.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32))


for _b in (False, True):
    SUBJECTS['gpt-backup' if _b else 'gpt'] = Subject(lambda v, b = _b: gpt_disk(v, b), lambda f: PartitionTable.GPT(f, 512), {'header': lambda p: p.read_gpt_header(), 'all': gpt_all}, {})


def fat_volume(width):
    def build(v):
        vol = fat.Volume(width, clusters = 60 if width != 16 else 4085)
        vol.link(0, 0xff8 if width == 12 else (0xfff8 if width == 16 else 0xffffff8))
        vol.link(1, fat.TOP[width])
        top = fat.TOP[width]
        root = 2 if width == 32 else 0
        b = v.encode()
        d1 = fat.short(b'.          ', 0x10, cluster = 5) + fat.short(b'..         ', 0x10, cluster = 0) + b''.join(fat.long_entries('Long name ' + v, b'LONGNA~1   ')) + fat.short(b'LONGNA~1   ', cluster = 7, size = 900) + fat.short(b'SUB        ', 0x10, cluster = 6)
        d2 = fat.short(b'.          ', 0x10, cluster = 6) + fat.short(b'..         ', 0x10, cluster = 5) + fat.short(b'IN' + b + b'     TXT', cluster = 9, size = 3) + fat.short(b'LOOP       ', 0x10, cluster = 5)
        gone = fat.short(b'.          ', 0x10, cluster = 12) + fat.short(b'..         ', 0x10, cluster = 0) + fat.short(b'\xe5LD' + b + b'    TXT', cluster = 13, size = 3)
        top_dir = fat.short(b'LABEL ' + b + b'    ', 8) + fat.short(b'DIR        ', 0x10, cluster = 5) + fat.short(b'\xe5ELETED    ', 0x10, cluster = 12) + fat.short(b'\xe5EALLOC    ', 0x10, cluster = 14) + fat.short(b'FILE    ' + b * 3, cluster = 10, size = 700)
        orphan = fat.short(b'.          ', 0x10, cluster = 14) + fat.short(b'..         ', 0x10, cluster = 0) + fat.short(b'ORPHAN' + b + b'    ', cluster = 10, size = 3)
        if width == 32:
            vol.link(2, top)
            vol.data[2] = top_dir
        else:
            vol.root = top_dir
        for n, d, nxt in ((5, d1, top), (6, d2, top), (7, b * 512, 8), (8, b * 512, top), (10, b'F' * 512, 11), (11, b'G' * 512, top), (14, orphan, top)):
            vol.data[n] = d
            vol.link(n, nxt)
        vol.data[12] = gone
        vol.link(20, 21 + ord(v) % 2)
        vol.link(21 + ord(v) % 2, top)
        return vol.image()
    return build


FAT_CALLS = {
    'walk': lambda p: list(p.walk()), 'walk-scan': lambda p: list(p.walk('ascii', True)), 'walk-cp': lambda p: list(p.walk('cp866')), 'read': lambda p: p.read_chain(7), 'read-size': lambda p: p.read_chain(7, 900), 'read-part': lambda p: p.read_chain(7, 100),
    'chain': lambda p: (p.fat.chain(10), p.fat.chain(20)), 'chain-bad': lambda p: p.fat.chain(0xfff0), 'free': lambda p: [p.fat.is_allocated(n) for n in range(2, 25)], 'errors': lambda p: p.fat.are_hard_errors_detected(),
    'element': lambda p: [p.fat.get_element(n) for n in range(2, 25)],
}
for _w in (12, 16, 32):
    SUBJECTS['fat%d' % _w] = Subject(fat_volume(_w), lambda f: FAT.FileSystemParser(f), FAT_CALLS, {'walk': lambda p: p.walk(), 'scan': lambda p: p.walk('ascii', True)})


def exfat_volume(v):
    vol = exfat.Volume()
    vol.link(5, exfat.EOC)
    vol.link(10, 11)
    vol.link(11, exfat.EOC)
    vol.link(20, 21 + ord(v) % 2)
    vol.link(21 + ord(v) % 2, exfat.EOC)
    vol.allocate(34 + ord(v) % 2)
    vol.link(2, 3)
    vol.link(3, exfat.EOC)
    vol.bitmap_clusters = [2, 4]
    vol.allocate(2, 3, 5, 8, 9, 10, 11, 20, 21, 30)
    root = vol.root_entries() + exfat.label_entry('label' + v) + exfat.file_set('dir' + v, 0x10, 8, 512, nofat = True) + exfat.file_set('file' + v, 0x20, 10, 900) + exfat.file_set('gone' + v, 0x10, 30, 512, nofat = True, used = False)
    vol.data[5] = root
    vol.data[8] = exfat.file_set('sub' + v, 0x10, 9, 512, nofat = True) + exfat.file_set('solid' + v, 0x20, 20, 1000, nofat = True)
    vol.data[9] = exfat.file_set('deep' + v, 0x20) + exfat.file_set('loop' + v, 0x10, 8, 512, nofat = True)
    vol.data[30] = exfat.file_set('orphan' + v, 0x20, 40, 5, nofat = True, used = False)
    for n in (10, 11, 20, 21):
        vol.data[n] = v.encode() * 512
    return vol.image()


EXFAT_CALLS = {
    'walk': lambda p: list(p.walk()), 'walk-scan': lambda p: list(p.walk(True)), 'read': lambda p: p.read_chain(10), 'read-size': lambda p: p.read_chain(10, 900), 'read-solid': lambda p: p.read_chain(20, 1000, True), 'read-part': lambda p: p.read_chain(20, 100, True),
    'chain': lambda p: (p.fat.chain(10), p.fat.chain(20)), 'chain-bad': lambda p: p.fat.chain(0xfffffff0), 'element': lambda p: [p.fat.get_element(n) for n in range(2, 25)], 'bitmap': lambda p: [p.bm.is_allocated(n) for n in range(2, 42)],
}
SUBJECTS['exfat'] = Subject(exfat_volume, lambda f: exFAT.FileSystemParser(f), EXFAT_CALLS, {'walk': lambda p: p.walk(), 'scan': lambda p: p.walk(True)})


def memory(v):
    """A dump with 30 file control blocks."""
    out = b''
    for i in range(30):
        page = bytearray(4096)
        t = 130000000000000000 + i * 10 * 1024 * 997 * ord(v)
        pos = 64 + 32 * (i % 5)
        page[pos:pos + 2] = b'\x02\x07'
        struct.pack_into('<Q', page, pos + 8, ntfs.ref(i + ord(v), 1))
        struct.pack_into('<QQQQ', page, pos + 40, t, t + 10240, t + 20480, t + 30720)
        struct.pack_into('<Q', page, pos + 40 + 56, t + 40960)
        out += bytes(page)
    return ntfs.Image(out)


SUBJECTS['carver'] = Subject(memory, lambda f: MFT.MetadataCarver(f), {'list': lambda p: list(p.carve_fcb_timestamps())}, {'fcbs': lambda p: p.carve_fcb_timestamps()}, overlap = False)


# The answers of a parser which is asked once, each found in a process of its own (which has run nothing else).

_FRESH = {}


def child(job):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 20)
            try:
                data = ('ok', job())
            except BaseException:
                data = ('failed', traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(data, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        raw = f.read()
    os.waitpid(pid, 0)
    if not raw:
        raise Violation('the code did not terminate (or died) when asked once')
    kind, value = pickle.loads(raw)
    if kind != 'ok':
        raise Violation('asked once: ' + value)
    return value


def fresh(name):
    """All single answers for the two images of a subject."""
    if not _FRESH:
        for s, sub in SUBJECTS.items():
            for v in 'AB':
                for kind, table in (('call', sub.calls), ('iter', sub.iters)):
                    for c in table:
                        def job():
                            return canon(ask(table[c], sub.make(sub.image(v))))
                        _FRESH[(s, v, kind, c)] = child(job)
                    for c in sub.iters if kind == 'iter' else ():
                        a, b = _FRESH[(s, 'A', kind, c)], _FRESH.get((s, 'B', kind, c))
                        check(len(a) > 1, 'the iteration {} of {} is empty', c, s)
                        check(v == 'A' or a != b, 'the iterations {} of two images of {} do not differ', c, s)
    return _FRESH


# The sessions.

def alphabet(name, small):
    sub = SUBJECTS[name]
    calls = list(sub.calls)
    ops = [('call', c) for c in calls]
    if sub.overlap:
        ops += [('step', c) for c in sub.iters]
        ops += [('drop', c) for c in sub.iters]
    else:
        ops += [('drop', c) for c in sub.iters]
    ops += [('move', 0), ('move', 1), ('reopen',)]
    ops += [('other', c) for c in (calls[:1] + list(sub.iters)[:0])]
    if small:
        pass
    return ops


def gen(depth):
    def g():
        for n in range(1, depth + 1):
            for name in SUBJECTS:
                ops = alphabet(name, False)
                # One level less where there are many operations.
                if n == depth and len(ops) > 24 and depth > 2:
                    continue
                for seq in itertools.product(range(len(ops)), repeat = n):
                    if ops[seq[-1]][0] in ('move', 'reopen', 'drop'):
                        continue
                    yield (name,) + tuple(ops[i] for i in seq)
    return g


def run(case, ctx):
    answers = fresh(case[0])
    name, seq = case[0], case[1:]
    sub = SUBJECTS[name]
    f = sub.image('A')
    p = sub.make(f)
    other = None
    held = []
    open_iters = {}
    for k, op in enumerate(seq):
        ctx.op()
        if op[0] == 'call':
            r = ask(sub.calls[op[1]], p)
            want = answers[(name, 'A', 'call', op[1])]
            got = canon(r)
            if got != want:
                raise Violation('{}: after {}, the answer to {} is {}, and {} when it is asked first'.format(name, seq[:k], op[1], *difference(got, want)))
            if not hasattr(r, '__next__') and not isinstance(r, PLAIN):
                held.append((op[1], r, got))
        elif op[0] == 'step':
            if op[1] not in open_iters:
                open_iters[op[1]] = [sub.iters[op[1]](p), [], False]
            step(open_iters[op[1]])
        elif op[0] == 'drop':
            it = sub.iters[op[1]](p)
            try:
                next(it)
            except StopIteration:
                pass
            it.close()
        elif op[0] == 'move':
            f.seek(0 if op[1] == 0 else 777)
            f.read(3)
        elif op[0] == 'reopen':     # Another parser of the same object.
            sub.make(f)
        elif op[0] == 'other':      # A parser of another image of the same shape.
            if other is None:
                other = sub.make(sub.image('B'))
            got = canon(ask(sub.calls[op[1]], other))
            want = answers[(name, 'B', 'call', op[1])]
            if got != want:
                raise Violation('{}: after {}, the answer to {} about another image is {}, and {} when it is asked first'.format(name, seq[:k], op[1], *difference(got, want)))
    for c, state in open_iters.items():
        while not state[2]:
            step(state)
        want = answers[(name, 'A', 'iter', c)]
        got = tuple(state[1])
        if got != want:
            raise Violation('{}: the iteration {} interleaved as in {} yields {}, and {} alone'.format(name, c, seq, *difference(got, want)))
    for c, r, was in held:
        got = canon(r)
        if got != was:
            raise Violation('{}: what was returned by {} has changed at the end of {}: {} is now {}'.format(name, c, seq, *difference(was, got)))
    check(not getattr(f, 'writes', 0), 'the image was written to')
    return len(held)


# Parsers of two images of the same shape, asked in turn.

def gen_pairs():
    for name, sub in SUBJECTS.items():
        for a, b in itertools.product([('call', c) for c in sub.calls] + [('iter', c) for c in sub.iters], repeat = 2):
            yield (name, a, b)


def run_pairs(case, ctx):
    name, x, y = case
    answers = fresh(name)
    sub = SUBJECTS[name]
    ps = {v: sub.make(sub.image(v)) for v in 'AB'}
    tables = {'call': sub.calls, 'iter': sub.iters}
    for v, (kind, c) in (('B', x), ('A', y), ('B', x), ('B', y), ('A', x)):
        ctx.op()
        got, want = canon(ask(tables[kind][c], ps[v])), answers[(name, v, kind, c)]
        if got != want:
            raise Violation('{}: with two images asked in turn ({}, {}), the answer to {} about image {} is {}, and {} when it is asked first'.format(name, x, y, c, v, *difference(got, want)))
    # And two parsers made one after another, the first one being gone.
    del ps
    for v in 'BA':
        ctx.op()
        got, want = canon(ask(tables[y[0]][y[1]], sub.make(sub.image(v)))), answers[(name, v) + y]
        if got != want:
            raise Violation('{}: after another image, the answer to {} about image {} is {}, and {} when it is asked first'.format(name, y[1], v, *difference(got, want)))
    return len(answers)


def step(state):
    try:
        state[1].append(canon(next(state[0])))
    except StopIteration:
        state[2] = True
    except Exception as e:
        state[1].append(canon(e))
        state[2] = True


def difference(a, b):
    """The places where two answers differ."""
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                a, b = x, y
                break
        else:
            break
    return short(a, 200), short(b, 200)


# The questions that one returned object answers, in any order.

def objects(x, out, depth = 0):
    """All objects in an answer, by the way to them."""
    if isinstance(x, (tuple, list)) and not hasattr(x, '_fields'):
        for i in x:
            objects(i, out, depth)
    elif hasattr(x, '__next__'):
        try:
            for i in x:
                objects(i, out, depth)
        except Exception:
            pass
    elif type(x).__module__.startswith('dfir_ntfs') and methods(type(x)):
        out.append(x)
        if depth < 3:
            for n in methods(type(x)):
                if n in NAMES or n in ('get_header', 'get_footer', 'get_restart_area'):
                    r = ask(getattr(type(x), n), x)
                    objects(r, out, depth + 1)


def found(name, c):
    sub = SUBJECTS[name]
    out = []
    objects(ask(sub.calls[c], sub.make(sub.image('A'))), out)
    return out


OBJECT_CALLS = {'mft': ('rec6', 'rec7', 'rec10', 'frs8', 'paths10', 'path'), 'journal': ('list',), 'log11': ('recover', 'pages'), 'log20': ('recover',), 'move': ('sectors', 'header')}


def gen_objects():
    for name, cs in OBJECT_CALLS.items():
        for c in cs:
            kinds = {}
            for k, x in enumerate(found(name, c)):
                kinds.setdefault(type(x).__name__, []).append(k)
            for ks in kinds.values():
                for k in ks[:6]:
                    yield (name, c, k)


def run_objects(case, ctx):
    name, c, k = case
    x = found(name, c)[k]
    ms = methods(type(x))
    answers = {}
    for m in ms:
        answers[m] = canon(ask(getattr(type(x), m), found(name, c)[k]))
        ctx.op()
    for m in ms:
        # One object, asked this first, then everything, and everything again in the other order.
        x = found(name, c)[k]
        r = ask(getattr(type(x), m), x)
        if hasattr(r, '__next__'):      # A step of an iteration only.
            ask(next, r)
        for other in ms + ms[::-1]:
            ctx.op()
            got = canon(ask(getattr(type(x), other), x))
            if got != answers[other]:
                raise Violation('{} of {}: the answer to {} is {} after {}, and {} when it is asked first'.format(type(x).__name__, name, other, difference(got, answers[other])[0], m, difference(got, answers[other])[1]))
    return (type(x).__name__, len(ms))


# Two parsers of shadow copies over the same volume.

SHADOW_OPS = [('select', 0), ('select', 1), ('read', 0, 512), ('read', vss.BLOCK + 5, 2 * vss.BLOCK), ('list',), ('next', 700)]


def gen_shadow(depth):
    def g():
        for two in (False, True):
            for n in range(1, depth + 1):
                for seq in itertools.product(range(2 * len(SHADOW_OPS)), repeat = n):
                    if n > 1 and seq[0] >= len(SHADOW_OPS):     # The two are alike.
                        continue
                    yield (two,) + tuple((i // len(SHADOW_OPS),) + SHADOW_OPS[i % len(SHADOW_OPS)] for i in seq)
    return g


def run_shadow(case, ctx):
    two, seq = case[0], case[1:]
    m, vol, store, whole, given = p14.setup(0, 0, two)
    a, b = vss.Image(vol, 64 * vss.BLOCK), vss.Image(store, 80 * vss.BLOCK) if two else None
    ps = [ShadowCopy.ShadowParserTwoVolumes(a, b) if two else ShadowCopy.ShadowParser(a) for _ in range(2)]
    selected = [0, 1]
    pos = [0, 0]
    ps[0].select_shadow(10)
    ps[1].select_shadow(11)
    listed = sorted(map(tuple, ps[0].shadows()))
    for op in seq:
        ctx.op()
        k = op[0]
        p = ps[k]
        w = whole[selected[k]]
        if op[1] == 'select':
            p.select_shadow(10 + op[2])
            selected[k], pos[k] = op[2], 0
        elif op[1] == 'list':
            equal(sorted(map(tuple, p.shadows())), listed, 'shadow copies listed again')
        else:
            if op[1] == 'read':
                p.seek(op[2])
                pos[k] = op[2]
            n = op[-1]
            check(p.read(n) == w[pos[k]:pos[k] + n], 'parser {} (of two over one volume): a read after {} returns other data', k, seq)
            pos[k] += len(w[pos[k]:pos[k] + n])
    for k in range(2):
        equal(ps[k].tell(), pos[k], 'the position of parser {}'.format(k))
        ps[k].seek(0)
        check(ps[k].read() == whole[selected[k]], 'the content of the shadow copy selected in parser {} differs after {}', k, seq)
    return tuple(pos)


def groups(tier):
    q = tier == 'quick'
    d = 3 if q else 4
    return [
        Group('sessions', gen(d), run, 'sessions of up to {} operations over {} kinds of images: every question, steps of open iterations, iterations closed early, another user of the file, another parser of the same or another image'.format(d, len(SUBJECTS))),
        Group('pairs', gen_pairs, run_pairs, 'every two questions asked in turn of parsers of two images of the same shape'),
        Group('objects', gen_objects, run_objects, 'every kind of object returned (up to 6 of each): every question first, then all questions in two orders'),
        Group('shadows', gen_shadow(3 if q else 4), run_shadow, 'two parsers over one volume: all sessions of up to {} selections, reads and listings'.format(3 if q else 4)),
    ]
