"""P19: FAT directory entries and long names are decoded exactly."""

import itertools
import struct

from dfir_ntfs.addons import FAT

from . import fat
from .core import Group, Violation, equal, check

ID = 'P19'
ASSUMPTIONS = ['short and long entries as in FATGEN 1.03, with the rules documented in FAT.py: deleted short entries take the preceding run of long entries without validation; entries after an empty one have an unknown status; a run of long entries without its short entry is reported as an orphan (if not empty)',
               'buffers are a whole number of 512-byte sectors']


def observe(buf, fat32, encoding, short_only, ctx):
    ctx.op()
    out = []
    for e in FAT.DirectoryEntries(buf, fat32).entries(encoding, short_only):
        if type(e).__name__ == 'FileEntry':
            out.append(('file', dict(e._asdict())))
        else:
            out.append(('orphan', e.long_name_partial))
    return out


def compare(buf, ctx, fat32 = True, encoding = 'ascii', short_only = False):
    want = fat.parse_directory(buf, fat32, encoding, short_only)
    got = observe(buf, fat32, encoding, short_only, ctx)
    equal(got, want, 'entries')
    return tuple((k, v if k == 'orphan' else (v['is_deleted'], v['short_name'], v['long_name'])) for k, v in got)


NA, NB = b'FILEA~1 TXT', b'FILEB   DAT'
CA, CB = fat.checksum(NA), fat.checksum(NB)
assert CA != CB
PA = fat.long_parts('The long name of A.txt')  # 2 parts
assert len(PA) == 2
PB = fat.long_parts('b long.dat')
P3 = fat.long_parts('three parts of a name for A, longer')
assert len(P3) == 3


def sym():
    s = {}
    s['A'] = fat.short(NA, cluster = 0x30005, size = 1234)
    s['B'] = fat.short(NB, cluster = 6, size = 0xffffffff, nt = 0x18)
    s['dA'] = b'\xe5' + fat.short(NA, cluster = 7)[1:]
    s['nA'] = b'\x00' + fat.short(NA, cluster = 8)[1:]
    s['dir'] = fat.short(NA, attr = 0x10, cluster = 9)
    s['Z'] = b'\x00' * 32
    s['E5'] = b'\xe5' * 32
    s['V'] = fat.short(b'my label  x', attr = 8)
    s['bad'] = fat.short(b'FILEA~1 tXT')
    s['VD'] = fat.short(NA, attr = 0x18)
    s['A2/2'] = fat.long_entry(0x42, PA[1], CA)
    s['A1'] = fat.long_entry(0x01, PA[0], CA)
    s['A2'] = fat.long_entry(0x02, P3[1], CA)
    s['A3/3'] = fat.long_entry(0x43, P3[2], CA)
    s['B1/1'] = fat.long_entry(0x41, PB[0], CB)
    s['A1/1'] = fat.long_entry(0x41, PA[1], CA)
    s['B1'] = fat.long_entry(0x01, PB[0], CB)
    s['xA2'] = fat.long_entry(0xe5, PA[1], CA)
    s['xA1'] = fat.long_entry(0xe5, PA[0], CA)
    s['xB1'] = fat.long_entry(0xe5, PB[0], CB)
    s['0A1'] = fat.long_entry(0x00, PA[0], CA)
    s['empty'] = fat.long_entry(0x41, b'\x00\x00' + b'\xff' * 24, CA)
    s['xempty'] = fat.long_entry(0xe5, b'\x00\x00' + b'\xff' * 24, CA)
    s['kind'] = fat.long_entry(0x41, PA[0], CA, kind = 1)
    s['none'] = fat.long_entry(0x40, PA[0], CA)
    s['21'] = fat.long_entry(0x55, PA[0], CA)
    return s


SYM = sym()
FULL = list(SYM)
CORE = ['A', 'B', 'dA', 'Z', 'A2/2', 'A1', 'B1/1', 'A3/3', 'A2', 'xA1', 'xB1', 'empty', 'bad']


def gen_seq(th):
    def gen():
        for n in range(0, 4):
            for seq in itertools.product(FULL, repeat = n):
                yield seq, 'start'
                yield seq, 'end'
        for n in (4, 5) if th else (4,):
            for seq in itertools.product(FULL if n == 4 and th else CORE, repeat = n):
                yield seq, 'start'
                if n == 4:
                    yield seq, 'end'
    return gen


def run_seq(case, ctx):
    seq, where = case
    body = b''.join(SYM[x] for x in seq)
    pad = 512 - len(body)
    # At the end of the buffer, or at its start followed by empty entries.
    buf = body + b'\x00' * pad if where == 'start' else b'\xe5' * pad + body
    r = compare(buf, ctx)
    if len(seq) <= 3:
        compare(buf, ctx, False)
        compare(buf, ctx, True, 'ascii', True)
    return r


def gen_names(th):
    def gen():
        for pos in (0, 1, 7, 8, 10):
            for c in range(256):
                for nt in (0, 8, 16, 24):
                    for attr in (0x20, 0x08, 0x10):
                        yield pos, c, nt, attr
        for n in range(0, 9):
            for x in range(0, 4):
                for nt in (0, 8, 16, 24):
                    yield 'len', (n, x), nt, 0x20
        some = (0, 5, 0x20, 0x2e, 0x2f, 0x41, 0x61, 0x7e, 0x80, 0xe5, 0xff)
        for head in itertools.product(some, repeat = 3):
            for attr in (0x20, 0x10):
                yield 'head', head, 0, attr
        for c in range(256):
            yield 'rest', c, 0, 0x10
    return gen


def run_names(case, ctx):
    pos, c, nt, attr = case
    out = []
    if pos == 'len':
        name = b'ABCDEFGH'[:c[0]].ljust(8) + b'XYZ'[:c[1]].ljust(3)
    elif pos == 'head':
        name = bytes(c).ljust(11)
    elif pos == 'rest':
        # Almost a dot or two.
        out = []
        for k in range(1, 11):
            for dots in (b'.', b'..'):
                name = bytearray(dots.ljust(11))
                name[k] = c
                out.append(compare(fat.short(bytes(name), attr = attr).ljust(512, b'\x00'), ctx))
        return tuple(out)
    else:
        name = bytearray(b'AB CD  EXT ' if attr != 8 else b'Label  lb  ')
        name[pos] = c
        name = bytes(name)
    for encoding in ('ascii', 'cp437', 'cp866', 'shift_jis'):
        csum = fat.checksum(name)
        for pre in (b'', fat.long_entry(0x41, PB[0], csum)):
            if pre and attr == 8:
                continue  # Long volume labels are documented as not supported.
            buf = (pre + fat.short(name, attr = attr, nt = nt)).ljust(512, b'\x00')
            out.append(compare(buf, ctx, True, encoding))
    return tuple(out[:2])


def gen_long(th):
    def gen():
        for n in range(1, 261):
            for kind in 'ascii', 'cyr', 'emoji':
                if kind == 'emoji' and n % 2:
                    continue
                for dele in (False, True):
                    yield n, kind, dele
        for n in range(1, 16):
            for head in ('', ' ', '.', '  ', '. '):
                for tail in ('', ' ', '.', '  ', '..', ' .', '. '):
                    for dele in (False, True):
                        yield n, (head, tail), dele
        for a in ' ./\\:*?"<>|\t\x01\x7f\xa0\u3000\ufeff\ufffe':
            for b in ' .aZ':
                for c in ' .aZ':
                    for w in (a + b + c, b + a + c, b + c + a):
                        yield 0, w, False
    return gen


def run_long(case, ctx):
    n, kind, dele = case
    if kind == 'ascii':
        name = ''.join(chr(97 + i % 26) for i in range(n))
    elif isinstance(kind, tuple):
        name = kind[0] + 'ab cd.ef  gh..ijkl'[:n] + kind[1]
    elif n == 0:
        name = kind
    elif kind == 'cyr':
        name = ''.join(chr(0x430 + i % 32) for i in range(n))
    else:
        name = ''.join(chr(0x1f600 + i % 60) for i in range(n // 2))
    ents = fat.long_entries(name, NA)
    check(len(ents) <= 20, 'too long')
    s = SYM['dA'] if dele else SYM['A']
    if dele:
        ents = [b'\xe5' + e[1:] for e in ents]
    buf = b''.join(ents) + s
    buf = buf.ljust((len(buf) + 511) // 512 * 512, b'\x00')
    got = observe(buf, True, 'ascii', False, ctx)
    equal(len(got), 1, 'number of entries')
    equal(got[0][1]['long_name'], name[:255], 'long name')
    # Without any one of the pieces there is no such name (but the entry itself is there).
    if not dele:
        for k in range(len(ents)):
            b2 = b''.join(ents[:k] + ents[k + 1:]) + s
            b2 = b2.ljust((len(b2) + 511) // 512 * 512, b'\x00')
            r = compare(b2, ctx)
            files = [x for x in r if x[0] == 'file']
            equal(len(files), 1, 'number of files')
            check(files[0][1][2] is None, 'an incomplete long name is used')
            # A wrong checksum in one of the pieces.
            e = bytearray(ents[k])
            e[13] ^= 0x10
            b3 = b''.join(ents[:k] + [bytes(e)] + ents[k + 1:]) + s
            r = compare(b3.ljust((len(b3) + 511) // 512 * 512, b'\x00'), ctx)
            files = [x for x in r if x[0] == 'file']
            check(files[0][1][2] is None, 'a long name with a wrong checksum is used')
            if n > 60:
                break
    return n, kind


def gen_fields(th):
    def gen():
        for pos in range(32):
            for v in range(256):
                yield 'short', pos, v
        for pos in (0, 11, 12, 13, 26, 27, 1, 2, 14, 25, 28, 31):
            for v in range(256):
                yield 'long', pos, v
                yield 'long2', pos, v
    return gen


def run_fields(case, ctx):
    kind, pos, v = case
    ents = [bytearray(x) for x in fat.long_entries('The long name of A.txt', NA)] + [bytearray(fat.short(NA, cluster = 0x12345678, size = 0x89abcdef, tenth = 150))]
    ents[{'short': 2, 'long': 0, 'long2': 1}[kind]][pos] = v
    buf = b''.join(bytes(x) for x in ents) + SYM['B']
    buf = buf.ljust(512, b'\x00')
    r = compare(buf, ctx, True, 'cp437')
    compare(buf, ctx, False, 'ascii')
    compare(buf, ctx, True, 'ascii', True)
    return r


def gen_times(th):
    def gen():
        for d in list(range(0, 65536, 1 if th else 7)) + [0, 0x21, 0xffff]:
            yield 'date', d
        for t in list(range(0, 65536, 1 if th else 7)) + [0xbf7d, 0xbf7e, 0xffff]:
            yield 'time', t
        for t in range(256):
            yield 'tenth', t
    return gen


def run_times(case, ctx):
    kind, v = case
    if kind == 'date':
        es = [fat.short(NA, cdate = v), fat.short(NA, mdate = v), fat.short(NA, adate = v)]
    elif kind == 'time':
        es = [fat.short(NA, ctime = v, tenth = 199), fat.short(NA, mtime = v)]
    else:
        es = [fat.short(NA, tenth = v), fat.short(NA, tenth = v, ctime = 0xbf7d, cdate = 0xff9f)]
    want = fat.parse_directory(b''.join(es).ljust(512, b'\x00'), True)
    got = observe(b''.join(es).ljust(512, b'\x00'), True, 'ascii', False, ctx)
    equal(got, want, 'timestamps')
    return v


def gen_attr(th):
    def gen():
        for attr in range(256):
            for nt in range(256):
                yield attr, nt
    return gen


def run_attr(case, ctx):
    attr, nt = case
    buf = (fat.long_entry(0x41, PB[0], CB) + fat.short(NB, attr = attr, nt = nt, cluster = 3, size = 5) + SYM['A']).ljust(512, b'\x00')
    r = compare(buf, ctx)
    names = [n for b, n in ((1, 'READ_ONLY'), (2, 'HIDDEN'), (4, 'SYSTEM'), (8, 'VOLUME_ID'), (16, 'DIRECTORY'), (32, 'ARCHIVE')) if attr & b]
    equal(FAT.ResolveFileAttributes(attr), ' | '.join(names), 'attributes')
    enc = nt & 1 > 0
    equal(FAT.ParseNTByte(nt), (nt & 8 > 0, nt & 16 > 0, enc, enc and nt & 2 > 0, (nt >> 5) * 2 + (nt >> 2 & 1) if enc else None), 'NT byte')
    return r


def gen_orders(th):
    def gen():
        for a in range(256):
            for b in range(256):
                yield a, b
    return gen


def run_orders(case, ctx):
    """All order bytes of two consecutive long entries."""
    a, b = case
    out = []
    for s in ('A', 'dA'):
        buf = (fat.long_entry(a, PA[1], CA) + fat.long_entry(b, PA[0], CA) + SYM[s] + SYM['B']).ljust(512, b'\x00')
        out.append(compare(buf, ctx))
    return tuple(out)


def gen_wiped(th):
    def gen():
        for fill in (0x00, 0xe5, 0x2e, 0xff):
            for what in ('A', 'dA', 'dir', 'A1/1', 'xA1', 'V'):
                for k in range(33):
                    yield fill, what, k, 'head'
                    yield fill, what, k, 'tail'
    return gen


def run_wiped(case, ctx):
    """Entries overwritten in part."""
    fill, what, k, where = case
    raw = SYM[what]
    raw = bytes([fill]) * k + raw[k:] if where == 'head' else raw[:k] + bytes([fill]) * (32 - k)
    out = []
    for pre in (b'', SYM['B'], SYM['xA1'] + SYM['xB1']):
        out.append(compare((pre + raw + SYM['B'] + SYM['A']).ljust(512, b'\x00'), ctx, True, 'cp437'))
    return tuple(out)


def gen_sizes(th):
    def gen():
        for n in list(range(0, 1100, 32)) + [511, 513, 1024, 1025, 4096]:
            yield n
    return gen


def run_sizes(n, ctx):
    body = (SYM['A'] * 200)[:n]
    try:
        got = observe(body, True, 'ascii', False, ctx)
    except FAT.DirectoryEntriesException:
        got = None
    if n < 512 or n % 512:
        equal(got, None, 'a buffer of a wrong size')
    else:
        equal(len(got), n // 32, 'number of entries')
    return n


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('sequences', gen_seq(th), run_seq, 'every sequence of up to 3 entries over 26 kinds and of 4 (thorough 5) over 13, at the start and at the end of a directory; also FAT12/16 and short names only'),
        Group('orders', gen_orders(th), run_orders, 'every pair of order bytes of two long entries before an allocated and a deleted short entry'),
        Group('attributes', gen_attr(th), run_attr, 'every attribute byte x every NT byte'),
        Group('fields', gen_fields(th), run_fields, 'every value of every byte of a short entry and of 12 bytes of its long entries'),
        Group('short-names', gen_names(th), run_names, 'every character at 5 positions x case flags x attributes x 4 encodings; all base and extension lengths; every three first bytes over 11 values, near variants of the dot entries'),
        Group('long-names', gen_long(th), run_long, 'every length of a long name up to 260 units in 3 alphabets, complete, with each piece missing or with a wrong checksum; spaces, dots and special characters around'),
        Group('times', gen_times(th), run_times, 'every date and time value (quick: every 7th)'),
        Group('wiped', gen_wiped(th), run_wiped, '6 kinds of entries overwritten from the start or to the end with 4 values'),
        Group('sizes', gen_sizes(th), run_sizes, 'buffer sizes'),
    ]
