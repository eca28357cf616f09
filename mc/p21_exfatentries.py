"""P21: exFAT entry sets are reported only when intact, and then exactly."""

import itertools
import struct

from dfir_ntfs.addons import exFAT

from . import exfat
from .core import Group, Violation, equal, check

ID = 'P21'
ASSUMPTIONS = ['entries and checksums as in the exFAT specification, with the rules documented in exFAT.py: deleted sets have no checksum validation; file name entries outside of a valid set are reported as orphans',
               'buffers are a whole number of 512-byte sectors']


def observe(buf, root, ctx):
    ctx.op()
    out = []
    try:
        for e in exFAT.DirectoryEntries(buf, root).entries():
            n = type(e).__name__
            if n == 'FileEntry':
                out.append(('file', dict(e._asdict())))
            elif n == 'OrphanEntry':
                out.append(('orphan', e.name_partial))
            elif n == 'VolumeLabelEntry':
                out.append(('label', e.volume_label))
            else:
                out.append(('bitmap', tuple(e)))
    except exFAT.DirectoryEntriesException:
        out.append(('error',))
    return out


def compare(buf, root, ctx):
    want = exfat.parse_directory(buf, root)
    got = observe(buf, root, ctx)
    equal(got, want, 'entries')
    return tuple((x[0], x[1]['name'] if x[0] == 'file' else x[1:]) for x in got)


NAME = 'fifteen charactX'[:15]
N1 = exfat.name_entries('Short.txt')[0]
NF = exfat.name_entries(NAME)[0]

SYM = {
    'F2': lambda: exfat.file_entry(2), 'F3': lambda: exfat.file_entry(3, attr = 0x10), 'F1': lambda: exfat.file_entry(1), 'F2x': lambda: exfat.file_entry(2, csum = 0x5aa5),
    'd2': lambda: exfat.file_entry(2, used = False, csum = 0x1111), 'd3': lambda: exfat.file_entry(3, used = False),
    'S': lambda: exfat.stream(9, 77, 1000), 'S20': lambda: exfat.stream(20, 78, 2000, nofat = True), 'dS': lambda: exfat.stream(9, 79, 3000, used = False), 'S0': lambda: exfat.stream(9, flags = 0),
    'N': lambda: N1, 'NF': lambda: NF, 'dN': lambda: b'\x41' + N1[1:], 'Nf': lambda: b'\xc1\x01' + N1[2:],
    'V': lambda: b'\xe0' + b'\x00' * 31, 'U': lambda: b'\xe2' + b'\x01' * 31, 'Z': lambda: b'\x00' * 32, 'I': lambda: b'\x80' + b'\x01' * 31,
    'L': lambda: exfat.label_entry('Label'), 'B': lambda: exfat.bitmap_entry(0, 2, 100), 'G': lambda: b'\xa0' + b'\x07' * 31, 'P': lambda: b'\xa1' + b'\x00' * 31, 'dL': lambda: b'\x03' + b'\x05' * 31,
}
CORE = ['F2', 'F3', 'F2x', 'd2', 'S', 'S20', 'dS', 'N', 'NF', 'dN', 'V', 'Z']


def build(seq):
    ents = [SYM[x]() for x in seq]
    # Right checksums for whatever follows.
    for i, x in enumerate(seq):
        if x in ('F1', 'F2', 'F3'):
            n = int(x[1])
            if i + n < len(ents):
                part = exfat.seal(ents[i:i + 1 + n])
                ents[i] = part[:32]
    return b''.join(ents)


def gen_seq(th):
    def gen():
        full = list(SYM)
        for n in range(0, 5 if th else 4):
            for seq in itertools.product(full, repeat = n):
                yield seq
        for n in (4, 5):
            for seq in itertools.product(CORE, repeat = n):
                # Keep the ones starting a set somewhere.
                if n == 5 and not th and seq[0] not in ('F2', 'F3', 'd2'):
                    continue
                yield seq
        # A set after every two entries.
        for a, b in itertools.product(full, repeat = 2):
            for tail in (('F2', 'S', 'N'), ('F3', 'S20', 'NF', 'N'), ('d2', 'dS', 'dN')):
                yield (a, b) + tail
                yield tail + (a, b)
    return gen


def run_seq(seq, ctx):
    body = build(seq)
    r = compare(body.ljust(512, b'\x00'), False, ctx)
    compare(body.ljust(512, b'\x00'), True, ctx)
    if len(seq) <= 4:
        # At the end of the buffer.
        buf = b'\xa1'.ljust(32, b'\x00') * (16 - len(seq)) + body
        compare(buf, False, ctx)
    return r


def gen_bytes(th):
    def gen():
        for used in (True, False):
            for sealed in (False, True):
                for pos in range(128):
                    for v in range(256):
                        yield used, sealed, pos, v
    return gen


def run_bytes(case, ctx):
    used, sealed, pos, v = case
    s = bytearray(exfat.file_set('Name of twenty chars', cluster = 0x11223344, size = 1 << 40, valid = 12345, used = used, reserved = 0x1234))
    check(len(s) == 128, 'bad length')
    before = bytes(s)
    s[pos] = v
    if sealed:
        s = exfat.seal([bytes(s)])
    other = exfat.file_set('Other', cluster = 9, size = 3)
    buf = (bytes(s) + other).ljust(512, b'\x00')
    r = compare(buf, False, ctx)
    if used and not sealed and bytes(s) != before and s[0] & 0x80:
        check(all(x[1] in ('Other',) for x in r if x[0] == 'file'), 'a damaged set is reported')
    check(('file', 'Other') in r or pos in (0, 1, 32, 64, 96), 'the set after the changed one is lost')
    return r


def gen_dirs(th):
    def gen():
        for used in (True, False):
            for isdir in (True, False):
                for pos in list(range(4, 32)) + list(range(33, 64)):
                    for v in (0, 1, 2, 3, 4, 7, 8, 0x10, 0x20, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff):
                        for other in (0, 0xff):
                            yield used, isdir, pos, v, other
    return gen


def run_dirs(case, ctx):
    """Fields of directories, with a second field (the high byte of the reserved fields, of the flags of the data) set or not."""
    used, isdir, pos, v, other = case
    s = bytearray(exfat.file_set('Directory name', cluster = 0x11223344, size = 1 << 16, valid = 1 << 16, used = used, attr = 0x30 if isdir else 0x20))
    for i in (6, 7, 34, 38, 39, 48, 49, 50, 51):
        if i != pos:
            s[i] = other
    s[pos] = v
    buf = (exfat.seal([bytes(s)]) + exfat.file_set('Other', cluster = 9, size = 3)).ljust(512, b'\x00')
    return compare(buf, False, ctx)


SEC = {'N': N1[:1] + b'\x00' + N1[2:], 'n': NF, 'V': b'\xe0' + b'\x00' * 31, 'A': b'\xe1\x03' + b'\x00' * 30, 'U': b'\xe2' + b'\x01' * 31, 'W': b'\xc2' + b'\x01' * 31, 'C': b'\xc3' + b'\x01' * 31, 'R': b'\xff' + b'\x01' * 31,
       'S': exfat.stream(9, 77, 1000), 'P': b'\xa2' + b'\x01' * 31, 'F': exfat.file_entry(2)}


def gen_secondary(th):
    def gen():
        for used in (True, False):
            for n in range(0, 6 if th else 5):
                for seq in itertools.product(SEC, repeat = n):
                    yield used, ''.join(seq)
    return gen


def run_secondary(case, ctx):
    """Every sequence of secondary entries after a file entry and a stream extension (with a right checksum)."""
    used, seq = case
    count = sum(9 if x == 'N' else 15 for x in seq if x in 'Nn')
    ents = [exfat.file_entry(1 + len(seq), used = used), exfat.stream(max(1, count), 77, 1000, used = used)]
    for x in seq:
        e = SEC[x]
        ents.append(e if used else bytes([e[0] & 0x7f]) + e[1:])
    raw = exfat.seal(ents) + exfat.file_set('After', cluster = 4)
    return compare(raw.ljust(512, b'\x00'), False, ctx)


def gen_names(th):
    def gen():
        for n in range(1, 256):
            for kind in ('ascii', 'cyr', 'emoji'):
                yield 'len', n, kind
        for n in range(0, 40):
            for k in range(0, 40):
                yield 'cut', n, k
        for c in list(range(1, 0x100)) + [0xd800, 0xdc00, 0xfeff, 0xfffe, 0xffff]:
            for p in (0, 1, 14, 15, 19):
                yield 'char', c, p
        for name in ('.', '..', '...', '. ', ' ', 'a.', '.a', '..a'):
            yield 'text', name, 0
        for name in ('.', '..', '/', 'a/b', 'a\x01', 'ab/'):
            for k in (1, 2, 3):
                yield 'overlong', name, k
    return gen


def run_names(case, ctx):
    what, n, kind = case
    if what == 'len':
        if kind == 'emoji':
            name = ''.join(chr(0x1f600 + i % 60) for i in range(n // 2)) + ('x' if n % 2 else '')
        else:
            name = ''.join(chr((0x61 if kind == 'ascii' else 0x430) + i % 26) for i in range(n))
        out = []
        for used in (True, False):
            s = exfat.file_set(name, used = used)
            buf = s.ljust((len(s) + 511) // 512 * 512, b'\x00')
            got = observe(buf, False, ctx)
            equal([x[1]['name'] for x in got if x[0] == 'file'], [name], 'name')
            equal(len(got), 1, 'number of entries')
            # A name length which does not fit the number of the name entries.
            for d in (-1, 1, 15, -15):
                k = n + d
                if 0 <= k <= 255:
                    b = bytearray(s)
                    b[32 + 3] = k
                    b = exfat.seal([bytes(b)])
                    compare(b.ljust((len(b) + 511) // 512 * 512, b'\x00'), False, ctx)
        return n
    if what == 'cut':
        # The stored characters and the length differ.
        name = ''.join(chr(0x61 + i % 26) for i in range(n)) or 'x'
        names = exfat.name_entries(name)
        raw = exfat.seal([exfat.file_entry(1 + len(names)), exfat.stream(kind)] + names)
    elif what == 'char':
        text = list('abcdefghijklmnopqrstu')
        text[kind] = chr(n)
        raw = exfat.file_set(''.join(text))
    elif what == 'text':
        raw = exfat.file_set(n)
    else:
        names = exfat.name_entries(n + 'zz')
        raw = exfat.seal([exfat.file_entry(1 + len(names)), exfat.stream(kind)] + names)
    return compare(raw.ljust((len(raw) + 511) // 512 * 512, b'\x00'), False, ctx)


def gen_counts(th):
    def gen():
        for count in range(256):
            for names in (1, 2, 17, 18):
                for used in (True, False):
                    yield count, names, used
    return gen


def run_counts(case, ctx):
    """The number of secondary entries; vendor entries fill the rest."""
    count, names, used = case
    ents = [exfat.file_entry(count, used = used), exfat.stream(255 if names > 2 else 15 * names, used = used)]
    ents += [bytes([0xc1 if used else 0x41, 0]) + 'abcdefghijklmno'.encode('utf-16le')] * names
    while len(ents) < count + 1:
        ents.append(bytes([0xe0 if used else 0x60]) + b'\x00' * 31)
    raw = exfat.seal(ents[:count + 1]) + b''.join(ents[count + 1:])
    raw += exfat.file_set('After', cluster = 4)
    r = compare(raw.ljust((len(raw) + 511) // 512 * 512, b'\x00'), False, ctx)
    return count, len(r)


def gen_times(th):
    def gen():
        for v in range(0, 65536, 1 if th else 5):
            yield 'date', v << 16 | 0x1234
            yield 'time', 0x52a10000 | v
        for v in range(256):
            yield 'tz', v
            yield 'ten', v
    return gen


def run_times(case, ctx):
    what, v = case
    if what in ('date', 'time'):
        kws = [{'ctime': v}, {'mtime': v}, {'atime': v}]
    elif what == 'tz':
        kws = [{'ctz': v}, {'mtz': v}, {'atz': v}]
    else:
        kws = [{'c10': v}, {'m10': v}, {'c10': v, 'ctime': exfat.stamp(2107, 12, 31, 23, 59, 58)}]
    buf = b''.join(exfat.file_set('n', **k) for k in kws)
    return hash(compare(buf.ljust(512, b'\x00'), False, ctx)) & 0xff, v


def gen_root(th):
    def gen():
        for count in range(256):
            for text in ('', 'L', 'Eleven chrs', 'Fifteen charact', 'a/b', 'a\x00b', '\x00'):
                yield 'label', count, text
        for c in list(range(0x100)) + [0x2044, 0x430, 0xfffe, 0xffff]:
            for text in (chr(c), chr(c) + 'ab', 'ab' + chr(c), 'a' + chr(c) + 'b', '\U0001f600' + chr(c)):
                yield 'label', len(text.encode('utf-16le')) // 2, text
        for n in range(5):
            for ids in itertools.product((0, 1, 2, 3, 255), repeat = min(n, 3)):
                yield 'bitmaps', n, ids
        for t in range(256):
            yield 'type', t, None
    return gen


def run_root(case, ctx):
    what, a, b = case
    if what == 'label':
        raw = exfat.label_entry(b, a)
    elif what == 'bitmaps':
        raw = b''.join(exfat.bitmap_entry((b + (0, 0))[i], 0x01020304 + i, (1 << 60) + i) for i in range(a))
    else:
        raw = bytes([a, 2]) + b'\x41\x00' * 15
    raw = exfat.file_set('before') + raw + exfat.file_set('after')
    buf = raw.ljust(512, b'\x00')
    return compare(buf, True, ctx), compare(buf, False, ctx)


def gen_orphans(th):
    def gen():
        alpha = ['N', 'NF', 'dN', 'Nf', 'S', 'F2x', 'dNF']
        for n in range(1, 6 if th else 5):
            for seq in itertools.product(alpha, repeat = n):
                yield seq
        for n in (16, 17, 18, 19, 35):
            yield ('NF',) * n
            yield ('dNF',) * n
            yield ('NF',) * n + ('N',)
    return gen


def run_orphans(seq, ctx):
    ents = [b'\x41' + NF[1:] if x == 'dNF' else SYM[x]() for x in seq]
    body = b''.join(ents)
    size = (len(body) + 511) // 512 * 512
    r = compare(body.ljust(size, b'\x00'), False, ctx)
    compare(b'\xa1'.ljust(32, b'\x00') * ((size - len(body)) // 32) + body, False, ctx)
    return r


def gen_sizes(th):
    def gen():
        for n in list(range(0, 1100, 32)) + [511, 513, 1024, 1025, 4096]:
            yield n
    return gen


def run_sizes(n, ctx):
    try:
        list(exFAT.DirectoryEntries((exfat.file_set('x') * 100)[:n]).entries())
        ok = True
    except exFAT.DirectoryEntriesException:
        ok = False
    ctx.op()
    equal(ok, n >= 512 and n % 512 == 0, 'a buffer of this size accepted')
    return n


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('sequences', gen_seq(th), run_seq, 'every sequence of up to 3 (thorough 4) entries over 23 kinds and of 4 and 5 over 12 (with right checksums for whatever follows), as root and subdirectory, at the start and end of the buffer'),
        Group('bytes', gen_bytes(th), run_bytes, 'every value of every byte of a set of 4 entries, allocated and deleted, with the old and the recomputed checksum'),
        Group('fields', gen_dirs(th), run_dirs, 'every byte of the file and stream entries of directories and files x 16 values x reserved and flag bytes set or not, allocated and deleted'),
        Group('secondary', gen_secondary(th), run_secondary, 'every sequence of up to 4 (thorough 5) secondary entries over 11 kinds after the stream extension, allocated and deleted'),
        Group('names', gen_names(th), run_names, 'every name length in 3 alphabets, every pair of stored and declared length up to 39, every character code up to 255 at 5 positions'),
        Group('counts', gen_counts(th), run_counts, 'every count of secondary entries x number of name entries'),
        Group('times', gen_times(th), run_times, 'every date and time (quick: every 5th), every time zone and 10 ms value'),
        Group('root', gen_root(th), run_root, 'label lengths and texts, labels with every character below 0x100 at 3 positions, numbers of allocation bitmaps, every entry type between two sets'),
        Group('orphans', gen_orphans(th), run_orphans, 'every sequence of up to 4 (thorough 5) name entries and separators; runs at the limit of 17'),
        Group('sizes', gen_sizes(th), run_sizes, 'buffer sizes'),
    ]
