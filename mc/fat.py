"""Builders and reference decoders for FAT12/16/32 volumes (from the FAT specification, FATGEN 1.03)."""

import datetime
import struct
import warnings

from .image import Sparse

warnings.simplefilter('ignore')

EOC = {12: 0xff8, 16: 0xfff8, 32: 0xffffff8}
BAD = {12: 0xff7, 16: 0xfff7, 32: 0xffffff7}
TOP = {12: 0xfff, 16: 0xffff, 32: 0xfffffff}


def pack_fat(width, values, size):
    """The table with the given element values (dict), the rest zero."""
    if width == 12:
        bits = 0
        for n, v in values.items():
            bits |= (v & 0xfff) << (12 * n)
        need = (max(values, default = 0) + 2) * 2
        return bits.to_bytes(max(size, need), 'little')[:size]
    buf = bytearray(size)
    for n, v in values.items():
        e = width // 8
        if n * e + e <= size:
            buf[n * e:n * e + e] = v.to_bytes(e, 'little')
    return bytes(buf)


def element(width, table, n):
    """The value of an element of a table, or None if it is not wholly in the table."""
    if width == 12:
        if 12 * n + 12 > len(table) * 8:
            return None
        # Two nibbles-and-a-byte, bit by bit.
        return (int.from_bytes(table[12 * n // 8:12 * n // 8 + 2], 'little') >> (12 * n % 8)) & 0xfff
    e = width // 8
    if n * e + e > len(table):
        return None
    return int.from_bytes(table[n * e:n * e + e], 'little') & TOP[width]


def chain(width, table, last, first):
    """The clusters of a chain (None: a bad cluster), or 'error'."""
    if first in (0, 1):
        return []
    if first == BAD[width]:
        return 'error'
    out = []
    cur = first
    while True:
        out.append(cur)
        v = element(width, table, cur)
        if v is None or cur > last:
            return 'error'
        if v in out or v >= EOC[width] or v in (0, 1):
            return out
        if v == BAD[width]:
            return out + [None]
        cur = v


class Volume(object):
    """A FAT volume."""

    def __init__(self, width, bps = 512, spc = 1, rsvd = None, nfats = 2, rootent = None, clusters = None, fatsz = None, extflags = 0, rootclus = 2, hidden = 0, extra_sectors = 0,
                 totsec = None, bootsig = 0x29, signature = b'\x55\xaa', jmp = b'\xeb\x3c\x90'):
        self.width, self.bps, self.spc, self.nfats = width, bps, spc, nfats
        self.clusters = clusters if clusters is not None else {12: 12, 16: 4085, 32: 12}[width]
        self.rsvd = rsvd if rsvd is not None else (32 if width == 32 else 1)
        self.rootent = 0 if width == 32 else (rootent if rootent is not None else bps // 32)
        need = ((self.clusters + 2) * {12: 3, 16: 4, 32: 8}[width] + 1) // 2
        self.fatsz = fatsz if fatsz is not None else (need + bps - 1) // bps
        self.extflags = extflags
        self.rootclus = rootclus
        rootsec = (self.rootent * 32 + bps - 1) // bps
        self.root_off = (self.rsvd + nfats * self.fatsz) * bps
        self.data_off = self.root_off + rootsec * bps
        self.totsec = totsec if totsec is not None else (self.data_off // bps + self.clusters * spc + extra_sectors)
        self.csize = bps * spc
        self.last = self.clusters + 1
        self.tables = [{} for _ in range(nfats)]
        self.data = {}
        self.root = b''
        bs = bytearray(512)
        bs[0:3] = jmp
        bs[3:11] = b'MSDOS5.0'
        small = self.totsec < 65536 and width != 32
        struct.pack_into('<HBHBHHBHHHLL', bs, 11, bps, spc & 0xff, self.rsvd, nfats, self.rootent, self.totsec if small else 0, 0xf8, self.fatsz if width != 32 else 0, 63, 255, hidden,
                         0 if small or self.totsec > 0xffffffff else self.totsec)
        if width == 32:
            struct.pack_into('<LHHLHH12sBBBL11s8s', bs, 36, self.fatsz, extflags, 0, rootclus, 1, 6, b'\x00' * 12, 0x80, 0, bootsig, 0x11223344, b'LABEL      ',
                             b'FAT32   ' if self.totsec <= 0xffffffff else struct.pack('<Q', self.totsec))
        else:
            struct.pack_into('<BBBL11s8s', bs, 36, 0x80, 0, bootsig, 0x11223344, b'LABEL      ', b'FAT     ')
        bs[510:512] = signature
        self.boot = bs

    def link(self, n, v, which = None):
        for i, t in enumerate(self.tables):
            if which is None or i == which:
                t[n] = v

    def image(self, offset = 0, cut = 0):
        img = Sparse(self.totsec * self.bps - cut, offset, 0xcc)
        img.put(0, bytes(self.boot))
        for i, t in enumerate(self.tables):
            img.put((self.rsvd + i * self.fatsz) * self.bps, pack_fat(self.width, t, self.fatsz * self.bps)) if t else None
        if self.root:
            img.put(self.root_off, self.root)
        for n, d in self.data.items():
            img.put(self.data_off + (n - 2) * self.csize, d)
        return img


# Directory entries.

FORBIDDEN = set(range(0x20)) | {0x22, 0x2a, 0x2c, 0x2e, 0x2f, 0x7c} | set(range(0x3a, 0x40)) | {0x5b, 0x5c, 0x5d}


def checksum(name):
    s = 0
    for c in name:
        s = ((s >> 1) + ((s & 1) << 7) + c) % 256
    return s


def short(name, attr = 0x20, nt = 0, cluster = 0, size = 0, tenth = 0, ctime = 0x6000, cdate = 0x5221, adate = 0x5222, mtime = 0x6001, mdate = 0x5223):
    assert len(name) == 11
    return struct.pack('<11sBBBHHHHHHHL', name, attr, nt, tenth, ctime, cdate, adate, cluster >> 16, mtime, mdate, cluster & 0xffff, size)


def long_entry(order, text, csum, attr = 0xf, kind = 0):
    """text: up to 13 UTF-16 units as bytes (26)."""
    assert len(text) == 26, len(text)
    return struct.pack('<B10sBBB12sH4s', order, text[:10], attr, kind, csum, text[10:22], 0, text[22:26])


def long_parts(name):
    """The pieces of a long name, first to last."""
    raw = name.encode('utf-16le', 'surrogatepass')
    if len(raw) % 26:
        raw += b'\x00\x00'
        while len(raw) % 26:
            raw += b'\xff\xff'
    return [raw[i:i + 26] for i in range(0, len(raw), 26)]


def long_entries(name, short_name, order_last = 0x40):
    parts = long_parts(name)
    c = checksum(short_name)
    return [long_entry((order_last if i == len(parts) else 0) | i, parts[i - 1], c) for i in range(len(parts), 0, -1)]


def fat_date(v):
    try:
        return datetime.date(1980 + (v >> 9), (v >> 5) & 15, v & 31)
    except ValueError:
        return None


def fat_time(v):
    try:
        return datetime.time(v >> 11, (v >> 5) & 63, (v & 31) * 2)
    except ValueError:
        return None


def valid_short(raw):
    if raw in (b'.          ', b'..         '):
        return True
    for i, c in enumerate(raw):
        if ord('a') <= c <= ord('z'):
            return False
        if i == 0 and c in (0, 5):
            continue
        if i == 0 and c == 0x20:
            return False
        if c in FORBIDDEN:
            return False
    return True


def join_name(parts):
    """parts: first to last; None if empty."""
    raw = b''.join(parts)
    for i in range(0, len(raw), 2):
        if raw[i:i + 2] == b'\x00\x00':
            raw = raw[:i]
            break
    name = raw.decode('utf-16le', errors = 'replace')
    return name[:255] or None


def parse_directory(buf, fat32, encoding = 'ascii', short_only = False):
    """The reference: a list of ('file', {fields}) and ('orphan', partial name)."""
    out = []
    run = []  # (order byte, checksum, text) of the long entries collected, as stored
    null = False

    def orphan():
        n = join_name([t for _, _, t in reversed(run)])
        if n is not None:
            out.append(('orphan', n))

    for pos in range(0, len(buf), 32):
        e = buf[pos:pos + 32]
        name, attr, nt, tenth, ctime, cdate, adate, hi, mtime, mdate, lo, size = struct.unpack('<11sBBBHHHHHHHL', e)
        attr &= 0x3f
        if e[0] == 0:
            null = True
        if attr == 0xf:
            if short_only or e[12] != 0:
                continue
            order, csum = e[0], e[13]
            text = e[1:11] + e[14:26] + e[28:32]
            dead = order in (0, 0xe5)
            if run:
                porder, pcsum, _ = run[-1]
                pdead = porder in (0, 0xe5)
                if dead and pdead:
                    ok = csum == pcsum
                elif not dead and not pdead:
                    ok = csum == pcsum and 1 <= order <= 20 and order == (porder & ~0x40) - 1
                else:
                    ok = False
            else:
                ok = dead or 0x41 <= order <= 0x54
            if ok:
                run.append((order, csum, text))
            else:
                if run:
                    orphan()
                run = []
                if dead or 0x41 <= order <= 0x54:
                    run.append((order, csum, text))
            continue
        deleted = e[0] in (0, 0xe5)
        label = attr & 0x18 == 8
        shown = name
        if e[0] in (0, 0xe5):
            shown = b'_' + name[1:]
        elif e[0] == 5:
            shown = b'\xe5' + name[1:]
        if label:
            valid = not any(c in (0, 10, 13) for c in shown)
            raw = shown.rstrip(b' ')
            text = raw.decode(encoding, errors = 'replace')
        else:
            valid = valid_short(name)
            b, x = shown[:8].rstrip(b' '), shown[8:].rstrip(b' ')
            raw = b + (b'.' + x if x else b'')
            tb, tx = b.decode(encoding, errors = 'replace'), x.decode(encoding, errors = 'replace')
            if nt & 8:
                tb = tb.lower()
            if nt & 16:
                tx = tx.lower()
            text = tb + ('.' + tx if tx else '')
        long_name = None
        if run:
            if deleted or (run[-1][1] == checksum(name) and run[-1][0] & ~0x40 == 1 and run[-1][0] not in (0, 0xe5)):
                long_name = join_name([t for _, _, t in reversed(run)])
            else:
                orphan()
        run = []
        if not valid or attr & 0x18 == 0x18 or e == b'\xe5' * 32 or e == b'\x00' * 32:
            if long_name is not None:
                out.append(('orphan', long_name))
            continue
        d, t = fat_date(mdate), fat_time(mtime)
        m = datetime.datetime.combine(d, t) if d is not None and t is not None else None
        d, t = fat_date(cdate), fat_time(ctime)
        c = datetime.datetime.combine(d, t) + datetime.timedelta(milliseconds = 10 * (tenth if tenth <= 199 else 0)) if d is not None and t is not None else None
        out.append(('file', {
            'is_deleted': True if deleted else (None if null else False), 'is_directory': attr & 0x18 == 0x10, 'short_name': text, 'short_name_raw': raw, 'long_name': long_name,
            'atime': fat_date(adate), 'mtime': m, 'ctime': c, 'size': size, 'attributes': attr, 'ntbyte': nt, 'first_cluster': (hi << 16 if fat32 else 0) | lo, 'is_encrypted': nt & 1 == 1}))
    if run:
        orphan()
    return out
