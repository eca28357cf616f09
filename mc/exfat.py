"""Builders and reference decoders for exFAT volumes (from the exFAT specification)."""

import datetime
import struct

from .image import Sparse

EOC, BAD = 0xffffffff, 0xfffffff7
FORBIDDEN = set(range(0x20)) | {ord(c) for c in '"*/:<>?\\|'}
_BOOT = {}


def rot(data, bits, skip):
    mask = (1 << bits) - 1
    s = 0
    top = 1 << (bits - 1)
    for i, c in enumerate(data):
        if i in skip:
            continue
        s = ((top if s & 1 else 0) + (s >> 1) + c) & mask
    return s


def boot_region(shift, main):
    """The 12 sectors of a boot region; main: the fields of the first sector."""
    key = (shift, main)
    if key not in _BOOT:
        ss = 1 << shift
        buf = bytearray(11 * ss)
        buf[:120] = main
        buf[510:512] = b'\x55\xaa'
        for i in range(1, 9):
            buf[i * ss + ss - 4:i * ss + ss] = b'\x00\x00\x55\xaa'
        c = rot(bytes(buf), 32, (106, 107, 112))
        _BOOT[key] = bytes(buf) + struct.pack('<L', c) * (ss // 4)
        if len(_BOOT) > 4000:
            _BOOT.clear()
            return boot_region(shift, main)
    return _BOOT[key]


class Volume(object):
    def __init__(self, shift = 9, spc = 0, clusters = None, fats = 1, active = 0, root = 5, serial = 0x1234, flags = None, version = (1, 0), percent = 3, extra = 0):
        self.shift, self.bps, self.spc = shift, 1 << shift, 1 << spc
        self.csize = self.bps * self.spc
        self.count = clusters if clusters is not None else max(40, (1 << 20) // self.csize + 1)
        self.last = self.count + 1
        self.fatlen = ((self.count + 2) * 4 + self.bps - 1) // self.bps
        self.fats, self.active = fats, active
        self.fatoff = 24
        self.heap = self.fatoff + self.fatlen * fats
        self.length = self.heap + self.count * self.spc + extra
        self.root = root
        if flags is None:
            flags = active
        self.main = struct.pack('<3s8s53sQQLLLLLLBBHBBBBB7s', b'\xeb\x76\x90', b'EXFAT   ', b'\x00' * 53, 63, self.length, self.fatoff, self.fatlen, self.heap, self.count, root, serial,
                                version[1], version[0], flags, shift, spc, fats, 0x80, percent, b'\x00' * 7)
        self.tables = [{} for _ in range(fats)]
        self.data = {}
        self.bits = [set() for _ in range(fats)]
        self.bitmap_clusters = [2, 3]
        self.boots = None

    def link(self, n, v, which = None):
        for i, t in enumerate(self.tables):
            if which is None or which == i:
                t[n] = v

    def allocate(self, *clusters):
        for b in self.bits:
            b.update(clusters)

    def table(self, which = None):
        """The element function of the active table."""
        t = self.tables[self.active if which is None else which]
        return lambda n: t.get(n, 0)

    def bitmap(self, i):
        size = (self.count + 7) // 8
        v = 0
        for c in self.bits[i]:
            v |= 1 << (c - 2)
        return v.to_bytes(size, 'little')

    def root_entries(self, bitmaps = True):
        out = b''
        for i in range(self.fats):
            out += bitmap_entry(i, self.bitmap_clusters[i], (self.count + 7) // 8)
        return out

    def image(self, offset = 0, cut = 0):
        img = Sparse(self.length * self.bps - cut, offset, 0xcc)
        boots = self.boots or [boot_region(self.shift, self.main)] * 2
        for i, b in enumerate(boots):
            if b is not None:
                img.put(i * 12 * self.bps, b)
        for i, t in enumerate(self.tables):
            base = (self.fatoff + i * self.fatlen) * self.bps
            sectors = {}
            for n, v in t.items():
                sectors.setdefault(n * 4 // 512, {})[n] = v
            for s, items in sectors.items():
                buf = bytearray(512)
                for n, v in items.items():
                    struct.pack_into('<L', buf, n * 4 % 512, v)
                img.put(base + s * 512, bytes(buf))
        for i in range(self.fats):
            c = self.bitmap_clusters[i]
            if c is not None and c not in self.data:
                bm = self.bitmap(i)
                img.put(self.heap * self.bps + (c - 2) * self.csize, bm[:self.csize])
        for n, d in self.data.items():
            img.put(self.heap * self.bps + (n - 2) * self.csize, d)
        return img


def chain(table, last, size, first):
    """As in fat.chain; size: bytes of the table."""
    if first in (0, 1):
        return []
    if first == BAD:
        return 'error'
    out = []
    cur = first
    while True:
        out.append(cur)
        if cur > last or cur * 4 + 4 > size:
            return 'error'
        v = table(cur)
        if v in out or v in (0, 1, EOC):
            return out
        if v == BAD:
            return out + [None]
        cur = v


# Directory entries.

def stamp(y = 2021, mo = 2, d = 3, h = 4, mi = 5, s = 6):
    return (y - 1980) << 25 | mo << 21 | d << 16 | h << 11 | mi << 5 | s // 2


def file_entry(count, attr = 0x20, used = True, ctime = None, mtime = None, atime = None, c10 = 7, m10 = 8, ctz = 0x80, mtz = 0x84, atz = 0xfc, reserved = 0, csum = 0):
    ctime = stamp(2020) if ctime is None else ctime
    mtime = stamp(2021) if mtime is None else mtime
    atime = stamp(2022) if atime is None else atime
    return struct.pack('<BBHHHLLLBBBBB7s', 0x85 if used else 5, count, csum, attr, reserved, ctime, mtime, atime, c10, m10, ctz, mtz, atz, b'\x00' * 7)


def stream(name_len, cluster = 0, size = 0, valid = None, nofat = False, used = True, flags = None, hash_ = 0xabcd):
    return struct.pack('<BBBBHHQLLQ', 0xc0 if used else 0x40, flags if flags is not None else 1 | (2 if nofat else 0), 0, name_len, hash_, 0, size if valid is None else valid, 0, cluster, size)


def name_entries(name, used = True):
    raw = name.encode('utf-16le', 'surrogatepass')
    out = []
    for i in range(0, len(raw), 30):
        out.append(bytes([0xc1 if used else 0x41, 0]) + raw[i:i + 30].ljust(30, b'\x00'))
    return out


def seal(entries):
    """Set the checksum of a set."""
    raw = b''.join(entries)
    c = rot(raw, 16, (2, 3))
    return raw[:2] + struct.pack('<H', c) + raw[4:]


def file_set(name, attr = 0x20, cluster = 0, size = 0, valid = None, nofat = False, used = True, **kw):
    names = name_entries(name, used)
    n = len(name.encode('utf-16le', 'surrogatepass')) // 2
    return seal([file_entry(1 + len(names), attr, used, **kw), stream(n, cluster, size, valid, nofat, used)] + names)


def label_entry(text, count = None):
    raw = text.encode('utf-16le')
    return struct.pack('<BB30s', 0x83, len(raw) // 2 if count is None else count, raw)


def bitmap_entry(i, cluster, size):
    return struct.pack('<BB18sLQ', 0x81, i, b'\x00' * 18, cluster, size)


def decode_stamp(v, ten = 0):
    t, d = v & 0xffff, v >> 16
    try:
        return datetime.datetime(1980 + (d >> 9), (d >> 5) & 15, d & 31, t >> 11, (t >> 5) & 63, (t & 31) * 2) + datetime.timedelta(milliseconds = 10 * (ten if ten <= 199 else 0))
    except ValueError:
        return None


def decode_tz(v):
    if not v & 0x80:
        return None
    v &= 0x7f
    return v - 128 if v >= 64 else v


def decode_name(parts, count):
    raw = b''.join(parts)
    if count is not None:
        raw = raw[:2 * count]
    for i in range(0, len(raw), 2):
        if raw[i:i + 2] == b'\x00\x00':
            raw = raw[:i]
            break
    name = raw.decode('utf-16le', errors = 'replace')
    if not name or name in ('.', '..') or any(ord(c) in FORBIDDEN for c in name):
        return None
    return name


def parse_set(buf, pos):
    """(fields, length) of a valid set at the position, or None."""
    e = buf[pos:pos + 32]
    t, count, csum, attr, reserved, ct, mt, at, c10, m10, ctz, mtz, atz = struct.unpack('<BBHHHLLLBBBBB', e[:25])
    used = bool(t & 0x80)
    raw = buf[pos:pos + 32 + 32 * count]
    if not 2 <= count <= 64 or len(raw) != 32 + 32 * count:
        return None
    if used and rot(raw, 16, (2, 3)) != csum:
        return None
    sec = [raw[i:i + 32] for i in range(32, len(raw), 32)]
    for s in sec:
        if s[0] in (0, 0x80) or not s[0] & 0x40 or (used and not s[0] & 0x80):
            return None
    kinds = [s[0] & 0x7f for s in sec]
    if kinds[0] != 0x40 or kinds[1] != 0x41 or 0x40 in kinds[2:]:
        return None
    flags, _, nlen, _, _, valid, _, first, size = struct.unpack('<BBBHHQLLQ', sec[0][1:])
    if not flags & 1 or nlen == 0:
        return None
    names = [s[2:] for s, k in zip(sec, kinds) if k == 0x41]
    if len(names) > (nlen + 14) // 15 or len(names) > 17:
        return None
    vendor = [k in (0x60, 0x61) for k in kinds]
    if True in vendor and False in vendor[vendor.index(True):]:
        return None
    name = decode_name(names, nlen)
    if name is None:
        return None
    return {'is_deleted': not used, 'is_directory': bool(attr & 0x10), 'name': name, 'atime': decode_stamp(at), 'atz': decode_tz(atz), 'mtime': decode_stamp(mt, m10), 'mtz': decode_tz(mtz),
            'ctime': decode_stamp(ct, c10), 'ctz': decode_tz(ctz), 'size': size, 'valid_data_length': valid, 'attributes': attr, 'first_cluster': first,
            'is_encrypted': bool(reserved & 0x8000), 'no_fat_chain': bool(flags & 2)}, len(raw)


def parse_directory(buf, root):
    """A list of ('file', fields), ('orphan', name), ('label', text), ('bitmap', (id, cluster, size)); a last item ('error',) for a reported error."""
    out = []
    labels = bitmaps = 0
    pos = 0
    while pos < len(buf):
        t = buf[pos]
        kind, used = t & 0x7f, bool(t & 0x80)
        if t == 0:
            break
        if t == 0x80:
            if root:
                out.append(('error',))
            break
        if not t & 0x40:
            if kind in (1, 2, 3) and used and not root:
                break
            if kind == 5:
                got = parse_set(buf, pos)
                if got is not None:
                    out.append(('file', got[0]))
                    pos += got[1]
                    continue
            if root and used and kind == 3:
                labels += 1
                n = buf[pos + 1]
                if labels > 1 or n > 15:
                    out.append(('error',))
                    break
                if n:
                    raw = buf[pos + 2:pos + 2 + 2 * n]
                    for i in range(0, len(raw), 2):
                        if raw[i:i + 2] == b'\x00\x00':
                            raw = raw[:i]
                            break
                    text = raw.decode('utf-16le', errors = 'replace')
                    if not text or any(ord(c) in FORBIDDEN for c in text):
                        out.append(('error',))
                        break
                    out.append(('label', text))
            if root and used and kind == 1:
                bitmaps += 1
                if bitmaps > 2:
                    out.append(('error',))
                    break
                out.append(('bitmap', (buf[pos + 1] & 1,) + struct.unpack('<LQ', buf[pos + 20:pos + 32])))
        elif kind == 0x41:
            parts = []
            p = pos
            while p < len(buf) and buf[p] == t and buf[p + 1] == 0 and len(parts) < 17:
                parts.append(buf[p + 2:p + 32])
                p += 32
                if parts[-1][-2:] == b'\x00\x00':
                    break
            name = decode_name(parts, None) if parts else None
            if name is not None:
                out.append(('orphan', name))
                pos = p
                continue
        pos += 32
    return out
