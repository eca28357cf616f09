"""A writer of transaction logs ($LogFile), made from the format: the model that the log checks enumerate."""

import struct

from . import ntfs

PAGE = 4096
HDR = 48
DATA = 64
CAP = PAGE - DATA


def client_record(redo, redo_op = 7, undo_op = 7, undo = b'', target = 0, lcns = (), record_offset = 0, attribute_offset = 0, cbo = 0, block = 2, vcn = 0, length = None):
    """An NTFS client (update) record."""
    head = 32 + 8 * max(len(lcns), 0)
    redo_off = head if redo else 0
    undo_off = head + (len(redo) + 7) // 8 * 8 if undo else 0
    b = struct.pack('<HHHHHHHHHHHHq', redo_op, undo_op, redo_off, len(redo), undo_off, len(undo), target, len(lcns), record_offset, attribute_offset, cbo, block, vcn)
    b += b''.join(struct.pack('<q', l) for l in lcns)
    if redo:
        b = b.ljust(redo_off, b'\x00') + redo
    if undo:
        b = b.ljust(undo_off, b'\x00') + undo
    b = ntfs.pad8(b)
    if length is not None:
        b = b.ljust(length, b'\x00')
    return b


def client_restart(major = 1, minor = 0, checkpoint = 0, oat = 0, names = 0, dirty = 0, trans = 0, cluster = 4096, length = 112, lens = (0, 0, 0, 0)):
    b = struct.pack('<LLQQQQQLLLLqQLLQqQ', major, minor, checkpoint, oat, names, dirty, trans, lens[0], lens[1], lens[2], lens[3], 0, 0, cluster, 0, 0, 0, 0)
    return b[:length].ljust(length, b'\x00')


class Record(object):
    __slots__ = ('lsn', 'data', 'type', 'client', 'trans', 'prev', 'undo', 'where', 'next')

    def __init__(self, **kw):
        self.next = None
        for k, v in kw.items():
            setattr(self, k, v)


class Log(object):
    def __init__(self, version = (1, 1), pages = 3, start = 0, seq = 5, residue = False, extra_bits = 0, hdr = HDR, data = DATA):
        self.hdr = hdr          # The length of a record header.
        self.data = data        # Where the data of a page begins.
        self.version = version
        self.first = 4 if version == (1, 1) else 34
        self.total = self.first + pages
        self.size = self.total * PAGE
        self.bits = 67 - self.size.bit_length() - extra_bits
        self.seq = seq
        self.residue = residue
        self.pages = {}     # number -> unprotected content
        self.meta = {}      # number -> [last_lsn, last_end_lsn, next_offset, flags, page_count, page_pos]
        self.gen = {}       # number -> the generation (number of times it was started)
        self.records = []
        self.cur = self.first + start
        self.off = data
        self.usn = 1
        self._open(self.cur)

    def lsn(self, page, off, seq = None):
        return ((page * PAGE + off) >> 3) | ((self.seq if seq is None else seq) << (64 - self.bits))

    def _open(self, page):
        if page not in self.pages or not self.residue:
            self.pages[page] = bytearray(PAGE)
        self.meta[page] = [0, 0, self.data, 0, 1, 1]
        self.gen[page] = self.gen.get(page, 0) + 1

    def _advance(self):
        self.cur += 1
        if self.cur >= self.total:
            self.cur = self.first
            self.seq += 1
        self.off = self.data
        self._open(self.cur)

    @property
    def left(self):
        return PAGE - self.off

    def append(self, data, type = 1, client = 0, trans = 24, prev = 0, undo = 0, close = False):
        assert len(data) % 8 == 0 and len(data) >= 8
        if self.left < self.hdr or (close and self.off > self.data):
            self._advance()
        lsn = self.lsn(self.cur, self.off)
        multi = self.hdr + len(data) > self.left
        raw = struct.pack('<QQQLLLLH6x', lsn, prev, undo, len(data), client, type, trans, 1 if multi else 0).ljust(self.hdr, b'\xEE') + data
        rec = Record(lsn = lsn, data = data, type = type, client = client, trans = trans, prev = prev, undo = undo, where = [])
        used = []
        while True:
            part = raw[:self.left]
            raw = raw[len(part):]
            self.pages[self.cur][self.off:self.off + len(part)] = part
            self.off += len(part)
            m = self.meta[self.cur]
            m[0] = lsn
            used.append(self.cur)
            rec.where.append((self.cur, self.gen[self.cur]))
            if not raw:
                m[1] = lsn
                m[2] = self.off
                m[3] |= 1
                break
            m[2] = PAGE
            self._advance()
        for i, p in enumerate(used):
            self.meta[p][4] = len(used)
            self.meta[p][5] = i + 1
        if self.records:
            self.records[-1].next = rec
        self.records.append(rec)
        return rec

    def page_bytes(self, n, content = None, meta = None, last_lsn = None, fast = None, usn = None):
        """A page as it lies on the disk."""
        b = bytearray(self.pages[n] if content is None else content)
        m = self.meta[n] if meta is None else meta
        b[0:self.data] = b'\x00' * self.data
        b[0:8] = struct.pack('<4sHH', b'RCRD', 40, PAGE // 512 + 1)
        b[8:40] = struct.pack('<QLHHHHLQ', m[0] if last_lsn is None else last_lsn, m[3], m[4], m[5], m[2], 0, 0, m[1])
        if fast is not None:
            b[60:64] = struct.pack('<L', fast)
        return ntfs.protect(b, self.usn if usn is None else usn)

    def snapshot(self, n):
        return (bytes(self.pages[n]), list(self.meta[n]))

    def intact(self, damaged = ()):
        return [r for r in self.records if all(self.gen[p] == g and p not in damaged for p, g in r.where)]

    def restart_page(self, current = None, clients = None, chkdsk = 0, flags = 0, version = None, signature = b'RSTR', usn = 9, bits = None, header = None, data_offset = None):
        """clients: a list of (oldest lsn, restart lsn)."""
        version = version or self.version
        if current is None:
            current = self.records[-1].lsn if self.records else 0
        if clients is None:
            clients = [(0, 0)]
        b = bytearray(PAGE)
        b[0:8] = struct.pack('<4sHH', signature, 30, PAGE // 512 + 1)
        b[8:30] = struct.pack('<QLLHHH', chkdsk, PAGE, PAGE, 64, version[1], version[0])
        area = struct.pack('<QHHHHLHHqLHHL', current, len(clients), 0xFFFF, 0, flags, self.bits if bits is None else bits, 48 + 160 * len(clients), 48, self.size, 0, header or self.hdr, data_offset or self.data, 1)
        area = area.ljust(48, b'\x00')
        for oldest, restart in clients:
            area += struct.pack('<QQHHH6xL', oldest, restart, 0xFFFF, 0xFFFF, 0, 8).ljust(32, b'\x00') + 'NTFS'.encode('utf-16le').ljust(128, b'\x00')
        b[64:64 + len(area)] = area
        return ntfs.protect(b, usn)

    def image(self, restart = None, restart2 = None, replace = {}, blank = b'\xff'):
        out = [blank * PAGE] * self.total
        out[0] = restart if restart is not None else self.restart_page()
        out[1] = restart2 if restart2 is not None else out[0]
        for n in self.pages:
            out[n] = self.page_bytes(n)
        for n, b in replace.items():
            out[n] = b
        return b''.join(out)


def reachable(log, anchors, damaged = (), late = ()):
    """The records a reader has to find: forward from the anchors, then back over the previous- and undo-links of what was found."""
    whole = {r.lsn: r for r in log.intact(damaged)}
    found = {}

    def forward(lsn):
        r = whole.get(lsn)
        while r is not None and r.lsn not in found:
            found[r.lsn] = r
            nx = r.next
            r = whole.get(nx.lsn) if nx is not None else None

    # The records linked from the anchors are anchors, too.
    anchors = list(anchors)
    for a in list(anchors):
        if a in whole:
            anchors += [whole[a].prev, whole[a].undo]
    for a in anchors + list(late):
        forward(a)
    for link in ('prev', 'undo'):
        for lsn in list(found):
            r = whole.get(getattr(found[lsn], link))
            while r is not None and r.lsn not in found:
                found[r.lsn] = r
                r = whole.get(getattr(r, link))
    return found


def page_anchors(log, damaged = ()):
    out = []
    for n, m in log.meta.items():
        if n not in damaged:
            out += [m[0], m[1]]
    return out
