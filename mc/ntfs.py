"""Builders for on-disk NTFS structures, written from the format and not from the code under test."""

import struct


def mp_encode(runs, pad = 0):
    """Encode [(lcn or None, count)] as mapping pairs. pad: extra width bytes for every field (still a valid encoding)."""
    out = b''
    prev = 0
    for lcn, count in runs:
        c = signed_le(count, pad)
        if lcn is None:
            o = b''
        else:
            o = signed_le(lcn - prev, pad)
            prev = lcn
        out += bytes([(len(o) << 4) | len(c)]) + c + o
    return out + b'\x00'


def signed_le(value, pad = 0):
    n = 1
    while not (-(1 << (8 * n - 1)) <= value < (1 << (8 * n - 1))):
        n += 1
    n = min(8, n + pad)
    return value.to_bytes(n, 'little', signed = True)


def pad8(b):
    return b + b'\x00' * (-len(b) % 8)


def attr_resident(type_code, value, name = None, instance = 0, flags = 0, resident_flags = 0):
    nm = (name or '').encode('utf-16le')
    name_off = 24
    value_off = (24 + len(nm) + 7) // 8 * 8
    total = (value_off + len(value) + 7) // 8 * 8
    b = struct.pack('<LLBBHHH', type_code, total, 0, len(nm) // 2, name_off, flags, instance)
    b += struct.pack('<LHBB', len(value), value_off, resident_flags, 0)
    b += nm
    b = b.ljust(value_off, b'\x00') + value
    return b.ljust(total, b'\x00')


def attr_nonresident(type_code, mapping_pairs, lowest, highest, file_size, name = None, instance = 0, flags = 0, allocated = None, valid = None):
    nm = (name or '').encode('utf-16le')
    name_off = 64
    mp_off = (64 + len(nm) + 7) // 8 * 8
    total = (mp_off + len(mapping_pairs) + 7) // 8 * 8
    if allocated is None:
        allocated = file_size
    if valid is None:
        valid = file_size
    b = struct.pack('<LLBBHHH', type_code, total, 1, len(nm) // 2, name_off, flags, instance)
    b += struct.pack('<QQHB5sqqq', lowest, highest, mp_off, 0, b'\x00' * 5, allocated, file_size, valid)
    b += nm
    b = b.ljust(mp_off, b'\x00') + mapping_pairs
    return b.ljust(total, b'\x00')


def frs_raw(attrs, size = 1024, number = 0, seq = 1, flags = 1, base = 0, lsn = 0, signature = b'FILE', short = False, usa_count = None,
            first_attr = None, first_free = None, refcount = 1, next_instance = 7, slack = b'', end = True):
    """A file record as it looks in memory (no fixups applied). attrs: a list of encoded attributes."""
    usa_off = 42 if short else 48
    if usa_count is None:
        usa_count = size // 512 + 1
    if first_attr is None:
        first_attr = (usa_off + usa_count * 2 + 7) // 8 * 8
    body = b''.join(attrs)
    if end:
        body += b'\xff\xff\xff\xff\x00\x00\x00\x00'
    if first_free is None:
        first_free = first_attr + len(body)
    hdr = struct.pack('<4sHHQHHHHLLQH', signature, usa_off, usa_count, lsn, seq, refcount, first_attr, flags, first_free, size, base, next_instance)
    if not short:
        hdr += struct.pack('<HL', (number >> 32) & 0xFFFF, number & 0xFFFFFFFF)
    b = hdr.ljust(first_attr, b'\x00') + body + slack
    if len(b) > size:
        raise ValueError('file record overflow: {}'.format(len(b)))
    return bytearray(b.ljust(size, b'\x00'))


def protect(buf, usn = 0x0101, stride = 512):
    """Apply update-sequence protection to a buffer with a multi-sector header."""
    buf = bytearray(buf)
    usa_off, usa_count = struct.unpack('<HH', buf[4:8])
    buf[usa_off:usa_off + 2] = struct.pack('<H', usn)
    for i in range(1, usa_count):
        end = i * stride
        buf[usa_off + 2 * i:usa_off + 2 * i + 2] = buf[end - 2:end]
        buf[end - 2:end] = struct.pack('<H', usn)
    return bytes(buf)


def unprotect(buf, stride = 512):
    """Undo protect()."""
    buf = bytearray(buf)
    usa_off, usa_count = struct.unpack('<HH', buf[4:8])
    for i in range(1, usa_count):
        end = i * stride
        buf[end - 2:end] = buf[usa_off + 2 * i:usa_off + 2 * i + 2]
    return bytes(buf)


def frs(attrs, usn = 0x0101, **kw):
    return protect(frs_raw(attrs, **kw), usn)


def ref(number, seq):
    return (seq << 48) | number


def v_standard_information(c = 0, m = 0, e = 0, a = 0, attributes = 0x20, usn = 0, maxver = 0, ver = 0, cls = 0, owner = 0, security = 0, quota = 0):
    return struct.pack('<QQQQLLLLLLQQ', c, m, e, a, attributes, maxver, ver, cls, owner, security, quota, usn)


def v_duplicated(c = 0, m = 0, e = 0, a = 0, alloc = 0, size = 0, attributes = 0x20, ea = 0, ea2 = 0):
    return struct.pack('<QQQQqqLHH', c, m, e, a, alloc, size, attributes, ea, ea2)


def v_file_name(parent, name, flags = 1, **kw):
    nm = name if isinstance(name, bytes) else name.encode('utf-16le')
    return struct.pack('<Q', parent) + v_duplicated(**kw) + struct.pack('<BB', len(nm) // 2, flags) + nm


def v_volume_information(major = 3, minor = 1, flags = 0):
    return b'\x00' * 8 + struct.pack('<BBH', major, minor, flags)


def v_attr_list(entries):
    """entries: (type, name or None, lowest_vcn, reference, instance)."""
    out = b''
    for t, name, vcn, reference, inst in entries:
        nm = (name or '').encode('utf-16le')
        ln = (26 + len(nm) + 7) // 8 * 8
        e = struct.pack('<LHBBQQH', t, ln, len(nm) // 2, 26, vcn, reference, inst) + nm
        out += e.ljust(ln, b'\x00')
    return out


SI, ATTRLIST, FN, OBJID, VOLNAME, VOLINFO, DATA, IROOT, IALLOC, BITMAP, REPARSE, EAINFO, EA = 0x10, 0x20, 0x30, 0x40, 0x60, 0x70, 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0


def system_frs(number, size = 1024, **kw):
    """A minimal system record: 3 is $Volume, 5 is the root directory."""
    if number == 3:
        return frs([attr_resident(VOLINFO, v_volume_information())], size = size, number = 3, seq = 3, **kw)
    if number == 5:
        return frs([attr_resident(FN, v_file_name(ref(5, 5), '.', 3))], size = size, number = 5, seq = 5, flags = 3, **kw)
    return frs([attr_resident(SI, v_standard_information())], size = size, number = number, seq = max(1, number), **kw)


def boot_sector(bps = 512, spc = 8, total_sectors = 2048, mft_lcn = 4, mirr_lcn = 2, frs_clusters = None, frs_size = 1024, index_size = 4096, serial = 0x1122334455667788,
                signature = b'NTFS    ', spc_raw = None, frs_raw_value = None, index_raw_value = None, hidden = 0, magic = b'\x55\xaa'):
    def enc(size):
        cl = bps * spc
        if size >= cl and size % cl == 0:
            return size // cl
        n = 0
        while (1 << n) < size:
            n += 1
        return 256 - n
    b = bytearray(512)
    b[0:3] = b'\xeb\x52\x90'
    b[3:11] = signature
    struct.pack_into('<H', b, 11, bps)
    b[13] = spc if spc_raw is None else spc_raw
    b[21] = 0xF8
    struct.pack_into('<HH', b, 24, 63, 255)
    struct.pack_into('<L', b, 28, hidden)
    struct.pack_into('<L', b, 36, 0x00800080)
    struct.pack_into('<Q', b, 40, total_sectors)
    struct.pack_into('<Q', b, 48, mft_lcn)
    struct.pack_into('<Q', b, 56, mirr_lcn)
    b[64] = enc(frs_size) if frs_raw_value is None else frs_raw_value
    b[68] = enc(index_size) if index_raw_value is None else index_raw_value
    struct.pack_into('<Q', b, 72, serial)
    b[510:512] = magic
    return bytes(b)


def index_entry(reference, attr, flags = 0, vcn = None, length = None):
    body = struct.pack('<QHHHH', reference, 0, len(attr), flags, 0) + attr
    body = pad8(body)
    if vcn is not None:
        body += struct.pack('<Q', vcn)
    if length is None:
        length = len(body)
    return body[:8] + struct.pack('<H', length) + body[10:]


def index_buffer_raw(entries, size = 4096, vcn = 0, lsn = 0, flags = 0, slack = b'', first_entry = None, signature = b'INDX'):
    usa_off = 40
    usa_count = size // 512 + 1
    first = (usa_off + 2 * usa_count + 7) // 8 * 8 if first_entry is None else first_entry
    body = b''.join(entries)
    used = first + len(body)
    b = struct.pack('<4sHHQQ', signature, usa_off, usa_count, lsn, vcn)
    b += struct.pack('<LLLB3s', first - 24, used - 24, size - 24, flags, b'\x00' * 3)
    b = b.ljust(first, b'\x00') + body + slack
    if len(b) > size:
        raise ValueError('index buffer overflow')
    return bytearray(b.ljust(size, b'\x00'))


def index_root(entries, attr_type = 0x30, collation = 1, bytes_per = 4096, blocks_per = 1, flags = 0, slack = b''):
    body = b''.join(entries)
    return struct.pack('<LLLL', attr_type, collation, bytes_per, blocks_per) + struct.pack('<LLLB3s', 16, 16 + len(body), 16 + len(body), flags, b'\x00' * 3) + body + slack


class Image(object):
    """A read-only file object over bytes that records every call made on it."""

    def __init__(self, data):
        self.data = bytes(data)
        self.pos = 0
        self.reads = 0
        self.writes = []

    def seek(self, offset, whence = 0):
        if whence == 0:
            p = offset
        elif whence == 1:
            p = self.pos + offset
        else:
            p = len(self.data) + offset
        if p < 0:
            raise OSError('negative seek')
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def read(self, size = -1):
        self.reads += 1
        if size is None or size < 0:
            r = self.data[self.pos:]
        else:
            r = self.data[self.pos:self.pos + size]
        self.pos += len(r)
        return r

    def write(self, data):
        self.writes.append((self.pos, bytes(data)))
        raise OSError('the image is read-only')

    def truncate(self, size = None):
        self.writes.append(('truncate', size))
        raise OSError('the image is read-only')

    def flush(self):
        pass

    def close(self):
        pass
