"""P25: volume geometry and FAT type are derived exactly from the boot sector."""

import itertools
import struct
import uuid

from dfir_ntfs import BootSector
from dfir_ntfs.addons import FAT, exFAT

from . import exfat, fat, ntfs
from .core import Group, Violation, equal, check

ID = 'P25'
ASSUMPTIONS = ['sizes which are not a power of two (sectors, clusters of NTFS) may be accepted as stored or rejected',
               'FAT types by the count of clusters and the 16-bit size of the table as documented in FAT.py (a volume without the 16-bit size is FAT32 however small)',
               'exFAT limits as in the exFAT specification; the jump code is not checked (as documented)',
               'a FAT32 volume too small for its own tables may be opened, and then reports an error when its root directory is read']

SMALL = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255]


def pow2(n):
    return n > 0 and n & (n - 1) == 0


# --- NTFS

def gen_ntfs(th):
    def gen():
        for v in range(65536):
            yield 'bps', v, 0
        for v in range(256):
            for bps in (512, 1024, 2048, 4096):
                yield 'spc', v, bps
        for what in ('frs', 'index'):
            for v in range(256):
                for bps in (512, 4096):
                    for spc in (1, 2, 8, 64, 128, 0xff, 0xf8, 0xf4):
                        yield what, v, (bps, spc)
        vals = sorted({0, (1 << 64) - 1, 0x0102030405060708} | {1 << i for i in range(64)} | {(1 << i) - 1 for i in range(64)})
        for what in ('total', 'mft', 'mirr', 'serial'):
            for v in vals:
                yield what, v, 0
        for n in list(range(0, 1100)) + [1536, 2048, 2049, 4096, 8192, 65536]:
            yield 'size', n, 0
        for i in range(8):
            for v in range(256):
                yield 'sig', i, v
        for j in (0, 0x52eb, 1, 0x100):
            for m in (0xaa55, 0x55aa, 0, 0xaa54):
                yield 'code', j, m
    return gen


def attempt(f):
    try:
        return f()
    except BootSector.BootSectorException:
        return 'error'


def clusters_of(raw):
    """Sectors per cluster: exact value, 'error', or None (anything goes)."""
    if raw == 0:
        return 'error'
    if raw <= 0x80:
        return raw if pow2(raw) else None
    return 1 << (256 - raw)


def run_ntfs(case, ctx):
    what, a, b = case
    ctx.op()
    raw = bytearray(ntfs.boot_sector())
    if what == 'size':
        r = attempt(lambda: BootSector.BootSector((bytes(raw) * 200)[:a]))
        equal(r == 'error', a < 512 or a % 512 != 0, 'a boot sector of {} bytes rejected'.format(a))
        return r == 'error'
    if what == 'sig':
        same = raw[3 + a] == b
        raw[3 + a] = b
        r = attempt(lambda: BootSector.BootSector(bytes(raw)))
        equal(r == 'error', not same, 'a signature rejected')
        return same
    if what == 'bps':
        struct.pack_into('<H', raw, 11, a)
        got = attempt(lambda: BootSector.BootSector(bytes(raw)).get_bytes_per_sector())
        if a % 512 or a == 0:
            equal(got, 'error', 'sector size')
        elif pow2(a):
            equal(got, a, 'sector size')
        else:
            check(got in (a, 'error'), 'sector size: {} for {}', got, a)
        return got == 'error'
    if what == 'spc':
        struct.pack_into('<HB', raw, 11, b, a)
        bs = BootSector.BootSector(bytes(raw))
        got, want = attempt(bs.get_sectors_per_cluster), clusters_of(a)
        if want is None:
            check(got in (a, 'error'), 'cluster size: {} for {}', got, a)
        elif a > 0x80 and a < 0xe1:
            check(got in (want, 'error'), 'cluster size: {} for {}', got, a)
        else:
            equal(got, want, 'cluster size')
        return str(got)
    if what in ('frs', 'index'):
        bps, spc = b
        struct.pack_into('<HB', raw, 11, bps, spc)
        raw[64 if what == 'frs' else 68] = a
        raw[68 if what == 'frs' else 64] = 0xf5
        bs = BootSector.BootSector(bytes(raw))
        got = attempt(bs.get_file_record_segment_size if what == 'frs' else bs.get_index_record_size)
        other = attempt(bs.get_index_record_size if what == 'frs' else bs.get_file_record_segment_size)
        equal(other, 2048, 'the other size')
        if a == 0:
            want = 'error'
        elif a < 0x80:
            want = a * clusters_of(spc) * bps
        else:
            want = 1 << (256 - a)
        if a >= 0x80 and a < 0xe1:
            check(got in (want, 'error'), 'record size')
        else:
            equal(got, want, 'record size')
        return str(got)[:20]
    if what == 'code':
        struct.pack_into('<H', raw, 0, a)
        struct.pack_into('<H', raw, 510, b)
        equal(BootSector.BootSector(bytes(raw)).is_boot_code_present(), a != 0 and b == 0xaa55, 'boot code present')
        return a
    off = {'total': 40, 'mft': 48, 'mirr': 56, 'serial': 72}[what]
    struct.pack_into('<Q', raw, off, a)
    bs = BootSector.BootSector(bytes(raw))
    got = {n: attempt(f) for n, f in (('total', bs.get_total_number_of_sectors), ('mft', bs.get_first_mft_cluster), ('mirr', bs.get_first_mftmirr_cluster), ('serial', bs.get_serial_number))}
    want = {'total': 2048, 'mft': 4, 'mirr': 2, 'serial': 0x1122334455667788}
    want[what] = 'error' if a == 0 and what != 'serial' else a
    equal(got, want, 'positions')
    return a == 0


# --- FAT

def ref_fat(raw, relaxed = False):
    """('error',), ('unsupported',) or a dictionary of the geometry."""
    bps, spc, rsvd, nfats, rootent, tot16, media, fatsz16, spt, heads, hidden, tot32, fatsz32, ext, ver, rootclus = struct.unpack('<HBHBHHBHHHLLLHHL', raw[11:48])
    if raw[510:512] != b'\x55\xaa' and raw[0] not in (0xe9, 0xeb):
        return ('error',)
    if bps not in (512, 1024, 2048, 4096) or not (spc == 0 or pow2(spc)) or rsvd == 0 or nfats == 0:
        return ('error',)
    spc = spc or 256
    total = tot16 or tot32
    is32 = fatsz16 == 0
    if not total and is32 and raw[66] == 0x29:
        total = struct.unpack('<Q', raw[82:90])[0]
    if not total:
        return ('error',) if not is32 or raw[66] != 0x29 else ('any',)
    if is32 and fatsz32 == 0:
        return ('error',)
    rootsec = 0 if is32 else -(-rootent * 32 // bps)
    meta = rsvd + nfats * (fatsz32 if is32 else fatsz16) + rootsec
    count = (total - meta) // spc
    if is32:
        if ver:
            return ('unsupported',)
        if count <= 0:
            return ('any',)
        t = 32
    else:
        if count <= 0 or count >= 65525:
            return ('error',)
        t = 16 if count >= 4085 else 12
    active = ext & 15 if is32 and ext & 0x80 and ext & 15 < nfats else 0
    size = (fatsz32 if is32 else fatsz16) * bps
    return {'type': t, 'count': count, 'bps': bps, 'spc': spc, 'last': count + 1, 'fat': rsvd * bps + active * size, 'fatsize': size, 'data': meta * bps}


def observe_fat(raw, ctx):
    ctx.op()
    img = fat.Sparse(4096)
    img.put(0, raw)
    try:
        fs = FAT.FileSystemParser(img)
    except NotImplementedError:
        return ('unsupported',)
    except FAT.FileSystemException:
        return ('error',)
    b = fs.bsbpb
    off, size, last = b.fat_offset_and_size()
    equal((fs.fat.fat_offset, fs.fat.fat_size, fs.fat.last_valid_cluster), (off, size, last), 'the table used')
    return {'type': fs.fat_type, 'count': FAT.GetCountOfClusters(b), 'bps': b.get_bpb_bytspersec(), 'spc': b.get_bpb_secperclus(), 'last': last, 'fat': off, 'fatsize': size, 'data': fs.data_area_offset,
            'cluster': fs.cluster_size}


def compare_fat(raw, ctx):
    want = ref_fat(raw)
    got = observe_fat(bytes(raw), ctx)
    if want == ('any',):
        return 'any'
    if want == ('error',) and got == ('unsupported',) and raw[22:24] == b'\x00\x00' and raw[42:44] != b'\x00\x00':
        return 'rejected' # Two reasons to reject the volume.
    if isinstance(want, dict):
        want['cluster'] = want['bps'] * want['spc']
    equal(got, want, 'geometry')
    return want['type'] if isinstance(want, dict) else want[0]


def bpb(bps = 512, spc = 1, rsvd = 1, nfats = 2, rootent = 512, tot16 = 0, media = 0xf8, fatsz16 = 0, tot32 = 0, fatsz32 = 0, ext = 0, ver = 0, rootclus = 2, fsinfo = 1, bk = 6, bootsig32 = 0x29, bootsig16 = 0x29,
        tot64 = None, sig = b'\x55\xaa', jmp = 0xeb, hidden = 0x3f):
    raw = bytearray(512)
    raw[0:3] = bytes([jmp, 0x3c, 0x90])
    raw[3:11] = b'MSDOS5.0'
    struct.pack_into('<HBHBHHBHHHLL', raw, 11, bps, spc & 0xff, rsvd, nfats, rootent, tot16, media, fatsz16, 63, 255, hidden, tot32)
    if fatsz16 == 0:
        struct.pack_into('<LHHLHH12sBBBL11s8s', raw, 36, fatsz32, ext, ver, rootclus, fsinfo, bk, bytes(range(12)), 0x81, 3, bootsig32, 0x11223344, b'VOLUME LABL', b'FAT32   ' if tot64 is None else struct.pack('<Q', tot64))
    else:
        struct.pack_into('<BBBL11s8s', raw, 36, 0x81, 3, bootsig16, 0x11223344, b'VOLUME LABL', b'FAT16   ')
    raw[510:512] = sig
    return raw


def gen_fattype(th):
    def gen():
        counts = [-1, 0, 1, 2, 100, 4078, 4079, 4083, 4084, 4085, 4086, 4087, 65523, 65524, 65525, 65526, 70000]
        for bps in (512, 1024, 4096) if not th else (512, 1024, 2048, 4096):
            for spc in (1, 2, 8, 128, 256):
                for rsvd in (1, 2, 33):
                    for nfats in (1, 2, 3):
                        for root in (0, 1, 16, 17, 128, 129, 512, 65535):
                            for count in counts:
                                for rest in (0, spc - 1) if spc > 1 else (0,):
                                    yield 16, bps, spc, rsvd, nfats, root, count, rest
                        for count in counts + [1 << 20, 0xffffff5]:
                            for rest in (0, spc - 1) if spc > 1 else (0,):
                                yield 32, bps, spc, rsvd, nfats, 0, count, rest
    return gen


def run_fattype(case, ctx):
    kind, bps, spc, rsvd, nfats, root, count, rest = case
    out = []
    if kind == 16:
        for fatsz in (1, 12, 256):
            meta = rsvd + nfats * fatsz + -(-root * 32 // bps)
            total = max(0, meta + count * spc + rest)
            if total == 0:
                continue
            for use16 in (True, False):
                if use16 and total > 65535:
                    continue
                raw = bpb(bps, spc, rsvd, nfats, root, total if use16 else 0, fatsz16 = fatsz, tot32 = 0 if use16 else total)
                out.append(compare_fat(raw, ctx))
    else:
        for fatsz in (1, 600):
            meta = rsvd + nfats * fatsz
            total = meta + count * spc + rest
            if total <= 0:
                continue
            for how in (16, 32, 64):
                if total >= 1 << 32 and how != 64 or how == 16 and total > 65535:
                    continue
                raw = bpb(bps, spc, rsvd, nfats, 0, total if how == 16 else 0, fatsz32 = fatsz, tot32 = total if how == 32 else 0, tot64 = total if how == 64 else None)
                out.append(compare_fat(raw, ctx))
    return tuple(out)


FIELDS = [('bps', 11, 'H'), ('spc', 13, 'B'), ('rsvd', 14, 'H'), ('nfats', 16, 'B'), ('rootent', 17, 'H'), ('tot16', 19, 'H'), ('media', 21, 'B'), ('fatsz16', 22, 'H'), ('spt', 24, 'H'), ('heads', 26, 'H'), ('hidden', 28, 'L'),
          ('tot32', 32, 'L'), ('fatsz32', 36, 'L'), ('ext', 40, 'H'), ('ver', 42, 'H'), ('rootclus', 44, 'L'), ('fsinfo', 48, 'H'), ('bk', 50, 'H')]


def values(fmt, th):
    bits = 8 * struct.calcsize('<' + fmt)
    if bits == 8 or (bits == 16 and th):
        return list(range(1 << bits))
    return sorted({0, (1 << bits) - 1, 3, 5, 100, 510, 511, 513, 520, 1536} | {1 << i for i in range(bits)} | {(1 << i) - 1 for i in range(bits)} | {(1 << i) + 1 for i in range(bits)})


def gen_fatfields(th):
    def gen():
        for base in ('12', '16', '32', '64'):
            for name, off, fmt in FIELDS:
                for v in values(fmt, th):
                    if v < 1 << (8 * struct.calcsize('<' + fmt)):
                        yield base, ((off, fmt, v),)
            edge = {n: (o, f) for n, o, f in FIELDS}
            vs = {'bps': (0, 256, 512, 4096, 8192), 'spc': (0, 1, 3, 128), 'rsvd': (0, 1, 0xffff), 'nfats': (0, 1, 255), 'rootent': (0, 1, 65535), 'tot16': (0, 1, 65535), 'fatsz16': (0, 1, 65535), 'tot32': (0, 1, 0xffffffff),
                  'fatsz32': (0, 1, 0xffffffff), 'ver': (0, 1)}
            one = [(edge[n] + (v,)) for n in vs for v in vs[n]]
            for a, b in itertools.combinations(one, 2):
                if a[0] != b[0]:
                    yield base, (a, b)
            if th:
                for a, b, c in itertools.combinations(one, 3):
                    if len({a[0], b[0], c[0]}) == 3:
                        yield base, (a, b, c)
        for off in (0, 510, 511):
            for v in range(256):
                yield '16', ((off, 'B', v),)
                yield '16', ((off, 'B', v), (510 if off == 0 else 0, 'B', 0))
                yield '32', ((66, 'B', v),)
                yield '64', ((66, 'B', v),)
                yield '16', ((38, 'B', v),)
    return gen


BASES = {'12': dict(rsvd = 1, rootent = 224, tot16 = 2880, fatsz16 = 9), '16': dict(spc = 4, rootent = 512, tot32 = 80000, fatsz16 = 80), '32': dict(rsvd = 32, rootent = 0, tot32 = 600000, fatsz32 = 4600),
         '64': dict(rsvd = 32, rootent = 0, tot64 = 600000, fatsz32 = 4600)}


def run_fatfields(case, ctx):
    base, changes = case
    raw = bpb(**BASES[base])
    for off, fmt, v in changes:
        struct.pack_into('<' + fmt, raw, off, v)
    r = compare_fat(raw, ctx)
    if r in (12, 16, 32):
        b = FAT.BSBPB(bytes(raw))
        v = {n: struct.unpack('<' + f, raw[o:o + struct.calcsize('<' + f)])[0] for n, o, f in FIELDS}
        is32 = r == 32

        def get(f):
            try:
                return f()
            except FAT.FileSystemException:
                return 'error'
        got = (get(b.get_bpb_media), b.get_bpb_secpertrk(), b.get_bpb_numheads(), b.get_bpb_hiddsec(), get(b.get_bpb_rootclus), get(b.get_bpb_fsinfo), get(b.get_bpb_bkbootsec), b.get_bpb_extflags(), bytes(b.get_bs_oemname()), b.get_bs_drvnum(), b.is_volume_dirty(),
               b.get_bpb_totsec16(), b.get_bpb_totsec32())
        at = 64 if is32 else 36
        want = (v['media'] if v['media'] in (0xf0, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff) else 'error', v['spt'], v['heads'], v['hidden'], (v['rootclus'] if v['rootclus'] >= 2 else 'error') if is32 else None,
                (v['fsinfo'] or 'error') if is32 else None, (v['bk'] or 'error') if is32 else None, (v['ext'] & 15, v['ext'] & 0x80 > 0) if is32 else (None, None), bytes(raw[3:11]), raw[at], (raw[at + 1] & 1 > 0, raw[at + 1] & 2 > 0),
                v['tot16'], v['tot32'])
        equal(got, want, 'fields')
        sig = raw[at + 2]
        ids = struct.unpack('<L', raw[at + 3:at + 7])[0]
        ef = b.get_bs_extfields()
        equal(tuple(bytes(x) if isinstance(x, (bytes, bytearray)) else x for x in ef), (ids, bytes(raw[at + 7:at + 18]), bytes(raw[at + 18:at + 26])) if sig == 0x29 else (ids, None, None) if sig == 0x28 else (None, None, None), 'extended fields')
    return r


def gen_fatact(th):
    def gen():
        for ext in list(range(256)) + [0x100, 0x180, 0xff80, 0xff8f, 0xffff]:
            for nfats in (1, 2, 3, 15, 16, 17, 255):
                yield ext, nfats
    return gen


def run_fatact(case, ctx):
    ext, nfats = case
    raw = bpb(rsvd = 32, nfats = nfats, rootent = 0, tot32 = 900000, fatsz32 = 700, ext = ext)
    return compare_fat(raw, ctx), ref_fat(raw)['fat']


def gen_fsinfo(th):
    def gen():
        for pos in (0, 1, 2, 3, 484, 485, 486, 487, 508, 509, 510, 511):
            for bit in range(8):
                yield 'bad', pos, bit
        for bit in range(32):
            yield 'free', 1 << bit, 0
            yield 'next', (1 << bit) - 1, 0
        for n in list(range(0, 5000)) + list(range(65500, 65560)):
            yield 'edge', n, 0
        yield 'free', 0xffffffff, 0
        yield 'next', 0xffffffff, 0
    return gen


def run_fsinfo(case, ctx):
    what, a, b = case
    if what == 'edge':
        ctx.op()
        equal(bool(FAT.IsFileSystemUnusual12Or16(a, True)), 4079 <= a <= 4086, 'a number of clusters at the edge of FAT12 and FAT16')
        return what
    raw = bytearray(512)
    struct.pack_into('<L', raw, 0, 0x41615252)
    struct.pack_into('<LLL', raw, 484, 0x61417272, 0x01020304, 0x05060708)
    struct.pack_into('<L', raw, 508, 0xaa550000)
    ctx.op()
    if what == 'bad':
        raw[a] ^= 1 << b
    elif what == 'free':
        struct.pack_into('<L', raw, 488, a)
    else:
        struct.pack_into('<L', raw, 492, a)
    try:
        f = FAT.FSINFO(bytes(raw))
    except FAT.FileSystemException:
        check(what == 'bad', 'an intact file system information sector is rejected')
        return 'rejected'
    check(what != 'bad', 'a damaged file system information sector is accepted')
    equal((f.get_fsi_free_count(), f.get_fsi_nxt_free()), struct.unpack('<LL', raw[488:496]), 'free clusters')
    return what


# --- exFAT

XF = [('offset', 64, 'Q'), ('length', 72, 'Q'), ('fatoff', 80, 'L'), ('fatlen', 84, 'L'), ('heap', 88, 'L'), ('count', 92, 'L'), ('root', 96, 'L'), ('serial', 100, 'L'), ('minor', 104, 'B'), ('major', 105, 'B'), ('flags', 106, 'H'),
      ('shift', 108, 'B'), ('spc', 109, 'B'), ('fats', 110, 'B'), ('drive', 111, 'B'), ('percent', 112, 'B')]


def ref_exfat(main):
    v = {n: struct.unpack('<' + f, main[o:o + struct.calcsize('<' + f)])[0] for n, o, f in XF}
    if not 9 <= v['shift'] <= 12 or v['spc'] > 25 - v['shift']:
        return 'error', v
    ss, spc = 1 << v['shift'], 1 << v['spc']
    ok = v['length'] * ss >= 1 << 20 and v['fats'] in (1, 2) and 24 <= v['fatoff'] <= v['heap'] - v['fatlen'] * v['fats'] and v['fatlen'] * ss >= (v['count'] + 2) * 4 and v['count'] <= 0xfffffff5 \
        and v['heap'] + v['count'] * spc <= v['length'] and 2 <= v['root'] <= v['count'] + 1 and 1 <= v['major'] <= 99 and v['minor'] <= 99 and not (v['flags'] & 1 and v['fats'] == 1)
    if not ok:
        return 'error', v
    if v['major'] > 1:
        return 'unsupported', v
    return 'ok', v


def xvalues(name, base):
    b = base[name]
    bits = {'Q': 64, 'L': 32, 'H': 16, 'B': 8}[dict((n, f) for n, o, f in XF)[name]]
    if bits == 8:
        return list(range(256))
    out = {0, 1, 2, 3, (1 << bits) - 1, 1 << (bits - 1), b - 1, b, b + 1, b * 2, b // 2}
    if name in ('fatoff', 'heap'):
        out |= {23, 24, 25, base['heap'] - base['fatlen'] * base['fats'], base['heap'] - base['fatlen'] * base['fats'] + 1, base['fatoff'] + base['fatlen'] * base['fats'], base['fatoff'] + base['fatlen'] * base['fats'] - 1,
                base['length'] - base['count'] * (1 << base['spc']), base['length'] - base['count'] * (1 << base['spc']) + 1}
    if name == 'count':
        out |= {base['fatlen'] * (1 << base['shift']) // 4 - 2, base['fatlen'] * (1 << base['shift']) // 4 - 1, 0xfffffff5, 0xfffffff6}
    if name == 'length':
        out |= {(1 << 20 >> base['shift']) - 1, 1 << 20 >> base['shift'], base['heap'] + base['count'] * (1 << base['spc']), base['heap'] + base['count'] * (1 << base['spc']) - 1}
    if name == 'root':
        out |= {base['count'], base['count'] + 1, base['count'] + 2}
    if name == 'flags':
        out |= set(range(16))
    return sorted(x for x in out if 0 <= x < 1 << bits)


VOLS = [dict(), dict(fats = 2), dict(shift = 12), dict(spc = 3), dict(extra = 77), dict(spc = 5, clusters = 80), dict(spc = 0, clusters = 300, extra = 5000),
        dict(spc = 16), dict(shift = 10, spc = 15), dict(shift = 11, spc = 13), dict(shift = 12, spc = 13), dict(shift = 12, spc = 12),
        dict(huge = 0xfffffff5), dict(huge = 0x10000000), dict(huge = 0x0ffffff5, spc = 3)]
_B = []


def bases():
    if not _B:
        for kw in VOLS:
            v = exfat.Volume(**{k: x for k, x in kw.items() if k != 'huge'})
            main = bytearray(v.main)
            if 'huge' in kw:
                fatlen = ((kw['huge'] + 2) * 4 + 511) // 512
                struct.pack_into('<QLLLL', main, 72, 24 + fatlen + 8 + (kw['huge'] << main[109]), 24, fatlen, 24 + fatlen + 8, kw['huge'])
            if kw.get('extra') == 5000:
                # A heap placed far behind the tables.
                struct.pack_into('<L', main, 88, 2048)
            _B.append((bytes(main), ref_exfat(bytes(main))))
            if _B[-1][1][0] != 'ok':
                raise Violation('harness: base volume')
    return _B


def gen_exfat(th):
    def gen():
        names = [n for n, o, f in XF]
        for i, (main, (_, base)) in enumerate(bases()):
            yield i, ()
            for n in names:
                for x in xvalues(n, base):
                    if not th and i > 2 and dict((a, f) for a, o, f in XF)[n] == 'B' and x not in SMALL + [99, 100, 12, 13, 14, 9]:
                        continue
                    yield i, ((n, x),)
            # Larger clusters need a longer volume.
            for spc in range(0, 28):
                for shift in range(7, 15):
                    for length in (base['heap'] + (base['count'] << min(spc, 27)), base['heap'] + (base['count'] << min(spc, 27)) - 1):
                        yield i, (('spc', spc), ('shift', shift), ('length', length))
            if th or i in (0, 1, 6):
                pick = ['fatoff', 'fatlen', 'heap', 'count', 'length', 'fats', 'spc'] if th else ['fatlen', 'heap', 'count', 'length', 'spc']
                cut = {n: [x for x in xvalues(n, base) if dict((a, f) for a, o, f in XF)[n] != 'B' or x < 4] for n in pick}
                for a, b in itertools.combinations(pick, 2):
                    for x in cut[a]:
                        for y in cut[b]:
                            yield i, ((a, x), (b, y))
    return gen


def run_exfat(case, ctx):
    i, changes = case
    main = bytearray(bases()[i][0])
    at = {n: (o, f) for n, o, f in XF}
    for n, x in changes:
        struct.pack_into('<' + at[n][1], main, at[n][0], x)
    want, v = ref_exfat(bytes(main))
    shift = v['shift'] if 9 <= v['shift'] <= 12 else 9
    buf = exfat.boot_region(shift, bytes(main))
    ctx.op()
    try:
        b = exFAT.BR(buf)
    except NotImplementedError:
        equal('unsupported', want, 'boot region')
        return 'unsupported'
    except exFAT.BootRegionException as e:
        check(want == 'error' or (want == 'unsupported'), 'a boot region within the limits is rejected: {}', e)
        return 'error'
    equal('ok', want, 'boot region')
    got = (b.get_partitionoffset(), b.get_volumelength(), b.get_fatoffset(), b.get_fatlength(), b.get_clusterheapoffset(), b.get_clustercount(), b.get_firstclusterofrootdirectory(), b.get_volumeserialnumber(),
           b.get_filesystemrevision(), b.get_volumeflags(), b.get_bytespersector(), b.get_sectorspercluster(), b.get_numberoffats(), b.get_driveselect(), b.get_percentinuse())
    f = v['flags']
    equal(got, (v['offset'], v['length'], v['fatoff'], v['fatlen'], v['heap'], v['count'], v['root'], v['serial'], (v['major'], v['minor']), (f & 1 > 0, f & 2 > 0, f & 4 > 0, f & 8 > 0), 1 << v['shift'], 1 << v['spc'], v['fats'],
                v['drive'], v['percent'] if v['percent'] <= 100 else None), 'fields')
    return 'ok'


FLASH = uuid.UUID('0a0c7e46-3399-4021-90c8-fa6d389c4ba2').bytes_le


def gen_region(th):
    """The other sectors of a boot region: signatures of the extended boot sectors, OEM parameters, checksums."""
    def gen():
        for shift in (9, 10, 11, 12):
            for at in range(1, 9):
                for k in range(4):
                    yield 'sign', shift, at, k
            for oem in range(19):
                yield 'oem', shift, oem, 0
            for copy in range(4):
                for k in range(4):
                    yield 'sum', shift, copy, k
            # Every sector is covered by the checksum, but for three bytes.
            spots = [106, 107, 112, 105, 108, 111, 113, 119, 120, 509] + [(1 << shift) * n + d for n in range(1, 12) for d in (-1, 0, 1) if (1 << shift) * n + d < 11 << shift]
            for spot in spots:
                yield 'cover', shift, spot, 0
            for size in (11 << shift, (12 << shift) - 1, 12 << shift, (12 << shift) + 512, 24 << shift):
                yield 'size', shift, size, 0
    return gen


def run_region(case, ctx):
    kind, shift, at, k = case
    ss = 1 << shift
    raw = bytearray(exfat.boot_region(shift, bytes(exfat.Volume(shift = shift).main)))
    for n in range(1, 9):
        raw[n * ss + 508:n * ss + 512] = b'CODE'
        raw[n * ss + ss - 4:n * ss + ss] = bytes([n, 0x20 + n, 0x55, 0xaa])
    if kind == 'sign':
        raw[at * ss + ss - 4 + k] ^= 0x41
    if kind == 'oem':
        raw[10 * ss:10 * ss + 48] = FLASH + bytes(range(1, 33))
        if at < 16:
            raw[10 * ss + at] ^= 1
        elif at == 17:
            raw[10 * ss + 16:10 * ss + 44] = b'\xff' * 28
        elif at == 18:
            raw[10 * ss:10 * ss + 48] = bytes(48)
    good = True
    raw[11 * ss:] = struct.pack('<L', exfat.rot(bytes(raw[:11 * ss]), 32, (106, 107, 112))) * (ss // 4)
    if kind == 'sum':
        raw[11 * ss + at * 4 + k] ^= 0x10
        good = at == 3      # Only the first three copies are compared.
    elif kind == 'cover':
        raw[at] ^= 0x02 if at == 106 else 0x01
        good = at in (106, 107, 112)
    elif kind == 'size':
        raw = raw.ljust(at, b'\x00')[:at]
        good = at >= 12 * ss
    ctx.op()
    try:
        b = exFAT.BR(bytes(raw))
    except exFAT.BootRegionException as e:
        check(not good, 'an intact boot region is rejected: {}', e)
        return 'error'
    check(good, 'a damaged boot region is accepted ({})', case)
    for n in range(1, 9):
        equal(bytes(b.get_ebs_signature(n)), bytes(raw[n * ss + ss - 4:n * ss + ss]), 'signature of the extended boot sector {}'.format(n))
    for n in (-1, 0, 9, 10):
        try:
            b.get_ebs_signature(n)
        except ValueError:
            continue
        raise Violation('a signature of the extended boot sector {}'.format(n))
    oem = bytes(raw[10 * ss:10 * ss + 16])
    equal(b.get_oem_guid().bytes_le, oem, 'OEM parameters GUID')
    equal(tuple(b.get_oem_flash_parameters()), struct.unpack('<7L', raw[10 * ss + 16:10 * ss + 44]) if oem == FLASH else (None,) * 7, 'OEM flash parameters')
    equal(bytes(b.get_bs_bootcode()), bytes(raw[120:510]), 'boot code')
    equal((bytes(b.get_bs_jmpboot()), bytes(b.get_reserved())), (bytes(raw[:3]), bytes(raw[113:120])), 'jump code and reserved area')
    equal(b.get_checksum(), struct.unpack('<L', raw[11 * ss:11 * ss + 4])[0], 'checksum')
    return kind


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('ntfs', gen_ntfs(th), run_ntfs, 'NTFS: every 16-bit sector size, every byte for clusters and records (with 2 sector and 8 cluster sizes), 64-bit fields at every bit, buffer sizes, every signature byte'),
        Group('fat-type', gen_fattype(th), run_fattype, 'FAT: counts of clusters at the limits of the three types x sector, cluster, reserved, table and root sizes x the three places of the sector count'),
        Group('fat-fields', gen_fatfields(th), run_fatfields, 'FAT: every field at every 8-bit and boundary 16/32-bit value (thorough: every 16-bit), pairs (thorough: triples) of limits, 4 base volumes'),
        Group('fat-active', gen_fatact(th), run_fatact, 'FAT32: every active table number and mirroring flag x 7 counts of tables'),
        Group('fsinfo', gen_fsinfo(th), run_fsinfo, 'file system information: every bit of the signatures and fields; numbers of clusters reported as ambiguous'),
        Group('exfat', gen_exfat(th), run_exfat, 'exFAT: every field at its limits (bytes: every value), pairs of position and size fields, 15 base volumes, every pair of sector and cluster size with a volume just long enough'),
        Group('exfat-region', gen_region(th), run_region, 'exFAT, 4 sector sizes: signatures of the extended boot sectors, OEM parameters, bytes covered by the checksum, its copies, sizes of the region'),
    ]
