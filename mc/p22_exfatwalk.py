"""P22: walking an exFAT volume reports every reachable file once, with its data."""

import itertools
import struct
import sys

from dfir_ntfs.addons import exFAT

from . import exfat
from .core import Group, Violation, equal, check

ID = 'P22'
ASSUMPTIONS = ['the rules documented in exFAT.py: an entry leading back to a directory on its own path is a loop and is skipped; a deleted directory is entered if its first cluster is free (or with scan_reallocated, always); '
               'a deleted directory whose cluster was reallocated, was not visited from the root and starts with a deleted entry set is listed as an orphan directory, using the size and layout of its most recently modified entry',
               'the backup boot region is looked for at the places documented in exFAT.py (for sectors of 512 and of 4096 bytes)',
               'a directory whose size is not a whole number of 512-byte sectors is listed but not entered',
               'directory contents are decoded as in P21']


def allocated(v, c):
    if c < 2 or c > v.last:
        return None
    return c in v.bits[v.active]


def read(v, first, size = None, nofat = False):
    """The bytes of a chain, or None."""
    if nofat:
        n = (size + v.csize - 1) // v.csize
        ch = list(range(first, min(first + n, v.last + 1))) if first >= 2 else []
    else:
        ch = exfat.chain(v.table(), v.last, v.fatlen * v.bps, first)
        if ch == 'error':
            return None
    raw = b''.join(v.data.get(c, b'').ljust(v.csize, b'\x00') if c is not None else b'\x00' * v.csize for c in ch)
    return raw if size is None else raw[:size]


def reference(v, scan):
    realloc, visited = {}, set()

    def process(buf, path, above, root = False):
        out = []
        for x in exfat.parse_directory(buf, root):
            if x[0] == 'orphan':
                out.append(('orphan', path + '/' + x[1]))
            elif x[0] == 'label':
                out.append(x)
            elif x[0] == 'file':
                e = x[1]
                c = e['first_cluster']
                isdir = e['is_directory']
                if isdir and c and c in above:
                    continue
                out.append(('file', dict(e, name = path + '/' + e['name'])))
                a = allocated(v, c)
                if not isdir or a is None:
                    continue
                if e['is_deleted'] and a and not scan:
                    old = realloc.get(c)
                    if old is None or (e['mtime'] is not None and (old['mtime'] is None or e['mtime'] > old['mtime'])):
                        realloc[c] = e
                    continue
                visited.add(c)
                sub = read(v, c, e['size'], e['no_fat_chain'])
                if sub and len(sub) % 512 == 0:
                    out += process(sub, path + '/' + e['name'], above | {c})
            elif x[0] == 'error':
                raise Violation('harness: error in the root directory')
        return out

    main = process(read(v, v.root), '', {v.root}, True)
    orphans = {}
    for c in sorted(set(realloc) - visited):
        e = realloc[c]
        buf = read(v, c, e['size'], e['no_fat_chain'])
        if not buf or len(buf) % 512 or buf[0] != 5 or buf[32] != 0x40 or buf[64] != 0x41:
            continue
        out = process(buf, '<Orphan directory {}>'.format(c), {c})
        if out:
            orphans[c] = out
    return main, orphans


def observe(fs, scan, ctx, limit = 200000):
    ctx.op()
    main, orphans = [], {}
    for n, e in enumerate(fs.walk(scan)):
        check(n <= limit, 'the walk does not end')
        t = type(e).__name__
        if t == 'FileEntry':
            x, p = ('file', dict(e._asdict())), e.name
        elif t == 'OrphanEntry':
            x, p = ('orphan', e.name_partial), e.name_partial
        elif t == 'VolumeLabelEntry':
            x, p = ('label', e.volume_label), ''
        else:
            raise Violation('an unknown item: {}'.format(t))
        if p.startswith('<Orphan directory '):
            orphans.setdefault(int(p[len('<Orphan directory '):p.index('>')]), []).append(x)
        else:
            main.append(x)
    return main, orphans


def names(items):
    return [x[1]['name'] if x[0] == 'file' else x for x in items]


def compare(v, scan, ctx, off = 0, vsize = None, fs = None):
    if fs is None:
        fs = exFAT.FileSystemParser(v.image(off), off, vsize)
    want = reference(v, scan)
    got = observe(fs, scan, ctx)
    equal(names(got[0]), names(want[0]), 'paths')
    equal(got[0], want[0], 'entries')
    equal({k: names(x) for k, x in got[1].items()}, {k: names(x) for k, x in want[1].items()}, 'orphan directories')
    equal(got[1], want[1], 'entries of orphan directories')
    return len(got[0]), tuple(sorted((k, len(x)) for k, x in got[1].items()))


# --- Directory graphs

C = (6, 7, 8)


def item(tag, opt, v):
    """An entry set of a directory. opt: (kind, target): a / d: allocated / deleted with a chain, c / k: the same, contiguous."""
    if opt is None:
        return b''
    if opt == 'f':
        return exfat.file_set('file%d.txt' % tag, cluster = 20, size = 3)
    if opt == 'g':
        return exfat.file_set('gone%d.txt' % tag, cluster = 21, size = 3, used = False)
    kind, target = opt[:2]
    size = opt[2] if len(opt) > 2 else 512
    c = {'out': v.last + 1, 'root': v.root, 'last': v.last}.get(target, target)
    return exfat.file_set('dir%d' % tag, attr = 0x10, cluster = c, size = size, nofat = kind in 'ck', used = kind in 'ac')


OPTS = [None, 'f'] + [(k, t) for k in 'ad' for t in C[:2] + (0, 'out')] + [('a', C[2]), ('k', C[2]), ('c', C[0])]


def build(root, subs, alloc, **kw):
    v = exfat.Volume(**kw)
    v.data[v.root] = (v.root_entries() + b''.join(item(i, x, v) for i, x in enumerate(root))).ljust(v.csize, b'\x00')
    v.link(0, 0xfffffff8)
    v.link(1, exfat.EOC)
    for c in [v.root] + v.bitmap_clusters[:v.fats]:
        v.link(c, exfat.EOC)
        v.allocate(c)
    for i, x in enumerate(subs):
        c = C[i]
        v.data[c] = b''.join(item(10 * (i + 1) + j, o, v) for j, o in enumerate(x)).ljust(v.csize, b'\x00')
        v.link(c, exfat.EOC)
        if alloc & (1 << i):
            v.allocate(c)
    return v


def gen_graphs(th):
    def gen():
        for scan in (False, True):
            for alloc in range(8) if th else (0, 1, 2, 7):
                for a, b in itertools.product(OPTS, repeat = 2):
                    for x in OPTS:
                        for y in OPTS if th else [None, ('a', C[0]), ('a', C[1]), ('d', C[0]), ('d', C[1]), ('a', C[2]), ('k', C[2])]:
                            used = {o[1] for o in (a, b) if isinstance(o, tuple)}
                            if C[0] not in used and C[0] not in ({y[1]} if isinstance(y, tuple) else set()) and x is not None:
                                continue
                            if C[1] not in used and C[1] not in ({x[1]} if isinstance(x, tuple) else set()) and y is not None:
                                continue
                            yield scan, alloc, (a, b), ((x,), (y,), ('f',))
        deep = [None, ('a', C[0]), ('a', C[1]), ('c', C[2]), ('a', 'root'), ('d', C[1]), ('d', C[2]), 'g']
        for scan in (False, True):
            for alloc in (7, 0, 3):
                for a, x, y, z in itertools.product(deep, repeat = 4):
                    yield scan, alloc, (a,), ((x,), (y,), (z,))
    return gen


_CACHE = {}


def run_graph(case, ctx):
    scan, alloc, root, subs = case
    v = build(root, subs, alloc)
    return compare(v, scan, ctx)


def gen_orphans(th):
    """Deleted directories whose first clusters are in use."""
    def gen():
        bodies = ['set', 'plain', 'self', 'other', 'delother', 'name', 'full', 'label', 'used-0', 'used-32', 'used-64']
        entries = [('d', 512), ('k', 512), ('k', 1024), ('k', 100), ('d', 0), ('d', 1024), ('d', 513)]
        for body in bodies:
            for e1 in entries:
                for e2 in [None] + entries:
                    for t1, t2 in ((1, 2), (2, 1), (0, 1), (1, 0), (0, 0), (1, 1)) if e2 else ((1, 1), (0, 0)):
                        for visit in (None, 'before', 'after'):
                            for scan in (False, True):
                                yield body, e1, e2, t1, t2, visit, scan
    return gen


def run_orphans(case, ctx):
    body, e1, e2, t1, t2, visit, scan = case
    stamps = [0, exfat.stamp(2001), exfat.stamp(2002)]
    v = build((), (), 0)

    def deleted(tag, e, t):
        return exfat.file_set('del%d' % tag, attr = 0x10, cluster = 9, size = e[1], nofat = e[0] == 'k', used = False, mtime = stamps[t])
    raw = v.root_entries()
    if visit == 'before':
        raw += exfat.file_set('live', attr = 0x10, cluster = 9, size = 512)
    raw += deleted(1, e1, t1)
    if e2 is not None:
        raw += deleted(2, e2, t2)
    if visit == 'after':
        raw += exfat.file_set('live', attr = 0x10, cluster = 9, size = 512)
    raw += exfat.file_set('other', attr = 0x10, cluster = 12, size = 512, used = False)
    v.data[v.root] = raw.ljust(1024, b'\x00')[:512]
    v.data[v.root + 6] = raw.ljust(1024, b'\x00')[512:]
    v.link(v.root, v.root + 6)
    v.link(v.root + 6, exfat.EOC)
    v.allocate(v.root + 6, 9, 12)
    f = exfat.file_set('inside', used = False, cluster = 22, size = 4)
    g = exfat.file_set('inside2', cluster = 22, size = 4)
    if body == 'full':
        packed = b''.join(exfat.file_set('packed entry %d, long' % i, used = i != 0, cluster = 22, size = 4) for i in range(4))
        check(len(packed) == 512, 'harness: the cluster is not full')
    elif body.startswith('used-'):
        packed = bytearray(f + g)
        packed[int(body[5:])] |= 0x80
        packed = bytes(packed)
    else:
        packed = f + exfat.label_entry('inner') + g if body == 'label' else b''
    v.data[9] = {'set': f + g, 'plain': g + f, 'self': f + item(5, ('a', 9), v) + g, 'other': f + item(5, ('a', 12), v), 'delother': f + item(6, ('d', 12), v) + g,
                 'name': exfat.name_entries('leftover name', used = False)[0] + f}.get(body, packed).ljust(512, b'\x00')
    v.data[10] = exfat.file_set('second', cluster = 23, size = 5).ljust(512, b'\x00')
    v.data[13] = exfat.file_set('chained', cluster = 23, size = 5).ljust(512, b'\x00')
    v.data[12] = (exfat.file_set('in12', used = False) + item(7, ('a', 9), v)).ljust(512, b'\x00')
    v.link(9, 13)
    v.link(13, exfat.EOC)
    v.link(12, exfat.EOC)
    if body == 'plain':
        v.data[9] = v.data[9].replace(b'\x00' * 512, b'')
    return compare(v, scan, ctx)


# --- Data and layouts

def gen_chains(th):
    def gen():
        alpha = [0, 1, 6, 7, 8, 9, 'eoc', 'bad', 'out', 'last', 'res']
        for first in (6, 7, 0, 1, 'last', 'out', 'bad', 'eoc'):
            for a, b, c in itertools.product(alpha, repeat = 3):
                yield first, a, b, c
    return gen


def run_chains(case, ctx):
    v = build((), (), 0)
    val = {'eoc': exfat.EOC, 'bad': exfat.BAD, 'out': v.last + 1, 'last': v.last, 'res': 0xfffffff8}
    first, links = val.get(case[0], case[0]), [val.get(x, x) for x in case[1:]]
    for i, x in enumerate(links):
        v.link(6 + i, x)
    v.link(9, exfat.EOC)
    v.link(v.last, 9 if case[0] == 'last' else exfat.EOC)
    for c in (6, 7, 8, 9, v.last):
        v.data[c] = bytes([c & 0xff]) * 512
    fs = exFAT.FileSystemParser(v.image())
    want = exfat.chain(v.table(), v.last, v.fatlen * v.bps, first)
    ctx.op()
    try:
        got = fs.fat.chain(first)
    except exFAT.FileSystemException:
        got = 'error'
    equal(got, want, 'the chain')
    for size in (None, 0, 1, 512, 513, 1024, 2000, 1 << 40):
        for nofat in (False, True):
            ctx.op()
            w = read(v, first, size if size is not None or not nofat else 1 << 40, nofat)
            try:
                g = fs.read_chain(first, size if size is not None or not nofat else 1 << 40, nofat)
            except (exFAT.FileSystemException, ValueError):
                g = None
            check(g == w, 'the data of the chain: size {}, contiguous {}: {} bytes instead of {}', size, nofat, g and len(g), w and len(w))
    return repr(want)


def gen_starts(th):
    def gen():
        alpha = [0, 1, 2, 3, 4, 'eoc', 'bad', 'out', 'last']
        for spc in (0, 1, 3):
            for first in (2, 3, 4, 'last'):
                for a, b, c in itertools.product(alpha, repeat = 3):
                    yield spc, first, a, b, c
    return gen


def run_starts(case, ctx):
    """Chains and runs over the first and the last clusters of the heap, with clusters of several sectors."""
    spc = case[0]
    v = exfat.Volume(spc = spc, root = 9)
    val = {'eoc': exfat.EOC, 'bad': exfat.BAD, 'out': v.last + 1, 'last': v.last}
    v.bitmap_clusters = [10]
    v.data[9] = v.root_entries().ljust(v.csize, b'\x00')
    v.link(9, exfat.EOC)
    v.link(10, exfat.EOC)
    for i, x in enumerate(case[2:]):
        v.link(2 + i, val.get(x, x))
    v.link(v.last, exfat.EOC)
    for c in (2, 3, 4, 5, 6, v.last - 1, v.last):
        v.data[c] = bytes((c * 7 + i // 512 + i) & 0xff for i in range(v.csize))
    first = val.get(case[1], case[1])
    fs = exFAT.FileSystemParser(v.image())
    want = exfat.chain(v.table(), v.last, v.fatlen * v.bps, first)
    try:
        got = fs.fat.chain(first)
    except exFAT.FileSystemException:
        got = 'error'
    equal(got, want, 'the chain')
    for size in (None, 1, v.csize - 1, v.csize, v.csize + 1, 2 * v.csize, 2 * v.csize + 512, 3 * v.csize):
        for nofat in (False, True):
            ctx.op()
            k = size if size is not None or not nofat else 3 * v.csize
            w = read(v, first, k, nofat)
            try:
                g = fs.read_chain(first, k, nofat)
            except (exFAT.FileSystemException, ValueError):
                g = None
            check(g == w, 'the data of the chain: size {}, contiguous {}: {} bytes instead of {}', size, nofat, g and len(g), w and len(w))
    return repr(want)


def gen_elements(th):
    def gen():
        for clusters in (2047, 2046, 2174, 2175, 2048, 2300):
            for which in (0, 1):
                yield clusters, which
    return gen


def run_elements(case, ctx):
    """Every element of the table, up to the last cluster and no further."""
    clusters, which = case
    v = exfat.Volume(clusters = clusters, fats = 2, active = which)
    for i in range(2):
        for n in range(clusters + 2):
            v.link(n, (n * 0x9E3779B1 + i) & 0xffffffff, i)
    for c in (2, 3, 5):
        v.link(c, exfat.EOC)
    v.data[v.root] = v.root_entries().ljust(512, b'\x00')
    fs = exFAT.FileSystemParser(v.image())
    table = v.table()
    for n in range(0, clusters + 40):
        ctx.op()
        try:
            got = fs.fat.get_element(n)
        except exFAT.FileAllocationTableException:
            got = None
        equal(got, table(n) if n <= v.last else None, 'element {}'.format(n))
    equal(fs.fat.get_media_type(), table(0) & 0xff, 'media type')
    return clusters


def gen_media(th):
    def gen():
        for x in range(256):
            yield x
    return gen


def run_media(case, ctx):
    v = build((), (), 0)
    v.link(0, 0xffffff00 | case)
    ctx.op()
    equal(exFAT.FileSystemParser(v.image()).fat.get_media_type(), case, 'media type')
    return case


def gen_cut(th):
    def gen():
        for scan in (False, True):
            for how in ('image', 'volume'):
                for last in range(2019, 2034):
                    for part in (0, 1, 511):
                        for kind in 'adck':
                            yield scan, how, last, part, kind
    return gen


def run_cut(case, ctx):
    """An image that ends within the data: what is in front of the cut is listed, the rest ends in no other exception."""
    scan, how, last, part, kind = case
    b = 2020
    root = [(kind, b + i, 512 * (1 + i % 2)) for i in range(3)] + ['f']
    v = build((), (), 0)
    raw = v.root_entries() + b''.join(item(i, x, v) for i, x in enumerate(root))
    v.data[v.root] = raw.ljust(512, b'\x00')
    for c in range(b, b + 14):
        v.data[c] = (exfat.file_set('in%d' % c) + (item(c, ('a', c + 5), v) if c < b + 3 else b'')).ljust(512, b'\x00')
        v.link(c, c + 7 if c in (b + 1, b + 2) else exfat.EOC)
    end = (v.heap * v.bps) + (last - 1) * 512 + part
    off = 1024 if how == 'volume' else 0
    fs = exFAT.FileSystemParser(v.image(off, 0 if how == 'volume' else v.length * v.bps - end), off, end if how == 'volume' else None)
    got = observe(fs, scan, ctx)
    # The reference: directories which leave the image are listed, but not entered.
    full = dict(v.data)

    def gone(c, size, nofat):
        ch = list(range(c, c + (size + 511) // 512)) if nofat else exfat.chain(v.table(), v.last, v.fatlen * v.bps, c)
        return any(x > last for x in ch[:(size + 511) // 512])
    old = globals()['read']
    try:
        globals()['read'] = lambda v, first, size = None, nofat = False: None if size is not None and gone(first, size, nofat) else old(v, first, size, nofat)
        want = reference(v, scan)
    finally:
        globals()['read'] = old
    equal(names(got[0]), names(want[0]), 'paths')
    equal(got, want, 'entries')
    return len(got[0])


def gen_geometry(th):
    def gen():
        for shift in (9, 10, 11, 12):
            for spc in (0, 1, 3, 6):
                for fats, active in ((1, 0), (2, 0), (2, 1)):
                    for off in (0, 512, 1 << 20):
                        yield shift, spc, fats, active, off
    return gen


def run_geometry(case, ctx):
    shift, spc, fats, active, off = case
    v = exfat.Volume(shift = shift, spc = spc, fats = fats, active = active, extra = 5)
    other = 1 - active
    sub = [6, 12, 9]
    per = v.csize // 96
    body = b''.join(exfat.file_set('s%06d' % i, cluster = 14, size = (i * 97) % (3 * v.csize)) for i in range(3 * per))
    body = body.ljust(3 * v.csize, b'\xa1')
    root = v.root_entries() + exfat.label_entry('Vol') + exfat.file_set('sub', attr = 0x10, cluster = 6, size = 3 * v.csize) + exfat.file_set('contig', attr = 0x10, cluster = 17, size = 2 * v.csize, nofat = True)
    root += exfat.file_set('data', cluster = 14, size = 2 * v.csize + 3) + exfat.file_set('cdata', cluster = 20, size = v.csize * 3 - 1, nofat = True)
    root = root.ljust(2 * v.csize, b'\xa1')

    def spread(cl, data, linked = True):
        for i, c in enumerate(cl):
            v.data[c] = data[i * v.csize:(i + 1) * v.csize].ljust(v.csize, b'\x00')
            v.allocate(c)
            if linked:
                v.link(c, cl[i + 1] if i + 1 < len(cl) else exfat.EOC, active)
                if fats == 2:
                    v.link(c, exfat.BAD, other)
    v.link(0, 0xfffffff8)
    v.link(1, exfat.EOC)
    data = bytes((i * 11 + i // 253) & 0xff for i in range(3 * v.csize))
    spread([v.root, 11], root)
    spread(sub, body)
    spread([17, 18], body)
    spread([14, 8, 25], data)
    spread([20, 21, 22], data[::-1], False)
    for c in v.bitmap_clusters[:fats]:
        v.link(c, exfat.EOC)
    for i in range(fats):
        v.bits[i].update(v.bitmap_clusters[:fats])
    if fats == 2:
        v.bits[other] = {2, 3}
    fs = exFAT.FileSystemParser(v.image(off), off, v.length * v.bps)
    ctx.op()
    equal(fs.cluster_size, v.csize, 'cluster size')
    equal(fs.last_valid_cluster, v.last, 'last cluster')
    check(not fs.backup_used, 'the backup boot region is used')
    r = compare(v, False, ctx, off, None, fs)
    for c in range(0, v.last + 20):
        equal(fs.bm.is_allocated(c), allocated(v, c), 'allocation of cluster {}'.format(c))
    for e in fs.walk():
        if type(e).__name__ == 'FileEntry' and not e.is_directory and e.first_cluster in (14, 20):
            ctx.op()
            check(fs.read_chain(e.first_cluster, e.size, e.no_fat_chain) == (data if e.first_cluster == 14 else data[::-1])[:e.size], 'file data of {}', e.name)
    return r


# --- Boot regions

DAMAGE = ['ok', 'zero', 'sig', 'name', 'bpb', 'csum', 'body', 'shift8', 'shift13', 'version2', 'vflags', 'percent', 'other']


def region(kind, v, serial):
    main = bytearray(v.main)
    struct.pack_into('<L', main, 100, serial)
    if kind == 'zero':
        return b'\x00' * (12 * v.bps)
    if kind == 'name':
        main[3:11] = b'EXFAT\x00\x00\x00'
    if kind == 'bpb':
        main[40] = 1
    if kind == 'version2':
        main[105] = 2
    b = bytearray(exfat.boot_region(v.shift, bytes(main)))
    if kind == 'sig':
        b[510] = 0x54
    elif kind == 'csum':
        b[11 * v.bps] ^= 1
    elif kind == 'body':
        b[10 * v.bps + 77] ^= 0x10
    elif kind == 'shift8':
        b[108] = 8
    elif kind == 'shift13':
        b[108] = 13
    elif kind == 'vflags':
        b[106] |= 2
    elif kind == 'percent':
        b[112] = 99
    elif kind == 'other':
        # A whole intact region of a volume of another sector size.
        w = exfat.Volume(shift = 12 if v.shift == 9 else 9)
        b = bytearray(exfat.boot_region(w.shift, w.main))
        b = b[:12 * v.bps].ljust(12 * v.bps, b'\x00') if v.shift > w.shift else b[:12 * v.bps]
    return bytes(b)


GOOD = ('ok', 'vflags', 'percent')


def gen_boot(th):
    def gen():
        for shift in (9, 12):
            for a, b in itertools.product(DAMAGE, repeat = 2):
                for off in (0, 4096):
                    yield shift, a, b, off
    return gen


def run_boot(case, ctx):
    shift, a, b, off = case
    if a == 'other' and shift == 9:
        # The region for the other sector size would reach over the backup one.
        return 'skipped'
    v = build(('f',), (), 0, shift = shift)
    v.boots = [region(a, v, 0x11111111), region(b, v, 0x22222222)]
    if a == 'other' and shift == 12:
        # Describes another geometry; only what it says can be relied on.
        return 'skipped'
    ctx.op()
    try:
        fs = exFAT.FileSystemParser(v.image(off), off)
    except exFAT.BootRegionException:
        check(a not in GOOD and b not in GOOD, 'no boot region accepted: {} / {}', a, b)
        return 'rejected'
    check(a in GOOD or b in GOOD, 'a damaged boot region is accepted: {} / {}', a, b)
    equal(fs.backup_used, a not in GOOD, 'the backup boot region is used')
    equal(fs.br.get_volumeserialnumber(), 0x11111111 if a in GOOD else 0x22222222, 'the serial number')
    compare(v, False, ctx, off, None, fs)
    return fs.backup_used


def gen_bootbytes(th):
    def gen():
        for shift in (9, 12):
            size = 11 << shift
            for pos in range(0, size + 12, 1 if shift == 9 else 13 if th else 97):
                yield shift, pos
    return gen


def run_bootbytes(case, ctx):
    """A changed byte of the main boot region."""
    shift, pos = case
    v = build(('f',), (), 0, shift = shift)
    b = bytearray(exfat.boot_region(shift, v.main))
    b[pos] ^= 0x42
    ctx.op()
    free = pos in (106, 107, 112)
    for backup in (True, False):
        v.boots = [bytes(b), exfat.boot_region(shift, v.main) if backup else b'\xff' * (12 << shift)]
        try:
            fs = exFAT.FileSystemParser(v.image())
        except exFAT.FileSystemException:
            check(not backup and not free, 'no boot region accepted')
            continue
        check(backup or free, 'a changed boot region is accepted')
        equal(fs.backup_used, not free, 'the backup boot region is used')
    return free


def gen_bootsize(th):
    def gen():
        for shift in (9, 10, 11, 12):
            for n in list(range(0, 26 << shift, 512)) + [1, 511, 513, 6143, 6145]:
                yield shift, n
    return gen


def run_bootsize(case, ctx):
    """An image cut in the boot regions (both intact, or the main one damaged)."""
    shift, n = case
    v = build(('f',), (), 0, shift = shift)
    total = v.length * v.bps
    ctx.op()
    for damaged in (False, True):
        v.boots = [exfat.boot_region(shift, v.main)] * 2
        if damaged:
            v.boots = [b'\x00' * (12 << shift), v.boots[1]]
        try:
            exFAT.FileSystemParser(v.image(cut = total - n))
        except (exFAT.FileSystemException, ValueError):
            continue
        raise Violation('an image cut before the file system is accepted')
    return n


def gen_bitmaps(th):
    def gen():
        kinds = ['ok', 'short', 'empty', 'badchain', 'none', 'otherid', 'two', 'long']
        for fats, active in ((1, 0), (2, 0), (2, 1)):
            for k in kinds:
                for k2 in kinds if fats == 2 else ('ok',):
                    yield fats, active, k, k2
    return gen


def run_bitmaps(case, ctx):
    """Allocation bitmaps of all sorts."""
    fats, active, k, k2 = case
    v = exfat.Volume(fats = fats, active = active, clusters = 5000)
    ents = b''
    ok = None
    truth = {}
    for i in range(fats):
        kind = (k, k2)[i]
        cl = [(2, 30), (3, 31)][i]
        bits = set(range(2 + i, v.last + 1, 3 + i))
        raw = sum(1 << (c - 2) for c in bits).to_bytes(1024, 'little')
        v.data[cl[0]], v.data[cl[1]] = raw[:512], raw[512:]
        first, ident = cl[0], i
        v.link(cl[0], cl[1])
        v.link(cl[1], exfat.EOC)
        have = v.last + 1
        if kind == 'short':
            v.link(cl[0], exfat.EOC)
            have = 2 + 4096
        elif kind == 'long':
            v.link(cl[1], 40)
            v.link(40, exfat.EOC)
            v.data[40] = b'\xff' * 512
        elif kind == 'empty':
            first = 0
            have = 0
        elif kind == 'badchain':
            first = v.last + 7
        elif kind == 'otherid':
            ident = 1 - i
        elif kind == 'none':
            continue
        if kind == 'two':
            ents += exfat.bitmap_entry(ident, first, 625) if i == 0 and fats == 1 else b''
        ents += exfat.bitmap_entry(ident, first, 625)
        truth.setdefault(ident, (kind, bits, have))
    v.data[v.root] = (ents + exfat.file_set('f', cluster = 9, size = 3) + exfat.file_set('d', attr = 0x10, cluster = 4200, size = 512)).ljust(512, b'\x00')
    v.data[4200] = exfat.file_set('in', cluster = 9, size = 3).ljust(512, b'\x00')
    for c in (v.root, 9, 4200):
        v.link(c, exfat.EOC)
    want = truth.get(active)
    ctx.op()
    try:
        fs = exFAT.FileSystemParser(v.image())
    except exFAT.FileSystemException:
        check(want is None or want[0] == 'badchain', 'a volume with an allocation bitmap is rejected')
        return 'rejected'
    check(want is not None and want[0] != 'badchain', 'a volume without an allocation bitmap is accepted')
    kind, bits, have = want
    for c in list(range(0, 20)) + list(range(4080, 4120)) + list(range(v.last - 20, v.last + 20)):
        w = None if c < 2 or c > v.last or c >= have else c in bits
        equal(fs.bm.is_allocated(c), w, 'allocation of cluster {}'.format(c))
    got = [e.name for e in fs.walk()]
    equal(got, ['/f', '/d'] + (['/d/in'] if have > 4200 else []), 'paths')
    return kind


def gen_deep(th):
    def gen():
        for n in (10, 100, 900, 1200, 3000 if th else 1500):
            for loop in (None, 'first', 'last', 'middle'):
                yield n, loop
    return gen


def run_deep(case, ctx):
    n, loop = case
    v = exfat.Volume(clusters = n + 3000)
    v.link(2, exfat.EOC)
    v.data[2] = v.bitmap(0)[:512]
    cl = [v.root] + list(range(10, 10 + n))
    v.allocate(*cl)
    raw = v.bitmap(0)
    # A bitmap of several clusters, at the end.
    k = (len(raw) + 511) // 512
    base = v.last - k
    for i in range(k):
        v.data[base + i] = raw[i * 512:(i + 1) * 512].ljust(512, b'\x00')
        v.link(base + i, base + i + 1 if i + 1 < k else exfat.EOC)
    v.bitmap_clusters = [base]
    for i, c in enumerate(cl):
        v.link(c, exfat.EOC)
        body = v.root_entries() if i == 0 else b''
        if i < n:
            body += exfat.file_set('d', attr = 0x10, cluster = cl[i + 1], size = 512)
        elif loop:
            body += exfat.file_set('loop', attr = 0x10, cluster = {'first': v.root, 'last': c, 'middle': cl[n // 2]}[loop], size = 512)
        body += exfat.file_set('f')
        v.data[c] = body.ljust(512, b'\x00')
    fs = exFAT.FileSystemParser(v.image())
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        got = [e.name for e in fs.walk()]
    finally:
        sys.setrecursionlimit(old)
    ctx.op()
    want = ['/d' * i + '/d' for i in range(n)] + ['/d' * i + '/f' for i in range(n, -1, -1)]
    equal(got, want, 'paths')
    return n, loop


def gen_sizes(th):
    def gen():
        for size in list(range(0, 40)) + [511, 512, 513, 1023, 1024, 1025, 1536, 1537, 4096, 1 << 40, (1 << 64) - 1]:
            for kind in 'adck':
                for scan in (False, True):
                    for alloc in (False, True):
                        yield size, kind, scan, alloc
    return gen


def run_sizes(case, ctx):
    """A directory of every size, followed by other entries."""
    size, kind, scan, alloc = case
    v = build((('a', 8), (kind, 6, size), 'f'), (('f', ('a', 8)), ('g', 'f'), ('f',)), 4 | (1 if alloc else 0))
    v.link(6, 10)
    v.link(10, exfat.EOC)
    v.data[10] = exfat.file_set('tenth').ljust(512, b'\x00')
    return compare(v, scan, ctx)


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('graphs', gen_graphs(th), run_graph, 'every graph of a root with 2 entries and 3 directories over 13 entry kinds (files, directories with chains and contiguous, deleted, loops, clusters outside), all allocation patterns (quick: 4), both modes'),
        Group('orphans', gen_orphans(th), run_orphans, 'one or two deleted entries of a reallocated directory x sizes, layouts and times x 11 contents x visited before, after or not'),
        Group('sizes', gen_sizes(th), run_sizes, 'directory sizes x layouts, deleted or not'),
        Group('chains', gen_chains(th), run_chains, 'every table of 3 linked clusters over 11 values from 8 starts x 8 sizes, chained and contiguous'),
        Group('starts', gen_starts(th), run_starts, 'every table of the first 3 clusters over 9 values from 4 starts x 3 cluster sizes x 8 sizes, chained and contiguous'),
        Group('elements', gen_elements(th), run_elements, 'every element of tables of 6 sizes (filled up to the last byte or not), first and second table active'),
        Group('media', gen_media(th), run_media, 'every media type'),
        Group('cut', gen_cut(th), run_cut, 'images and volumes ending within the data: 15 clusters x 3 positions x 4 kinds of directories, both modes'),
        Group('geometry', gen_geometry(th), run_geometry, 'sector sizes x cluster sizes x FATs (second one active) x volume offsets: fragmented and contiguous directories and files'),
        Group('boot', gen_boot(th), run_boot, 'every pair of 13 states of the two boot regions for 512 and 4096-byte sectors'),
        Group('boot-bytes', gen_bootbytes(th), run_bootbytes, 'a changed byte at every position of the main boot region (4096-byte sectors: every 97th, thorough 13th), with and without an intact backup'),
        Group('boot-size', gen_bootsize(th), run_bootsize, 'images cut at every 512 bytes of the boot regions'),
        Group('bitmaps', gen_bitmaps(th), run_bitmaps, 'allocation bitmaps: 8 states of either, with one and two FATs'),
        Group('deep', gen_deep(th), run_deep, 'nested directories up to 1500 (thorough 3000) levels, with loops'),
    ]
