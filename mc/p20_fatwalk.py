"""P20: walking a FAT volume reports every reachable file exactly once and ends."""

import itertools
import sys

from dfir_ntfs.addons import FAT

from . import fat
from .core import Group, Violation, equal, check

ID = 'P20'
ASSUMPTIONS = ['the rules documented in FAT.py: an entry leading back to a directory on its own path is a loop and is skipped; a deleted directory is entered if its first cluster is free and looks like the start of a directory (or with scan_reallocated, always), with one free following cluster which continues it; '
               'a deleted directory whose cluster was reallocated, was not visited from the root and starts with dot entries is listed as an orphan directory',
               'directory contents are decoded as in P19']

DOTS = fat.short(b'.          ', attr = 0x10, cluster = 0) + fat.short(b'..         ', attr = 0x10, cluster = 0)


def reference(v, table, scan, readable = None):
    """(entries reported from the root in order, {orphan cluster: entries})"""
    def read(first):
        ch = fat.chain(v.width, table, v.last, first)
        if ch == 'error' or (readable is not None and any(c is not None and c > readable for c in ch)):
            return None
        return b''.join(v.data.get(c, b'').ljust(v.csize, b'\x00') if c is not None else b'\x00' * v.csize for c in ch)

    def allocated(c):
        x = fat.element(v.width, table, c)
        return None if x is None or c > v.last else x != 0

    realloc, visited = set(), set()

    def process(buf, path, above):
        out = []
        for kind, e in fat.parse_directory(buf, v.width == 32):
            if kind == 'orphan':
                out.append(('orphan', path + '/' + e))
                continue
            isdir = e['is_directory'] and e['short_name'] not in ('.', '..')
            c = e['first_cluster']
            if isdir and c != 0 and c in above:
                continue
            full = dict(e)
            full['short_name'] = path + '/' + e['short_name']
            if e['long_name'] is not None:
                full['long_name'] = path + '/' + e['long_name']
            out.append(('file', full))
            if not isdir:
                continue
            a = allocated(c)
            if a is None:
                continue
            if e['is_deleted'] and a and not scan:
                realloc.add(c)
                continue
            visited.add(c)
            sub = read(c)
            if not sub:
                continue
            if e['is_deleted'] and not scan and sub[33:35] != b'. ':
                continue
            if e['is_deleted'] and len(sub) == v.csize and allocated(c + 1) is False:
                more = read(c + 1)
                if more and 0 not in (sub[-96], sub[-64], sub[-32], more[0]) and more[33:35] != b'. ':
                    sub += more
            out += process(sub, path + '/' + (e['long_name'] or e['short_name']), above | {c})
        return out

    if v.width == 32:
        root = read(v.rootclus)
        if root is None:
            return 'error', {}
        visited.add(v.rootclus)
        main = process(root, '', {v.rootclus})
    else:
        main = process(v.root.ljust(v.rootent * 32, b'\x00'), '', set())
    orphans = {}
    for c in sorted(realloc - visited):
        buf = read(c)
        if buf is None or buf[:2] != b'. ' or buf[32:35] != b'.. ':
            continue
        orphans[c] = process(buf, '<Orphan directory {}>'.format(c), {c})
    return main, orphans


def observe(fs, scan, ctx, limit = 200000):
    ctx.op()
    main, orphans = [], {}
    n = 0
    for e in fs.walk('ascii', scan):
        n += 1
        check(n <= limit, 'the walk does not end')
        if type(e).__name__ == 'FileEntry':
            item, p = ('file', dict(e._asdict())), e.short_name
        else:
            item, p = ('orphan', e.long_name_partial), e.long_name_partial
        if p.startswith('<Orphan directory '):
            orphans.setdefault(int(p[len('<Orphan directory '):p.index('>')]), []).append(item)
        else:
            main.append(item)
    return main, orphans


def compare(v, scan, ctx, off = 0, vsize = None, cut = 0, readable = None):
    table = fat.pack_fat(v.width, v.tables[0], v.fatsz * v.bps)
    fs = FAT.FileSystemParser(v.image(off, cut), off, vsize)
    equal(fs.fat_type, v.width, 'FAT type')
    want = reference(v, table, scan, readable)
    if want[0] == 'error':
        try:
            observe(fs, scan, ctx)
        except (FAT.FileSystemException, ValueError):
            return 'error'
        raise Violation('a damaged root directory is not reported')
    got = observe(fs, scan, ctx)
    equal([x[1]['short_name'] if x[0] == 'file' else x for x in got[0]], [x[1]['short_name'] if x[0] == 'file' else x for x in want[0]], 'paths')
    equal(got[0], want[0], 'entries')
    equal(got[1], {k: x for k, x in want[1].items() if x}, 'orphan directories')
    return len(got[0]), tuple(sorted((k, len(x)) for k, x in got[1].items()))


C = (4, 5, 6)


def item(tag, opt, v):
    """An entry of a directory."""
    if opt is None:
        return b''
    if opt == 'f':
        return fat.short(b'FILE%d   TXT' % tag, size = 3, cluster = 9)
    kind, target = opt
    c = {'out': v.last + 1, 'root': v.rootclus if v.width == 32 else 0}.get(target, target)
    name = b'DIR%d       ' % tag
    pre = b''
    if kind in ('l', 'dl'):
        pre = b''.join(fat.long_entries('Long directory %d name' % tag, name))
    e = fat.short(name, attr = 0x10, cluster = c)
    if kind in ('d', 'dl'):
        e = b'\xe5' + e[1:]
        pre = b''.join(b'\xe5' + pre[i + 1:i + 32] for i in range(0, len(pre), 32))
    if kind == 'u':     # Of an unknown status: after an unused entry.
        pre = b'\x00' * 32
    return pre + e


OPTS = [None, 'f'] + [(k, t) for k in 'ad' for t in C[:2] + (0, 'out')] + [('a', C[2]), ('d', C[2]), ('l', C[0])]


def build(width, root, subs, alloc, dots):
    v = fat.Volume(width)
    body = b''.join(item(i, x, v) for i, x in enumerate(root))
    if width == 32:
        v.data[2] = body.ljust(512, b'\x00')
        v.link(2, fat.EOC[32])
    else:
        v.root = body.ljust(512, b'\x00')
        v.link(2, fat.EOC[width])
    v.link(0, fat.TOP[width] - 7)
    v.link(1, fat.TOP[width])
    for i, c in enumerate(C):
        x = subs[i]
        v.data[c] = ((DOTS if dots & (1 << i) else b'') + b''.join(item(10 * (i + 1) // 5 + j, o, v) for j, o in enumerate(x))).ljust(512, b'\x00')
        if alloc & (1 << i):
            v.link(c, fat.EOC[width])
    return v


def gen_graphs(th):
    def gen():
        for scan in (False, True):
            for alloc in range(8):
                for a, b in itertools.product(OPTS, repeat = 2):
                    for x in OPTS:
                        for y in OPTS if th else [o for o in OPTS if o != 'f' and o != (('d', 'out'))]:
                            # Only what can be reached matters.
                            used = {o[1] for o in (a, b) if isinstance(o, tuple)}
                            if C[0] not in used and C[0] not in ({y[1]} if isinstance(y, tuple) else set()) and x is not None:
                                continue
                            if C[1] not in used and C[1] not in ({x[1]} if isinstance(x, tuple) else set()) and y is not None:
                                continue
                            yield 32, scan, alloc, 7, (a, b), ((x,), (y,), ('f',))
    return gen


def gen_graphs2(th):
    def gen():
        small = [None, 'f', ('a', C[0]), ('a', C[1]), ('d', C[0]), ('d', C[1]), ('a', C[2]), ('d', C[2])]
        for width in (12, 16):
            for scan in (False, True):
                for alloc in range(8):
                    for a, b, x, y in itertools.product(small, repeat = 4):
                        if width == 16 and (alloc not in (0, 7, 2) or b == 'f' or y == 'f'):
                            continue
                        yield width, scan, alloc, 7, (a, b), ((x,), (y,), ('f',))
        # Directories without dot entries, deeper graphs and the root as a child.
        deep = [None, ('a', C[0]), ('a', C[1]), ('a', C[2]), ('a', 'root'), ('d', C[1]), ('d', C[2])]
        for scan in (False, True):
            for dots in (7, 0, 5, 2):
                for alloc in (7, 0, 3):
                    for a, x, y, z in itertools.product(deep, repeat = 4):
                        yield 32, scan, alloc, dots, (a,), ((x,), (y,), (z,))
                    for a, x, y in itertools.product(deep, repeat = 3):
                        yield 32, scan, alloc, dots, (a, ('a', C[1])), ((x, 'f'), (y, ('l', C[0])), ())
    return gen


def run_graph(case, ctx):
    width, scan, alloc, dots, root, subs = case
    v = build(width, root, subs, alloc, dots)
    return compare(v, scan, ctx)


def gen_extra(th):
    """A deleted directory and the cluster after it."""
    def gen():
        for scan in (False, True):
            for full in (16, 15, 14, 13, 3, 'hole-1', 'hole-2', 'hole-3', 'hole-4'):
                for link in (0, 'eoc', 'next', 'bad', 'far', 'farfull'):
                    for nextlink in (0, 'eoc', 7, 'bad'):
                        for content in ('more', 'dots', 'zero', 'holefirst', 'dotted'):
                            for dele in ('a', 'd', 'dl', 'u', 'l'):
                                for where in (5, 'last'):
                                    yield scan, full, link, nextlink, content, dele, where
    return gen


def run_extra(case, ctx):
    scan, full, link, nextlink, content, dele, where = case
    v = fat.Volume(32)
    c = 5 if where == 5 else v.last
    v.link(2, fat.EOC[32])
    v.link(0, fat.TOP[32] - 7)
    v.data[2] = (item(1, (dele, c), v) + item(2, 'f', v)).ljust(512, b'\x00')
    count = 16 if isinstance(full, str) else full
    body = bytearray(DOTS + b''.join(fat.short(b'F%02d     TXT' % i) for i in range(count - 2)))
    if isinstance(full, str):
        k = len(body) - 32 * int(full[5:])
        body[k:k + 32] = b'\x00' * 32
    v.data[c] = bytes(body).ljust(512, b'\x00')
    v.link(c, {'eoc': fat.EOC[32], 'next': c + 1, 'bad': fat.BAD[32], 'far': 9, 'farfull': 9}.get(link, link))
    v.link(9, fat.EOC[32])
    v.data[9] = (fat.short(b'NINE    TXT') * (16 if link == 'farfull' else 1)).ljust(512, b'\x00')
    if where == 5:
        v.link(6, {'eoc': fat.EOC[32], 'bad': fat.BAD[32]}.get(nextlink, nextlink))
        v.link(7, 0)
        v.data[6] = {'more': fat.short(b'MORE1   TXT') + fat.short(b'MORE2   TXT'), 'dots': DOTS + fat.short(b'OTHER   TXT'), 'zero': b'',
                     'holefirst': b'\x00' * 32 + fat.short(b'MORE2   TXT'), 'dotted': fat.short(b'MORE1   TXT') + fat.short(b'X. N    TXT')}[content].ljust(512, b'\x00')
        v.data[7] = fat.short(b'SEVEN   TXT').ljust(512, b'\x00')
    return compare(v, scan, ctx)


def gen_orphans(th):
    """Deleted directories whose clusters were reallocated."""
    def gen():
        contents = ['dots', 'nodots', 'self', 'nested', 'delother', 'orphanlong', 'onedot', 'twodot', 'dotname', 'dotsname']
        for a, b in itertools.product(contents, repeat = 2):
            for visit in (False, True):
                for link in ('eoc', 'chain', 'bad', 'out'):
                    for scan in (False, True):
                        for width in (12, 32):
                            yield a, b, visit, link, scan, width
    return gen


def run_orphans(case, ctx):
    a, b, visit, link, scan, width = case
    v = fat.Volume(width)
    root = item(1, ('d', 5), v) + item(2, ('d', 6), v) + (item(3, ('a', 6), v) if visit else b'')
    v.link(2, fat.EOC[width])
    v.link(0, fat.TOP[width] - 7)
    if width == 32:
        v.data[2] = root.ljust(512, b'\x00')
    else:
        v.root = root.ljust(512, b'\x00')
    v.link(6, fat.EOC[width])
    v.link(5, {'eoc': fat.EOC[width], 'chain': 8, 'bad': fat.BAD[width], 'out': v.last + 1}[link])
    v.link(8, fat.EOC[width])
    v.data[8] = fat.short(b'EIGHT   TXT').ljust(512, b'\x00')
    for c, other, x in ((5, 6, a), (6, 5, b)):
        f = fat.short(b'IN%d     TXT' % c)
        v.data[c] = {'dots': DOTS + f, 'nodots': f * 3, 'self': DOTS + item(7, ('a', c), v) + f, 'nested': DOTS + item(8, ('a', other), v) + f,
                     'delother': DOTS + item(8, ('d', other), v) + f, 'orphanlong': DOTS + fat.long_entries('Orphan', b'NOSUCH  TXT')[0] + f,
                     'onedot': DOTS[:32] + f * 2, 'twodot': f + DOTS[32:] + f, 'dotname': b'.X' + DOTS[2:] + f, 'dotsname': DOTS[:34] + b'X' + DOTS[35:] + f}[x].ljust(512, b'\x00')
    return compare(v, scan, ctx)


def gen_cut(th):
    def gen():
        for width in (12, 32):
            for scan in (False, True):
                for how in ('image', 'volume'):
                    for last in range(2, 14):
                        for part in (0, 1, 511):
                            for kind in ('a', 'd', 'u'):
                                for link in ('eoc', 'chain', 'free'):
                                    yield width, scan, how, last, part, kind, link
        for width in (12, 16):
            for part in list(range(0, 512, 32)) + [1, 31, 33, 511]:
                yield width, False, 'root', 0, part, 'a', 'eoc'
    return gen


def run_cut(case, ctx):
    """An image (or a volume) that ends within the data: what is in front of the cut is listed."""
    width, scan, how, last, part, kind, link = case
    v = fat.Volume(width)
    v.link(0, fat.TOP[width] - 7)
    v.link(2, fat.EOC[width])
    root = b''.join(item(i, (kind, 4 + i), v) + item(i, 'f', v) for i in range(5))
    if width == 32:
        v.data[2] = root.ljust(512, b'\x00')
    else:
        v.root = root.ljust(512, b'\x00')
    for i in range(5):
        c = 4 + i
        v.data[c] = (DOTS + fat.short(b'IN%d     TXT' % i) + item(7, ('a', 10), v)).ljust(512, b'\x00')
        if link == 'eoc':
            v.link(c, fat.EOC[width])
        elif link == 'chain':
            v.link(c, 15 - i if 15 - i > 10 else fat.EOC[width])
        v.data[10 + i] = fat.short(b'M%d      TXT' % i).ljust(512, b'\x00')
    for c in range(10, 16):
        v.link(c, fat.EOC[width])
    if how == 'root':       # Within the root directory itself, which has a fixed place.
        fs = FAT.FileSystemParser(v.image(0, v.totsec * v.bps - (v.data_off - v.rootent * 32 + part)))
        try:
            observe(fs, scan, ctx)
        except (FAT.FileSystemException, ValueError):
            return 'error'
        raise Violation('a root directory cut after {} bytes is not reported'.format(part))
    end = v.data_off + (last - 1) * v.csize + part
    if how == 'image':
        return compare(v, scan, ctx, 0, None, v.totsec * v.bps - end, last)
    if end < 4096:
        return 'too small a volume'
    return compare(v, scan, ctx, 1024, end, 0, last)


def gen_misc(th):
    def gen():
        for width in (12, 16, 32):
            for off in (0, 512, 63 * 512):
                for spc in (1, 2, 8):
                    for bps in (512, 1024, 4096):
                        for chain in (1, 2, 3, 5):
                            yield width, off, spc, bps, chain
    return gen


def run_misc(case, ctx):
    """Root and subdirectories over several clusters, several geometries; data of the files."""
    width, off, spc, bps, chain = case
    v = fat.Volume(width, bps = bps, spc = spc, rootent = bps // 32 * chain, clusters = {12: 40, 16: 4085, 32: 40}[width])
    v.link(0, fat.TOP[width] - 7)
    per = v.csize // 32
    clusters = [3, 9, 4, 20, 7][:chain]
    rootcl = [2, 10, 11, 30, 12][:chain]

    def spread(cl, data):
        for i, c in enumerate(cl):
            v.data[c] = data[i * v.csize:(i + 1) * v.csize].ljust(v.csize, b'\x00')
            v.link(c, cl[i + 1] if i + 1 < len(cl) else fat.EOC[width])
    files = {}
    fdata = [25, 15, 26]
    content = bytes((i * 7 + i // 250) & 0xff for i in range(3 * v.csize))
    spread(fdata, content)
    sub = DOTS
    i = 0
    while len(sub) < v.csize * chain - 64:
        sub += fat.short(b'S%06d TXT' % i, cluster = 25, size = (i * 53) % (3 * v.csize + 1))
        i += 1
    spread(clusters, sub)
    root = b''
    rootmax = v.csize * chain if width == 32 else v.rootent * 32
    i = 0
    while len(root) < rootmax - 32 * 3:
        root += fat.short(b'R%06d DAT' % i, size = 1)
        i += 1
    root += b''.join(fat.long_entries('A dir', b'ADIR       ')) + fat.short(b'ADIR       ', attr = 0x10, cluster = 3)
    root += fat.short(b'LAST    DAT')
    if width == 32:
        spread(rootcl, root)
    else:
        v.root = root.ljust(v.rootent * 32, b'\x00')
    r = compare(v, False, ctx, off, v.totsec * v.bps)
    fs = FAT.FileSystemParser(v.image(off), off)
    n = 0
    for e in fs.walk():
        if type(e).__name__ == 'FileEntry' and e.first_cluster == 25:
            ctx.op()
            check(fs.read_chain(e.first_cluster, e.size) == content[:e.size], 'file data')
            n += 1
            if n > 20:
                break
    return r


def gen_deep(th):
    def gen():
        for n in (10, 100, 900, 1200, 3000 if th else 1500):
            for loop in (None, 'first', 'last', 'middle'):
                yield n, loop
    return gen


def run_deep(case, ctx):
    """Nested directories (with the default recursion limit of the interpreter)."""
    n, loop = case
    v = fat.Volume(32, clusters = n + 10)
    v.link(0, fat.TOP[32] - 7)
    for i in range(n + 1):
        c = 2 + i
        v.link(c, fat.EOC[32])
        body = DOTS if i else b''
        if i < n:
            body += fat.short(b'D          ', attr = 0x10, cluster = c + 1)
        elif loop:
            body += fat.short(b'LOOP       ', attr = 0x10, cluster = {'first': 2, 'last': c, 'middle': 2 + n // 2}[loop])
        body += fat.short(b'F%04d   TXT' % i)
        v.data[c] = body.ljust(512, b'\x00')
    fs = FAT.FileSystemParser(v.image())
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        got = [e.short_name for e in fs.walk()]
    finally:
        sys.setrecursionlimit(old)
    ctx.op()
    want = []
    for i in range(n):
        if i:
            want += ['/D' * i + '/.', '/D' * i + '/..']
        want.append('/D' * i + '/D')
    want += ['/D' * n + '/.', '/D' * n + '/..']
    for i in range(n, -1, -1):
        want.append('/D' * i + '/F%04d.TXT' % i)
    check(got == want, 'a chain of {} nested directories is not walked right: {} entries of {}', n, len(got), len(want))
    return n


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('graphs', gen_graphs(th), run_graph, 'FAT32: every pair of root entries x entry of either subdirectory over 13 kinds (allocated, deleted, long-named directories to each cluster, none, outside; a file), every allocation of 3 clusters, both scan modes'),
        Group('graphs-more', gen_graphs2(th), run_graph, 'FAT12/16 graphs over 8 kinds; FAT32 graphs of depth 4 with and without dot entries and links to the root'),
        Group('deleted-next', gen_extra(th), run_extra, 'a deleted directory and the cluster after it: fill, links, contents'),
        Group('orphans', gen_orphans(th), run_orphans, 'two reallocated deleted directories: contents referring to themselves and to each other, links'),
        Group('cut', gen_cut(th), run_cut, 'images and volumes ending within the data: 12 clusters x 3 positions, allocated, deleted and unknown directories x 3 kinds of links'),
        Group('layouts', gen_misc(th), run_misc, 'directories and files over several clusters, sector and cluster sizes, volume offsets'),
        Group('deep', gen_deep(th), run_deep, 'up to 1500 (thorough 3000) nested directories with and without loops'),
    ]
