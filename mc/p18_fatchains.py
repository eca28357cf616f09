"""P18: FAT chains are followed exactly and always end."""

import io
import itertools

from dfir_ntfs.addons import FAT

from . import fat
from .core import Group, Violation, equal, check

ID = 'P18'
ASSUMPTIONS = ['element widths and special values as in FATGEN 1.03; the high 4 bits of a FAT32 element are ignored',
               'a chain leaving the volume or starting at the bad cluster mark is an error (FileAllocationTableException); one meeting a bad cluster ends with None, one meeting a free or reserved value or itself ends there']


def get(f, n):
    try:
        return f.get_element(n)
    except FAT.FileAllocationTableException:
        return None


def get_chain(f, n):
    try:
        return f.chain(n)
    except FAT.FileAllocationTableException:
        return 'error'


def gen_elements(th):
    def gen():
        for width in (12, 16, 32):
            for size in (512, 1024, 1536):
                full = size * 8 // width
                for last in sorted({2, 3, full - 2, full - 1, full, full + 7}):
                    for off in (0, 512, 4096 + 512):
                        for pattern in (0, 1, 2):
                            yield width, size, last, off, pattern
    return gen


def run_elements(case, ctx):
    width, size, last, off, pattern = case
    full = size * 8 // width
    top = {12: 0xfff, 16: 0xffff, 32: 0xffffffff}[width]
    values = {n: [(n * 0x9e3779b1 + 0x55) & top, n & top, (top - n) & top][pattern] for n in range(full)}
    table = fat.pack_fat(width, values, size)
    data = b'\xa5' * off + table + b'\x5a' * 2048
    f = FAT.FAT(io.BytesIO(data), off, size, last, width)
    for n in range(full + 10):
        ctx.op()
        want = fat.element(width, table, n) if n <= last else None
        if want is not None:
            equal(want, values[n] & fat.TOP[width], 'reference')
        equal(get(f, n), want, 'element {}'.format(n))
        equal(f.is_allocated(n), None if want is None else want != 0, 'cluster {} is allocated'.format(n))
    e0, e1 = fat.element(width, table, 0), fat.element(width, table, 1)
    if width != 12:
        equal(f.is_volume_dirty(), e1 & {16: 0x8000, 32: 0x8000000}[width] == 0, 'volume is dirty')
        equal(f.are_hard_errors_detected(), e1 & {16: 0x4000, 32: 0x4000000}[width] == 0, 'hard errors detected')
    equal(f.get_bpb_media(), e0 & 0xff, 'media')
    # The image ends in the middle of the table.
    for cut in (0, 1, 2, 3, size // 2, size // 2 + 1, size - 1):
        f = FAT.FAT(io.BytesIO(data[:off + cut]), off, size, last, width)
        for n in {0, 1, 2, cut * 8 // width - 2, cut * 8 // width - 1, cut * 8 // width, cut * 8 // width + 1, last}:
            if n < 0 or n > last:
                continue
            ctx.op()
            got = get(f, n)
            want = fat.element(width, table, n)
            inside = want is not None and (12 * n + 15) // 8 < cut if width == 12 else n * width // 8 + width // 8 <= cut
            if width == 12 and want is not None and 12 * n + 12 <= cut * 8 and not inside:
                continue
            equal(got, want if inside else None, 'element {} of a truncated table'.format(n))
    return width


LINKS = [0, 1, 2, 3, 4, 5, 6, 7, 'bad', 'eoc', 'top', 'reserved', 'badhi']


def value(width, link):
    if link == 'bad':
        return fat.BAD[width]
    if link == 'eoc':
        return fat.EOC[width]
    if link == 'top':
        return fat.TOP[width]
    if link == 'reserved':
        return fat.BAD[width] - 1
    if link == 'badhi':
        return fat.TOP[width] - 3
    return link


def gen_chains(th):
    def gen():
        n = 5
        for links in itertools.product(LINKS if th else [x for x in LINKS if x != 'badhi'], repeat = n):
            if not th and sum(isinstance(x, str) or x in (1, 7) for x in links) > 3:
                continue
            yield links
    return gen


def run_chains(case, ctx):
    out = []
    for width in (12, 16, 32):
        values = {n + 2: value(width, x) for n, x in enumerate(case)}
        values[0], values[1] = fat.TOP[width] - 7, fat.TOP[width]
        values[7] = 2  # Outside of the volume, but inside of the table.
        table = fat.pack_fat(width, values if width != 32 else {k: v | 0xa0000000 for k, v in values.items()}, 512)
        f = FAT.FAT(io.BytesIO(table), 0, 512, 6, width)
        for start in (2, 3, 4, 5, 6):
            ctx.op()
            want = fat.chain(width, table, 6, start)
            equal(get_chain(f, start), want, 'FAT{} chain from {}'.format(width, start))
            out.append(len(want))
    return tuple(out)


def gen_starts(th):
    def gen():
        for width in (12, 16, 32):
            for last in (2, 3, 40):
                for start in list(range(0, 45)) + [fat.BAD[width] - 1, fat.BAD[width], fat.EOC[width], fat.TOP[width], 0xffff, 0x10000]:
                    for link in ('eoc', 0, 2, 'bad'):
                        yield width, last, start, link
    return gen


def run_starts(case, ctx):
    width, last, start, link = case
    table = fat.pack_fat(width, {n: value(width, link) for n in range(2, 60)}, 512)
    f = FAT.FAT(io.BytesIO(table), 0, 512, last, width)
    ctx.op()
    want = fat.chain(width, table, last, start)
    equal(get_chain(f, start), want, 'chain')
    return want


def gen_long(th):
    def gen():
        for width in (12, 16, 32):
            for n in (100, 500, 1000, 3000) if th else (100, 600, 1500):
                if width == 12 and n > 2000:
                    continue
                for order in ('up', 'down', 'mix'):
                    for end in ('eoc', 0, 'bad', 'loop-first', 'loop-last', 'out'):
                        yield width, n, order, end
    return gen


def run_long(case, ctx):
    width, n, order, end = case
    cl = list(range(2, n + 2))
    if order == 'down':
        cl.reverse()
    elif order == 'mix':
        step = 7 if n % 7 else 11
        cl = [2 + (i * step) % n for i in range(n)]
        if len(set(cl)) != n:
            cl = list(range(2, n + 2))
    values = {a: b for a, b in zip(cl, cl[1:])}
    values[cl[-1]] = {'loop-first': cl[0], 'loop-last': cl[-1], 'out': n + 2}.get(end, value(width, end) if end not in ('loop-first', 'loop-last', 'out') else None)
    size = ((n + 2) * width // 8 // 512 + 1) * 512
    table = fat.pack_fat(width, values, size)
    f = FAT.FAT(io.BytesIO(table), 0, size, n + 1, width)
    ctx.op()
    got = get_chain(f, cl[0])
    want = 'error' if end == 'out' else cl + ([None] if end == 'bad' else [])
    check(got == want, 'a chain of {} clusters is wrong', n)
    return end


def gen_read(th):
    def gen():
        for width in (12, 16, 32):
            for spc in (1, 4):
                for off in (0, 512 * 63):
                    for links in itertools.product([0, 3, 4, 5, 'eoc', 'bad', 'out'], repeat = 3):
                        yield width, spc, off, links
    return gen


def run_read(case, ctx):
    width, spc, off, links = case
    v = fat.Volume(width, spc = spc, extra_sectors = spc - 1)
    values = {}
    for i, x in enumerate(links):
        values[3 + i] = v.last + 1 if x == 'out' else value(width, x)
        v.link(3 + i, values[3 + i])
    v.link(2, fat.EOC[width])
    v.link(v.last, fat.EOC[width])
    values[2] = values[v.last] = fat.EOC[width]
    content = {}
    for n in (2, 3, 4, 5, 6, v.last):
        content[n] = bytes((n * 37 + i * 11 + i // 256) & 0xff for i in range(v.csize))
        v.data[n] = content[n]
    size = v.totsec * v.bps
    table = fat.pack_fat(width, v.tables[0], v.fatsz * v.bps)
    out = []
    for vsize, cut in ((None, 0), (size, 0), (max(4096, v.data_off + 2 * v.csize + v.csize - 1), 0), (None, size - v.data_off - 2 * v.csize - v.csize // 2)):
        img = v.image(off, cut)
        fs = FAT.FileSystemParser(img, off, vsize)
        equal(fs.fat_type, width, 'FAT type')
        limit = min(x for x in (vsize if vsize is not None else size, size - cut))
        for start in (0, 1, 2, 3, 4, 5, v.last, v.last + 1):
            want = fat.chain(width, table, v.last, start)
            for fsize in (None, 0, 1, v.csize - 1, v.csize, v.csize + 1, 2 * v.csize + 3, 4 * v.csize):
                ctx.op()
                try:
                    got = fs.read_chain(start, fsize) if fsize is not None else fs.read_chain(start)
                except FAT.FileSystemException:
                    got = 'error'
                except ValueError:
                    got = 'beyond'
                if want == 'error':
                    equal(got, 'error', 'data of a chain from {}'.format(start))
                    continue
                exp = b''
                for c in want:
                    if fsize is not None and len(exp) >= fsize:
                        break
                    if c is not None and v.data_off + (c - 1) * v.csize > limit:
                        exp = 'beyond'
                        break
                    exp += content.get(c, b'\x00' * v.csize) if c is not None else b'\x00' * v.csize
                if fsize is not None and exp != 'beyond':
                    exp = exp[:fsize]
                check(got == exp, 'data of a chain from {} (size {}, volume size {}): wrong', start, fsize, vsize)
                out.append(len(exp))
    return hash(tuple(out)) & 0xffff


def gen_geometry(th):
    def gen():
        for width in (12, 16, 32):
            for off in (0, 1, 256, 511, 512, 513, 1024):
                for size in (0, 256, 511, 512, 513, 768, 1024):
                    yield width, off, size
        for width in (0, 1, 8, 13, 24, 64):
            yield width, 0, 512
    return gen


def run_geometry(case, ctx):
    width, off, size = case
    ctx.op()
    try:
        FAT.FAT(io.BytesIO(b'\x00' * 4096), off, size, 10, width)
        ok = True
    except (FAT.FileAllocationTableException, ValueError):
        ok = False
    equal(ok, width in (12, 16, 32) and off % 512 == 0 and size >= 512 and size % 512 == 0, 'table accepted')
    return ok


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('elements', gen_elements(th), run_elements, 'every element of tables of 1-3 sectors of each width with 3 value patterns, last clusters around the table end, truncated images'),
        Group('chains', gen_chains(th), run_chains, 'every table of 5 clusters over the link values (free, reserved, each cluster, outside, bad, end marks) for each width, every start (quick: at most 3 special links)'),
        Group('starts', gen_starts(th), run_starts, 'every start cluster around the limits'),
        Group('long', gen_long(th), run_long, 'chains of up to 3000 clusters in three orders with six kinds of end'),
        Group('read', gen_read(th), run_read, 'data of every chain of up to 3 clusters over 7 links, 8 file sizes, 4 volume limits, cluster sizes 512 and 2048, volume offsets'),
        Group('geometry', gen_geometry(th), run_geometry, 'table offsets, sizes and widths'),
    ]
