"""P28: the memory carver finds every file control block it documents to find, and nothing else."""

import datetime
import itertools
import struct

from dfir_ntfs import MFT

from . import cli
from . import ntfs
from .core import Group, Violation, equal, check

ID = 'P28'
ASSUMPTIONS = ['the rules of the search are those documented in the code: pages of 4096 bytes, even offsets, the two-byte signature, the plausible range of timestamps, the areas scanned while the layout is unknown, and the numbers of candidates needed',
               'which of two equally frequent layouts is used is not specified (not enumerated)',
               'timestamps with an exact representation are enumerated, except at the limits of the plausible range']

MIN, MAX = 123000000000000000, 135000000000000000
SIG = b'\x02\x07'
EPOCH = datetime.datetime(1601, 1, 1)


def T(n):
    return 130000000000000000 + n * 10 * 1024 * 997


# The reference.

def candidates(image, dup = None, real = None):
    """All file control blocks: (position, dup, real, reference, the five timestamps)."""
    out = []
    for base in range(0, len(image), 4096):
        page = image[base:base + 4096]
        if len(page) < 512:
            break
        pos = 0
        while True:
            pos = page.find(SIG, pos)
            if pos < 0:
                break
            if pos % 2:
                pos += 1
                continue

            def value(rel):
                b = page[pos + rel:pos + rel + 8]
                return int.from_bytes(b, 'little') if len(b) == 8 else None

            def plausible(rel):
                v = value(rel)
                return v is not None and MIN <= v <= MAX

            d = next((x for x in (range(0, 144, 2) if dup is None else [dup]) if all(plausible(x + 8 * i) for i in range(4))), None)
            a = None
            if d is not None:
                a = next((x for x in (range(d + 56, 208, 2) if real is None else [real]) if plausible(x)), None)
            if a is None:
                pos += 2
                continue
            out.append((base + pos, d, a, value(8), tuple(value(d + 8 * i) for i in range(4)) + (value(a),)))
            pos += a + 8
    return out


def reference(image):
    """Return None if the layout cannot be guessed, 'unspecified' in the case of a tie, or the list of results."""
    first = candidates(image)[:100]
    if len(first) < 25:
        return None
    best = []
    for k in (1, 2):
        n = {}
        for c in first:
            n[c[k]] = n.get(c[k], 0) + 1
        top = max(n.values())
        if top < 20:
            return None
        if list(n.values()).count(top) > 1:
            return 'unspecified'
        best.append(next(v for v in n if n[v] == top))
    return candidates(image, *best)


def decode(t):
    return EPOCH + datetime.timedelta(microseconds = t // 10)


def near(got, t, what):
    check(isinstance(got, datetime.datetime), '{}: {} is returned', what, got)
    if (t - T(0)) % (10 * 1024 * 997) == 0:
        equal(got, decode(t), what)
    else:
        check(abs(got - decode(t)) <= datetime.timedelta(microseconds = 100), '{}: {} is returned for {}', what, got, t)


def collect(carver):
    out = []
    try:
        for x in carver.carve_fcb_timestamps():
            out.append(x)
    except ValueError:
        check(not out, 'file control blocks are returned before the layout is rejected')
        return None
    return out


def compare(image, ctx, again = False):
    want = reference(image)
    if want == 'unspecified':
        return want
    carver = MFT.MetadataCarver(ntfs.Image(image))
    for _ in range(2 if again else 1):
        got = collect(carver)
        ctx.op()
        if want is None:
            check(got is None, 'the layout is guessed from too few file control blocks ({} returned)', got and len(got))
            continue
        check(got is not None, 'the layout is not guessed, but {} file control blocks are there', len(want))
        p = [x.positions[0] for x in got]
        w = [x[0] for x in want]
        if p != w:
            raise Violation('file control blocks: missing at {}, unexpected at {}, {} returned'.format(sorted(set(w) - set(p))[:5], sorted(set(p) - set(w))[:5], len(p)))
        for x, (pos, d, a, ref, (c, m, e, at, real)) in zip(got, want):
            equal(tuple(x.positions), (pos, d, a), 'positions')
            equal(x.possible_file_reference, ref, 'file reference at {}'.format(pos))
            for g, t, what in ((x.ctime, c, 'C'), (x.mtime, m, 'M'), (x.etime, e, 'E'), (x.atime, at, 'A'), (x.atime_real, real, 'real A')):
                near(g, t, '{} timestamp at {}'.format(what, pos))
    return None if want is None else len(want)


# Images.

_N = [0]


def fcb(n, dup = 64, real = 136, times = None, ref = None, sig = SIG, fill = 0):
    """A file control block with distinct values."""
    b = bytearray(bytes([fill]) * max(dup + 32, real + 8, 16))
    b[0:2] = sig
    b[8:16] = struct.pack('<Q', (n + 1) << 48 | n + 77 if ref is None else ref)
    t = times or [T(5 * n + i) for i in range(5)]
    for i in range(4):
        b[dup + 8 * i:dup + 8 * i + 8] = struct.pack('<Q', t[i])
    b[real:real + 8] = struct.pack('<Q', t[4])
    return bytes(b)


def pages(blocks, size = 4096, gap = 0):
    """Place blocks into pages, none of them across a boundary."""
    out, cur = [], b''
    for b in blocks:
        if len(cur) + len(b) > size:
            out.append(cur.ljust(size, b'\x00'))
            cur = b''
        cur += b + b'\x00' * gap
    out.append(cur.ljust(size, b'\x00'))
    return b''.join(out)


_TRAIN = {}


def train(n = 28, dup = 64, real = 136):
    if (n, dup, real) not in _TRAIN:
        _TRAIN[n, dup, real] = pages([fcb(i, dup, real) for i in range(n)])
    return _TRAIN[n, dup, real]


# Learning the layout.

def gen_learn(th):
    A, B_, C = (64, 136), (72, 144), (56, 128)

    def g():
        for n in list(range(0, 32)) + list(range(97, 104)):
            yield ((n, A),)
        for layouts in ((A, B_), (B_, A), (A, (64, 144)), (A, (72, 136)), (A, (0, 136))):
            for n1 in (1, 4, 5, 6, 18, 19, 20, 21, 24, 25, 26, 49, 50, 51, 74, 75, 80, 81, 99, 100, 101):
                for n2 in (1, 4, 5, 6, 18, 19, 20, 21, 24, 25, 26, 49, 50, 51, 75, 100, 150):
                    yield ((n1, layouts[0]), (n2, layouts[1]))
        step = (7, 8, 9, 19, 20, 21, 40) if th else (8, 19, 20, 21)
        for ns in itertools.product(step, repeat = 3):
            for ls in itertools.permutations((A, B_, C)):
                yield tuple(zip(ns, ls))
    return g


def run_learn(case, ctx):
    blocks = [fcb(i, *l) for i, l in enumerate(l for n, l in case for _ in range(n))]
    return compare(pages(blocks), ctx, True)


def gen_layouts(th):
    def g():
        for d in list(range(16, 152, 2)) + [15, 17, 101, 143]:
            for a in range(d + 48, 216, 2 if th else 6):
                yield (d, a)
            for a in (d + 54, d + 55, d + 56, d + 57, 198, 200, 202, 204, 206, 207, 208, 210):
                if a >= d + 32:
                    yield (d, a)
    return g


def run_layouts(case, ctx):
    d, a = case
    return compare(pages([fcb(i, d, a) for i in range(25)]), ctx)


# The position of a file control block in the page, and the end of the image.

def gen_place(th):
    def g():
        for pos in list(range(0, 40)) + list(range(3800, 4096 + 1)):
            for junk in (0, 0x33):
                yield ('page', pos, junk)
        for pos in range(0, 4096, 2 if th else 34):
            yield ('page', pos, 2)
        for size in list(range(0, 2)) + list(range(500, 530)) + list(range(640, 670)) + [1024, 4095]:
            for pos in (0, 16, size - 144, size - 143, size - 142, size - 145, size - 146, size - 148):
                if pos >= 0:
                    yield ('cut', size, pos)
    return g


def run_place(case, ctx):
    if case[0] == 'page':
        _, pos, junk = case
        body = bytes([junk]) * pos + fcb(200)
        body = body.ljust(8192, bytes([junk]))
        img = train() + body + pages([fcb(300)])
    else:
        _, size, pos = case
        img = train() + (b'\x00' * pos + fcb(200)).ljust(size, b'\x00')[:size]
        img2 = train() + pages([fcb(1)]) + (b'\x00' * pos + fcb(200)).ljust(size, b'\x00')[:size]
        compare(img2, ctx)
    return compare(img, ctx)


# The values.

VALUES = [0, MIN - 1, MIN, MIN + 1, T(3), MAX - 1, MAX, MAX + 1, 1 << 63, (1 << 64) - 1]


def gen_values(th):
    few = [MIN - 1, MIN, MAX, MAX + 1]

    def g():
        for times in itertools.product(few, repeat = 5):
            yield times
        for i, j in itertools.combinations(range(5), 2):
            for a, b in itertools.product(VALUES, repeat = 2):
                t = [T(20 + k) for k in range(5)]
                t[i], t[j] = a, b
                yield tuple(t)
        for i in range(5):
            for bit in range(64):
                t = [T(20 + k) for k in range(5)]
                t[i] ^= 1 << bit
                yield tuple(t)
        for r in [0, 1, (1 << 48) - 1, 1 << 48, 0xFFFF << 48, (1 << 63), (1 << 64) - 1]:
            yield ('ref', r)
    return g


def run_values(case, ctx):
    if case[0] == 'ref':
        return compare(train() + pages([fcb(1, ref = case[1])]), ctx)
    return compare(train() + pages([fcb(150, times = case), fcb(160)], gap = 8), ctx)


# Arrangements.

def item(k, n):
    if k == 'ok':
        return fcb(n)
    if k == 'okfill':
        return fcb(n, fill = 2)
    if k == 'baddup':
        return fcb(n, times = [T(n), 5, T(n), T(n), T(n)])
    if k == 'badreal':
        return fcb(n, times = [T(n)] * 4 + [MAX + 1])
    if k == 'nosig':
        return fcb(n, sig = b'\x07\x02')
    if k == 'sig':
        return SIG
    if k == 'sigs':
        return SIG * 20
    if k == 'odd':
        return b'\x00'
    if k == 'pad':
        return b'\x00' * 70
    if k == 'moved':
        return fcb(n, 72, 144)              # Another layout.
    if k == 'nested':
        # A file control block in the middle of another one (not reported) and after its timestamps.
        b = bytearray(fcb(n).ljust(300, b'\x00'))
        b[16:18] = SIG
        b[80:82] = b[80:82]
        b[100:102] = SIG
        return bytes(b)
    if k == 'inner':
        # A signature without its own timestamps, and a valid one 16 bytes later.
        return SIG.ljust(16, b'\x00') + fcb(n)
    if k == 'inner2':
        # The first one is not valid, but the one within it is.
        b = bytearray(fcb(n, times = [T(n), 0, T(n), T(n), T(n)]).ljust(240, b'\x00'))
        inner = fcb(n + 1)
        b[96:96 + len(inner)] = inner
        return bytes(b)
    if k == 'stamps':
        return struct.pack('<8Q', *[T(n + i) for i in range(8)])
    if k == 'sigstamps':
        return SIG + b'\x00' * 6 + struct.pack('<24Q', *[T(n + i) for i in range(24)])
    raise ValueError(k)


ITEMS = ['ok', 'okfill', 'baddup', 'badreal', 'nosig', 'sig', 'sigs', 'odd', 'pad', 'moved', 'nested', 'inner', 'inner2', 'stamps', 'sigstamps']


def gen_items(th):
    def g():
        for n in range(0, 3):
            for seq in itertools.product(ITEMS, repeat = n):
                for lead in ((0, 3900, 3952, 4000, 4090) if n == 2 else range(3700, 4100, 2)):
                    yield (lead, seq)
        for seq in itertools.product(ITEMS if th else [i for i in ITEMS if i not in ('okfill', 'pad', 'nosig', 'sig')], repeat = 3):
            yield (0 if 'odd' in seq else 3800, seq)
        if th:
            few = ['ok', 'baddup', 'sigs', 'odd', 'nested', 'inner2', 'sigstamps', 'moved']
            for seq in itertools.product(few, repeat = 4):
                for lead in (0, 3700):
                    yield (lead, seq)
    return g


def run_items(case, ctx):
    lead, seq = case
    body = b'\x00' * lead + b''.join(item(k, 200 + 10 * i) for i, k in enumerate(seq))
    return compare(train() + body.ljust(8192, b'\x00') + pages([fcb(400)]), ctx)


# The items before, between and after the blocks the layout is learned from.

def gen_mixed(th):
    def g():
        for n in (24, 25, 26):
            for at in (0, 1, 12, n):
                for seq in itertools.product(ITEMS, repeat = 2 if th else 1):
                    yield (n, at, seq)
    return g


def run_mixed(case, ctx):
    n, at, seq = case
    blocks = [fcb(i) for i in range(n)]
    blocks[at:at] = [item(k, 300 + 10 * i) for i, k in enumerate(seq)]
    return compare(pages(blocks), ctx, True)


# The report.

HEADER = ['Possible MFT reference number', 'M timestamp', 'A timestamp', 'C timestamp', 'E timestamp', 'A timestamp (real)']


def gen_report():
    for lead, n in itertools.product((0, 2, 3900, 3950, 3954), (0, 1, 2, 30, 90)):
        yield (lead, n)


def run_report(case, ctx):
    lead, n = case
    img = train() + b'\x00' * lead + b''.join(fcb(100 + i) for i in range(n))
    img = img.ljust(-(-len(img) // 4096) * 4096, b'\x00')
    got = cli.rows(cli.run('ntfs_parser', ['--mem', 'IMG', 'OUT'], {'IMG': img}))
    ctx.op()
    want = []
    for pos, d, a, ref, (c, m, e, at, real) in reference(img):
        want.append([str(ref)] + [str(decode(t)) for t in (m, at, c, e, real)])
    equal(got[:1], [HEADER], 'header')
    equal(got[1:], want, 'rows')
    return len(want)


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('learn', gen_learn(th), run_learn, 'the numbers of file control blocks of up to three layouts, around every limit; every search repeated'),
        Group('layouts', gen_layouts(th), run_layouts, 'every position of the four timestamps and of the real one'),
        Group('place', gen_place(th), run_place, 'a file control block at every offset around a page boundary; images ending in every part of it'),
        Group('values', gen_values(th), run_values, 'all combinations of the limits for the five timestamps, pairs of 10 values, every bit'),
        Group('items', gen_items(th), run_items, 'all sequences of up to {} items out of 15, around the page boundary'.format(4 if th else 3)),
        Group('mixed', gen_mixed(th), run_mixed, 'items before, between and after the blocks the layout is learned from; every search repeated'),
        Group('report', gen_report, run_report, 'the report of the program'),
    ]
