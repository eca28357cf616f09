"""P14: both shadow copy parsers return the same bytes, and reading works like reading a file."""

import io
import itertools

from dfir_ntfs import ShadowCopy

from . import vss
from . import p13_snapshots as p13
from .core import Group, Violation, equal, check

ID = 'P14'
ASSUMPTIONS = ['as for P13', 'when the volume is now smaller than it was, the part of the shadow copy that fits is returned']

B = vss.BLOCK


def run_same(case, ctx):
    h, null, again = case
    m = p13.build(h, null, again = again)
    if m is None:
        return 'not applicable'
    v1, _ = vss.encode(m, False, total = 256)
    v2, s2 = vss.encode(m, True, total = 256)
    one = ShadowCopy.ShadowParser(vss.Image(v1, 256 * B))
    two = ShadowCopy.ShadowParserTwoVolumes(vss.Image(v2, 256 * B, B), vss.Image(s2, 256 * B, 3 * B), B, None, 3 * B)
    equal(sorted(map(tuple, one.shadows())), sorted(map(tuple, two.shadows())), 'shadow copies listed')
    for s in m.stores:
        one.select_shadow(10 + s.number)
        two.select_shadow(10 + s.number)
        one.seek(B)
        two.seek(B)
        a, b = one.read(5 * B), two.read(5 * B)
        ctx.op(2)
        if a != b:
            i = next(i for i in range(len(a)) if a[i:i + 1] != b[i:i + 1])
            raise Violation('shadow copy {}: the parsers differ at offset {} (one volume: {}, two volumes: {})'.format(s.number, B + i, a[i:i + 8], b[i:i + 8]))
        equal(len(a), 5 * B, 'bytes returned')
    return len(m.stores)


# Seeking and reading.

HISTORIES = [('s', 'w1', 's', 'w2', 'm13'), ('s', 'w1', 'o2b', 's', 'w1', 's')]
SIZES = [(4 * B, None), (4 * B, 4 * B), (4 * B + 1536, None), (4 * B + 1536, 4 * B + 1536), (3 * B, 4 * B), (4 * B, 2 * B + 512), (2 * B + 1, None), (4 * B + 700, 9 * B)]
_CACHE = {}


def setup(hist, size_i, two):
    key = (hist, size_i, two)
    if key not in _CACHE:
        size, given = SIZES[size_i]
        m = p13.build(HISTORIES[hist], True, size = size)
        vol, store = vss.encode(m, two, total = 64)
        whole = []
        for s in m.stores:
            b = vol[0]
            for x in range(1, 4):
                b += b''.join(m.expected(s.number, x))
            b += b'\x55' * (2 * B)
            whole.append(b[:min(size, given or size)])
        _CACHE[key] = (m, vol, store, whole, given)
    return _CACHE[key]


def make(hist, size_i, two):
    m, vol, store, whole, given = setup(hist, size_i, two)
    a = vss.Image(vol, 64 * B)
    if two:
        return ShadowCopy.ShadowParserTwoVolumes(a, vss.Image(store, 80 * B), 0, given), whole
    return ShadowCopy.ShadowParser(a, 0, given), whole


def positions(n):
    return sorted({0, 1, 511, 512, B - 1, B, B + 1, 2 * B - 1, 2 * B + 700, 3 * B, n - 1, n, n + 1, n + B, n - 513, n - B})


def gen_reads(tier):
    def g():
        for two in (False, True):
            for hist in range(len(HISTORIES)):
                for size_i in range(len(SIZES)):
                    n = min(SIZES[size_i][0], SIZES[size_i][1] or SIZES[size_i][0])
                    for pos in positions(n):
                        yield (two, hist, size_i, pos)
    return g


LENGTHS = [0, 1, 2, 511, 512, 513, B - 1, B, B + 1, 2 * B, 2 * B + 77, 5 * B, 100 * B, -1, None]


def run_reads(case, ctx):
    two, hist, size_i, pos = case
    p, whole = make(hist, size_i, two)
    for k in range(len(whole)):
        p.select_shadow(10 + k)
        f = io.BytesIO(whole[k])
        for n in LENGTHS:
            equal(p.seek(pos), pos, 'result of a seek')
            f.seek(pos)
            got, want = p.read(n), f.read(n)
            ctx.op()
            if got != want:
                raise Violation('shadow copy {}, read of {} bytes at {}: {} bytes are returned instead of {} (or different ones)'.format(k, n, pos, len(got), len(want)))
            equal(p.tell(), f.tell(), 'position after a read of {} bytes at {}'.format(n, pos))
    return len(whole)


OPS = [('seek', 0, 0), ('seek', B - 1, 0), ('seek', 2 * B + 5, 0), ('seek', -1, 0), ('seek', -3, 1), ('seek', 300, 1), ('seek', -2 * B, 1), ('seek', 0, 2), ('seek', -700, 2), ('seek', 9, 2),
       ('seek', -99 * B, 2), ('seek', 0, 3), ('read', 1), ('read', 512), ('read', B), ('read', B + 100), ('read', None), ('read', -1), ('read', 0), ('select', 0), ('select', 1), ('select', 99), ('close',)]


def gen_ops(depth, ops = None):
    ops = ops or OPS

    def g():
        for two in (False, True):
            for size_i in (0, 2, 5, 7):
                yield (two, size_i, ())
                for n in range(1, depth + 1):
                    for seq in itertools.product(range(len(ops)), repeat = n):
                        if ops[seq[-1]][0] == 'seek' and n < depth:
                            continue
                        yield (two, size_i, tuple(ops[i] for i in seq))
    return g


def run_ops(case, ctx):
    two, size_i, seq = case
    p, whole = make(0, size_i, two)
    for call in ((lambda: p.seek(0)), p.tell, p.read, p.close):
        try:
            call()
        except ValueError:
            pass
        else:
            raise Violation('an operation works before a shadow copy is selected')
    p.select_shadow(10)
    f = io.BytesIO(whole[0])
    k = 0
    for op in seq:
        ctx.op()
        if op[0] == 'seek':
            base = {0: 0, 1: f.tell(), 2: len(whole[k])}.get(op[2])
            if base is None or base + op[1] < 0:
                try:
                    p.seek(op[1], op[2])
                except ValueError:
                    pass
                else:
                    raise Violation('an invalid seek {} succeeds'.format(op))
            else:
                equal(p.seek(op[1], op[2]), base + op[1], 'result of {}'.format(op))
                f.seek(base + op[1])
        elif op[0] == 'read':
            got, want = p.read(op[1]), f.read(op[1])
            if got != want:
                raise Violation('after {}: a read returns {} bytes instead of {} (or different ones)'.format(seq, len(got), len(want)))
        elif op[0] == 'select':
            try:
                p.select_shadow(10 + op[1])
            except ShadowCopy.ShadowCopyNotFoundException:
                check(op[1] == 99, 'a shadow copy cannot be selected')
            else:
                check(op[1] != 99, 'a shadow copy that does not exist is selected')
                k = op[1]
                f = io.BytesIO(whole[k])
        else:
            p.close()
        equal(p.tell(), f.tell(), 'position after {}'.format(op))
    # Whatever was done, the whole of the selected shadow copy can still be read.
    p.seek(0)
    check(p.read() == whole[k], 'the content differs after {}', seq)
    return f.tell()


def gen_same(depth):
    def g():
        for h in p13.histories(['s'] + p13.W + p13.D + p13.M + p13.O + ['i1'], depth):
            for null in (True, False):
                yield (h, null, not null)
    return g


def groups(tier):
    q = tier == 'quick'
    return [
        Group('same', gen_same(5 if q else 6), run_same, 'all histories of up to {} operations over 3 blocks, both parsers compared byte for byte'.format(5 if q else 6)),
        Group('reads', gen_reads(tier), run_reads, '2 parsers x 2 histories x 8 sizes (aligned, unaligned, shrunk, extended) x 16 positions x 15 lengths, every shadow copy'),
        Group('ops', gen_ops(2 if q else 3), run_ops, 'all sequences of up to {} operations over 23 (seek, read, select, close) x 2 parsers x 4 sizes'.format(2 if q else 3)),
        Group('ops-deep', gen_ops(4 if q else 5, [OPS[1], OPS[5], OPS[8], OPS[14], OPS[15], OPS[20]]), run_ops, 'all sequences of up to {} operations over 6'.format(4 if q else 5)),
    ]
