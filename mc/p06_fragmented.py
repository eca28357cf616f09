"""P06: a file read through its runs is the same as a flat in-memory file."""

import io
import itertools

from dfir_ntfs import MFT

from . import ntfs
from .core import Group, Violation, equal, check

ID = 'P06'
ASSUMPTIONS = ['small cluster sizes (the implementation takes the cluster size as a parameter) plus 512 and 4096 bytes', 'a volume object that returns short reads only at its end']

VOL_CLUSTERS = 7


def volume(cs, voff, tail):
    """A volume of VOL_CLUSTERS clusters (and a partial one of `tail` bytes) with no repeated bytes at equal phase."""
    n = VOL_CLUSTERS * cs + tail
    return bytes((0xF0 + i) & 0xFF for i in range(voff)) + bytes((1 + i * 7 + i // 251) % 255 + 1 for i in range(n))


def reference(vol, voff, cs, runs, size):
    """[byte or None (unreadable)] of the file."""
    out = []
    for lcn, count in runs:
        for k in range(count):
            if lcn is None:
                out += [0] * cs
            else:
                a = voff + (lcn + k) * cs
                piece = vol[a:a + cs]
                out += list(piece) if len(piece) == cs else [None] * cs
    out = out[:size]
    out += [None] * (size - len(out))
    return out


class Model(object):
    def __init__(self, content):
        self.c = content
        self.size = len(content)
        self.pos = 0

    def seek(self, off, whence):
        p = {0: 0, 1: self.pos, 2: self.size}[whence] + off
        if p < 0:
            return 'error'
        self.pos = p
        return p

    def read(self, n):
        if n is None or n < 0:
            n = max(0, self.size - self.pos)
        r = self.c[self.pos:self.pos + n]
        if None in r:
            return 'error'
        self.pos += len(r)
        return bytes(r)


def do(f, op):
    if op[0] == 'seek':
        try:
            return f.seek(op[1], op[2])
        except ValueError:
            return 'error'
    try:
        return f.read() if op[1] == 'all' else f.read(op[1])
    except MFT.MasterFileTableException:
        return 'error'


def mdo(m, op):
    if op[0] == 'seek':
        return m.seek(op[1], op[2])
    return m.read(None if op[1] == 'all' else op[1])


LCNS = (None, 0, 2, 5, 6)


def run_lists(maxruns, counts):
    for n in range(0, maxruns + 1):
        for runs in itertools.product(itertools.product(LCNS, counts), repeat = n):
            yield runs


def gen_pairs(maxruns, counts, css):
    def g():
        for cs, voff, tail in css:
            for runs in run_lists(maxruns, counts):
                yield (cs, voff, tail, runs)
    return g


def run_pairs(case, ctx):
    cs, voff, tail, runs = case
    vol = volume(cs, voff, tail)
    total = cs * sum(c for l, c in runs)
    sizes = sorted({0, 1, total - cs, total - cs + 1, total - 1, total, total + 1, total + cs}) if total else [0, 1]
    out = []
    for size in sizes:
        if size < 0:
            continue
        want = reference(vol, voff, cs, runs, size)
        img = ntfs.Image(vol)
        f = MFT.FragmentedFile(img, voff, cs, list(runs), size)
        for off in range(0, size + cs + 1):
            for n in list(range(0, size - off + 2)) + [size - off + cs, None]:
                if n is not None and n < 0:
                    continue
                f.seek(off)
                ctx.op()
                piece = want[off:] if n is None else want[off:off + n]
                exp = 'error' if None in piece else bytes(piece)
                got = do(f, ('read', n))
                if got != exp:
                    raise Violation('file of {} bytes, runs {}, cluster {}: read({}) at {}: expected {}, got {}'.format(size, runs, cs, n, off, exp, got))
                if exp != 'error':
                    equal(f.tell(), off + len(exp), 'position after read({}) at {}'.format(n, off))
        check(not img.writes, 'the volume was written to')
        ctx.state(('size', cs, voff, runs, size))
        out.append(size)
    return tuple(out)


OPS = [('read', 0), ('read', 1), ('read', 3), ('read', 4), ('read', 9), ('read', 'all'), ('read', None), ('read', -1),
       ('seek', 0, 0), ('seek', 3, 0), ('seek', 4, 0), ('seek', 10, 0), ('seek', 30, 0), ('seek', -1, 0),
       ('seek', 0, 1), ('seek', 1, 1), ('seek', -2, 1), ('seek', -100, 1), ('seek', 0, 2), ('seek', -1, 2), ('seek', -5, 2), ('seek', 2, 2), ('seek', -100, 2)]

SEQ_FILES = [
    (4, 0, ((2, 1), (None, 1), (5, 2)), 16),
    (4, 6, ((5, 1), (0, 2), (None, 1)), 13),
    (4, 0, ((6, 1), (2, 1)), 6),
    (4, 0, ((2, 1), (6, 3)), 12),
    (4, 0, (), 0),
    (1, 3, ((None, 3), (1, 2), (4, 3)), 7),
]


def gen_seq(depth):
    def g():
        for i in range(len(SEQ_FILES)):
            for ops in itertools.product(range(len(OPS)), repeat = 2):
                yield (i, ops, depth)
    return g


def run_seq(case, ctx):
    i, prefix, depth = case
    cs, voff, runs, size = SEQ_FILES[i]
    vol = volume(cs, voff, 0)
    content = reference(vol, voff, cs, runs, size)
    last = None
    for suffix in itertools.product(range(len(OPS)), repeat = depth - 2):
        f = MFT.FragmentedFile(ntfs.Image(vol), voff, cs, list(runs), size)
        m = Model(content)
        for k in prefix + suffix:
            op = OPS[k]
            ctx.op()
            want = mdo(m, op)
            got = do(f, op)
            if got != want:
                raise Violation('file {}: after {}: {} returned {}, expected {}'.format(SEQ_FILES[i], [OPS[j] for j in prefix + suffix], op, got, want))
            if want == 'error' and op[0] == 'read':
                break
            if f.tell() != m.pos:
                raise Violation('file {}: {}: position {}, expected {}'.format(SEQ_FILES[i], [OPS[j] for j in prefix + suffix], f.tell(), m.pos))
        ctx.state((i, m.pos))
        last = m.pos
    return last


def gen_whence():
    for w in (3, -1, 7):
        yield w


def run_whence(case, ctx):
    f = MFT.FragmentedFile(ntfs.Image(volume(4, 0, 0)), 0, 4, [(0, 2)], 8)
    f.seek(3)
    ctx.op()
    try:
        f.seek(0, case)
    except ValueError:
        equal(f.tell(), 3, 'position after an invalid seek')
        return 'rejected'
    raise Violation('seek with whence {} was accepted'.format(case))


def gen_values():
    """Nonresident attribute values read through a file record: run lists, sizes and cluster sizes."""
    for cs in (512, 1024, 4096):
        for voff in (0, 512, 1000):
            for runs in (((2, 1),), ((5, 1), (1, 2)), ((None, 2), (3, 1)), ((6, 1), (None, 1), (1, 1))):
                total = cs * sum(c for l, c in runs)
                for size in (total, total - 1, total - cs + 1):
                    for split in (0, 1):
                        yield (cs, voff, runs, size, split)


def run_values(case, ctx):
    cs, voff, runs, size, split = case
    vol = volume(cs, voff, 0)
    total = sum(c for l, c in runs)
    if split and len(runs) > 1:
        first = runs[0][1]
        a = ntfs.attr_nonresident(0x80, ntfs.mp_encode(runs[:1]), 0, first - 1, size, name = 'st', allocated = total * cs)
        b = ntfs.attr_nonresident(0x80, ntfs.mp_encode(runs[1:]), first, total - 1, 0, name = 'st', allocated = 0)
        recs = [ntfs.system_frs(i) for i in range(6)] + [ntfs.frs([a], number = 6), ntfs.frs([b], number = 7, base = ntfs.ref(6, 1))]
    else:
        a = ntfs.attr_nonresident(0x80, ntfs.mp_encode(runs), 0, total - 1, size, name = 'st', allocated = total * cs)
        recs = [ntfs.system_frs(i) for i in range(6)] + [ntfs.frs([a], number = 6)]
    mft = MFT.MasterFileTableParser(ntfs.Image(b''.join(recs)))
    fr = mft.get_file_record_by_number(6)
    attrs = [x for x in fr.attributes(True) if x.type_code == 0x80]
    equal(len(attrs), 1, 'number of data attributes')
    want = bytes(reference(vol, voff, cs, runs, size))
    ctx.op(3)
    equal(attrs[0].file_size, size, 'file size')
    got = MFT.FragmentedFile(ntfs.Image(vol), voff, cs, attrs[0].data_runs, attrs[0].file_size).read()
    if got != want:
        raise Violation('value of {} bytes differs from the stored {} bytes'.format(len(got), len(want)))
    return len(got)


def groups(tier):
    th = tier == 'thorough'
    css = ((1, 0, 0), (2, 3, 1), (4, 0, 3))
    return [
        Group('whence', gen_whence, run_whence, 'invalid seek origins'),
        Group('values', gen_values, run_values, 'nonresident values through file records: 3 cluster sizes x 3 volume offsets x 4 run lists x 3 sizes x split or not'),
        Group('pairs', gen_pairs(3, (1, 2, 3) if th else (1, 2), css), run_pairs, 'all run lists of <=3 runs of 1..{} clusters over 5 locations (1 sparse, 1 past the end), 8 file sizes each, every offset and length; cluster sizes 1, 2, 4'.format(3 if th else 2)),
        Group('quads', gen_pairs(4, (1,), ((2, 1, 0),)), run_pairs, 'all run lists of <=4 one-cluster runs, every offset and length'),
        Group('sequences', gen_seq(5 if th else 4), run_seq, 'all sequences of {} operations over {} seeks and reads on {} files'.format(5 if th else 4, len(OPS), len(SEQ_FILES)), cpu = 400),
    ]
