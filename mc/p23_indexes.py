"""P23: directory indexes list exactly their entries; slack space yields what is really there."""

import itertools
import struct

from dfir_ntfs import Attributes, MFT

from . import ntfs
from .core import Group, Violation, equal, check

ID = 'P23'
ASSUMPTIONS = ['the size of the index blocks of a directory is taken from its first block (as documented in the code): when that block is damaged, no block is listed',
               'an entry with no key ends a node (the end marker has none); an end marker reported as an entry without a key is not counted as an entry',
               'slack space is searched at positions of the same parity as its end, for four plausible timestamps (1997-2060) followed by a valid file name, as documented in the code',
               'the fixups of index blocks are checked by P02']

END, NODE = 2, 1
T0 = 130000000000000000


def fn(name, n = 1, **kw):
    d = dict(c = T0 + n, m = T0 + 2 * n, e = T0 + 3 * n, a = T0 + 4 * n, alloc = 4096 * n, size = 1000 + n)
    d.update(kw)
    return ntfs.v_file_name(ntfs.ref(5, 5), name, **d)


def walk(raw, base):
    """The entries of a node whose header is at the given offset."""
    first, free = struct.unpack('<LL', raw[base:base + 8])
    end = min(base + free, len(raw))
    pos = base + first
    out = []
    while pos + 16 <= end:
        ref, length, attr, flags = struct.unpack('<QHHH', raw[pos:pos + 14])
        if length < 16 or pos + length > end or attr == 0 or attr > length - 16:
            break
        if flags & END:
            break
        vcn = struct.unpack('<Q', raw[pos + length - 8:pos + length])[0] if flags & NODE else None
        out.append((ref, length, attr, flags, bytes(raw[pos + 16:pos + 16 + attr]), vcn))
        pos += (length + 7) // 8 * 8
    return out


def observe(obj, ctx):
    ctx.op()
    out = []
    ended = False
    for n, e in enumerate(obj.index_entries()):
        check(n < 100000, 'the enumeration does not end')
        check(not ended, 'an entry after the end marker is listed')
        if e.get_flags() & END:
            ended = True
            equal(e.get_attribute(), None, 'the key of an end marker')
            continue
        a = e.get_attribute()
        out.append((e.get_file_reference(), e.get_length(), e.get_attribute_length(), e.get_flags(), bytes(a) if a is not None else None, e.get_vcn()))
    return out


def both(node, ctx, root_only = False):
    """node(base) -> the raw bytes; compare root and block."""
    r = []
    raw = node('root')
    want = walk(raw, 16)
    equal(observe(Attributes.IndexRoot(bytes(raw)), ctx), want, 'entries of a root')
    r.append(len(want))
    raw = node('block')
    want = walk(raw, 24)
    blk = Attributes.IndexBuffer(bytes(raw))
    equal(observe(blk, ctx), want, 'entries of a block')
    equal(bytes(blk.get_slack()), bytes(raw[24 + struct.unpack_from('<L', raw, 28)[0]:]), 'slack space of a block')
    r.append(len(want))
    return tuple(r)


KINDS = {
    'a': lambda i: ntfs.index_entry(ntfs.ref(40 + i, i + 1), fn('a%d' % i, i + 1)),
    'l': lambda i: ntfs.index_entry(ntfs.ref(60 + i, i + 1), fn('long name %d' % i * 8, i + 1)),
    'n': lambda i: ntfs.index_entry(ntfs.ref(80 + i, i + 1), fn('node%d' % i, i + 1), NODE, 0x1122334455 + i),
    'N': lambda i: ntfs.index_entry(ntfs.ref(90 + i, i + 1), fn('nod%d' % i, i + 1), NODE, 0),
    's': lambda i: ntfs.index_entry(ntfs.ref(99, 1), b'xyz'),
    'x': lambda i: ntfs.index_entry((1 << 64) - 1 - i, fn('\u044f\U0001f600', i), 0x10),
    'E': lambda i: ntfs.index_entry(0, b'', END),
    'e': lambda i: ntfs.index_entry(0, b'', END | NODE, 7),
    'k': lambda i: ntfs.index_entry(ntfs.ref(77, 7), fn('key%d' % i, i), END),
}


def gen_lists(th):
    def gen():
        for n in range(0, 5 if th else 4):
            for seq in itertools.product(KINDS, repeat = n):
                for tail in ('', 'a') if n < 3 or th else ('a',):
                    yield seq, tail
    return gen


def run_lists(case, ctx):
    seq, tail = case
    ents = [KINDS[k](i) for i, k in enumerate(seq)]
    stale = b''.join(KINDS[k](50 + i) for i, k in enumerate(tail))

    def node(what):
        if what == 'root':
            return ntfs.index_root(ents, slack = stale)
        return ntfs.index_buffer_raw(ents, slack = stale)
    r = both(node, ctx)
    if all(k not in 'Eek' for k in seq):
        equal(r, (len(seq), len(seq)), 'number of entries')
    # The block read through its attribute, fixups applied.
    blk = ntfs.protect(ntfs.index_buffer_raw(ents, slack = stale, vcn = 3, lsn = 9), 0x777)
    ia = Attributes.IndexAllocation(Stream(blk))
    bufs = list(ia.index_buffers())
    equal(len(bufs), 1, 'number of blocks')
    b = bufs[0]
    equal((b.get_this_block(), b.get_logfile_sequence_number()), (3, 9), 'block header')
    raw = ntfs.index_buffer_raw(ents, slack = stale, vcn = 3, lsn = 9)
    equal(observe(b, ctx), walk(raw, 24), 'entries of a block read from a directory')
    used = 24 + struct.unpack('<L', raw[28:32])[0]
    equal([bytes(x) for x in ia.get_slack()], [bytes(raw[used:])] if 4096 - used > 8 else [], 'slack space')
    equal(bytes(b.get_slack()), bytes(raw[used:]), 'slack space of a block')
    return r


class Stream(object):
    def __init__(self, data):
        self.f = ntfs.Image(data)
        self.file_size = len(data)

    def seek(self, o, w = 0):
        return self.f.seek(o, w)

    def read(self, n = None):
        return self.f.read(n)

    def tell(self):
        return self.f.tell()


VALS = {
    'len': [0, 1, 8, 15, 16, 17, 23, 24, 80, 84, 85, 88, 89, 96, 104, 176, 177, 65528, 65535],
    'attr': [0, 1, 65, 66, 67, 70, 72, 73, 80, 88, 89, 100, 200, 65535],
    'flags': [0, 1, 2, 3, 4, 0x8000, 0xffff],
    'ref': [0, (1 << 64) - 1],
}
HEAD = {
    'first': [0, 8, 15, 16, 17, 24, 40, 104, 105, 500, 4000, 0xffffffff],
    'free': [0, 15, 16, 17, 31, 32, 100, 104, 105, 150, 191, 192, 193, 280, 500, 4072, 4073, 0xffffffff],
    'avail': [0, 100, 0xffffffff],
    'hflags': [0, 1, 255],
}


def gen_damage(th):
    def gen():
        single = [(f, i, v) for f in VALS for i in range(4) for v in VALS[f]] + [(f, 0, v) for f in HEAD for v in HEAD[f]]
        yield ()
        for a in single:
            yield (a,)
        for a, b in itertools.combinations(single, 2):
            if (a[0], a[1]) == (b[0], b[1]):
                continue
            if not th and a[0] in ('ref', 'avail', 'hflags') or b[0] in ('ref', 'avail', 'hflags'):
                continue
            yield a, b
    return gen


def run_damage(case, ctx):
    ents = [ntfs.index_entry(ntfs.ref(40, 1), fn('ab')), ntfs.index_entry(ntfs.ref(41, 1), fn('cd', 2), NODE, 5), ntfs.index_entry(ntfs.ref(42, 1), fn('abcdefgh', 3)), ntfs.index_entry(0, b'', END)]
    stale = ntfs.index_entry(ntfs.ref(50, 1), fn('stale', 9)) * 3

    def node(what):
        raw = bytearray(ntfs.index_root(ents, slack = stale) if what == 'root' else ntfs.index_buffer_raw(ents, slack = stale))
        base = 16 if what == 'root' else 24
        pos = base + struct.unpack('<L', raw[base:base + 4])[0]
        at = []
        for e in ents:
            at.append(pos)
            pos += len(e)
        for f, i, v in case:
            off, fmt = {'len': (at[i] + 8, '<H'), 'attr': (at[i] + 10, '<H'), 'flags': (at[i] + 12, '<H'), 'ref': (at[i], '<Q'),
                        'first': (base, '<L'), 'free': (base + 4, '<L'), 'avail': (base + 8, '<L'), 'hflags': (base + 12, '<B')}[f]
            struct.pack_into(fmt, raw, off, v)
        return bytes(raw)
    return both(node, ctx)


def gen_blocks(th):
    def gen():
        states = ['ok', 'torn', 'zero', 'baad', 'usa', 'empty', 'full']
        for size in (1024, 2048, 4096, 65536 if th else 8192):
            for n in range(0, 5 if th else 4):
                for seq in itertools.product(states, repeat = n):
                    if seq and seq[0] == 'usa':
                        # A first block of another size.
                        continue
                    for tail in (0, 1, 511, size - 1) if n < 3 else (0,):
                        yield size, seq, tail
    return gen


def run_blocks(case, ctx):
    size, seq, tail = case
    parts, want, slack = [], [], []
    for i, s in enumerate(seq):
        ents = [ntfs.index_entry(ntfs.ref(100 + 10 * i + j, 1), fn('f%d_%d' % (i, j))) for j in range(2)] + [ntfs.index_entry(0, b'', END)]
        stale = b'stale %d' % i
        if s == 'empty':
            ents = ents[-1:]
        if s == 'full':
            first = (40 + 2 * (size // 512 + 1) + 7) // 8 * 8
            room = size - first
            one = ntfs.index_entry(7, fn('full%d' % i))
            ents = [one] * (room // len(one))
            # The last entry fills the node but for i bytes or so.
            stale = b''
        raw = ntfs.index_buffer_raw(ents, size = size, vcn = i, slack = stale)
        blk = bytearray(ntfs.protect(raw, 0x300 + i))
        if s == 'torn':
            blk[size - 1] ^= 0x40
        elif s == 'zero':
            blk = bytearray(size)
        elif s == 'baad':
            blk[:4] = b'BAAD'
        elif s == 'usa':
            struct.pack_into('<H', blk, 6, size // 512)
        else:
            want.append((i, walk(raw, 24)))
            used = 24 + struct.unpack('<L', raw[28:32])[0]
            if size - used > 8:
                slack.append(bytes(raw[used:]))
        parts.append(bytes(blk))
    data = b''.join(parts) + b'\x55' * tail
    if not seq or seq[0] in ('torn', 'zero', 'baad', 'usa'):
        want, slack = [], []
    ia = Attributes.IndexAllocation(Stream(data))
    got = [(b.get_this_block(), observe(b, ctx)) for b in ia.index_buffers()]
    equal(got, want, 'blocks')
    equal([bytes(x) for x in ia.get_slack()], slack, 'slack space')
    # Interleaved enumerations do not disturb each other.
    if len(want) > 1:
        g1, g2 = ia.index_buffers(), ia.index_buffers()
        a = [next(g1).get_this_block(), next(g2).get_this_block(), next(g1).get_this_block(), next(g2).get_this_block()]
        equal(a, [want[0][0], want[0][0], want[1][0], want[1][0]], 'interleaved enumerations')
    return len(want)


# --- Slack space

LO, HI = 125000000000000000, 145000000000000000
PRINTABLE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!"#$%&\'()*+,-.;<=>?@[]^_`{|}~ \t')


def carve(value, partial):
    """Names expected from a piece of slack space: ('full', attribute bytes) or ('name', text)."""
    out = []
    if len(value) < 8:
        return out
    pos = len(value) % 2
    first = None
    while pos + 32 <= len(value):
        if all(LO <= t <= HI for t in struct.unpack('<QQQQ', value[pos:pos + 32])) and (pos >= 8 or pos in (0, 4)):
            attr = value[pos - 8:] if pos >= 8 else b'\xff' * 8 + value[pos:]
            if len(attr) >= 65:
                name = attr[66:66 + 2 * attr[64]].decode('utf-16le', errors = 'replace')
                if name and '/' not in name and '\x00' not in name:
                    out.append(('full', attr))
                    if first is None:
                        first = max(pos - 8, 0)
                    pos += 68
                    continue
        pos += 2
    if partial and first is not None and first >= 10:
        p = first - 2
        while p > 0 and value[p:p + 2] == b'\x00\x00':
            p -= 2
        name = ''
        while p > 0:
            if value[p + 1] == 0 and chr(value[p]) in PRINTABLE:
                name = chr(value[p]) + name
            elif len(name) >= 5:
                break
            else:
                name = ''
            p -= 2
        if len(name) >= 5:
            out.append(('name', name))
    return out


def describe(attr):
    return (attr[:8], struct.unpack('<QQQQqqL', attr[8:60]) if len(attr) >= 60 else None, attr[64], attr[65] if len(attr) > 65 else None, attr[66:66 + 2 * attr[64]].decode('utf-16le', errors = 'replace'))


def run_carve(value, ctx):
    r = []
    for partial in (False, True):
        ctx.op()
        got = []
        for x in MFT.SlackSpace(value).carve(partial):
            if isinstance(x, str):
                got.append(('name', x))
            else:
                v = bytes(x.value)
                got.append(('full', describe(v)))
                equal(x.get_file_name(), got[-1][1][4], 'name')
                equal(struct.pack('<Q', x.get_parent_directory()), v[:8], 'parent directory')
                t = got[-1][1][1]
                equal((x.get_ctime(), x.get_mtime(), x.get_etime(), x.get_atime()), tuple(Attributes.DecodeFiletime(k) for k in t[:4]), 'timestamps')
        want = [(k, describe(v) if k == 'full' else v) for k, v in carve(value, partial)]
        equal(got, want, 'attributes in slack space (partial {})'.format(partial))
        r.append(len(got))
    return tuple(r)


ITEMS = {
    'fn': lambda: fn('first name'),
    'fn1': lambda: fn('x'),
    'odd': lambda: fn('abc'),
    'old': lambda: fn('old', c = LO - 1),
    'slash': lambda: fn('a/b'),
    'cut4': lambda: fn('cut four')[4:],
    'cut8': lambda: fn('cut eight')[8:],
    'cut9': lambda: fn('cut nine')[9:],
    'tail': lambda: fn('the tail only')[70:],
    'z2': lambda: b'\x00\x00',
    'z6': lambda: b'\x00' * 6,
    'z1': lambda: b'\x00',
    'ff8': lambda: b'\xff' * 8,
    'ts': lambda: struct.pack('<QQ', T0, T0),
    'name': lambda: 'left.txt'.encode('utf-16le'),
    'end': lambda: ntfs.index_entry(0, b'', END),
}


def gen_carve(th):
    def gen():
        for n in range(0, 5 if th else 4):
            for seq in itertools.product(ITEMS, repeat = n):
                yield seq
        if not th:
            for seq in itertools.product(('fn', 'odd', 'cut8', 'z1', 'z2', 'tail', 'name', 'ts'), repeat = 4):
                yield seq
    return gen


def run_carve_seq(seq, ctx):
    value = b''.join(ITEMS[x]() for x in seq)
    r = run_carve(value, ctx)
    if len(seq) <= 2:
        # A list of pieces is searched piece by piece.
        pieces = [ITEMS[x]() for x in seq]
        got = [x if isinstance(x, str) else x.get_file_name() for x in MFT.SlackSpace(pieces).carve(True)]
        want = [v if k == 'name' else describe(v)[4] for p in pieces for k, v in carve(p, True)]
        equal(got, want, 'attributes in a list of pieces')
    return r


def gen_edges(th):
    def gen():
        for i in range(4):
            for t in (0, LO - 1, LO, LO + 1, HI - 1, HI, HI + 1, (1 << 64) - 1):
                yield 'ts', i, t
        whole = len(fn('a file name'))
        for start in range(0, whole + 1):
            for end in range(start, whole + 1):
                yield 'cut', start, end
        for n in range(0, 256):
            for have in (0, 1, n, 2 * n, 2 * n + 3, 600):
                yield 'len', n, have
        for c in list(range(0, 256)) + [0x2f00, 0x2f2f, 0xd800, 0xdc00, 0xffff]:
            for p in range(3):
                yield 'char', c, p
        for off in range(0, 120):
            for tail in (0, 1, 2, 7):
                yield 'off', off, tail
        for text in range(1, 12):
            for pre in range(0, 12):
                for gap in range(0, 5):
                    yield 'partial', text, (pre, gap)
        for c in range(256):
            for hi in (0, 1):
                yield 'pchar', c, hi
    return gen


def run_edges(case, ctx):
    what, a, b = case
    if what == 'ts':
        k = dict(c = T0, m = T0, e = T0, a = T0)
        k['cmea'[a]] = b
        value = fn('name', **k)
    elif what == 'cut':
        value = fn('a file name')[a:b]
    elif what == 'len':
        value = bytearray(fn('y' * 255)[:66 + b])
        if len(value) > 64:
            value[64] = a
        value = bytes(value)
    elif what == 'char':
        nm = ['o', 'p', 'q']
        nm[b] = chr(a)
        value = ntfs.v_file_name(5, ''.join(nm).encode('utf-16le', 'surrogatepass'), c = T0, m = T0, e = T0, a = T0)
    elif what == 'off':
        value = b'\xee' * a + fn('at %d' % a) + b'\xee' * b
    elif what == 'partial':
        pre, gap = b
        value = b'\xfe\xff' * pre + ''.join(chr(0x61 + i) for i in range(a)).encode('utf-16le') + b'\x00\x00' * gap + b'\x30' * 2 * (gap % 2) + fn('next')
    else:
        value = b'\x01\x01' * 3 + 'abc'.encode('utf-16le') + bytes([a, b]) + 'defghi'.encode('utf-16le') + fn('next')
    return run_carve(value, ctx)


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('lists', gen_lists(th), run_lists, 'every list of up to 3 (thorough 4) entries over 9 kinds, with stale entries after the used part, in a root, a block, and a block read from a directory'),
        Group('damage', gen_damage(th), run_damage, 'every header and entry field at boundary values, one or two at a time, in a root and a block of 4 entries'),
        Group('blocks', gen_blocks(th), run_blocks, 'every sequence of up to 3 (thorough 4) blocks over 7 states for 4 block sizes, with partial last blocks'),
        Group('slack', gen_carve(th), run_carve_seq, 'every sequence of up to 3 (thorough 4) pieces of slack space over 16 kinds, and of 4 over 8'),
        Group('slack-edges', gen_edges(th), run_edges, 'timestamp limits, every part of an attribute, name lengths, characters, offsets and partly overwritten names'),
    ]
