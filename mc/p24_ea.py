"""P24: extended attributes and WSL metadata are decoded exactly."""

import datetime
import itertools
import struct

from dfir_ntfs import Attributes, MFT, WSL

from . import ntfs
from .core import Group, Violation, equal, check

ID = 'P24'
ASSUMPTIONS = ['packed lists as documented for FILE_FULL_EA_INFORMATION: a link of zero or a link to the end of the buffer ends the list; a damaged attribute ends it without being reported',
               'Linux extended attributes have names of at least two bytes (a namespace prefix)']


def ea(name, value, flags = 0, nxt = None, align = 4):
    body = struct.pack('<BBH', flags, len(name), len(value)) + name + b'\x00' + value
    total = (4 + len(body) + align - 1) // align * align
    return total, body


def ea_list(items, last = 0):
    """items: (name, value, flags, align)."""
    out = b''
    for i, (name, value, flags, align) in enumerate(items):
        total, body = ea(name, value, flags, None, align)
        end = i == len(items) - 1
        out += struct.pack('<L', (0 if last == 0 else total if last == 1 else 4 + len(body)) if end else total) + body
        if not end or last == 1:
            out += b'\x00' * (total - 4 - len(body))
    return out


def ref_list(buf):
    out = []
    pos = 0
    while len(buf) - pos > 8:
        nxt, flags, nl, vl = struct.unpack('<LBBH', buf[pos:pos + 8])
        end = pos + 9 + nl + vl
        if end > len(buf) or pos + nxt > len(buf) or buf[pos + 8 + nl] != 0:
            break
        out.append((buf[pos + 8:pos + 9 + nl], flags, buf[pos + 9 + nl:end]))
        if nxt == 0:
            break
        pos += nxt
    return out


def observe(buf, ctx):
    ctx.op()
    out = []
    for n, (name, flags, value) in enumerate(Attributes.EA(buf).data_parsed()):
        check(n < 100000, 'the list does not end')
        out.append((bytes(name), flags, bytes(value)))
    return out


NAMES = [b'', b'A', b'LXATTRB', b'$LXUID', b'N' * 255]
VALUES = [b'', b'v', b'12345', bytes(range(256)) + b'x' * 44]


def gen_lists(th):
    def gen():
        one = [(n, v, f, a) for n in range(len(NAMES)) for v in range(len(VALUES)) for f, a in ((0, 4), (0x80, 4), (1, 1))]
        small = [(n, v, f, a) for n in (1, 2, 4) for v in (0, 2, 3) for f, a in ((0, 4), (0x80, 1))]
        for last in (0, 1, 2):
            yield (), last
            for a in one:
                yield (a,), last
            for a, b in itertools.product(one, repeat = 2):
                yield (a, b), last
            for c in itertools.product(small, repeat = 3):
                yield c, last
        if th:
            for c in itertools.product(small, repeat = 4):
                yield c, 0
    return gen


def run_lists(case, ctx):
    items = [(NAMES[n], VALUES[v], f, a) for n, v, f, a in case[0]]
    buf = ea_list(items, case[1])
    want = [(n + b'\x00', f, v) for n, v, f, a in items]
    equal(ref_list(buf), want, 'harness')
    equal(observe(buf, ctx), want, 'attributes')
    return len(want)


def gen_damage(th):
    def gen():
        fields = []
        for i in range(3):
            fields += [('next', i, v) for v in (0, 1, 4, 7, 8, 9, 16, 20, 24, 28, 32, 36, 40, 80, 95, 96, 97, 0x7fffffff, 0xfffffff0, 0xffffffff)]
            fields += [('name', i, v) for v in (0, 1, 5, 6, 7, 8, 9, 20, 60, 254, 255)]
            fields += [('value', i, v) for v in (0, 1, 4, 5, 6, 7, 12, 40, 80, 0x7fff, 0xffff)]
            fields += [('nul', i, v) for v in (1, 255)]
        yield ()
        for a in fields:
            yield (a,)
        for a, b in itertools.combinations(fields, 2):
            if a[:2] != b[:2]:
                yield a, b
        if th:
            for a, b, c in itertools.combinations(fields, 3):
                if len({a[:2], b[:2], c[:2]}) == 3:
                    yield a, b, c
    return gen


def run_damage(case, ctx):
    items = [(b'FIRST', b'one', 0, 4), (b'SECOND', b'two two', 0x80, 4), (b'THIRD', b'333', 2, 4)]
    buf = bytearray(ea_list(items))
    pos = 0
    at = []
    for n, v, f, a in items:
        at.append(pos)
        pos += ea(n, v, f, None, a)[0]
    for f, i, v in case:
        if f == 'next':
            struct.pack_into('<L', buf, at[i], v)
        elif f == 'name':
            buf[at[i] + 5] = v
        elif f == 'value':
            struct.pack_into('<H', buf, at[i] + 6, v)
        else:
            buf[at[i] + 8 + len(items[i][0])] = v
    buf = bytes(buf)
    want = ref_list(buf)
    equal(observe(buf, ctx), want, 'attributes')
    return len(want)


def gen_cut(th):
    def gen():
        n = len(ea_list([(b'FIRST', b'one', 0, 4), (b'LXATTRB', b'q' * 56, 0, 4), (b'THIRD', b'333', 2, 4)]))
        for k in range(n + 1):
            for tail in (0, 1, 4, 8, 9):
                yield k, tail
    return gen


def run_cut(case, ctx):
    k, tail = case
    buf = ea_list([(b'FIRST', b'one', 0, 4), (b'LXATTRB', b'q' * 56, 0, 4), (b'THIRD', b'333', 2, 4)])[:k] + b'\x00' * tail
    want = ref_list(buf)
    equal(observe(buf, ctx), want, 'attributes')
    return len(want)


EPOCH = datetime.datetime(1970, 1, 1)


def when(s, ns):
    """Microseconds since 1970 of a time, or None when it cannot be represented."""
    if s * 10 ** 6 + ns // 1000 > (datetime.datetime.max - EPOCH) // datetime.timedelta(microseconds = 1):
        return None
    return s * 10 ** 9 + ns


def near(dt, ns, what):
    if ns is None:
        equal(dt, None, what)
        return
    check(dt is not None, '{}: nothing reported', what)
    got = (dt - EPOCH) // datetime.timedelta(microseconds = 1) * 1000
    check(abs(got - ns) <= 1000, '{}: {} is not {} ns', what, dt, ns)


FIELDS = [('mode', 4, 'L'), ('uid', 8, 'L'), ('gid', 12, 'L'), ('rdev', 16, 'L'), ('a_ns', 20, 'L'), ('m_ns', 24, 'L'), ('ch_ns', 28, 'L'), ('a', 32, 'Q'), ('m', 40, 'Q'), ('ch', 48, 'Q')]


def check_lxattrb(w, raw):
    f = {n: struct.unpack('<' + t, raw[o:o + struct.calcsize('<' + t)])[0] for n, o, t in FIELDS}
    equal((w.get_mode(), w.get_uid(), w.get_gid(), w.get_rdev()), (f['mode'], f['uid'], f['gid'], f['rdev']), 'mode, user, group, device')
    near(w.get_atime(), when(f['a'], f['a_ns']), 'last accessed')
    near(w.get_mtime(), when(f['m'], f['m_ns']), 'modified')
    near(w.get_chtime(), when(f['ch'], f['ch_ns']), 'inode changed')


BASE = {'mode': 0o100644, 'uid': 1000, 'gid': 1001, 'rdev': 0x803, 'a_ns': 123456789, 'm_ns': 223456789, 'ch_ns': 323456789, 'a': 1600000001, 'm': 1500000002, 'ch': 1400000003}


def lxattrb(fmt = 0, ver = 1, **kw):
    v = dict(BASE, **kw)
    raw = struct.pack('<HH', fmt, ver)
    for n, o, t in FIELDS:
        raw += struct.pack('<' + t, v[n])
    return raw


def gen_lxattrb(th):
    def gen():
        for n, o, t in FIELDS:
            bits = 8 * struct.calcsize('<' + t)
            vals = {0, (1 << bits) - 1} | {1 << i for i in range(bits)} | {(1 << i) - 1 for i in range(bits)} | {10 ** 9 - 1, 999999999 - 500, 1, 2 ** 31 - 1}
            for v in sorted(vals):
                yield 'field', n, v
        for ln in range(0, 70):
            yield 'size', ln, 0
        for fmt in (0, 1, 2, 0x100, 0xffff):
            for ver in (0, 1, 2, 0x100, 0x101, 0xffff):
                yield 'header', fmt, ver
    return gen


def run_lxattrb(case, ctx):
    what, a, b = case
    ctx.op()
    if what == 'field':
        raw = lxattrb(**{a: b})
        ok = True
    elif what == 'size':
        raw = (lxattrb() + b'\x00' * 20)[:a]
        ok = a == 56
    else:
        raw = lxattrb(a, b)
        ok = (a, b) == (0, 1)
    try:
        w = WSL.LXATTRB(raw)
    except ValueError:
        check(not ok, 'valid metadata is rejected')
        return 'rejected'
    check(ok, 'invalid metadata is accepted')
    check_lxattrb(w, raw)
    return 'accepted'


# --- Linux extended attributes

def xblock(name, value, nxt):
    return struct.pack('<LHB', nxt, len(value), len(name)) + name + value


def xlist(items, align = 1):
    out = struct.pack('<HH', 0, 1)
    for i, (n, v) in enumerate(items):
        size = 7 + len(n) + len(v)
        size = (size + align - 1) // align * align
        b = xblock(n, v, size if i < len(items) - 1 else 0)
        out += b.ljust(size, b'\x00') if i < len(items) - 1 else b
    return out


def ref_xlist(buf):
    out = []
    pos = 4
    while True:
        if len(buf) - pos < 9:
            break
        nxt, vl, nl = struct.unpack('<LHB', buf[pos:pos + 7])
        end = min(pos + nxt, len(buf)) if nxt else len(buf)
        if end - pos < 9 or nl == 0 or pos + 7 + nl + vl > end:
            break
        out.append((buf[pos + 7:pos + 7 + nl], buf[pos + 7 + nl:pos + 7 + nl + vl]))
        if not nxt:
            break
        pos += nxt
    return out


def observe_x(buf, ctx):
    ctx.op()
    try:
        x = WSL.LXXATTR(buf)
    except ValueError:
        return 'rejected'
    out = []
    for n, (name, value) in enumerate(x.extended_attributes()):
        check(n < 100000, 'the list does not end')
        out.append((bytes(name), bytes(value)))
    return out


XN = [b'user.a', b'security.capability', b'ab', b'u' * 255]
XV = [b'', b'1', b'value', b'V' * 300, b'W' * 5000, b'X' * 65535]


def gen_xlists(th):
    def gen():
        one = list(itertools.product(range(len(XN)), range(len(XV))))
        for n in range(1, 4 if th else 3):
            for seq in itertools.product(one, repeat = n):
                for align in (1, 4):
                    yield 'list', seq, align
        if not th:
            for seq in itertools.product([(0, 0), (1, 2), (2, 1), (2, 3)], repeat = 3):
                yield 'list', seq, 1
        n = len(xlist([(b'user.first', b'one'), (b'user.second', b'two'), (b'u3', b'')]))
        for k in range(n + 1):
            yield 'cut', k, 0
        for i in range(3):
            for v in (0, 1, 8, 9, 10, 19, 20, 21, 30, 40, 41, 42, 100, 0x7fffffff, 0xffffffff):
                yield 'next', i, v
            for v in (0, 1, 2, 3, 4, 5, 20, 50, 0xffff):
                yield 'value', i, v
            for v in (0, 1, 2, 9, 10, 11, 12, 255):
                yield 'name', i, v
        for fmt in (0, 1, 0x100, 0xffff):
            for ver in (0, 1, 2, 0x101, 0xffff):
                yield 'header', fmt, ver
    return gen


def run_xlists(case, ctx):
    what, a, b = case
    if what == 'list':
        items = [(XN[i], XV[j]) for i, j in a]
        buf = xlist(items, b)
        if len(buf) < 12 or len(items[-1][0]) + len(items[-1][1]) < 2:
            return 'short'
        equal(observe_x(buf, ctx), items, 'Linux attributes')
        return len(items)
    items = [(b'user.first', b'one'), (b'user.second', b'two'), (b'u3', b'')]
    buf = bytearray(xlist(items))
    at = [4, 4 + 20, 4 + 20 + 21]
    if what == 'cut':
        buf = buf[:a]
    elif what == 'next':
        struct.pack_into('<L', buf, at[a], b)
    elif what == 'value':
        struct.pack_into('<H', buf, at[a] + 4, b)
    elif what == 'name':
        buf[at[a] + 6] = b
    else:
        struct.pack_into('<HH', buf, 0, a, b)
    buf = bytes(buf)
    ok = len(buf) >= 12 and buf[:4] == b'\x00\x00\x01\x00'
    equal(observe_x(buf, ctx), ref_xlist(buf) if ok else 'rejected', 'Linux attributes')
    return what


def gen_records(th):
    def gen():
        for n in range(1, 4):
            for seq in itertools.product(('lx', 'bad', 'other', 'xattr'), repeat = n):
                for split in (False, True):
                    yield seq, split
    return gen


def run_records(case, ctx):
    """Found through a file record."""
    seq, split = case
    items = []
    for i, k in enumerate(seq):
        items.append({'lx': (b'LXATTRB', lxattrb(uid = 500 + i), 0, 4), 'bad': (b'LXATTRB', lxattrb()[:40], 0, 4), 'other': (b'$KERNEL.X', b'abc', 0x80, 4),
                      'xattr': (b'LXXATTR', xlist([(b'user.n%d' % i, b'v%d' % i)]), 0, 4)}[k])
    buf = ea_list(items)
    attrs = [ntfs.attr_resident(ntfs.SI, ntfs.v_standard_information()), ntfs.attr_resident(ntfs.FN, ntfs.v_file_name(5, 'n')), ntfs.attr_resident(ntfs.EAINFO, struct.pack('<HHL', 10, 1, 12)), ntfs.attr_resident(ntfs.EA, buf)]
    rec = MFT.FileRecordSegment(ntfs.frs(attrs, number = 30))
    ctx.op()
    got = []
    for a in rec.attributes():
        v = a.value_decoded()
        if type(v) is Attributes.EA:
            for name, flags, value in v.data_parsed():
                if name == b'LXATTRB\x00':
                    try:
                        w = WSL.LXATTRB(value)
                    except ValueError:
                        got.append('bad')
                    else:
                        check_lxattrb(w, bytes(value))
                        got.append(('lx', w.get_uid()))
                elif name == b'LXXATTR\x00':
                    got.append(('xattr', list(WSL.LXXATTR(value).extended_attributes())))
                else:
                    got.append(('other', flags))
        elif type(v) is Attributes.EAInformation:
            equal((v.get_packed_ea_size(), v.get_need_ea_count(), v.get_unpacked_ea_size()), (10, 1, 12), 'EA information')
    want = [{'lx': ('lx', 500 + i), 'bad': 'bad', 'other': ('other', 0x80), 'xattr': ('xattr', [(b'user.n%d' % i, b'v%d' % i)])}[k] for i, k in enumerate(seq)]
    equal(got, want, 'metadata')
    return len(got)


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('lists', gen_lists(th), run_lists, 'every list of up to 2 attributes over 60 kinds and of 3 (thorough 4) over 18, with 3 ways to end it'),
        Group('damage', gen_damage(th), run_damage, 'link, name and value length fields and name terminators of 3 attributes at boundary values, up to 2 (thorough 3) at a time'),
        Group('cut', gen_cut(th), run_cut, 'a list cut at every length'),
        Group('lxattrb', gen_lxattrb(th), run_lxattrb, 'every field of the WSL metadata at every single-bit and boundary value, every size and header'),
        Group('lxxattr', gen_xlists(th), run_xlists, 'lists of up to 2 (thorough 3) Linux attributes over 24 kinds, every cut, damaged links and lengths'),
        Group('records', gen_records(th), run_records, 'combinations of up to 3 attributes in a file record'),
    ]
