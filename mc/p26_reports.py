"""P26: the file reports of the NTFS program contain one exact row per name and record."""

import collections
import datetime
import itertools
import struct
import uuid

from . import cli, ntfs, vss
from . import p05_paths as paths
from .p23_indexes import carve
from .p24_ea import ea_list, lxattrb
from .core import Group, Violation, equal, check

ID = 'P26'
ASSUMPTIONS = ['the order of the rows of a report is not specified',
               'the rows of a record whose attributes are damaged are not specified, only that the rows of other records are there',
               'index entries with an attribute too short for a file name, and attributes too short for their type, are ignored',
               'the programs are run in this process, in a scratch directory, with read-only input files']

BASE = paths.BASE
T0 = 130000000000000000
EPOCH = datetime.datetime(1601, 1, 1)
HEADER = ['Source', 'MFT reference number', 'Is in use', 'Is directory', 'Log file sequence number', 'Path', '$SI M timestamp', '$SI A timestamp', '$SI C timestamp', '$SI E timestamp', '$SI USN value', '$FN M timestamp', '$FN A timestamp',
          '$FN C timestamp', '$FN E timestamp', '$OBJID timestamp', 'File size', 'ADS list', 'WSL M timestamp', 'WSL A timestamp', 'WSL CH timestamp']
HEADER_INDX = ['Source', 'MFT reference number', 'Is directory', 'Path', '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', 'File size']


def T(n):
    """A timestamp with an exact representation."""
    return T0 + n * 10 * 1024 * 997


def fmt(t):
    if t >= 1 << 62:
        return 'N/A'
    return (EPOCH + datetime.timedelta(microseconds = t // 10)).strftime('%Y-%m-%d %H:%M:%S.%f')


def stamps(n):
    return dict(c = T(n), m = T(n + 1), e = T(n + 2), a = T(n + 3))


def mace(n):
    """M, A, C, E as reported."""
    return [fmt(T(n + 1)), fmt(T(n + 3)), fmt(T(n)), fmt(T(n + 2))]


GUID1 = uuid.UUID('8d5f6b7e-2c3a-11e9-a1b2-0123456789ab')
GUID4 = uuid.UUID('8d5f6b7e-2c3a-4e19-a1b2-0123456789ab')


def guid_time():
    # 100 ns intervals since 1582, cut to an exactly representable number of microseconds
    return (datetime.datetime(1582, 10, 15) + datetime.timedelta(microseconds = 137700000000 * 10 ** 5)).strftime('%Y-%m-%d %H:%M:%S.%f')


def guid1():
    t = 137700000000 * 10 ** 6
    return uuid.UUID(fields = (t & 0xffffffff, (t >> 32) & 0xffff, (t >> 48) & 0xfff | 0x1000, 0x81, 0x02, 0x0123456789ab))


FEATURES = ['si', 'si2', 'si48', 'sibad', 'sinv', 'd0', 'd5', 'dn', 'dc', 'a1', 'a2', 'a3', 'oid1', 'oid4', 'oidbad', 'ea', 'ea2', 'eabad', 'ir', 'irx', 'irbad', 'slk', 'slkp', 'unk']
SLACK = ('slk', 'slkp')


def lx(n):
    return lxattrb(a = 1600000000 + n, m = 1500000000 + n, ch = 1400000000 + n, a_ns = 123000 * n, m_ns = 0, ch_ns = 999999000)


def lx_text(n):
    e = datetime.datetime(1970, 1, 1)
    return [(e + datetime.timedelta(seconds = s, microseconds = us)).strftime('%Y-%m-%d %H:%M:%S.%f') for s, us in ((1500000000 + n, 0), (1600000000 + n, 123 * n), (1400000000 + n, 999999))]


def entries(slots, i):
    """Index entries of a directory: (reference, name, stamps, directory, size)."""
    return [(ntfs.ref(90, 2), 'child', 300 + 8 * i, False, 77), (ntfs.ref(91, 3), 'Sub,dir "q"', 304 + 8 * i, True, 0)]


def slack_items(slots, i, what):
    """(parent, name, stamps, directory, size)."""
    if what == 'slk':
        # (Which of several names of a parent is used is not specified.)
        if sum(1 for nm in slots[0][1] if nm[2] != 2) > 1:
            return [('R', 'gone', 500 + 8 * i, False, 55)]
        return [('R', 'gone', 500 + 8 * i, False, 55), (0, 'inner', 504 + 8 * i, True, 5)]
    return [('M', 'lost', 600 + 8 * i, False, 56), (('s', 0), 'left', 604 + 8 * i, True, 57)]


def fn_value(slots, p, name, n, ns = 1, directory = False, size = 0):
    parent = paths.reference(slots, p) if p is not None else 0
    return ntfs.v_file_name(parent, name, ns, attributes = 0x20 | (0x10000000 if directory else 0), size = size, alloc = size, **stamps(n))


def attribute(f, slots, i):
    if f == 'si':
        return ntfs.attr_resident(0x10, ntfs.v_standard_information(usn = 1000 + i, **stamps(100 + 8 * i)))
    if f == 'si2':
        return ntfs.attr_resident(0x10, ntfs.v_standard_information(usn = 2000 + i, **stamps(104 + 8 * i)))
    if f == 'si48':
        return ntfs.attr_resident(0x10, ntfs.v_standard_information(usn = 3000, **stamps(102 + 8 * i))[:48])
    if f == 'sibad':
        return ntfs.attr_resident(0x10, b'\x01' * 40)
    if f == 'sinv':
        return ntfs.attr_resident(0x10, ntfs.v_standard_information(c = T(1), m = (1 << 64) - 1, e = 1 << 63, a = 0, usn = 5))
    if f == 'd0':
        return ntfs.attr_resident(0x80, b'')
    if f == 'd5':
        return ntfs.attr_resident(0x80, b'12345')
    if f == 'dn':
        return ntfs.attr_nonresident(0x80, ntfs.mp_encode([(10, 31)]), 0, 30, 123456 + i)
    if f == 'dc':
        return ntfs.attr_nonresident(0x80, ntfs.mp_encode([(40, 16)]), 31, 46, 777)
    if f == 'a1':
        return ntfs.attr_resident(0x80, b'ads', name = 'stream')
    if f == 'a2':
        return ntfs.attr_nonresident(0x80, ntfs.mp_encode([(99, 1)]), 0, 0, 888, name = 'Zone,1')
    if f == 'a3':
        return ntfs.attr_nonresident(0x80, ntfs.mp_encode([(98, 1)]), 5, 5, 889, name = 'stream')
    if f == 'oid1':
        return ntfs.attr_resident(0x40, guid1().bytes_le + b'\x00' * 48)
    if f == 'oid4':
        return ntfs.attr_resident(0x40, GUID4.bytes_le)
    if f == 'oidbad':
        return ntfs.attr_resident(0x40, guid1().bytes_le[:10])
    if f == 'ea':
        return ntfs.attr_resident(0xE0, ea_list([(b'OTHER', b'x', 0, 4), (b'LXATTRB', lx(i), 0, 4)]))
    if f == 'ea2':
        return ntfs.attr_resident(0xE0, ea_list([(b'LXATTRB', lx(i + 50), 0, 4)]))
    if f == 'eabad':
        return ntfs.attr_resident(0xE0, ea_list([(b'LXATTRB', lx(9)[:40], 0, 4)]))
    if f in ('ir', 'irx'):
        ents = [ntfs.index_entry(r, fn_value(slots, None, nm, n, directory = d, size = s)) for r, nm, n, d, s in entries(slots, i)]
        return ntfs.attr_resident(0x90, ntfs.index_root(ents + [ntfs.index_entry(0, b'', 2)], attr_type = 0x30 if f == 'ir' else 0), name = '$I30' if f == 'ir' else '$O')
    if f == 'irbad':
        # An entry too short for a file name before a valid one.
        r, nm, n, d, s = entries(slots, i)[0]
        return ntfs.attr_resident(0x90, ntfs.index_root([ntfs.index_entry(1, b'short'), ntfs.index_entry(r, fn_value(slots, None, nm, n, directory = d, size = s)), ntfs.index_entry(0, b'', 2)]), name = '$I30')
    if f == 'unk':
        return ntfs.attr_resident(0x100, b'????')


def slack_bytes(slots, i, feats):
    out = b''
    for f in feats:
        if f in SLACK:
            if f == 'slkp':
                out += b'\xff\xff' + 'remnant'.encode('utf-16le') + b'\x00\x00'
            for p, nm, n, d, s in slack_items(slots, i, f):
                out += fn_value(slots, p, nm, n, directory = d, size = s) + b'\x00' * 4
    return out


def build(slots, child = False, lsn = 0):
    """slots: (state, names, features); child: the features lie in an extension record."""
    simple = [s[:2] for s in slots]
    out = [paths.SYS]
    kids = []
    for i, (state, names, feats) in enumerate(slots):
        if state == 'bad':
            out.append(b'\x00' * 1024)
            continue
        if state == 'torn':
            b = bytearray(ntfs.frs([ntfs.attr_resident(0x30, fn_value(simple, 'R', 'torn', 0))], number = BASE + i))
            b[510] ^= 0xFF
            out.append(bytes(b))
            continue
        if state == 'broken':
            # The second attribute is damaged.
            out.append(ntfs.frs([ntfs.attr_resident(0x30, fn_value(simple, 'R', 'broken', 0)), struct.pack('<LLBBHHH', 0x80, 0xfff0, 0, 0, 0, 0, 0) + b'\x00' * 8], number = BASE + i, seq = 1))
            continue
        in_use, seq, flags = paths.STATES[state]
        attrs = [ntfs.attr_resident(0x30, fn_value(simple, p, paths.text(i, t), 10 + 20 * i + 4 * k, ns)) for k, (p, t, ns) in enumerate(names)]
        more = [attribute(f, simple, i) for f in feats if f not in SLACK]
        slack = slack_bytes(simple, i, feats)
        if child:
            kids.append(ntfs.frs(more, number = BASE + len(slots) + len(kids), seq = 1, base = ntfs.ref(BASE + i, 1), slack = slack))
            more, slack = [], b''
        out.append(ntfs.frs(attrs + more, number = BASE + i, seq = seq, flags = flags, lsn = 5000 + i, slack = slack))
    return b''.join(out + kids)


def first(feats, among):
    for f in feats:
        if f in among:
            return f


def expected(slots, tag = None):
    """Rows for the slots."""
    simple = [s[:2] for s in slots]
    rows = []

    def src(s):
        return s if tag is None else '{} ({})'.format(s, tag)
    for i, (state, names, feats) in enumerate(slots):
        if state in ('bad', 'torn', 'broken'):
            continue
        in_use, seq, flags = paths.STATES[state]
        si = ['', '', '', '', '']
        f = first(feats, ('si', 'si2', 'si48', 'sinv'))
        if f == 'si':
            si = mace(100 + 8 * i) + [str(1000 + i)]
        elif f == 'si2':
            si = mace(104 + 8 * i) + [str(2000 + i)]
        elif f == 'si48':
            si = mace(102 + 8 * i) + ['']
        elif f == 'sinv':
            si = ['N/A', fmt(0), fmt(T(1)), 'N/A', '5']
        f = first(feats, ('d0', 'd5', 'dn'))
        size = {None: '?', 'd0': '0', 'd5': '5', 'dn': str(123456 + i)}[f]
        ads = ' '.join(sorted({{'a1': 'stream', 'a2': 'Zone,1', 'a3': 'stream'}[x] for x in feats if x in ('a1', 'a2', 'a3')}))
        oid = guid_time() if 'oid1' in feats else ''
        f = first(feats, ('ea', 'ea2'))
        wsl = lx_text(i if f == 'ea' else i + 50) if f else ['', '', '']
        ref = str(ntfs.ref(BASE + i, seq))
        yn = ['Y' if in_use else 'N', 'Y' if flags & 2 else 'N', str(5000 + i)]
        own = [(paths.ref_path(simple, i, nm), 10 + 20 * i + 4 * k) for k, nm in enumerate(names)]
        for p, n in own:
            rows.append([src('File record'), ref] + yn + [p] + si + mace(n) + [oid, size, ads] + wsl)
        if not own:
            rows.append([src('File record'), ref] + yn + [''] + si + ['', '', '', ''] + [oid, size, ads] + wsl)
        f = first(feats, ('ir', 'irbad'))
        if flags & 2 and f:
            d = '<Unknown>'
            if own:
                d = paths.ref_path(simple, i, paths.preferred(names))
            for r, nm, n, isdir, sz in entries(simple, i)[:1 if f == 'irbad' else 2]:
                rows.append([src('Index record'), str(r), '?', 'Y' if isdir else 'N', '', d + '/' + nm, '', '', '', '', ''] + mace(n) + ['', str(sz), '', '', '', ''])
        text = slack_bytes(simple, i, feats)
        if text:
            text = b'\x00' * 4 + text
            text += b'\x00' * (len(text) % 2)
            known = {}
            for f in feats:
                if f in SLACK:
                    for item in slack_items(simple, i, f):
                        known[item[1]] = item
            for kind, v in carve(text, True):
                if kind == 'name':
                    rows.append([src('Slack'), '?', '?', '?', '', '<Unknown, likely the same as above>/<Can be partially overwritten or start with a wrong character>' + v, '', '', '', '', '', '?', '?', '?', '?', '', '?', '', '', '', ''])
                    continue
                p, nm, n, isdir, sz = known[v[66:66 + 2 * v[64]].decode('utf-16le')]
                rows.append([src('Slack'), '?', '?', 'Y' if isdir else 'N', '', parent_path(slots, p) + '/' + nm, '', '', '', '', ''] + mace(n) + ['', str(sz), '', '', '', ''])
    return rows


def parent_path(slots, p):
    simple = [s[:2] for s in slots]
    if p == 'R':
        return ''
    if isinstance(p, int) and p < len(slots) and slots[p][0] not in ('bad', 'torn', 'broken') and slots[p][1]:
        return paths.ref_path(simple, p, paths.preferred(slots[p][1]))
    return '<Unknown>'


_SYS = {}


def system_rows(tag = None):
    out = []
    for n in range(BASE):
        seq = max(1, n)
        src = 'File record' if tag is None else 'File record ({})'.format(tag)
        if n == 5:
            out.append([src, str(ntfs.ref(5, 5)), 'Y', 'Y', '0', '/.', '', '', '', '', ''] + [fmt(0)] * 4 + ['', '?', '', '', '', ''])
        elif n == 3:
            out.append([src, str(ntfs.ref(3, 3)), 'Y', 'N', '0', ''] + [''] * 5 + [''] * 4 + ['', '?', '', '', '', ''])
        else:
            out.append([src, str(ntfs.ref(n, seq)), 'Y', 'N', '0', ''] + [fmt(0)] * 4 + ['0'] + [''] * 4 + ['', '?', '', '', '', ''])
    return out


def compare(got, want, header, ignore = ()):
    check(got and got[0] == header, 'the header of the report: {}', got[:1])
    a = collections.Counter(tuple(r) for r in got[1:] if r[1] not in ignore)
    b = collections.Counter(tuple(r) for r in want)
    if a != b:
        raise Violation('rows missing: {}; rows not expected: {}'.format(list((b - a).elements())[:4], list((a - b).elements())[:4]))


def run_mft(slots, child, ctx):
    ctx.op()
    got = cli.rows(cli.run('ntfs_parser', ['--mft', 'MFT', 'OUT'], {'MFT': build(slots, child)}))
    ignore = {str(ntfs.ref(BASE + i, 1)) for i, s in enumerate(slots) if s[0] == 'broken'}
    compare(got, system_rows() + expected(slots), HEADER, ignore)
    return len(got)


OWN = (('R', 'own', 1),)


def gen_features(th):
    def gen():
        for state in ('file', 'dir', 'delfile', 'deldir'):
            for names in ((), OWN, (('R', 'DOS~1', 2), ('R', 'own', 1)), (('R', 'own', 1), ('M', 'x', 0))):
                for k in range(0, 3):
                    for fs in itertools.permutations(FEATURES, k):
                        if k == 2 and (len(names) != 1 and not th or state in ('delfile', 'deldir') and not th):
                            continue
                        if len(names) > 1 and names[0][2] != 2 and ('ir' in fs or 'irbad' in fs):
                            continue
                        for child in (False, True):
                            if child and (not fs or state == 'deldir' or k == 2 and not th and state != 'dir'):
                                continue
                            yield ((state, names, fs),), child
        alphabet = ['si', 'si2', 'sibad', 'd5', 'dn', 'dc', 'a1', 'a2', 'oid1', 'ea', 'eabad', 'ir', 'slk', 'slkp']
        for fs in itertools.permutations(alphabet, 3) if th else itertools.combinations(alphabet, 3):
            yield (('dir', OWN, fs),), False
    return gen


def run_features(case, ctx):
    slots, child = case
    try:
        build(slots, child)
    except ValueError:
        return 'too large'
    return run_mft(slots, child, ctx)


def gen_tables(th):
    def gen():
        al = paths.slot_alphabet(2, th)
        for a, b in itertools.product(al, repeat = 2):
            yield (a + (('d5', 'si'),), b + (('ir', 'slk'),)), False
        small = [('file', OWN, ('si', 'd5')), ('dir', OWN, ('ir',)), ('dir', ((0, 'own', 1),), ('slk',)), ('bad', (), ()), ('torn', (), ()), ('broken', (), ()), ('delfile', ((1, 'own', 1),), ('a1',)), ('dir', (), ('slkp', 'ir'))]
        for k in (3, 4) if not th else (3, 4, 5):
            for s in itertools.product(small, repeat = k):
                yield s, False
    return gen


def run_tables(case, ctx):
    # A directory damaged beyond repair is no parent.
    slots, child = case
    slots = tuple(slots)
    fixed = tuple(('bad', (), ()) if s[0] in ('torn', 'broken') else s for s in slots)
    ctx.op()
    got = cli.rows(cli.run('ntfs_parser', ['--mft', 'MFT', 'OUT'], {'MFT': build(slots, child)}))
    ignore = {str(ntfs.ref(BASE + i, 1)) for i, s in enumerate(slots) if s[0] == 'broken'}
    if any(s[0] == 'broken' and i < 2 for i, s in enumerate(slots)):
        # Paths through a broken directory are not specified: compare everything but the paths.
        want = system_rows() + expected(fixed)
        a = collections.Counter(tuple(r[:5] + r[6:]) for r in got[1:] if r[1] not in ignore)
        b = collections.Counter(tuple(r[:5] + r[6:]) for r in want)
        equal(sorted((b - a).elements()) + sorted((a - b).elements()), [], 'rows missing or not expected')
        return len(got)
    compare(got, system_rows() + expected(fixed), HEADER, ignore)
    return len(got)


# --- Names in the reports

NAMES = ['plain', 'with space', 'comma,comma', 'quote"s', "apos'", 'new\nline', 'cr\rlf\r\n', 'tab\t', '\u00e9\u4e2d\u6587', '\U0001f600', '=1+1', '', ' ', 'nul\x00l', '\ud800', 'a\udc00b', '\u2028', 'x' * 255, ';', '\ufeff']


def gen_names(th):
    def gen():
        for a in range(len(NAMES)):
            for b in range(len(NAMES)):
                yield a, b
    return gen


def run_names(case, ctx):
    """A directory and a file in it, with unusual names."""
    raw = [NAMES[k].encode('utf-16le', 'surrogatepass') for k in case]
    nm = [r.decode('utf-16le', errors = 'replace') for r in raw]
    recs = [paths.SYS]
    recs.append(ntfs.frs([ntfs.attr_resident(0x30, ntfs.v_file_name(ntfs.ref(5, 5), raw[0], **stamps(1))),
                          ntfs.attr_resident(0x90, ntfs.index_root([ntfs.index_entry(7, ntfs.v_file_name(0, raw[1], **stamps(9))), ntfs.index_entry(0, b'', 2)]) if 0 < len(raw[1]) < 100 else b'', name = '$I30')], number = 6, flags = 3))
    recs.append(ntfs.frs([ntfs.attr_resident(0x30, ntfs.v_file_name(ntfs.ref(6, 1), raw[1], **stamps(5))), ntfs.attr_resident(0x80, b'', name = nm[0][:50] or None)], number = 7))
    ctx.op()
    got = cli.rows(cli.run('ntfs_parser', ['--mft', 'MFT', 'OUT'], {'MFT': b''.join(recs)}))
    dos = '<Unknown>'
    want = [['File record', str(ntfs.ref(6, 1)), 'Y', 'Y', '0', '/' + nm[0], '', '', '', '', ''] + mace(1) + ['', '?', '', '', '', ''],
            ['File record', str(ntfs.ref(7, 1)), 'Y', 'N', '0', '/' + nm[0] + '/' + nm[1], '', '', '', '', ''] + mace(5) + ['', '?' if nm[0] else '0', nm[0][:50], '', '', '']]
    if len(raw[1]) < 100 and len(raw[1]) > 0:
        want.append(['Index record', '7', '?', 'N', '', '/' + nm[0] + '/' + nm[1], '', '', '', '', ''] + mace(9) + ['', '0', '', '', '', ''])
    compare(got, system_rows() + want, HEADER)
    return len(got)


# --- Index blocks (--indx)

CS = 1024


def block_entries(kind, d):
    """The entries of a block of directory d: ([(parent, name, stamp, directory, size, reference)], [the same in the slack], torn)."""
    n = 700 + 40 * d
    own, other = d, 1 - d
    return {
        'own': ([(own, 'one', n, False, 11, 101), (own, 'two', n + 4, True, 0, 102)], [], False),
        'other': ([(other, 'moved', n, False, 12, 103), ('R', 'top', n + 4, True, 13, 104), ('M', 'lost', n + 8, False, 14, 105), (('s', 0), 'stale', n + 12, False, 15, 106)], [], False),
        'short': ([(None, 'x', n, False, 0, 107), (own, 'long', n + 4, False, 16, 108)], [], False),
        'slack': ([(own, 'kept', n, False, 17, 109)], [(own, 'old', n + 4, False, 18, 0), (other, 'older', n + 8, True, 19, 0), ('M', 'oldest', n + 12, False, 20, 0), (('s', 0), 'stale', n + 16, False, 23, 0)], False),
        'empty': ([], [], False),
        'torn': ([(own, 'torn', n, False, 21, 110)], [(own, 'tornslack', n + 4, False, 22, 0)], True),
    }[kind]


def block_bytes(kind, d, vcn, slots):
    ents, slack, torn = block_entries(kind, d)

    def value(p, nm, n, isdir, size):
        return fn_value(slots, p, nm, n, directory = isdir, size = size)
    raw = [ntfs.index_entry(ref, b'too short' if p is None else value(p, nm, n, isdir, size)) for p, nm, n, isdir, size, ref in ents] + [ntfs.index_entry(0, b'', 2)]
    rest = b'\x00' * 8 + b''.join(value(p, nm, n, isdir, size) + b'\x00' * 6 for p, nm, n, isdir, size, ref in slack)
    b = bytearray(ntfs.protect(ntfs.index_buffer_raw(raw, vcn = vcn, slack = rest)))
    if torn:
        b[511] ^= 0x10
    return bytes(b)


def volume(slots, dirs, offset):
    """dirs: per directory (blocks, storage)."""
    nrec = BASE + len(slots) + 2
    table_lcn, data_lcn = 4, 40
    table = [paths.SYS[i * 1024:(i + 1) * 1024] for i in range(BASE)]
    table[0] = ntfs.frs([ntfs.attr_resident(0x10, ntfs.v_standard_information()), ntfs.attr_nonresident(0x80, ntfs.mp_encode([(table_lcn, nrec)]), 0, nrec - 1, nrec * 1024)], number = 0, seq = 1)
    kids = []
    clusters = {}
    for i, (state, names) in enumerate(slots):
        in_use, seq, flags = paths.STATES[state]
        attrs = [ntfs.attr_resident(0x30, fn_value(slots, p, paths.text(i, t), 10 + 4 * k, ns)) for k, (p, t, ns) in enumerate(names)]
        kid = None
        if i < len(dirs):
            blocks, how = dirs[i]
            base = data_lcn + 40 * i
            size = len(blocks) * 4096
            data = b''.join(block_bytes(k, i, v, slots) for v, k in enumerate(blocks))
            n = len(data) // CS
            name = '$SDH' if how == 'name' else '$I30'
            if how == 'hole':
                # An unallocated block after the first one.
                data = data[:4096] + data[4096:]
                runs = [(base, 4), (None, 4)] + ([(base + 4, n - 4)] if n > 4 else [])
                lcns = [base + k for k in range(n)]
                attrs.append(ntfs.attr_nonresident(0xA0, ntfs.mp_encode(runs), 0, n + 3, size + 4096, name = name))
            elif how == 'two':
                cut = 3
                lcns = [base + 20 + k for k in range(cut)] + [base + k for k in range(n - cut)]
                attrs.append(ntfs.attr_nonresident(0xA0, ntfs.mp_encode([(base + 20, cut), (base, n - cut)]), 0, n - 1, size, name = name))
            elif how == 'split':
                cut = 3
                lcns = [base + 20 + k for k in range(cut)] + [base + k for k in range(n - cut)]
                attrs.append(ntfs.attr_nonresident(0xA0, ntfs.mp_encode([(base + 20, cut)]), 0, cut - 1, size, name = name))
                kid = ntfs.attr_nonresident(0xA0, ntfs.mp_encode([(base, n - cut)]), cut, n - 1, 0, name = name)
            else:
                lcns = [base + k for k in range(n)]
                runs = ntfs.mp_encode([(base, n)])
                if how == 'out':
                    runs = ntfs.mp_encode([(base, 4), (100000, n)])
                if how == 'badruns':
                    runs = b'\x11\x04\x80\x00'
                attrs.append(ntfs.attr_nonresident(0xA0, runs, 0, n - 1, size + (4096 if how == 'out' else 0), name = name))
            for k, lcn in enumerate(lcns):
                clusters[lcn] = data[k * CS:(k + 1) * CS]
        table.append(ntfs.frs(attrs, number = BASE + i, seq = seq, flags = flags))
        kids.append((BASE + i, kid))
    for k in range(2):
        owner, kid = kids[k] if k < len(kids) else (0, None)
        table.append(ntfs.frs([kid] if kid else [], number = len(table), seq = 1, flags = 1 if kid else 0, base = ntfs.ref(owner, 1) if kid else 0))
    total = data_lcn + 80
    img = bytearray(offset + total * CS)
    img[:offset] = b'\xEE' * offset
    img[offset:offset + 512] = ntfs.boot_sector(512, 2, total * 2, table_lcn, 2)
    for k, r in enumerate(table):
        p = offset + (table_lcn + k) * CS
        img[p:p + 1024] = r
    for lcn, d in clusters.items():
        img[offset + lcn * CS:offset + lcn * CS + len(d)] = d
    return bytes(img)


def expected_indx(slots, dirs):
    rows = []
    slots3 = [s + ((),) for s in slots]
    for i, (blocks, how) in enumerate(dirs):
        if how in ('name', 'out', 'badruns') or not blocks or block_entries(blocks[0], i)[2]:
            continue
        for kind in blocks:
            ents, slack, torn = block_entries(kind, i)
            if torn:
                continue
            for src, items in (('Index record', ents), ('Index slack', slack)):
                for p, nm, n, isdir, size, ref in items:
                    if p is None:
                        continue
                    rows.append([src, str(ref) if src == 'Index record' else '?', 'Y' if isdir else 'N', parent_path(slots3, p) + '/' + nm] + mace(n) + [str(size)])
    return rows


BLOCKS = ['own', 'other', 'short', 'slack', 'empty', 'torn']
HOW = ['one', 'two', 'split', 'hole', 'name', 'out', 'badruns']
TREES = [(('dir', (('R', 'own', 1),)), ('dir', ((0, 'own', 1),))), (('dir', ((1, 'own', 1),)), ('dir', (('R', 'DOS~1', 2), ('R', 'own', 1)))), (('dir', ()), ('dir', (('R', 'own', 1),))),
         (('deldir', (('R', 'own', 1),)), ('dir', ((0, 'own', 1),))), (('dir', ((1, 'own', 1),)), ('dir', ((0, 'own', 1),)))]


def gen_indx(th):
    def gen():
        seqs = [(a,) for a in BLOCKS] + [(a, b) for a in BLOCKS for b in BLOCKS]
        if th:
            seqs += list(itertools.product(BLOCKS, repeat = 3))
        for tree in range(len(TREES)):
            for s in seqs:
                for h in HOW:
                    if not th and tree and h not in ('one', 'out', 'badruns'):
                        continue
                    for offset in (0, 1536) if tree == 0 else (0,):
                        yield tree, ((s, h), (('other',), 'one')), offset
                        yield tree, ((('own', 'slack'), 'split'), (s, h)), offset
    return gen


def run_indx(case, ctx):
    tree, dirs, offset = case
    ctx.op()
    img = volume(TREES[tree], dirs, offset)
    got = cli.rows(cli.run('ntfs_parser', ['--indx', 'IMG', str(offset), 'OUT'], {'IMG': img}))
    want = expected_indx(TREES[tree], dirs)
    if any(h in ('out', 'badruns') for s, h in dirs):
        # What is listed of a directory which cannot be read completely is not specified.
        damaged = [i for i, (s, h) in enumerate(dirs) if h in ('out', 'badruns')]
        unsure = collections.Counter()
        for i in damaged:
            unsure += collections.Counter(tuple(r) for r in expected_indx(TREES[tree], [(s, 'one') if k == i else ((), 'one') for k, (s, h) in enumerate(dirs)]))
        check(got and got[0] == HEADER_INDX, 'the header')
        if any(h == 'badruns' for s, h in dirs):
            # Nor are paths through a record with a damaged attribute.
            got, want = [r[:3] + r[4:] for r in got], [r[:3] + r[4:] for r in want]
            unsure = collections.Counter({r[:3] + r[4:]: n for r, n in unsure.items()})
        a = collections.Counter(tuple(r) for r in got[1:])
        b = collections.Counter(tuple(r) for r in want)
        equal(list((b - a).elements()), [], 'rows missing')
        equal(list((a - b - unsure).elements()), [], 'rows not expected')
        return len(got)
    compare(got, want, HEADER_INDX)
    return len(got)


# --- A volume with shadow copies (--all-mft)

TOTAL = 64


def version_slots(v):
    out = [('file', (('R', 'own', 1),), ('si', 'd5')), ('dir', (('R', 'own', 1),), ('ir',) if v % 2 else ('a1',))]
    if v % 3:
        out.append(('delfile', ((1, 'v{}'.format(v), 1),), ('slk',)))
    return tuple(out)


def version_table(v):
    t = build(version_slots(v))
    first = ntfs.frs([ntfs.attr_resident(0x10, ntfs.v_standard_information()), ntfs.attr_nonresident(0x80, ntfs.mp_encode([(4, 4)]), 0, 3, 16384)], number = 0, seq = 1)
    return (first + t[1024:]).ljust(vss.BLOCK, b'\x00')


def gen_all(th):
    def gen():
        for n in range(0, 7 if th else 6):
            for h in itertools.product(('s', 'w1', 'w2'), repeat = n):
                yield h, 0, True
        for h in ((), ('s',), ('s', 'w1'), ('s', 'w1', 's', 'w1')):
            yield h, 65536, True
            yield h, 1536, True
            yield h, 0, False
    return gen


def run_all(case, ctx):
    h, offset, enabled = case
    m = vss.Model(2, (1, 2), True)
    vss._CONTENT.clear()
    vss._CONTENT[1] = version_table(1)
    vss._CONTENT[2] = b'\x22' * vss.BLOCK
    kinds = {}
    for op in h:
        m.apply(op)
        if op == 'w1':
            vss._CONTENT[m.version] = version_table(m.version)
        elif op == 'w2':
            vss._CONTENT[m.version] = bytes([m.version & 0xff]) * vss.BLOCK
    vol, _ = vss.encode(m, total = TOTAL)
    img = bytearray(b'\x55' * (TOTAL * vss.BLOCK))
    for k, d in vol.items():
        img[k * vss.BLOCK:(k + 1) * vss.BLOCK] = d
    img[:512] = ntfs.boot_sector(512, 8, TOTAL * vss.BLOCK // 512, 4, 2)
    if not enabled:
        img[7680:7680 + 512] = b'\x00' * 512
    ctx.op()
    got = cli.rows(cli.run('ntfs_parser', ['--all-mft', 'IMG', str(offset), 'OUT'], {'IMG': b'\xAA' * offset + bytes(img)}))

    def table_rows(v, tag):
        rows = system_rows(tag) + expected(version_slots(v), tag)
        rows[0][16] = '16384'
        return rows
    want = table_rows(m.cur[1], 'main volume')
    for st in m.stores if enabled else ():
        want += table_rows(st.snapshot[1], 'shadow copy {}'.format(10 + st.number))
    compare(got, want, HEADER)
    return len(got)


# --- Arguments

def gen_usage(th):
    def gen():
        modes = ['--mft', '--usn', '--log', '--indx', '--all-mft', '--mem', '--move', '--other', '', 'mft']
        for m in modes:
            for n in range(0, 5):
                yield 'ntfs_parser', (m,), n
        for m in ('--indx', '--all-mft'):
            for o in ('x', '1.5', '', '0x10', '1e3'):
                yield 'ntfs_parser', (m, 'IN', o, 'OUT'), -1
        yield 'ntfs_parser', (), 0
        for n in range(0, 6):
            yield 'fat_parser', (), n
        for o in ('x', '1.5', ''):
            yield 'fat_parser', ('IN', o, 'OUT'), -1
    return gen


def run_usage(case, ctx):
    tool, args, n = case
    args = list(args)
    if n >= 0:
        right = (n == 2 if args and args[0] in ('--mft', '--mem', '--move') else n == 3 if args and args[0] in ('--usn', '--log', '--indx', '--all-mft') else tool == 'fat_parser' and n == 3)
        if right:
            return 'valid'
        args += (['IN', 'IN', '0', 'OUT', 'OUT'])[:n]
    ctx.op()
    r = cli.run(tool, args, {'IN': b'\x00' * 4096}, stale = b'previous report')
    check(r.error is None, 'the program fails: {}', r.error)
    check('Usage:' in r.text, 'the usage is not shown')
    equal(r.written, b'previous report', 'the previous report')
    equal(r.code, 0, 'exit code')
    return 'usage'


def gen_stale(th):
    def gen():
        yield ('file', OWN, ('si',)), 10
        yield ('file', OWN, ('si',)), 100000
    return gen


def run_stale(case, ctx):
    """A report replaces an older one."""
    slot, n = case
    ctx.op()
    got = cli.rows(cli.run('ntfs_parser', ['--mft', 'MFT', 'OUT'], {'MFT': build((slot,))}, stale = b'old,report\r\n' * n))
    compare(got, system_rows() + expected((slot,)), HEADER)
    return n


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('features', gen_features(th), run_features, 'one record over 4 states, 4 sets of names and all ordered pairs and sets of three of 24 contents, in the record or an extension record'),
        Group('tables', gen_tables(th), run_tables, 'all pairs of records over the alphabet of P05, and all tables of 3 and 4 (thorough 5) records over 8 kinds including three damaged ones'),
        Group('names', gen_names(th), run_names, 'a directory and a file over all pairs of 20 unusual names'),
        Group('indx', gen_indx(th), run_indx, 'two directories over 5 trees, all sequences of up to 2 (thorough 3) index blocks over 6 kinds, stored in 7 ways, two volume offsets'),
        Group('all', gen_all(th), run_all, 'a volume and its shadow copies: all histories of up to 5 (thorough 6) snapshots and writes, volume offsets, shadow copies disabled'),
        Group('usage', gen_usage(th), run_usage, 'every mode with every number of arguments, invalid offsets'),
        Group('stale', gen_stale(th), run_stale, 'an existing report is replaced'),
    ]
