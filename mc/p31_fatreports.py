"""P31: the reports of the FAT program contain one exact row per directory entry."""

import datetime
import itertools

from . import cli, exfat, fat
from . import p19_fatentries as p19
from . import p20_fatwalk as p20
from . import p21_exfatentries as p21
from . import p22_exfatwalk as p22
from .core import Group, Violation, equal, check

ID = 'P31'
ASSUMPTIONS = ['what a walk reports is decided by P19-P22 (their reference is used here); the order of orphan directories is not specified',
               'the first volume label which is not deleted is the one marked as such',
               'the program is run in this process, in a scratch directory, with read-only input files']

HEADER = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C/CH timestamp', 'File size', 'Is encrypted', 'Short name (Python bytes)']
HEADER_EX = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C timestamp', 'M/A/C TZ (minutes)', 'File size', 'Is encrypted']


def flag(b):
    return '?' if b is None else 'Y' if b else 'N'


def when(t):
    if t is None:
        return 'N/A'
    if isinstance(t, datetime.datetime):
        return '{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}.{:06d}'.format(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)
    return '{:04d}-{:02d}-{:02d}'.format(t.year, t.month, t.day)


def zone(z):
    if z is None:
        return '?'
    return '0' if z == 0 else '{:+d}'.format(z * 15)


def fat_rows(items, state):
    out = []
    for kind, e in items:
        if kind == 'orphan':
            out.append(['?', '?', e + ' (Partial Name)'] + ['?'] * 6)
            continue
        path = e['short_name'] if e['long_name'] is None else e['long_name']
        if e['attributes'] & 0x18 == 8 and not e['is_deleted'] and not state['label']:
            state['label'] = True
            path = e['short_name'] + ' (Volume Label)'
        out.append([flag(e['is_deleted']), flag(e['is_directory']), path, when(e['mtime']), when(e['atime']), when(e['ctime']), str(e['size']), flag(e['is_encrypted']), repr(bytes(e['short_name_raw']))])
    return out


def exfat_rows(items):
    out = []
    for kind, e in items:
        if kind == 'label':
            out.append(['N', 'N', e + ' (Volume Label)', '?', '?', '?', '?/?/?', '0', 'N'])
        elif kind == 'orphan':
            out.append(['?', '?', e + ' (Partial Name)', '?', '?', '?', '?/?/?', '?', '?'])
        else:
            out.append([flag(e['is_deleted']), flag(e['is_directory']), e['name'], when(e['mtime']), when(e['atime']), when(e['ctime']), '{}/{}/{}'.format(zone(e['mtz']), zone(e['atz']), zone(e['ctz'])),
                        str(e['size']), flag(e['is_encrypted'])])
    return out


def content(img):
    img.seek(0, 2)
    n = img.tell()
    img.seek(0)
    return img.read(n)


def compare(v, ctx, off = 0, stale = None):
    ex = isinstance(v, exfat.Volume)
    data = content(v.image(off))
    ctx.op()
    got = cli.rows(cli.run('fat_parser', ['IMG', str(off), 'OUT'], {'IMG': data}, stale))
    equal(got[:1], [HEADER_EX if ex else HEADER], 'header')
    got = got[1:]
    if ex:
        main, orphans = p22.reference(v, False)
        main, orphans = exfat_rows(main), {k: exfat_rows(x) for k, x in orphans.items()}
    else:
        main, orphans = p20.reference(v, fat.pack_fat(v.width, v.tables[0], v.fatsz * v.bps), False)
        check(main != 'error', 'harness: the root directory is damaged')
        state = {'label': False}
        main = fat_rows(main, state)
        orphans = {k: fat_rows(x, state) for k, x in orphans.items()}
    equal(got[:len(main)], main, 'rows')
    rest = got[len(main):]
    want = {k: x for k, x in orphans.items() if x}
    found = {}
    for row in rest:
        p = row[2]
        check(p.startswith('<Orphan directory '), 'an unexpected row: {}', row)
        found.setdefault(int(p[len('<Orphan directory '):p.index('>')]), []).append(row)
    equal(found, want, 'rows of orphan directories')
    return len(got)


def volume(width, body, sub = None):
    """A volume with a root directory (and a subdirectory)."""
    v = fat.Volume(width)
    v.link(0, fat.TOP[width] - 7)
    v.link(1, fat.TOP[width])
    if sub is not None:
        body = fat.short(b'SUB        ', attr = 0x10, cluster = 5) + body
        v.link(5, fat.EOC[width])
        v.data[5] = (p20.DOTS + sub).ljust(512, b'\x00')[:512]
    check(len(body) <= 512, 'harness: too many entries')
    if width == 32:
        v.data[2] = body.ljust(512, b'\x00')
    else:
        v.root = body.ljust(512, b'\x00')
    v.link(2, fat.EOC[width])
    return v


FSYM = dict(p19.SYM)
FSYM['V2'] = fat.short(b'OTHER      ', attr = 8)
FSYM['dV'] = b'\xe5' + fat.short(b'OLD LABEL  ', attr = 8)[1:]
FSYM['enc'] = fat.short(b'SECRET  TXT', nt = 1, size = 77)
FSYM['nodate'] = fat.short(b'NODATE  TXT', ctime = 0xffff, cdate = 0, adate = 0, mtime = 0, mdate = 0)
FSYM['dir'] = fat.short(p19.NA, attr = 0x10, cluster = 9)
FCORE = ['A', 'dA', 'Z', 'V', 'V2', 'dV', 'enc', 'nodate', 'A2/2', 'A1', 'B1/1', 'B', 'xA1']


def gen_fat(th):
    def gen():
        for width in (12, 32, 16):
            full = sorted(FSYM)
            for n in (0, 1, 2):
                for seq in itertools.product(full if width != 16 or n < 2 or th else FCORE, repeat = n):
                    for place in ('root', 'sub'):
                        if place == 'sub' and width == 16 and not th:
                            continue
                        yield width, seq, place
            if width != 16:
                for seq in itertools.product(FCORE, repeat = 3):
                    for place in ('root', 'sub'):
                        yield width, seq, place
            if th and width == 32:
                for seq in itertools.product(FCORE, repeat = 4):
                    yield width, seq, 'root'
    return gen


def run_fat(case, ctx):
    width, seq, place = case
    body = b''.join(FSYM[x] for x in seq)
    v = volume(width, body) if place == 'root' else volume(width, FSYM['V'] if len(seq) == 1 else b'', body)
    return compare(v, ctx)


def gen_fields(th):
    def gen():
        for pos in range(32):
            for x in range(256):
                yield 'fat', pos, x
        for pos in range(96):
            for x in range(256) if th else (0, 1, 0x0f, 0x10, 0x20, 0x41, 0x7f, 0x80, 0x81, 0x85, 0xbf, 0xc0, 0xff):
                yield 'exfat', pos, x
        for x in range(256):
            for k in range(3):
                yield 'tz', k, x
    return gen


def run_fields(case, ctx):
    kind, pos, x = case
    if kind == 'fat':
        e = bytearray(fat.short(p19.NA, size = 0x89abcdef, tenth = 150))
        e[pos] = x
        if pos in (20, 21, 26, 27):
            e[11] = 0x20
        if e[11] & 0x18 == 0x10:
            e[26] = 9
        body = b''.join(fat.long_entries('The long name of A.txt', p19.NA)) + bytes(e) + FSYM['B']
        return compare(volume(32, body), ctx)
    if kind == 'tz':
        kw = {('ctz', 'mtz', 'atz')[pos]: x}
        return compare(ex_volume(exfat.file_set('zones', **kw)), ctx)
    e = bytearray(exfat.file_set('a name', cluster = 20, size = 1 << 33, reserved = 0x8000))
    e[pos] = x
    v = ex_volume(exfat.seal([bytes(e)]) + exfat.file_set('next'))
    if any(y[0] == 'error' for y in exfat.parse_directory(v.data[v.root], True)):
        return 'damaged root'
    return compare(v, ctx)


def ex_volume(body, sub = None):
    v = exfat.Volume()
    v.link(0, 0xfffffff8)
    v.link(1, exfat.EOC)
    for c in [v.root] + v.bitmap_clusters[:v.fats]:
        v.link(c, exfat.EOC)
        v.allocate(c)
    if sub is not None:
        v.data[6] = sub.ljust(512, b'\x00')
        v.link(6, exfat.EOC)
        v.allocate(6)
        body += exfat.file_set('sub', attr = 0x10, cluster = 6, size = 512)
    v.data[v.root] = (v.root_entries() + body).ljust(512, b'\x00')
    check(len(v.data[v.root]) == 512, 'harness: too many entries')
    return v


def gen_exfat(th):
    def gen():
        full = list(p21.SYM)
        for n in (0, 1, 2):
            for seq in itertools.product(full, repeat = n):
                for place in ('root', 'sub'):
                    yield seq, place
        for seq in itertools.product(p21.CORE, repeat = 3):
            yield seq, 'root'
            if th:
                yield seq, 'sub'
        for a in full:
            for tail in (('F2', 'S', 'N'), ('F3', 'S20', 'NF', 'N'), ('d2', 'dS', 'dN')):
                for place in ('root', 'sub'):
                    yield (a,) + tail, place
                    yield tail + (a,), place
    return gen


def run_exfat(case, ctx):
    seq, place = case
    body = p21.build(seq)
    if place == 'sub':
        return compare(ex_volume(exfat.label_entry('Label, x') if len(seq) < 3 else b'', body), ctx)
    v = ex_volume(body)
    if any(x[0] == 'error' for x in exfat.parse_directory(v.data[v.root], True)):
        return 'damaged root'
    if 'B' in seq:
        return 'another allocation bitmap'
    return compare(v, ctx)


def gen_graphs(th):
    def gen():
        c = p20.C
        small = [None, 'f', ('a', c[0]), ('a', c[1]), ('d', c[0]), ('d', c[1]), ('l', c[2]), ('d', c[2])]
        for width in (12, 32):
            for alloc in (0, 7, 2, 5):
                for a, b, x in itertools.product(small, repeat = 3):
                    yield 'fat', width, alloc, (a, b), ((x, 'f'), ('f',), ('f',))
        c = p22.C
        small = [None, 'f', 'g', ('a', c[0]), ('c', c[1]), ('d', c[0]), ('d', c[1]), ('k', c[2])]
        for alloc in (0, 7, 2, 5):
            for a, b, x in itertools.product(small, repeat = 3):
                yield 'exfat', 0, alloc, (a, b), ((x, 'f'), ('g', 'f'), ('f',))
    return gen


def run_graphs(case, ctx):
    kind, width, alloc, root, subs = case
    if kind == 'fat':
        v = p20.build(width, root, subs, alloc, 7)
    else:
        v = p22.build(root, subs, alloc)
    return compare(v, ctx)


def gen_offsets(th):
    def gen():
        for off in (0, 512, 63 * 512, 1 << 20):
            for kind in (12, 16, 32, 'exfat'):
                for stale in (False, True):
                    yield off, kind, stale
    return gen


def run_offsets(case, ctx):
    off, kind, stale = case
    v = ex_volume(exfat.file_set('n', used = False) + exfat.label_entry('L')) if kind == 'exfat' else volume(kind, FSYM['V'] + FSYM['A'] + FSYM['dA'])
    return compare(v, ctx, off, b'an,older,report\r\n' * 5000 if stale else None)


NAMES = ['a', 'comma, quote\' ;', 'Ünï', '字' * 20, '😀 x', ' lead', 'trail ', '=1+1', 'x' * 255, 'tab\tin', 'new\nline', 'cr\rx', '\ud800x', 'q"q', '"', '.dot', 'a..b']


def gen_names(th):
    def gen():
        for a, b in itertools.product(range(len(NAMES)), repeat = 2):
            for d in (False, True):
                yield a, b, d
    return gen


def run_names(case, ctx):
    a, b, deleted = case
    r = []
    # A directory and a file in it.
    v = fat.Volume(32, spc = 4)
    v.link(0, fat.TOP[32] - 7)
    v.link(2, fat.EOC[32])
    v.link(5, 0 if deleted else fat.EOC[32])
    pre = b''.join(fat.long_entries(NAMES[a], b'D          '))
    e = fat.short(b'D          ', attr = 0x10, cluster = 5)
    if deleted:
        pre = b''.join(b'\xe5' + pre[i + 1:i + 32] for i in range(0, len(pre), 32))
        e = b'\xe5' + e[1:]
    v.data[2] = (pre + e + FSYM['A']).ljust(v.csize, b'\x00')
    v.data[5] = (p20.DOTS + b''.join(fat.long_entries(NAMES[b], b'F          ')) + fat.short(b'F          ')).ljust(v.csize, b'\x00')
    r.append(compare(v, ctx))
    w = exfat.Volume(spc = 2)
    w.link(0, 0xfffffff8)
    w.link(1, exfat.EOC)
    for c in [w.root, 6] + w.bitmap_clusters[:w.fats]:
        w.link(c, exfat.EOC)
        if not deleted or c != 6:
            w.allocate(c)
    w.data[w.root] = (w.root_entries() + exfat.file_set(NAMES[a], attr = 0x10, cluster = 6, size = w.csize, used = not deleted)).ljust(w.csize, b'\x00')
    w.data[6] = exfat.file_set(NAMES[b], cluster = 9, size = 5).ljust(w.csize, b'\x00')
    r.append(compare(w, ctx))
    return tuple(r)


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('fat', gen_fat(th), run_fat, 'all sequences of up to 2 entries over {} kinds and of 3 (thorough 4) over 13, in the root and in a subdirectory, FAT12/16/32'.format(len(FSYM))),
        Group('exfat', gen_exfat(th), run_exfat, 'all sequences of up to 2 entries over {} kinds, of 3 over 12, and sets before and after each kind, in the root and in a subdirectory'.format(len(p21.SYM))),
        Group('fields', gen_fields(th), run_fields, 'every value of every byte of a short entry; every byte of an exFAT set over boundary values (thorough: all); every time zone byte'),
        Group('graphs', gen_graphs(th), run_graphs, 'directory graphs with deleted and reallocated directories'),
        Group('names', gen_names(th), run_names, 'a directory and a file over all pairs of {} unusual names'.format(len(NAMES))),
        Group('offsets', gen_offsets(th), run_offsets, 'volume offsets, with and without an older report'),
    ]
