"""P15: damaged shadow copy metadata is contained and never loops."""

import itertools
import struct

from dfir_ntfs import ShadowCopy

from . import vss
from . import p13_snapshots as p13
from .core import Group, Violation, equal, check

ID = 'P15'
ASSUMPTIONS = ['one field (or one byte) is damaged at a time; metadata as written by the model in mc/vss.py',
               'reported errors: the exceptions of the module, ValueError (invalid seeks) and NotImplementedError (another volume is used to store shadow copies)']

B = vss.BLOCK
TOTAL = 128
HISTORY = ('s', 'w1', 'w2', 'w3', 'd3', 's', 'm13', 'w3', 'o2b', 'w2', 's', 'w1')
SPREAD = ('w3', 's', 'w2', 's', 'w1', 's', 'w3')         # The older shadow copies need the newer ones.
_CACHE = {}


class Strict(vss.Image):
    """Like a file: offsets which do not fit are refused."""

    def seek(self, off, whence = 0):
        pos = {0: 0, 1: self.pos, 2: self.end}[whence] + off
        if pos < 0:
            raise OSError(22, 'Invalid argument')
        if pos >= 1 << 63:
            raise OverflowError('Python int too large to convert to C long')
        self.pos = pos
        return pos


def base(two, history = HISTORY):
    """The undamaged volume(s), what the shadow copies read as, and the metadata blocks: (in the storage?, block) -> (kind, store or None)."""
    if (two, history) not in _CACHE:
        m = p13.build(history, True)
        vol, store = vss.encode(m, two, layout = 1, total = TOTAL)
        meta = {}
        for where, blocks in ((0, vol), (1, store)):
            if where == 1 and not two:
                continue
            for n, d in blocks.items():
                if d[:16] == vss.GUID:
                    meta[(where, n)] = struct.unpack('<L', d[20:24])[0]
        # Which store uses a metadata block?
        owner = {}
        for where, blocks in ((0, vol), (1, store)):
            if where == 1 and not two:
                continue
            for n, d in blocks.items():
                if meta.get((where, n)) != 2:
                    continue
                for off in range(0x80, B, 0x80):
                    if d[off:off + 4] == b'\x03\x00\x00\x00':
                        k = struct.unpack('>L', d[off + 16 + 12:off + 32])[0]
                        for field in (8, 32, 40, 48, 72):
                            link = struct.unpack('<Q', d[off + field:off + field + 8])[0] // B
                            while link:
                                owner[(1 if two else 0, link)] = k
                                link = struct.unpack('<Q', (store if two else vol)[link][40:48])[0] // B
        a = Strict(vol, TOTAL * B)
        p = ShadowCopy.ShadowParserTwoVolumes(a, Strict(store, TOTAL * B)) if two else ShadowCopy.ShadowParser(a)
        want = []
        for st in m.stores:
            p.select_shadow(vss.guid(st.number))
            want.append([])
            for x in range(1, 4):
                p.seek(x * B)
                want[-1].append(p.read(B))
                p13.compare_block(want[-1][-1], m.expected(st.number, x), 'undamaged')
        _CACHE[two, history] = (m, vol, store, meta, owner, want)
    return _CACHE[two, history]


DOCUMENTED = (ShadowCopy.ShadowCopyException, ShadowCopy.InvalidVolume, ValueError, NotImplementedError)


def attempt(two, vol, store, ctx, unaffected, listed, once = False):
    """Open, list, select and read everything."""
    m, _, _, _, _, want = base(two)
    a = Strict(vol, TOTAL * B)
    out = []
    try:
        if two:
            p = ShadowCopy.ShadowParserTwoVolumes(a, Strict(store, TOTAL * B))
        else:
            p = ShadowCopy.ShadowParser(a)
    except DOCUMENTED as e:
        check(not listed, 'the volume cannot be opened: {}', e)
        return type(e).__name__
    ctx.op()
    try:
        names = [x.store_guid for x in p.shadows()]
        if listed:
            equal(sorted(names), [vss.guid(s.number) for s in m.stores], 'shadow copies listed')
        check(not once or len(set(names)) == len(names), 'shadow copies are listed several times')
    except DOCUMENTED as e:
        check(not listed, 'the shadow copies cannot be listed: {}', e)
        out.append(type(e).__name__)
    good = None
    for s in m.stores + m.stores[::-1]:
        k = s.number
        ctx.op()
        try:
            p.select_shadow(vss.guid(k))
        except DOCUMENTED as e:
            check(k not in unaffected, 'shadow copy {} cannot be selected: {}', k, e)
            out.append(type(e).__name__)
            # What was selected before is either still selected or nothing is.
            try:
                p.seek(B)
                got = p.read(3 * B)
            except ValueError:
                pass
            else:
                check(good is None or got == good, 'after a failed selection, reads return neither the shadow copy selected before nor an error')
            good = None
            continue
        try:
            p.seek(B)
            got = p.read(3 * B)
            good = got
        except DOCUMENTED as e:
            check(k not in unaffected, 'shadow copy {} cannot be read: {}', k, e)
            out.append(type(e).__name__)
            continue
        if k in unaffected:
            check(got == b''.join(want[k]), 'shadow copy {} does not use the damaged metadata, but is read with other content', k)
        out.append(len(got))
    return tuple(out)


def values(n, total = 40):
    return list(range(0, total)) + [n, META_FAR, (1 << 63) // B, ((1 << 64) - B) // B]


META_FAR = TOTAL + 5


def gen_links(two_list):
    """Every link of every metadata block redirected to every block of the volume and to impossible places."""
    def g():
        for two in two_list:
            m, vol, store, meta, owner, want = base(two)
            top = max(n for n in vol) + 2
            top2 = max(n for n in store) + 2
            for (where, n), kind in sorted(meta.items()):
                limit = top if where == 0 else top2
                fields = [40]
                if kind == 2:
                    d = (vol, store)[where][n]
                    for off in range(0x80, 0x80 * 5, 0x80):
                        if d[off:off + 4] == b'\x03\x00\x00\x00':
                            fields += [off + f for f in (8, 32, 40, 48, 72)]
                for f in fields:
                    for v in list(range(0, limit)) + [META_FAR, (1 << 63) // B, ((1 << 64) - B) // B]:
                        yield (two, where, n, f, v * B)
                    yield (two, where, n, f, n * B + 512)
            for where in ((0, 1) if two else (0,)):
                limit = top if where == 0 else top2
                for v in list(range(0, limit)) + [META_FAR, (1 << 63) // B]:
                    yield (two, where, 0, 7728, v * B)
                yield (two, where, 0, 7728, 512)
    return g


def damaged(two, where, n):
    """Return (shadow copies that have to be unaffected, the list has to be right)."""
    m, vol, store, meta, owner, want = base(two)
    kind = meta.get((where, n))
    if kind in (3, 4, 5, 6):
        k = owner[(where, n)]
        return {s.number for s in m.stores if s.number > k}, True
    return set(), False


def run_links(case, ctx):
    two, where, n, f, v = case
    m, vol, store, meta, owner, want = base(two)
    vol = dict(vol)
    store = dict(store) if two else vol
    t = (vol, store)[where]
    t[n] = t[n][:f] + struct.pack('<Q', v) + t[n][f + 8:]
    unaffected, listed = damaged(two, where, n)
    if meta.get((where, n)) == 2 and f != 40:
        # A link of one store.
        k = struct.unpack('>L', t[n][f // 0x80 * 0x80 + 28:f // 0x80 * 0x80 + 32])[0]
        unaffected, listed = {s.number for s in m.stores if s.number > k}, True
    if not two:
        store = vol
    return attempt(two, vol, store, ctx, unaffected, listed, True)


def gen_bytes(two_list, vals):
    def g():
        for two in two_list:
            m, vol, store, meta, owner, want = base(two)
            for (where, n), kind in sorted(meta.items()):
                d = (vol, store)[where][n]
                end = 0x80
                while end < B and any(d[end:end + 0x80]):
                    end += 0x80
                for off in list(range(0, 48)) + list(range(0x80, end)):
                    for v in vals:
                        w = {'inv': d[off] ^ 0xFF, 'bit': d[off] ^ 1, 'top': d[off] ^ 0x80}.get(v, v)
                        if w != d[off]:
                            yield (two, where, n, off, w)
            for where in ((0, 1) if two else (0,)):
                d = (vol, store)[where][0]
                for off in list(range(3, 11)) + list(range(7680, 7808)):
                    for v in vals:
                        w = {'inv': d[off] ^ 0xFF, 'bit': d[off] ^ 1, 'top': d[off] ^ 0x80}.get(v, v)
                        if w != d[off]:
                            yield (two, where, 0, off, w)
    return g


def run_bytes(case, ctx):
    two, where, n, off, w = case
    m, vol, store, meta, owner, want = base(two)
    vol = dict(vol)
    store = dict(store) if two else vol
    t = (vol, store)[where]
    t[n] = t[n][:off] + bytes([w]) + t[n][off + 1:]
    unaffected, listed = damaged(two, where, n)
    if not two:
        store = vol
    return attempt(two, vol, store, ctx, unaffected, listed)


def gen_lost():
    """Whole metadata blocks lost (zeroed, cut off, or replaced with one another)."""
    for two in (False, True):
        m, vol, store, meta, owner, want = base(two)
        for (where, n) in sorted(meta):
            yield (two, where, n, 'zero')
            yield (two, where, n, 'cut')
            for (w2, n2) in sorted(meta):
                if w2 == where and n2 != n:
                    yield (two, where, n, n2)
        for where in ((0, 1) if two else (0,)):
            yield (two, where, 0, 'zero')


def run_lost(case, ctx):
    two, where, n, how = case
    m, vol, store, meta, owner, want = base(two)
    vol = dict(vol)
    store = dict(store) if two else vol
    t = (vol, store)[where]
    if how == 'zero':
        t[n] = b'\x00' * B
    elif how == 'cut':
        t[n] = b''
    else:
        t[n] = t[how]
    unaffected, listed = damaged(two, where, n)
    return attempt(two, vol, store, ctx, unaffected, listed, True)


# Damage which can be detected: nothing but the damaged piece may be missing.

def contents(two, h, vol, store):
    """What every shadow copy reads as (None: an error)."""
    m = base(two, h)[0]
    a = Strict(vol, TOTAL * B)
    try:
        p = ShadowCopy.ShadowParserTwoVolumes(a, Strict(store, TOTAL * B)) if two else ShadowCopy.ShadowParser(a)
    except DOCUMENTED:
        return [None] * len(m.stores)
    out = []
    for s in m.stores:
        try:
            p.select_shadow(vss.guid(s.number))
            p.seek(B)
            out.append(p.read(3 * B))
        except DOCUMENTED:
            out.append(None)
    return out


_CUT = {}


def cut(two, h, where, n):
    """The same with the chain of metadata blocks ended before the given one."""
    key = (two, h, where, n)
    if key not in _CUT:
        m, vol, store, meta, owner, want = base(two, h)
        vol = dict(vol)
        store = dict(store) if two else vol
        t = (vol, store)[where]
        for k in list(t):
            if meta.get((where, k)) is None:
                continue
            d = bytearray(t[k])
            fields = [40]
            if meta[(where, k)] == 2:
                fields += [off + f for off in range(0x80, 0x80 * 5, 0x80) if d[off:off + 4] == b'\x03\x00\x00\x00' for f in (8, 32, 40, 48, 72)]
            for f in fields:
                if struct.unpack('<Q', d[f:f + 8])[0] == n * B:
                    struct.pack_into('<Q', d, f, 0)
            t[k] = bytes(d)
        _CUT[key] = contents(two, h, vol, store)
    return _CUT[key]


def compare_contents(two, h, got, others, what):
    m, vol, store, meta, owner, want = base(two, h)
    for k, g in enumerate(got):
        if g is None or g == b''.join(want[k]):
            continue
        check(any(g == o[k] for o in others), '{}: shadow copy {} is read, but neither with its content nor without the damaged piece only', what, k)


def gen_headers():
    for two, h in itertools.product((False, True), (HISTORY, SPREAD)):
        m, vol, store, meta, owner, want = base(two, h)
        for (where, n), kind in sorted(meta.items()):
            if kind == 2:
                continue
            d = (vol, store)[where][n]
            for off in range(0, 40):
                for v in sorted({0, 255, 1, 2, 3, 4, 5, 6, d[off] ^ 1, d[off] ^ 0x80, (d[off] + 1) & 255} - {d[off]}):
                    yield (two, h, where, n, off, v)
            yield (two, h, where, n, None, None)


def run_headers(case, ctx):
    two, h, where, n, off, v = case
    m, vol, store, meta, owner, want = base(two, h)
    vol = dict(vol)
    store = dict(store) if two else vol
    t = (vol, store)[where]
    t[n] = t[n][:off] + bytes([v]) + t[n][off + 1:] if off is not None else b'\x00' * B
    ctx.op()
    got = contents(two, h, vol, store)
    compare_contents(two, h, got, [cut(two, h, where, n)], 'header of a block of kind {}'.format(meta[(where, n)]))
    return tuple(g is None for g in got)


def gen_entries():
    for two, h in itertools.product((False, True), (HISTORY, SPREAD)):
        m, vol, store, meta, owner, want = base(two, h)
        for (where, n), kind in sorted(meta.items()):
            if kind != 3:
                continue
            d = (vol, store)[where][n]
            for off in range(0x80, B - 32, 32):
                if not any(d[off:off + 32]):
                    break
                o, a, b, flags, mask = struct.unpack('<QQQLL', d[off:off + 32])
                for x in ((o, a, b, flags | 3, mask), (o, a, b, 3, 0xffff), (o, a, b, flags | 0x100, mask), (o, a, b, flags | 0x80000000, mask), (o + 512, a, b, flags, mask), (o + 1, a, b, flags, mask), (o, a, b + 0x2000, flags, mask), (o, a, b + 1, flags, mask)):
                    yield (two, h, where, n, off, x)


def run_entries(case, ctx):
    two, h, where, n, off, x = case
    m, vol, store, meta, owner, want = base(two, h)

    def image(new):
        v = dict(vol)
        s = dict(store) if two else v
        t = (v, s)[where]
        t[n] = t[n][:off] + new
        t[n] += (vol, store)[where][n][len(t[n]):]
        return v, s
    ctx.op()
    got = contents(two, h, *image(struct.pack('<QQQLL', *x)))
    old = struct.unpack('<QQQLL', (vol, store)[where][n][off:off + 32])
    ignored = contents(two, h, *image(struct.pack('<QQQLL', old[0], old[1], old[2], 4, 0)))
    ended = contents(two, h, *image(b'\x00' * 32))
    compare_contents(two, h, got, [ignored, ended, cut(two, h, where, n)], 'an invalid entry {}'.format(x))
    return tuple(g is None for g in got)


def gen_twins():
    for two in (False, True):
        for layout in (0, 1, 2):
            for a in range(3):
                for b in range(3):
                    if a != b:
                        yield (two, layout, a, b)


def run_twins(case, ctx):
    """The items of one shadow copy carry the identifier of another."""
    two, layout, a, b = case
    m, _, _, _, _, want = base(two)
    vol, store = vss.encode(m, two, layout = layout, total = TOTAL)
    for t in (vol, store):
        for n, d in list(t.items()):
            if d[:16] == vss.GUID and d[20] == 2:
                d = bytearray(d)
                for off in range(0x80, B, 0x80):
                    if d[off] in (2, 3) and d[off + 16:off + 32] == vss.guid(a).bytes_le:
                        d[off + 16:off + 32] = vss.guid(b).bytes_le
                t[n] = bytes(d)
    av = Strict(vol, TOTAL * B)
    p = ShadowCopy.ShadowParserTwoVolumes(av, Strict(store, TOTAL * B)) if two else ShadowCopy.ShadowParser(av)
    ctx.op()
    for name in (vss.guid(b), 10 + b, 10 + a):
        try:
            p.select_shadow(name)
        except DOCUMENTED:
            continue
        raise Violation('two shadow copies have the same identifier, and one of them was selected by {}'.format(name))
    return True


def groups(tier):
    q = tier == 'quick'
    both = (False, True)
    return [
        Group('links', gen_links(both), run_links, 'every link of the metadata of 3 shadow copies redirected to every block and to impossible places, one and two volumes', cpu = 6),
        Group('bytes', gen_bytes(both, (0, 255, 'inv', 'bit', 'top', 1, 2) if q else (0, 255, 'inv', 'bit', 'top', 1, 2, 3, 4)), run_bytes, 'every byte of the headers and items of every metadata block replaced by each of {} values'.format(7 if q else 9), cpu = 6),
        Group('lost', gen_lost, run_lost, 'every metadata block zeroed, cut off or replaced with every other one', cpu = 6),
        Group('headers', gen_headers, run_headers, 'every byte of the header of every metadata block of a store replaced by up to 11 values, and the block zeroed: every shadow copy is refused, exact, or lacks that part of the chain only', cpu = 6),
        Group('entries', gen_entries, run_entries, 'every table entry made invalid in 8 ways: every shadow copy is refused, exact, or lacks that entry (or what follows it) only', cpu = 6),
        Group('twins', gen_twins, run_twins, 'every two of three shadow copies with the same identifier, 3 layouts, one and two volumes'),
    ]
