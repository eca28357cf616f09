"""P17: move table records are decoded exactly."""

import datetime
import io
import itertools
import struct
import uuid

from dfir_ntfs import MoveTable

from .core import Group, Violation, equal, check

ID = 'P17'
ASSUMPTIONS = ['layout of the header, sectors and entries as documented in MoveTable.py; sectors of 512 or 4096 bytes',
               'an entry of an unknown type ends the iteration of its sector with NotImplementedError (after all entries before it)']

SIG = bytes.fromhex('eca74366feefd111b2ae00c04fb9386d')
PER = {512: 4, 4096: 32}
EPOCH = datetime.datetime(1601, 1, 1)


def entry_bytes(n, t = 2, **over):
    """A distinct entry number n."""
    f = {'next': 1000 + n, 'prev': 2000 + n, 'type': t, 'index': 3000 + n, 'u16': 0xfffffff0 - n,
         'oid': bytes((n * 3 + i + 1) & 0xff for i in range(16)), 'vol': bytes((n * 5 + i + 2) & 0xff for i in range(16)), 'obj': bytes((n * 7 + i + 3) & 0xff for i in range(16)),
         'machine': b'host-%d' % (n % 100), 'bvol': bytes((n * 11 + i + 4) & 0xff for i in range(16)), 'bobj': bytes((n * 13 + i + 5) & 0xff for i in range(16)),
         'ts': 0x01d00000 + n, 'u120': 0x80000000 + n}
    f.update(over)
    return struct.pack('<LLLLL16s16s16s16s16s16sLL', f['next'], f['prev'], f['type'], f['index'], f['u16'], f['oid'], f['vol'], f['obj'], f['machine'].ljust(16, b'\x00')[:16], f['bvol'], f['bobj'], f['ts'], f['u120'])


def ft(v):
    """The date and time of a FILETIME value, or None if out of range."""
    try:
        return EPOCH + datetime.timedelta(microseconds = v // 10)
    except OverflowError:
        return None


def decode_machine(raw):
    raw = raw.split(b'\x00')[0]
    s1 = raw.decode('cp866')
    try:
        s2 = raw.decode('windows-1252')
    except UnicodeDecodeError:
        s2 = None
    return raw, s1, s2


def reference(raw):
    nxt, prev, t, idx, u16, oid, vol, obj, machine, bvol, bobj, ts, u120 = struct.unpack('<LLLLL16s16s16s16s16s16sLL', raw)
    g = [uuid.UUID(bytes_le = x) for x in (oid, vol, obj, bvol, bobj)]
    return {'next': nxt, 'prev': prev, 'type': t, 'index': idx, 'u16': u16, 'oid': g[0], 'droid': (g[1], g[2]), 'birth': (g[3], g[4]), 'machine_raw': machine.split(b'\x00')[0], 'u120': u120}


def near(got, want, what):
    """Equal up to the rounding error allowed by P08."""
    if want is None or got is None:
        check(got is None and want is None, '{}: expected {}, got {}', what, want, got)
        return
    check(abs((got - want).total_seconds()) <= (0.000002 if want.year < 2170 else 0.00003), '{}: expected {}, got {}', what, want, got)


def compare_entry(e, raw, ctx):
    ctx.op()
    got = {'next': e.get_next_log_entry_index(), 'prev': e.get_previous_log_entry_index(), 'type': e.get_log_entry_type(), 'index': e.get_log_entry_index(), 'u16': e.get_unknown_16(),
           'oid': e.get_object_id(), 'droid': tuple(e.get_droid()), 'birth': tuple(e.get_birth_droid()), 'machine_raw': e.get_machine_id_raw(), 'u120': e.get_unknown_120()}
    equal(got, reference(raw), 'entry')
    m, s1, s2 = decode_machine(raw[68:84])
    name = e.get_machine_id()
    if s2 is None or s1 == s2:
        equal(name, s1, 'machine name')
    else:
        check(s1 in name and s2 in name, 'machine name: {} does not contain {} and {}', name, s1, s2)
    ts = struct.unpack('<L', raw[116:120])[0]
    low, high = e.get_timestamp()
    near(low, ft(ts << 32), 'lowest timestamp')
    near(high, ft((ts << 32) | 0xffffffff), 'highest timestamp')
    stamps = e.get_guid_timestamps()
    for g, s, what in zip((got['oid'], got['droid'][1], got['birth'][1]), stamps, ('object ID', 'DROID', 'birth DROID')):
        want = None
        if g.variant == uuid.RFC_4122 and g.bytes[6] >> 4 == 1:
            t = int.from_bytes(g.bytes[0:4], 'big') | int.from_bytes(g.bytes[4:6], 'big') << 32 | (int.from_bytes(g.bytes[6:8], 'big') & 0xfff) << 48
            try:
                want = datetime.datetime(1582, 10, 15) + datetime.timedelta(microseconds = t // 10)
            except OverflowError:
                want = None
        near(s, want, 'timestamp in the ' + what)
    str(e)


def header_sector(ss, **over):
    f = {'sig': SIG, 'u16': 0x11223344, 'flags': 1, 'u24': 0x55667788, 'low': 5, 'high': 6, 'size': 7, 'machine': b'ws-1', 'vol': bytes(range(50, 66)), 'q': (1 << 63, 2, 3), 'l': tuple(range(100, 109))}
    f.update(over)
    buf = struct.pack('<16sLLLLLL', f['sig'], f['u16'], f['flags'], f['u24'], f['low'], f['high'], f['size']) + struct.pack('<16s16sQQQ9L', f['machine'].ljust(16, b'\x00'), f['vol'], *(f['q'] + f['l']))
    assert len(buf) == 132
    return buf.ljust(ss, b'\x00')


def sector_bytes(ss, entries, low, nxt):
    body = b''.join(entries)
    assert len(entries) == PER[ss]
    return body.ljust(ss - 16, b'\xcc') + struct.pack('<LL8s', low, nxt, b'unusedX\x01')


def observe(data, ss):
    """(entries yielded, how the iteration ended) of the whole table and the same by sectors."""
    parser = MoveTable.MoveTableParser(io.BytesIO(data), ss)
    out = []
    try:
        for e in parser.log_entries():
            out.append(e)
        end = 'end'
    except NotImplementedError:
        end = 'unknown'
    sectors = []
    for s in parser.log_sectors():
        es = []
        send = 'end'
        try:
            for e in s.log_entries():
                es.append(e)
        except NotImplementedError:
            send = 'unknown'
        sectors.append((s, es, send))
    return out, end, sectors


def run_table(case, ctx):
    ss, guess, types, cut = case
    per = PER[ss]
    raws = [entry_bytes(i, t) for i, t in enumerate(types)]
    data = header_sector(ss)
    count = len(types) // per
    for k in range(count):
        data += sector_bytes(ss, raws[k * per:(k + 1) * per], 10 * k, 10 * k + 3)
    if cut:
        data = data[:-cut]
    whole = max(0, len(data) // ss - 1)
    got, end, sectors = observe(data, None if guess else ss)
    want = []
    wend = 'end'
    for i in range(whole * per):
        if types[i] not in (1, 2):
            wend = 'unknown'
            break
        if types[i] == 2:
            want.append(raws[i])
    equal(len(got), len(want), 'number of entries')
    for e, raw in zip(got, want):
        compare_entry(e, raw, ctx)
    equal(end, wend, 'end of the iteration')
    equal(len(sectors), whole, 'number of sectors')
    for k, (s, es, send) in enumerate(sectors):
        footer = s.get_footer()
        equal((footer.get_lowest_log_entry_index_present(), footer.get_next_log_entry_index(), footer.get_unused()), (10 * k, 10 * k + 3, b'unusedX\x01'), 'footer')
        ts = types[k * per:(k + 1) * per]
        bad = [i for i, t in enumerate(ts) if t not in (1, 2)]
        n = bad[0] if bad else per
        equal(len(es), n, 'number of entries in a sector')
        equal(send, 'unknown' if bad else 'end', 'end of a sector')
        for e, raw in zip(es, raws[k * per:k * per + n]):
            compare_entry(e, raw, ctx)
    return len(got), end


def gen_tables(th):
    def gen():
        T = (2, 1, 0, 3)
        for guess in (False, True):
            yield 512, guess, (), 0
            for a in itertools.product(T, repeat = 4):
                yield 512, guess, a, 0
        for a in itertools.product(T if th else (2, 1, 3), repeat = 4):
            for b in itertools.product((2, 1, 0), repeat = 4):
                yield 512, True, a + b, 0
        for n in (1, 2, 3):
            for cut in range(1, 512 * n, 1 if th else 3):
                yield 512, False, (2, 1, 2, 2) * n, cut
        for n in (1, 2):
            for pos in range(32 * n):
                for t in (1, 3, 0xffffffff):
                    types = [2] * 32 * n
                    types[pos] = t
                    yield 4096, True, tuple(types), 0
                    yield 4096, False, tuple(types), 0
            for cut in (1, 15, 16, 17, 124, 512, 4095, 4096, 4097):
                if cut < 4096 * n:
                    yield 4096, False, (2,) * 32 * n, cut
    return gen


def gen_first(th):
    def gen():
        for ss in (512, 4096):
            for nxt in (0, 1, 0xffffffff):
                for prev in (0, 1, 0xffffffff):
                    for idx in (0, 1, 0xffffffff):
                        for t in (1, 2):
                            yield ss, nxt, prev, idx, t
    return gen


def run_first(case, ctx):
    """The first entry has small index fields; the sector size is guessed."""
    ss, nxt, prev, idx, t = case
    raws = [entry_bytes(0, t, next = nxt, prev = prev, index = idx)] + [entry_bytes(i) for i in range(1, 2 * PER[ss])]
    data = header_sector(ss) + b''.join(sector_bytes(ss, raws[k:k + PER[ss]], k, k + 1) for k in (0, PER[ss]))
    got, end, sectors = observe(data, None)
    want = raws[1:] if t == 1 else raws
    equal((len(got), end, len(sectors)), (len(want), 'end', 2), 'number of entries, the end, number of sectors')
    for e, raw in zip(got, want):
        compare_entry(e, raw, ctx)
    return len(got)


def gen_entry_bytes(th):
    def gen():
        for pos in range(124):
            if 8 <= pos < 12:
                continue
            for v in range(256) if th or 68 <= pos < 84 else (0, 1, 0x0f, 0x10, 0x1f, 0x41, 0x7f, 0x80, 0xbf, 0xfe, 0xff):
                yield pos, v
    return gen


def run_entry_bytes(case, ctx):
    pos, v = case
    raw = bytearray(entry_bytes(9))
    raw[pos] = v
    raw = bytes(raw)
    ctx.op()
    compare_entry(MoveTable.LogEntry(raw), raw, ctx)
    return v


def gen_values(th):
    def gen():
        # GUIDs: version and variant nibbles with extreme and ordinary times.
        for ver in range(16):
            for var in range(0, 256, 32):
                for t in (0, 1, 0x1b21dd213814000, 0x1e0ffffffffffff, 0xfffffffffffffff, 0x123456789abcdef):
                    yield 'guid', (ver, var, t)
        # Timestamps.
        for k in range(33):
            for d in (-1, 0, 1):
                v = (1 << k) + d
                if 0 <= v < 1 << 32:
                    yield 'ts', v
        for day in range(0, 430 * 366, 13 if not th else 1):
            yield 'ts', day * 864000000000 >> 32
        # Machine names.
        for n in range(17):
            for c in (0x41, 0x80, 0x81, 0xff):
                yield 'machine', bytes([c]) * n
                yield 'machine', (bytes([c]) * n + b'\x00' + b'zz')[:16]
        for t in list(range(0, 20)) + [1 << k for k in range(32)] + [0xffffffff]:
            yield 'type', t
        for n in range(0, 250):
            yield 'len', n
    return gen


def run_values(case, ctx):
    what, v = case
    if what == 'len':
        ctx.op()
        try:
            MoveTable.LogEntry((entry_bytes(1) * 3)[:v])
            ok = True
        except ValueError:
            ok = False
        equal(ok, v == 124, 'an entry of this length accepted')
        return ok
    if what == 'type':
        ctx.op()
        try:
            MoveTable.LogEntry(entry_bytes(1, v))
            ok = True
        except NotImplementedError:
            ok = False
        equal(ok, v in (1, 2), 'an entry of this type accepted')
        return ok
    if what == 'guid':
        ver, var, t = v
        fields = bytearray(struct.pack('<LHH', t & 0xffffffff, t >> 32 & 0xffff, ver << 12 | t >> 48) + bytes([var | 3]) + bytes(range(1, 8)))
        other = bytes(range(16))
        for k in ('oid', 'obj', 'bobj', 'vol', 'bvol'):
            raw = entry_bytes(1, **{k: bytes(fields)})
            compare_entry(MoveTable.LogEntry(raw), raw, ctx)
        return ver == 1
    if what == 'ts':
        raw = entry_bytes(1, ts = v)
    else:
        raw = entry_bytes(1, machine = v)
    compare_entry(MoveTable.LogEntry(raw), raw, ctx)
    return v


def gen_header(th):
    def gen():
        for ss in (512, 4096):
            for pos in list(range(136)) + [ss - 1]:
                for x in ((1, 0x80, 0xff) if not th else range(1, 256)):
                    yield ss, pos, x
        for n in list(range(0, 520)) + [1024, 2048, 4095, 4096, 4097, 8192]:
            yield n, None, None
    return gen


def run_header(case, ctx):
    ss, pos, x = case
    if pos is None:
        ctx.op()
        try:
            MoveTable.Header(header_sector(8192)[:ss])
            ok = True
        except ValueError:
            ok = False
        equal(ok, ss in (512, 4096), 'a header of this length accepted')
        return ok
    raw = bytearray(header_sector(ss))
    raw[pos] ^= x
    raw = bytes(raw)
    ctx.op()
    try:
        h = MoveTable.MoveTableParser(io.BytesIO(raw + b'\xcc' * ss), ss).get_header()
    except ValueError:
        check(pos < 16, 'an intact header is refused')
        return 'refused'
    check(pos >= 16, 'a header with a wrong signature is accepted')
    e = h.get_expansion_data()
    x = h.get_extended_header()
    want = struct.unpack('<16sLLLLLL', raw[:40])
    flags = want[2]
    equal((h.get_signature(), h.get_unknown_16(), h.get_flags(), h.get_unknown_24(), e.lowest_log_entry_index_present, e.highest_log_entry_index_present, e.file_size), want, 'header')
    equal(h.is_log_flushed(), flags & 1 == 1, 'log is flushed')
    m, s1, s2 = decode_machine(raw[40:56])
    if s2 is None or s1 == s2:
        equal(x.machine_id, s1, 'machine name')
    else:
        check(s1 in x.machine_id and s2 in x.machine_id, 'machine name: {} does not contain {} and {}', x.machine_id, s1, s2)
    equal(tuple(x)[1:], (uuid.UUID(bytes_le = raw[56:72]),) + struct.unpack('<QQQ9L', raw[72:132]), 'extended header')
    return 'ok'


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('tables', gen_tables(th), run_table, 'every assignment of entry kinds (move, unused, unknown) to one and two 512-byte sectors, one special entry anywhere in 4096-byte sectors, every truncation'),
        Group('first', gen_first(th), run_first, 'index fields and types of the first entry, sector size guessed'),
        Group('entry-bytes', gen_entry_bytes(th), run_entry_bytes, 'every byte of an entry replaced by each of the listed values'),
        Group('values', gen_values(th), run_values, 'GUID versions, variants and times; timestamps over the whole range; machine name lengths; types; lengths'),
        Group('header', gen_header(th), run_header, 'every byte of the header changed; every length'),
    ]
