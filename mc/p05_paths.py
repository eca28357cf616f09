"""P05: full paths are exactly the chains of parent references, and lookup by path inverts them."""

import itertools

from dfir_ntfs import MFT

from . import ntfs
from .p04_mft import effective
from .core import Group, Violation, equal, check

ID = 'P05'
ASSUMPTIONS = ['directory trees of the root and up to 3 further records over all parent relations (valid, stale, missing, cyclic), name spaces, hard links and record states']

BASE = 6
SYS = b''.join(ntfs.system_frs(i) for i in range(BASE))
ROOT = 5
LETTERS = ['a', 'b', 'c', 'd', 'e', 'f', 'g']

# Record states: (kind, in_use, seq, flags)
STATES = {
    'dir': (1, 1, 3),
    'file': (1, 1, 1),
    'deldir': (0, 2, 2),
    'delfile': (0, 2, 0),
    'bad': None,
}

# Parents: 'R' root, 0..2 slot, ('s', k) slot with a wrong sequence number, 'M' missing record.


def slot_alphabet(n, rich):
    """All configurations of one slot: (state, names); a name is (parent, text index or text, namespace)."""
    parents = ['R'] + list(range(n)) + ['M', ('s', 0)]
    out = []
    for state in ('dir', 'file', 'deldir', 'delfile'):
        for p in parents:
            out.append((state, ((p, 'own', 1),)))
    for p in parents[:1 + n]:
        out.append(('dir', ((p, 'own', 0),)))
        out.append(('dir', ((p, 'DOS~1', 2), (p, 'own', 1))))
        out.append(('dir', ((p, 'DOS~1', 2), (p, 'own', 0))))
        out.append(('file', ((p, 'own', 1), (p, 'DOS~1', 2))))
    out.append(('dir', ()))
    out.append(('file', ()))
    out.append(('bad', ()))
    for p in parents[:1 + n]:
        for q in parents[:1 + n]:
            if p != q:
                out.append(('file', ((p, 'x', 1), (q, 'x', 1))))
                if rich:
                    out.append(('file', ((p, 'own', 3), (q, 'Y', 0))))
    out.append(('dir', (('R', 'DOS~1', 2),)))
    if rich:
        out.append(('file', (('R', 'X', 1),)))
        out.append(('dir', (('R', 'x', 1),)))
    return out


def text(i, t):
    return LETTERS[i] if t == 'own' else t


def reference(slots, p):
    if p == 'R':
        return ntfs.ref(5, 5)
    if p == 'M':
        return ntfs.ref(50, 1)
    if isinstance(p, tuple):
        return ntfs.ref(BASE + p[1], 77)
    return ntfs.ref(BASE + p, 1)


def build(slots):
    out = [SYS]
    for i, (state, names) in enumerate(slots):
        if state == 'bad':
            out.append(b'\x00' * 1024)
            continue
        in_use, seq, flags = STATES[state]
        attrs = [ntfs.attr_resident(0x30, ntfs.v_file_name(reference(slots, p), text(i, t), ns)) for p, t, ns in names]
        out.append(ntfs.frs(attrs, number = BASE + i, seq = seq, flags = flags))
    return b''.join(out)


def valid_parent(slots, p):
    """The slot index a parent reference really leads to, 'R', or None."""
    if p == 'R':
        return 'R'
    if isinstance(p, int) and p < len(slots) and slots[p][0] != 'bad':
        return p
    return None


def preferred(names):
    for nm in names:
        if nm[2] & 1 or nm[2] == 0:
            return nm
    return names[0]


def ref_path(slots, i, name):
    parts = [text(i, name[1])]
    p = name[0]
    seen = set()
    while True:
        if p == 'R':
            parts.append('')
            break
        k = valid_parent(slots, p)
        if k is None or k in seen or STATES[slots[k][0]][2] & 2 == 0 or not slots[k][1]:
            parts.append('<Orphan>')
            break
        seen.add(k)
        nm = preferred(slots[k][1])
        parts.append(text(k, nm[1]))
        p = nm[0]
    return '/'.join(reversed(parts))


def chains(slots, i, strict, depth = 0):
    """All paths (through any name of any ancestor) by which record i can be reached from the root."""
    out = []
    if depth > len(slots):
        return out
    for p, t, ns in slots[i][1]:
        nm = text(i, t)
        if p == 'R':
            out.append('/' + nm)
            continue
        k = valid_parent(slots, p)
        if k is None:
            continue
        if strict and slots[k][0] != 'dir':
            continue
        for c in chains(slots, k, strict, depth + 1):
            out.append(c + '/' + nm)
    return out


def gen_trees(n, rich):
    def g():
        for k in range(1, n + 1):
            al = slot_alphabet(k, rich or k < 3)
            if k == 3 and not rich:
                al = [a for a in al if a[0] not in ('deldir', 'delfile') or a[1][0][0] in ('R', 0)]
            for slots in itertools.product(al, repeat = k):
                yield slots
    return g


def run_trees(case, ctx):
    slots = case
    img = ntfs.Image(build(slots))
    mft = MFT.MasterFileTableParser(img)
    out = []
    for i, (state, names) in enumerate(slots):
        if state == 'bad':
            continue
        fr = mft.get_file_record_by_number(BASE + i)
        ctx.op(2)
        got = mft.build_full_paths(fr)
        got_attrs = mft.build_full_paths(fr, True)
        want = [(ref_path(slots, i, nm), nm) for nm in names]
        equal(sorted(got), sorted(w[0] for w in want), 'paths of record {}'.format(BASE + i))
        equal([g[0] for g in got_attrs], got, 'paths with attributes')
        equal(sorted((p, a.get_file_name(), a.get_flags(), a.get_parent_directory()) for p, a in got_attrs),
              sorted((w, text(i, nm[1]), nm[2], reference(slots, nm[0])) for w, nm in want), 'names attached to paths')
        if any(nm[2] & 1 or nm[2] == 0 for nm in names):
            check(got_attrs[0][1].get_flags() != 2, 'a short (DOS) name is listed before a long one')
        out.append(tuple(sorted(got)))

    # Lookup by path.
    universe = {}
    lenient = {}
    for i, (state, names) in enumerate(slots):
        if state in ('dir', 'file'):
            for c in chains(slots, i, True):
                universe.setdefault(c, set()).add(BASE + i)
            for c in chains(slots, i, False):
                lenient.setdefault(c, set()).add(BASE + i)
    probes = sorted(set(universe) | {'/a', '/b/x', '/nothing', '/a/nothing', '/a/b', '/x'})
    for p in probes:
        lookups = ((p, False), (p, True), (p.upper(), False), (p + '/', False), (p.swapcase(), True))
        head, _, tail = p.rpartition('/')
        if head:
            lookups += ((head.swapcase() + '/' + tail, True), (head + '/' + tail.swapcase(), True), (head.swapcase() + '/' + tail, False))
        if len(slots) > 2 and (p not in universe):
            lookups = lookups[:1]
        for q, sens in lookups:
            ctx.op()
            fr = mft.get_file_record_by_path(q, sens)
            got = None if fr is None else fr.get_master_file_table_number()
            key = q[:-1] if q.endswith('/') else q
            if sens:
                must = universe.get(key, set())
                may = lenient.get(key, set())
            else:
                must = set().union(*[v for k, v in universe.items() if k.upper() == key.upper()] or [set()])
                may = set().union(*[v for k, v in lenient.items() if k.upper() == key.upper()] or [set()])
            if q.endswith('/'):
                must = {m for m in must if slots[m - BASE][0] == 'dir'}
                may = {m for m in may if slots[m - BASE][0] == 'dir'}
            if got is None:
                check(not must, 'path {!r} (case sensitive: {}) leads to record {}, but the lookup found nothing', q, sens, sorted(must))
            else:
                check(got in may, 'path {!r} (case sensitive: {}) was resolved to record {}, expected {}', q, sens, got, sorted(must))
    return repr(out)


def gen_special():
    for p in ('', 'a', 'a/b', '//', '/a//b', '/./a', '/../a', '/a/./b', '/a/../b', '//a/b', '/', '/.'):
        yield p


def run_special(case, ctx):
    slots = (('dir', (('R', 'own', 1),)), ('dir', ((0, 'own', 1),)))
    mft = MFT.MasterFileTableParser(ntfs.Image(build(slots)))
    ctx.op()
    try:
        fr = mft.get_file_record_by_path(case)
        got = None if fr is None else fr.get_master_file_table_number()
    except MFT.MasterFileTableException:
        got = 'rejected'
    want = 5 if case in ('/', '/.') else 'rejected'
    equal(got, want, 'lookup of {!r}'.format(case))
    equal(mft.build_full_paths(mft.get_file_record_by_number(5)), ['/.'], 'the path of the root directory')
    return got


def gen_depth():
    for n in list(range(1, 12)) + [40, 120]:
        for cyc in (False, True):
            yield (n, cyc)


def run_depth(case, ctx):
    """A chain of n directories, ending in the root or in a cycle."""
    n, cyc = case
    out = [SYS]
    for i in range(n):
        parent = ntfs.ref(5, 5) if i == 0 and not cyc else ntfs.ref(BASE + (i - 1) % n, 1)
        out.append(ntfs.frs([ntfs.attr_resident(0x30, ntfs.v_file_name(parent, 'd{}'.format(i)))], number = BASE + i, seq = 1, flags = 3))
    mft = MFT.MasterFileTableParser(ntfs.Image(b''.join(out)))
    fr = mft.get_file_record_by_number(BASE + n - 1)
    ctx.op(2)
    got = mft.build_full_paths(fr)
    if not cyc:
        path = '/' + '/'.join('d{}'.format(i) for i in range(n))
        equal(got, [path], 'deep path')
        if n <= 40:
            found = mft.get_file_record_by_path(path)
            check(found is not None and found.get_master_file_table_number() == BASE + n - 1, 'deep path is not found')
    else:
        check(len(got) == 1 and got[0].startswith('<Orphan>/') and got[0].endswith('/d{}'.format(n - 1)), 'cyclic parents: {}', got)
    return got[0][:60]


def gen_graphs(n):
    """All parent functions over n directories (the last one may be a file)."""
    def g():
        for k in range(1, n + 1):
            parents = ['R', 'M'] + list(range(k))
            for ps in itertools.product(parents, repeat = k):
                yield tuple(('dir' if i < k - 1 else 'file', ((p, 'own', 1),)) for i, p in enumerate(ps))
    return g


def gen_rho():
    for tail in range(0, 10):
        for cyc in range(1, 9):
            yield (tail, cyc)


def run_rho(case, ctx):
    """A chain of directories leading into a cycle: every path ends and is marked as orphaned."""
    tail, cyc = case
    n = tail + cyc
    out = [SYS]
    for i in range(n):
        parent = i + 1 if i + 1 < n else tail
        out.append(ntfs.frs([ntfs.attr_resident(0x30, ntfs.v_file_name(ntfs.ref(BASE + parent, 1), 'd{}'.format(i)))], number = BASE + i, seq = 1, flags = 3))
    mft = MFT.MasterFileTableParser(ntfs.Image(b''.join(out)))
    for i in range(n):
        ctx.op()
        got = mft.build_full_paths(mft.get_file_record_by_number(BASE + i))
        check(len(got) == 1 and got[0].startswith('<Orphan>/') and got[0].endswith('/d{}'.format(i)), 'record {} of a cyclic chain: {}', i, got)
        check(got[0].count('/') <= n + 2, 'record {} of a cyclic chain has an overlong path: {}', i, got)
    return n


def gen_split():
    for place in itertools.product((0, 1, 2), repeat = 2):
        yield place


def run_split(case, ctx):
    """File names stored in extension records count as well."""
    slots = [[], [], []]
    slots[case[0]].append(ntfs.attr_resident(0x30, ntfs.v_file_name(ntfs.ref(5, 5), 'one')))
    slots[case[1]].append(ntfs.attr_resident(0x30, ntfs.v_file_name(ntfs.ref(9, 1), 'two')))
    recs = [SYS, ntfs.frs(slots[0], number = 6), ntfs.frs(slots[1], number = 7, base = ntfs.ref(6, 1)), ntfs.frs(slots[2], number = 8, base = ntfs.ref(6, 1)),
            ntfs.frs([ntfs.attr_resident(0x30, ntfs.v_file_name(ntfs.ref(5, 5), 'dir'))], number = 9, flags = 3)]
    mft = MFT.MasterFileTableParser(ntfs.Image(b''.join(recs)))
    ctx.op(3)
    equal(sorted(mft.build_full_paths(mft.get_file_record_by_number(6))), ['/dir/two', '/one'], 'paths')
    for p in ('/one', '/dir/two', '/DIR/TWO'):
        fr = mft.get_file_record_by_path(p)
        check(fr is not None and fr.get_master_file_table_number() == 6, 'path {} is not found', p)
    return 'ok'


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('special', gen_special, run_special, 'the root and 10 invalid paths'),
        Group('split', gen_split, run_split, 'two names over base and extension records, all placements'),
        Group('depth', gen_depth, run_depth, 'chains and cycles of 1..11, 40 and 120 directories'),
        Group('rho', gen_rho, run_rho, 'chains of 0..9 directories leading into cycles of 1..8 directories', cpu = 10),
        Group('graphs', gen_graphs(6 if th else 5), run_trees, 'all parent functions over <={} records (root, missing, any record), paths and lookups'.format(6 if th else 5)),
        Group('trees', gen_trees(3, th), run_trees, 'all trees of <=3 records over {} slot configurations; every existing path and 6 others, 5 lookups each'.format(len(slot_alphabet(3, False)))),
    ]
