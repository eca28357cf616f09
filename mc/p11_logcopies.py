"""P11: the log is read with the newest intact copy of each page, from any intact restart page, and the input is left alone."""

import itertools

from dfir_ntfs import LogFile

from . import lfs, ntfs
from .core import Group, Violation, equal, check
from .p10_logrecords import data_size, payload

ID = 'P11'
ASSUMPTIONS = ['home pages are written in log order: only the last one written can be torn by a crash',
               'a page version with the same last LSN has the same content']


class History(object):
    """A log written record by record, remembering every version of every page."""

    def __init__(self, version, pages, start, ops):
        self.log = log = lfs.Log(version, pages, start, 5, False)
        self.snaps = []         # (page, generation, number of records so far, content, meta): each page version, in the order of writing
        self.ok = True
        prev = 0
        for i, op in enumerate(ops):
            n = data_size(op, log.left)
            if n is None:
                self.ok = False
                return
            r = log.append(payload(i, n), close = op == 'c', prev = prev)
            for p, g in r.where:
                if log.gen[p] == g:
                    self.snaps.append((p, g, i + 1) + log.snapshot(p))

    def page(self, snap, fast = None, tail = None, usn = 1):
        p, g, k, content, meta = snap
        return self.log.page_bytes(p, content, meta, last_lsn = tail, fast = fast, usn = usn)


def present(h, eff):
    """Records wholly contained in the effective versions of the pages (page -> snapshot or None)."""
    out = {}
    for i, r in enumerate(h.log.records):
        if all(eff.get(p) is not None and eff[p][1] == g and eff[p][2] >= i + 1 for p, g in r.where):
            out[r.lsn] = r
    return out


def must_find(h, eff, anchors):
    whole = present(h, eff)
    anchors = list(anchors)
    for s in eff.values():
        if s is not None:
            anchors += [s[4][0], s[4][1]]
    found = {}
    for a in anchors:
        r = whole.get(a)
        while r is not None and r.lsn not in found:
            found[r.lsn] = r
            r = whole.get(r.next.lsn) if r.next is not None else None
    for lsn in list(found):
        r = whole.get(found[lsn].prev)
        while r is not None and r.lsn not in found:
            found[r.lsn] = r
            r = whole.get(r.prev)
    return found


def drive(h, img, eff, anchors, ctx, recover = True):
    must = must_find(h, eff, anchors)
    whole = present(h, eff)
    image = ntfs.Image(img)
    p = LogFile.LogFileParser(image)
    every = {r.lsn: r for r in h.log.records}
    runs = []
    for again in range(2):
        seen = []
        for x in p.parse_ntfs_records(recover):
            ctx.op()
            seen.append(x.lsn)
            r = every.get(x.lsn)
            check(r is not None, 'a record that was never written is reported')
            if x.lsn in whole:
                equal(bytes(x.get_redo_data()), r.data[32:32 + int.from_bytes(r.data[6:8], 'little')], 'data of LSN {}'.format(x.lsn))
        check(seen == sorted(set(seen)), 'records are out of order or repeated')
        lost = sorted(set(must) - set(seen))
        if lost:
            raise Violation('{} of {} records stored in the newest intact copies are not reported (first: number {}, pages {})'.format(len(lost), len(must), h.log.records.index(must[lost[0]]), must[lost[0]].where))
        runs.append(seen)
        check(image.data == img and not image.writes, 'the log file was written to')
    equal(runs[1], runs[0], 'records found when the log is parsed again')
    return (len(must), len(runs[0]))


# Version 1.1: two tail copies of the page that was being filled.

def gen_tail(n):
    def g():
        for k in range(1, n + 1):
            for ops in itertools.product('smFn', repeat = k):
                for start in (0, 2):
                    h = History((1, 1), 3, start, ops)
                    if not h.ok:
                        continue
                    m = len(h.snaps)
                    options = ['blank', 'torn'] + list(range(max(0, m - 3), m))
                    last = h.snaps[-1][0]
                    homes = ['blank', 'torn'] + [i for i in range(max(0, m - 3), m) if h.snaps[i][0] == last and h.snaps[i][1] == h.snaps[-1][1]]
                    for home in homes:
                        for t1 in options:
                            for t2 in options:
                                yield (''.join(ops), start, home, t1, t2, True)
                                if k < n:
                                    yield (''.join(ops), start, home, t1, t2, False)
    return g


def run_tail(case, ctx):
    ops, start, home, t1, t2, known = case
    copies = []
    h = History((1, 1), 3, start, ops)
    log = h.log
    last = h.snaps[-1][0]
    eff = {}
    for s in h.snaps:
        eff[s[0]] = s
    replace = {}
    # The home location of the page being filled.
    if home == 'blank':
        replace[last] = b'\xff' * lfs.PAGE
        eff[last] = None
    elif home == 'torn':
        b = bytearray(h.page(h.snaps[-1]))
        b[4094:4096] = b'\x00\x63'
        replace[last] = bytes(b)
        eff[last] = None
    else:
        replace[last] = h.page(h.snaps[home])
        eff[last] = h.snaps[home]
    best = None
    for slot, t in ((2, t1), (3, t2)):
        if t == 'blank':
            continue
        s = h.snaps[-1 if t == 'torn' else t]
        b = bytearray(h.page(s, tail = s[0] * lfs.PAGE, usn = 3))
        if t != 'torn':
            copies.append(s[4][1])
        if t == 'torn':
            b[2046:2048] = b'\x00\x63'
        elif best is None or s[4][1] > best[4][1] or (s[4][1] == best[4][1] and s[2] > best[2]):
            best = s
        replace[slot] = bytes(b)
    if best is not None:
        cur = eff.get(best[0])
        # A tail copy replaces its page only if it holds records that the page does not.
        if cur is None or (cur[1], cur[2]) < (best[1], best[2]):
            if cur is None or cur[4][1] < best[4][1]:
                eff[best[0]] = best
    # With a restart page that points to the first record, or to nothing (then the page headers, those of the copies included, have to do).
    anchor = log.records[0].lsn if known else 0
    img = log.image(log.restart_page(current = 0, clients = [(anchor, 0)]), replace = replace)
    return drive(h, img, eff, [anchor] + copies, ctx)


# Versions 2.0 and 3.0: fast copies.

def gen_fast(n, deep):
    def g():
        for k in range(1, n + 1):
            for ops in itertools.product('smFn', repeat = k):
                for start in (0, 2):
                    h = History((2, 0), 3, start, ops)
                    if not h.ok:
                        continue
                    m = len(h.snaps)
                    for flushed in range(0, m + 1):
                        for torn_home in (False, True):
                            if torn_home and flushed == 0:
                                continue
                            for order in ('time', 'reverse', 'stale', 'past'):
                                if order == 'past' and (torn_home or not flushed):
                                    continue
                                for lost in ['none'] + list(range(flushed, m)):
                                    if order != 'time' and lost != 'none' and not deep:
                                        continue
                                    yield (''.join(ops), start, flushed, torn_home, order, lost, True)
                                    if k < n:
                                        yield (''.join(ops), start, flushed, torn_home, order, lost, False)
    return g


def run_fast(case, ctx):
    """The first `flushed` page versions reached their home, all of them (but the lost one) have a copy in the fast area."""
    ops, start, flushed, torn_home, order, lost, known = case
    anchors = []
    h = History((2, 0), 3, start, ops)
    log = h.log
    eff = {}
    replace = {p: b'\xff' * lfs.PAGE for p in log.pages}
    for i, s in enumerate(h.snaps[:flushed]):
        eff[s[0]] = s
        replace[s[0]] = h.page(s)
    if torn_home:
        s = h.snaps[flushed - 1]
        b = bytearray(replace[s[0]])
        b[4094:4096] = b'\x00\x63'
        replace[s[0]] = bytes(b)
        eff[s[0]] = None
    slots = list(range(2, 34))
    copies = [i for i in range(len(h.snaps)) if order in ('stale', 'past') or i >= flushed - (1 if torn_home else 0)]
    if order == 'past':         # The copies of the versions that did not reach their home are lost.
        copies = [i for i in copies if i < flushed]
    if order == 'reverse':
        slots = slots[::-1]
    for slot, i in zip(slots, copies):
        s = h.snaps[i]
        b = bytearray(h.page(s, fast = s[0] * lfs.PAGE, usn = 3))
        if i == lost:
            b[2046:2048] = b'\x00\x63'
        else:
            anchors += s[4][:2]
        replace[slot] = bytes(b)
    # What has to be there at the end: for each page, the newest version among home and intact fast copies.
    for i in copies:
        if i == lost or i < flushed - (1 if torn_home else 0):
            continue
        s = h.snaps[i]
        cur = eff.get(s[0])
        if cur is None or (cur[1], cur[2]) <= (s[1], s[2]):
            eff[s[0]] = s
    anchor = log.records[0].lsn if known else 0
    img = log.image(log.restart_page(current = 0, clients = [(anchor, 0)]), replace = replace)
    return drive(h, img, eff, [anchor] + anchors, ctx)


# The two restart pages.

KINDS = ['new', 'old', 'chkd', 'baad', 'torn', 'blank', 'zero', 'sig', 'short', 'area', 'end', 'index', 'client', 'array']


def gen_restart():
    for version in ((1, 1), (2, 0), (3, 0)):
        for a in KINDS:
            for b in KINDS:
                for which in ('current', 'oldest', 'restart', 'chkdsk'):
                    yield (version, a, b, which)


def run_restart(case, ctx):
    version, a, b, which = case
    h = History(version, 4, 0, 'sscssms')
    log = h.log
    anchors = []
    pages = []
    for kind in (a, b):
        r = log.records[0 if kind in ('new', 'chkd', 'baad') else 4]
        kw = {'current': dict(current = r.lsn), 'oldest': dict(current = 0, clients = [(r.lsn, 0)]), 'restart': dict(current = 0, clients = [(0, r.lsn)]), 'chkdsk': dict(current = 0, chkdsk = r.lsn)}[which]
        page = bytearray(log.restart_page(**kw))
        if kind in ('new', 'old', 'chkd', 'baad'):
            anchors.append(r.lsn)
            if kind in ('chkd', 'baad'):    # Marked by the file system checker.
                page[0:4] = kind.upper().encode()
        elif kind == 'torn':
            page[1534:1536] = b'\x44\x44'
        elif kind == 'blank':
            page = b'\xff' * lfs.PAGE
        elif kind == 'zero':
            page = b'\x00' * lfs.PAGE
        elif kind == 'sig':
            page[0:4] = b'RSTX'
        elif kind == 'short':
            page[6:8] = b'\x05\x00'
        elif kind == 'area':        # No client array.
            page[64 + 22:64 + 24] = b'\x00\x00'
        elif kind == 'end':         # The restart area is cut by the end of the page.
            page[24:26] = b'\xf8\x0f'
        elif kind == 'index':       # A client which does not exist.
            page[64 + 12:64 + 14] = b'\x07\x00'
        elif kind == 'client':      # An impossible length of the name of the client.
            page[64 + 48 + 28:64 + 48 + 32] = b'\x82\x00\x00\x00'
        elif kind == 'array':       # The client array leaves the page.
            page[64 + 22:64 + 24] = b'\xb0\x0f'
        pages.append(bytes(page))
    img = log.image(pages[0], pages[1])
    eff = {}
    for s in h.snaps:
        eff[s[0]] = s
    if not anchors:
        ctx.op()
        try:
            LogFile.LogFileParser(ntfs.Image(img))
        except LogFile.LogFileException as e:
            equal(type(e) is LogFile.EmptyLogFileException, a == b == 'blank', 'the log is reported as empty')
            return 'rejected'
        raise Violation('a log without an intact restart page was accepted')
    return drive(h, img, eff, anchors, ctx)


# Copies that cannot be applied.

def gen_offsets():
    for version in ((1, 1), (2, 0)):
        for off in (-4096, -1, 1, 7, 100, 4095, 8 * 4096 - 1, 512, 2048, 'home+512', 'home+2048', 'home-512', 'home+4095', 'home-4088', 'end', 'end+1', 'far', 'max', 'min', 'nofield'):
            for other in ('none', 'before', 'after', 'before-old', 'after-old'):
                yield (version, off, other)


def run_offsets(case, ctx):
    """A copy whose home location is impossible changes nothing, and does not hide a good copy."""
    version, off, other = case
    h = History(version, 3, 0, 'scs')
    log = h.log
    value = {'end': log.size, 'end+1': log.size + 4096, 'far': 0xFFFFF000, 'max': 0x7FFFFFFFFFFFF000, 'min': -0x8000000000000000}.get(off, off)
    s = h.snaps[-1]
    if isinstance(off, str) and off.startswith('home'):
        value = s[0] * lfs.PAGE + int(off[4:])
    newer = (s[4][0] + 4096, s[4][1] + 4096)
    if other.endswith('old'):       # Not newer than the good copy, but newer than what is at home.
        newer = (s[4][0], s[4][1]) if version == (1, 1) else h.snaps[-2][4][:2]
    meta = list(s[4])
    meta[0], meta[1] = newer
    if version == (1, 1):
        if off == 'nofield':
            return 'not applicable'
        page = log.page_bytes(s[0], s[3], meta, last_lsn = value & 0xFFFFFFFFFFFFFFFF)
        replace = {2: page}
    else:
        if off == 'nofield':
            raw = bytearray(log.page_bytes(s[0], s[3], meta))
            # The update sequence array takes the place of the offset.
            raw = bytearray(LogFile_unprotect(raw))
            raw[4:6] = (44).to_bytes(2, 'little')
            replace = {2: ntfs.protect(raw, 5)}
        else:
            if not 0 <= value <= 0xFFFFFFFF:
                return 'not applicable'
            replace = {2: log.page_bytes(s[0], s[3], meta, fast = value)}
    eff = {}
    for s in h.snaps:
        eff[s[0]] = s
    if other != 'none':         # The last page is there only as a copy, too.
        good = h.page(s, tail = s[0] * lfs.PAGE) if version == (1, 1) else h.page(s, fast = s[0] * lfs.PAGE)
        bad = replace[2]
        replace = {s[0]: b'\xff' * lfs.PAGE, 2: good, 3: bad} if other.startswith('before') else {s[0]: b'\xff' * lfs.PAGE, 2: bad, 3: good}
    return drive(h, log.image(log.restart_page(current = 0, clients = [(log.records[0].lsn, 0)]), replace = replace), eff, [log.records[0].lsn], ctx)


def gen_array():
    for version in ((1, 1), (2, 0), (3, 0)):
        for usa in ((40, 42, 44, 46) if version == (1, 1) else (40, 42)):
            for ops in itertools.product('sFn', repeat = 3):
                for slot in (2, 3):
                    yield (version, usa, ''.join(ops), slot)


def run_array(case, ctx):
    """The update sequence array of a copy may lie anywhere before the data (and, in versions 2 and 3, before the home location)."""
    version, usa, ops, slot = case
    h = History(version, 3, 0, ops)
    log = h.log
    s = h.snaps[-1]
    raw = bytearray(LogFile_unprotect(h.page(s, tail = s[0] * lfs.PAGE) if version == (1, 1) else h.page(s, fast = s[0] * lfs.PAGE)))
    raw[40:58] = b'\x00' * 18
    raw[4:6] = usa.to_bytes(2, 'little')
    eff = {}
    for x in h.snaps:
        eff[x[0]] = x
    return drive(h, log.image(log.restart_page(current = 0, clients = [(log.records[0].lsn, 0)]), replace = {s[0]: b'\xff' * lfs.PAGE, slot: ntfs.protect(raw, 7)}), eff, [log.records[0].lsn], ctx)


def gen_modes():
    for version in ((1, 1), (2, 0)):
        for ops in itertools.product('sFn', repeat = 3):
            for modes in itertools.product((False, True), repeat = 3):
                yield (version, ''.join(ops), modes)


def run_modes(case, ctx):
    """Whether the copies are used depends on the request alone, not on earlier ones."""
    version, ops, modes = case
    h = History(version, 3, 0, ops)
    log = h.log
    s = h.snaps[-1]
    replace = {s[0]: b'\xff' * lfs.PAGE, 2: h.page(s, tail = s[0] * lfs.PAGE) if version == (1, 1) else h.page(s, fast = s[0] * lfs.PAGE)}
    img = log.image(log.restart_page(current = 0, clients = [(log.records[0].lsn, 0)]), replace = replace)
    fresh = {m: [x.lsn for x in LogFile.LogFileParser(ntfs.Image(img)).parse_ntfs_records(m)] for m in (False, True)}
    image = ntfs.Image(img)
    p = LogFile.LogFileParser(image)
    for i, m in enumerate(modes):
        ctx.op()
        equal([x.lsn for x in p.parse_ntfs_records(m)], fresh[m], 'records found by request number {}'.format(i))
        check(image.data == img and not image.writes, 'the log file was written to')
    return (len(fresh[False]), len(fresh[True]))


def LogFile_unprotect(raw):
    raw = bytearray(raw)
    o = int.from_bytes(raw[4:6], 'little')
    n = int.from_bytes(raw[6:8], 'little')
    for i in range(1, n):
        raw[i * 512 - 2:i * 512] = raw[o + 2 * i:o + 2 * i + 2]
    return raw


def gen_norecover():
    for version in ((1, 1), (2, 0)):
        for ops in itertools.product('smF', repeat = 3):
            yield (version, ''.join(ops))


def run_norecover(case, ctx):
    """Without recovery, the log is read as it is at home."""
    version, ops = case
    h = History(version, 3, 0, ops)
    log = h.log
    s = h.snaps[-1]
    first = h.snaps[0]
    eff = {}
    replace = {}
    for x in h.snaps:
        eff[x[0]] = x
    replace[s[0]] = b'\xff' * lfs.PAGE
    eff[s[0]] = None
    replace[2] = h.page(s, tail = s[0] * lfs.PAGE) if version == (1, 1) else h.page(s, fast = s[0] * lfs.PAGE)
    img = log.image(log.restart_page(current = 0, clients = [(log.records[0].lsn, 0)]), replace = replace)
    got = [x.lsn for x in LogFile.LogFileParser(ntfs.Image(img)).parse_ntfs_records(False)]
    ctx.op()
    lsns = {r.lsn for r in log.records if r.where[0][0] == s[0]}
    check(not (set(got) & lsns), 'records of a page that is not in the log were reported without recovery')
    return drive(h, img, eff, [log.records[0].lsn], ctx, False)


def groups(tier):
    th = tier == 'thorough'
    return [
        Group('restart', gen_restart, run_restart, '3 versions x all pairs of 14 states of the two restart pages x 4 places pointing to the first record'),
        Group('offsets', gen_offsets, run_offsets, 'copies with impossible home locations: 20 values x 2 versions, alone and next to a good copy', cpu = 20),
        Group('array', gen_array, run_array, '3 versions x all places of the update sequence array of a copy x all sequences of 3 records over 3 placements x 2 slots'),
        Group('modes', gen_modes, run_modes, '2 versions x all sequences of 3 records over 3 placements x all sequences of 3 requests with and without recovery'),
        Group('norecover', gen_norecover, run_norecover, '2 versions x all sequences of 3 records over 3 placements, last page present only as a copy'),
        Group('tail', gen_tail(5 if th else 4), run_tail, 'version 1.1: all histories of <={} records over 4 placements x 2 start pages x all states of the home page and of both tail copies (blank, torn, each of the last 3 page versions); shorter ones without a restart pointer'.format(5 if th else 4)),
        Group('fast', gen_fast(5 if th else 4, th), run_fast, 'version 2.0: all histories of <={} records over 4 placements x 2 start pages x every number of page versions flushed home x torn last home page x 4 sets and orders of copies x each lost copy; shorter ones without a restart pointer'.format(5 if th else 4)),
    ]
