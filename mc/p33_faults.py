"""P33: a read error is reported by the request that meets it, and leaves nothing behind."""

import itertools

from dfir_ntfs import ShadowCopy

from . import p14_shadowreads as p14
from . import p32_sessions as p32
from . import vss
from .core import Group, Violation, equal, check, short
from .p32_sessions import SUBJECTS, ask, canon, difference, fresh

ID = 'P33'
ASSUMPTIONS = ['the file object given to a parser reports a failed read or seek with OSError',
               'the position of a file-like object after a failed read is not specified: a caller seeks before trying again',
               'calls come from one thread']
RAISED = ('raised', 'OSError')


class Faulty(object):
    """A file whose operation number 'at' (counted by the reads and seeks since 'arm') fails, or which has an unreadable sector."""

    def __init__(self, f):
        self.f, self.n, self.at, self.fired, self.sector, self.touched = f, 0, (), 0, None, set()

    def arm(self, *at):
        self.n, self.at, self.fired = 0, at, 0

    def count(self):
        self.n += 1
        if self.n in self.at:
            self.fired += 1
            raise OSError(5, 'Input/output error')

    def read(self, n = None):
        self.count()
        pos = self.f.tell()
        data = self.f.read() if n is None else self.f.read(n)
        if data:
            first, last = pos // 512, (pos + len(data) - 1) // 512
            if self.sector is not None and first <= self.sector <= last:
                self.f.seek(pos)
                self.fired += 1
                raise OSError(5, 'Input/output error')
            if last - first < 4096:
                self.touched.update(range(first, last + 1))
        return data

    def seek(self, *a):
        self.count()
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def __getattr__(self, name):
        return getattr(self.f, name)


def opened(name):
    f = Faulty(SUBJECTS[name].image('A'))
    return f, SUBJECTS[name].make(f)


_COUNTS = {}


def operations(name, kind, c):
    """How many reads and seeks a request takes (asked first) and which sectors it reads; opening is a request, too."""
    key = (name, kind, c)
    if key not in _COUNTS:
        sub = SUBJECTS[name]
        f = Faulty(sub.image('A'))
        if kind == 'open':
            sub.make(f)
        else:
            p = sub.make(f)
            f.arm()
            f.touched = set()
            canon(ask(sub.calls[c] if kind == 'call' else sub.iters[c], p))
        _COUNTS[key] = (f.n, sorted(f.touched))
    return _COUNTS[key]


def answer(sub, c, p):
    """The answer (all of it, when it is an iteration) and whether it ended with an exception."""
    r = ask(sub.calls[c], p)
    got = canon(r)
    if hasattr(r, '__next__') and got and got[-1] == RAISED:
        return RAISED
    return got


def everything(name, p, what, subset = None):
    """All questions are answered as by a new parser."""
    sub = SUBJECTS[name]
    answers = fresh(name)
    for kind, table in (('call', sub.calls), ('iter', sub.iters)):
        for c in table:
            if subset is not None and c not in subset:
                continue
            got, want = canon(ask(table[c], p)), answers[(name, 'A', kind, c)]
            if got != want:
                raise Violation('{}: {}, the answer to {} is {}, and {} without the error'.format(name, what, c, *difference(got, want)))


def gen_requests(limit):
    def g():
        for name, sub in SUBJECTS.items():
            for c in sub.calls:
                n = operations(name, 'call', c)[0]
                for k in range(1, n + 1):
                    if n > limit and limit // 2 < k <= n - limit // 2 and k % (n // limit + 1):
                        continue
                    yield (name, c, k)
    return g


def run_requests(case, ctx):
    name, c, k = case
    sub = SUBJECTS[name]
    f, p = opened(name)
    f.arm(k)
    ctx.op()
    got = answer(sub, c, p)
    f.at = ()
    if f.fired:
        check(got == RAISED, '{}: read or seek number {} of {} failed, and the answer is {}', name, k, c, short(got, 200))
    everything(name, p, 'after an error in operation {} of {}'.format(k, c))
    return (got == RAISED,)


def gen_iterations():
    for name, sub in SUBJECTS.items():
        for c in sub.iters:
            for k in range(1, operations(name, 'iter', c)[0] + 1):
                yield (name, c, k)


def run_iterations(case, ctx):
    name, c, k = case
    sub = SUBJECTS[name]
    want = fresh(name)[(name, 'A', 'iter', c)]
    f, p = opened(name)
    f.arm(k)
    state = [sub.iters[c](p), [], False]
    while not state[2]:
        ctx.op()
        p32.step(state)
    f.at = ()
    got = tuple(state[1])
    if f.fired:
        check(got and got[-1] == RAISED, '{}: read or seek number {} of the iteration {} failed, and it ended without an error', name, k, c)
        check(got[:-1] == want[:len(got) - 1], '{}: the iteration {} yields other items before an error in operation {}', name, c, k)
    everything(name, p, 'after an error in operation {} of the iteration {}'.format(k, c))
    return (len(got) - 1,)


def gen_opening():
    for name in SUBJECTS:
        for k in range(1, operations(name, 'open', None)[0] + 1):
            yield (name, k)


def run_opening(case, ctx):
    name, k = case
    sub = SUBJECTS[name]
    f = Faulty(sub.image('A'))
    f.arm(k)
    ctx.op()
    try:
        p = sub.make(f)
    except OSError:
        p = None
    check(p is None or not f.fired, '{}: operation {} of opening it failed, and this was not reported', name, k)
    f.at = ()
    everything(name, sub.make(f), 'opened again after an error in operation {}'.format(k))
    return (p is None,)


def gen_sectors():
    for name, sub in SUBJECTS.items():
        for kind, table in (('call', sub.calls), ('iter', sub.iters)):
            for c in table:
                for s in operations(name, kind, c)[1]:
                    yield (name, kind, c, s)


def run_sectors(case, ctx):
    """A sector stays unreadable."""
    name, kind, c, s = case
    sub = SUBJECTS[name]
    want = fresh(name)[(name, 'A', kind, c)]
    f, p = opened(name)
    f.sector = s
    ctx.op()
    if kind == 'call':
        got = answer(sub, c, p)
        check(got == RAISED, '{}: sector {} is unreadable, and the answer to {} is {}', name, s, c, short(got, 200))
        n = 0
    else:
        state = [sub.iters[c](p), [], False]
        while not state[2]:
            p32.step(state)
        got = tuple(state[1])
        check(got and got[-1] == RAISED, '{}: sector {} is unreadable, and the iteration {} ended without an error', name, s, c)
        check(got[:-1] == want[:len(got) - 1], '{}: the iteration {} yields other items before the unreadable sector {}', name, c, s)
        n = len(got) - 1
    f.sector = None
    everything(name, p, 'after an unreadable sector {} in {}'.format(s, c), (c,))
    return (n,)


# Shadow copies: selecting, reading and listing.

SHADOW_REQUESTS = {
    'open': None,
    'list': lambda p: sorted(map(tuple, p.shadows())),
    'select-0': lambda p: (p.select_shadow(10), p.tell()),
    'select-1': lambda p: (p.select_shadow(11), p.tell()),
    'read': lambda p: (p.seek(0), p.read(3 * vss.BLOCK)),
    'read-mid': lambda p: (p.seek(vss.BLOCK + 5), p.read(2 * vss.BLOCK)),
}


def shadow_parsers(two):
    m, vol, store, whole, given = p14.setup(0, 0, two)
    a = Faulty(vss.Image(vol, 64 * vss.BLOCK))
    b = Faulty(vss.Image(store, 80 * vss.BLOCK)) if two else None
    return a, b, whole


def make_shadow(a, b):
    return ShadowCopy.ShadowParserTwoVolumes(a, b) if b is not None else ShadowCopy.ShadowParser(a)


_SHADOW = {}


def shadow_operations(two, first, c):
    key = (two, first, c)
    if key not in _SHADOW:
        a, b, whole = shadow_parsers(two)
        if c != 'open':
            p = make_shadow(a, b)
            p.select_shadow(10 + first)
            a.arm()
            if two:
                b.arm()
            SHADOW_REQUESTS[c](p)
        else:
            make_shadow(a, b)
        _SHADOW[key] = (a.n, b.n if two else 0)
    return _SHADOW[key]


def gen_shadows(step):
    def g():
        for two in (False, True):
            for first in (0, 1):
                for c in SHADOW_REQUESTS:
                    for which, n in enumerate(shadow_operations(two, first, c)):
                        for k in range(1, n + 1):
                            if n > 400 and 100 < k < n - 100 and k % step:
                                continue
                            yield (two, first, c, which, k)
    return g


def run_shadows(case, ctx):
    two, first, c, which, k = case
    a, b, whole = shadow_parsers(two)
    target = (a, b)[which]
    ctx.op()
    if c == 'open':
        target.arm(k)
        try:
            make_shadow(a, b)
            failed = False
        except OSError:
            failed = True
        check(failed or not target.fired, 'operation {} of opening failed, and this was not reported', k)
        target.at = ()
        p = make_shadow(a, b)
        listed = sorted(map(tuple, p.shadows()))
        equal(len(listed), 2, 'shadow copies listed')
        p.select_shadow(10 + first)
        selected = first
    else:
        p = make_shadow(a, b)
        p.select_shadow(10 + first)
        listed = sorted(map(tuple, p.shadows()))
        target.arm(k)
        try:
            SHADOW_REQUESTS[c](p)
            failed = False
        except OSError:
            failed = True
        check(failed or not target.fired, 'operation {} of {} failed, and this was not reported', k, c)
        target.at = ()
        selected = first
        equal(sorted(map(tuple, p.shadows())), listed, 'shadow copies listed after an error in {}'.format(c))
        if c.startswith('select'):
            # Either the selection is as before, or as asked for, or there is none: never a mixture.
            selected = int(c[-1])
            try:
                p.seek(0)
                d = p.read()
            except (ShadowCopy.ShadowCopyException, ValueError):
                d = None
            check(d is None or (d == whole[selected] if not failed else d in (whole[first], whole[selected])), 'after an error in operation {} of {} the content is of neither shadow copy', k, c)
            p.select_shadow(10 + selected)
    p.seek(0)
    check(p.read() == whole[selected], 'the content of the shadow copy differs after an error in operation {} of {}', k, c)
    p.select_shadow(10 + 1 - selected)
    check(p.read() == whole[1 - selected], 'the content of the other shadow copy differs after an error in operation {} of {}', k, c)
    return (c, failed)


def groups(tier):
    q = tier == 'quick'
    return [
        Group('requests', gen_requests(400 if q else 1 << 30), run_requests, 'every request over {} kinds of images x every read and seek of it failing (of over 400: the first and last 200 and evenly spaced ones in between); all requests afterwards'.format(len(SUBJECTS))),
        Group('iterations', gen_iterations, run_iterations, 'every iteration x every read and seek failing: what came before, and all requests afterwards'),
        Group('opening', gen_opening, run_opening, 'every read and seek of opening an image failing, opening it again'),
        Group('sectors', gen_sectors, run_sectors, 'every request and iteration x every sector it reads being unreadable'),
        Group('shadows', gen_shadows(8 if q else 1), run_shadows, 'shadow copies in one or two volumes: every request x failing reads and seeks of it, everything afterwards'),
    ]
