"""P27: evidence is only read; a mounted shadow copy is read-only and exact."""

import datetime
import errno
import io
import itertools
import os
import shutil
import stat
import sys
import tempfile
import types

from . import cli, core, vss
from . import p13_snapshots as p13
from .core import Group, Violation, equal, check

ID = 'P27'
ASSUMPTIONS = ['the FUSE binding is replaced by a stand-in: requests are made by calling the handlers of the object given to llfuse.init(), from llfuse.main(); the kernel is not involved',
               'which error a request for an unknown inode or handle gets is not specified; a flush or fsync request may succeed or fail',
               'the shadow copies are those of the model of P13']

B = vss.BLOCK
TOTAL = 48

SCENARIOS = [
    (('s', 'w1', 's', 'w2', 'm13'), True, 4 * B),
    (('s', 'w1', 'o2b', 's', 'w1', 's'), True, 4 * B + 1536),
    (('s', 'w1', 'w2', 's', 'w1'), False, 3 * B + 700),
    (('s', 'w3', 'o1c'), True, 2 * B + 1),
]
OFFSETS = [0, B, 512, 3 * B + 1024]


# A stand-in for the FUSE binding.

class FUSEError(Exception):
    def __init__(self, code):
        super().__init__(code)
        self.errno = code
        self.errno_ = code


def _unsupported(self, *args):
    raise FUSEError(errno.ENOSYS)


class Operations(object):
    def __init__(self):
        pass

    def init(self):
        pass

    def destroy(self):
        pass

    def forget(self, inode_list):
        pass

    def stacktrace(self):
        pass


for _n in ('access create flush fsync fsyncdir getattr getxattr link listxattr lookup mkdir mknod open opendir read readdir readlink release releasedir removexattr rename rmdir setattr setxattr statfs symlink unlink '
           'write').split():
    setattr(Operations, _n, _unsupported)


class EntryAttributes(object):
    pass


class StatvfsData(object):
    pass


class Session(object):
    """One mount: what the program did with the binding and what the requests returned."""

    def __init__(self, work):
        self.work, self.fs, self.point, self.log = work, None, None, []


def binding(session):
    m = types.ModuleType('llfuse')
    m.FUSEError, m.Operations, m.EntryAttributes, m.StatvfsData = FUSEError, Operations, EntryAttributes, StatvfsData
    m.ROOT_INODE = 1
    m.default_options = frozenset(['default_permissions'])

    def init(operations, mountpoint, options = None):
        if session.fs is not None:
            raise Violation('the file system is mounted twice')
        check(isinstance(options, (set, frozenset)), 'mount options: {}', options)
        session.fs, session.point = operations, mountpoint
        session.log.append('init')

    def main(workers = None, handle_signals = True, **kw):
        check(session.fs is not None, 'requests are served before the file system is mounted')
        session.log.append('main')
        session.fs.init()
        session.work(session.fs)

    def close(unmount = True):
        session.log.append('close')
        session.fs.destroy()

    m.init, m.main, m.close = init, main, close
    return m


_CODE = {}
_DIR = {}


def scratch():
    """A directory with the images of every scenario."""
    pid = os.getpid()
    if pid not in _DIR:
        d = tempfile.mkdtemp(prefix = 'mc-mount-', dir = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        os.mkdir(os.path.join(d, 'MP'))
        _DIR[pid] = (d, {})
    return _DIR[pid]


def cleanup():
    d = _DIR.pop(os.getpid(), None)
    if d is not None:
        shutil.rmtree(d[0], ignore_errors = True)


core.CLEANUP.append(cleanup)


def content(blocks, total, base):
    i = vss.Image(blocks, total, base)
    return i.read(base + total)


def files(si, oi, two):
    """Return the paths and contents of the images, the reference contents and the model."""
    d, known = scratch()
    key = (si, oi, two)
    if key not in known:
        h, null, size = SCENARIOS[si]
        m = p13.build(h, null, size = size)
        total = TOTAL
        vol, store = vss.encode(m, two, total = total)
        total = max(list(vol) + [TOTAL - 1]) + 1
        images = [('vol-{}-{}-{}'.format(*key), content(vol, total * B, OFFSETS[oi]))]
        if two:
            images.append(('sto-{}-{}-{}'.format(*key), content(store, (max(store) + 1) * B, OFFSETS[-1 - oi])))
        for name, data in images:
            with open(os.path.join(d, name), 'wb') as f:
                f.write(data)
            os.chmod(os.path.join(d, name), 0o444)
        whole = []
        for s in m.stores:
            b = vol[0] + b''.join(b''.join(m.expected(s.number, x)) for x in range(1, 4)) + (content(vol, total * B, 0)[4 * B:])
            whole.append(b[:size])
        known[key] = (m, [(os.path.join(d, n), x) for n, x in images], whole, size, (vol, store))
    return known[key]


def start(args, work):
    """Run the program; return (session, exit code, text, error)."""
    if 'c' not in _CODE:
        path = os.path.join(core.REPO, 'vsc_mount')
        with open(path, encoding = 'utf-8') as f:
            _CODE['c'] = compile(f.read(), path, 'exec')
    s = Session(work)
    old = sys.modules.get('llfuse')
    argv, stdout, stderr = sys.argv, sys.stdout, sys.stderr
    text = io.StringIO()
    sys.modules['llfuse'] = binding(s)
    sys.argv = ['vsc_mount'] + list(args)
    sys.stdout = sys.stderr = text
    code, error = 0, None
    try:
        exec(_CODE['c'], {'__name__': '__main__', '__file__': os.path.join(core.REPO, 'vsc_mount')})
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    except Violation:
        raise
    except Exception as e:
        error = e
    finally:
        sys.argv, sys.stdout, sys.stderr = argv, stdout, stderr
        if old is None:
            del sys.modules['llfuse']
        else:
            sys.modules['llfuse'] = old
    return s, code, text.getvalue(), error


def unchanged(images):
    d, known = scratch()
    for path, data in images:
        with open(path, 'rb') as f:
            check(f.read() == data, 'an input file was modified')
    check(os.listdir(os.path.join(d, 'MP')) == [], 'something was written to the mount point')
    expected = {os.path.basename(p) for k in known.values() for p, _ in k[1]} | {'MP'}
    equal(sorted(set(os.listdir(d)) - expected), [], 'files created')


def mount(si, oi, mode, k, work):
    """Mount a shadow copy and serve the requests."""
    two = mode == '--mount-two'
    m, images, whole, size, _ = files(si, oi, two)
    point = os.path.join(scratch()[0], 'MP')
    if two:
        args = [mode, images[0][0], images[1][0], str(OFFSETS[oi]), str(OFFSETS[-1 - oi]), str(10 + k), point]
    else:
        args = [mode, images[0][0], str(OFFSETS[oi]), str(10 + k), point]
    s, code, text, error = start(args, work)
    if error is not None:
        import traceback
        raise Violation('mounting ended with an error: ' + ''.join(traceback.format_exception(error))[-1500:])
    equal(code, 0, 'exit status of a mount')
    equal(s.log, ['init', 'main', 'close'], 'mount, requests and unmount')
    equal(s.point, point, 'mount point')
    unchanged(images)


# Requests and what they have to return.

WRITE_FLAGS = [os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_APPEND, os.O_WRONLY | os.O_TRUNC, os.O_RDWR | os.O_CREAT, os.O_WRONLY | os.O_EXCL | os.O_NOFOLLOW]
READ_FLAGS = [os.O_RDONLY, os.O_RDONLY | os.O_NONBLOCK, os.O_RDONLY | os.O_NOFOLLOW | os.O_CLOEXEC]


def request(fs, name, *args):
    """Return ('ok', value) or ('error', errno)."""
    try:
        v = getattr(fs, name)(*args)
        if name == 'readdir':
            v = list(v)
    except FUSEError as e:
        return ('error', e.errno)
    return ('ok', v)


def attributes(got, inode, size, what):
    equal(got[0], 'ok', what)
    a = got[1]
    equal(a.st_ino, inode, what + ': inode')
    equal(a.st_size, size, what + ': size')
    equal(stat.S_IFMT(a.st_mode), stat.S_IFDIR if inode == 1 else stat.S_IFREG, what + ': type')


def refuse(got, what, code = errno.EROFS):
    check(got[0] == 'error', '{} is not refused', what)
    if code is not None:
        equal(got[1], code, 'error for ' + what)


def step(fs, req, data, state):
    """Make one request and compare the result with the model of a directory with one file that cannot be changed."""
    kind, what = req[0], repr(req)
    size = len(data)
    if kind == 'lookup':
        got = request(fs, 'lookup', req[1], req[2], None)
        if req[1] == 1 and req[2] == b'image.raw':
            attributes(got, 2, size, what)
        else:
            refuse(got, what, None)
    elif kind == 'getattr':
        got = request(fs, 'getattr', req[1], None)
        if req[1] in (1, 2):
            attributes(got, req[1], 0 if req[1] == 1 else size, what)
        else:
            refuse(got, what, None)
    elif kind == 'open':
        got = request(fs, 'open', req[1], req[2], None)
        if req[1] == 2 and req[2] in READ_FLAGS:
            equal(got[0], 'ok', what)
            state['fh'] = got[1]
        elif req[2] in WRITE_FLAGS:
            refuse(got, what)
        else:
            refuse(got, what, None)
    elif kind == 'opendir':
        got = request(fs, 'opendir', req[1], None)
        if req[1] == 1:
            equal(got[0], 'ok', what)
            state['dh'] = got[1]
        else:
            refuse(got, what, None)
    elif kind == 'readdir':
        if 'dh' not in state:
            state['dh'] = request(fs, 'opendir', 1, None)[1]
        seen, off, rounds = [], 0, 0
        while True:
            got = request(fs, 'readdir', state['dh'], off)
            equal(got[0], 'ok', what)
            if not got[1]:
                break
            for n, a, nxt in got[1]:
                seen.append(n)
                attributes(('ok', a), 2, size, what)
                check(nxt > off, 'the listing of the directory does not advance')
                off = nxt
            rounds += 1
            check(rounds < 5, 'the listing of the directory does not end')
        equal(seen, [b'image.raw'], 'names in the directory')
    elif kind == 'read':
        if 'fh' not in state:
            got = request(fs, 'open', 2, os.O_RDONLY, None)
            equal(got[0], 'ok', 'opening the file')
            state['fh'] = got[1]
        got = request(fs, 'read', state['fh'], req[1], req[2])
        equal(got[0], 'ok', what)
        want = data[req[1]:req[1] + req[2]]
        if got[1] != want:
            raise Violation('reading {} bytes at {}: {} bytes are returned instead of {} (or different ones)'.format(req[2], req[1], len(got[1]), len(want)))
    elif kind == 'readbad':
        refuse(request(fs, 'read', req[1], 0, 512), what, None)
    elif kind == 'release':
        if req[1] == 'file':
            fh = state.pop('fh', None)
            if fh is not None:
                equal(request(fs, 'release', fh)[0], 'ok', what)
        else:
            dh = state.pop('dh', None)
            if dh is not None:
                equal(request(fs, 'releasedir', dh)[0], 'ok', what)
    elif kind == 'statfs':
        equal(request(fs, 'statfs', None)[0], 'ok', what)
    elif kind == 'access':
        request(fs, 'access', req[1], req[2], None)
    elif kind == 'sync':
        request(fs, 'flush', 2)
        request(fs, 'fsync', 2, True)
    elif kind == 'modify':
        refuse(request(fs, req[1], *req[2]), what)
    elif kind == 'xattr':
        refuse(request(fs, 'setxattr', req[1], b'user.a', b'1', None), what, None)
        refuse(request(fs, 'removexattr', req[1], b'user.a', None), what, None)
    else:
        raise ValueError(req)


MODIFY = [('modify', n, a) for n, a in [
    ('create', (1, b'new', 0o644, os.O_WRONLY | os.O_CREAT, None)), ('create', (1, b'image.raw', 0o644, os.O_RDWR | os.O_CREAT, None)), ('create', (1, b'new', 0o644, os.O_RDONLY | os.O_CREAT, None)),
    ('link', (2, 1, b'l', None)), ('mkdir', (1, b'd', 0o755, None)), ('mknod', (1, b'n', 0o644, 0, None)),
    ('rename', (1, b'image.raw', 1, b'x', None)), ('rename', (1, b'x', 1, b'image.raw', None)), ('rmdir', (1, b'd', None)), ('rmdir', (1, b'image.raw', None)),
    ('setattr', (2, None, None, None, None)), ('setattr', (1, None, None, None, None)), ('setattr', (2, None, None, 2, None)), ('symlink', (1, b's', b'image.raw', None)),
    ('unlink', (1, b'image.raw', None)), ('unlink', (1, b'x', None)), ('write', (2, 0, b'x')), ('write', (2, 5, b'')), ('write', (2, 1 << 40, b'x')), ('write', (1, 0, b'x'))]]
OPEN = [('open', i, f) for i in (1, 2, 3) for f in READ_FLAGS + WRITE_FLAGS]
QUERY = [('lookup', p, n) for p in (1, 2, 3) for n in (b'image.raw', b'image', b'image.raw2', b'IMAGE.RAW', b'', b'.', b'..', b'/image.raw')] + [('getattr', i) for i in (1, 2, 3, 0, 1 << 63)] + [
    ('opendir', i) for i in (1, 2, 3)] + [('readdir',), ('statfs',), ('sync',), ('access', 1, os.R_OK), ('access', 2, os.W_OK), ('xattr', 1), ('xattr', 2), ('release', 'file'), ('release', 'dir'), ('readbad', 1), ('readbad', 77)]
READS = [('read', 0, 512), ('read', B - 100, 200), ('read', 2 * B - 1, B + 2), ('read', 0, 1 << 20), ('read', 1 << 40, 512), ('read', B, 0)]

MODES = ['--mount', '--mount-two']


SINGLE = MODIFY + OPEN + QUERY + READS
SMALL = [MODIFY[1], MODIFY[9], MODIFY[10], MODIFY[16], ('open', 2, os.O_RDONLY), ('open', 2, os.O_RDWR), ('open', 2, os.O_WRONLY | os.O_APPEND), ('opendir', 1), ('readdir',), ('lookup', 1, b'image.raw'), ('lookup', 1, b'x'),
         ('getattr', 2), ('getattr', 3), ('release', 'file'), ('release', 'dir'), ('sync',)] + READS


def gen_requests(depth):
    def g():
        for mode in MODES:
            for k in (0, 1):
                yield (mode, k, (), True)
                for a in SINGLE:
                    yield (mode, k, (a,), True)
                for n in range(2, depth):
                    for pre in itertools.product(SMALL, repeat = n):
                        yield (mode, k, pre, False)
    return g


def run_requests(case, ctx):
    """All continuations of a sequence of requests by one more."""
    mode, k, pre, every = case
    last = SINGLE if every else SMALL
    m, images, whole, size, _ = files(0, 1, mode == '--mount-two')

    def work(fs):
        for req in last:
            state = {}
            for r in pre:
                step(fs, r, whole[k], state)
                ctx.op()
            step(fs, req, whole[k], state)
            ctx.op()
            # Whatever happened, the file is the same.
            step(fs, ('read', B - 3, 6), whole[k], state)
    mount(0, 1, mode, k, work)
    return len(last)


def edges(size):
    return sorted({0, 1, 511, 512, 513, B - 1, B, B + 1, 2 * B - 512, 2 * B, 2 * B + 700, 3 * B - 1, 3 * B, size - 513, size - 512, size - 1, size, size + 1, size + B, 1 << 45} & set(range(size + 2)) | {size + B, 1 << 45})


LENGTHS = [0, 1, 511, 512, 513, 4096, B - 1, B, B + 1, 2 * B + 77, 131072, 1 << 22]


def gen_reads():
    for mode in MODES:
        for si in range(len(SCENARIOS)):
            for oi in range(len(OFFSETS)):
                for k in range(sum(op == 's' for op in SCENARIOS[si][0])):
                    for pos in edges(SCENARIOS[si][2]):
                        yield (mode, si, oi, k, pos)


def run_reads(case, ctx):
    mode, si, oi, k, pos = case
    m, images, whole, size, _ = files(si, oi, mode == '--mount-two')

    def work(fs):
        state = {}
        step(fs, ('readdir',), whole[k], state)
        for n in LENGTHS:
            step(fs, ('read', pos, n), whole[k], state)
            ctx.op()
    mount(si, oi, mode, k, work)
    return len(whole[k])


# The alternate fill patterns.

def gen_fill():
    for si in range(len(SCENARIOS)):
        for oi in range(len(OFFSETS)):
            for k in range(sum(op == 's' for op in SCENARIOS[si][0])):
                yield (si, oi, k)


def run_fill(case, ctx):
    si, oi, k = case
    m, images, whole, size, (vol, store) = files(si, oi, False)
    now = content(vol, (max(vol) + 1) * B, 0)
    st = m.stores[k]
    touched = {e[0] for t in m.stores[k:] for e in t.entries} | {e[2] for t in m.stores[k:] for e in t.entries if e[1] == 'forward'}

    def compare(fs, pos, n):
        fh = request(fs, 'open', 2, os.O_RDONLY, None)[1]
        got = request(fs, 'read', fh, pos, n)
        ctx.op()
        equal(got[0], 'ok', 'read')
        want = whole[k][pos:pos + n]
        equal(len(got[1]), len(want), 'bytes read at {}'.format(pos))
        while pos < size and want:
            piece = min(512 - pos % 512, len(want))
            o = pos % 512
            patterns = [(b'ORIGINAL        ' * 32)[o:o + piece], (b'EMPTY           ' * 32)[o:o + piece]]
            x, g, w = pos // B, got[1][:piece], want[:piece]
            if x in touched:
                ok = g == w or g == patterns[0] and w == now[pos:pos + piece] or g == patterns[1] and w == b'\x00' * piece
            elif 1 <= x <= m.n and st.ignorable(x) and st.null:
                ok = g == patterns[1]
            else:
                ok = g == patterns[0]
            if not ok:
                raise Violation('with the alternate fill, the data at {} is {}'.format(pos, g[:16]))
            got, want, pos = ('ok', got[1][piece:]), want[piece:], pos + piece

    def work(fs):
        for pos in (0, 512, B - 512, B, 2 * B, 2 * B + 100, 3 * B):
            for n in (512, B, 2 * B, 1 << 20):
                compare(fs, pos, n)
        step(fs, ('readdir',), whole[k], {})
    mount(si, oi, '--mount-altfill', k, work)
    return sorted(touched)


# The list of shadow copies.

def gen_list():
    for si in range(len(SCENARIOS)):
        for oi in range(len(OFFSETS)):
            for two in (False, True):
                yield ('list', si, oi, two)
    for h in p13.histories(['s', 'w1', 'd2', 'm13'], 4, minimum = 1):
        yield ('history', h)
    for n in range(0, 8):
        yield ('history', ('s',) * n)
    for kind in ('disabled', 'invalid', 'empty', 'short'):
        yield (kind,)


def run_list(case, ctx):
    d, _ = scratch()
    extra = None
    if case[0] == 'list':
        m, images, whole, size, _ = files(case[1], case[2], case[3])
        path, off = images[0][0], OFFSETS[case[2]]
    else:
        off = 0
        if case[0] == 'history':
            m = p13.build(case[1], True)
            if m is None:
                return 'not applicable'
            vol, _ = vss.encode(m, False, total = 64)
            data = content(vol, (max(vol) + 1) * B, 0)
        elif case[0] == 'disabled':
            data = vss.start_block(0, b'V' * 16, b'V' * 16)[:7680] + b'\x00' * 9000
        elif case[0] == 'invalid':
            data = b'\x00' * 0x10000
        elif case[0] == 'empty':
            data = b''
        else:
            data = vss.start_block(0, b'V' * 16, b'V' * 16)[:600]
        path = extra = os.path.join(d, 'LIST')
        with open(path, 'wb') as f:
            f.write(data)
        images = [(path, data)]
    try:
        s, code, text, error = start(['--list', path, str(off)], None)
        ctx.op()
        if error is not None:
            raise Violation('the list ended with an error: {!r}'.format(error))
        equal((code, s.log), (0, []), 'exit status and mounts')
        with open(path, 'rb') as f:
            check(f.read() == images[0][1], 'an input file was modified')
    finally:
        if extra:
            os.unlink(extra)
    lines = [l.strip() for l in text.splitlines() if 'Stack position' in l]
    if case[0] in ('list', 'history'):
        want = ['Stack position: {}, timestamp (UTC): {}'.format(10 + s.number, datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds = (vss.FILETIME + s.number * 10000000) // 10)) for s in m.stores]
        equal(sorted(lines), sorted(want), 'shadow copies listed')
    else:
        equal(lines, [], 'shadow copies listed')
        want = ['disabled'] if case[0] == 'disabled' else ['disabled', 'Not a valid volume']
        check(any(w in text for w in want), 'the text is {!r}', text)
    return len(lines)


# Arguments and errors.

def gen_errors():
    for a in ([], ['--list'], ['--mount'], ['--mount-two'], ['--mount-altfill'], ['--help'], ['--list', 'V'], ['--list', 'V', 'x'], ['--list', 'V', '0', '0'], ['--mount', 'V', '0', '10'], ['--mount', 'V', '0', '10', 'MP', 'x'],
              ['--mount', 'V', 'x', '10', 'MP'], ['--mount', 'V', '0', 'x', 'MP'], ['--mount-altfill', 'V', 'x', '10', 'MP'], ['--mount-two', 'V', 'V', '0', '0', '10'], ['--mount-two', 'V', 'V', 'x', '0', '10', 'MP'],
              ['--mount-two', 'V', 'V', '0', 'x', '10', 'MP'], ['--mount-two', 'V', 'V', '0', '0', 'x', 'MP']):
        yield ('usage', tuple(a))
    for a in (['--list', 'NO', '0'], ['--mount', 'NO', '0', '10', 'MP'], ['--mount', 'V', '0', '10', 'NO'], ['--mount', 'V', '0', '10', 'V'], ['--mount-altfill', 'NO', '0', '10', 'MP'], ['--mount-two', 'NO', 'V', '0', '0', '10', 'MP'],
              ['--mount-two', 'V', 'NO', '0', '0', '10', 'MP'], ['--mount-two', 'V', 'V', '0', '0', '10', 'NO']):
        yield ('missing', tuple(a))
    for a in (['--mount', 'V', '0', '9', 'MP'], ['--mount', 'V', '0', '12', 'MP'], ['--mount', 'V', '0', '-1', 'MP'], ['--mount', 'V', '512', '10', 'MP'], ['--mount-altfill', 'V', '0', '12', 'MP'],
              ['--mount-two', 'V', 'V', '0', '0', '12', 'MP']):
        yield ('absent', tuple(a))


def run_errors(case, ctx):
    kind, args = case
    m, images, whole, size, _ = files(0, 0, False)
    d = scratch()[0]
    sub = {'V': images[0][0], 'MP': os.path.join(d, 'MP'), 'NO': os.path.join(d, 'NO')}
    s, code, text, error = start([sub.get(a, a) for a in args], lambda fs: None)
    ctx.op()
    equal(s.log, [], 'mounts')
    if kind == 'usage':
        check(error is None and code == 0 and 'Usage:' in text, 'the usage is not shown: {} {} {}', error, code, text)
    elif kind == 'missing':
        check(error is None and code not in (0, None) and 'does not exist' in text, 'the missing file is not reported: {} {} {}', error, code, text)
    else:
        check(error is not None or code != 0, 'a shadow copy that does not exist is mounted without an error')
    unchanged(images)
    return kind


# Every program, given every kind of file, only reads it (whatever the result is).

_KINDS = {}


def kinds():
    if not _KINDS:
        from . import exfat, fat, lfs
        from . import p17_movetable as move
        from . import p30_logreports as p30
        from . import p09_usn
        log = lfs.Log()
        log.append(lfs.client_record(b'12345678'))
        _KINDS.update({
            'mft': p30.TABLE, 'log': log.image(), 'journal': b''.join(p30.JITEMS[k] for k in sorted(p30.JITEMS)), 'move': move.header_sector(512),
            'fat': content_of(fat.Volume(16).image()), 'exfat': content_of(exfat.Volume().image()), 'shadow': files(0, 0, False)[1][0][1], 'empty': b'', 'zero': b'\x00' * 8192,
            'pattern': bytes(range(256)) * 64})
    return _KINDS


def content_of(img):
    img.seek(0, 2)
    n = img.tell()
    img.seek(0)
    return img.read(n)


NAMES = ['mft', 'log', 'journal', 'move', 'fat', 'exfat', 'shadow', 'empty', 'zero', 'pattern']


def gen_programs():
    for a in NAMES:
        for mode in ('--mft', '--mem', '--move', '--indx', '--all-mft', 'fat'):
            yield (mode, a)
        for b in NAMES:
            for mode in ('--usn', '--log'):
                yield (mode, a, b)


def run_programs(case, ctx):
    mode = case[0]
    if mode == 'fat':
        tool, args = 'fat_parser', ['A', '0', 'OUT']
    elif mode in ('--indx', '--all-mft'):
        tool, args = 'ntfs_parser', [mode, 'A', '0', 'OUT']
    elif len(case) == 2:
        tool, args = 'ntfs_parser', [mode, 'A', 'OUT']
    else:
        tool, args = 'ntfs_parser', [mode, 'A', 'B', 'OUT']
    ctx.op()
    r = cli.run(tool, args, dict(zip('AB', [kinds()[x] for x in case[1:]])))
    return type(r.error).__name__


def groups(tier):
    thorough = tier == 'thorough'
    return [
        Group('reads', gen_reads, run_reads, 'both mount modes x 4 snapshot histories x 4 volume offsets x every shadow copy x every offset around block, sector and volume boundaries x 12 lengths; the directory listing'),
        Group('requests', gen_requests(4 if thorough else 3), run_requests, 'every sequence of {} requests out of the 22 most interacting ones, every pair of all {} requests; the file is read again after each'.format(
            4 if thorough else 3, len(SINGLE))),
        Group('fill', gen_fill, run_fill, 'the alternate fill: 4 histories x 4 offsets x every shadow copy x 28 reads'),
        Group('list', gen_list, run_list, 'the list of shadow copies: all histories up to 4 operations, up to 7 snapshots, disabled, invalid and truncated volumes'),
        Group('errors', gen_errors, run_errors, 'wrong arguments, missing files and mount points, shadow copies that do not exist'),
        Group('programs', gen_programs, run_programs, 'every mode of every other program on every (pair) of 10 kinds of files'),
    ]
