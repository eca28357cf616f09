"""A model of volume snapshots with copy-on-write, and a writer of its on-disk form.

The volume has a few data blocks of 16 KiB. A snapshot (store) records the blocks
unused when it was taken (its bitmap) and, together with the previous bitmap, the
blocks nobody needs. Before a block is overwritten for the first time after the
newest snapshot, its old data goes to the store of that snapshot (a regular entry),
unless nobody needs it. When the file system moves a block, only the new place is
recorded (a forwarder entry). A snapshot can be written to (overlay entries).
"""

import struct
import uuid

BLOCK = 0x4000
GUID = bytes.fromhex('6B87083876C1484EB7AE04046E6CC752')
META = 16               # The first block used for the metadata and the stores.
FILETIME = 131000000000000000


def content(version):
    return b''.join(struct.pack('<4sHH', b'DATA', version, i) * 64 for i in range(32))


_CONTENT = {}


def data(version):
    if version not in _CONTENT:
        _CONTENT[version] = content(version)
    return _CONTENT[version]


ZERO = b'\x00' * BLOCK


class Store(object):
    def __init__(self, number, unused, previous, blocks, null, size):
        self.number = number
        self.unused = set(unused)           # The bitmap.
        self.previous = previous            # None or a set.
        self.snapshot = dict(blocks)        # The truth: block -> version at the time.
        self.entries = []                   # (original block, kind, arg, version, flags, bitmap)
        self.recorded = set()               # Blocks whose data at the time is preserved.
        self.targets = {}                   # Where data of a forwarded block is now -> that block.
        self.visited = set()
        self.overlays = {}                  # block -> list of (mask, version)
        self.null = null
        self.size = size

    def ignorable(self, x):
        return x in self.unused and (self.previous is None or x in self.previous)


class Model(object):
    """Data blocks are numbered from 1 (block 0 holds the boot sector and the start block)."""

    def __init__(self, blocks = 3, used = (1, 2), null = True, size = None, again = False):
        self.again = again                  # A block that was a target of a forwarder is copied for itself, too.
        self.n = blocks
        self.cur = {x: x for x in range(1, blocks + 1)}         # block -> version
        self.used = set(used)
        self.version = 100
        self.stores = []
        self.null = null
        self.size = size

    def fresh(self):
        self.version += 1
        return self.version

    # Operations. Each returns False if it makes no sense in this state.

    def snapshot(self):
        unused = set(range(1, self.n + 1)) - self.used
        previous = None
        if self.stores:
            s = self.stores[-1]
            previous = {x for x in range(1, self.n + 1) if s.ignorable(x) and x not in s.targets}
        self.stores.append(Store(len(self.stores), unused, previous, self.cur, self.null, self.size))
        return True

    def preserve(self, x, moved_to = None):
        """Called before the data of the block is replaced (or when it was moved)."""
        if not self.stores:
            return True
        s = self.stores[-1]
        origin = None
        if x in s.targets:
            origin = s.targets[x]       # The data of a forwarded block is here.
            del s.targets[x]
            s.visited.add(x)
        elif self.again and moved_to is None and x in s.visited and x not in s.recorded:
            origin = x                  # Nobody needs this, but it is there.
        elif x in s.recorded or s.ignorable(x):
            return True
        else:
            origin = x
        if moved_to is not None:
            if origin == moved_to:      # Moved back: the data is stored.
                s.entries.append((x, 'back', moved_to, self.cur[x], 1, 0))
            else:
                s.entries.append((x, 'forward', moved_to, None, 1, 0))
                s.targets[moved_to] = origin
        else:
            s.entries.append((x, 'copy', None, self.cur[x], 0, 0))
        s.recorded.add(origin)
        return True

    def write(self, x):
        if not self.preserve(x):
            return False
        self.cur[x] = self.fresh()
        self.used.add(x)
        return True

    def free(self, x):
        if x not in self.used:
            return False
        self.used.discard(x)
        return True

    def move(self, x, y):
        if x not in self.used or y in self.used:
            return False
        if not self.preserve(y):        # The target is overwritten.
            return False
        if not self.preserve(x, y):
            return False
        self.cur[y] = self.cur[x]
        self.used.add(y)
        self.used.discard(x)
        return True

    def overlay(self, x, mask):
        if not self.stores:
            return False
        s = self.stores[-1]
        v = self.fresh()
        s.entries.append((x, 'overlay', None, v, 2, mask))
        s.overlays.setdefault(x, []).append((mask, v))
        return True

    def ignored(self, x):
        """An entry to be ignored."""
        if not self.stores:
            return False
        self.stores[-1].entries.append((x, 'copy', None, self.fresh(), 4, 0))
        return True

    def apply(self, op):
        kind = op[0]
        if kind == 's':
            return self.snapshot()
        if kind == 'w':
            return self.write(int(op[1]))
        if kind == 'd':
            return self.free(int(op[1]))
        if kind == 'm':
            return self.move(int(op[1]), int(op[2]))
        if kind == 'o':
            return self.overlay(int(op[1]), {'a': 0x0000000F, 'b': 0xF00000FC, 'c': 0xFFFFFFFF}[op[2]])
        if kind == 'i':
            return self.ignored(int(op[1]))
        raise ValueError(op)

    # What a snapshot has to read as.

    def expected(self, k, x):
        """Return 32 items: data (bytes) of a 512-byte block, or None if nothing is promised for it."""
        s = self.stores[k]
        if not s.ignorable(x):
            d = data(s.snapshot[x])
            out = [d[i * 512:i * 512 + 512] for i in range(32)]
        else:
            mentioned = any(e[0] == x and e[1] != 'overlay' and e[4] != 4 for t in self.stores[k:] for e in t.entries)
            if mentioned:
                out = [None] * 32
            elif s.null:
                out = [b'\x00' * 512] * 32
            else:
                d = data(self.cur[x])
                out = [d[i * 512:i * 512 + 512] for i in range(32)]
        for mask, v in s.overlays.get(x, ()):
            d = data(v)
            for i in range(32):
                if mask >> i & 1:
                    out[i] = d[i * 512:i * 512 + 512]
        return out


def header(kind, o1, o2, o3):
    return GUID + struct.pack('<LLQQQ', 1, kind, o1, o2, o3)


def block(head, body):
    return (head.ljust(0x80, b'\x00') + body).ljust(BLOCK, b'\x00')


def bitmap(blocks):
    v = 0
    for x in blocks:
        v |= 1 << x
    return v.to_bytes((max(list(blocks) + [0]) // 8) + 1, 'little')


def guid(k):
    return uuid.UUID(int = 0x11112222333344445555666600000000 + k)


def start_block(first, volume, storage, name = b'NTFS    '):
    b = bytearray(8192)
    b[3:11] = name
    b[7680:7680 + 48] = header(1, 7680, 7680, 0)
    b[7728:7808] = struct.pack('<QQ16s16sQQQLL', first, 0x123456, volume, storage, 0, 0, 0, 0, 0)
    return bytes(b)


class Image(object):
    """A sparse image of blocks; reads only. The volume starts at `base`."""

    def __init__(self, blocks, total, base = 0):
        self.blocks = blocks
        self.end = base + total
        self.base = base
        self.pos = 0

    def seek(self, off, whence = 0):
        self.pos = {0: 0, 1: self.pos, 2: self.end}[whence] + off
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n = -1):
        if n is None or n < 0:
            n = self.end - self.pos
        end = min(self.pos + n, self.end)
        out = []
        while self.pos < end:
            if self.pos < self.base:
                k = min(end, self.base) - self.pos
                out.append(b'\xAA' * k)
            else:
                b, o = divmod(self.pos - self.base, BLOCK)
                k = min(end - self.pos, BLOCK - o)
                d = self.blocks.get(b)
                out.append(b'\x55' * k if d is None else d[o:o + k])
            self.pos += k
        return b''.join(out)

    def write(self, *args):
        raise AssertionError('the image is written to')

    truncate = write


BITMAP_BYTES = BLOCK - 0x80


def encode(m, two = False, base = 0, storage_base = 0, layout = 0, drop = 0, total = None, volume_size = None, place = None, bits = None, counts = None):
    """Write the volume (and the storage volume, if `two`); return the blocks.

    layout 0: one control block, one diff table block per store.
    layout 1: items over several control blocks, in reverse order; every diff table in several blocks with free space; location descriptions; the blocks allocated later lie before the others.
    layout 2: the items and the tables begin near the end of a block and continue in the next one; a volume of another file system.
    drop: the number of oldest stores deleted.
    place: where the blocks of the model are on the volume.
    bits: (number of a store, number of an entry, flags to be added), or None.
    """
    if layout == 1 and counts is None:
        found = []
        encode(m, two, base, storage_base, layout, drop, total, volume_size, place, bits, found)
        counts = found[0]
    vol = {0: None}
    store = {0: None} if two else vol
    nxt = [META]
    nxt2 = [META + 40] if two else nxt

    def alloc(where):
        c = nxt2 if where is store else nxt
        c[0] += 1
        if layout == 1 and type(counts) is tuple:
            return (counts[1] - c[0] + META + 40) if two and where is store else counts[0] - c[0] + META
        return c[0] - 1

    if place is None:
        place = {x: x for x in range(1, m.n + 1)}

    for x in range(1, m.n + 1):
        vol[place[x]] = data(m.cur[x])

    size = volume_size or (total or 4096) * BLOCK

    def bitmap_blocks(blocks):
        raw = bitmap({place[x] for x in blocks}).ljust(((size + BLOCK - 1) // BLOCK + 7) // 8, b'\x00')
        chunks = [raw[i:i + BITMAP_BYTES] for i in range(0, len(raw), BITMAP_BYTES)]
        offs = [alloc(store) for _ in chunks]
        for i, ch in enumerate(chunks):
            store[offs[i]] = block(header(6, i * BLOCK, offs[i] * BLOCK, offs[i + 1] * BLOCK if i + 1 < len(offs) else 0), ch)
        return offs[0]

    items2, items3 = [], []
    for s in m.stores[drop:]:
        g = guid(s.number).bytes_le
        table = []
        for k, (orig, kind, arg, version, flags, mask) in enumerate(s.entries):
            if bits is not None and (s.number, k) == bits[:2]:
                flags |= bits[2]
            if kind == 'forward':
                table.append(struct.pack('<QQQLL', place[orig] * BLOCK, place[arg] * BLOCK, 0, flags, 0))
            else:
                d = alloc(store)
                store[d] = data(version)
                extra = 0
                if layout == 1 and kind == 'copy' and flags == 0:
                    extra = (8, 0x10, 0x20, 0x40, 0x80)[version % 5]
                table.append(struct.pack('<QQQLL', place[orig] * BLOCK, place[arg] * BLOCK if kind == 'back' else d * 0x100, d * BLOCK, flags | extra, mask))
        if layout == 2:         # Entries to be ignored, up to the end of the block.
            table = [struct.pack('<QQQLL', 100 * BLOCK, 0, 101 * BLOCK, 4, 0)] * (508 - (len(table) + 1) // 2) + table
        per = 2 if layout == 1 else 508
        chunks = [table[i:i + per] for i in range(0, len(table), per)] or [[]]
        offs = [alloc(store) for _ in chunks]
        for i, ch in enumerate(chunks):
            rest = b''
            if layout == 1:     # What is left of another table.
                rest = b'\x00' * 32 + struct.pack('<QQQLL', place[1 + i % m.n] * BLOCK, 0, META * BLOCK, (0, 2)[i % 2], 0xffffffff)
            store[offs[i]] = block(header(3, i * BLOCK, offs[i] * BLOCK, offs[i + 1] * BLOCK if i + 1 < len(offs) else 0), b''.join(ch) + rest)
        bm = bitmap_blocks(s.unused)
        pm = 0
        if s.previous is not None:
            pm = bitmap_blocks(s.previous)
        loc = app = 0
        if layout == 1:
            loc, app = alloc(store), alloc(store)
            store[loc] = block(header(5, 0, loc * BLOCK, 0), struct.pack('<QQQ', 0x8000, 0, 0x4000))
            store[app] = block(header(4, 0, app * BLOCK, 0), b'APPINFO' + bytes([s.number]))
        flags = 0x400 if s.null else 0
        items2.append(struct.pack('<LLQ16sQQQ', 2, 0, s.size or size, g, 10 + s.number, flags, FILETIME + s.number * 10000000))
        items3.append(struct.pack('<LLQ16sQQQQQQ', 3, 0, offs[0] * BLOCK, g, app * BLOCK, loc * BLOCK, bm * BLOCK, 0x5000000000030, 0x300000, pm * BLOCK))

    def control(where, items):
        items = [i.ljust(0x80, b'\x00') for i in items]
        if layout == 1:
            free = struct.pack('<L', 1).ljust(0x80, b'\x00')
            items = items[::-1]
            chunks = [[free] + items[i:i + 3] for i in range(0, len(items), 3)] or [[]]
        elif layout == 2:
            free = struct.pack('<L', 1).ljust(0x80, b'\x00')
            items = [free] * (127 - (len(items) + 1) // 2) + items
            chunks = [items[i:i + 127] for i in range(0, len(items), 127)]
        else:
            chunks = [items]
        offs = [alloc(where) for _ in chunks]
        for i, ch in enumerate(chunks):
            where[offs[i]] = block(header(2, i * BLOCK, offs[i] * BLOCK, offs[i + 1] * BLOCK if i + 1 < len(offs) else 0), b''.join(ch))
        return offs[0] * BLOCK

    va, vb = b'V' * 16, b'S' * 16
    name = b'ReFS\x00\x00\x00\x00' if layout == 2 else b'NTFS    '
    if two:
        c1 = control(vol, items2)
        c2 = control(store, items3)
        vol[0] = start_block(c1, va, vb, name).ljust(BLOCK, b'\x77')
        store[0] = start_block(c2, vb, vb, name).ljust(BLOCK, b'\x78')
    else:
        c1 = control(vol, [i for pair in zip(items2, items3) for i in pair])
        vol[0] = start_block(c1, va, va, name).ljust(BLOCK, b'\x77')
    if type(counts) is list:
        counts.append((nxt[0], nxt2[0]))
    return vol, store
