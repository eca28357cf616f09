"""A sparse read-only image which behaves like a file opened for reading."""


class Sparse(object):
    def __init__(self, size, offset = 0, fill = 0):
        """size: bytes from the offset on; fill: the byte before the offset and in unwritten places before it."""
        self.base = offset
        self.end = offset + size
        self.parts = {}
        self.pos = 0
        self.fill = fill
        self.writes = 0

    def put(self, off, data):
        """Write at an offset relative to the base; parts are 512-byte aligned."""
        assert off % 512 == 0
        off += self.base
        for i in range(0, len(data), 512):
            piece = data[i:i + 512]
            if len(piece) < 512:
                piece = piece + self.parts.get(off + i, b'\x00' * 512)[len(piece):]
            self.parts[off + i] = bytes(piece)

    def get(self, off, n):
        save = self.pos
        self.pos = self.base + off
        data = self.read(n)
        self.pos = save
        return data

    def seek(self, off, whence = 0):
        if whence == 0:
            pos = off
        elif whence == 1:
            pos = self.pos + off
        else:
            pos = self.end + off
        if pos < 0:
            raise OSError(22, 'Invalid argument')
        if pos >= 1 << 63:
            raise OverflowError('Python int too large to convert to C long')
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def read(self, n = None):
        if n is None or n < 0:
            n = max(0, self.end - self.pos)
        if n >= 1 << 63:
            raise OverflowError('cannot fit \'int\' into an index-sized integer')
        n = max(0, min(n, self.end - self.pos))
        if n > 1 << 31:
            raise MemoryError
        pos = self.pos
        self.pos += n
        first = pos - (pos - self.base) % 512
        out = []
        for o in range(first, pos + n, 512):
            p = self.parts.get(o)
            if p is None:
                p = bytes([self.fill if o < self.base else 0]) * 512
            out.append(p)
        return b''.join(out)[pos - first:pos - first + n]

    def write(self, data):
        self.writes += 1
        raise OSError(9, 'Bad file descriptor')

    def truncate(self, size = None):
        self.writes += 1
        raise OSError(9, 'Bad file descriptor')

    def close(self):
        pass
