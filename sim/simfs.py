"""Files under /simfs: inodes kept in memory, the real Python io stack on top of
a raw file whose calls may be slow, short or fail."""
import io


class Inode(object):
    def __init__(self, no, path):
        self.no, self.path = no, path
        self.data = bytearray()
        self.writes = []           # (t, end offset after the write)
        self.born = None


class SimRaw(io.RawIOBase):
    _simfile = True

    def flock(self, op):
        self.fs.hook('flock', op)

    def __init__(self, fs, ino):
        self.fs, self.ino = fs, ino
        fs.handles += 1
        self._open = True

    def writable(self):
        return True

    def seekable(self):
        return False

    def isatty(self):
        return False

    def fileno(self):
        return 77

    def write(self, b):
        fs = self.fs
        n = fs.hook('write', len(b))
        b = bytes(b[:n])
        self.ino.data += b
        self.ino.writes.append((fs.sim.t(), len(self.ino.data)))
        return len(b)

    def close(self):
        if self._open:
            self._open = False
            self.fs.handles -= 1
        io.RawIOBase.close(self)


class SimText(io.TextIOWrapper):
    _simfile = True
    raw_ = None

    def flock(self, op):
        self.raw_.fs.hook('flock', op)


class SimBuf(io.BufferedWriter):
    _simfile = True
    raw_ = None
    flock = SimText.flock


class SimFS(object):
    """hook(op, arg): may sleep, raise OSError; for 'write' returns how many
    bytes are taken."""

    def __init__(self, sim, hook):
        self.sim, self.hook = sim, hook
        self.paths = {}
        self.inodes = []
        self.handles = 0

    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, **kw):
        if 'a' not in mode and 'w' not in mode:
            raise RuntimeError('simfs: mode %s' % mode)
        self.hook('open', path)
        ino = self.paths.get(path)
        if ino is None:
            ino = self.paths[path] = Inode(len(self.inodes), path)
            ino.born = self.sim.t()
            self.inodes.append(ino)
        elif 'w' in mode:
            del ino.data[:]
            del ino.writes[:]
        raw = SimRaw(self, ino)
        if 'b' in mode:
            f = raw if buffering == 0 else SimBuf(raw)
        else:
            f = SimText(io.BufferedWriter(raw), encoding=encoding or 'utf-8', errors=errors, newline=newline, line_buffering=buffering == 1)
        if f is not raw:
            f.raw_ = raw
        return f

    def rename(self, a, b):
        i = self.paths.pop(a, None)
        if i is not None:
            i.path = b
            self.paths[b] = i
