"""Scheduling points and faults in the file operations of simulated processes.

Patches builtins.open and a few os functions for paths below one directory.  Files are real; a write
is split so that another process can run between its halves, and a fault callback may raise in place
of any operation."""
import builtins
import io
import os

from sim import kernel as K


class RawFile(io.RawIOBase):
    """The file below the buffers of a text file: what reaches the system passes here."""

    def __init__(self, fs, path, mode):
        self._fs, self._path = fs, path
        self._raw = io.FileIO(path, mode)
        super(RawFile, self).__init__()

    def writable(self):
        return True

    def fileno(self):
        return self._raw.fileno()

    def tell(self):
        return self._raw.tell()

    def seek(self, *a):
        return self._raw.seek(*a)

    def seekable(self):
        return True

    def truncate(self, *a):
        return self._raw.truncate(*a)

    def write(self, b):
        n = self._fs.rawfault('write', self._path, len(b))     # raises, or shortens the write
        return self._raw.write(bytes(b)[:n] if n else b)

    def close(self):
        if not self.closed:
            try:
                super(RawFile, self).close()
            finally:
                self._raw.close()


class SimFile(object):
    def __init__(self, fs, f, path, mode):
        self.__dict__.update(_fs=fs, _f=f, _path=path, _mode=mode)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __setattr__(self, n, v):
        setattr(self._f, n, v)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line
    next = __next__

    def read(self, *a):
        self._fs.point('read', self._path)
        return self._f.read(*a)

    def readline(self, *a):
        return self._f.readline(*a)

    def readlines(self, *a):
        self._fs.point('read', self._path)
        return self._f.readlines(*a)

    def write(self, s):
        fs = self._fs
        if fs.onwrite is not None:
            fs.onwrite(self._path, s)
        h = len(s) // 2
        fs.point('write', self._path)
        if h and isinstance(s, (str, bytes)):
            self._f.write(s[:h])
            if fs.torn('half', self._path):
                self._f.flush()
                fs.point('write2', self._path)
            self._f.write(s[h:])
        else:
            self._f.write(s)
        fs.wrote(self)
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        self._fs.point('flush', self._path)
        self._f.flush()
        self._fs.wrote(self)

    def close(self):
        if not self._f.closed:
            try:
                self._fs.point('close', self._path)
            finally:
                self._f.close()
                self._fs.wrote(self)


class SimFS(object):
    """with SimFS(root, run) as fs: file operations below root are simulated."""

    def __init__(self, root, run, fault=None, makedirs=True):
        self.root = os.path.realpath(root) + os.sep
        self.run = run
        self.fault = fault
        self.image = None       # image(op, path): the disk may be looked at here
        self.flushed = None     # flushed(path, a, b): bytes a..b of a file have reached the disk
        self.sizes = {}
        self.rawfault = None    # rawfault(op, path, n): a write of n bytes below the buffers
        self.onwrite = None     # onwrite(path, text)
        self.nops = 0

    def inside(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if not isinstance(path, str):
            return False
        return (os.path.realpath(path) + os.sep).startswith(self.root)

    def point(self, op, path):
        """A scheduling point before a file operation; a fault may strike."""
        k = K.Kernel.current_kernel
        t = k.me() if k is not None else None
        if t is not None:
            k.pause(None, 'file ' + op)
        self.nops += 1
        if self.image is not None:
            self.image('file ' + op, path)
        if self.fault is not None:
            self.fault(op, path)

    def wrote(self, f):
        if self.flushed is not None and 'r' not in f._mode:
            p = f._path
            b = os.path.getsize(p)
            a, self.sizes[p] = self.sizes.get(p, 0), b
            if b > a:
                self.flushed(p, a, b)

    def torn(self, op, path):
        k = K.Kernel.current_kernel
        t = k.me() if k is not None else None
        if t is None:
            return False
        if k.choose(2, 'write is seen in halves'):
            k.count('fault.write seen in halves')
            return True
        return False

    def __enter__(self):
        self.o = builtins.open, os.makedirs, os.mkdir
        oopen, omakedirs, omkdir = self.o

        def sopen(file, mode='r', *a, **kw):
            if not self.inside(file):
                return oopen(file, mode, *a, **kw)
            self.point('open ' + mode, file)
            if self.rawfault is not None and mode in ('w', 'a') and not a:
                raw = RawFile(self, os.fspath(file), mode)
                f = io.TextIOWrapper(io.BufferedWriter(raw), **kw)
            else:
                f = oopen(file, mode, *a, **kw)
            return SimFile(self, f, os.fspath(file), mode)

        def smakedirs(name, *a, **kw):
            if self.inside(name):
                self.point('makedirs', name)
            return omakedirs(name, *a, **kw)

        def smkdir(path, *a, **kw):
            if self.inside(path):
                self.point('mkdir', path)
            return omkdir(path, *a, **kw)
        builtins.open, os.makedirs, os.mkdir = sopen, smakedirs, smkdir
        return self

    def __exit__(self, *exc):
        builtins.open, os.makedirs, os.mkdir = self.o
