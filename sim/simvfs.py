"""The file system below sqlite, seen by sqlite through a VFS of our own.

sqlite (real) calls its VFS for every write, truncation, sync and deletion of its files.  The shim passes them on to
the real one, after a moment at which a crash image of the disk may be taken (also with the write torn), and a fault
(disk full, I/O error, short write) may be returned in place of the operation.  No scheduling happens inside."""
import ctypes as C
import os

OK, IOERR, FULL = 0, 10, 13
IOERR_WRITE, IOERR_FSYNC, IOERR_TRUNCATE = IOERR | 3 << 8, IOERR | 4 << 8, IOERR | 6 << 8
IOERR_DELETE = IOERR | 10 << 8
_P = C.c_void_p


class Methods(C.Structure):
    _fields_ = [('iVersion', C.c_int)] + [(n, _P) for n in (
        'xClose xRead xWrite xTruncate xSync xFileSize xLock xUnlock xCheckReservedLock xFileControl xSectorSize '
        'xDeviceCharacteristics xShmMap xShmLock xShmBarrier xShmUnmap xFetch xUnfetch').split()]


class Vfs(C.Structure):
    _fields_ = [('iVersion', C.c_int), ('szOsFile', C.c_int), ('mxPathname', C.c_int), ('pNext', _P),
                ('zName', C.c_char_p), ('pAppData', _P)] + [(n, _P) for n in (
                    'xOpen xDelete xAccess xFullPathname xDlOpen xDlError xDlSym xDlClose xRandomness xSleep '
                    'xCurrentTime xGetLastError xCurrentTimeInt64 xSetSystemCall xGetSystemCall '
                    'xNextSystemCall').split()]


T_open = C.CFUNCTYPE(C.c_int, _P, _P, _P, C.c_int, _P)
T_delete = C.CFUNCTYPE(C.c_int, _P, _P, C.c_int)
T_write = C.CFUNCTYPE(C.c_int, _P, _P, C.c_int, C.c_int64)
T_trunc = C.CFUNCTYPE(C.c_int, _P, C.c_int64)
T_sync = C.CFUNCTYPE(C.c_int, _P, C.c_int)
T_close = C.CFUNCTYPE(C.c_int, _P)

_state = {}
HOOK = [None]           # hook(op, path, nbytes) -> None to go on, ('torn', k): k bytes written first, or an error code


class Shim(object):
    """Registered once per process as the default VFS; passes everything on while HOOK[0] is None."""

    def __init__(self):
        lib = self.lib = C.CDLL('libsqlite3.so.0')
        lib.sqlite3_vfs_find.restype = _P
        lib.sqlite3_vfs_find.argtypes = [C.c_char_p]
        lib.sqlite3_vfs_register.argtypes = [_P, C.c_int]
        self.dflt = lib.sqlite3_vfs_find(None)
        d = C.cast(self.dflt, C.POINTER(Vfs)).contents
        self.vfs = Vfs.from_buffer_copy(d)
        self.vfs.pNext = None
        self.vfs.zName = b'omsim'
        self.paths = {}
        self.tables = {}
        self.keep = []
        self.o_open, self.o_delete = T_open(d.xOpen), T_delete(d.xDelete)
        f, g = T_open(self.open), T_delete(self.delete)
        self.keep += [f, g]
        self.vfs.xOpen = C.cast(f, _P)
        self.vfs.xDelete = C.cast(g, _P)
        if lib.sqlite3_vfs_register(C.addressof(self.vfs), 1) != 0:
            raise RuntimeError('cannot register the VFS')

    def hook(self, op, path, n=0):
        h = HOOK[0]
        if h is None:
            return None
        try:
            return h(op, path, n)
        except BaseException as x:      # an exception cannot pass through C
            _state['err'] = x
            return IOERR

    def open(self, vfs, name, pfile, flags, out):
        rc = self.o_open(self.dflt, name, pfile, flags, out)
        if rc == OK:
            slot = C.cast(pfile, C.POINTER(_P))
            orig = slot[0]
            if orig:
                self.paths[pfile] = os.fsdecode(C.string_at(name)) if name else ''
                slot[0] = C.addressof(self.table(orig))
        return rc

    def delete(self, vfs, name, sync):
        path = os.fsdecode(C.string_at(name))
        r = self.hook('delete', path)
        if isinstance(r, int):
            return r
        rc = self.o_delete(self.dflt, name, sync)
        self.hook('after delete', path)
        return rc

    def table(self, orig):
        m = self.tables.get(orig)
        if m is not None:
            return m
        o = C.cast(orig, C.POINTER(Methods)).contents
        m = Methods.from_buffer_copy(o)
        ow, ot, os_, oc = T_write(o.xWrite), T_trunc(o.xTruncate), T_sync(o.xSync), T_close(o.xClose)

        def write(pfile, buf, n, off):
            r = self.hook('write', self.paths.get(pfile, ''), n)
            if isinstance(r, tuple):
                if r[1]:
                    ow(pfile, buf, r[1], off)
                if len(r) > 2:
                    return r[2]
                self.hook('torn write', self.paths.get(pfile, ''), n)
                return ow(pfile, buf, n, off)
            if isinstance(r, int):
                return r
            return ow(pfile, buf, n, off)

        def trunc(pfile, size):
            r = self.hook('truncate', self.paths.get(pfile, ''))
            return r if isinstance(r, int) else ot(pfile, size)

        def sync(pfile, flags):
            r = self.hook('sync', self.paths.get(pfile, ''))
            return r if isinstance(r, int) else os_(pfile, flags)

        def close(pfile):
            self.paths.pop(pfile, None)
            return oc(pfile)
        cbs = [T_write(write), T_trunc(trunc), T_sync(sync), T_close(close)]
        m.xWrite, m.xTruncate, m.xSync, m.xClose = [C.cast(x, _P) for x in cbs]
        self.keep.append((cbs, o, ow, ot, os_, oc))
        self.tables[orig] = m
        return m


def install(hook):
    """hook sees every change that sqlite makes to its files, until uninstall()."""
    if 'shim' not in _state or _state.get('pid') != os.getpid():
        if 'shim' not in _state:
            _state['shim'] = Shim()
        _state['pid'] = os.getpid()
    _state['err'] = None
    HOOK[0] = hook


def uninstall():
    HOOK[0] = None
    x, _state['err'] = _state.get('err'), None
    if x is not None:
        raise x
