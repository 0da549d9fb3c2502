"""Points in the operations of h5py: every change, flush and close of a file passes `point`, where a fault
may be raised in its place and a crash image of the disk may be taken.  h5py and HDF5 are real."""


class SimH5(object):
    """with SimH5(kern) as h: h.image(op, path) and h.fault(op, path) are called."""

    def __init__(self, kern):
        self.kern = kern
        self.image = None
        self.fault = None
        self.depth = 0
        self.dirty = set()      # files that were changed since they were last flushed

    def point(self, op, path, after=False):
        if self.kern.me() is None:
            return
        if self.image is not None:
            self.image('h5 %s%s' % ('after ' if after else '', op), path)
        if self.fault is not None and not after:
            self.fault('h5 ' + op, path)

    def __enter__(self):
        import h5py
        from h5py import Dataset, File, Group
        from h5py._hl.attrs import AttributeManager
        sim = self
        self.old = []

        def path(o):
            try:
                return o.file.filename
            except Exception:
                return ''

        def wrap(cls, name):
            orig = cls.__dict__[name]

            def f(self, *a, **kw):
                p = path(self)
                if sim.depth or (name != 'flush' and name != 'close' and not p):
                    return orig(self, *a, **kw)
                sim.depth += 1
                try:
                    sim.point(name, p)
                    if name not in ('flush', 'close'):
                        sim.dirty.add(p)
                    r = orig(self, *a, **kw)
                    if name in ('flush', 'close'):
                        sim.dirty.discard(p)
                    sim.point(name, p, True)
                    return r
                finally:
                    sim.depth -= 1
            self.old.append((cls, name, orig))
            setattr(cls, name, f)
        for cls, names in ((Group, ('create_group', 'create_dataset', '__delitem__')), (File, ('flush', 'close')),
                           (AttributeManager, ('__setitem__',)), (Dataset, ('__setitem__',))):
            for n in names:
                wrap(cls, n)
        return self

    def __exit__(self, *exc):
        for cls, name, orig in self.old:
            setattr(cls, name, orig)
