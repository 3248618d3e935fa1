"""Stand-in for h5py (not installed here): reads the files the stand-in of HDF5 for the program writes."""
import json, posixpath
import numpy as np

__version__ = "3.11.0"


class Dataset:
    def __init__(self, file, name, arr):
        self._f, self.name, self._a = file, name, arr

    def _arr(self):
        if self._f._closed:
            raise ValueError("Not a dataset (file is closed)")
        return self._a

    shape = property(lambda s: s._arr().shape)
    size = property(lambda s: s._arr().size)
    ndim = property(lambda s: s._arr().ndim)
    dtype = property(lambda s: s._arr().dtype)
    file = property(lambda s: s._f)
    maxshape = property(lambda s: (None,) + s._arr().shape[1:])

    def __len__(self):
        return self._arr().shape[0]

    def len(self):
        return self._arr().shape[0]

    def __getitem__(self, k):
        a = self._arr()
        ks = k if isinstance(k, tuple) else (k,)
        n = len([x for x in ks if x is not Ellipsis])
        if n > a.ndim:
            raise TypeError("%d indexing arguments for %d dimensions" % (n, a.ndim))
        for x in ks:
            if isinstance(x, slice):
                if x.step is not None and x.step < 1:
                    raise ValueError("Step must be >= 1")
            elif not (x is Ellipsis or isinstance(x, (int, np.integer, list, np.ndarray))):
                raise TypeError("Illegal index %r (must be a slice or number)" % (x,))
        r = a[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array__(self, dtype=None, copy=None):
        return np.array(self._arr(), dtype=dtype)

    def astype(self, t):
        return Dataset(self._f, self.name, self._arr().astype(t))

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        dest[dest_sel if dest_sel is not None else ()] = self._arr()[source_sel if source_sel is not None else ()]


class Group:
    def __init__(self, file, name):
        self._f, self.name = file, name

    def _p(self, k):
        if self._f._closed:
            raise ValueError("Invalid location identifier (file is closed)")
        p = posixpath.normpath(posixpath.join(self.name, k))
        return "/" + p.strip("/")

    def __getitem__(self, k):
        if not isinstance(k, (str, bytes)):
            raise TypeError("Accessing a group is done with bytes or str, not %s" % type(k))
        p = self._p(k if isinstance(k, str) else k.decode())
        if p in self._f._dsets:
            return Dataset(self._f, p, self._f._dsets[p])
        if p in self._f._groups:
            return Group(self._f, p)
        raise KeyError("Unable to synchronously open object (object '%s' doesn't exist)" % k)

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __contains__(self, k):
        return self._p(k) in self._f._dsets or self._p(k) in self._f._groups

    def keys(self):
        b = self._p("").rstrip("/") + "/"
        return sorted({p[len(b):].split("/")[0] for p in list(self._f._dsets) + list(self._f._groups) if p.startswith(b) and p != b})

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    attrs = property(lambda s: s._f._attrs if s._p("") == "/" else {})
    file = property(lambda s: s._f)


class File(Group):
    def __init__(self, name, mode="r", **k):
        self._closed = True
        if mode not in ("r",):
            raise ValueError("only reading is supported here")
        with open(name) as f:
            d = json.load(f)
        if d["vp_h5"] != "closed":
            raise OSError("Unable to synchronously open file (file is not closed)")
        self._attrs = dict(d["attrs"])
        self._groups = {"/"}
        self._dsets = {}
        for g in d["groups"]:
            self._groups.add("/" + g.strip("/"))
        for p, v in d["dsets"].items():
            p = "/" + p.strip("/")
            self._dsets[p] = np.array([np.nan if x is None else x for x in v["data"]], dtype="float64").reshape(v["dims"])
            q = posixpath.dirname(p)
            while q != "/":
                self._groups.add(q)
                q = posixpath.dirname(q)
        self._closed = False
        self.filename, self.mode = name, mode
        Group.__init__(self, self, "/")

    def close(self):
        self._closed = True

    def flush(self):
        pass

    def __bool__(self):
        return not self._closed

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def is_hdf5(name):
    try:
        File(name)
        return True
    except Exception:
        return False
