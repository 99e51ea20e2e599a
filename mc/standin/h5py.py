"""Stand-in for the absent h5py package: the subset kMCpy uses, with h5py's observable semantics.

Keys of a group iterate in lexicographic order (HDF5 native order), scalars come back as numpy scalars, strings as
bytes, sequences of strings as object arrays of bytes, anything HDF5 cannot store raises TypeError.
"""
import os
import pickle

import numpy as np


def _enc(v):
    if isinstance(v, bytes):
        return v
    if isinstance(v, str):
        return v.encode()
    a = np.asarray(v)
    if a.dtype.kind == "U":
        if isinstance(v, np.ndarray):
            raise TypeError("No conversion path for dtype: %r" % a.dtype)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = str(a[i]).encode()
        return out
    if a.dtype == object:
        if all(isinstance(x, (str, bytes)) for x in a.ravel()):
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                out[i] = a[i] if isinstance(a[i], bytes) else a[i].encode()
            return out
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    return a.copy() if a.shape else a[()]


class Dataset:
    def __init__(self, v):
        self._v = v

    def __getitem__(self, k):
        v = self._v
        if isinstance(v, np.ndarray):
            r = v[k]
            return r.copy() if isinstance(r, np.ndarray) else r
        return v

    @property
    def shape(self):
        return np.shape(self._v)

    @property
    def dtype(self):
        return np.asarray(self._v).dtype

    def asstr(self):
        class S:
            def __getitem__(s, k):
                v = self[k]
                if isinstance(v, bytes):
                    return v.decode()
                out = np.empty(v.shape, dtype=object)
                for i in np.ndindex(v.shape):
                    out[i] = v[i].decode()
                return out
        return S()


class _Attrs(dict):
    def __setitem__(self, k, v):
        e = _enc(v)
        dict.__setitem__(self, k, e.decode() if isinstance(e, bytes) and isinstance(v, str) else e)


class Group:
    def __init__(self):
        self._d = {}
        self.attrs = _Attrs()

    def create_dataset(self, name, data=None, **kw):
        return self._put(name, Dataset(_enc(data)))

    def create_group(self, name, **kw):
        return self._put(name, Group())

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def _put(self, name, obj):
        head, _, tail = str(name).partition("/")
        if tail:
            if head not in self._d:
                self._d[head] = Group()
            return self._d[head]._put(tail, obj)
        if head in self._d:
            raise ValueError("Unable to create (name already exists)")
        self._d[head] = obj
        return obj

    def __getitem__(self, name):
        head, _, tail = str(name).partition("/")
        o = self._d[head]
        return o[tail] if tail else o

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def __delitem__(self, name):
        del self._d[name]

    def __contains__(self, name):
        head, _, tail = str(name).partition("/")
        return head in self._d and (not tail or tail in self._d[head])

    def keys(self):
        return sorted(self._d)

    def __iter__(self):
        return iter(sorted(self._d))

    def __len__(self):
        return len(self._d)

    def items(self):
        return [(k, self._d[k]) for k in sorted(self._d)]

    def values(self):
        return [self._d[k] for k in sorted(self._d)]

    def get(self, k, default=None):
        return self._d.get(k, default)


class File(Group):
    def __init__(self, path, mode="r", **kw):
        super().__init__()
        self.path, self.mode = os.fspath(path), mode
        exists = os.path.exists(self.path)
        if mode in ("x", "w-") and exists:
            raise FileExistsError(self.path)
        if mode in ("r", "r+") or (mode == "a" and exists):
            with open(self.path, "rb") as f:
                try:
                    self._d, at = pickle.load(f)
                except Exception:
                    raise OSError("Unable to open file (file signature not found)")
            self.attrs = at
        elif mode == "w":
            open(self.path, "wb").close()
        self._open = True

    def close(self):
        if self._open and self.mode != "r":
            with open(self.path, "wb") as f:
                pickle.dump((self._d, self.attrs), f)
        self._open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def string_dtype(encoding="utf-8", length=None):
    return object


special_dtype = lambda vlen=None: object
