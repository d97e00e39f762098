"""Stand-in for h5py (not installed here): keeps what a script writes, so that it can be recorded."""
import numpy as np

LOG = []            # (file name, content) of every file closed after writing


class Attrs(dict):
    def create(self, name, data, **kw): self[name] = data
    def modify(self, name, value): self[name] = value


class Dataset:
    def __init__(self, data): self.data, self.attrs = data, Attrs()
    shape = property(lambda self: self.data.shape)
    dtype = property(lambda self: self.data.dtype)
    def __getitem__(self, k): return self.data[k]
    def __setitem__(self, k, v): self.data[k] = v
    def __len__(self): return len(self.data)


class Group:
    def __init__(self): self.attrs, self.items_ = Attrs(), {}
    def _at(self, path):
        g = self
        *dirs, last = [x for x in path.split("/") if x]
        for d in dirs: g = g.items_.setdefault(d, Group())
        return g, last
    def create_group(self, name, **kw):
        g, n = self._at(name)
        if n in g.items_: raise ValueError("unable to create group (name already exists): " + name)
        g.items_[n] = Group()
        return g.items_[n]
    def require_group(self, name):
        g, n = self._at(name)
        return g.items_.setdefault(n, Group())
    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        g, n = self._at(name)
        if n in g.items_: raise ValueError("unable to create dataset (name already exists): " + name)
        if data is None: a = np.zeros(shape, dtype=dtype or "f4")
        else:
            a = np.array(data, dtype=dtype)
            if shape is not None:
                if isinstance(shape, (int, np.integer)): shape = (int(shape),)
                if int(np.prod(shape)) != a.size: raise ValueError("shape tuple is incompatible with data")
                a = a.reshape(shape)
        g.items_[n] = Dataset(a)
        return g.items_[n]
    def __getitem__(self, name):
        g, n = self._at(name)
        return g.items_[n]
    def __setitem__(self, name, data): self.create_dataset(name, data=data)
    def __delitem__(self, name):
        g, n = self._at(name)
        del g.items_[n]
    def __contains__(self, name):
        g, n = self._at(name)
        return n in g.items_
    def keys(self): return self.items_.keys()
    def items(self): return self.items_.items()
    def __iter__(self): return iter(self.items_)
    def __len__(self): return len(self.items_)


class File(Group):
    def __init__(self, name, mode="r", **kw):
        Group.__init__(self)
        self.name_, self.mode, self.open = str(name), mode, True
        if mode not in ("w", "w-", "x"): raise OSError("unable to open file " + self.name_)
    def close(self):
        if self.open: LOG.append((self.name_, self))
        self.open = False
    def flush(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
