"""Model of the part of h5py a reader or writer of model files may use: a tree of groups and datasets in
memory, one per file name, with the documented errors and the alphabetical order of members."""
import numpy as np

_FILES = {}
_OPEN = []


class Empty:
    def __init__(self, dtype):
        self.dtype = dtype


class AttributeManager:
    def __init__(self):
        self._d = {}

    def __getitem__(self, name):
        if name not in self._d:
            raise KeyError("Can't open attribute (can't locate attribute: '" + name + "')")
        return self._d[name]

    def __setitem__(self, name, value):
        self._d[name] = value

    def create(self, name, data=None, shape=None, dtype=None):
        self._d[name] = data

    def modify(self, name, value):
        self._d[name] = value

    def __delitem__(self, name):
        del self._d[name]

    def __contains__(self, name):
        return name in self._d

    def __iter__(self):
        return iter(sorted(self._d))

    def __len__(self):
        return len(self._d)

    def get(self, name, default=None):
        return self._d.get(name, default)

    def keys(self):
        return sorted(self._d)

    def items(self):
        return [(k, self._d[k]) for k in sorted(self._d)]


class HLObject:
    pass


class _State:
    """One per file name: the tree, how many handles are open, and how the last one was opened."""

    def __init__(self):
        self.members = {}
        self.attrs = AttributeManager()
        self.handles = 0
        self.mode = "r"

    def alive(self):
        if self.handles == 0:
            raise ValueError("Invalid location identifier (invalid location identifier)")

    def writable(self):
        self.alive()
        if self.mode == "r":
            raise ValueError("Unable to create or change an object (no write intent on file)")


class Dataset(HLObject):
    def __init__(self, name, state, data, dtype):
        self.name = name
        self._state = state
        self.attrs = AttributeManager()
        self._text = isinstance(data, (str, bytes))
        if self._text:
            self._value = data if isinstance(data, str) else data.decode("utf-8")
        elif data is None:
            self._value = Empty(dtype)
        else:
            self._value = np.array(data) if dtype is None else np.array(data, dtype=dtype)

    @property
    def shape(self):
        return () if self._text else self._value.shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return 1 if self._text else self._value.size

    @property
    def dtype(self):
        return self._value.dtype

    def asstr(self, encoding=None, errors="strict"):
        return _AsStr(self)

    def __getitem__(self, key):
        self._state.alive()
        if self._text:
            if isinstance(key, tuple) and len(key) == 0:
                return self._value.encode("utf-8")
            raise ValueError("Illegal slicing argument for scalar dataspace")
        if isinstance(self._value, Empty):
            return self._value
        if isinstance(key, tuple) and len(key) == 0:
            if self._value.ndim == 0:
                return self._value[()]
            return np.array(self._value)
        if self._value.ndim == 0:
            raise ValueError("Illegal slicing argument for scalar dataspace")
        return np.array(self._value[key])

    def __setitem__(self, key, value):
        self._state.alive()
        if isinstance(key, tuple) and len(key) == 0 and (self._text or self._value.ndim == 0):
            self._value = value if self._text else np.array(value, dtype=self._value.dtype)
        else:
            self._value[key] = value

    def __array__(self, dtype=None, copy=None):
        self._state.alive()
        return np.array(self._value) if dtype is None else np.array(self._value, dtype=dtype)

    def __iter__(self):
        self._state.alive()
        if self.ndim == 0:
            raise TypeError("Can't iterate over a scalar dataset")
        return iter([np.array(x) if self.ndim > 1 else x for x in self._value])

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("Attempt to take len() of scalar dataset")
        return self.shape[0]


class _AsStr:
    def __init__(self, ds):
        self._ds = ds

    def __getitem__(self, key):
        return self._ds._value


class Group(HLObject):
    def __init__(self, name, state, root=None):
        self.name = name
        self._state = state
        self._root = root if root is not None else self
        self.attrs = AttributeManager()
        self._members = {}

    def _walk(self, name):
        self._state.alive()
        node = self._root if name[:1] == "/" else self
        for p in name.split("/"):
            if p == "":
                continue
            if not isinstance(node, Group) or p not in node._members:
                return None
            node = node._members[p]
        return node

    def _parent(self, name, create):
        self._state.writable()
        node = self._root if name[:1] == "/" else self
        ps = [p for p in name.split("/") if p != ""]
        if len(ps) == 0:
            raise ValueError("Unable to create group (no name)")
        for p in ps[:-1]:
            if p not in node._members:
                if not create:
                    raise KeyError("Couldn't delete link (component not found)")
                node._members[p] = Group(node.name + "/" + p if node.name != "/" else "/" + p, self._state, self._root)
            node = node._members[p]
            if not isinstance(node, Group):
                raise ValueError("Unable to create group (component is not a group)")
        return node, ps[-1]

    def create_group(self, name, track_order=None):
        node, last = self._parent(name, True)
        if last in node._members:
            raise ValueError("Unable to create group (name already exists)")
        node._members[last] = Group(node.name + "/" + last if node.name != "/" else "/" + last, self._state, self._root)
        return node._members[last]

    def require_group(self, name):
        got = self._walk(name)
        return got if got is not None else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kwds):
        if data is None and shape is None and dtype is None:
            raise TypeError("One of data, shape or dtype must be specified")
        if data is None and shape is not None:
            data = np.zeros(shape)
        node, last = self._parent(name, True)
        if last in node._members:
            raise ValueError("Unable to create dataset (name already exists)")
        node._members[last] = Dataset(node.name + "/" + last if node.name != "/" else "/" + last, self._state, data, dtype)
        return node._members[last]

    def __getitem__(self, name):
        got = self._walk(name)
        if got is None:
            raise KeyError("Unable to open object (object '" + name + "' doesn't exist)")
        return got

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def __delitem__(self, name):
        node, last = self._parent(name, False)
        if last not in node._members:
            raise KeyError("Couldn't delete link (name doesn't exist)")
        del node._members[last]

    def __contains__(self, name):
        return self._walk(name) is not None

    def get(self, name, default=None):
        got = self._walk(name)
        return default if got is None else got

    def __iter__(self):
        self._state.alive()
        return iter(sorted(self._members))

    def __len__(self):
        self._state.alive()
        return len(self._members)

    def keys(self):
        return sorted(self._members)

    def values(self):
        return [self._members[k] for k in sorted(self._members)]

    def items(self):
        return [(k, self._members[k]) for k in sorted(self._members)]

    def visit(self, func):
        return self._visit("", lambda name, obj: func(name))

    def visititems(self, func):
        return self._visit("", func)

    def _visit(self, prefix, func):
        self._state.alive()
        for k in sorted(self._members):
            got = func(prefix + k, self._members[k])
            if got is not None:
                return got
            if isinstance(self._members[k], Group):
                got = self._members[k]._visit(prefix + k + "/", func)
                if got is not None:
                    return got
        return None


class File(Group):
    def __init__(self, name, mode="r", **kwds):
        if mode in ("r", "r+"):
            if name not in _FILES:
                raise FileNotFoundError("Unable to open file (unable to open file: name = '" + str(name) + "')")
        elif mode == "w":
            _FILES[name] = _State()
        elif mode in ("w-", "x"):
            if name in _FILES:
                raise FileExistsError("Unable to create file (file exists)")
            _FILES[name] = _State()
        elif mode == "a":
            if name not in _FILES:
                _FILES[name] = _State()
        else:
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        state = _FILES[name]
        Group.__init__(self, "/", state)
        self.attrs = state.attrs
        self._members = state.members
        self.filename = name
        self.mode = mode
        state.mode = mode
        state.handles = state.handles + 1
        self._open = True
        _OPEN.append(self)

    def close(self):
        if self._open:
            self._state.handles = self._state.handles - 1
        self._open = False

    def flush(self):
        pass

    def __bool__(self):
        return self._open

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
