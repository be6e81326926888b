from _native import OrderedDict, defaultdict, deque, namedtuple


class Iterable(object):
    pass


class Sized(object):
    pass


class Mapping(object):
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def keys(self):
        return [k for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, other):
        if not isinstance(other, (Mapping, dict)):
            return NotImplemented
        return dict(self.items()) == dict(other.items())

    __hash__ = None


class MutableMapping(Mapping):
    def pop(self, key, *default):
        try:
            v = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        else:
            del self[key]
            return v

    def clear(self):
        for k in list(self):
            del self[k]

    def update(self, other=(), **kw):
        if isinstance(other, Mapping) or isinstance(other, dict):
            for k in other:
                self[k] = other[k]
        elif hasattr(other, 'keys'):
            for k in other.keys():
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v
        for k in kw:
            self[k] = kw[k]

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class Sequence(object):
    def __iter__(self):
        i = 0
        try:
            while True:
                yield self[i]
                i += 1
        except IndexError:
            return

    def __contains__(self, v):
        for x in self:
            if x is v or x == v:
                return True
        return False

    def index(self, v):
        i = 0
        for x in self:
            if x is v or x == v:
                return i
            i += 1
        raise ValueError

    def count(self, v):
        n = 0
        for x in self:
            if x is v or x == v:
                n += 1
        return n


class MutableSequence(Sequence):
    def append(self, v):
        self.insert(len(self), v)

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def clear(self):
        while len(self):
            self.pop()

    def reverse(self):
        out = [x for x in self]
        self.clear()
        self.extend(out[::-1])

    def remove(self, v):
        del self[self.index(v)]

    def __iadd__(self, vs):
        self.extend(vs)
        return self


class Counter(dict):
    def __init__(self, it=(), **kw):
        dict.__init__(self)
        self.update(it)

    def update(self, it=()):
        if isinstance(it, dict):
            for k in it:
                self[k] = self.get(k, 0) + it[k]
        else:
            for k in it:
                self[k] = self.get(k, 0) + 1

    def __missing__(self, k):
        return 0

    def elements(self):
        for k in self:
            for _ in range(self[k]):
                yield k

    def most_common(self, n=None):
        out = sorted(self.items(), key=lambda kv: -kv[1])
        return out if n is None else out[:n]

    def subtract(self, it):
        if isinstance(it, dict):
            for k in it:
                self[k] = self.get(k, 0) - it[k]
        else:
            for k in it:
                self[k] = self.get(k, 0) - 1


class ChainMap(Mapping):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def __iter__(self):
        seen = []
        for m in self.maps:
            for k in m:
                if k not in seen:
                    seen.append(k)
        return iter(seen)

    def __len__(self):
        return len([k for k in self])
