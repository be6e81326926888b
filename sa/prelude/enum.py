class EnumMeta(type):
    def __new__(mcs, name, bases, ns):
        members = []
        body = {}
        auto_n = 0
        private = ('_value_', '_name_')
        for k in ns:
            v = ns[k]
            if k[:1] == '_' or callable(v) or isinstance(v, (staticmethod, classmethod, property)):
                body[k] = v
            else:
                members.append((k, v))
        cls = type.__new__(mcs, name, bases, body)
        by_name = {}
        order = []
        for k, v in members:
            if v is _auto:
                auto_n += 1
                v = auto_n
            elif isinstance(v, int):
                auto_n = v
            found = None
            for e in order:
                if e._value_ == v:
                    found = e
            if found is None:
                if issubclass(cls, int):
                    found = int.__new__(cls, v)
                elif issubclass(cls, str):
                    found = str.__new__(cls, v)
                else:
                    found = object.__new__(cls)
                found._value_ = v
                found._name_ = k
                found.value = v
                found.name = k
                order.append(found)
            by_name[k] = found
            type.__setattr__(cls, k, found)
        type.__setattr__(cls, '__members__', by_name)
        type.__setattr__(cls, '_order_', order)
        return cls

    def __call__(cls, value):
        for e in cls._order_:
            if e._value_ == value:
                return e
        raise ValueError('%r is not a valid %s' % (value, cls.__name__))

    def __getitem__(cls, name):
        return cls.__members__[name]

    def __iter__(cls):
        return iter(cls._order_)

    def __len__(cls):
        return len(cls._order_)

    def __contains__(cls, v):
        for e in cls._order_:
            if e is v or e._value_ == v:
                return True
        return False


_auto = object()


def auto():
    return _auto


class Enum(object, metaclass=EnumMeta):
    def __str__(self):
        return type(self).__name__ + '.' + self._name_


class IntEnum(int, Enum):
    pass


def unique(cls):
    return cls
