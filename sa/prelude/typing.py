class _T(object):
    def __getitem__(self, k):
        return self

    def __call__(self, *a, **k):
        return self


Any = Optional = Union = List = Tuple = Dict = Set = Callable = Iterable = Iterator = Generator = Sequence = Mapping = _T()
Type = ClassVar = Final = FrozenSet = Text = ByteString = MutableMapping = MutableSequence = NoReturn = Hashable = _T()
Literal = IO = BinaryIO = TextIO = Deque = DefaultDict = Awaitable = SupportsInt = AnyStr = Container = Collection = _T()
TYPE_CHECKING = False


def cast(t, v):
    return v


def overload(f):
    return f


def no_type_check(f):
    return f


def final(f):
    return f


def TypeVar(*a, **k):
    return Any


def NewType(n, t):
    return lambda x: x


class Generic(object):
    pass


class Protocol(object):
    pass
