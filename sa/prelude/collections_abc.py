from collections import Iterable, Sized, Mapping, MutableMapping, Sequence, MutableSequence


class Iterator(Iterable):
    pass


class Callable(object):
    pass


class Hashable(object):
    pass


class Container(object):
    pass


class Generator(Iterator):
    pass


class Set(object):
    pass
