from _native import partial


def update_wrapper(f, wrapped, *a, **k):
    f.__name__ = wrapped.__name__
    f.__doc__ = wrapped.__doc__
    f.__wrapped__ = wrapped
    return f


def wraps(wrapped, *a, **k):
    def deco(f):
        return update_wrapper(f, wrapped)
    return deco


def reduce(f, it, *init):
    it = iter(it)
    if init:
        acc = init[0]
    else:
        acc = next(it)
    for x in it:
        acc = f(acc, x)
    return acc


def lru_cache(maxsize=128, typed=False):
    # results are assumed to be pure: memoisation is not visible
    if callable(maxsize):
        return maxsize

    def deco(f):
        return f
    return deco


def cache(f):
    return f


class cached_property(object):
    def __init__(self, f):
        self.f = f

    def __get__(self, o, t):
        return self.f(o)


def total_ordering(cls):
    def has(n):
        return n in cls.__dict__
    if has('__lt__'):
        if not has('__gt__'):
            cls.__gt__ = lambda a, b: not (a < b) and a != b
        if not has('__le__'):
            cls.__le__ = lambda a, b: a < b or a == b
        if not has('__ge__'):
            cls.__ge__ = lambda a, b: not a < b
    return cls
