class _GeneratorContextManager(object):
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        return next(self.gen)

    def __exit__(self, t, v, tb):
        if t is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(v)
        except StopIteration as e:
            return e is not v
        except BaseException as e:
            if e is not v:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(f):
    def helper(*a, **k):
        return _GeneratorContextManager(f(*a, **k))
    helper.__name__ = f.__name__
    return helper


class suppress(object):
    def __init__(self, *excs):
        self._excs = excs

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self._excs)


class closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


class nullcontext(object):
    def __init__(self, r=None):
        self.r = r

    def __enter__(self):
        return self.r

    def __exit__(self, *a):
        return None
