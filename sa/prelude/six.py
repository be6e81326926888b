import itertools as _itertools
from _native import SixMoves
from io import BytesIO, StringIO

PY2 = False
PY3 = True
PY34 = True
text_type = str
binary_type = bytes
string_types = (str,)
integer_types = (int,)
class_types = (type,)
MAXSIZE = 9223372036854775807
unichr = chr


def add_metaclass(metaclass):
    def wrapper(cls):
        orig_vars = cls.__dict__.copy()
        orig_vars.pop('__dict__', None)
        orig_vars.pop('__weakref__', None)
        return metaclass(cls.__name__, cls.__bases__, orig_vars)
    return wrapper


def with_metaclass(meta, *bases):
    return meta('temporary_class', bases, {})


def iteritems(d, **kw):
    return iter(d.items())


def iterkeys(d, **kw):
    return iter(d.keys())


def itervalues(d, **kw):
    return iter(d.values())


def b(s):
    return s.encode('latin-1')


def u(s):
    return s


def byte2int(bs):
    return bs[0]


def indexbytes(buf, i):
    return buf[i]


def iterbytes(buf):
    return iter(buf)


def int2byte(i):
    if i < 0 or i > 255:
        raise ValueError('bytes must be in range(0, 256)')
    return bytes((i,))


def get_function_code(f):
    return f.__code__


def next(it):
    return it.__next__()


def callable(o):
    return hasattr(o, '__call__')


def python_2_unicode_compatible(c):
    return c


def raise_from(value, from_value):
    raise value


def reraise(tp, value, tb=None):
    raise value


moves = SixMoves
moves.zip_longest, moves.filterfalse = _itertools.zip_longest, _itertools.filterfalse
moves.range = moves.xrange = range
moves.zip, moves.map, moves.filter = zip, map, filter
