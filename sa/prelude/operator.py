def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def floordiv(a, b): return a // b
def truediv(a, b): return a / b
def mod(a, b): return a % b
def and_(a, b): return a & b
def or_(a, b): return a | b
def xor(a, b): return a ^ b
def lshift(a, b): return a << b
def rshift(a, b): return a >> b
def neg(a): return -a
def pos(a): return +a
def invert(a): return ~a
def not_(a): return not a
def truth(a): return bool(a)
def eq(a, b): return a == b
def ne(a, b): return a != b
def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def is_(a, b): return a is b
def is_not(a, b): return a is not b
def contains(a, b): return b in a
def getitem(a, b): return a[b]
def index(a): return a
def concat(a, b): return a + b


def setitem(a, b, c):
    a[b] = c


def delitem(a, b):
    del a[b]


def itemgetter(*ks):
    if len(ks) == 1:
        return lambda x: x[ks[0]]
    return lambda x: tuple(x[k] for k in ks)


def _attr(x, n):
    for p in n.split('.'):
        x = getattr(x, p)
    return x


def attrgetter(*ns):
    if len(ns) == 1:
        return lambda x: _attr(x, ns[0])
    return lambda x: tuple(_attr(x, n) for n in ns)


def methodcaller(n, *a, **k):
    return lambda x: getattr(x, n)(*a, **k)
