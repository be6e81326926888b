"""Abstract value domain: constants, heap references, set-abstracted scalars, affine integer forms, sequences."""

INF = float('inf')


class Ref(object):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return type(o) is Ref and o.a == self.a

    def __ne__(self, o):
        return not (type(o) is Ref and o.a == self.a)

    def __hash__(self):
        return self.a * 7 + 3

    def __repr__(self):
        return '&%d' % self.a


class Sym(object):
    """An abstract scalar; what is known about it lives in State.syms[id]."""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return type(o) is Sym and o.i == self.i

    def __ne__(self, o):
        return not (type(o) is Sym and o.i == self.i)

    def __hash__(self):
        return self.i * 31 + 11

    def __repr__(self):
        return '$%d' % self.i


class Info(object):
    """kind: 'int' | 'bool' | 'str' | 'bytes' | 'float' | 'obj' | 'any';  dom: IntSet for int;  cls: class Ref for
    'obj';  term: the Herbrand term (op, args) the value was computed by, or None;  wide: True when the symbol stands
    for a value lost to widening (decisions on it are imprecise)."""
    __slots__ = ('kind', 'dom', 'cls', 'term', 'wide')

    def __init__(self, kind, dom=None, cls=None, term=None, wide=False):
        self.kind = kind
        self.dom = dom
        self.cls = cls
        self.term = term
        self.wide = wide

    def with_dom(self, dom):
        return Info(self.kind, dom, self.cls, self.term, self.wide)

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.dom, self.term)


class Lin(object):
    """c + sum(coef*sym): an affine integer form over abstract scalars."""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c = c
        self.t = t

    def __eq__(self, o):
        return type(o) is Lin and o.c == self.c and o.t == self.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        return '(%s%s)' % (self.c, ''.join(' %+d*$%d' % (k, s) for s, k in self.t))


class Seq(object):
    """An immutable str/bytes whose elements are partly abstract.  elems: tuple of int | Sym; star: unknown tail."""
    __slots__ = ('kind', 'e', 'star')

    def __init__(self, kind, e, star=False):
        self.kind = kind
        self.e = e
        self.star = star

    def __eq__(self, o):
        return type(o) is Seq and (o.kind, o.e, o.star) == (self.kind, self.e, self.star)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.kind, self.e, self.star))

    def __repr__(self):
        return 'Seq%s(%s%s)' % (self.kind[0], list(self.e), '*' if self.star else '')


class BM(object):
    """Bound method."""
    __slots__ = ('f', 's')

    def __init__(self, f, s):
        self.f = f
        self.s = s

    def __eq__(self, o):
        return type(o) is BM and o.f == self.f and o.s == self.s

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.f, self.s))

    def __repr__(self):
        return 'BM(%r,%r)' % (self.f, self.s)


class NF(object):
    """A natively modelled function."""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<nf %s>' % self.name


class Slice(object):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __repr__(self):
        return 'slice(%r,%r,%r)' % (self.a, self.b, self.c)


class _Undef(object):
    def __repr__(self):
        return '<undef>'


UNDEF = _Undef()


# ---------------------------------------------------------------- integer sets (finite unions of intervals)
def iset(*rs):
    return tuple(rs)


ALLINT = ((-INF, INF),)
NONNEG = ((0, INF),)
BYTE = ((0, 255),)
CHAR = ((0, 0x10FFFF),)


def is_from(values):
    vs = sorted(set(values))
    out = []
    for v in vs:
        if out and out[-1][1] + 1 == v:
            out[-1][1] = v
        else:
            out.append([v, v])
    return tuple((a, b) for a, b in out)


def is_norm(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1][1] = b
        else:
            out.append([a, b])
    return tuple((a, b) for a, b in out)


def is_and(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0])
        b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def is_not(x):
    out = []
    lo = -INF
    for a, b in x:
        if a > lo:
            out.append((lo, a - 1))
        lo = b + 1
    if lo <= INF and lo != INF:
        out.append((lo, INF))
    elif lo == -INF:
        out.append((-INF, INF))
    return tuple(out)


def is_sub(x, y):
    return is_and(x, is_not(y)) if y else x


def is_or(x, y):
    return is_norm(list(x) + list(y))


def is_shift(x, k):
    return tuple((a + k, b + k) for a, b in x)


def is_neg(x):
    return tuple((-b, -a) for a, b in reversed(x))


def is_has(x, v):
    for a, b in x:
        if a <= v <= b:
            return True
    return False


def is_one(x):
    return len(x) == 1 and x[0][0] == x[0][1]


def is_size(x):
    return sum(b - a + 1 for a, b in x)


def is_iter(x):
    for a, b in x:
        v = a
        while v <= b:
            yield v
            v += 1


def is_str(x):
    def c(v):
        if v == INF or v == -INF:
            return str(v)
        return repr(chr(v)) if 32 < v < 127 else hex(v) if v >= 0 else str(v)
    parts = [c(a) if a == b else '%s-%s' % (c(a), c(b)) for a, b in x[:12]]
    return '{' + ','.join(parts) + (',...' if len(x) > 12 else '') + '}'
