"""Small functions whose results the abstract machine must reproduce exactly (run by tools/selftest/run.py)."""
import collections
import functools
import itertools
import operator
from collections import OrderedDict, defaultdict, deque, namedtuple
from decimal import Decimal
from io import BytesIO


def t_product(): return [a + b for a, b in itertools.product('ab', 'cd')]
def t_chain(): return list(itertools.chain([1], (2,), {3: 4}))
def t_chain_from(): return list(itertools.chain.from_iterable([[1], [2, 3]]))
def t_takewhile(): return list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1]))
def t_dropwhile(): return list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1]))
def t_islice(): return list(itertools.islice(itertools.count(5), 2, 8, 2))
def t_starmap(): return list(itertools.starmap(pow, [(2, 3), (3, 2)]))
def t_groupby(): return [(k, list(g)) for k, g in itertools.groupby([1, 1, 2, 1])]
def t_accumulate(): return list(itertools.accumulate([1, 2, 3]))
def t_reduce(): return functools.reduce(lambda a, b: a * 256 + b, bytearray(b'\x01\x02\x03'), 0)
def t_ops(): return [operator.add(1, 2), operator.itemgetter(1)([5, 6]), operator.attrgetter('real')(5), operator.or_(1, 4)]
def t_frombytes(): return int.from_bytes(b'\x01\x02', 'big'), int.from_bytes(b'\xff\xfe', byteorder='big', signed=True)
def t_tobytes(): return (258).to_bytes(2, 'big'), (5).to_bytes(1, byteorder='little')
def t_fstring():
    x = 5
    return f'{x:02d}-{x!r:>4}-{x + 1}{"a"}'
def t_format(): return '{0} {1:x} {name:>5}'.format(1, 255, name='z'), '{}-{}'.format(1, 2), '%s %r %d %02X %5.2f %%' % ('a', 'b', 3, 10, 2.5)
def t_walrus():
    out = []
    it = iter([1, 2, 0, 3])
    while (v := next(it)):
        out.append(v)
    return out
def t_dictcomp(): return {k: v for k, v in zip('abc', range(3)) if v}
def t_setcomp(): return sorted({x % 3 for x in range(10)})
def t_genexp(): return sum(x * x for x in range(4)), any(x > 2 for x in range(4)), all([]), max((3, 1), key=lambda v: -v)
def t_star(): 
    a, *b, c = range(5)
    return a, b, c, [*b, *b], {**{'x': 1}, 'y': 2}, (*b, 1)
def t_kwonly():
    def f(a, *args, b=2, **kw): return a, args, b, sorted(kw.items())
    return f(1, 3, b=4, c=5), f(*[1, 2], **{'z': 0})
def t_posonly():
    def f(a, /, b): return a, b
    return f(1, b=2)
def t_nonlocal():
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc(); inc()
    return n
def t_try():
    out = []
    for v in (0, 1, 'x', None):
        try:
            out.append(1 // v)
        except ZeroDivisionError as e:
            out.append(str(e))
        except (TypeError, ValueError):
            out.append('T')
        else:
            out.append('else')
        finally:
            out.append('fin')
    return out
def t_finally_return():
    def f():
        for i in range(3):
            try:
                if i == 1:
                    return i
                continue
            finally:
                out.append(i)
    out = []
    return f(), out
def t_raise_from():
    try:
        try:
            raise KeyError('a')
        except KeyError as e:
            raise ValueError('b') from e
    except ValueError as e:
        return type(e).__name__, e.args, type(e.__cause__).__name__
def t_reraise():
    try:
        try:
            raise KeyError('a')
        except KeyError:
            raise
    except LookupError as e:
        return repr(e)
class CM(object):
    def __init__(self, log): self.log = log
    def __enter__(self): self.log.append('in'); return self
    def __exit__(self, t, v, tb): self.log.append(t and t.__name__); return t is KeyError
def t_with():
    log = []
    with CM(log) as c, CM(log):
        log.append(c is not None)
    with CM(log):
        raise KeyError(1)
    return log
def t_contextmanager():
    import contextlib
    log = []
    @contextlib.contextmanager
    def cm(x):
        log.append(x)
        try:
            yield x + 1
        finally:
            log.append('done')
    with cm(1) as y:
        log.append(y)
    return log
def t_suppress():
    from contextlib import suppress
    with suppress(KeyError, ValueError):
        {}['x']
    return 1
def t_yield_from():
    def g():
        r = yield from h()
        yield r
    def h():
        x = yield 1
        return x
    i = g()
    return next(i), i.send(7)
def t_gen_close():
    log = []
    def g():
        try:
            yield 1
        except GeneratorExit:
            log.append('closed')
            raise
    i = g(); next(i); i.close()
    return log
def t_gen_throw():
    def g():
        try:
            yield 1
        except ValueError:
            yield 'caught'
    i = g(); next(i)
    return i.throw(ValueError())
def t_genstop():
    def g():
        yield 1
        return 5
    i = g(); next(i)
    try:
        next(i)
    except StopIteration as e:
        return e.value
def t_forelse():
    for i in range(3):
        if i == 5:
            break
    else:
        return 'else'
def t_whileelse():
    i = 0
    while i < 3:
        i += 1
    else:
        return i
def t_slices():
    x = list(range(10))
    return x[2:8:3], x[::-1], x[-3:], x[:-7], 'abcdef'[1:-1], b'abc'[::-1], (1, 2, 3)[1:]
def t_slice_assign():
    x = list(range(5))
    x[1:3] = [9]
    del x[0]
    x[0] += 5
    b = bytearray(b'abcd')
    b[1:2] = b'ZZ'
    return x, bytes(b)
def t_chained(): return 1 < 2 < 3, 1 < 3 < 2, 0 < 1 == 1, not 1 == 2 != 3
def t_ternary(): return [('a' if x % 2 else 'b') for x in range(3)]
def t_boolops(): return (0 or 'x'), (1 and None), ([] or {} or 5), (not []), (1 if None else 2)
def t_lambda(): return (lambda x, y=2, *z: (x, y, z))(1), list(map(lambda x, y: x + y, [1, 2], [3, 4])), list(filter(None, [0, 1, 2]))
def t_sorted(): return sorted('bca'), sorted([3, 1, 2], reverse=True), sorted(['bb', 'a'], key=len), sorted({2: 1, 1: 2})
def t_minmax(): return min(3, 1, 2), max([1, 5, 2]), min([], default=7), max('ab', 'b', key=len)
def t_str():
    s = ' Hello World '
    return (s.strip(), s.lower(), s.upper(), s.split(), 'a,b'.split(','), ','.join(['x', 'y']), 'abc'.find('c'), 'abc'.startswith(('x', 'a')), 'abc'.endswith('c'),
            'a-b-c'.replace('-', '+', 1), 'abc'.partition('b'), 'abc'.rpartition('b'), '7'.zfill(3), 'a'.ljust(3, '.'), 'a'.rjust(3), 'ab'.center(6), 'x=1'.split('=', 1), 'aXb'.swapcase(), 'abc'.index('b'),
            'ab12'.isalnum(), '12'.isdigit(), 'ab'.isalpha(), 'a' in 'abc', 'abc' * 2, 'a' < 'b', 'a\nb'.splitlines(), 'aa'.count('a'), 'abc'.title(), 'ab'.encode('ascii'), 'abcabc'.rfind('b'), 'abc'.translate({97: 'z'}))
def t_bytes():
    return (b'ab' + b'c', b'abc'[0], b'abc'[0:1], bytes([1, 2]), bytes(3), bytearray(b'x') + b'y', b'abc'.hex(), b'a'.decode(), bytes(bytearray(b'q')), b'a' in b'abc', 97 in b'abc', b'abc'.find(b'c'), list(b'ab'), b''.join([b'x', b'y']), bytes.fromhex('0aff'),
            b'a,b'.split(b','), b'abc'.startswith(b'a'), b'%s-%d' % (b'x', 3), b'abc'.replace(b'b', b''), b'ab'.upper(), b' a '.strip(), b'a' * 3)
def t_bytearray():
    b = bytearray()
    b.append(1); b.extend(b'ab'); b += b'c'; b.insert(0, 9)
    p = b.pop()
    b.reverse()
    return bytes(b), p, len(b), b[0], b[1:], bytes(b[::-1]), b == bytearray(b), b == bytes(b)
def t_list():
    l = [3, 1]
    l.append(2); l.extend([5]); l.insert(1, 7); l += [8]
    l.sort(); l.reverse(); p = l.pop(0); l.remove(7)
    return l, p, l.index(2), l.count(1), l * 2, l + [1], 3 in l, l == [5, 3, 2, 1], [1, 2] < [1, 3], l.copy()
def t_dict():
    d = {'a': 1, 'b': 2}
    d['c'] = 3; del d['a']
    d.update(x=1); d.update({'y': 2}); d.setdefault('z', []).append(4)
    return sorted(d), d.get('q', 0), d.pop('b'), d.pop('nope', None), 'c' in d, sorted(d.items(), key=repr), len(d), list(dict.fromkeys('ab', 0).items()), dict(a=1), dict([(1, 2)]), {**d} == d, d.popitem(), list(d.keys())
def t_dict_order(): return list({'b': 1, 'a': 2}.items()), list(OrderedDict([('z', 1), ('y', 2)]))
def t_set():
    s = {1, 2}
    s.add(3); s.discard(9); s |= {4}; s.update([5]); s.remove(1)
    return sorted(s), sorted(s & {2, 3}), sorted(s - {2}), sorted(s ^ {2, 9}), s <= {2, 3, 4, 5, 6}, s.issubset(s), s.isdisjoint({0}), frozenset([1]) == {1}, len(s), sorted(s.union([0])), {1} < {1, 2}, s.issuperset({2})
def t_defaultdict():
    d = defaultdict(list)
    d['a'].append(1)
    return dict(d), 'b' in d
def t_deque():
    d = deque([1, 2])
    d.append(3); d.appendleft(0); d.rotate(1) if False else None
    return list(d), d.popleft(), d.pop(), d[0], len(d), deque([1, 2, 3], maxlen=2)[0] if False else 0, list(reversed(d))
def t_namedtuple():
    P = namedtuple('P', 'x y')
    p = P(1, y=2)
    return p, p.x, p._replace(x=5), P._fields, p == (1, 2), p._asdict() == {'x': 1, 'y': 2}, P._make([3, 4])
def t_namedtuple_defaults():
    P = namedtuple('P', ['x', 'y'], defaults=[7])
    return P(1)
class A(object):
    z = 5
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    @property
    def p(self): return self.v + 1
    @p.setter
    def p(self, x): self.v = x
    @classmethod
    def make(cls, v): return cls(v * 2)
    @staticmethod
    def st(x): return x + self_free()
    def __eq__(self, o): return isinstance(o, A) and self.v == o.v
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.v)
    def __lt__(self, o): return self.v < o.v
    def __repr__(self): return 'A(%r)' % (self.v,)
    def __len__(self): return 3
    def __getitem__(self, i):
        if i > 2: raise IndexError(i)
        return i * 10
    def __contains__(self, x): return x == 1
    def __call__(self, *a): return a
    def __add__(self, o): return A(self.v + o)
    def __radd__(self, o): return A(o + self.v)
    def __bool__(self): return self.v != 0
    def __iter__(self): return iter([self.v])
    def __setitem__(self, k, v): self.v = (k, v)
    def __delitem__(self, k): self.v = None
def self_free(): return 100
class B(A):
    __slots__ = ()
    def __init__(self, v): super().__init__(v + 1)
    @property
    def p(self): return super().p * 2
def t_class():
    a, b = A(1), B(1)
    a.p = 5
    return a.v, a.p, A.make(3).v, B.make(3).v, A.st(1), a == A(5), a != A(5), repr(a), len(a), a[2], 1 in a, a(1, 2), (a + 1).v, (1 + a).v, bool(A(0)), list(a), b.p, isinstance(b, A), issubclass(B, A), type(b).__name__, b.z, sorted([A(3), A(1)])[0].v, {A(1): 2}[A(1)]
def t_setitem():
    a = A(1)
    a['k'] = 2
    r = a.v
    del a['k']
    return r, a.v
class Meta(type):
    def __new__(mcs, name, bases, d):
        d['added'] = name
        return type.__new__(mcs, name, bases, d)
    def __iter__(cls): return iter([1, 2])
class WithMeta(metaclass=Meta):
    pass
def t_meta(): return WithMeta.added, list(WithMeta)
class G(object):
    def __getattr__(self, n):
        if n.startswith('x'): return n
        raise AttributeError(n)
def t_getattr():
    g = G()
    g.y = 3
    setattr(g, 'w', 4)
    return g.xa, getattr(g, 'q', 'd'), hasattr(g, 'q'), g.y, g.w, sorted(vars(g).items()), g.__dict__.get('y'), delattr(g, 'w'), hasattr(g, 'w')
class Desc(object):
    def __get__(self, o, t): return 42 if o is not None else t.__name__
class UsesDesc(object):
    d = Desc()
def t_desc(): return UsesDesc().d, UsesDesc.d
def t_super2():
    class X(object):
        def f(self): return ['X']
    class Y(X):
        def f(self): return ['Y'] + super(Y, self).f()
    class Z(X):
        def f(self): return ['Z'] + super().f()
    class W(Y, Z):
        def f(self): return ['W'] + super().f()
    return W().f(), [c.__name__ for c in W.__mro__[:4]]
def t_int(): return 7 // 2, -7 // 2, 7 % 3, -7 % 3, divmod(-7, 2), 2 ** 10, 5 & 3, 5 | 3, 5 ^ 3, ~5, 1 << 4, 256 >> 3, abs(-3), (255).bit_length(), int('12'), int('ff', 16), int(3.9), round(2.5), round(3.14159, 2), hex(255), oct(8), bin(5), 10 / 4, pow(2, 5, 7), +3, -3, True + 1, int(True), float('1.5'), 1.5.is_integer()
def t_decimal():
    d = Decimal('1.50')
    return d, d.as_tuple().exponent, d.scaleb(2), -d, d + 1, d * 2, d == Decimal('1.5'), d.is_zero(), Decimal((1, (1, 2), -1)), int(d), str(d), d.adjusted(), d < 2, Decimal(5).scaleb(-2), d.copy_abs(), abs(-d), d.normalize(), d.quantize(Decimal('1.000'))
def t_bytesio():
    b = BytesIO(b'abcdef')
    r = b.read(2), b.tell(), b.read(), b.read(1)
    b.seek(0)
    w = BytesIO(); w.write(b'x'); w.write(bytearray(b'y'))
    return r, b.read(1), w.getvalue(), b.getvalue()
def t_enumzip(): return list(enumerate('ab', 1)), list(zip('ab', [1, 2, 3])), list(reversed([1, 2])), dict(zip('ab', (1, 2)))
def t_iter2():
    it = iter([1, 2, 3])
    return list(iter(lambda: next(it), 3))
def t_global_fn():
    def deco(f):
        @functools.wraps(f)
        def w(*a, **k): return f(*a, **k) + 1
        return w
    @deco
    def f(x): return x
    return f(1), f.__name__
def t_partial():
    p = functools.partial(lambda a, b, c=0: (a, b, c), 1, c=5)
    return p(2), p(2, c=3), p.args, p.func is not None
def t_isinst(): return isinstance(True, int), isinstance(1, (str, int)), isinstance('a', str), issubclass(bool, int), type(1) is int, type('') == str, callable(len), callable(3)
def t_tuple(): return (1, 2) + (3,), (1, 2) * 2, (1, 2) < (1, 3), (1, 2).index(2), tuple('ab'), (1,) == (1,), hash((1, 2)) == hash((1, 2)), 2 in (1, 2)
def t_del():
    x = 1
    del x
    try:
        return x
    except UnboundLocalError:
        return 'unbound'
def t_assert():
    try:
        assert 1 == 2, 'msg'
    except AssertionError as e:
        return e.args
def t_struct():
    import struct
    return struct.pack('>I', 5), struct.unpack('>BH', b'\x01\x00\x02'), struct.pack('>d', 1.5), struct.Struct('>H').pack(7), struct.unpack_from('>B', b'\x01\x02', 1), struct.calcsize('>Q')
def t_re():
    import re
    m = re.match(r'(\d+)-(?P<x>\w+)', '12-ab')
    return m.group(1), m.group('x'), m.groups(), re.sub('a', 'b', 'aa'), bool(re.search('z', 'a')), re.split(',', 'a,b'), re.findall('a', 'aba'), re.compile('^a').match('ab') is not None, m.start(1), re.escape('a.b')
def t_math():
    import math
    return math.isnan(float('nan')), math.isinf(float('inf')), math.floor(2.5), math.copysign(1, -0.0), math.ceil(2.1), math.log10(100), math.trunc(2.5), math.inf > 5
def t_string():
    import string
    return string.digits, string.hexdigits, string.ascii_letters, string.whitespace
def t_abc():
    from collections.abc import MutableMapping
    class M(MutableMapping):
        def __init__(self): self.s = {}
        def __getitem__(self, k): return self.s[k]
        def __setitem__(self, k, v): self.s[k] = v
        def __delitem__(self, k): del self.s[k]
        def __iter__(self): return iter(self.s)
        def __len__(self): return len(self.s)
    m = M()
    m['a'] = 1
    m.update(b=2)
    return sorted(m.items()), m.get('z'), 'a' in m, m.pop('a'), len(m), m.setdefault('q', 1), list(m.values())
def t_typing():
    from typing import Optional, List, Any, Union, Tuple, Dict, Callable
    def f(a: Optional[int], b: List[str] = None) -> Any: return a
    x: int = 5
    return f(1), x
def t_dataclass():
    import dataclasses
    @dataclasses.dataclass
    class D(object):
        a: int
        b: int = 2
    d = D(1)
    return d.a, d.b, d == D(1, 2)
def t_lru():
    @functools.lru_cache(maxsize=None)
    def f(x): return x * 2
    @functools.lru_cache
    def g(x): return x * 3
    return f(2), g(2)
def t_total_ordering():
    @functools.total_ordering
    class T(object):
        def __init__(self, v): self.v = v
        def __eq__(self, o): return self.v == o.v
        def __lt__(self, o): return self.v < o.v
    return T(1) <= T(2), T(2) > T(1), T(1) >= T(1)
def t_copy():
    import copy
    a = [1, [2]]
    b = copy.copy(a); c = copy.deepcopy(a)
    a[1].append(3)
    return b, c
def t_ordinal(): return chr(97), ord('a'), ascii('é'), repr('a\n'), format(5, '03d'), format(255, 'x'), str(None), str(1.5), repr(b'a\x00'), str([1, 'a']), repr((1,)), repr({'a': 1}), str(True)
def t_memoryview():
    m = memoryview(b'abc')
    return m[0], bytes(m[1:]), len(m), m.tobytes()
def t_unpack_nested():
    (a, (b, c)), d = (1, (2, 3)), 4
    for i, (x, y) in enumerate([(1, 2)]):
        a += x * y + i
    return a, b, c, d
def t_multi_assign():
    a = b = []
    a.append(1)
    x, y = 1, 2
    x, y = y, x
    return b, x, y
def t_augmented():
    x = 5
    x -= 1; x *= 3; x //= 2; x **= 2; x %= 7; x |= 8; x &= 12; x ^= 1; x <<= 2; x >>= 1
    return x
def t_global():
    global GG
    GG = 5
    return GG
def t_closure_loop():
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    return [f() for f in fs], [g() for g in gs]
def t_exc_attrs():
    class E(Exception):
        def __init__(self, m, code):
            super().__init__(m)
            self.code = code
    try:
        raise E('x', 5)
    except Exception as e:
        return str(e), e.code, e.args, isinstance(e, E)
def t_str_iter(): return [c for c in 'abc'], list(map(ord, 'ab')), ''.join(chr(c + 1) for c in b'ab'), dict.fromkeys('aab'), set('aa') == {'a'}
def t_bisect():
    import bisect
    return bisect.bisect([1, 2, 3], 2), bisect.bisect_left([1, 2, 3], 2)
def t_counter():
    c = collections.Counter('aab')
    return c['a'], c['z'], c == collections.Counter('aba'), c.most_common(1)
def t_async_cell():
    def outer():
        x = 1
        def inner(): return x
        x = 2
        return inner
    return outer()()
def t_class_closure():
    def mk(n):
        class K(object):
            v = n
            def get(self): return n, self.v, __class__.__name__
        return K()
    return mk(3).get()
def t_int_methods(): return (5).real, (5).numerator, int.__add__(2, 3), (3).__lt__(4), 'a'.__eq__('a'), [1].__len__(), (1).__class__.__name__
def t_cond_import():
    try:
        import nonexistent_module_xyz
    except ImportError:
        return 'no'
def t_dict_iter_methods():
    d = {1: 'a', 2: 'b'}
    return [k for k in d], list(d.values()), max(d), sum(d), d == {2: 'b', 1: 'a'}, list(reversed(list(d))), {v: k for k, v in d.items()}, d.keys() & {1}, 1 in d.keys(), 'a' in d.values()
def t_nested_gen():
    def flat(x):
        for i in x:
            if isinstance(i, list):
                for j in flat(i):
                    yield j
            else:
                yield i
    return list(flat([1, [2, [3]]]))
def t_print_kw(): return print('', end='')
def t_none_cmp():
    try:
        return None < 1
    except TypeError:
        return 'TypeError'
def t_match_style():
    table = {int: 'i', str: 's'}
    return table[type(5)], table.get(type(None), 'n')
def t_tell():
    import sys
    return sys.version_info[0] >= 3, sys.version_info.major, sys.maxsize > 2 ** 32
def t_enum_std():
    import enum
    class C(enum.IntEnum):
        A = 1
        B = 2
    return C.A == 1, C(2) is C.B, C.B.name, [c.value for c in C], C['A'] is C.A
def t_enum_plain():
    from enum import Enum
    class C(Enum):
        A = 'a'
        B = 'b'
    return C.A.value, C('b').name, C.A is C.A, C.A == C.B, len(C)
