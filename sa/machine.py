"""Small-step abstract machine over the IR of ir.py.

States are abstract: scalars may be sets (intervals / unions), affine forms or opaque symbols with a Herbrand term,
sequences may have abstract elements or an unknown tail.  A branch on an undetermined condition forks the state and
refines the symbols; nothing of the analysed program is executed by a Python interpreter.
"""
from math import gcd
import datetime as _dt
import decimal as _decimal
import io as _io

import numfmt
import bitops
from dom import *

_Dec = _decimal.Decimal
HOST = {'int': int, 'str': str, 'bytes': bytes, 'bytearray': bytearray, 'tuple': tuple, 'list': list, 'dict': dict,
        'set': set, 'float': float, 'deque': __import__('collections').deque, 'Decimal': _Dec,
        'OrderedDict': __import__('collections').OrderedDict, 'datetime': _dt.datetime, 'timedelta': _dt.timedelta,
        'tzinfo': _dt.tzinfo, 'BytesIO': _io.BytesIO, 'StringIO': _io.StringIO, 'function': type(lambda: 0),
        'generator': type((lambda: (yield))()), 'type': type, 'NoneType': type(None), 'object': object,
        'module': type(_io), 'method': type(_io.BytesIO.read), 'Context': _decimal.Context, 'bool': bool,
        'property': property, 'pattern': type(__import__('re').compile('')), 'frozenset': frozenset,
        'iterator': type(iter([])), 'BaseException': BaseException, 'slice': slice, 'memoryview': memoryview}


def _host_module_has(mod, name):
    if mod in ('six', 'jsonconversion') or mod.startswith('_'):
        return True
    if name == 'pypy_version_info':
        return False
    try:
        return hasattr(__import__('importlib').import_module(mod), name)
    except ImportError:
        return True


class Unsupp(Exception):
    """The machine does not model this construct: the path's outcome is `unknown` (never a violation)."""


class PyExc(Exception):
    """A Python exception raised inside the analysed program."""
    def __init__(self, v):
        self.v = v


class NeedFork(Exception):
    def __init__(self, n):
        self.n = n


class TailCall(object):
    __slots__ = ('f', 'args', 'kw', 'then')

    def __init__(self, f, args=(), kw=None, then=None):
        self.f = f
        self.args = args
        self.kw = kw or {}
        self.then = then


class NeedIter(Exception):
    """Raised by natives that need argument ``idx`` collected into a concrete tuple first."""
    def __init__(self, idx):
        self.idx = idx


# ------------------------------------------------------------------------------------------------- heap objects
class O(object):
    """Generic instance."""
    __slots__ = ('own', 'cls', 'attrs', 'p')

    def __init__(self, cls, attrs=None, p=None):
        self.own = None
        self.cls = cls
        self.attrs = attrs
        self.p = p

    def copy(self):
        p = self.p
        if type(p) is list:
            p = list(p)
        elif type(p) is dict:
            p = dict(p)
        return O(self.cls, None if self.attrs is None else dict(self.attrs), p)


class FuncO(object):
    __slots__ = ('own', 'code', 'globs', 'defaults', 'kwdef', 'clos', 'name', 'attrs')

    def copy(self):
        f = FuncO()
        f.code, f.globs, f.defaults, f.kwdef, f.clos, f.name = \
            self.code, self.globs, self.defaults, self.kwdef, self.clos, self.name
        f.attrs = dict(self.attrs)
        return f


class CellO(object):
    __slots__ = ('own', 'v')

    def __init__(self, v):
        self.own = None
        self.v = v

    def copy(self):
        return CellO(self.v)


class GenO(object):
    __slots__ = ('own', 'frame', 'status', 'code')

    def __init__(self, frame):
        self.own = None
        self.frame = frame
        self.status = 'new'
        self.code = frame.code

    def copy(self):
        g = GenO(self.frame)
        g.status = self.status
        return g


class ClsO(object):
    __slots__ = ('own', 'name', 'bases', 'mro', 'd', 'meta', 'native', 'qual')

    def copy(self):
        c = ClsO()
        c.name, c.bases, c.mro, c.meta, c.native, c.qual = \
            self.name, self.bases, self.mro, self.meta, self.native, self.qual
        c.d = dict(self.d)
        return c


class ModO(object):
    __slots__ = ('own', 'name', 'd')

    def __init__(self, name, d):
        self.own = None
        self.name = name
        self.d = d

    def copy(self):
        return ModO(self.name, dict(self.d))


class IterO(object):
    """kind: 'seq' (p = tuple snapshot or Ref list/bytearray), i = index."""
    __slots__ = ('own', 'kind', 'p', 'i')

    def __init__(self, kind, p, i=0):
        self.own = None
        self.kind = kind
        self.p = p
        self.i = i

    def copy(self):
        return IterO(self.kind, self.p, self.i)


class Frame(object):
    __slots__ = ('code', 'pc', 'loc', 'cells', 'stack', 'blocks', 'globs', 'ns', 'gen', 'then')

    def copy(self):
        f = Frame()
        f.code = self.code
        f.pc = self.pc
        f.loc = dict(self.loc)
        f.cells = self.cells
        f.stack = list(self.stack)
        f.blocks = list(self.blocks)
        f.globs = self.globs
        f.ns = self.ns
        f.gen = self.gen
        f.then = self.then
        return f

    def where(self):
        pc = max(0, min(self.pc - 1, len(self.code.lines) - 1))
        return '%s:%d' % (self.code.qualname, self.code.lines[pc])


EFFLOG = None          # set of (address, what, where, file): writes to objects that existed when the world was frozen


class State(object):
    __slots__ = ('heap', 'base', 'frames', 'syms', 'facts', 'na', 'ns', 'script', 'si', 'effects', 'tok', 'imprecise',
                 'trace', 'result', 'mut', 'asrt', 'steps', 'user')

    def clone(self):
        s = State()
        s.heap = dict(self.heap)
        s.base = self.base
        s.frames = [f.copy() for f in self.frames]
        s.syms = dict(self.syms)
        s.facts = dict(self.facts)
        s.na = self.na
        s.ns = self.ns
        s.script = list(self.script)
        s.si = self.si
        s.effects = list(self.effects)
        self.tok = object()
        s.tok = object()
        s.imprecise = self.imprecise
        s.trace = list(self.trace)
        s.result = self.result
        s.mut = 0
        s.asrt = self.asrt
        s.steps = self.steps
        s.user = self.user
        return s

    def __init__(self):
        self.heap = {}
        self.base = {}
        self.frames = []
        self.syms = {}
        self.facts = {}
        self.na = 1
        self.ns = 1
        self.script = []
        self.si = 0
        self.effects = []
        self.tok = object()
        self.imprecise = None
        self.trace = []
        self.result = None
        self.mut = 0
        self.asrt = 0
        self.steps = 0
        self.user = None

    # ---- heap
    def new(self, obj):
        a = self.na
        self.na = a + 1
        obj.own = self.tok
        self.heap[a] = obj
        return Ref(a)

    def o(self, r):
        a = r.a
        h = self.heap
        if a in h:
            return h[a]
        return self.base[a]

    def w(self, r, what=None):
        a = r.a
        x = self.heap.get(a)
        self.mut += 1
        if x is None:
            x = self.base[a]
            fr = self.frames[-1] if self.frames else None
            self.effects.append(('shared-write', a, what, fr.where() if fr else '?',
                                 fr.code.filename if fr else '?'))
            if EFFLOG is not None:
                EFFLOG.add((a, str(what), fr.where() if fr else '?', fr.code.filename if fr else '?'))
            c = x.copy()
            c.own = self.tok
            self.heap[a] = c
            return c
        if x.own is self.tok:
            return x
        c = x.copy()
        c.own = self.tok
        self.heap[a] = c
        return c

    # ---- symbols
    def sym(self, kind, dom=None, cls=None, term=None, wide=False):
        i = self.ns
        self.ns = i + 1
        if kind == 'int' and dom is None:
            dom = ALLINT
        self.syms[i] = Info(kind, dom, cls, term, wide)
        return Sym(i)

    def setdom(self, s, dom):
        self.syms[s.i] = self.syms[s.i].with_dom(dom)


class Outcome(object):
    __slots__ = ('st', 'kind', 'v')

    def __init__(self, st, kind, v):
        self.st = st
        self.kind = kind        # 'return' | 'yield' | 'raise' | 'unknown'
        self.v = v

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.v)


def isconst(v):
    t = type(v)
    if t is tuple:
        for x in v:
            if not isconst(x):
                return False
        return True
    return v is None or t in (int, str, bytes, bool, float, _Dec) or v is Ellipsis or v is NotImplemented


_NUM = (int, bool)


class Machine(object):
    def __init__(self):
        self.visited = set()     # codes entered
        self.modules = {}        # name -> Ref
        self.builtins = {}       # name -> value
        self.types = {}          # native type name -> class Ref
        self.loader = None
        self.max_steps = 2000000
        self.seqlimit = {}
        self.no_assert = False
        self.ops = {}
        for n in dir(self):
            if n.startswith('op_'):
                self.ops[n[3:]] = getattr(self, n)
        self.binops = _BIN
        self.excs = {}
        self.visited = set()      # (code uid, pc) coverage
        self.track_cov = False

    # --------------------------------------------------------------------------------------------- choice / forks
    def choose(self, st, n):
        if n == 1:
            return 0
        if st.si < len(st.script):
            k = st.script[st.si]
            st.si += 1
            return k
        if st.mut:
            raise Unsupp('choice after mutation')
        raise NeedFork(n)

    # --------------------------------------------------------------------------------------------- classes
    def cls_of(self, st, v):
        t = type(v)
        T = self.types
        if t is Ref:
            o = st.o(v)
            to = type(o)
            if to is O:
                return o.cls
            if to is ClsO:
                return o.meta
            if to is FuncO:
                return T['function']
            if to is GenO:
                return T['generator']
            if to is ModO:
                return T['module']
            if to is IterO:
                return T['iterator']
            if to is CellO:
                return T['cell']
            raise Unsupp('cls_of ' + to.__name__)
        if v is None:
            return T['NoneType']
        if t is Seq:
            return T[v.kind]
        if t is Lin:
            return T['int']
        if t is Sym:
            i = st.syms[v.i]
            if i.kind == 'obj':
                return i.cls
            if i.kind == 'any':
                return None
            return T[i.kind]
        if t is BM:
            return T['method']
        if t is NF:
            return T['builtin_function']
        if t is Slice:
            return T['slice']
        return T.get(t.__name__) or T['object']

    def mro(self, st, c):
        return st.o(c).mro

    def lookup(self, st, c, name):
        for k in st.o(c).mro:
            d = st.o(k).d
            if name in d:
                return d[name]
        return UNDEF

    def issub(self, st, c, d):
        return d in st.o(c).mro

    def isinst(self, st, v, c):
        """-> True/False (may fork for unknown kinds)."""
        if type(c) is tuple:
            for x in c:
                if self.isinst(st, v, x):
                    return True
            return False
        if type(c) is not Ref or type(st.o(c)) is not ClsO:
            raise Unsupp('isinstance arg')
        k = self.cls_of(st, v)
        if k is None:
            return self.opaque_bool(st, ('isinstance', v, c))
        return c in st.o(k).mro

    def clsname(self, st, c):
        return st.o(c).name

    def tname(self, st, v):
        k = self.cls_of(st, v)
        return '?' if k is None else st.o(k).name

    # --------------------------------------------------------------------------------------------- exceptions
    def throw(self, st, name, msg=''):
        c = self.builtins[name]
        r = st.new(O(c, {'args': (msg,)}, None))
        raise PyExc(r)

    def exc_name(self, st, v):
        return st.o(st.o(v).cls).name

    def exc_names(self, st, v):
        return [st.o(c).name for c in st.o(st.o(v).cls).mro]

    # --------------------------------------------------------------------------------------------- scalars
    def norm(self, st, v):
        """Resolve a symbol whose set is a singleton to its constant."""
        if type(v) is Sym:
            i = st.syms[v.i]
            if i.dom is not None and is_one(i.dom):
                d = i.dom[0][0]
                return bool(d) if i.kind == 'bool' else d
        elif type(v) is Lin:
            c, t = v.c, []
            ch = False
            for s, k in v.t:
                d = st.syms[s].dom
                if is_one(d):
                    c += k * d[0][0]
                    ch = True
                else:
                    t.append((s, k))
            if ch:
                return Lin(c, tuple(t)) if t else c
        elif type(v) is Seq:
            return self.seqnorm(st, v)
        return v

    def seqnorm(self, st, v):
        if v.star:
            return v
        out = []
        for e in v.e:
            e = self.norm(st, e)
            if type(e) is not int and type(e) is not bool:
                return v
            out.append(e)
        return mkconst(v.kind, out)

    def raw(self, st, v):
        """Payload of an int/str/... subclass instance, or the value itself."""
        if type(v) is Ref:
            o = st.o(v)
            if type(o) is O and o.p is not None and type(o.p) not in (list, dict):
                return self.norm(st, o.p)
            return v
        return self.norm(st, v)

    def lin(self, st, v):
        """Lin form of an int-like value or None."""
        v = self.raw(st, v)
        if type(v) is bool or type(v) is int:
            return Lin(int(v), ())
        if type(v) is Lin:
            return v
        if type(v) is Sym and st.syms[v.i].kind in ('int', 'bool'):
            return Lin(0, ((v.i, 1),))
        return None

    def unlin(self, l):
        if not l.t:
            return l.c
        if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1:
            return Sym(l.t[0][0])
        return l

    def lin_range(self, st, l):
        lo = hi = l.c
        for s, k in l.t:
            d = st.syms[s].dom or ((0, 1),)
            a, b = d[0][0] * k, d[-1][1] * k
            if a > b:
                a, b = b, a
            lo += a
            hi += b
        if self.symdigits and len(l.t) > 1:
            b = st.facts.get(('t', 'lin', Lin(0, l.t)))
            if b is not None:
                d = st.syms[b.i].dom
                lo, hi = max(lo, d[0][0] + l.c), min(hi, d[-1][1] + l.c)
        return lo, hi

    def signs(self, st, l):
        """Possible signs of the affine form."""
        if not l.t:
            return frozenset(((l.c > 0) - (l.c < 0),))
        l = self.primitive(l)
        lo, hi = self.lin_range(st, l)
        out = set()
        if lo < 0:
            out.add(-1)
        if hi > 0:
            out.add(1)
        if lo <= 0 <= hi:
            if len(l.t) == 1:
                s, k = l.t[0]
                q, r = divmod(-l.c, k)
                if r == 0 and is_has(st.syms[s].dom or ((0, 1),), q):
                    out.add(0)
            else:
                out.add(0)
        if len(l.t) > 1:
            flip = l.t[0][1] < 0
            key = self.neg(l) if flip else l
            f = st.facts.get(('s', key.c, key.t))
            if f is not None:
                out &= {-x for x in f} if flip else set(f)
            # transfer from facts on the same linear part with another constant
            for fk, fs in st.facts.items():
                if fk[0] == 's' and fk[2] == key.t and fk[1] != key.c:
                    # key = other + (key.c - fk.c)
                    dlt = key.c - fk[1]
                    o2 = set()
                    if fs <= {1, 0} and dlt > 0:
                        o2 = {1}
                    elif fs <= {-1, 0} and dlt < 0:
                        o2 = {-1}
                    elif fs <= {1} and dlt == -1:
                        o2 = {0, 1}
                    elif fs <= {-1} and dlt == 1:
                        o2 = {0, -1}
                    if o2:
                        out &= {-x for x in o2} if flip else o2
        return frozenset(out)

    def neg(self, l):
        return Lin(-l.c, tuple((s, -k) for s, k in l.t))

    def add(self, a, b, sign=1):
        d = dict(a.t)
        for s, k in b.t:
            n = d.get(s, 0) + sign * k
            if n:
                d[s] = n
            else:
                d.pop(s, None)
        return Lin(a.c + sign * b.c, tuple(sorted(d.items())))

    def compare(self, st, op, a, b):
        """Integer comparison with forking refinement -> bool."""
        l = self.norm(st, self.add(a, b, -1))
        if type(l) is not Lin:
            s = (l > 0) - (l < 0)
            return s in _OPSIGN[op]
        true = _OPSIGN[op]
        pos = self.signs(st, l)
        if pos <= true:
            return True
        if not (pos & true):
            return False
        k = self.choose(st, 2)
        want = pos & true if k == 0 else pos - true
        wide = any(st.syms[s].wide for s, _ in l.t)
        if wide:
            st.imprecise = 'comparison on a widened value'
        self.refine(st, l, want)
        if st.frames:
            st.trace.append((st.frames[-1].where(), op, k == 0))
        return k == 0

    def primitive(self, l):
        """The form divided by the common factor of its coefficients: its sign is the same."""
        if len(l.t) < 2:
            return l
        g = 0
        for s, k in l.t:
            g = gcd(g, k)
        if g < 2 or l.c % g:
            return l
        return Lin(l.c // g, tuple((s, k // g) for s, k in l.t))

    def refine(self, st, l, want):
        l = self.primitive(l)
        if len(l.t) == 1:
            s, k = l.t[0]
            d = st.syms[s].dom or ((0, 1),)
            out = ()
            # k*x + c in want
            for w in want:
                if w == 0:
                    q, r = divmod(-l.c, k)
                    if r == 0:
                        out = is_or(out, is_and(d, ((q, q),)))
                elif (w > 0) == (k > 0):
                    # x > -c/k
                    bound = (-l.c) // k
                    out = is_or(out, is_and(d, ((bound + 1, INF),)))
                else:
                    bound = -(l.c // k) if (l.c % k == 0) else -((l.c) // k)
                    # x < -c/k
                    from fractions import Fraction
                    import math
                    q = Fraction(-l.c, k)
                    ub = math.ceil(q) - 1
                    out = is_or(out, is_and(d, ((-INF, ub),)))
            st.setdom(Sym(s), out)
            if self.symdigits:
                bitops.backprop(self, st, s)
            t = st.syms[s].term
            if t is not None and t[0] == '&' and len(t) == 3 and type(t[1]) is Sym and type(t[2]) is int:
                # the operand has to agree with the masked value
                d = st.syms[t[1].i].dom
                if d and d[0][0] >= 0 and d[-1][1] <= 255:
                    st.setdom(t[1], is_from(v for a, b in d for v in range(int(a), int(b) + 1) if is_has(out, v & t[2])))
            elif t is not None and t[0] == 'int' and len(t) == 3 and t[2] in (None, 10) and type(t[1]) is Seq and not t[1].star and out:
                # decimal digits whose value is known, or whose leading digits are
                lo, hi, n = out[0][0], out[-1][1], len(t[1].e)
                if lo >= 0 and hi < 10 ** n and all(type(x) is int or st.syms[x.i].kind == 'int' for x in t[1].e):
                    for a, b, x in zip(str(int(lo)).zfill(n), str(int(hi)).zfill(n), t[1].e):
                        if type(x) is Sym:
                            dx = is_and(st.syms[x.i].dom or (), ((ord(a), ord(b)),))
                            if not dx:
                                break
                            st.setdom(x, dx)
                        if a != b:
                            break
        else:
            flip = l.t[0][1] < 0
            key = self.neg(l) if flip else l
            w = frozenset(-x for x in want) if flip else frozenset(want)
            st.facts[('s', key.c, key.t)] = w
            if w == {0}:
                # a sum that is zero only with every term at the end of its range
                rs = [self.lin_range(st, Lin(0, (x,))) for x in key.t]
                lo, hi = sum(r[0] for r in rs), sum(r[1] for r in rs)
                if -key.c in (lo, hi) and lo != hi:
                    for (x, c), r in zip(key.t, rs):
                        v = r[0] if -key.c == lo else r[1]
                        if v % c == 0:
                            self.refine(st, Lin(-(v // c), ((x, 1),)), {0})
            if self.symdigits and w and key.t[0][1] > 0:
                b = numfmt.boxed(self, st, Lin(0, key.t))
                d = is_and(st.syms[b.i].dom, ((-INF if -1 in w else -key.c if 0 in w else -key.c + 1,
                                               INF if 1 in w else -key.c if 0 in w else -key.c - 1),))
                if d:
                    st.setdom(b, d)

    def opaque_bool(self, st, key, imprecise=False):
        key = ('b',) + key
        f = st.facts.get(key)
        if f is not None:
            return f
        k = self.choose(st, 2)
        st.facts[key] = (k == 0)
        if imprecise:
            st.imprecise = 'opaque predicate'
        if st.frames:
            st.trace.append((st.frames[-1].where(), str(key[1]), k == 0))
        return k == 0

    def inset(self, st, v, consts):
        """Membership of an int-like abstract value in a finite set of ints, forking; -> bool"""
        l = self.lin(st, v)
        if not l.t:
            return l.c in consts
        if len(l.t) == 1 and l.t[0][1] in (1, -1):
            s, k = l.t[0]
            d = st.syms[s].dom or ((0, 1),)
            want = is_from([(c - l.c) * k for c in consts])
            t = is_and(d, want)
            f = is_sub(d, want)
            if not t:
                return False
            if not f:
                return True
            ch = self.choose(st, 2)
            if st.syms[s].wide:
                st.imprecise = 'membership of a widened value'
            st.setdom(Sym(s), t if ch == 0 else f)
            if self.symdigits:
                bitops.backprop(self, st, s)
            if st.frames:
                st.trace.append((st.frames[-1].where(), 'in', ch == 0))
            return ch == 0
        if self.symdigits:
            return any(self.compare(st, '==', self.lin(st, self.norm(st, l)), Lin(c, ())) for c in sorted(consts))
        return self.opaque_bool(st, ('in', l, tuple(sorted(consts))), True)

    def indom(self, st, v, want):
        """Is the abstract scalar in the set? forking"""
        v = self.norm(st, v)
        if type(v) is int:
            return is_has(want, v)
        d = st.syms[v.i].dom
        t, f = is_and(d, want), is_sub(d, want)
        if not t or not f:
            return bool(t)
        ch = self.choose(st, 2)
        if st.syms[v.i].wide:
            st.imprecise = 'membership of a widened value'
        st.setdom(v, t if ch == 0 else f)
        if st.frames:
            st.trace.append((st.frames[-1].where(), 'in', ch == 0))
        return ch == 0

    # --------------------------------------------------------------------------------------------- truth
    def truth(self, st, v):
        """-> bool or TailCall (user-defined __bool__/__len__)."""
        v = self.norm(st, v)
        t = type(v)
        if t is Ref:
            o = st.o(v)
            if type(o) is not O:
                return True
            b = self.lookup(st, o.cls, '__bool__')
            if b is not UNDEF and type(b) is not NF:
                return TailCall(b, (v,))
            n = self.lookup(st, o.cls, '__len__')
            if n is not UNDEF and type(n) is not NF:
                return TailCall(n, (v,))
            if type(o.p) in (list, dict):
                if type(o.p) is list and len(o.p) and o.p[-1] is STAR:
                    if len(o.p) > 1:
                        return True
                    return self.opaque_bool(st, ('empty', v), True)
                return len(o.p) > 0
            if o.p is None:
                return True
            if type(o.p) is tuple:
                return len(o.p) > 0
            return self.truth(st, o.p)
        if t is Sym:
            i = st.syms[v.i]
            if i.kind in ('int', 'bool'):
                return not self.compare(st, '==', self.lin(st, v), Lin(0, ()))
            if i.kind == 'obj':
                b = self.lookup(st, i.cls, '__bool__')
                n = self.lookup(st, i.cls, '__len__')
                if b is UNDEF and n is UNDEF:
                    return True
            return self.opaque_bool(st, ('truth', v), i.wide)
        if t is Lin:
            return not self.compare(st, '==', v, Lin(0, ()))
        if t is Seq:
            if v.e:
                return True
            return self.opaque_bool(st, ('empty', v), True)
        if t in (BM, NF, Slice):
            return True
        return bool(v)

    # --------------------------------------------------------------------------------------------- hashing
    def hkey(self, st, v):
        v = self.norm(st, v)
        t = type(v)
        if t is Ref:
            o = st.o(v)
            if type(o) is O:
                h = self.lookup(st, o.cls, '__hash__')
                e = self.lookup(st, o.cls, '__eq__')
                if type(h) is Ref or (type(e) is Ref):
                    # user-defined equality: identity approximation (recorded as imprecise on lookups)
                    return ('u', v.a)
                if o.p is not None and type(o.p) not in (list, dict):
                    return self.hkey(st, o.p)
                if type(o.p) in (list, dict):
                    n = st.o(o.cls).name
                    self.throw(st, 'TypeError', "unhashable type: '%s'" % n)
            return ('r', v.a)
        if t is tuple:
            return ('t',) + tuple(self.hkey(st, x) for x in v)
        if t is bool:
            return int(v)
        if t is float:
            return int(v) if v == v and v not in (INF, -INF) and v == int(v) else v
        if t in (Sym, Lin, Seq):
            return ('a', v)
        if t in (BM, NF):
            return ('f', v)
        return v

    def isabs(self, st, v):
        v = self.raw(st, v)
        return type(v) in (Sym, Lin, Seq)

    # --------------------------------------------------------------------------------------------- attributes
    def getattr(self, st, v, name, default=UNDEF):
        """-> value | TailCall"""
        v0 = v
        if type(v) is Ref:
            o = st.o(v)
            to = type(o)
            if to is O:
                c = o.cls
                if c == self.types['super']:
                    return self.super_attr(st, o, name)
                a = self.lookup(st, c, name)
                if type(a) is Ref:
                    ao = st.o(a)
                    if type(ao) is O and ao.cls == self.types['property']:
                        return TailCall(ao.p[0], (v,))
                    if type(ao) is O:
                        g = self.lookup(st, ao.cls, '__get__')
                        if type(g) is Ref and (o.attrs is None or name not in o.attrs or
                                               self.lookup(st, ao.cls, '__set__') is not UNDEF):
                            return TailCall(g, (a, v, c))
                if o.attrs is not None and name in o.attrs:
                    return o.attrs[name]
                if a is not UNDEF:
                    return self.bind(st, a, v, c)
                if name == '__class__':
                    return c
                if name == '__dict__':
                    raise Unsupp('__dict__')
                g = self.lookup(st, c, '__getattr__')
                if g is not UNDEF:
                    return TailCall(g, (v, name))
            elif to is ModO:
                if name in o.d:
                    return o.d[name]
                if name == '__name__':
                    return o.name
                if name == '__dict__':
                    raise Unsupp('module __dict__')
            elif to is ClsO:
                if name == '__name__':
                    return o.name
                if name == '__qualname__':
                    return o.qual
                if name == '__bases__':
                    return tuple(o.bases)
                if name == '__mro__':
                    return tuple(o.mro)
                if name == '__class__':
                    return o.meta
                if name == '__dict__':
                    dd = {}
                    for k, x in o.d.items():
                        dd[k] = (k, x)
                    return st.new(O(self.types['dict'], None, dd))
                if name == '__doc__':
                    return o.d.get('__doc__')
                ma = self.lookup(st, o.meta, name)
                a = self.lookup(st, v, name)
                if a is not UNDEF:
                    if type(a) is Ref:
                        ao = st.o(a)
                        if type(ao) is O:
                            if ao.cls == self.types['staticmethod']:
                                return ao.p[0]
                            if ao.cls == self.types['classmethod']:
                                return BM(ao.p[0], v)
                            g = self.lookup(st, ao.cls, '__get__')
                            if type(g) is Ref:
                                return TailCall(g, (a, None, v))
                    return a
                if ma is not UNDEF:
                    return self.bind(st, ma, v, o.meta)
            elif to is FuncO:
                if name in ('__name__', '__qualname__'):
                    return o.name
                if name == '__defaults__':
                    return tuple(o.defaults) or None
                if name == '__doc__':
                    return o.attrs.get('__doc__')
                if name in o.attrs:
                    return o.attrs[name]
                if name == '__get__':
                    return BM(_FGET, v)
                if name == '__module__':
                    return st.o(o.globs).name
                if name == '__call__':
                    return v
                if name == '__class__':
                    return self.types['function']
            elif to in (GenO, IterO):
                a = self.lookup(st, self.cls_of(st, v), name)
                if a is not UNDEF:
                    return BM(a, v)
        elif type(v) is BM:
            if name == '__self__':
                return v.s
            if name == '__func__':
                return v.f
            return self.getattr(st, v.f, name, default)
        else:
            vv = self.norm(st, v)
            c = self.cls_of(st, vv)
            if c is None:
                raise Unsupp('attribute %r of unknown value' % name)
            if name == '__class__':
                return c
            if type(vv) is Sym and st.syms[vv.i].kind == 'obj':
                a = self.lookup(st, c, name)
                if a is not UNDEF:
                    return self.bind(st, a, v, c)
                key = ('attr', vv.i, name)
                f = st.facts.get(key)
                if f is not None:
                    return f
            else:
                a = self.lookup(st, c, name)
                if a is not UNDEF:
                    return self.bind(st, a, v, c)
            if type(vv) is NF and name == '__name__':
                return vv.name.split('.')[-1]
        self.host_has(st, v0, name)
        if default is not UNDEF:
            return default
        self.throw(st, 'AttributeError', "%s has no attribute '%s'" % (self.tname(st, v0), name))

    def host_has(self, st, v, name):
        """The real type has the attribute but no model does: the analysis does not know (never an error)."""
        c = self.cls_of(st, v)
        cs = list(st.o(c).mro) if c is not None else []
        if type(v) is Ref and type(st.o(v)) is ClsO:
            cs = list(st.o(v).mro) + cs
        for k in cs:
            if st.o(k).name == '_Moves':
                raise Unsupp('no model of six.moves.%s' % name)
            h = HOST.get(st.o(k).name)
            if h is not None and k == self.types.get(st.o(k).name, self.builtins.get(st.o(k).name)) \
                    and hasattr(h, name):
                raise Unsupp('no model of %s.%s' % (st.o(k).name, name))
        if type(v) is Ref and type(st.o(v)) is ModO and not st.o(v).name.startswith('amazon') \
                and _host_module_has(st.o(v).name, name):
            raise Unsupp('no model of %s.%s' % (st.o(v).name, name))

    def super_attr(self, st, o, name):
        cls, obj = o.p
        if type(obj) is Ref and type(st.o(obj)) is ClsO and self.issub(st, obj, cls):
            c, isc = obj, True
        else:
            c, isc = self.cls_of(st, obj), False
        if c is None:
            raise Unsupp('super of an unknown value')
        mro = list(st.o(c).mro)
        if cls not in mro:
            self.throw(st, 'TypeError', 'super(type, obj): obj must be an instance or subtype of type')
        for k in mro[mro.index(cls) + 1:]:
            d = st.o(k).d
            if name in d:
                a = d[name]
                if type(a) is Ref and type(st.o(a)) is O:
                    ao = st.o(a)
                    if ao.cls == self.types['staticmethod']:
                        return ao.p[0]
                    if ao.cls == self.types['classmethod']:
                        return BM(ao.p[0], c)
                if isc or (type(a) is NF and name == '__new__'):
                    return a
                return self.bind(st, a, obj, c)
        self.throw(st, 'AttributeError', "'super' object has no attribute '%s'" % name)

    def bind(self, st, a, v, c):
        if type(a) is Ref:
            ao = st.o(a)
            if type(ao) is FuncO:
                return BM(a, v)
            if type(ao) is O:
                if ao.cls == self.types['property']:
                    return TailCall(ao.p[0], (v,))
                if ao.cls == self.types['staticmethod']:
                    return ao.p[0]
                if ao.cls == self.types['classmethod']:
                    return BM(ao.p[0], c)
            return a
        if type(a) is NF:
            if a.name.startswith('@'):           # native getter
                return a.fn(self, st, (v,), {})
            return BM(a, v)
        return a

    def setattr(self, st, v, name, x, raw=False):
        if type(v) is not Ref:
            if type(v) is BM or isconst(v) or type(v) in (Sym, Seq, Lin, NF):
                self.throw(st, 'AttributeError', "%s has no attribute '%s'" % (self.tname(st, v), name))
            raise Unsupp('setattr on %r' % (v,))
        o = st.o(v)
        if type(o) is O:
            if not raw:
                g = self.lookup(st, o.cls, '__setattr__')
                if type(g) is Ref:
                    return TailCall(g, (v, name, x))
            a = self.lookup(st, o.cls, name)
            if type(a) is NF and a.name[:1] == '@':
                self.throw(st, 'AttributeError', "can't set attribute")
            if type(a) is Ref and type(st.o(a)) is O and st.o(a).cls == self.types['property']:
                p = st.o(a).p
                if len(p) < 2 or p[1] is None:
                    self.throw(st, 'AttributeError', "can't set attribute")
                return TailCall(p[1], (v, x))
            if type(a) is Ref and type(st.o(a)) is O:
                g = self.lookup(st, st.o(a).cls, '__set__')
                if type(g) is Ref:
                    return TailCall(g, (a, v, x))
            o = st.w(v, name)
            if o.attrs is None:
                o.attrs = {}
            o.attrs[name] = x
        elif type(o) in (ClsO, ModO):
            o = st.w(v, name)
            o.d[name] = x
        elif type(o) is FuncO:
            o = st.w(v, name)
            if name == '__defaults__':
                o.defaults = tuple(x) if x else ()
            elif name == '__name__':
                o.name = x
            else:
                o.attrs[name] = x
        else:
            raise Unsupp('setattr')
        return None

    # --------------------------------------------------------------------------------------------- calls
    def call(self, st, f, args, kw, then=None):
        """Start a call.  Natives are evaluated immediately and their value delivered."""
        while True:
            t = type(f)
            if t is BM:
                args = (f.s,) + tuple(args)
                f = f.f
                continue
            if t is NF:
                if f.name in ('generator.send', 'generator.__next__'):
                    if len(args) > 2:                      # next(gen, default)
                        then = ('nextdef', args[2], then)
                    self.resume(st, args[0], args[1] if len(args) > 1 else None, then)
                    return
                if f.name == 'generator.throw':
                    e = args[1]
                    if type(e) is Ref and type(st.o(e)) is ClsO:
                        e = st.new(O(e, {'args': tuple(args[2:3])}, None))
                    self.resume(st, args[0], None, then, e)
                    return
                v = self.native(st, f, args, kw, then)
                if v is _PENDING:
                    return
                if type(v) is TailCall:
                    if v.then is not None:
                        if then is not None:
                            # nested continuation: run v.then in a pass-through frame that returns to `then`
                            self.push_code(st, PASS_CODE, [], then)
                        then = v.then
                    f, args, kw = v.f, v.args, v.kw
                    continue
                self.deliver(st, v, then)
                return
            if t is Ref:
                o = st.o(f)
                if type(o) is FuncO:
                    fr = self.make_frame(st, f, o, args, kw)
                    if o.code.is_gen:
                        fr.then = None
                        g = GenO(fr)
                        r = st.new(g)
                        fr.gen = r
                        self.deliver(st, r, then)
                        return
                    fr.then = then
                    st.frames.append(fr)
                    if len(st.frames) > 120:
                        raise Unsupp('call depth')
                    return
                if type(o) is ClsO:
                    m = self.lookup(st, o.meta, '__call__')
                    if m is not UNDEF and type(m) is not NF:
                        f, args = m, (f,) + tuple(args)
                        continue
                    v = self.construct(st, f, o, args, kw, then)
                    if v is _PENDING:
                        return
                    f, args, kw, then = v.f, v.args, v.kw, v.then
                    continue
                if type(o) is O:
                    if o.cls == self.types['partial']:
                        pf, pa, pk = o.p
                        nk = dict(pk)
                        nk.update(kw)
                        f, args, kw = pf, tuple(pa) + tuple(args), nk
                        continue
                    m = self.lookup(st, o.cls, '__call__')
                    if m is not UNDEF:
                        f, args = m, (f,) + tuple(args)
                        continue
            if t is Sym:
                raise Unsupp('call of unknown value')
            self.throw(st, 'TypeError', "'%s' object is not callable" % self.tname(st, f))

    def native(self, st, f, args, kw, then):
        try:
            return f.fn(self, st, tuple(args), kw)
        except NeedIter as e:
            # collect argument idx through the prelude, then call again
            args = list(args)
            it = args[e.idx]
            self.call(st, self.prelude['collect'], (it,), {}, ('renative', f, tuple(args), dict(kw), e.idx, then))
            return _PENDING

    def construct(self, st, c, o, args, kw, then):
        new = self.lookup(st, c, '__new__')
        if type(new) is Ref and type(st.o(new)) is O and st.o(new).cls == self.types['staticmethod']:
            new = st.o(new).p[0]
        return TailCall(new, (c,) + tuple(args), kw, ('new', c, tuple(args), dict(kw), then))

    def make_frame(self, st, fref, fo, args, kw):
        code = fo.code
        fr = Frame()
        fr.code = code
        fr.pc = 0
        fr.stack = []
        fr.blocks = []
        fr.globs = fo.globs
        fr.ns = None
        fr.gen = None
        fr.then = None
        loc = {}
        names = code.argnames
        n = len(args)
        np_ = code.npos
        if n > np_:
            if code.vararg is None:
                self.throw(st, 'TypeError', '%s() takes %d positional arguments but %d were given'
                           % (fo.name, np_, n))
            for i in range(np_):
                loc[names[i]] = args[i]
            loc[code.vararg] = tuple(args[np_:])
        else:
            for i in range(n):
                loc[names[i]] = args[i]
            if code.vararg is not None:
                loc[code.vararg] = ()
        extra = {}
        for k, v in kw.items():
            if k in names or k in code.kwonly:
                if k in loc:
                    self.throw(st, 'TypeError', "%s() got multiple values for argument '%s'" % (fo.name, k))
                loc[k] = v
            elif code.kwarg is not None:
                extra[k] = (k, v)
            else:
                self.throw(st, 'TypeError', "%s() got an unexpected keyword argument '%s'" % (fo.name, k))
        if n < np_:
            nd = len(fo.defaults)
            for i in range(n, np_):
                if names[i] not in loc:
                    j = i - (np_ - nd)
                    if j < 0:
                        self.throw(st, 'TypeError', "%s() missing required argument: '%s'" % (fo.name, names[i]))
                    loc[names[i]] = fo.defaults[j]
        for k in code.kwonly:
            if k not in loc:
                if k not in fo.kwdef:
                    self.throw(st, 'TypeError', "%s() missing keyword-only argument: '%s'" % (fo.name, k))
                loc[k] = fo.kwdef[k]
        if code.kwarg is not None:
            loc[code.kwarg] = st.new(O(self.types['dict'], None, extra))
        cells = dict(fo.clos)
        for c in code.cellvars:
            cells[c] = st.new(CellO(loc.pop(c, UNDEF)))
        fr.loc = loc
        fr.cells = cells
        return fr

    def push_code(self, st, code, stack, then):
        self.visited.add(code.uid)
        fr = Frame()
        fr.code = code
        fr.pc = 0
        fr.loc = {}
        fr.cells = {}
        fr.stack = stack
        fr.blocks = []
        fr.globs = None
        fr.ns = None
        fr.gen = None
        fr.then = then
        st.frames.append(fr)

    def deliver(self, st, v, then):
        """Give value v to the continuation `then` of the current (caller) frame."""
        while True:
            if then is None or then[0] == 'foriter':
                st.frames[-1].stack.append(v)
                return
            k = then[0]
            if k == 'top':
                st.result = ('return', v)
                return
            if k == 'topyield':
                st.result = ('yield', v)
                return
            if k == 'drop':
                return
            if k == 'init' or k == 'const':
                v, then = then[1], then[2]
                continue
            # anything that may fork or call runs in its own little frame so that it can be re-executed
            self.push_code(st, CONT_CODE, [v, then], None)
            return

    def op_CONT(self, st, fr, arg):
        v, then = fr.stack
        st.frames.pop()
        depth = len(st.frames)
        try:
            self.cont(st, v, then)
        except NeedFork:
            del st.frames[depth:]
            st.frames.append(fr)
            raise

    def cont(self, st, v, then):
        k = then[0]
        if k == 'new':
            _, c, args, kw, th = then
            kc = self.cls_of(st, v)
            if kc is not None and self.issub(st, kc, c):
                init = self.lookup(st, kc, '__init__')
                if init is not UNDEF and not (type(init) is NF and init.name == 'object.__init__'):
                    self.call(st, init, (v,) + args, kw, ('init', v, th))
                    return
            self.deliver(st, v, th)
        elif k == 'renative':
            _, f, args, kw, idx, th = then
            a = list(args)
            a[idx] = v
            self.call(st, f, tuple(a), kw, th)
        elif k == 'truth' or k == 'nottruth':
            b = self.truth(st, v)
            if type(b) is TailCall:
                self.call(st, b.f, b.args, b.kw, then)
                return
            self.deliver(st, b if k == 'truth' else not b, then[1])
        elif k == 'cmpfall':
            # __eq__ result; NotImplemented falls back to identity
            _, op, a, b, neg, th = then
            if v is NotImplemented:
                v = self.identical(st, a, b)
            if neg:
                t = self.truth(st, v)
                if type(t) is TailCall:
                    self.call(st, t.f, t.args, t.kw, ('nottruth', th))
                    return
                v = not t
            self.deliver(st, v, th)
        elif k == 'defaultset':
            _, d, key, th = then
            self.dict_set(st, d, key, v)
            self.deliver(st, v, th)
        elif k == 'nativecont':
            _, fn, th = then
            r = fn(self, st, v)
            if type(r) is TailCall:
                if r.then is not None:
                    if th is not None:
                        self.push_code(st, PASS_CODE, [], th)
                    th = r.then
                self.call(st, r.f, r.args, r.kw, th)
                return
            self.deliver(st, r, th)
        elif k == 'nextdef':
            self.deliver(st, v, then[2])
        else:
            raise Unsupp('cont ' + k)

    def resume(self, st, gref, val, then, exc=None):
        """Resume a generator with a value (or throw exc into it)."""
        g = st.o(gref)
        if g.status == 'run':
            self.throw(st, 'ValueError', 'generator already executing')
        if g.status == 'done':
            if exc is not None:
                raise PyExc(exc)
            return self.gen_return(st, None, then)
        new = g.status == 'new'
        g = st.w(gref)
        fr = g.frame.copy()
        fr.then = then
        g.status = 'run'
        if not new:
            fr.stack.append(val)
        elif val is not None:
            g.status = 'new'
            self.throw(st, 'TypeError', "can't send non-None value to a just-started generator")
        st.frames.append(fr)
        if exc is not None:
            self.unwind(st, exc)

    def gen_return(self, st, v, then):
        """A generator finished: StopIteration semantics according to the continuation in the resumer."""
        if then is not None and then[0] == 'foriter':
            fr = st.frames[-1]
            fr.stack.pop()
            fr.pc = then[1]
            return
        if then is not None and then[0] == 'yfrom':
            fr = st.frames[-1]
            fr.stack.pop()
            fr.stack.append(v)
            fr.pc = then[1]
            return
        if then is not None and then[0] == 'nextdef':
            self.deliver(st, then[1], then[2])
            return
        c = self.builtins['StopIteration']
        raise PyExc(st.new(O(c, {'args': (v,), 'value': v}, None)))

    def unwind(self, st, exc):
        eo = st.o(exc)
        if type(eo) is O and st.frames and (eo.attrs is None or '__tb__' not in eo.attrs):
            eo = st.w(exc)
            if eo.attrs is None:
                eo.attrs = {}
            tb = []
            for fr in reversed(st.frames):
                if fr.code.filename != '<driver>':
                    tb.append((fr.code.filename, fr.where()))
                if len(tb) > 5:
                    break
            eo.attrs['__tb__'] = tuple(tb)
        while st.frames:
            fr = st.frames[-1]
            if fr.blocks:
                pc, n = fr.blocks.pop()
                del fr.stack[n:]
                fr.stack.append(exc)
                fr.pc = pc
                return
            st.frames.pop()
            if fr.gen is not None:
                g = st.w(fr.gen)
                g.status = 'done'
                if st.o(exc).cls == self.builtins['StopIteration']:
                    exc = st.new(O(self.builtins['RuntimeError'], {'args': ('generator raised StopIteration',)}, None))
        st.result = ('raise', exc)

    # --------------------------------------------------------------------------------------------- driver API
    def run(self, st, max_steps=None, max_out=20000):
        """Explore all paths from st until its top call completes; -> list of Outcomes."""
        out = []
        work = [st]
        budget = max_steps or self.max_steps
        while work:
            s = work.pop()
            while s.result is None:
                fr = s.frames[-1]
                pc = fr.pc
                op, arg = fr.code.instrs[pc]
                saved = fr.stack[:]
                if s.script:
                    snap = (dict(s.syms), dict(s.facts), len(s.trace), s.imprecise)
                else:
                    snap = None
                try:
                    fr.pc = pc + 1
                    s.mut = 0
                    if self.track_cov:
                        self.visited.add((fr.code.uid, pc))
                    self.ops[op](s, fr, arg)
                    s.steps += 1
                    if snap is not None:
                        s.si = 0
                        s.script = []
                    budget -= 1
                    if budget < 0:
                        s.result = self.divergence(s) or ('unknown', 'step budget')
                except NeedFork as e:
                    # undo, then re-execute this instruction once per alternative
                    d = fr_depth(s, fr)
                    if d is None:
                        raise RuntimeError('fork after frame pop at %s' % fr.where())
                    del s.frames[d + 1:]
                    fr.stack = saved
                    fr.pc = pc
                    if snap is not None:
                        s.syms, s.facts, s.imprecise = snap[0], snap[1], snap[3]
                        del s.trace[snap[2]:]
                    s.si = 0
                    for i in range(e.n - 1, 0, -1):
                        c = s.clone()
                        c.script.append(i)
                        work.append(c)
                    s.script = s.script + [0]
                    if len(work) > max_out:
                        s.result = ('unknown', 'too many paths')
                except PyExc as e:
                    s.si = 0
                    s.script = []
                    try:
                        self.unwind(s, e.v)
                    except Unsupp as e2:
                        s.result = ('unknown', str(e2))
                except Unsupp as e:
                    s.si = 0
                    s.script = []
                    s.result = ('unknown', '%s at %s' % (e, s.frames[-1].where() if s.frames else '?'))
            k, v = s.result
            s.result = None
            if self.strict and s.imprecise and k not in ('unknown', 'diverge'):
                k, v = 'unknown', 'imprecise: %s' % s.imprecise     # the path may not exist: nothing is concluded from it
            if k in ('unknown', 'diverge'):
                s.frames = []
            out.append(Outcome(s, k, v))
        return out

    strict = False              # paths that rest on an unfounded case split count as undecided (the writer explorations)
    fingerprint = None          # state -> hashable; set by the driver that wants non-termination decided

    def divergence(self, s):
        """The step budget ran out.  Does this path provably run forever?  It does when, without any case split in between,
        the whole state (frames and reachable heap, up to renaming of addresses) repeats: execution is deterministic."""
        if self.fingerprint is None or s.imprecise or s.result is not None or not s.frames:
            return None
        c = s.clone()

        def step():
            fr = c.frames[-1]
            op, arg = fr.code.instrs[fr.pc]
            fr.pc += 1
            c.mut = 0
            self.ops[op](c, fr, arg)
            if c.result is not None or not c.frames:
                raise Unsupp('ended')

        def quiet():
            try:
                step()
            except PyExc as e:
                self.unwind(c, e.v)
                if c.result is not None:
                    raise Unsupp('ended')
        try:
            count = {}
            for _ in range(4000):
                fr = c.frames[-1]
                k = (len(c.frames), fr.code.uid, fr.pc)
                count[k] = count.get(k, 0) + 1
                quiet()
            anchors = [k for k in count if count[k] >= 4]
            if not anchors:
                return None
            a = min(anchors)
            seen = set()
            for _ in range(40000):
                fr = c.frames[-1]
                if (len(c.frames), fr.code.uid, fr.pc) == a:
                    k = self.fingerprint(c)
                    if k in seen:
                        fs = [f.where() for f in c.frames if f.code.filename != '<driver>' and
                              not str(f.code.filename).startswith('prelude')]
                        return 'diverge', (fs or ['?'])[-1]
                    seen.add(k)
                    if len(seen) > 24:
                        return None
                quiet()
        except (NeedFork, Unsupp):
            return None
        return None

    def call_all(self, st, f, args=(), kw=None, **k):
        """Call f abstractly; explores all paths. st is consumed."""
        self.guard(st, f, args, kw)
        return self.run(st, **k)

    def guard(self, st, f, args, kw):
        # Wrap the call into a trampoline frame so that natives may fork.
        kwn = tuple((kw or {}).keys())
        c = small_code([('CALL', (len(args), kwn)), ('RETURN', None)])
        self.push_code(st, c, [f] + list(args) + [kw[k] for k in kwn], ('top',))

    def resume_all(self, st, gref, val=None, **k):
        """Resume generator gref with val and explore until it yields, returns or raises."""
        self.push_code(st, small_code([('RESUME', None), ('RETURN', None)]), [gref, val], ('top',))
        return self.run(st, **k)

    def op_RESUME(self, st, fr, arg):
        g, val = fr.stack
        fr.stack = []
        self.resume(st, g, val, None)

    # --------------------------------------------------------------------------------------------- helpers
    def identical(self, st, a, b):
        a = self.norm(st, a)
        b = self.norm(st, b)
        ta, tb = type(a), type(b)
        if ta is Ref or tb is Ref:
            return ta is tb and a.a == b.a
        if ta is Sym or tb is Sym or ta is Lin or tb is Lin:
            if a == b:
                return True
            if ta is Sym and st.syms[a.i].kind == 'any' or tb is Sym and st.syms[b.i].kind == 'any':
                return self.opaque_bool(st, ('is', a, b))
            if a is None or b is None or ta is bool and not self.intlike(st, b) or tb is bool and not self.intlike(st, a):
                return False
            la, lb = self.lin(st, a), self.lin(st, b)
            if la is not None and lb is not None:
                ka, kb = self.kindof(st, a), self.kindof(st, b)
                if ka != kb:
                    return False
                return self.compare(st, '==', la, lb)
            ca, cb = self.cls_of(st, a), self.cls_of(st, b)
            if ca != cb:
                return False
            return self.opaque_bool(st, ('is', a, b))
        if ta is Seq or tb is Seq:
            if a == b:
                return True
            # one-element bytes/str objects are cached by the interpreters: identity is value equality
            if self.kindof(st, a) == self.kindof(st, b) and self.seqlen1(a) and self.seqlen1(b):
                return self.seq_eq(st, a, b)
            return False
        if ta is BM or tb is BM:
            return False
        if ta is tuple or tb is tuple:
            return ta is tb and len(a) == len(b) == 0 or a is b
        return ta is tb and (a is b or a == b)

    def has_run(self, st, e):
        for x in e:
            if type(x) is Sym and st.syms[x.i].kind == 'run':
                return True
        return False

    def seqlen1(self, v):
        if type(v) is Seq:
            return len(v.e) == 1 and not v.star
        return len(v) == 1

    def intlike(self, st, v):
        return self.kindof(st, v) in ('int', 'bool')

    def kindof(self, st, v):
        t = type(v)
        if t is Sym:
            return st.syms[v.i].kind
        if t is Lin:
            return 'int'
        if t is Seq:
            return v.kind
        if t is Ref:
            return 'ref'
        return t.__name__

    def seq_eq(self, st, a, b):
        ea, sa = self.elems(st, a)
        eb, sb = self.elems(st, b)
        if sa or sb:
            n = min(len(ea), len(eb))
            if (not sa and len(eb) > len(ea)) or (not sb and len(ea) > len(eb)):
                return False
            for x, y in zip(ea, eb):
                lx, ly = self.lin(st, x), self.lin(st, y)
                if lx is None or ly is None:
                    break
                if not (self.signs(st, self.add(lx, ly, -1)) & {0}):
                    return False
            st.imprecise = 'comparison of a widened sequence'
            return self.opaque_bool(st, ('seqeq', a, b), True)
        if self.has_run(st, ea) or self.has_run(st, eb):
            for x, y in zip(ea, eb):
                if self.has_run(st, (x, y)):
                    break
                if x != y and not self.compare(st, '==', self.lin(st, x), self.lin(st, y)):
                    return False
            st.imprecise = 'comparison of a widened sequence'
            return self.opaque_bool(st, ('seqeq', a, b), True)
        if len(ea) != len(eb):
            return False
        for x, y in zip(ea, eb):
            if x == y:
                continue
            if not self.compare(st, '==', self.lin(st, x), self.lin(st, y)):
                return False
        return True

    def elems(self, st, v):
        """Elements of str/bytes/bytearray-like value -> (list of int|Sym, star)"""
        v = self.raw(st, v)
        if type(v) is Seq:
            return list(v.e), v.star
        if type(v) is str:
            return [ord(c) for c in v], False
        if type(v) is bytes:
            return list(v), False
        if type(v) is Ref:
            o = st.o(v)
            if type(o) is O and type(o.p) is list:
                if o.p and o.p[-1] is STAR:
                    return o.p[:-1], True
                return list(o.p), False
        if type(v) is Sym and st.syms[v.i].kind in ('str', 'bytes'):
            return [], True
        raise Unsupp('elems of %r' % (v,))

    def equal(self, st, a, b):
        """Rich equality -> bool | TailCall"""
        a0, b0 = a, b
        if type(a) is Ref or type(b) is Ref:
            if type(a) is Ref and type(b) is Ref and a.a == b.a:
                o = st.o(a)
                if type(o) is not O or type(self.lookup(st, o.cls, '__eq__')) is not Ref:
                    return True
            for x, y in ((a, b), (b, a)):
                if type(x) is Ref:
                    o = st.o(x)
                    if type(o) is O:
                        e = self.lookup(st, o.cls, '__eq__')
                        if type(e) in (Ref, NF):
                            return TailCall(e, (x, y), None, ('cmpfall', '==', x, y, False, None))
        a, b = self.raw(st, a), self.raw(st, b)
        ta, tb = type(a), type(b)
        if ta is Ref or tb is Ref:
            if ta is Ref and tb is Ref:
                oa, ob = st.o(a), st.o(b)
                if type(oa) is O and type(ob) is O and type(oa.p) in (list, dict) and type(oa.p) is type(ob.p):
                    ka = self.base_kind(st, oa.cls)
                    kb = self.base_kind(st, ob.cls)
                    if ka == 'bytearray' and kb == 'bytearray':
                        return self.seq_eq(st, a, b)
                    if ka != kb:
                        return False
                    if type(oa.p) is list:
                        if len(oa.p) != len(ob.p):
                            return False
                        return self.all_equal(st, list(zip(oa.p, ob.p)))
                    if set(oa.p) != set(ob.p):
                        return False
                    return self.all_equal(st, [(oa.p[k][1], ob.p[k][1]) if len(oa.p[k]) > 1 else (0, 0)
                                               for k in oa.p])
                return a.a == b.a
            x, y = (a, b) if ta is Ref else (b, a)
            o = st.o(x)
            if type(o) is O and type(o.p) is list and self.base_kind(st, o.cls) == 'bytearray' \
                    and self.kindof(st, y) == 'bytes':
                return self.seq_eq(st, x, y)
            if type(y) is Sym and st.syms[y.i].kind == 'any':
                return self.opaque_bool(st, ('==', a, b))
            return False
        la = self.lin(st, a)
        lb = self.lin(st, b)
        if la is not None and lb is not None:
            return self.compare(st, '==', la, lb)
        z = self.dec_cmp(st, '==', a, b, la, lb)
        if z is not None:
            return z
        ka, kb = self.kindof(st, a), self.kindof(st, b)
        if ka in ('str', 'bytes') and kb in ('str', 'bytes'):
            if ka != kb:
                return False
            if ta is Sym or tb is Sym:
                if a == b:
                    return True
                return self.opaque_bool(st, ('==', a, b))
            if ta is Seq or tb is Seq:
                if a == b and not a.star:
                    return True
                return self.seq_eq(st, a, b)
            return a == b
        if ta is tuple and tb is tuple:
            if len(a) != len(b):
                return False
            return self.all_equal(st, list(zip(a, b)))
        if ta in (Sym, Lin) or tb in (Sym, Lin):
            if a == b:
                i = st.syms[a.i] if ta is Sym else None
                if i is None or i.kind in ('int', 'str', 'bytes', 'bool', 'obj'):
                    return True
            num = ('int', 'bool', 'float')
            if ka in ('any', 'obj') or kb in ('any', 'obj'):
                if (ka == 'obj' and (b is None or kb in ('str', 'bytes', 'tuple'))) or \
                        (kb == 'obj' and (a is None or ka in ('str', 'bytes', 'tuple'))):
                    return False
                return self.opaque_bool(st, ('==', a, b))
            if ka in num and kb in num:
                z = self.float_cmp(st, '==', a, b)
                return z if z is not None else self.opaque_bool(st, ('==', a, b))
            return False
        if ta in (Seq, BM, NF) or tb in (Seq, BM, NF):
            return a == b
        if type(a) is float and a != a:
            return False
        return a == b

    def all_equal(self, st, pairs):
        """Conjunction of equalities.  Element comparisons that need user code become a prelude call."""
        for i, (x, y) in enumerate(pairs):
            r = self.equal(st, x, y)
            if type(r) is TailCall:
                rest = tuple(pairs[i:])
                return TailCall(self.prelude['all_eq'], (rest,))
            if not r:
                return False
        return True

    def base_kind(self, st, c):
        for k in st.o(c).mro:
            n = st.o(k).native
            if n:
                return n
        return None

    # --------------------------------------------------------------------------------------------- dict ops
    def dict_get(self, st, d, key, default=UNDEF):
        """d: Ref to dict object.  Forks on abstract keys; -> value or UNDEF"""
        o = st.o(d)
        k = self.raw(st, key)
        if type(key) is Ref and type(st.o(key)) is O:
            hk = self.hkey(st, key)
            if type(hk) is tuple and hk and hk[0] == 'u':
                raise Unsupp('dict lookup with a key that defines __eq__')
        if type(k) in (Sym, Lin):
            l = self.lin(st, k)
            if l is not None:
                hk = ('a', self.norm(st, k))
                if hk in o.p:
                    return o.p[hk][1]
                groups = {}
                order = []
                for kk, (_, v) in o.p.items():
                    if type(kk) is int:
                        g = v if not isinstance(v, (list, dict)) else id(v)
                        try:
                            groups.setdefault((type(v).__name__, v), []).append(kk)
                        except TypeError:
                            groups.setdefault(id(v), []).append(kk)
                    elif type(kk) is tuple and kk and kk[0] == 'a' and self.lin(st, kk[1]) is not None:
                        if self.compare(st, '==', l, self.lin(st, kk[1])):
                            return o.p[kk][1]
                glist = list(groups.values())
                feas = []
                rest = None
                if len(l.t) == 1 and l.t[0][1] == 1:
                    s = l.t[0][0]
                    dom = st.syms[s].dom
                    for g in glist:
                        w = is_and(dom, is_from([x - l.c for x in g]))
                        if w:
                            feas.append((w, o.p[g[0]][1]))
                    allk = is_from([x - l.c for g in glist for x in g])
                    rest = is_sub(dom, allk)
                    n = len(feas) + (1 if rest else 0)
                    i = self.choose(st, n)
                    if n > 1 and st.syms[s].wide:
                        st.imprecise = 'table lookup by a widened value'
                    if i < len(feas):
                        st.setdom(Sym(s), feas[i][0])
                        return feas[i][1]
                    st.setdom(Sym(s), rest)
                    return UNDEF
                for g in glist:
                    if self.inset(st, k, g):
                        return o.p[g[0]][1]
                return UNDEF
            # opaque non-int key
            hk = ('a', k)
            if hk in o.p:
                return o.p[hk][1]
            for kk, (_, v) in list(o.p.items()):
                e = self.equal(st, k, o.p[kk][0])
                if type(e) is TailCall:
                    raise Unsupp('dict key equality')
                if e:
                    return v
            return UNDEF
        if type(k) is Seq:
            hk = ('a', k)
            if hk in o.p and not k.star:
                return o.p[hk][1]
            for kk, (k0, v) in list(o.p.items()):
                if self.kindof(st, k0) == k.kind:
                    if self.seq_eq(st, k, k0):
                        return v
            return UNDEF
        hk = self.hkey(st, k)
        e = o.p.get(hk, UNDEF)
        if e is not UNDEF:
            return e[1]
        # abstract keys present?
        for kk, (k0, v) in list(o.p.items()):
            if type(kk) is tuple and kk and kk[0] == 'a':
                r = self.equal(st, k0, k)
                if type(r) is TailCall:
                    raise Unsupp('dict key equality')
                if r:
                    return v
        return UNDEF

    def dict_find(self, st, d, key):
        """hkey under which an equal key is stored, or UNDEF."""
        o = st.o(d)
        k = self.raw(st, key)
        hk = self.hkey(st, k)
        if hk in o.p:
            return hk
        if type(k) in (Sym, Lin, Seq):
            for kk, ent in list(o.p.items()):
                r = self.equal(st, k, ent[0] if type(ent) is tuple else ent)
                if type(r) is TailCall:
                    raise Unsupp('dict key equality')
                if r:
                    return kk
        else:
            for kk, ent in list(o.p.items()):
                if type(kk) is tuple and kk and kk[0] == 'a':
                    r = self.equal(st, k, ent[0] if type(ent) is tuple else ent)
                    if r is True:
                        return kk
        return UNDEF

    def dict_set(self, st, d, key, v):
        hk = self.dict_find(st, d, key)
        if hk is UNDEF:
            hk = self.hkey(st, self.raw(st, key))
            o = st.w(d, hk)
            o.p[hk] = (key, v)
        else:
            o = st.w(d, hk)
            o.p[hk] = (o.p[hk][0], v)

    def mkdict(self, st, items):
        d = {}
        for k, v in items:
            d[self.hkey(st, k)] = (k, v)
        return st.new(O(self.types['dict'], None, d))

    def mklist(self, st, items):
        return st.new(O(self.types['list'], None, list(items)))

    # --------------------------------------------------------------------------------------------- iteration
    def concrete_iter(self, st, v):
        """List of elements if v is natively iterable without user code, else None."""
        v = self.norm(st, v)
        if type(v) is tuple:
            return list(v)
        if type(v) in (str,):
            return list(v)
        if type(v) is bytes:
            return list(v)
        if type(v) is Seq:
            if v.star:
                raise Unsupp('iteration over a widened sequence')
            if v.kind == 'bytes':
                return list(v.e)
            return [self.seqnorm(st, Seq('str', (e,))) for e in v.e]
        if type(v) is Ref:
            o = st.o(v)
            if type(o) is O:
                if type(self.lookup(st, o.cls, '__iter__')) is Ref:
                    return None
                if type(o.p) is list:
                    if o.p and o.p[-1] is STAR:
                        raise Unsupp('iteration over a widened sequence')
                    return list(o.p)
                if type(o.p) is dict:
                    return [(e[0] if type(e) is tuple else e.k) for e in o.p.values()] \
                        if self.base_kind(st, o.cls) != 'set' else [e[0] for e in o.p.values()]
                if type(o.p) is tuple:
                    return list(o.p)
                if type(o.p) in (str, bytes, Seq):
                    return self.concrete_iter(st, o.p)
            if type(o) is IterO:
                if o.kind == 'seq':
                    src = o.p if type(o.p) is tuple else self.concrete_iter(st, o.p)
                    return list(src[o.i:])
                return None
        if type(v) is Sym:
            raise Unsupp('iteration over an unknown value')
        return None

    def iterate(self, st, v):
        """iter(v) -> value | TailCall"""
        v = self.norm(st, v)
        if type(v) is Ref:
            o = st.o(v)
            if type(o) in (GenO, IterO):
                return v
            if type(o) is ClsO:
                m = self.lookup(st, o.meta, '__iter__')
                if m is UNDEF or type(m) is NF:
                    self.throw(st, 'TypeError', 'type object is not iterable')
                return TailCall(m, (v,))
            if type(o) is O:
                m = self.lookup(st, o.cls, '__iter__')
                if type(m) is Ref:
                    return TailCall(m, (v,))
                if type(o.p) is list:
                    return st.new(IterO('list', v))
                if type(o.p) is dict or type(o.p) in (tuple, str, bytes, Seq):
                    return st.new(IterO('seq', tuple(self.concrete_iter(st, v))))
                if self.lookup(st, o.cls, '__next__') is not UNDEF:
                    return v
                if self.lookup(st, o.cls, '__getitem__') is not UNDEF:
                    return TailCall(self.prelude['getitem_iter'], (v,))
        elif type(v) is Seq and (v.star or self.has_run(st, v.e)):
            for n, x in enumerate(v.e):
                if self.has_run(st, (x,)):
                    v = Seq(v.kind, v.e[:n], True)
                    break
            return st.new(IterO('star', v))
        else:
            if type(v) is Sym:
                raise Unsupp('iter of unknown')
            c = self.concrete_iter(st, v)
            if c is not None:
                return st.new(IterO('seq', tuple(c)))
        self.throw(st, 'TypeError', "'%s' object is not iterable" % self.tname(st, v))

    def iter_next(self, st, it):
        """For IterO: -> (True, value) or (False, None)"""
        o = st.o(it)
        if o.kind == 'seq':
            if o.i < len(o.p):
                v = o.p[o.i]
                st.w(it).i += 1
                return True, v
            return False, None
        if o.kind == 'list':
            p = st.o(o.p).p
            if o.i < len(p):
                v = p[o.i]
                if v is STAR:
                    return self.star_next(st, it, o, 'int')
                st.w(it).i += 1
                return True, v
            return False, None
        if o.kind == 'star':
            e = o.p.e
            if o.i < len(e):
                v = e[o.i]
                st.w(it).i += 1
                if o.p.kind == 'str':
                    v = self.seqnorm(st, Seq('str', (v,)))
                return True, v
            return self.star_next(st, it, o, 'int' if o.p.kind == 'bytes' else 'str')
        if o.kind == 'count':
            v = o.i
            st.w(it).i += 1
            return True, v
        if o.kind == 'repeat':
            v, n = o.p
            if n is None:
                return True, v
            if self.compare(st, '<', Lin(o.i, ()), self.lin(st, n)):
                st.w(it).i += 1
                return True, v
            return False, None
        if o.kind == 'range':
            lo, hi = o.p
            cur = self.add(self.lin(st, lo), Lin(o.i, ()))
            if self.compare(st, '<', cur, self.lin(st, hi)):
                st.w(it).i += 1
                return True, self.unlin(cur)
            return False, None
        raise Unsupp('iter kind ' + o.kind)

    def star_next(self, st, it, o, kind):
        st.imprecise = 'iteration over a widened sequence'
        n = len(o.p.e) if o.kind == 'star' else len(st.o(o.p).p) - 1
        if o.i > n or self.choose(st, 2) == 0:
            return False, None
        st.imprecise = 'iteration over a widened sequence'
        st.w(it).i += 1
        if kind == 'int':
            return True, st.sym('int', CHAR, None, None, True)
        return True, Seq('str', (st.sym('int', CHAR, None, None, True),))

    # =============================================================================================== instructions
    def op_CONST(self, st, fr, arg):
        fr.stack.append(arg)

    def op_LOADL(self, st, fr, arg):
        v = fr.loc.get(arg, UNDEF)
        if v is UNDEF:
            self.throw(st, 'UnboundLocalError', "local variable '%s' referenced before assignment" % arg)
        fr.stack.append(v)

    def op_STOREL(self, st, fr, arg):
        fr.loc[arg] = fr.stack.pop()

    def op_DELL(self, st, fr, arg):
        fr.loc.pop(arg, None)

    def op_LOADG(self, st, fr, arg):
        d = st.o(fr.globs).d
        if arg in d:
            fr.stack.append(d[arg])
        elif arg in self.builtins:
            fr.stack.append(self.builtins[arg])
        else:
            import builtins
            if hasattr(builtins, arg):
                raise Unsupp('no model of builtin ' + arg)
            self.throw(st, 'NameError', "name '%s' is not defined" % arg)

    def op_STOREG(self, st, fr, arg):
        st.w(fr.globs, arg).d[arg] = fr.stack.pop()

    def op_DELG(self, st, fr, arg):
        st.w(fr.globs, arg).d.pop(arg, None)

    def op_LOADC(self, st, fr, arg):
        v = st.o(fr.cells[arg]).v
        if v is UNDEF:
            self.throw(st, 'UnboundLocalError', "free variable '%s' referenced before assignment" % arg)
        fr.stack.append(v)

    def op_STOREC(self, st, fr, arg):
        st.w(fr.cells[arg], arg).v = fr.stack[-1]
        fr.stack.pop()

    def op_DELC(self, st, fr, arg):
        st.w(fr.cells[arg], arg).v = UNDEF

    def op_LOADN(self, st, fr, arg):
        d = st.o(fr.ns).p
        if arg in d:
            fr.stack.append(d[arg][1])
        else:
            self.op_LOADG(st, fr, arg)

    def op_LOADNC(self, st, fr, arg):
        d = st.o(fr.ns).p
        if arg in d:
            fr.stack.append(d[arg][1])
        else:
            self.op_LOADC(st, fr, arg)

    def op_STOREN(self, st, fr, arg):
        st.w(fr.ns).p[arg] = (arg, fr.stack.pop())

    def op_DELN(self, st, fr, arg):
        st.w(fr.ns).p.pop(arg, None)

    def op_POP(self, st, fr, arg):
        fr.stack.pop()

    def op_DUP(self, st, fr, arg):
        fr.stack.append(fr.stack[-1])

    def op_DUP2(self, st, fr, arg):
        fr.stack.extend(fr.stack[-2:])

    def op_ROT2(self, st, fr, arg):
        s = fr.stack
        s[-1], s[-2] = s[-2], s[-1]

    def op_ROT3(self, st, fr, arg):
        s = fr.stack
        s[-1], s[-2], s[-3] = s[-2], s[-3], s[-1]

    def op_ATTR(self, st, fr, arg):
        v = self.getattr(st, fr.stack[-1], arg)
        fr.stack.pop()
        if type(v) is TailCall:
            self.call(st, v.f, v.args, v.kw, v.then)
        else:
            fr.stack.append(v)

    def op_SETATTR(self, st, fr, arg):
        o = fr.stack[-1]
        v = fr.stack[-2]
        r = self.setattr(st, o, arg, v)
        del fr.stack[-2:]
        if type(r) is TailCall:
            self.call(st, r.f, r.args, r.kw, ('drop',))

    def op_DELATTR(self, st, fr, arg):
        o = fr.stack.pop()
        x = st.w(o, arg)
        if type(x) is O and x.attrs and arg in x.attrs:
            del x.attrs[arg]
        else:
            self.throw(st, 'AttributeError', arg)

    def op_SUB(self, st, fr, arg):
        s = fr.stack
        v = self.getitem(st, s[-2], s[-1])
        del s[-2:]
        if type(v) is TailCall:
            self.call(st, v.f, v.args, v.kw, v.then)
        else:
            s.append(v)

    def op_SETSUB(self, st, fr, arg):
        s = fr.stack
        r = self.setitem(st, s[-2], s[-1], s[-3])
        del s[-3:]
        if type(r) is TailCall:
            self.call(st, r.f, r.args, r.kw, ('drop',))

    def op_DELSUB(self, st, fr, arg):
        s = fr.stack
        r = self.delitem(st, s[-2], s[-1])
        del s[-2:]
        if type(r) is TailCall:
            self.call(st, r.f, r.args, r.kw, ('drop',))

    def index_const(self, st, i, n):
        """Normalise an index to a concrete int; forks never."""
        i = self.raw(st, i)
        if type(i) is bool:
            i = int(i)
        if type(i) is not int:
            return None
        if i < 0:
            i += n
        return i

    def getitem(self, st, v, i):
        v = self.norm(st, v)
        t = type(v)
        if t is Ref:
            o = st.o(v)
            if type(o) is ClsO:
                m = self.lookup(st, o.meta, '__getitem__')
                if m is UNDEF:
                    self.throw(st, 'TypeError', 'type is not subscriptable')
                return TailCall(m, (v, i))
            if type(o) is O:
                m = self.lookup(st, o.cls, '__getitem__')
                if type(m) is Ref:
                    return TailCall(m, (v, i))
                if type(o.p) is dict:
                    r = self.dict_get(st, v, i)
                    if r is UNDEF:
                        ms = self.lookup(st, o.cls, '__missing__')
                        if ms is not UNDEF:
                            if type(ms) is NF:
                                return ms.fn(self, st, (v, i), {})
                            return TailCall(ms, (v, i))
                        raise PyExc(st.new(O(self.builtins['KeyError'], {'args': (i,)}, None)))
                    return r
                if type(o.p) is list:
                    return self.seq_get(st, v, o.p, i, self.base_kind(st, o.cls))
                if type(o.p) in (tuple, str, bytes, Seq):
                    return self.getitem(st, o.p, i)
                self.throw(st, 'TypeError', "'%s' object is not subscriptable" % self.tname(st, v))
        if t is tuple:
            return self.seq_get(st, v, v, i, 'tuple')
        if t in (str, bytes, Seq):
            kind = 'str' if t is str else 'bytes' if t is bytes else v.kind
            e, star = self.elems(st, v)
            if star:
                e = e + [STAR]
            return self.seq_get(st, v, e, i, kind)
        if t is Sym:
            k = st.syms[v.i].kind
            if k in ('str', 'bytes'):
                if type(i) is Slice:
                    return st.sym(k, term=('slice', v, i.a, i.b))
                return st.sym('int', BYTE, term=('idx', v, i)) if k == 'bytes' else st.sym('str', term=('idx', v, i))
            raise Unsupp('subscript of unknown')
        self.throw(st, 'TypeError', "'%s' object is not subscriptable" % self.tname(st, v))

    def seq_get(self, st, ref, p, i, kind):
        star = bool(p) and p[-1] is STAR
        body = p[:-1] if star else p
        if self.has_run(st, body):
            n = self.raw(st, i) if type(i) is not Slice else None
            if type(i) is Slice and type(i.a) is int and 0 <= i.a <= len(body) and i.b is None and i.c is None and \
                    not self.has_run(st, body[:i.a]):
                pass
            elif type(n) is not int or n >= 0 or n < -len(body) or self.has_run(st, body[n:]):
                raise Unsupp('element of a widened sequence')
        if type(i) is Slice:
            if kind in ('str', 'bytes'):
                return self.slice_seq(st, kind, body, star, i)
            if kind == 'bytearray':
                r = self.slice_elems(st, body, star, i)
                return st.new(O(self.types['bytearray'], None, r))
            a = [self.raw(st, x) for x in (i.a, i.b, i.c)]
            if star or not all(x is None or type(x) is int for x in a):
                raise Unsupp('abstract slice')
            r = body[slice(*a)]
            if kind == 'tuple':
                return tuple(r)
            return self.mklist(st, r)
        n = self.raw(st, i)
        if type(n) is bool:
            n = int(n)
        if type(n) is int:
            if star:
                if 0 <= n < len(body):
                    return self.wrap_el(st, body[n], kind)
                st.imprecise = 'index into a widened sequence'
                return self.wrap_el(st, st.sym('int', CHAR, wide=True), kind)
            if not -len(body) <= n < len(body):
                self.throw(st, 'IndexError', 'index out of range')
            return self.wrap_el(st, body[n], kind)
        l = self.lin(st, n)
        if l is None:
            if type(n) is Sym:
                raise Unsupp('unknown index')
            self.throw(st, 'TypeError', 'indices must be integers')
        if star:
            raise Unsupp('abstract index into a widened sequence')
        if self.symdigits:
            r = self.affine_item(st, n, l, body)
            if r is not None:
                return self.wrap_el(st, r, kind)
        # abstract index: fork over groups of identical elements
        groups = {}
        for j, x in enumerate(body):
            try:
                groups.setdefault((type(x).__name__, x), []).append(j)
            except TypeError:
                groups.setdefault(j, []).append(j)
        for g in groups.values():
            if self.inset(st, n, g):
                return self.wrap_el(st, body[g[0]], kind)
        neg = [j - len(body) for j in range(len(body))]
        for j in neg:
            if self.inset(st, n, [j]):
                return self.wrap_el(st, body[j], kind)
        self.throw(st, 'IndexError', 'index out of range')

    def affine_item(self, st, n, l, body):
        """An element of a table of integers that is affine in the index on runs of indices: forks on the run -> value or None"""
        lo, hi = self.lin_range(st, l)
        if lo < 0 or hi >= len(body) or hi - lo < 3 or any(type(x) is not int for x in body[int(lo):int(hi) + 1]):
            return None
        lo, hi = int(lo), int(hi)
        runs, a = [], lo
        while a <= hi:
            b = a
            k = body[a + 1] - body[a] if a < hi else 1
            while b < hi and body[b + 1] - body[b] == k:
                b += 1
            runs.append((a, b, k if b > a else 1))
            a = b + 1
        if len(runs) > 6:
            return None
        for a, b, k in runs:
            if b == hi or self.compare(st, '<=', self.lin(st, self.norm(st, self.unlin(l))), Lin(b, ())):
                x = self.lin(st, self.norm(st, self.unlin(l)))
                c = body[a] - k * a
                return self.unlin(Lin(x.c * k + c, tuple((s, y * k) for s, y in x.t))) if k else body[a]

    def wrap_el(self, st, e, kind):
        if kind == 'str':
            return self.seqnorm(st, Seq('str', (e,)))
        return self.norm(st, e)

    def slice_elems(self, st, body, star, i):
        a = [self.raw(st, x) for x in (i.a, i.b, i.c)]
        if all(x is None or type(x) is int for x in a):
            if not star:
                return list(body[slice(*a)])
            lo, hi, stp = a
            lo = lo or 0
            if lo >= 0 and (hi is None or hi > len(body) or hi < 0):
                return list(body[lo:]) + [STAR]
            if lo >= 0 and hi is not None and 0 <= hi <= len(body):
                return list(body[lo:hi])
        return [STAR]

    def slice_seq(self, st, kind, body, star, i):
        r = self.slice_elems(st, body, star, i)
        if r and r[-1] is STAR:
            return Seq(kind, tuple(r[:-1]), True)
        return self.seqnorm(st, Seq(kind, tuple(r)))

    def setitem(self, st, v, i, x):
        if type(v) is Ref:
            o = st.o(v)
            if type(o) is O:
                m = self.lookup(st, o.cls, '__setitem__')
                if type(m) is Ref:
                    return TailCall(m, (v, i, x))
                if type(o.p) is dict:
                    self.dict_set(st, v, i, x)
                    return None
                if type(o.p) is list:
                    if type(i) is Slice:
                        b = [self.raw(st, q) for q in (i.a, i.b, i.c)]
                        c = self.concrete_iter(st, x)
                        if c is None or o.p and o.p[-1] is STAR or any(q is not None and type(q) is not int for q in b):
                            raise Unsupp('slice assignment')
                        try:
                            st.w(v, '[:]').p[slice(*b)] = list(c)
                        except ValueError as e:
                            self.throw(st, 'ValueError', str(e))
                        return None
                    n = self.raw(st, i)
                    if type(n) is not int:
                        if self.lin(st, n) is None:
                            raise Unsupp('unknown index')
                        for j in range(len(o.p)):
                            if self.inset(st, n, [j]):
                                n = j
                                break
                        else:
                            self.throw(st, 'IndexError', 'assignment index out of range')
                    if not -len(o.p) <= n < len(o.p):
                        self.throw(st, 'IndexError', 'assignment index out of range')
                    st.w(v, i).p[n] = x
                    return None
        self.throw(st, 'TypeError', "'%s' object does not support item assignment" % self.tname(st, v))

    def delitem(self, st, v, i):
        if type(v) is Ref:
            o = st.o(v)
            if type(o) is O:
                m = self.lookup(st, o.cls, '__delitem__')
                if type(m) is Ref:
                    return TailCall(m, (v, i))
                if type(o.p) is dict:
                    hk = self.dict_find(st, v, i)
                    if hk is UNDEF:
                        raise PyExc(st.new(O(self.builtins['KeyError'], {'args': (i,)}, None)))
                    del st.w(v, hk).p[hk]
                    return None
                if type(o.p) is list:
                    if type(i) is Slice:
                        a = [self.raw(st, x) for x in (i.a, i.b, i.c)]
                        if not all(y is None or type(y) is int for y in a):
                            raise Unsupp('abstract del slice')
                        del st.w(v).p[slice(*a)]
                        return None
                    n = self.raw(st, i)
                    if type(n) is not int:
                        raise Unsupp('del unknown index')
                    if not -len(o.p) <= n < len(o.p):
                        self.throw(st, 'IndexError', 'index out of range')
                    del st.w(v).p[n]
                    return None
        self.throw(st, 'TypeError', "'%s' object does not support item deletion" % self.tname(st, v))

    def op_BIN(self, st, fr, arg):
        s = fr.stack
        r = self.binary(st, arg, s[-2], s[-1])
        del s[-2:]
        if type(r) is TailCall:
            self.call(st, r.f, r.args, r.kw, r.then)
        else:
            s.append(r)

    def op_IBIN(self, st, fr, arg):
        s = fr.stack
        a, b = s[-2], s[-1]
        if type(a) is Ref and arg == '+':
            o = st.o(a)
            if type(o) is O and type(o.p) is list and self.lookup(st, o.cls, '__iadd__') is UNDEF:
                c = self.concrete_iter(st, b)
                if c is None:
                    raise Unsupp('+= iterator')
                x = st.w(a)
                x.p.extend(c)
                del s[-2:]
                s.append(a)
                return
        self.op_BIN(st, fr, arg)

    def op_UN(self, st, fr, arg):
        s = fr.stack
        v = s[-1]
        if type(v) is Ref:
            o = st.o(v)
            m = self.lookup(st, self.cls_of(st, v), {'-': '__neg__', '+': '__pos__', '~': '__invert__'}[arg])
            if m is not UNDEF:
                s.pop()
                self.call(st, m, (v,), {}, None)
                return
        v = self.raw(st, v)
        if isconst(v) and v is not None and not isinstance(v, (str, bytes, tuple)):
            r = -v if arg == '-' else +v if arg == '+' else ~v
        else:
            l = self.lin(st, v)
            if l is not None:
                if arg == '-':
                    r = self.unlin(self.neg(l))
                elif arg == '+':
                    r = v
                else:
                    r = self.unlin(self.add(self.neg(l), Lin(-1, ())))
            elif type(v) is Sym:
                i = st.syms[v.i]
                r = st.sym(i.kind, None, i.cls, ('un' + arg, v))
            else:
                self.throw(st, 'TypeError', 'bad operand type for unary %s' % arg)
        s.pop()
        s.append(r)

    def binary(self, st, op, a, b):
        # user-defined operators
        for x, y, pre in ((a, b, '__'), (b, a, '__r')):
            if type(x) is Ref and type(st.o(x)) is O:
                nm = pre + _OPNAME[op] + '__'
                m = self.lookup(st, st.o(x).cls, nm)
                if m is not UNDEF:
                    if type(m) is Ref:
                        return TailCall(m, (x, y))
                    r = m.fn(self, st, (x, y), {})
                    if r is not NotImplemented:
                        return r
        a0, b0 = a, b
        a, b = self.raw(st, a), self.raw(st, b)
        if op == '%' and self.kindof(st, a) in ('str', 'bytes'):
            return self.format(st, a, b)
        if isconst(a) and isconst(b):
            try:
                if op == '*' and isinstance(a, (str, bytes, tuple)) and isinstance(b, int) and len(a) * b > 10 ** 6:
                    raise Unsupp('huge')
                if op in ('**', '<<') and isinstance(b, int) and abs(b) > 5000:
                    raise Unsupp('huge')
                return _BIN[op](a, b)
            except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
                self.throw(st, type(e).__name__, str(e))
        if type(a) is tuple and type(b) is tuple and op == '+':
            return a + b
        if type(a) is tuple and type(b) is int and op == '*':
            return a * b
        if type(a) is Ref or type(b) is Ref:
            r = self.list_op(st, op, a, b)
            if r is not None:
                return r
            self.throw(st, 'TypeError', 'unsupported operand type(s) for %s: %s and %s'
                       % (op, self.tname(st, a0), self.tname(st, b0)))
        ka, kb = self.kindof(st, a), self.kindof(st, b)
        if ka in ('str', 'bytes') and kb in ('str', 'bytes'):
            if ka != kb or op != '+':
                self.throw(st, 'TypeError', 'str/bytes mix')
            if type(a) is Sym or type(b) is Sym:
                return st.sym(ka, term=('+', a, b))
            ea, sa = self.elems(st, a)
            if sa:
                return Seq(ka, tuple(ea), True)
            eb, sb = self.elems(st, b)
            return self.mkseq(st, ka, ea + eb, sb)
        la, lb = self.lin(st, a), self.lin(st, b)
        if la is not None and lb is not None:
            return self.int_op(st, op, a, b, la, lb)
        if ka in ('str', 'bytes', 'tuple') or kb in ('str', 'bytes', 'tuple') or a is None or b is None:
            if op == '*' and (ka in ('str', 'bytes')) and lb is not None:
                return Seq(ka, (), True)
            if ka != 'any' and kb != 'any':
                self.throw(st, 'TypeError', 'unsupported operand type(s) for %s: %s and %s' % (op, ka, kb))
        return self.opaque_bin(st, op, a, b)

    def opaque_bin(self, st, op, a, b):
        ka, kb = self.kindof(st, a), self.kindof(st, b)
        for k, x in ((ka, a), (kb, b)):
            if k == 'obj':
                return st.sym('obj', None, self.cls_of(st, x), ('bin' + op, a, b))
        if 'float' in (ka, kb):
            return st.sym('float', term=('bin' + op, a, b))
        return st.sym('any', term=('bin' + op, a, b))

    def mkseq(self, st, kind, elems, star):
        lim = self.seqlimit.get(kind)
        if lim is not None and len(elems) > lim and any(type(e) is not int for e in elems):
            return Seq(kind, tuple(elems[:lim]), True)
        if star:
            return Seq(kind, tuple(elems), True)
        return self.seqnorm(st, Seq(kind, tuple(elems)))

    def int_op(self, st, op, a, b, la, lb):
        if op == '+':
            return self.unlin(self.add(la, lb))
        if op == '-':
            return self.unlin(self.add(la, lb, -1))
        if op == '*':
            if not la.t:
                return self.unlin(Lin(la.c * lb.c, tuple((s, k * la.c) for s, k in lb.t) if la.c else ()))
            if not lb.t:
                return self.unlin(Lin(la.c * lb.c, tuple((s, k * lb.c) for s, k in la.t) if lb.c else ()))
        if op == '<<' and not lb.t and 0 <= lb.c < 4096:
            return self.int_op(st, '*', a, 1 << lb.c, la, Lin(1 << lb.c, ()))
        lo, hi = self.lin_range(st, la)
        if self.symdigits:
            r = self.bit_op(st, op, la, lb)
            if r is not None:
                return r
        dom = ALLINT
        kind = 'int'
        if not lb.t:
            c = lb.c
            if op == '&' and c >= 0:
                if c == 0:
                    return 0
                dom = self.and_dom(st, la, c)
                if dom is not None and is_one(dom):
                    return dom[0][0]
                if dom is None:
                    dom = ((0, min(c, hi) if lo >= 0 else c),)
                if lo >= 0 and hi <= c and (c & (c + 1)) == 0:
                    return a
            elif op == '|' and c >= 0 and lo >= 0:
                if c == 0:
                    return a
                nb = max(int(hi).bit_length() if hi != INF else 0, c.bit_length())
                if hi != INF:
                    # disjoint bits: addition
                    if self.disjoint_bits(st, la, c):
                        return self.unlin(self.add(la, lb))
                    dom = ((c, (1 << nb) - 1),)
                else:
                    dom = ((c, INF),)
            elif op == '>>' and 0 <= c < 4096:
                dom = ((lo >> c if lo != -INF else lo, hi >> c if hi != INF else hi),) \
                    if (lo == -INF or type(lo) is int) and (hi == INF or type(hi) is int) else ALLINT
                if is_one(dom):
                    return dom[0][0]
            elif op == '//' and c > 0:
                dom = ((lo if lo == -INF else lo // c, hi if hi == INF else hi // c),)
            elif op == '%' and c > 0:
                if 0 <= lo and hi < c:
                    return a
                if all(k % c == 0 for _, k in la.t):
                    return la.c % c
                dom = ((0, c - 1),)
            elif op == '/':
                kind = 'float'
        elif op == '/':
            kind = 'float'
        elif op == '|' and not la.t:
            return self.int_op(st, op, b, a, lb, la)
        elif op == '&' and not la.t:
            return self.int_op(st, op, b, a, lb, la)
        elif op == '|':
            l2, h2 = self.lin_range(st, lb)
            if lo >= 0 and l2 >= 0:
                if hi != INF and h2 != INF:
                    nb = max(int(hi).bit_length(), int(h2).bit_length())
                    dom = ((max(lo, l2), (1 << nb) - 1),)
                    # (x << k) | y with y < 2^k  ==  sum
                    if self.shifted_disjoint(la, h2) or self.shifted_disjoint(lb, hi):
                        return self.unlin(self.add(la, lb))
                else:
                    if self.shifted_disjoint(la, h2) or self.shifted_disjoint(lb, hi):
                        return self.unlin(self.add(la, lb))
                    dom = ((max(lo, l2), INF),)
        elif op in ('&',):
            dom = ((0, INF),) if lo >= 0 else ALLINT
        elif op in ('**', '<<') and lo >= 0:
            dom = NONNEG
        if kind == 'float':
            return st.sym('float', term=(op, a, b))
        key = ('t', op, la, lb)
        f = st.facts.get(key)
        if f is not None:
            return f
        wide = any(st.syms[s].wide for s, _ in la.t + lb.t)
        r = st.sym('int', dom, term=(op, self.unlin(la), self.unlin(lb)), wide=wide)
        st.facts[key] = r
        return r

    def bit_op(self, st, op, la, lb):
        """Exact shifts, masks and unions of bit fields -> value or None"""
        if op in ('&', '|', '^') and not la.t:
            la, lb = lb, la
        if not lb.t:
            c = lb.c
            if op == '>>' and 0 <= c < 4096:
                return bitops.bits(self, st, la, c, None)
            if op in ('//', '%') and c > 0 and c & (c - 1) == 0:
                n = c.bit_length() - 1
                return bitops.bits(self, st, la, n, None) if op == '//' else bitops.bits(self, st, la, 0, n)
            if op == '&' and c >= 0:
                if c & (c + 1) == 0:
                    return bitops.bits(self, st, la, 0, c.bit_length())
                low = (c & -c).bit_length() - 1
                m = c >> low
                if m & (m + 1) == 0:
                    r = bitops.bits(self, st, la, low, m.bit_length())
                    r = self.lin(st, r) if r is not None else None
                    return None if r is None else self.unlin(Lin(r.c << low, tuple((s, k << low) for s, k in r.t)))
            if op in ('|', '^') and c >= 0:
                # union with bits that are known to be clear
                r = bitops.bits(self, st, la, 0, None)
                r = self.lin(st, r) if r is not None else None
                if r is not None:
                    clear = all(self.bit_op(st, '&', r, Lin(1 << i, ())) == 0 for i in range(c.bit_length()) if c >> i & 1)
                    if clear:
                        return self.unlin(self.add(r, lb))
                lo, hi = self.lin_range(st, la)
                if op == '|' and c and c & (c - 1) == 0 and 0 <= lo and hi < 2 * c:
                    return self.unlin(self.add(la, lb) if self.compare(st, '<', la, lb) else la)
        elif op in ('|', '^', '+') and la.t and lb.t:
            pa, pb = bitops.parts(self, st, la), bitops.parts(self, st, lb)
            if pa is not None and pb is not None:
                used = 0
                for fs, c in (pa, pb):
                    mask = c
                    for p, w, _ in fs:
                        if w is None:
                            return None
                        mask |= ((1 << w) - 1) << p
                    if mask & used:
                        return None
                    used |= mask
                return self.unlin(self.add(la, lb))
        return None

    def and_dom(self, st, la, c):
        if len(la.t) == 1 and la.t[0][1] == 1:
            d = is_shift(st.syms[la.t[0][0]].dom, la.c)
            if d[0][0] >= 0 and d[-1][1] != INF and is_size(d) <= 4096:
                return is_from([x & c for x in is_iter(d)])
        return None

    def disjoint_bits(self, st, la, c):
        if len(la.t) == 1:
            s, k = la.t[0]
            d = st.syms[s].dom
            if d[0][0] >= 0 and d[-1][1] != INF and is_size(d) <= 4096:
                return all(((x * k + la.c) & c) == 0 for x in is_iter(d))
        lo, hi = self.lin_range(st, la)
        if lo >= 0 and hi != INF:
            low = c & -c
            if hi < low:
                return True
            g = 0
            for _, k in la.t:
                g |= k & -k if k > 0 else 1
            # la multiple of 2^j and c < 2^j
        return self.shifted_disjoint(la, c)

    def shifted_disjoint(self, l, h):
        """l is a multiple of 2^k (k maximal over coefs) and 0 <= other <= h < 2^k"""
        if h == INF:
            return False
        m = None
        for x in [k for _, k in l.t] + ([l.c] if l.c else []):
            low = x & -x
            m = low if m is None else min(m, low)
        return m is not None and h < m

    def list_op(self, st, op, a, b):
        oa = st.o(a) if type(a) is Ref else None
        ob = st.o(b) if type(b) is Ref else None
        pa = oa.p if type(oa) is O else None
        pb = ob.p if type(ob) is O else None
        if op == '+' and type(pa) is list:
            kind = self.base_kind(st, oa.cls)
            if type(pb) is list:
                q = pb
            elif kind == 'bytearray' and self.kindof(st, b) == 'bytes':
                e, star = self.elems(st, b)
                q = e + ([STAR] if star else [])
            else:
                return None
            if pa and pa[-1] is STAR:
                q = []
            return st.new(O(self.types[kind], None, list(pa) + list(q)))
        if op == '+' and type(pb) is list and self.kindof(st, a) == 'bytes':
            e, star = self.elems(st, a)
            return st.new(O(self.types['bytearray'], None, e + list(pb)))
        if op == '*' and type(pa) is list and type(b) is int:
            return st.new(O(oa.cls, None, list(pa) * b))
        if op == '*' and type(pa) is list:
            l = self.lin(st, b)
            if l is not None and self.base_kind(st, oa.cls) == 'bytearray':
                return st.new(O(oa.cls, None, [STAR]))
        return None

    symdigits = False       # format abstract integers digit by digit (the writer explorations)

    def format(self, st, f, args):
        if type(f) is not str and type(f) is not bytes:
            return st.sym(self.kindof(st, f), term=('fmt', f, args))
        if type(f) is str:
            import re
            specs = re.findall(r'%(\([^)]*\))?[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?([a-zA-Z%])', f)
            specs = [s for s in specs if s[1] != '%']
            vals = list(args) if type(args) is tuple else [args]
            if specs and not specs[0][0]:
                if len(vals) != len(specs):
                    self.throw(st, 'TypeError', 'format arguments do not match')
                for (_, c), v in zip(specs, vals):
                    if c in 'dioxX':
                        r = self.raw(st, v)
                        k = self.kindof(st, r)
                        if k in ('any', 'float', 'obj'):
                            continue
                        if type(r) is _Dec:
                            if r.is_finite():
                                continue
                            self.throw(st, 'OverflowError', 'cannot convert Infinity to integer')
                        if r is None or k not in ('int', 'bool'):
                            self.throw(st, 'TypeError', '%%%s format: a number is required, not %s'
                                       % (c, self.tname(st, v)))
            rv = [self.raw(st, v) for v in vals]
            if all(isconst(v) and not (type(v0) is Ref) for v, v0 in zip(rv, vals)):
                try:
                    return f % tuple(rv)
                except (TypeError, ValueError) as e:
                    self.throw(st, type(e).__name__, str(e))
            if self.symdigits:
                r = numfmt.pct(self, st, f, args if type(args) is tuple else (args,))
                if r is not None:
                    return r
            return st.sym('str', term=('fmt', f) + tuple(vals))
        if isconst(args):
            return f % args
        if self.symdigits and type(f) is bytes:
            r = numfmt.pct(self, st, f.decode('latin-1'), args if type(args) is tuple else (args,))
            if r is not None:
                return r.encode('latin-1') if type(r) is str else Seq('bytes', r.e)
        return st.sym('bytes', term=('fmt', f, args))

    def op_CMP(self, st, fr, arg):
        s = fr.stack
        r = self.cmp(st, arg, s[-2], s[-1])
        del s[-2:]
        if type(r) is TailCall:
            self.call(st, r.f, r.args, r.kw, r.then)
        else:
            s.append(r)

    def cmp(self, st, op, a, b):
        if op == 'is':
            return self.identical(st, a, b)
        if op == 'is not':
            return not self.identical(st, a, b)
        if op == '==' or op == '!=':
            if op == '!=':
                for x, y in ((a, b), (b, a)):
                    if type(x) is Ref and type(st.o(x)) is O:
                        m = self.lookup(st, st.o(x).cls, '__ne__')
                        if type(m) is Ref:
                            return TailCall(m, (x, y))
            r = self.equal(st, a, b)
            if op == '==':
                return r
            if type(r) is TailCall:
                if r.then is None:
                    r.then = ('nottruth', None)
                else:
                    _, o, x, y, _, th = r.then
                    r.then = ('cmpfall', o, x, y, True, th)
                return r
            return not r
        if op in ('in', 'not in'):
            r = self.contains(st, b, a)
            if type(r) is TailCall:
                if op == 'not in':
                    r.then = ('nottruth', None)
                else:
                    r.then = ('truth', None)
                return r
            return r if op == 'in' else not r
        # ordering
        for x, y, nm in ((a, b, _CMPNAME[op]), (b, a, _CMPNAME[_CMPREV[op]])):
            if type(x) is Ref and type(st.o(x)) is O:
                m = self.lookup(st, st.o(x).cls, nm)
                if type(m) is Ref:
                    return TailCall(m, (x, y))
                if type(m) is NF:
                    return m.fn(self, st, (x, y), {})
        a, b = self.raw(st, a), self.raw(st, b)
        la, lb = self.lin(st, a), self.lin(st, b)
        if la is not None and lb is not None:
            return self.compare(st, op, la, lb)
        if isconst(a) and isconst(b):
            try:
                return _CMPF[op](a, b)
            except TypeError as e:
                self.throw(st, 'TypeError', str(e))
        if type(a) is tuple and type(b) is tuple or self.islist(st, a) and self.islist(st, b):
            if op in ('>', '>='):
                a, b = b, a
            return TailCall(self.prelude['seq_less'], (a, b, op in ('<', '>')))
        z = self.dec_cmp(st, op, a, b, la, lb)
        if z is not None:
            return z
        ka, kb = self.kindof(st, a), self.kindof(st, b)
        bad = ('NoneType', 'tuple', 'ref')
        num = ('int', 'float', 'bool')
        if ka in ('any', 'obj') or kb in ('any', 'obj') or (ka in num and kb in num):
            if (a is None or b is None):
                self.throw(st, 'TypeError', "'%s' not supported between instances" % op)
            z = self.float_cmp(st, op, a, b)
            if z is not None:
                return z
            return self.opaque_bool(st, (op, a, b))
        if ka == kb and ka in ('str', 'bytes'):
            ea, sa = self.elems(st, a)
            eb, sb = self.elems(st, b)
            if len(ea) == 1 and len(eb) == 1 and not sa and not sb:
                return self.compare(st, op, self.lin(st, ea[0]), self.lin(st, eb[0]))
            return self.opaque_bool(st, (op, a, b), True)
        self.throw(st, 'TypeError', "'%s' not supported between instances of %s and %s" % (op, ka, kb))

    def float_cmp(self, st, op, a, b):
        """Comparison of an abstract float of known sign with a constant it cannot straddle -> bool or None"""
        for x, y, o in ((a, b, op), (b, a, _CMPREV.get(op, op))):
            s = st.facts.get(('fsign', x.i)) if type(x) is Sym else None
            if s is not None and type(y) in (int, float, bool):
                if y != y:
                    return o == '!='
                if y == 0 or (y > 0) != (s > 0) or y in (INF, -INF):
                    return {"==": s == y, "!=": s != y}[o] if o in ("==", "!=") else _CMPF[o](s, y)
        return None

    def islist(self, st, v):
        return type(v) is Ref and type(st.o(v)) is O and type(st.o(v).p) is list and \
            self.base_kind(st, st.o(v).cls) == 'list'

    def dec_cmp(self, st, op, a, b, la, lb):
        """Comparisons of an integer with a Decimal constant, and of a Decimal term with zero -> bool or None."""
        for x, y, lx, o in ((a, b, la, op), (b, a, lb, _CMPREV.get(op, op))):
            if lx is not None and type(y) is _Dec and not y.is_nan():
                if y.is_infinite():
                    return o == '!=' if o in ('==', '!=') else (o in ('<', '<=')) == (y > 0)
                if y == y.to_integral_value():
                    return self.compare(st, o, lx, Lin(int(y), ()))
            if type(x) is Sym and type(y) in (int, _Dec) and st.syms[x.i].kind == 'obj':
                import natives
                c = natives.dec_coef(self, st, x)
                if c is None or type(y) is _Dec and not y.is_finite():
                    continue
                if y == 0:
                    return self.compare(st, o, self.lin(st, c), Lin(0, ()))
                if c == 0:
                    return _CMPF[o](0, y)
                r = natives.dec_range(self, st, x)
                if r is not None:
                    t = {_CMPF[o](v, y) for v in r}
                    if len(t) == 1 and o in _CMPREV:
                        return t.pop()
                    if o in ('==', '!=') and not r[0] <= y <= r[1]:
                        return o == '!='
        return None

    def contains(self, st, c, v):
        c = self.norm(st, c)
        if type(c) is Ref:
            o = st.o(c)
            if type(o) is O:
                m = self.lookup(st, o.cls, '__contains__')
                if type(m) is Ref:
                    return TailCall(m, (c, v))
                if type(o.p) is dict:
                    if self.base_kind(st, o.cls) == 'set':
                        l = self.lin(st, v)
                        if l is not None and l.t:
                            return self.inset(st, v, [k for k in o.p if type(k) is int])
                        return self.dict_find(st, c, v) is not UNDEF
                    l = self.lin(st, v)
                    if l is not None and l.t and all(type(k) is not tuple for k in o.p):
                        return self.inset(st, v, [k for k in o.p if type(k) is int])
                    return self.dict_find(st, c, v) is not UNDEF
                if type(o.p) is list:
                    if o.p and o.p[-1] is STAR:
                        return self.opaque_bool(st, ('in', c, v), True)
                    return self.seq_contains(st, o.p, v)
                if type(o.p) in (str, bytes, Seq, tuple):
                    return self.contains(st, o.p, v)
                if type(self.lookup(st, o.cls, '__iter__')) is Ref:
                    return TailCall(self.prelude['contains'], (c, v))
            if type(o) in (GenO, IterO) or type(o) is ClsO:
                return TailCall(self.prelude['contains'], (c, v))
        if type(c) is tuple:
            return self.seq_contains(st, c, v)
        kc = self.kindof(st, c)
        if kc in ('str', 'bytes'):
            vv = self.raw(st, v)
            if isconst(c) and isconst(vv):
                try:
                    return vv in c
                except TypeError as e:
                    self.throw(st, 'TypeError', str(e))
            e, star = self.elems(st, c)
            if kc == 'str' and self.kindof(st, vv) == 'str':
                ev, sv = self.elems(st, vv)
                if len(ev) == 1 and not sv and not star and not self.has_run(st, ev):
                    if all(type(x) is int for x in e):
                        return self.inset(st, ev[0], e)
                if not star and not sv and not self.has_run(st, e) and not self.has_run(st, ev):
                    return self.subseq(st, e, ev)
                return self.opaque_bool(st, ('in', c, vv), True)
            if kc == 'bytes' and self.lin(st, vv) is not None and not star:
                if all(type(x) is int for x in e):
                    return self.inset(st, vv, e)
                if not self.has_run(st, e):
                    return self.subseq(st, e, [vv])
            if kc == 'bytes' and not star and self.kindof(st, vv) in ('bytes', 'bytearray') and not self.has_run(st, e):
                ev, sv = self.elems(st, vv)
                if not sv and not self.has_run(st, ev):
                    return self.subseq(st, e, ev)
            if kc == 'str':
                self.throw(st, 'TypeError', "'in <string>' requires string as left operand")
            return self.opaque_bool(st, ('in', c, vv), True)
        if type(c) is Sym:
            return self.opaque_bool(st, ('in', c, v))
        self.throw(st, 'TypeError', "argument of type '%s' is not iterable" % self.tname(st, c))

    def subseq(self, st, e, p):
        for i in range(len(e) - len(p) + 1):
            for x, y in zip(e[i:], p):
                lx, ly = self.lin(st, x), self.lin(st, y)
                if lx is None or ly is None:
                    raise Unsupp('containment of %r' % (x,))
                if not self.compare(st, '==', lx, ly):
                    break
            else:
                return True
        return False

    def seq_contains(self, st, items, v):
        l = self.lin(st, v)
        if l is not None and l.t:
            ints = []
            for x in items:
                x = self.raw(st, x)
                if type(x) in (int, bool):
                    ints.append(int(x))
                elif type(x) in (Sym, Lin):
                    ints = None
                    break
            if ints is not None:
                return self.inset(st, v, ints)
        for i, x in enumerate(items):
            if type(x) is Ref and type(v) is Ref and x.a == v.a:
                return True
            r = self.equal(st, x, v)
            if type(r) is TailCall:
                return TailCall(self.prelude['contains'], (tuple(items[i:]), v))
            if r:
                return True
        return False

    def op_NOT(self, st, fr, arg):
        s = fr.stack
        b = self.truth(st, s[-1])
        s.pop()
        if type(b) is TailCall:
            self.call(st, b.f, b.args, b.kw, ('nottruth', None))
        else:
            s.append(not b)

    def _branch(self, st, fr, arg, jump_if):
        v = fr.stack.pop()
        b = v
        if type(v) is not bool:
            b = self.truth(st, v)
            if type(b) is TailCall:
                fr.pc -= 1
                self.call(st, b.f, b.args, b.kw, ('truth', None))
                return
        if b is jump_if:
            fr.pc = arg

    def op_JF(self, st, fr, arg):
        self._branch(st, fr, arg, False)

    def op_JT(self, st, fr, arg):
        self._branch(st, fr, arg, True)

    def _keep(self, st, fr, arg, jump_if):
        s = fr.stack
        v = s[-1]
        if type(v) is _TV:
            s.pop()             # s[-1] is now the original value
            b = v.b
            v = s[-1]
        else:
            b = self.truth(st, v)
            if type(b) is TailCall:
                fr.pc -= 1
                self.call(st, b.f, b.args, b.kw, ('nativecont', _keeptruth, None))
                return
        if b is jump_if:
            fr.pc = arg
        else:
            s.pop()

    def op_JFP(self, st, fr, arg):
        self._keep(st, fr, arg, False)

    def op_JTP(self, st, fr, arg):
        self._keep(st, fr, arg, True)

    def op_JMP(self, st, fr, arg):
        fr.pc = arg

    def op_MKTUPLE(self, st, fr, n):
        s = fr.stack
        v = tuple(s[len(s) - n:])
        del s[len(s) - n:]
        s.append(v)

    def op_MKLIST(self, st, fr, n):
        s = fr.stack
        v = s[len(s) - n:]
        del s[len(s) - n:]
        s.append(self.mklist(st, v))

    def op_MKSET(self, st, fr, n):
        s = fr.stack
        d = {}
        for v in s[len(s) - n:]:
            d[self.hkey(st, v)] = (v,)
        del s[len(s) - n:]
        s.append(st.new(O(self.types['set'], None, d)))

    def op_MKDICT(self, st, fr, n):
        fr.stack.append(st.new(O(self.types['dict'], None, {})))

    def op_MKSLICE(self, st, fr, arg):
        s = fr.stack
        v = Slice(s[-3], s[-2], s[-1])
        del s[-3:]
        s.append(v)

    def op_LISTAPP(self, st, fr, depth):
        s = fr.stack
        v = s.pop()
        st.w(s[-depth]).p.append(v)

    def op_SETADD(self, st, fr, depth):
        s = fr.stack
        v = s.pop()
        st.w(s[-depth]).p[self.hkey(st, v)] = (v,)

    def op_LISTEXT(self, st, fr, arg):
        s = fr.stack
        c = self.concrete_iter(st, s[-1])
        if c is None:
            it = s.pop()
            fr.pc -= 1
            self.call(st, self.prelude['collect'], (it,), {}, None)
            return
        s.pop()
        st.w(s[-1]).p.extend(c)

    def op_LISTTO(self, st, fr, op):
        s = fr.stack
        v = st.o(s.pop()).p
        if op == 'MKTUPLE':
            s.append(tuple(v))
        else:
            s.append(st.new(O(self.types['set'], None, {self.hkey(st, x): (x,) for x in v})))

    def op_DICTSET(self, st, fr, depth):
        s = fr.stack
        k, v = s[-2], s[-1]
        self.dict_set(st, s[-2 - depth], k, v)
        del s[-2:]

    def op_DICTUPD(self, st, fr, arg):
        s = fr.stack
        o = st.o(s[-1])
        if type(o) is not O or type(o.p) is not dict:
            raise Unsupp('** of non-dict')
        s.pop()
        d = st.w(s[-1])
        for k, e in o.p.items():
            d.p[k] = e

    def op_CALL(self, st, fr, arg):
        n, kwn = arg
        s = fr.stack
        k = len(kwn)
        tot = n + k
        base = len(s) - tot
        f = s[base - 1]
        args = tuple(s[base:base + n])
        kw = dict(zip(kwn, s[base + n:])) if k else {}
        del s[base - 1:]
        self.call(st, f, args, kw, None)

    def op_CALLX(self, st, fr, arg):
        s = fr.stack
        kwd = st.o(s[-1]).p
        args = tuple(st.o(s[-2]).p)
        kw = {}
        for k, e in kwd.items():
            kw[e[0]] = e[1]
        f = s[-3]
        del s[-3:]
        self.call(st, f, args, kw, None)

    def op_MKFUNC(self, st, fr, arg):
        code, nd, kwd = arg
        s = fr.stack
        f = FuncO()
        f.own = None
        f.code = code
        f.globs = fr.globs
        kv = s[len(s) - len(kwd):] if kwd else []
        if kwd:
            del s[len(s) - len(kwd):]
        f.kwdef = dict(zip(kwd, kv))
        f.defaults = tuple(s[len(s) - nd:]) if nd else ()
        if nd:
            del s[len(s) - nd:]
        f.clos = {n: fr.cells[n] for n in code.freevars if n in fr.cells}
        f.name = code.name
        f.attrs = {}
        s.append(st.new(f))

    def op_MKCLASS(self, st, fr, arg):
        code, nb, kwn = arg
        s = fr.stack
        kv = s[len(s) - len(kwn):] if kwn else []
        if kwn:
            del s[len(s) - len(kwn):]
        bases = tuple(s[len(s) - nb:]) if nb else ()
        if nb:
            del s[len(s) - nb:]
        meta = dict(zip(kwn, kv)).get('metaclass')
        if meta is None:
            meta = self.types['type']
            for b in bases:
                m = st.o(b).meta
                if self.issub(st, m, meta):
                    meta = m
        ns = st.new(O(self.types['dict'], None, {}))
        f = Frame()
        f.code = code
        f.pc = 0
        f.loc = {}
        f.cells = {n: fr.cells[n] for n in code.freevars if n in fr.cells}
        cell = None
        if '__class__' in code.cellvars:
            cell = st.new(CellO(UNDEF))
            f.cells['__class__'] = cell
        f.stack = []
        f.blocks = []
        f.globs = fr.globs
        f.ns = ns
        f.gen = None
        f.then = ('nativecont', _ClassDone(code, meta, bases, ns, cell, st.o(fr.globs).name), None)
        st.frames.append(f)

    def op_ITER(self, st, fr, arg):
        s = fr.stack
        v = self.iterate(st, s[-1])
        s.pop()
        if type(v) is TailCall:
            self.call(st, v.f, v.args, v.kw, v.then)
        else:
            s.append(v)

    def op_FORITER(self, st, fr, arg):
        it = fr.stack[-1]
        if type(it) is not Ref:
            raise Unsupp('foriter')
        o = st.o(it)
        if type(o) is IterO:
            ok, v = self.iter_next(st, it)
            if ok:
                fr.stack.append(v)
            else:
                fr.stack.pop()
                fr.pc = arg
            return
        if type(o) is GenO:
            self.resume(st, it, None, ('foriter', arg))
            return
        if type(o) is O:
            m = self.lookup(st, o.cls, '__next__')
            if type(m) is Ref:
                raise Unsupp('for over a user-defined iterator')
        raise Unsupp('for over %s' % self.tname(st, it))

    def op_YFROM(self, st, fr, arg):
        s = fr.stack
        sent = s.pop()
        it = s[-1]
        o = st.o(it)
        if type(o) is GenO:
            self.resume(st, it, sent if o.status != 'new' else None, ('yfrom', arg))
            return
        ok, v = self.iter_next(st, it)
        if ok:
            s.append(v)
        else:
            s.pop()
            s.append(None)
            fr.pc = arg

    def op_UNPACK(self, st, fr, n):
        s = fr.stack
        c = self.concrete_iter(st, s[-1])
        if c is None:
            if type(s[-1]) is Ref and type(st.o(s[-1])) in (GenO, IterO, O):
                it = s.pop()
                fr.pc -= 1
                self.call(st, self.prelude['collect'], (it,), {}, None)
                return
            self.throw(st, 'TypeError', 'cannot unpack non-iterable %s object' % self.tname(st, s[-1]))
        if len(c) != n:
            self.throw(st, 'ValueError', 'unpack: expected %d values, got %d' % (n, len(c)))
        s.pop()
        s.extend(reversed(c))

    def op_UNPACKX(self, st, fr, arg):
        a, b = arg
        s = fr.stack
        c = self.concrete_iter(st, s[-1])
        if c is None:
            raise Unsupp('star unpack')
        if len(c) < a + b:
            self.throw(st, 'ValueError', 'not enough values to unpack')
        s.pop()
        mid = self.mklist(st, c[a:len(c) - b])
        seq = c[:a] + [mid] + (c[len(c) - b:] if b else [])
        s.extend(reversed(seq))

    def op_SETUPX(self, st, fr, arg):
        fr.blocks.append((arg, len(fr.stack)))

    def op_POPB(self, st, fr, arg):
        fr.blocks.pop()

    def op_EXCMATCH(self, st, fr, arg):
        s = fr.stack
        c = s[-1]
        e = s[-2]
        r = self.isinst(st, e, c)
        del s[-2:]
        s.append(r)

    def op_RAISE(self, st, fr, arg):
        cause = fr.stack.pop() if arg == 'from' else UNDEF
        v = fr.stack.pop()
        if type(v) is Ref and type(st.o(v)) is ClsO:
            self.call(st, v, (), {}, ('nativecont', _raise_it, None))
            return
        if type(v) is not Ref or type(st.o(v)) is not O:
            self.throw(st, 'TypeError', 'exceptions must derive from BaseException')
        if cause is not UNDEF:
            o = st.w(v, '__cause__')
            if o.attrs is None:
                o.attrs = {}
            o.attrs['__cause__'] = cause
        raise PyExc(v)

    def op_RERAISE(self, st, fr, arg):
        raise PyExc(fr.stack.pop())

    def op_RETURN(self, st, fr, arg):
        v = fr.stack.pop()
        st.frames.pop()
        if fr.gen is not None:
            g = st.w(fr.gen)
            g.status = 'done'
            g.frame = _DONE_FRAME(fr)
            self.gen_return(st, v, fr.then)
            return
        self.deliver(st, v, fr.then)

    def op_YIELD(self, st, fr, arg):
        v = fr.stack.pop()
        st.frames.pop()
        g = st.w(fr.gen)
        then = fr.then
        fr.then = None
        g.frame = fr
        g.status = 'susp'
        if then is not None and then[0] in ('yfrom',):
            then = None
        if then is not None and then[0] == 'nextdef':
            then = then[2]
        self.deliver(st, v, then)

    def op_IMPORT(self, st, fr, arg):
        name, asn = arg
        m = self.loader(st, name)
        if not asn and '.' in name:
            m = self.loader(st, name.split('.')[0])
        fr.stack.append(m)

    def op_IMPORTFROM(self, st, fr, arg):
        mod, level, name = arg
        if level:
            cur = st.o(fr.globs).name
            pkg = cur.rsplit('.', level)[0] if not getattr(self, 'is_pkg', lambda n: False)(cur) else cur
            full = pkg + ('.' + mod if mod else '')
        else:
            full = mod
        m = self.loader(st, full)
        d = st.o(m).d
        if name in d:
            fr.stack.append(d[name])
            return
        try:
            fr.stack.append(self.loader(st, full + '.' + name))
        except Unsupp:
            self.throw(st, 'ImportError', 'cannot import name %s from %s' % (name, full))

    def op_ASSERT_ON(self, st, fr, arg):
        if self.no_assert:
            # skip to the matching ASSERT_OFF
            d = 1
            pc = fr.pc
            ins = fr.code.instrs
            while d:
                if ins[pc][0] == 'ASSERT_ON':
                    d += 1
                elif ins[pc][0] == 'ASSERT_OFF':
                    d -= 1
                pc += 1
            fr.pc = pc

    def op_ASSERT_OFF(self, st, fr, arg):
        pass

    def op_FORMAT(self, st, fr, arg):
        s = fr.stack
        spec = s.pop()
        v = s.pop()
        r = self.raw(st, v)
        if isconst(r) and type(v) is not Ref and isconst(spec):
            if arg == 114:
                r = repr(r)
            elif arg == 115:
                r = str(r)
            s.append(format(r, spec))
        elif spec == '' and self.kindof(st, r) == 'str' and arg in (-1, 115):
            s.append(r)
        elif self.symdigits and arg in (-1, 115, 114) and numfmt.spec(self, st, r, spec) is not None:
            s.append(numfmt.spec(self, st, r, spec))
        else:
            s.append(st.sym('str', term=('format', v, spec)))

    def op_STRJOIN(self, st, fr, n):
        s = fr.stack
        vs = s[len(s) - n:]
        del s[len(s) - n:]
        if all(type(v) is str for v in vs):
            s.append(''.join(vs))
        else:
            r = ''
            for v in vs:
                r = self.binary(st, '+', r, v)
            s.append(r)


class _Star(object):
    def __repr__(self):
        return '<*>'


STAR = _Star()


class _TV(object):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


def _keeptruth(m, st, v):
    b = m.truth(st, v)
    if type(b) is TailCall:
        return TailCall(b.f, b.args, b.kw, ('nativecont', _keeptruth, None))
    return _TV(b)


def small_code(instrs):
    from ir import Code
    c = Code('<driver>', '<driver>', '<driver>', 1, 'function')
    c.instrs = instrs
    c.lines = [1] * len(instrs)
    c.live = [frozenset()] * (len(instrs) + 1)
    c.uid = '<driver>' + repr(instrs)
    return c


def fr_depth(st, fr):
    for i in range(len(st.frames) - 1, -1, -1):
        if st.frames[i] is fr:
            return i
    return None


PASS_CODE = small_code([('RETURN', None)])
CONT_CODE = small_code([('CONT', None)])


class _Pending(object):
    pass


_PENDING = _Pending()


def _DONE_FRAME(fr):
    f = Frame()
    f.code = fr.code
    f.pc = 0
    f.loc = {}
    f.cells = {}
    f.stack = []
    f.blocks = []
    f.globs = fr.globs
    f.ns = None
    f.gen = None
    f.then = None
    return f


def _raise_it(m, st, v):
    raise PyExc(v)


_FGET = NF('function.__get__', lambda m, st, a, k: a[0] if len(a) < 2 or a[1] is None else BM(a[0], a[1]))


class _ClassDone(object):
    def __init__(self, code, meta, bases, ns, cell, mod):
        self.code, self.meta, self.bases, self.ns, self.cell, self.mod = code, meta, bases, ns, cell, mod

    def __call__(self, m, st, v):
        cell = self.cell
        then = None
        if cell is not None:
            def fin(m2, st2, c):
                st2.w(cell).v = c
                return c
            then = ('nativecont', fin, None)
        ns = st.w(self.ns).p
        ns.setdefault('__module__', ('__module__', self.mod))
        ns.setdefault('__qualname__', ('__qualname__', self.code.qualname))
        return TailCall(self.meta, (self.code.name, self.bases, self.ns), {}, then)


import operator as _op
_BIN = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv, '//': _op.floordiv, '%': _op.mod,
        '**': _op.pow, '<<': _op.lshift, '>>': _op.rshift, '|': _op.or_, '&': _op.and_, '^': _op.xor}
_OPNAME = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
           '<<': 'lshift', '>>': 'rshift', '|': 'or', '&': 'and', '^': 'xor', '@': 'matmul'}
_OPSIGN = {'<': frozenset((-1,)), '<=': frozenset((-1, 0)), '>': frozenset((1,)), '>=': frozenset((0, 1)),
           '==': frozenset((0,)), '!=': frozenset((-1, 1))}
_CMPNAME = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
_CMPREV = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
_CMPF = {'<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge}


def mkconst(kind, ints):
    if kind == 'str':
        return ''.join(map(chr, ints))
    return bytes(ints)
