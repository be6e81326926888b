"""Models of the builtins and of the standard-library names the repository uses."""
import decimal
import re as _re
import base64 as _b64
import struct as _struct
import math as _math

from dom import *
import numfmt
import absdec
import bitops
import reabs
import ir
from machine import (O, FuncO, CellO, GenO, ClsO, ModO, IterO, TailCall, Unsupp, PyExc, NeedIter, STAR, isconst,
                     mkconst, PASS_CODE)


def _fold(m, st, fn, *a, **k):
    try:
        return fn(*a, **k)
    except (TypeError, ValueError, IndexError, KeyError, OverflowError, ZeroDivisionError, LookupError) as e:
        n = type(e).__name__
        m.throw(st, n if n in m.builtins else 'ValueError', str(e))
    except decimal.DecimalException as e:
        m.throw(st, 'ArithmeticError', str(e))
    except Exception as e:
        m.throw(st, 'ValueError', str(e))


def need_iter(m, st, args, i):
    """Elements of args[i], or ask the machine to collect it through the prelude first."""
    c = m.concrete_iter(st, args[i])
    if c is None:
        raise NeedIter(i)
    return c


def sub_new(m, st, cls, kind, payload):
    if cls == m.types[kind]:
        return payload
    return st.new(O(cls, {}, payload))


# --------------------------------------------------------------------------------------------- object / type
def object_new(m, st, args, kw):
    return st.new(O(args[0], {}, None))


def object_init(m, st, args, kw):
    return None


def type_new(m, st, args, kw):
    if len(args) == 2:
        return m.cls_of(st, args[1]) if m.cls_of(st, args[1]) is not None else m.throw(st, 'TypeError', '?')
    meta, name, bases, ns = args[:4]
    c = ClsO()
    c.own = None
    c.name = name
    c.bases = tuple(bases) or (m.types['object'],)
    c.meta = meta
    for b in c.bases:
        bm = st.o(b).meta
        if bm != c.meta and m.issub(st, bm, c.meta):
            # the most derived metaclass wins
            return TailCall(bm, (name, bases, ns))
    c.native = None
    c.d = {}
    for e in st.o(ns).p.values():
        c.d[e[0]] = e[1]
    c.qual = c.d.get('__qualname__', name)
    if '__slots__' in c.d:
        pass
    if '__eq__' in c.d and '__hash__' not in c.d:
        c.d['__hash__'] = None
    nw = c.d.get('__new__')
    if type(nw) is Ref and type(st.o(nw)) is FuncO:
        c.d['__new__'] = st.new(O(m.types['staticmethod'], {}, (nw,)))
    r = st.new(c)
    c.mro = (r,) + tuple(m.world.merge([list(st.o(b).mro) for b in c.bases] + [list(c.bases)]))
    return r


def type_mro(m, st, args, kw):
    return m.mklist(st, st.o(args[0]).mro)


def is_cls(m, st, v):
    return type(v) is Ref and type(st.o(v)) is ClsO


def f_isinstance(m, st, args, kw):
    return m.isinst(st, args[0], args[1])


def f_issubclass(m, st, args, kw):
    c, d = args
    if not is_cls(m, st, c):
        m.throw(st, 'TypeError', 'issubclass() arg 1 must be a class')
    if type(d) is tuple:
        return any(m.issub(st, c, x) for x in d)
    return m.issub(st, c, d)


def lin_sum(m, st, parts):
    r = Lin(0, ())
    for p in parts:
        r = m.add(r, m.lin(st, p))
    return m.unlin(r)


def length(m, st, v):
    v = m.norm(st, v)
    if type(v) is Ref:
        o = st.o(v)
        if type(o) is O:
            f = m.lookup(st, o.cls, '__len__')
            if type(f) is Ref:
                return TailCall(f, (v,))
            if type(o.p) is list:
                if o.p and o.p[-1] is STAR:
                    return blob_len(m, st, o.p[:-1], ('len', v), True)
                return blob_len(m, st, o.p, None, False)
            if type(o.p) in (dict, tuple):
                return len(o.p)
            if o.p is not None:
                return length(m, st, o.p)
        if is_cls(m, st, v):
            f = m.lookup(st, o.meta, '__len__')
            if type(f) is Ref:
                return TailCall(f, (v,))
        m.throw(st, 'TypeError', "object of type '%s' has no len()" % m.tname(st, v))
    if type(v) is Seq:
        return blob_len(m, st, list(v.e), ('len', v), v.star)
    if type(v) is Sym:
        k = ('t', 'len', v)
        if k not in st.facts:
            i = st.syms[v.i]
            st.facts[k] = st.sym('int', i.dom if i.kind == 'run' else NONNEG, term=('len', v), wide=i.wide)
        return st.facts[k]
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    m.throw(st, 'TypeError', "object of type '%s' has no len()" % m.tname(st, v))


def is_blob(m, st, e):
    return type(e) is Sym and st.syms[e.i].kind in ('bytes', 'str', 'run')


def blob_len(m, st, elems, starterm, star):
    """len of a buffer whose elements may be opaque byte blobs (symbols of kind 'bytes')."""
    n = 0
    parts = []
    for e in elems:
        if is_blob(m, st, e):
            parts.append(length(m, st, e))
        else:
            n += 1
    if star:
        st.imprecise = 'length of a widened sequence'
        s = st.sym('int', ((n, INF),), term=starterm, wide=True)
        return s
    if not parts:
        return n
    return lin_sum(m, st, [n] + parts)


def f_len(m, st, args, kw):
    return length(m, st, args[0])


def f_getattr(m, st, args, kw):
    if type(args[1]) is not str:
        raise Unsupp('getattr with unknown name')
    if len(args) == 2:
        return m.getattr(st, args[0], args[1])
    r = m.getattr(st, args[0], args[1], args[2])
    if type(r) is TailCall and r.then is None and not r.kw:
        return TailCall(m.prelude['getattr_default'], (r.f, tuple(r.args), args[2]))
    return r


def f_setattr(m, st, args, kw):
    if type(args[1]) is not str:
        raise Unsupp('setattr with unknown name')
    r = m.setattr(st, args[0], args[1], args[2])
    if type(r) is TailCall:
        return TailCall(r.f, r.args, r.kw, ('const', None, None))
    return None


def f_hasattr(m, st, args, kw):
    try:
        r = m.getattr(st, args[0], args[1], _MISSING)
    except PyExc:
        return False
    if type(r) is TailCall and r.then is None and not r.kw:
        return TailCall(m.prelude['hasattr_call'], (r.f, tuple(r.args)))
    return r is not _MISSING


_MISSING = NF('missing', None)


def f_callable(m, st, args, kw):
    v = args[0]
    if type(v) in (BM, NF):
        return True
    if type(v) is Ref:
        o = st.o(v)
        if type(o) in (FuncO, ClsO):
            return True
        if type(o) is O:
            return o.cls == m.types['partial'] or m.lookup(st, o.cls, '__call__') is not UNDEF
    if type(v) is Sym and st.syms[v.i].kind == 'any':
        return m.opaque_bool(st, ('callable', v))
    return False


def f_iter(m, st, args, kw):
    if len(args) == 2:
        return TailCall(m.prelude['iter_sentinel'], args)
    return m.iterate(st, args[0])


def f_next(m, st, args, kw):
    it = args[0]
    if type(it) is Ref:
        o = st.o(it)
        if type(o) is IterO:
            ok, v = m.iter_next(st, it)
            if ok:
                return v
            if len(args) > 1:
                return args[1]
            m.throw(st, 'StopIteration')
        if type(o) is GenO:
            return TailCall(NF('generator.send', gen_send if len(args) < 2 else gen_send_default),
                            (it, None) + tuple(args[1:]))
        if type(o) is O:
            f = m.lookup(st, o.cls, '__next__')
            if f is not UNDEF:
                return TailCall(f, (it,))
    m.throw(st, 'TypeError', "'%s' object is not an iterator" % m.tname(st, it))


class _Resume(object):
    pass


def gen_send(m, st, args, kw):
    raise RuntimeError('handled by Machine.call')


def gen_send_default(m, st, args, kw):
    raise RuntimeError('handled by Machine.call')


def f_range(m, st, args, kw):
    a = [m.raw(st, x) for x in args]
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, step = a[0], a[1], 1
    else:
        lo, hi, step = a
    if all(type(x) in (int, bool) for x in (lo, hi, step)):
        if abs(hi - lo) > 300000:
            raise Unsupp('huge range')
        return st.new(O(m.types['tuple'], {}, tuple(range(lo, hi, step))))
    if step == 1 and m.lin(st, lo) is not None and m.lin(st, hi) is not None:
        return st.new(IterO('range', (lo, hi)))
    raise Unsupp('abstract range')


def minmax(op, pre):
    def f(m, st, args, kw):
        if 'key' in kw or 'default' in kw:
            if len(args) == 1:
                it = args[0]
            else:
                it = tuple(args)
            return TailCall(m.prelude['best'], (it, kw.get('key'), (kw['default'],) if 'default' in kw else (), op == '<'))
        if len(args) == 1:
            return TailCall(m.prelude[pre], args)
        best = args[0]
        for x in args[1:]:
            a, b = m.lin(st, x), m.lin(st, best)
            if a is None or b is None:
                a, b = m.raw(st, x), m.raw(st, best)
                if isconst(a) and isconst(b):
                    if (a < b) if op == '<' else (a > b):
                        best = x
                    continue
                raise Unsupp('min/max of unknown')
            if m.compare(st, op, a, b):
                best = x
        return best
    return f


def f_abs(m, st, args, kw):
    v = m.raw(st, args[0])
    if isconst(v):
        return abs(v)
    l = m.lin(st, v)
    if l is None:
        i = st.syms[v.i]
        return st.sym(i.kind, None, i.cls, ('abs', v))
    if m.compare(st, '<', l, Lin(0, ())):
        return m.unlin(m.neg(l))
    return v


def f_ord(m, st, args, kw):
    e, star = m.elems(st, args[0])
    if star:
        raise Unsupp('ord of widened')
    if len(e) != 1:
        m.throw(st, 'TypeError', 'ord() expected a character')
    return m.norm(st, e[0])


def f_chr(m, st, args, kw):
    v = m.raw(st, args[0])
    l = m.lin(st, v)
    if l is None:
        m.throw(st, 'TypeError', 'an integer is required')
    if type(v) in (int, bool):
        if not 0 <= v <= 0x10FFFF:
            m.throw(st, 'ValueError', 'chr() arg not in range(0x110000)')
        return chr(v)
    if m.compare(st, '<', l, Lin(0, ())) or m.compare(st, '>', l, Lin(0x10FFFF, ())):
        m.throw(st, 'ValueError', 'chr() arg not in range(0x110000)')
    if type(v) is Lin:
        s = st.sym('int', CHAR, term=('lin', v))
        return Seq('str', (s,))
    return Seq('str', (v,))


def f_repr(m, st, args, kw):
    v = args[0]
    if isconst(v):
        return repr(v)
    if type(v) is Ref and type(st.o(v)) is O:
        f = m.lookup(st, st.o(v).cls, '__repr__')
        if type(f) is Ref:
            return TailCall(f, (v,))
        if m.base_kind(st, st.o(v).cls) in ('int', 'float'):
            v = m.raw(st, v)
            if isconst(v):
                return repr(v)
    if fsign(st, v):
        return float_repr(m, st, v)
    r = deep_repr(m, st, v)
    return r if r is not None else st.sym('str', term=('repr', v))


SHAPES = ('D.D', '0.D', 'DX.D', 'D.XD', '0.0XD', 'De+1X', 'De-XD', 'D.De+XDX', 'D.XDe-1X', 'DXXXXXXXXXXXXXXX.0')


def fsign(st, v):
    """The sign of an abstract float known to be finite and not zero, else None"""
    return st.facts.get(('fsign', v.i)) if type(v) is Sym else None


def float_repr(m, st, v):
    """repr of an abstract float: one of the shapes Python prints, with abstract digits"""
    k = ('t', 'frepr', v)
    if k not in st.facts:
        shape = SHAPES[m.choose(st, len(SHAPES))]
        els = [45] if fsign(st, v) < 0 else []
        for c in shape:
            els.append(st.sym('int', ((49, 57),) if c == 'D' else ((48, 57),), term=('fdigit', v)) if c in 'DX' else ord(c))
        st.facts[k] = Seq('str', tuple(els))
    return st.facts[k]


def deep_repr(m, st, v, depth=0):
    """repr of containers of constants and of exceptions with constant arguments, else None"""
    if depth > 5:
        return None
    if type(v) is not Ref and isconst(v) or isinstance(v, decimal.Decimal):
        return repr(v)
    sub = lambda x: deep_repr(m, st, x, depth + 1)
    if type(v) is tuple:
        e = [sub(x) for x in v]
        return None if None in e else '(%s%s)' % (', '.join(e), ',' if len(e) == 1 else '')
    if type(v) is Ref and type(st.o(v)) is O:
        o = st.o(v)
        if type(m.lookup(st, o.cls, '__repr__')) is Ref:
            return None
        if o.cls == m.types['list']:
            e = [sub(x) for x in o.p]
            return None if None in e else '[%s]' % ', '.join(e)
        if o.cls == m.types['dict']:
            e = [(sub(a), sub(b)) for a, b in o.p.values()]
            return None if any(None in x for x in e) else '{%s}' % ', '.join('%s: %s' % x for x in e)
        if m.issub(st, o.cls, m.builtins['BaseException']):
            e = [sub(x) for x in o.attrs.get('args', ())]
            return None if None in e else '%s(%s)' % (st.o(o.cls).name, ', '.join(e))
    return None


def f_ascii(m, st, args, kw):
    v = m.raw(st, args[0])
    if isconst(v):
        return ascii(v)
    return st.sym('str', term=('ascii', v))


def f_hex(name):
    fn = {'hex': hex, 'oct': oct}[name]

    def f(m, st, args, kw):
        v = m.raw(st, args[0])
        if type(v) in (int, bool):
            return fn(v)
        if m.symdigits:
            r = numfmt.digits(m, st, v, 16 if name == 'hex' else 8)
            if r is not None:
                return m.seqnorm(st, Seq('str', (48, 120 if name == 'hex' else 111) + tuple(r)))
        return st.sym('str', term=(name, v))
    return f


def f_format(m, st, args, kw):
    a = [m.raw(st, x) for x in args]
    if all(isconst(x) or isinstance(x, decimal.Decimal) for x in a):
        return _fold(m, st, format, *a)
    if m.symdigits:
        r = numfmt.spec(m, st, a[0], a[1] if len(a) > 1 else '')
        if r is not None:
            return r
    return st.sym('str', term=('format',) + tuple(a))


def f_delattr(m, st, args, kw):
    o = st.w(args[0])
    if type(o) is not O or not o.attrs or args[1] not in o.attrs:
        m.throw(st, 'AttributeError', args[1])
    del o.attrs[args[1]]
    return None


def f_vars(m, st, args, kw):
    o = st.o(args[0])
    if type(o) is O and o.attrs is not None:
        return m.mkdict(st, [(k, v) for k, v in o.attrs.items() if not k.startswith('__')])
    raise Unsupp('vars')


def f_print(m, st, args, kw):
    return None


def f_id(m, st, args, kw):
    return st.sym('int', NONNEG, term=('id', args[0]))


def f_hash(m, st, args, kw):
    if type(args[0]) is Ref and type(st.o(args[0])) is O:
        f = m.lookup(st, st.o(args[0]).cls, '__hash__')
        if type(f) is Ref:
            return TailCall(f, (args[0],))
    if isconst(m.raw(st, args[0])):
        return hash(m.raw(st, args[0]))
    return st.sym('int', ALLINT, term=('hash', args[0]))


def f_bin(m, st, args, kw):
    v = m.raw(st, args[0])
    if type(v) in (int, bool):
        return bin(v)
    return st.sym('str', term=('bin', v))


def f_sorted(m, st, args, kw):
    c = need_iter(m, st, args, 0)
    rev = m.truth(st, kw.get('reverse', False))
    if type(rev) is TailCall:
        raise Unsupp('sorted reverse')

    def fin(m2, st2, r):
        st2.w(r, 'reverse').p.reverse()
        return r
    # a stable sort in descending order: sort the reversed input ascending, then reverse
    return TailCall(m.prelude['list_sort_insert'], (tuple(c[::-1]) if rev else tuple(c), kw.get('key')), None,
                    ('nativecont', fin, None) if rev else None)


def f_round(m, st, args, kw):
    v = m.raw(st, args[0])
    if isconst(v):
        return round(v, *[m.raw(st, x) for x in args[1:]])
    raise Unsupp('round')


def f_divmod(m, st, args, kw):
    return (m.binary(st, '//', args[0], args[1]), m.binary(st, '%', args[0], args[1]))


def f_pow(m, st, args, kw):
    if len(args) > 2:
        a = [m.raw(st, x) for x in args]
        if not all(type(x) is int for x in a):
            raise Unsupp('pow with a modulus')
        return _fold(m, st, pow, *a)
    return m.binary(st, '**', args[0], args[1])


# --------------------------------------------------------------------------------------------- int
def digits_dom(m, st, v):
    """Bounds of int(v) for a sequence of decimal digits, else None."""
    if type(v) is not Seq:
        return None
    lo = hi = 0
    for x in v.e:
        d = ((x, x),) if type(x) is int else st.syms[x.i].dom if type(x) is Sym and st.syms[x.i].kind == 'int' else None
        if not d or d[0][0] < 48 or d[-1][1] > 57:
            if type(x) is Sym and st.syms[x.i].kind == 'run':
                return NONNEG
            return None
        lo, hi = lo * 10 + int(d[0][0]) - 48, hi * 10 + int(d[-1][1]) - 48
    return NONNEG if v.star else ((lo, hi),)


def int_new(m, st, args, kw):
    cls = args[0]
    if len(args) == 1:
        return sub_new(m, st, cls, 'int', 0)
    v = args[1]
    if type(v) is Ref and type(st.o(v)) is O:
        f = m.lookup(st, st.o(v).cls, '__int__')
        if f is not UNDEF and m.base_kind(st, st.o(v).cls) != 'int':
            return TailCall(f, (v,), None, None if cls == m.types['int'] else ('nativecont', _Wrap(cls, 'int'), None))
    v = m.raw(st, v)
    base = m.raw(st, args[2]) if len(args) > 2 else m.raw(st, kw['base']) if 'base' in kw else None
    k = m.kindof(st, v)
    if type(v) in (str, bytes) and (base is None or type(base) is int):
        r = _fold(m, st, int, v, *([base] if base is not None else []))
    elif type(v) is Ref and m.base_kind(st, st.o(v).cls) == 'bytearray':
        e, star = m.elems(st, v)
        if not star and all(type(x) is int for x in e):
            r = _fold(m, st, int, bytes(e), *([base] if base is not None else []))
        else:
            r = st.sym('int', digits_dom(m, st, mk_seq_term(m, st, v)) if base in (None, 10) else None,
                       term=('int', mk_seq_term(m, st, v), base))
    elif k in ('str', 'bytes'):
        r = st.sym('int', digits_dom(m, st, v) if base in (None, 10) else None, term=('int', v, base))
    elif type(v) is bool:
        r = int(v)
    elif type(v) in (int, float) or isinstance(v, decimal.Decimal):
        r = _fold(m, st, int, v)
    elif m.lin(st, v) is not None:
        r = m.unlin(m.lin(st, v))
    elif type(v) is Sym:
        ad = absdec.get(st, v)
        z = absdec.to_int(m, st, ad) if ad is not None else None
        if z is not None:
            r = z
        elif dec_coef(m, st, v) == 0:
            r = 0
        else:
            rng = dec_range(m, st, v) if st.syms[v.i].cls == m.types['Decimal'] else None
            r = st.sym('int', ((int(rng[0]), int(rng[1])),) if rng else None, term=('int', v))
    else:
        m.throw(st, 'TypeError', "int() argument must be a string, a bytes-like object or a number, not '%s'"
                % m.tname(st, v))
    return sub_new(m, st, cls, 'int', r)


def mk_seq_term(m, st, v):
    e, star = m.elems(st, v)
    return Seq('bytes', tuple(e), star)


class _Wrap(object):
    def __init__(self, cls, kind):
        self.cls, self.kind = cls, kind

    def __call__(self, m, st, v):
        return sub_new(m, st, self.cls, self.kind, v)


def slice_new(m, st, args, kw):
    a = list(args[1:])
    if len(a) == 1:
        a = [None, a[0]]
    return Slice(*(a + [None] * (3 - len(a))))


def bool_new(m, st, args, kw):
    if len(args) == 1:
        return False
    b = m.truth(st, args[1])
    if type(b) is TailCall:
        b.then = ('truth', b.then)
    return b


def int_bit_length(m, st, args, kw):
    v = m.raw(st, args[0])
    if type(v) in (int, bool):
        return int(v).bit_length()
    if m.symdigits and m.lin(st, v) is not None:
        n = bitops.bit_length(m, st, m.lin(st, v))
        if n is not None:
            return n
    return st.sym('int', NONNEG, term=('bit_length', v))


def int_to_bytes(m, st, args, kw):
    v = m.raw(st, args[0])
    a = [m.raw(st, x) for x in args[1:]]
    k = {x: m.raw(st, y) for x, y in kw.items()}
    if isconst(v) and all(isconst(x) for x in a) and all(isconst(x) for x in k.values()):
        return _fold(m, st, lambda: int(v).to_bytes(*a, **k))
    n, order = (a + [None, None])[:2] if len(a) > 1 else (a[0] if a else k.get('length'), k.get('byteorder'))
    if m.symdigits and type(n) is int and order in ('big', 'little') and m.lin(st, v) is not None and not k.get('signed'):
        l = m.lin(st, v)
        if m.compare(st, '<', l, Lin(0, ())) or not m.compare(st, '<', l, Lin(1 << (8 * n), ())):
            m.throw(st, 'OverflowError', 'int too big to convert')
        e = bitops.to_bytes(m, st, m.lin(st, m.norm(st, m.unlin(l))), n, order)
        if e is not None:
            return m.seqnorm(st, Seq('bytes', tuple(x if type(x) is int else st_term(m, st, x) for x in e)))
    return st.sym('bytes', term=('to_bytes', v) + tuple(a))


def int_from_bytes(m, st, args, kw):
    v = m.raw(st, args[1])
    e, star = m.elems(st, v)
    k = {x: m.raw(st, y) for x, y in kw.items()}
    a = [m.raw(st, x) for x in args[2:]]
    if not star and all(type(x) is int for x in e):
        return _fold(m, st, lambda: int.from_bytes(bytes(e), *a, **k))
    order = k.get('byteorder', a[0] if a else 'big')
    if k.get('signed') or len(a) > 1:
        return st.sym('int', term=('from_bytes', Seq('bytes', tuple(e), star), order, 's'))
    if not star and order in ('big', 'little') and all(m.lin(st, x) is not None and not is_blob(m, st, x) for x in e):
        r = Lin(0, ())
        for x in (e if order == 'big' else e[::-1]):
            r = m.add(Lin(r.c * 256, tuple((s, c * 256) for s, c in r.t)), m.lin(st, x))
        return m.unlin(r)
    return st.sym('int', NONNEG, term=('from_bytes', Seq('bytes', tuple(e), star), order))


def int_cmp(op):
    def f(m, st, args, kw):
        a, b = m.lin(st, args[0]), m.lin(st, args[1])
        if a is None or b is None:
            return NotImplemented
        return m.compare(st, op, a, b)
    return f


# --------------------------------------------------------------------------------------------- float / Decimal
def float_new(m, st, args, kw):
    cls = args[0]
    v = m.raw(st, args[1]) if len(args) > 1 else 0.0
    if type(v) is Ref and type(st.o(v).p) is list:
        el, star = as_bytes_elems(m, st, v)
        v = m.seqnorm(st, Seq('bytes', tuple(el), star))
    if isconst(v) or isinstance(v, decimal.Decimal):
        r = _fold(m, st, float, v)
    else:
        r = st.sym('float', term=('float', v))
    return sub_new(m, st, cls, 'float', r)


def float_is_integer(m, st, args, kw):
    v = m.raw(st, args[0])
    if isconst(v):
        return float(v).is_integer()
    return st.sym('bool', ((0, 1),), term=('is_integer', v))


def dec_new(m, st, args, kw):
    cls = args[0]
    v = m.raw(st, args[1]) if len(args) > 1 else kw.get('value', 0)
    v = const_tuple(m, st, v)
    if v is not UNDEF and (isconst(v) or isinstance(v, decimal.Decimal)):
        r = _fold(m, st, decimal.Decimal, v)
    else:
        v = args[1]
        r = st.sym('obj', None, m.types['Decimal'], ('Decimal', v))
    return sub_new(m, st, cls, 'Decimal', r)


def const_tuple(m, st, v):
    v = m.raw(st, v)
    if type(v) is tuple:
        out = []
        for x in v:
            y = const_tuple(m, st, x)
            if y is UNDEF:
                return UNDEF
            out.append(y)
        return tuple(out)
    if type(v) in (Sym, Lin, Seq, Ref, BM, NF):
        return UNDEF
    return v


def host_context(m, st, c):
    """The decimal context of an object that sets a precision, traps or both -> Context or None"""
    at = st.o(c).attrs or {}
    if set(at) - {'prec', 'traps'} or type(at.get('prec', 28)) is not int or not 0 < at.get('prec', 28) < 10 ** 9:
        return None
    k = dict(prec=at.get('prec', 28))
    if 'traps' in at:
        t = m.concrete_iter(st, at['traps'])
        t = t if t is None else [st.o(x).name if type(x) is Ref and type(st.o(x)) is ClsO else None for x in t]
        if t is None or any(not hasattr(decimal, n or '') for n in t):
            return None
        k['traps'] = [getattr(decimal, n) for n in t]
    return decimal.Context(**k)


def dec_method(name, kind='obj'):
    def f(m, st, args, kw):
        v = m.raw(st, args[0])
        a = [m.raw(st, x) for x in args[1:]]
        if isinstance(v, decimal.Decimal) and all(isconst(x) or isinstance(x, decimal.Decimal) for x in a) and not kw:
            c = st.facts.get(('ctx',))
            prec = (st.o(c).attrs or {}).get('prec') if type(c) is Ref else 28
            if type(prec) is not int or not 0 < prec < 10 ** 9:
                raise Unsupp('decimal context')
            with decimal.localcontext() as dc:
                dc.prec = prec
                r = _fold(m, st, getattr(v, name), *a)
            if isinstance(r, tuple):
                return dectuple(m, st, r)
            return r
        if isinstance(v, decimal.Decimal) and all(isconst(x) or isinstance(x, decimal.Decimal) for x in a) and set(kw) == {'context'} and type(kw['context']) is Ref:
            c = host_context(m, st, kw['context'])
            if c is not None:
                try:
                    return getattr(v, name)(*a, context=c)
                except decimal.DecimalException as e:
                    raise PyExc(st.new(O(m.types.get(type(e).__name__, m.builtins['ArithmeticError']), {'args': (str(e),)}, None)))
        ad = absdec.get(st, v)
        if ad is not None:
            c = kw.get('context', a[-1] if name == 'scaleb' and len(a) > 1 else st.facts.get(('ctx',)))
            prec = (st.o(c).attrs or {}).get('prec') if type(c) is Ref else None
            r = absdec.method(m, st, name, ad, v, a[:1] if name == 'scaleb' else a, prec if type(prec) is int else 28)
            if type(r) is tuple and r[0] == 'tuple':
                return dectuple(m, st, r[1:])
            if type(r) is tuple and r[0] == 'zero':
                return m.compare(st, '==', m.lin(st, m.norm(st, r[1])), Lin(0, ()))
            if r is not None:
                return r
        if name == 'as_tuple':
            key = ('t', 'as_tuple', v)
            if key not in st.facts:
                exp = dec_exponent(m, st, v)
                st.facts[key] = (st.sym('int', ((0, 1),), term=('dec_sign', v)),
                                 st.sym('any', term=('dec_digits', v)),
                                 exp if exp is not None else st.sym('int', term=('dec_exp', v)))
            return dectuple(m, st, st.facts[key])
        t = ('dec.' + name, v) + tuple(args[1:])
        c = kw.get('context', st.facts.get(('ctx',)))
        if c is not None:
            at = (st.o(c).attrs or {}) if type(c) is Ref else {}
            t += (('ctx', at.get('prec')),)
        if kind == 'bool':
            return st.sym('bool', ((0, 1),), term=t)
        if kind == 'int':
            return st.sym('int', term=t)
        return st.sym('obj', None, m.types['Decimal'], t)
    return f


def dec_exponent(m, st, v):
    """The exponent of a Decimal term of at most 28 digits built from an int or from decimal digits, when it is certain."""
    v = m.raw(st, v)
    if isinstance(v, decimal.Decimal):
        return v.as_tuple().exponent if v.is_finite() else None
    t = st.syms[v.i].term if type(v) is Sym else None
    if t is None:
        return None
    if t[0] == 'adec':
        return t[4]
    if t[0] == 'Decimal':
        x = m.raw(st, t[1])
        y = st.syms[x.i].term if type(x) is Sym else None
        if type(x) is int or type(x) is Lin or type(x) is Sym and st.syms[x.i].kind == 'int' and (y is None or y[0] != 'int'):
            return 0
        if type(x) is tuple and len(x) == 3 and type(x[1]) is tuple:
            return x[2]
        if y is not None and y[0] == 'int':
            z = m.raw(st, y[1])
            return 0 if type(z) is Seq and not z.star and len(z.e) <= 28 else None
        if type(x) is Seq and not x.star and len(x.e) <= 28 and all(type(e) is int or type(e) is Sym for e in x.e):
            d = [e for e in x.e if type(e) is int]
            if all(48 <= e <= 57 or e == 46 for e in d) and d.count(46) <= 1 and \
                    all(is_sub(st.syms[e.i].dom or ((0, 1114111),), ((48, 57),)) == () for e in x.e if type(e) is Sym):
                return -(len(x.e) - 1 - x.e.index(46)) if 46 in d else 0
        return None
    if t[0] == 'dec.scaleb' and (len(t) == 3 or type(t[3]) is tuple):
        # (a run of more than 28 digits may be rounded under the ambient context: reported by the digit comparison rules)
        e = dec_exponent(m, st, t[1])
        n = m.raw(st, t[2])
        if type(n) is Sym and st.syms[n.i].kind == 'int':
            n = m.lin(st, n)
        if e is None or type(n) not in (int, Lin):
            return None
        return m.norm(st, m.add(*(Lin(x, ()) if type(x) is int else x for x in (e, n))))
    return None


def dec_coef(m, st, v):
    """The signed coefficient (int or Lin) of a structural Decimal term built from an integer, else None."""
    v = m.raw(st, v)
    t = st.syms[v.i].term if type(v) is Sym else None
    if t is None:
        return None
    if t[0] == 'adec':
        return absdec.coef(m, st, t)
    if t[0] == 'Decimal':
        x = m.raw(st, t[1])
        if type(x) is tuple and len(x) == 3 and x[1] == (0,):
            return 0
        return x if type(x) is int or type(x) is Lin else m.lin(st, x) if type(x) is Sym and st.syms[x.i].kind == 'int' else None
    if t[0] == 'dec.scaleb' and (len(t) == 3 or type(t[3]) is tuple):
        return dec_coef(m, st, t[1])
    return None


def dec_range(m, st, v):
    """(lowest, highest) value of a structural Decimal term with bounded coefficient and exponent, else None."""
    from fractions import Fraction
    c, e = dec_coef(m, st, v), dec_exponent(m, st, v)
    if c is None or e is None:
        return None
    (cl, ch), (el, eh) = (m.lin_range(st, m.lin(st, x)) for x in (c, e))
    if not all(type(x) is int for x in (cl, ch, el, eh)) or el < -400 or eh > 400:
        return None
    vs = [x * Fraction(10) ** y for x in (cl, ch) for y in (el, eh)]
    return min(vs), max(vs)


def dectuple(m, st, t):
    t = tuple(t)
    return st.new(O(m.types['DecimalTuple'], {}, t))


# --------------------------------------------------------------------------------------------- str / bytes
def str_new(m, st, args, kw):
    cls = args[0]
    if len(args) == 1:
        return sub_new(m, st, cls, 'str', '')
    v = args[1]
    if len(args) > 2 or 'encoding' in kw:
        r = decode(m, st, v, args[2] if len(args) > 2 else kw['encoding'])
        return sub_new(m, st, cls, 'str', r)
    if type(v) is Ref:
        o = st.o(v)
        if type(o) is O and m.issub(st, o.cls, m.builtins['BaseException']) and type(m.lookup(st, o.cls, '__str__')) is not Ref:
            a = o.attrs.get('args', ())
            if not a:
                return ''
            if len(a) == 1 and not m.issub(st, o.cls, m.builtins['KeyError']):
                if type(a[0]) is not Ref:
                    return str_new(m, st, (m.types['str'], a[0]), {})
            r = deep_repr(m, st, tuple(a) if len(a) > 1 else a[0])
            return r if r is not None else st.sym('str', term=('str', v))
        if type(o) is O and o.cls in (m.types['list'], m.types['dict']):
            r = deep_repr(m, st, v)
            if r is not None:
                return r
        if type(o) is O:
            f = m.lookup(st, o.cls, '__str__')
            if f is UNDEF:
                f = m.lookup(st, o.cls, '__repr__')
            if type(f) is Ref and m.base_kind(st, o.cls) is None:
                return TailCall(f, (v,))
            if m.base_kind(st, o.cls) == 'str':
                return sub_new(m, st, cls, 'str', m.raw(st, v))
            if type(f) is Ref or m.base_kind(st, o.cls) not in ('int', 'float', 'Decimal'):
                return st.sym('str', term=('str', v))
    v = m.raw(st, v)
    if m.kindof(st, v) == 'str':
        return sub_new(m, st, cls, 'str', v)
    if isconst(v) or isinstance(v, decimal.Decimal):
        return sub_new(m, st, cls, 'str', str(v))
    if fsign(st, v):
        return sub_new(m, st, cls, 'str', float_repr(m, st, v))
    ad = absdec.get(st, v)
    if ad is not None:
        return sub_new(m, st, cls, 'str', absdec.text(m, st, ad))
    if m.symdigits and m.kindof(st, v) == 'int':
        r = numfmt.digits(m, st, v, 10)
        if r is not None:
            return sub_new(m, st, cls, 'str', m.seqnorm(st, Seq('str', tuple(r))))
    return sub_new(m, st, cls, 'str', st.sym('str', term=('str', v)))


def as_bytes_elems(m, st, v):
    """Elements (ints, Syms, blobs) of a bytes-like value -> (list, star)"""
    v = m.raw(st, v)
    if type(v) is Sym and st.syms[v.i].kind == 'bytes':
        return [v], False
    return m.elems(st, v)


def bytes_new(m, st, args, kw):
    cls = args[0]
    if len(args) == 1:
        return sub_new(m, st, cls, 'bytes', b'')
    v = m.raw(st, args[1])
    k = m.kindof(st, v)
    if k == 'str':
        if len(args) < 3 and 'encoding' not in kw:
            m.throw(st, 'TypeError', 'string argument without an encoding')
        return sub_new(m, st, cls, 'bytes', encode(m, st, v, args[2] if len(args) > 2 else kw['encoding']))
    if k == 'bytes':
        return sub_new(m, st, cls, 'bytes', v)
    if type(v) in (int, bool):
        return sub_new(m, st, cls, 'bytes', bytes(v))
    if m.lin(st, v) is not None:
        raise Unsupp('bytes(n)')
    e = byte_elems(m, st, args, 1)
    return sub_new(m, st, cls, 'bytes', mkbytes(m, st, e))


def memoryview_new(m, st, args, kw):
    # a snapshot: a later change of the viewed object is not seen (and is not modelled)
    return st.new(O(args[0], None, m.raw(st, bytes_new(m, st, (m.types['bytes'],) + tuple(args[1:]), {}))))


def mkbytes(m, st, e):
    if e and e[-1] is STAR:
        return Seq('bytes', tuple(e[:-1]), True)
    if any(is_blob(m, st, x) for x in e):
        return st.sym('bytes', term=('cat', tuple(e)))
    return m.seqnorm(st, Seq('bytes', tuple(e)))


def byte_elems(m, st, args, i):
    v = m.raw(st, args[i])
    if type(v) is Ref and type(st.o(v)) is O and m.base_kind(st, st.o(v).cls) == 'bytearray':
        return list(st.o(v).p)
    if m.kindof(st, v) == 'bytes':
        e, star = as_bytes_elems(m, st, v)
        return e + ([STAR] if star else [])
    if m.kindof(st, v) == 'str':
        m.throw(st, 'TypeError', 'string argument without an encoding')
    out = []
    for x in need_iter(m, st, args, i):
        out.append(check_byte(m, st, x))
    return out


def check_byte(m, st, x):
    x = m.raw(st, x)
    if type(x) in (int, bool):
        if not 0 <= x <= 255:
            m.throw(st, 'ValueError', 'byte must be in range(0, 256)')
        return int(x)
    l = m.lin(st, x)
    if l is None:
        if type(x) is Sym and st.syms[x.i].kind == 'any':
            return st.sym('int', BYTE, term=('byte', x))
        m.throw(st, 'TypeError', "'%s' object cannot be interpreted as an integer" % m.tname(st, x))
    lo, hi = m.lin_range(st, l)
    if lo < 0 and m.compare(st, '<', l, Lin(0, ())):
        m.throw(st, 'ValueError', 'byte must be in range(0, 256)')
    if hi > 255 and m.compare(st, '>', l, Lin(255, ())):
        m.throw(st, 'ValueError', 'byte must be in range(0, 256)')
    return x if type(x) is Sym else st_term(m, st, x)


def st_term(m, st, l):
    if type(l) is Lin:
        k = ('t', 'linsym', l)
        if k not in st.facts:
            lo, hi = m.lin_range(st, l)
            st.facts[k] = st.sym('int', ((lo, hi),), term=('lin', l))
        return st.facts[k]
    return l


def bytearray_new(m, st, args, kw):
    return st.new(O(args[0], None if args[0] == m.types['bytearray'] else {}, []))


def bytearray_init(m, st, args, kw):
    if len(args) > 1:
        v = m.raw(st, args[1])
        if type(v) in (int, bool):
            st.w(args[0]).p[:] = [0] * v
            return None
        if m.lin(st, v) is not None:
            st.w(args[0]).p[:] = [st.sym('bytes', term=('zeros', v))]
            return None
        if m.kindof(st, v) == 'str':
            if len(args) < 3:
                m.throw(st, 'TypeError', 'string argument without an encoding')
            e, star = m.elems(st, encode(m, st, v, args[2]))
            st.w(args[0]).p[:] = e
            return None
        e = byte_elems(m, st, args, 1)
        st.w(args[0]).p[:] = e
    return None


def encode_abs(m, st, v, enc):
    lim = {'ascii': 0x80, 'us-ascii': 0x80, 'latin-1': 0x100, 'iso-8859-1': 0x100, 'latin1': 0x100, 'utf-8': None, 'utf8': None}
    if enc not in lim:
        return None
    out = []
    for e in v.e:
        e = m.norm(st, e)
        if type(e) is int:
            try:
                out += list(chr(e).encode(enc))
            except UnicodeEncodeError as x:
                m.throw(st, 'UnicodeEncodeError', str(x))
            continue
        if type(e) is not Sym or st.syms[e.i].kind != 'int':
            return None
        if lim[enc]:
            if m.indom(st, e, ((lim[enc], 0x10ffff),)):
                m.throw(st, 'UnicodeEncodeError', 'character out of range')
            out.append(e)
            continue
        if m.indom(st, e, ((0, 0x7f),)):
            out.append(e)
            continue
        if m.indom(st, e, ((0xd800, 0xdfff),)):
            m.throw(st, 'UnicodeEncodeError', 'surrogates not allowed')
        n = 2 if m.indom(st, e, ((0x80, 0x7ff),)) else 3 if m.indom(st, e, ((0x800, 0xffff),)) else 4
        for k in range(n):
            key = ('t', 'utf8', n, k, e)
            if key not in st.facts:
                st.facts[key] = st.sym('int', (((0xc2, 0xdf), (0xe0, 0xef), (0xf0, 0xf4))[n - 2],) if k == 0 else ((0x80, 0xbf),),
                                       term=('utf8', n, k, e))
            out.append(st.facts[key])
    return m.seqnorm(st, Seq('bytes', tuple(out)))


def encode(m, st, v, enc='utf-8'):
    v = m.raw(st, v)
    if isconst(v) and isconst(enc):
        return _fold(m, st, v.encode, enc)
    if m.symdigits and type(v) is Seq and not v.star and isinstance(enc, str):
        r = encode_abs(m, st, v, enc.lower().replace('_', '-'))
        if r is not None:
            return r
    if type(v) is Seq and not v.star:
        out = []
        hi = 0x80 if 'latin' not in str(enc) else 0x100
        for e in v.e:
            d = st.syms[e.i].dom if type(e) is Sym else ((e, e),)
            if d[-1][1] >= hi:
                return st.sym('bytes', term=('encode', v, enc))
        return Seq('bytes', v.e)
    return st.sym('bytes', term=('encode', v, enc))


def decode(m, st, v, enc='utf-8'):
    v = m.raw(st, v)
    if isconst(v) and isconst(enc):
        return _fold(m, st, v.decode, enc)
    e, star = as_bytes_elems(m, st, v) if type(v) is not Ref else (list(st.o(v).p), False)
    if e and e[-1] is STAR:
        e, star = e[:-1], True
    if isconst(enc) and str(enc).replace('_', '-').lower() == 'unicode-escape':
        if star:
            raise Unsupp('unicode-escape of a widened sequence')
        return unicode_escape(m, st, e)
    if isconst(enc) and str(enc).replace('_', '-').lower() not in ('utf-8', 'utf8', 'ascii', 'latin-1', 'latin1'):
        raise Unsupp('decode %r' % (enc,))
    if not star and not any(is_blob(m, st, x) for x in e):
        if all(type(x) is int for x in e):
            return _fold(m, st, bytes(e).decode, enc)
        if all((st.syms[x.i].dom[-1][1] if type(x) is Sym else x) < 0x80 for x in e):
            return m.seqnorm(st, Seq('str', tuple(e)))
    return st.sym('str', term=('decode', Seq('bytes', tuple(e), star), enc))


_SIMPLE_ESC = {92: 92, 39: 39, 34: 34, 97: 7, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11}


def hexval(m, st, digits):
    """The integer value of a run of (abstract) hexadecimal digit characters."""
    if all(type(d) is int for d in digits):
        return int(''.join(chr(d) for d in digits), 16)
    k = ('t', 'hex', tuple(digits))
    if k not in st.facts:
        iv = [(0, 0)]
        for d in digits:
            if type(d) is int:
                vs = [int(chr(d), 16)]
            else:
                dom = is_and(st.syms[d.i].dom, ((48, 57), (65, 70), (97, 102)))
                vs = sorted(set(int(chr(c), 16) for x, y in dom for c in range(x, y + 1)))
            runs = []
            for v in vs:
                if runs and runs[-1][1] == v - 1:
                    runs[-1] = (runs[-1][0], v)
                else:
                    runs.append((v, v))
            out = []
            for lo, hi in iv:
                if runs == [(0, 15)] or hi - lo > 64:
                    out.append((lo * 16 + runs[0][0], hi * 16 + runs[-1][1]))
                else:
                    out += [(p * 16 + x, p * 16 + y) for p in range(lo, hi + 1) for x, y in runs]
            iv = out
        dom = ()
        for x in iv:
            dom = is_or(dom, (x,))
        st.facts[k] = st.sym('int', dom, term=('hex',) + tuple(digits))
    return st.facts[k]


def unicode_escape(m, st, e):
    out = []
    i = 0
    while i < len(e):
        x = e[i]
        if type(x) is Sym:
            if m.inset(st, x, [92]):
                x = 92
        if x != 92:
            out.append(x)
            i += 1
            continue
        if i + 1 >= len(e):
            m.throw(st, 'UnicodeDecodeError', 'trailing backslash')
        n = e[i + 1]
        if type(n) is Sym:
            n = m.norm(st, n)
        if type(n) is Sym:
            for k in sorted(_SIMPLE_ESC) + [10, 120, 117, 85] + list(range(48, 56)):
                if m.inset(st, n, [k]):
                    n = k
                    break
            else:
                raise Unsupp('escape by an abstract character')
        if n in _SIMPLE_ESC:
            out.append(_SIMPLE_ESC[n])
            i += 2
            continue
        if n == 10:
            i += 2
            continue
        w = {120: 2, 117: 4, 85: 8}.get(n)
        if w is None:
            if n == 78:
                raise Unsupp('named escape')
            if 48 <= n <= 55:
                v, i = n - 48, i + 2
                for _ in range(2):
                    if i >= len(e):
                        break
                    y = m.norm(st, e[i]) if type(e[i]) is Sym else e[i]
                    if type(y) is Sym:
                        for k in range(48, 56):
                            if m.inset(st, y, [k]):
                                y = k
                                break
                    if type(y) is not int or not 48 <= y <= 55:
                        break
                    v, i = v * 8 + y - 48, i + 1
                out.append(v)
                continue
            out += [92, n]
            i += 2
            continue
        ds = e[i + 2:i + 2 + w]
        if len(ds) < w:
            m.throw(st, 'UnicodeDecodeError', 'truncated escape')
        for d in ds:
            if type(d) is not int and is_sub(st.syms[d.i].dom, ((48, 57), (65, 70), (97, 102))) or \
                    type(d) is int and chr(d) not in '0123456789abcdefABCDEF':
                raise Unsupp('non-hex digit in escape')
        v = hexval(m, st, ds)
        if w == 8 and not m.compare(st, '<=', m.lin(st, v), Lin(0x10FFFF, ())):
            m.throw(st, 'UnicodeDecodeError', 'illegal Unicode character')
        out.append(v)
        i += 2 + w
    return m.seqnorm(st, Seq('str', tuple(out)))


def str_encode(m, st, args, kw):
    return encode(m, st, args[0], args[1] if len(args) > 1 else kw.get('encoding', 'utf-8'))


def bytes_decode(m, st, args, kw):
    return decode(m, st, args[0], args[1] if len(args) > 1 else kw.get('encoding', 'utf-8'))


def str_join(m, st, args, kw):
    sep = m.raw(st, args[0])
    c = need_iter(m, st, args, 1)
    cs = [m.raw(st, x) for x in c]
    if isconst(sep) and all(isconst(x) for x in cs):
        return _fold(m, st, sep.join, cs)
    k = m.kindof(st, sep)
    if k == 'bytes':
        out = []
        for i, x in enumerate(c):
            if i:
                out += list(sep)
            e, star = as_bytes_elems(m, st, x) if type(m.raw(st, x)) is not Ref else (list(st.o(m.raw(st, x)).p), False)
            if star or (e and e[-1] is STAR):
                return Seq('bytes', tuple(out + e[:-1] if e and e[-1] is STAR else out + e), True)
            out += e
        return mkbytes(m, st, out)
    r = None
    for x in c:
        if m.kindof(st, m.raw(st, x)) != k:
            m.throw(st, 'TypeError', 'sequence item: expected str instance')
        r = x if r is None else m.binary(st, '+', m.binary(st, '+', r, sep), x)
    return '' if r is None else r


def const_method(name, kind):
    """Constant folding for pure methods; opaque result otherwise."""
    def f(m, st, args, kw):
        a = [m.raw(st, x) for x in args]
        a = [const_of(m, st, x) for x in a]
        if all(isconst(x) or isinstance(x, (decimal.Decimal, bytearray, dict)) for x in a) and all(
                isconst(m.raw(st, x)) for x in kw.values()):
            r = _fold(m, st, getattr(a[0], name), *a[1:], **{k: m.raw(st, x) for k, x in kw.items()})
            if type(r) is list:
                return m.mklist(st, r)
            return r
        if name in ('startswith', 'endswith') and type(a[0]) is Seq and isconst(a[1]) and not a[0].star \
                and type(a[1]) is not tuple:
            e = list(a[0].e)
            p = [ord(c) for c in a[1]] if type(a[1]) is str else list(a[1])
            if len(p) > len(e):
                return False
            e = e[:len(p)] if name == 'startswith' else e[len(e) - len(p):]
            for x, y in zip(e, p):
                if not m.compare(st, '==', m.lin(st, x), Lin(y, ())):
                    return False
            return True
        if name in ('isdigit', 'isdecimal', 'isalpha', 'isspace', 'isalnum', 'isupper', 'islower') and type(a[0]) is Seq and not a[0].star and all(
                type(x) is int or st.syms[x.i].kind == 'int' and (a[0].kind == 'bytes' or st.syms[x.i].dom[-1][1] < 128) for x in a[0].e):
            cls = [c for c in range(128) if getattr(chr(c), name)()]
            if name == 'isspace' and a[0].kind == 'bytes':
                cls = [9, 10, 11, 12, 13, 32]
            if name in ('isupper', 'islower') and len(a[0].e) > 1:
                return m.opaque_bool(st, (name,) + tuple(a), True)
            return bool(a[0].e) and all(m.inset(st, m.norm(st, x), cls) if type(x) is not int else x in cls for x in a[0].e)
        if name in ('isdigit', 'isalpha', 'isspace', 'isalnum', 'startswith', 'endswith', 'islower', 'isupper'):
            return m.opaque_bool(st, (name,) + tuple(a), True)
        if type(a[0]) is Seq and not a[0].star and len(a[0].e) <= 80 and not kw and all(isconst(x) for x in a[1:]):
            r = abs_method(m, st, name, a[0], a[1:])
            if r is not UNDEF:
                return r
        if name in ('find', 'index', 'count', 'rfind'):
            return st.sym('int', term=(name,) + tuple(a))
        if name in ('lower', 'upper') and type(a[0]) is Seq and not a[0].star:
            return case_map(m, st, a[0], name)
        if name in ('split', 'partition'):
            raise Unsupp('abstract split')
        return st.sym(m.kindof(st, a[0]), term=(name,) + tuple(a))
    return f


def abs_method(m, st, name, s, a):
    """str/bytes methods on a partly abstract value with constant arguments -> result or UNDEF"""
    e = list(s.e)
    mk = lambda x: m.seqnorm(st, Seq(s.kind, tuple(x)))
    els = lambda c: [ord(x) for x in c] if isinstance(c, str) else list(c)

    def at(i, p):
        return all(m.compare(st, '==', m.lin(st, x), Lin(y, ())) for x, y in zip(e[i:i + len(p)], p))
    if name in ('find', 'index', 'rfind', 'rindex', 'count', 'replace', 'split', 'partition', 'rpartition', 'rsplit') and a and \
            isinstance(a[0], (str, bytes)) and len(a[0]) and (len(a) == 1 or name == 'replace' and len(a) == 2):
        p = els(a[0])
        rng = range(len(e) - len(p) + 1)
        if name in ('find', 'index', 'rfind', 'rindex', 'partition', 'rpartition'):
            i = next((i for i in (reversed(rng) if name[0] == 'r' else rng) if at(i, p)), -1)
            if 'find' in name:
                return i
            if 'index' in name:
                if i < 0:
                    m.throw(st, 'ValueError', 'substring not found')
                return i
            if i < 0:
                t = (mk(e), mk([]), mk([]))
                return t if name == 'partition' else t[::-1]
            return mk(e[:i]), a[0], mk(e[i + len(p):])
        parts, cur, i = [], [], 0
        while i < len(e):
            if i + len(p) <= len(e) and at(i, p):
                parts.append(cur)
                cur = []
                i += len(p)
            else:
                cur.append(e[i])
                i += 1
        parts.append(cur)
        if name == 'count':
            return len(parts) - 1
        if name == 'replace':
            out = parts[0]
            for x in parts[1:]:
                out = out + els(a[1]) + x
            return mk(out)
        return m.mklist(st, [mk(x) for x in parts])
    if name in ('strip', 'lstrip', 'rstrip') and len(a) == 1 and isinstance(a[0], (str, bytes)):
        cs = els(a[0])
        if name != 'rstrip':
            while e and m.inset(st, e[0], cs):
                e = e[1:]
        if name != 'lstrip':
            while e and m.inset(st, e[-1], cs):
                e = e[:-1]
        return mk(e)
    if name in ('zfill', 'rjust', 'ljust') and a and type(a[0]) is int:
        fill = els(a[1]) if len(a) > 1 else [48] if name == 'zfill' else [32]
        pad = fill * max(0, a[0] - len(e))
        if name == 'zfill' and e and (e[0] in (43, 45) or type(e[0]) is not int and m.inset(st, e[0], [43, 45])):
            return mk(e[:1] + pad + e[1:])
        return mk(e + pad if name == 'ljust' else pad + e)
    return UNDEF


def const_of(m, st, x):
    if type(x) is Ref and type(st.o(x)) is O:
        o = st.o(x)
        k = m.base_kind(st, o.cls)
        if k == 'bytearray' and all(type(e) is int for e in o.p):
            return bytearray(o.p)
        if k == 'dict' and all(isconst(a) and isconst(b) for a, b in o.p.values()):
            return dict(o.p.values())
    return x


def case_map(m, st, s, name):
    out = []
    lo, hi = (65, 90) if name == 'lower' else (97, 122)
    d = 32 if name == 'lower' else -32
    for e in s.e:
        e = m.norm(st, e)
        if type(e) is int:
            out.append(ord(getattr(chr(e), name)()[0]))
            continue
        if m.inset(st, e, list(range(lo, hi + 1))):
            out.append(st_term(m, st, m.unlin(m.add(m.lin(st, e), Lin(d, ())))))
        else:
            out.append(e)
    return m.seqnorm(st, Seq(s.kind, tuple(out)))


# --------------------------------------------------------------------------------------------- list / deque
def list_new(m, st, args, kw):
    return st.new(O(args[0], None if args[0] == m.types['list'] else {}, []))


def list_init(m, st, args, kw):
    if len(args) > 1:
        c = need_iter(m, st, args, 1)
        st.w(args[0]).p[:] = c
    return None


def list_append(m, st, args, kw):
    x = args[1]
    o = st.o(args[0])
    if m.base_kind(st, o.cls) == 'bytearray':
        x = check_byte(m, st, x)
    o = st.w(args[0], 'append')
    if o.p and o.p[-1] is STAR:
        return None
    o.p.append(x)
    return None


def list_extend(m, st, args, kw):
    o = st.o(args[0])
    if m.base_kind(st, o.cls) == 'bytearray':
        e = byte_elems(m, st, args, 1)
        o = st.w(args[0], 'extend')
        if o.p and o.p[-1] is STAR:
            return None
        o.p.extend(e)
        return None
    c = need_iter(m, st, args, 1)
    o = st.w(args[0], 'extend')
    if o.p and o.p[-1] is STAR:
        return None
    o.p.extend(c)
    return None


def list_insert(m, st, args, kw):
    i = m.raw(st, args[1])
    if type(i) is not int:
        raise Unsupp('insert at unknown index')
    x = args[2]
    if m.base_kind(st, st.o(args[0]).cls) == 'bytearray':
        x = check_byte(m, st, x)
    p = st.w(args[0], 'insert').p
    if p and p[-1] is STAR:
        if i == 0:
            p.insert(0, x)
        return None
    p.insert(i, x)
    return None


def list_pop(m, st, args, kw):
    i = m.raw(st, args[1]) if len(args) > 1 else -1
    p = st.o(args[0]).p
    if p and p[-1] is STAR:
        raise Unsupp('pop from a widened list')
    if type(i) is not int:
        raise Unsupp('pop unknown index')
    if not p or not -len(p) <= i < len(p):
        m.throw(st, 'IndexError', 'pop from empty list' if not p else 'pop index out of range')
    return st.w(args[0], 'pop').p.pop(i)


def list_popleft(m, st, args, kw):
    p = st.o(args[0]).p
    if not p:
        m.throw(st, 'IndexError', 'pop from an empty deque')
    return st.w(args[0], 'pop').p.pop(0)


def list_appendleft(m, st, args, kw):
    st.w(args[0], 'appendleft').p.insert(0, args[1])
    return None


def list_clear(m, st, args, kw):
    o = st.w(args[0], 'clear')
    if type(o.p) is list:
        del o.p[:]
    else:
        o.p.clear()
    return None


def list_reverse(m, st, args, kw):
    p = st.w(args[0], 'reverse').p
    if p and p[-1] is STAR:
        return None
    p.reverse()
    return None


def list_sort(m, st, args, kw):
    p = st.o(args[0]).p
    vals = [m.raw(st, x) for x in p]
    if not kw and all(isconst(v) for v in vals):
        q = _fold(m, st, sorted, list(p) if all(isconst(x) for x in p) else vals)
        st.w(args[0], 'sort').p[:] = q
        return None
    lst = args[0]

    rev = m.truth(st, kw.get('reverse', False))

    def fin(m2, st2, r):
        st2.w(lst, 'sort').p[:] = list(st2.o(r).p)[::-1 if rev else 1]
        return None
    return TailCall(m.prelude['list_sort_insert'], (tuple(p[::-1]) if rev else lst, kw.get('key')), None, ('nativecont', fin, None))


def list_copy(m, st, args, kw):
    o = st.o(args[0])
    c = o.copy()
    if type(c.p) is list:
        c.p = list(c.p)
    c.own = None
    return st.new(c)


def list_index(m, st, args, kw):
    p = m.concrete_iter(st, args[0])
    for i, x in enumerate(p):
        r = m.equal(st, x, args[1])
        if type(r) is TailCall:
            raise Unsupp('index with user equality')
        if r:
            return i
    m.throw(st, 'ValueError', 'not in list')


def list_remove(m, st, args, kw):
    p = st.o(args[0]).p
    for i, x in enumerate(p):
        r = True if (type(x) is Ref and x == args[1]) else m.equal(st, x, args[1])
        if type(r) is TailCall:
            raise Unsupp('remove with user equality')
        if r:
            del st.w(args[0], 'remove').p[i]
            return None
    m.throw(st, 'ValueError', 'not in list')


def seq_count(m, st, args, kw):
    n = 0
    for x in m.concrete_iter(st, args[0]):
        r = m.equal(st, x, args[1])
        if type(r) is TailCall:
            raise Unsupp('count with user equality')
        n += bool(r)
    return n


def tuple_new(m, st, args, kw):
    cls = args[0]
    c = tuple(need_iter(m, st, args, 1)) if len(args) > 1 else ()
    if cls == m.types['tuple']:
        return c
    return st.new(O(cls, {}, c))


def deque_init(m, st, args, kw):
    if kw.get('maxlen') is not None:
        raise Unsupp('deque maxlen')
    return list_init(m, st, args, kw)


# --------------------------------------------------------------------------------------------- dict / set
def dict_new(m, st, args, kw):
    return st.new(O(args[0], None if args[0] == m.types['dict'] else {}, {}))


def dict_fill(m, st, d, args, kw, i):
    if len(args) > i:
        v = args[i]
        if type(v) is Ref and type(st.o(v)) is O and type(st.o(v).p) is dict \
                and m.base_kind(st, st.o(v).cls) == 'dict' and type(m.lookup(st, st.o(v).cls, '__iter__')) is not Ref:
            ents = list(st.o(v).p.values())
            o = st.w(d, 'update')
            for e in ents:
                hk = m.hkey(st, e[0])
                if type(hk) is tuple and hk and hk[0] == 'a' or any(
                        type(q) is tuple and q and q[0] == 'a' for q in o.p):
                    m.dict_set(st, d, e[0], e[1])
                else:
                    o.p[hk] = (o.p[hk][0] if hk in o.p else e[0], e[1])
        else:
            pairs = []
            if type(v) is tuple:
                src = list(v)
            else:
                src = m.concrete_iter(st, v) if not (type(v) is Ref and type(st.o(v)) is O
                                                     and m.lookup(st, st.o(v).cls, 'keys') is not UNDEF) else None
            ok = src is not None
            if ok:
                for x in src:
                    y = m.concrete_iter(st, x)
                    if y is None or len(y) != 2:
                        ok = False
                        break
                    pairs.append(y)
            if not ok:
                for k, x in kw.items():
                    m.dict_set(st, d, k, x)
                return TailCall(m.prelude['dict_update'], (d, v), None, ('const', None, None))
            for k, x in pairs:
                m.dict_set(st, d, k, x)
    for k, x in kw.items():
        m.dict_set(st, d, k, x)
    return None


def dict_init(m, st, args, kw):
    return dict_fill(m, st, args[0], args, kw, 1)


def defaultdict_init(m, st, args, kw):
    o = st.w(args[0])
    if o.attrs is None:
        o.attrs = {}
    o.attrs['default_factory'] = args[1] if len(args) > 1 else None
    return dict_fill(m, st, args[0], args, kw, 2)


def defaultdict_missing(m, st, args, kw):
    d, key = args
    f = st.o(d).attrs.get('default_factory')
    if f is None:
        raise PyExc(st.new(O(m.builtins['KeyError'], {'args': (key,)}, None)))
    if m.isabs(st, key):
        # a missing key of an abstract set: the default is produced, and the insertion of the (unobservable) entry for
        # one member of the set is abstracted away; recorded as an effect
        if d.a in st.base and d.a not in st.heap:
            fr = st.frames[-1]
            st.effects.append(('default-insert', d.a, None, fr.where(), fr.code.filename))
        return TailCall(f, ())
    return TailCall(f, (), None, ('defaultset', d, key, None))


def dict_get(m, st, args, kw):
    v = m.dict_get(st, args[0], args[1])
    if v is UNDEF:
        return args[2] if len(args) > 2 else None
    return v


def dict_keys(m, st, args, kw):
    return st.new(O(m.types['dict_keys'], None, [e[0] for e in st.o(args[0]).p.values()]))


def dict_values(m, st, args, kw):
    return m.mklist(st, [e[1] for e in st.o(args[0]).p.values()])


def dict_items(m, st, args, kw):
    return m.mklist(st, [(e[0], e[1]) for e in st.o(args[0]).p.values()])


def dict_pop(m, st, args, kw):
    hk = m.dict_find(st, args[0], args[1])
    if hk is UNDEF:
        if len(args) > 2:
            return args[2]
        raise PyExc(st.new(O(m.builtins['KeyError'], {'args': (args[1],)}, None)))
    return st.w(args[0], 'pop').p.pop(hk)[1]


def dict_setdefault(m, st, args, kw):
    v = m.dict_get(st, args[0], args[1])
    if v is UNDEF:
        v = args[2] if len(args) > 2 else None
        m.dict_set(st, args[0], args[1], v)
    return v


def dict_update(m, st, args, kw):
    return dict_fill(m, st, args[0], args, kw, 1)


def dict_copy(m, st, args, kw):
    o = st.o(args[0])
    return st.new(O(o.cls, dict(o.attrs) if o.attrs else o.attrs, dict(o.p)))


def set_new(m, st, args, kw):
    r = st.new(O(args[0], None, {}))
    if m.issub(st, args[0], m.types['frozenset']) and len(args) > 1:
        set_init(m, st, (r, args[1]), {})
    return r


def mkset(m, st, xs, cls=None):
    return set_fill(m, st, st.new(O(cls or m.types['set'], None, {})), xs)


def set_fill(m, st, r, xs):
    for x in xs:
        set_add(m, st, (r, x), {})
    return r


def set_init(m, st, args, kw):
    if len(args) > 1:
        set_fill(m, st, args[0], need_iter(m, st, args, 1))
    return None


def set_add(m, st, args, kw):
    if m.dict_find(st, args[0], args[1]) is UNDEF:
        st.w(args[0], 'add').p[m.hkey(st, args[1])] = (args[1],)
    return None


def bytes_fromhex(m, st, args, kw):
    return _fold(m, st, bytes.fromhex, m.raw(st, args[1]))


def set_remove(m, st, args, kw):
    hk = m.dict_find(st, args[0], args[1])
    if hk is UNDEF:
        raise PyExc(st.new(O(m.builtins['KeyError'], {'args': (args[1],)}, None)))
    del st.w(args[0], 'remove').p[hk]
    return None


def set_pop(m, st, args, kw):
    p = st.w(args[0], 'pop').p
    if not p:
        m.throw(st, 'KeyError', 'pop from an empty set')
    if len(p) > 1:
        raise Unsupp('set.pop order')
    return p.popitem()[1][0]


def _setp(m, st, v, i):
    return m.dict_keys_of(st, need_iter(m, st, v, i))


def set_sub(first, strict=False):
    def f(m, st, args, kw):
        a, b = args[0], args[1]
        x = need_iter(m, st, args, 0)
        y = need_iter(m, st, args, 1)
        sa, sb = mkset(m, st, x, m.types['set']), mkset(m, st, y, m.types['set'])
        if first:
            sa, sb, x = sb, sa, y
        ok = all(m.dict_find(st, sb, e) is not UNDEF for e in x)
        return ok and (not strict or len(st.o(sa).p) < len(st.o(sb).p))
    return f


def set_disjoint(m, st, args, kw):
    x = need_iter(m, st, args, 1)
    return not any(m.dict_find(st, args[0], e) is not UNDEF for e in x)


def set_xor(m, st, args, kw):
    y = need_iter(m, st, args, 1)
    o = st.o(args[0])
    sb = mkset(m, st, y, m.types['set'])
    out = [t[0] for t in o.p.values() if m.dict_find(st, sb, t[0]) is UNDEF]
    out += [e for e in y if m.dict_find(st, args[0], e) is UNDEF]
    return mkset(m, st, out, o.cls)


def dict_popitem(m, st, args, kw):
    p = st.w(args[0], 'popitem').p
    if not p:
        m.throw(st, 'KeyError', 'popitem(): dictionary is empty')
    last = m.truth(st, args[1] if len(args) > 1 else kw.get('last', True))
    return tuple(p.pop(next(reversed(p)) if last else next(iter(p))))


def dict_move_to_end(m, st, args, kw):
    hk = m.dict_find(st, args[0], args[1])
    if hk is UNDEF:
        raise PyExc(st.new(O(m.builtins['KeyError'], {'args': (args[1],)}, None)))
    p = st.w(args[0], 'move_to_end').p
    e = p.pop(hk)
    if m.truth(st, args[2] if len(args) > 2 else kw.get('last', True)):
        p[hk] = e
    else:
        rest = list(p.items())
        p.clear()
        p[hk] = e
        p.update(rest)
    return None


def set_discard(m, st, args, kw):
    hk = m.dict_find(st, args[0], args[1])
    if hk is not UNDEF:
        del st.w(args[0], 'discard').p[hk]
    return None


def set_binop(op):
    def f(m, st, args, kw):
        x = need_iter(m, st, args, 0)
        c = st.o(args[0]).cls if type(args[0]) is Ref and hasattr(st.o(args[0]), 'cls') else None
        if c is None or not m.issub(st, c, m.types['frozenset']):
            c = m.types['set']
        y = []
        for i in range(1, len(args)):
            y += need_iter(m, st, args, i)
        if op == 'or':
            return mkset(m, st, list(x) + y, c)
        sb = mkset(m, st, y)
        return mkset(m, st, [e for e in x if (m.dict_find(st, sb, e) is not UNDEF) == (op == 'and')], c)
    return f


# --------------------------------------------------------------------------------------------- misc types
def property_new(m, st, args, kw):
    a = list(args[1:]) + [None] * 4
    return st.new(O(args[0], {}, (kw.get('fget', a[0]), kw.get('fset', a[1]), a[2])))


def property_setter(m, st, args, kw):
    p = st.o(args[0]).p
    return st.new(O(m.types['property'], {}, (p[0], args[1], p[2])))


def wrap_new(m, st, args, kw):
    return st.new(O(args[0], {}, (args[1],)))


def super_new(m, st, args, kw):
    if len(args) != 3:
        raise Unsupp('super()')
    return st.new(O(m.types['super'], {}, (args[1], args[2])))


def partial_new(m, st, args, kw):
    return st.new(O(args[0], {}, (args[1], tuple(args[2:]), dict(kw))))


def exc_new(m, st, args, kw):
    return st.new(O(args[0], {'args': tuple(args[1:])}, None))


def exc_init(m, st, args, kw):
    o = st.w(args[0])
    o.attrs['args'] = tuple(args[1:])
    n = st.o(o.cls).name
    if n == 'StopIteration':
        o.attrs['value'] = args[1] if len(args) > 1 else None
    return None


def gen_close(m, st, args, kw):
    g = st.o(args[0])
    if g.status == 'susp' and g.frame.blocks:
        return TailCall(m.prelude['gen_close'], args)
    st.w(args[0]).status = 'done'
    return None


def gen_throw(m, st, args, kw):
    raise RuntimeError('handled by Machine.call')


# --------------------------------------------------------------------------------------------- namedtuple
def namedtuple(m, st, args, kw):
    name, fields = args[0], args[1]
    if type(fields) is str:
        fields = fields.replace(',', ' ').split()
    else:
        fields = m.concrete_iter(st, fields)
    if not all(type(f) is str for f in fields):
        raise Unsupp('namedtuple fields')
    fields = tuple(fields)
    key = (name, fields)
    src = 'def __new__(_cls%s):\n    return _tuple_new(_cls, (%s))\n' % (
        ''.join(', ' + f for f in fields), ''.join(f + ', ' for f in fields))
    top, codes = ir.compile_module(src, '<namedtuple %s>' % name, '<namedtuple>')
    code = [c for c in codes if c.name == '__new__'][0]
    f = FuncO()
    f.own = None
    f.code = code
    g = m.modules.get('<nt>')
    if g is None or g.a not in st.heap and g.a not in st.base:
        g = st.new(ModO('<nt>', {'_tuple_new': NF('tuple.__new__', tuple_new)}))
        m.modules['<nt>'] = g
    f.globs = g
    df = kw.get('defaults')
    df = tuple(m.concrete_iter(st, df)) if df is not None else ()
    f.defaults, f.kwdef, f.clos, f.name, f.attrs = df, {}, {}, '__new__', {}
    c = m.world.cls.__func__
    cls = ClsO()
    cls.own = None
    cls.name = cls.qual = name
    cls.bases = (m.types['tuple'],)
    cls.meta = m.types['type']
    cls.native = None
    fr = st.new(f)
    cls.d = {'_fields': fields, '__new__': fr, '__slots__': ()}
    for i, fn in enumerate(fields):
        cls.d[fn] = NF('@' + fn, _field(i))
    cls.d['_replace'] = NF('nt._replace', _nt_replace)
    cls.d['_asdict'] = NF('nt._asdict', _nt_asdict)
    r = st.new(cls)
    cls.d['_make'] = st.new(O(m.types['classmethod'], {}, (NF('nt._make', _nt_make),)))
    cls.mro = (r, m.types['tuple'], m.types['object'])
    return r


def _field(i):
    def get(m, st, args, kw):
        return st.o(args[0]).p[i]
    return get


def _nt_make(m, st, args, kw):
    return tuple_new(m, st, args, kw)


def _nt_replace(m, st, args, kw):
    o = st.o(args[0])
    fields = m.lookup(st, o.cls, '_fields')
    vals = list(o.p)
    for k, v in kw.items():
        if k not in fields:
            m.throw(st, 'ValueError', 'Got unexpected field names')
        vals[fields.index(k)] = v
    return st.new(O(o.cls, dict(o.attrs or {}), tuple(vals)))


def _nt_asdict(m, st, args, kw):
    o = st.o(args[0])
    return m.mkdict(st, list(zip(m.lookup(st, o.cls, '_fields'), o.p)))


# --------------------------------------------------------------------------------------------- datetime
DT_FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')
DT_RANGE = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59),
            'second': (0, 59), 'microsecond': (0, 999999)}


def dt_new(m, st, args, kw):
    cls = args[0]
    attrs = {}
    a = args[1:]
    if len(a) > 8:
        m.throw(st, 'TypeError', 'too many arguments')
    for i, n in enumerate(DT_FIELDS):
        if i < len(a):
            v = a[i]
        elif n in kw:
            v = kw[n]
        else:
            if i < 3:
                m.throw(st, 'TypeError', "required argument '%s'" % n)
            v = None if n == 'tzinfo' else 0
        if n != 'tzinfo':
            l = m.lin(st, v)
            if l is None:
                if type(m.raw(st, v)) is Sym:
                    pass
                else:
                    m.throw(st, 'TypeError', 'an integer is required for %s' % n)
            else:
                lo, hi = DT_RANGE[n]
                if m.compare(st, '<', l, Lin(lo, ())) or m.compare(st, '>', l, Lin(hi, ())):
                    m.throw(st, 'ValueError', '%s out of range' % n)
                if n == 'day':
                    month_days(m, st, attrs, l)
        attrs[n] = v
    for k in kw:
        if k not in DT_FIELDS and k != 'fold':
            m.throw(st, 'TypeError', "unexpected keyword argument '%s'" % k)
    return st.new(O(cls, attrs, None))


def month_days(m, st, attrs, day):
    """The day against the length of the month, where year and month are known well enough (otherwise the day is accepted)"""
    mo, y = m.norm(st, attrs['month']), m.norm(st, attrs['year'])
    if type(mo) is not int or type(y) is not int and mo == 2:
        return
    n = 31 if mo in (1, 3, 5, 7, 8, 10, 12) else 30 if mo != 2 else 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    if m.compare(st, '>', day, Lin(n, ())):
        m.throw(st, 'ValueError', 'day is out of range for month')


def dt_utcoffset(m, st, args, kw):
    o = st.o(args[0])
    tz = o.attrs['tzinfo']
    if tz is None:
        return None
    f = m.getattr(st, tz, 'utcoffset')
    return TailCall(f, (args[0],))


def dt_replace(m, st, args, kw):
    o = st.o(args[0])
    attrs = {n: o.attrs[n] for n in DT_FIELDS}
    for i, v in enumerate(args[1:]):
        attrs[DT_FIELDS[i]] = v
    for k, v in kw.items():
        if k not in DT_FIELDS:
            m.throw(st, 'TypeError', k)
        attrs[k] = v
    return TailCall(o.cls, tuple(attrs[n] for n in DT_FIELDS))


def dt_arith(op):
    def f(m, st, args, kw):
        a, b = args
        o = st.o(a) if type(a) is Ref else None
        if o is None or type(o) is not O or 'tzinfo' not in (o.attrs or {}):
            return NotImplemented
        key = ('dt' + op, a.a, b)
        attrs = {}
        us = td_us(m, st, b)
        vals = [m.norm(st, o.attrs[n]) for n in DT_FIELDS[:-1]]
        if us is not None and type(m.norm(st, us)) in (int, Lin) and not m.lin(st, m.norm(st, us)).t and all(type(v) is int for v in vals):
            import datetime as _dt
            d = _dt.timedelta(microseconds=m.lin(st, m.norm(st, us)).c)
            try:
                r = _dt.datetime(*vals) + d if op == '+' else _dt.datetime(*vals) - d
            except OverflowError as e:
                m.throw(st, 'OverflowError', str(e))
            attrs = {n: getattr(r, n) for n in DT_FIELDS[:-1]}
            attrs['tzinfo'] = o.attrs['tzinfo']
            return st.new(O(m.types['datetime'], attrs, None))
        ul = m.lin(st, m.norm(st, us)) if us is not None else None
        if ul is not None and m.symdigits and not ul.t and ul.c % 60000000 == 0:
            r = dt_minutes(m, st, vals, ul.c // 60000000 * (1 if op == '+' else -1))
            if r is not None:
                attrs = dict(zip(DT_FIELDS[:-1], r))
                attrs['tzinfo'] = o.attrs['tzinfo']
                return st.new(O(m.types['datetime'], attrs, None))
        for n in DT_FIELDS[:-1]:
            lo, hi = DT_RANGE[n]
            attrs[n] = st.sym('int', ((lo, hi),), term=('dt' + op, n, o.attrs[n], b))
        attrs['tzinfo'] = o.attrs['tzinfo']
        for n, v in o.attrs.items():
            if n not in DT_FIELDS:
                pass
        return st.new(O(m.types['datetime'] if True else o.cls, attrs, None))
    return f


def dt_minutes(m, st, vals, delta):
    """Fields after adding whole minutes, as long as the month does not change -> list or None"""
    y, mo, d, h, mi, s, us = vals
    if not delta:
        return vals
    k = (abs(delta) // 1440) * (1 if delta > 0 else -1)
    rest = delta - k * 1440
    hh, mm = abs(rest) // 60, abs(rest) % 60
    if rest < 0:
        hh, mm = -hh, -mm

    def carry(v, n, size):
        l = m.add(m.lin(st, m.norm(st, v)), Lin(n, ()))
        if n < 0 and m.compare(st, '<', l, Lin(0, ())):
            return m.unlin(m.add(l, Lin(size, ()))), -1
        if n > 0 and m.compare(st, '>=', l, Lin(size, ())):
            return m.unlin(m.add(l, Lin(size, ()), -1)), 1
        return m.unlin(l), 0
    mi, c = carry(mi, mm, 60)
    h, c = carry(h, hh + c, 24)
    l = m.add(m.lin(st, m.norm(st, d)), Lin(k + c, ()))
    lo, hi = m.lin_range(st, l)
    if lo < 1 or hi > 28:
        return None
    return [y, mo, m.unlin(l), h, mi, s, us]


def dt_strftime(m, st, args, kw):
    f = m.raw(st, args[1])
    if not m.symdigits or not isinstance(f, str) or set(_re.findall('%(.)', f)) - set('YmdHMSfz%'):
        return dt_opaque('strftime', 'str')(m, st, args, kw)
    return TailCall(m.prelude['strftime'], (args[0], f))


def dt_opaque(name, kind):
    def f(m, st, args, kw):
        return st.sym(kind, term=('dt.' + name,) + tuple(args))
    return f


_US = {'days': 86400000000, 'seconds': 1000000, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60000000,
       'hours': 3600000000, 'weeks': 7 * 86400000000}


def td_new(m, st, args, kw):
    tot = Lin(0, ())
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    vals = dict(zip(names, args[1:]))
    for k, v in kw.items():
        if k not in _US:
            m.throw(st, 'TypeError', k)
        vals[k] = v
    for k, v in vals.items():
        v = m.raw(st, v)
        if type(v) is float:
            tot = m.add(tot, Lin(int(v * _US[k]), ()))
            continue
        l = m.lin(st, v)
        if l is None:
            if type(v) is Sym:
                l = Lin(0, ((st.sym('int', term=('num', v)).i, 1),))
            else:
                m.throw(st, 'TypeError', 'unsupported type for timedelta %s component' % k)
        tot = m.add(tot, Lin(l.c * _US[k], tuple((s, c * _US[k]) for s, c in l.t)))
    return st.new(O(args[0], {'_us': m.unlin(tot)}, None))


def td_us(m, st, v):
    if type(v) is Ref and type(st.o(v)) is O and '_us' in (st.o(v).attrs or {}):
        return m.lin(st, st.o(v).attrs['_us'])
    return None


def td_cmp(op):
    def f(m, st, args, kw):
        a, b = td_us(m, st, args[0]), td_us(m, st, args[1])
        if a is None or b is None:
            return NotImplemented
        return m.compare(st, op, a, b)
    return f


def td_arith(op):
    def f(m, st, args, kw):
        a, b = td_us(m, st, args[0]), td_us(m, st, args[1])
        if a is None or b is None:
            return NotImplemented
        return st.new(O(m.types['timedelta'], {'_us': m.unlin(m.add(a, b, 1 if op == '+' else -1))}, None))
    return f


def td_neg(m, st, args, kw):
    a = td_us(m, st, args[0])
    return st.new(O(m.types['timedelta'], {'_us': m.unlin(m.neg(a))}, None))


def td_total_seconds(m, st, args, kw):
    a = td_us(m, st, args[0])
    if not a.t:
        return a.c / 1000000.0
    return st.sym('float', term=('total_seconds', m.unlin(a)))


def td_field(name):
    def f(m, st, args, kw):
        a = td_us(m, st, args[0])
        if not a.t:
            d, r = divmod(a.c, 86400000000)
            s, us = divmod(r, 1000000)
            return {'days': d, 'seconds': s, 'microseconds': us}[name]
        return st.sym('int', term=('td.' + name, m.unlin(a)))
    return f


# --------------------------------------------------------------------------------------------- io
def bio_new(m, st, args, kw):
    return st.new(O(args[0], {'_pos': 0}, []))


def bio_init(m, st, args, kw):
    if len(args) > 1:
        e = byte_elems(m, st, args, 1)
        st.w(args[0]).p[:] = e
    return None


def bio_write(m, st, args, kw):
    v = m.raw(st, args[1])
    if m.kindof(st, v) == 'str':
        m.throw(st, 'TypeError', "a bytes-like object is required, not 'str'")
    e = byte_elems(m, st, args, 1)
    o = st.o(args[0])
    pos = o.attrs['_pos']
    if pos != len(o.p) and (pos > len(o.p) or any(x is STAR or is_blob(m, st, x) for x in list(o.p) + list(e))):
        raise Unsupp('overwriting in BytesIO')
    o = st.w(args[0], 'write')
    o.p[pos:pos + len(e)] = e
    o.attrs['_pos'] = pos + len(e)
    return blob_len(m, st, [x for x in e if x is not STAR], None, False)


def bio_getvalue(m, st, args, kw):
    return mkbytes(m, st, st.o(args[0]).p)


def bio_read(m, st, args, kw):
    o = st.o(args[0])
    n = m.raw(st, args[1]) if len(args) > 1 else None
    pos = o.attrs['_pos']
    if n is not None and type(n) is not int:
        # abstract length: may be short
        l = m.lin(st, n)
        if l is None:
            m.throw(st, 'TypeError', 'integer required')
        rem = len(o.p) - pos
        for j in range(rem):
            if m.compare(st, '==', l, Lin(j, ())):
                n = j
                break
        else:
            if m.compare(st, '<', l, Lin(0, ())):
                n = None
            else:
                n = rem
    if any(is_blob(m, st, x) or x is STAR for x in o.p[pos:]):
        raise Unsupp('read of abstract BytesIO')
    end = len(o.p) if n is None or n < 0 else min(len(o.p), pos + n)
    r = o.p[pos:end]
    o = st.w(args[0], 'read')
    o.attrs['_pos'] = max(pos, end)
    return mkbytes(m, st, r)


def bio_seek(m, st, args, kw):
    n = m.raw(st, args[1])
    if type(n) is not int or len(args) > 2:
        raise Unsupp('seek')
    st.w(args[0], 'seek').attrs['_pos'] = n
    return n


def bio_tell(m, st, args, kw):
    return st.o(args[0]).attrs['_pos']


def bio_close(m, st, args, kw):
    return None


def bio_truncate(m, st, args, kw):
    o = st.w(args[0], 'truncate')
    n = m.raw(st, args[1]) if len(args) > 1 and args[1] is not None else o.attrs['_pos']
    del o.p[n:]
    return n


def sio_elems(m, st, v):
    if m.kindof(st, m.raw(st, v)) != 'str':
        m.throw(st, 'TypeError', "string argument expected, got '%s'" % m.tname(st, v))
    e, star = m.elems(st, v)
    return e + ([STAR] if star else [])


def sio_init(m, st, args, kw):
    if len(args) > 1 and args[1] is not None:
        e = sio_elems(m, st, args[1])
        st.w(args[0]).p[:] = e
    return None


def sio_write(m, st, args, kw):
    e = sio_elems(m, st, args[1])
    o = st.o(args[0])
    if o.attrs['_pos'] != len(o.p):
        raise Unsupp('overwriting in StringIO')
    o = st.w(args[0], 'write')
    o.p.extend(e)
    o.attrs['_pos'] = len(o.p)
    return len(e)


def sio_getvalue(m, st, args, kw):
    p = st.o(args[0]).p
    star = bool(p) and p[-1] is STAR
    return m.mkseq(st, 'str', p[:-1] if star else p, star)


def sio_read(m, st, args, kw):
    o = st.o(args[0])
    n = m.raw(st, args[1]) if len(args) > 1 else None
    if n is not None and type(n) is not int or STAR in o.p:
        raise Unsupp('abstract StringIO read')
    pos = o.attrs['_pos']
    end = len(o.p) if n is None or n < 0 else min(len(o.p), pos + n)
    r = o.p[pos:end]
    st.w(args[0], 'read').attrs['_pos'] = max(pos, end)
    return m.mkseq(st, 'str', r, False)


# --------------------------------------------------------------------------------------------- misc modules
def math_pred(name):
    def f(m, st, args, kw):
        v = m.raw(st, args[0])
        rest = [m.raw(st, x) for x in args[1:]]
        if all(isconst(x) or isinstance(x, decimal.Decimal) for x in [v] + rest):
            return _fold(m, st, getattr(_math, name), v, *rest)
        if fsign(st, v):
            if name in ('isnan', 'isinf', 'isfinite'):
                return name == 'isfinite'
        elif name == 'copysign' and rest and fsign(st, rest[0]) and isconst(v):
            return _math.copysign(v, fsign(st, rest[0]))
        if name not in ('isnan', 'isinf', 'isfinite'):
            return st.sym('float' if name in ('copysign', 'log10', 'log2', 'log', 'sqrt') else 'int', term=('math.' + name, v) + tuple(rest))
        if m.lin(st, v) is not None:
            return False
        return m.opaque_bool(st, (name, v))
    return f


def struct_pack(m, st, args, kw):
    a = [m.raw(st, x) for x in args]
    if all(isconst(x) for x in a):
        try:
            return _struct.pack(*a)
        except _struct.error as e:
            m.throw(st, 'ValueError', str(e))
    n = _struct.calcsize(a[0]) if type(a[0]) is str else None
    if n is None:
        raise Unsupp('struct.pack format')
    if all(isconst(x) or type(x) is Sym for x in a):
        k = ('t', 'pack') + tuple(a)
        if k not in st.facts:
            st.facts[k] = tuple(st.sym('int', BYTE, term=('pack', i) + tuple(a)) for i in range(n))
        return Seq('bytes', st.facts[k])
    return Seq('bytes', tuple(st.sym('int', BYTE, term=('pack', i) + tuple(a)) for i in range(n)))


def struct_unpack(m, st, args, kw):
    fmt = m.raw(st, args[0])
    e, star = as_bytes_elems(m, st, args[1]) if type(m.raw(st, args[1])) is not Ref else (list(st.o(args[1]).p), False)
    if type(fmt) is not str:
        raise Unsupp('struct.unpack format')
    n = _struct.calcsize(fmt)
    if not star and not any(is_blob(m, st, x) for x in e):
        if len(e) != n:
            m.throw(st, 'ValueError', 'unpack requires a buffer of %d bytes' % n)
        if all(type(x) is int for x in e):
            return _struct.unpack(fmt, bytes(e))
    if fmt in ('>B', '>H', '>I', '>L', '>Q', '!B', '!H', '!I', '!L', '!Q') and not star and all(m.lin(st, x) is not None for x in e):
        v = Lin(0, ())
        for x in e:
            v = m.add(Lin(v.c * 256, tuple((s, k * 256) for s, k in v.t)), m.lin(st, x))
        return (m.unlin(v),)
    k = 'float' if fmt[-1] in 'fd' else 'int'
    return (st.sym(k, term=('unpack', fmt, Seq('bytes', tuple(e), star))),)


def struct_calcsize(m, st, args, kw):
    return _struct.calcsize(args[0])


def re_compile(m, st, args, kw):
    p = m.raw(st, args[0])
    if not isconst(p):
        raise Unsupp('re.compile of unknown')
    fl = m.raw(st, args[1]) if len(args) > 1 else kw.get('flags', 0)
    return st.new(O(m.types['pattern'], {'pattern': p, 'flags': fl}, None))


def re_run(name):
    def f(m, st, args, kw):
        o = st.o(args[0])
        pat = o.attrs['pattern']
        v = m.raw(st, args[1])
        if isconst(v):
            r = _fold(m, st, getattr(_re.compile(pat, o.attrs['flags']), name), v)
            if r is None:
                return None
            return st.new(O(m.types['match'], {'_m': r}, None))
        if m.symdigits:
            rep = reabs.represent(m, st, pat, o.attrs['flags'], v)
            if rep is not None:
                r = getattr(_re.compile(pat, o.attrs['flags']), name)(rep)
                return None if r is None else st.new(O(m.types['match'], {'_m': r, '_v': v}, None))
        hook = getattr(m, 'regex_hook', None)
        if hook is not None:
            r = hook(m, st, name, pat, o.attrs['flags'], v)
            if r is not None:
                return st.new(O(m.types['match'], {}, None)) if r == 'match' else None
        b = m.opaque_bool(st, ('re.' + name, pat, v))
        return st.new(O(m.types['match'], {}, None)) if b else None
    return f


def re_sub(m, st, args, kw):
    o = st.o(args[0])
    pat, repl, v = o.attrs['pattern'], m.raw(st, args[1]), m.raw(st, args[2])
    if isconst(repl) and isconst(v):
        return _fold(m, st, _re.compile(pat, o.attrs['flags']).sub, repl, v)
    if m.symdigits:
        r = reabs.sub(m, st, pat, o.attrs['flags'], repl, v, m.raw(st, args[3]) if len(args) > 3 else 0)
        if r is not None:
            return r
    k = ('t', 're.sub', pat, repl, v)
    if k not in st.facts:
        st.facts[k] = st.sym(m.kindof(st, v), term=('re.sub', pat, repl, v))
    return st.facts[k]


def re_mod(fn):
    def f(m, st, args, kw):
        p = re_compile(m, st, (args[0],) + tuple(args[2 if fn is not re_sub else 3:]), kw)
        return fn(m, st, (p,) + tuple(args[1:]), {})
    return f


def b64(name):
    def f(m, st, args, kw):
        v = m.raw(st, args[0])
        if isconst(v):
            try:
                return getattr(_b64, name)(v)
            except Exception as e:
                m.throw(st, 'ValueError', str(e))
        e, star = as_bytes_elems(m, st, v)
        if not star and all(type(x) is int for x in e):
            try:
                return getattr(_b64, name)(bytes(e))
            except Exception as ex:
                m.throw(st, 'ValueError', str(ex))
        if m.symdigits and name == 'b64encode' and not star and m.kindof(st, v) != 'str':
            out = []
            for i in range(0, len(e), 3):
                g = tuple(e[i:i + 3])
                for k in range(4):
                    if k > len(g):
                        out.append(61)
                        continue
                    key = ('t', 'b64', k, g)
                    if key not in st.facts:
                        st.facts[key] = st.sym('int', is_from([ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/']),
                                               term=('b64', k, g))
                    out.append(st.facts[key])
            return m.seqnorm(st, Seq('bytes', tuple(out)))
        if m.kindof(st, v) == 'str':
            return st.sym('bytes', term=(name, v))
        return st.sym('bytes', term=(name, Seq('bytes', tuple(e), star)))
    return f


def it_repeat(m, st, args, kw):
    return st.new(IterO('repeat', (args[0], args[1] if len(args) > 1 else kw.get('times'))))


def it_count(m, st, args, kw):
    return st.new(IterO('count', None, args[0] if args else 0))


def localcontext(m, st, args, kw):
    return st.new(O(m.types['_LocalContext'], dict(kw, ctx=args[0] if args else None), None))


def lc_enter(m, st, args, kw):
    o = st.w(args[0])
    o.attrs['outer'] = st.facts.get(('ctx',))
    c = o.attrs.get('ctx')
    at = dict(st.o(c).attrs or {}) if type(c) is Ref else {}
    at.update((k, v) for k, v in o.attrs.items() if k not in ('ctx', 'outer'))
    st.facts[('ctx',)] = st.new(O(m.types['Context'], at, None))
    return st.facts[('ctx',)]


def lc_exit(m, st, args, kw):
    outer = st.o(args[0]).attrs.get('outer')
    if outer is None:
        st.facts.pop(('ctx',), None)
    else:
        st.facts[('ctx',)] = outer
    return None


def ctx_new(m, st, args, kw):
    return st.new(O(args[0], dict(kw), None))


# ============================================================================================= installation
def install(w):
    m, st = w.m, w.st
    T, B = m.types, m.builtins
    A = w.add
    A(T['object'], '__new__', object_new)
    A(T['object'], '__init__', object_init)
    for t in ('object', 'type'):
        A(T[t], '__setattr__', lambda m, st, a, k: m.setattr(st, a[0], a[1], a[2], True))
        A(T[t], '__delattr__', f_delattr)
    A(T['object'], '__getattribute__', lambda m, st, a, k: m.getattr(st, a[0], a[1]))
    A(T['type'], '__new__', type_new)
    A(T['type'], '__init__', object_init)
    A(T['type'], 'mro', type_mro)
    A(T['int'], '__new__', int_new)
    A(T['int'], 'bit_length', int_bit_length)
    A(T['int'], 'to_bytes', int_to_bytes)
    st.o(T['int']).d['from_bytes'] = st.new(O(T['classmethod'], {}, (NF('int.from_bytes', int_from_bytes),)))
    A(T['bool'], '__new__', bool_new)
    A(T['slice'], '__new__', slice_new)
    A(T['float'], '__new__', float_new)
    A(T['float'], 'is_integer', float_is_integer)
    A(T['str'], '__new__', str_new)
    A(T['bytes'], '__new__', bytes_new)
    A(T['str'], 'encode', str_encode)
    A(T['bytes'], 'decode', bytes_decode)
    A(T['bytearray'], 'decode', bytes_decode)
    for t in ('str', 'bytes'):
        A(T[t], 'join', str_join)
        for n in ('lower', 'upper', 'isdigit', 'isalpha', 'isspace', 'isalnum', 'find', 'rfind', 'index', 'count',
                  'startswith', 'endswith', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'replace', 'rjust', 'rpartition', 'center', 'swapcase', 'capitalize', 'casefold', 'isdecimal', 'isnumeric', 'isidentifier',
                  'isprintable', 'expandtabs', 'translate', 'removeprefix', 'removesuffix', 'isascii', 'rindex', 'format_map', 'istitle',
                  'ljust', 'zfill', 'splitlines', 'partition', 'title', 'format', 'hex', 'islower', 'isupper'):
            if hasattr({'str': str, 'bytes': bytes}[t], n):
                A(T[t], n, const_method(n, t))
    for n in ('find', 'rfind', 'index', 'startswith', 'endswith', 'hex', 'isdigit', 'strip', 'lstrip', 'rstrip', 'split', 'replace', 'upper', 'lower', 'count'):
        if n not in ('index', 'count'):
            A(T['bytearray'], n, const_method(n, 'bytearray'))
    st.o(T['bytes']).d['fromhex'] = st.new(O(T['classmethod'], {}, (NF('bytes.fromhex', bytes_fromhex),)))
    st.o(T['dict']).d['fromkeys'] = st.new(O(T['classmethod'], {}, (NF('dict.fromkeys', lambda m, st, a, k: TailCall(m.prelude['fromkeys'], a)),)))
    for n in ('real', 'numerator', 'imag', 'denominator'):
        A(T['int'], n, (lambda m, st, a, k: m.raw(st, a[0])) if n in ('real', 'numerator') else (lambda m, st, a, k: 0) if n == 'imag' else (lambda m, st, a, k: 1), getter=True)
    A(T['partial'], 'func', lambda m, st, a, k: st.o(a[0]).p[0], getter=True)
    A(T['partial'], 'args', lambda m, st, a, k: tuple(st.o(a[0]).p[1]), getter=True)
    A(T['partial'], 'keywords', lambda m, st, a, k: m.mkdict(st, st.o(a[0]).p[2].items()), getter=True)
    for n in ('__cause__', '__context__', '__traceback__', '__suppress_context__'):
        A(B['BaseException'], n, lambda m, st, a, k, n=n: (st.o(a[0]).attrs or {}).get(n), getter=True)
    A(B['BaseException'], 'with_traceback', lambda m, st, a, k: a[0])
    A(T['bytearray'], '__new__', bytearray_new)
    A(T['bytearray'], '__init__', bytearray_init)
    A(T['list'], '__new__', list_new)
    A(T['list'], '__init__', list_init)
    A(T['deque'], '__new__', list_new)
    A(T['deque'], '__init__', deque_init)
    for t in ('list', 'bytearray', 'deque'):
        for n, f in (('append', list_append), ('extend', list_extend), ('insert', list_insert), ('pop', list_pop),
                     ('clear', list_clear), ('reverse', list_reverse), ('copy', list_copy), ('index', list_index),
                     ('count', seq_count), ('remove', list_remove)):
            A(T[t], n, f)
    A(T['list'], 'sort', list_sort)
    A(T['deque'], 'popleft', list_popleft)
    A(T['deque'], 'appendleft', list_appendleft)
    A(T['tuple'], '__new__', tuple_new)
    A(T['tuple'], 'index', list_index)
    A(T['tuple'], 'count', seq_count)
    A(T['dict'], '__new__', dict_new)
    A(T['dict'], '__init__', dict_init)
    A(T['OrderedDict'], 'move_to_end', dict_move_to_end)
    A(T['defaultdict'], '__init__', defaultdict_init)
    A(T['defaultdict'], '__missing__', defaultdict_missing)
    for n, f in (('get', dict_get), ('keys', dict_keys), ('values', dict_values), ('items', dict_items),
                 ('pop', dict_pop), ('setdefault', dict_setdefault), ('update', dict_update), ('copy', dict_copy),
                 ('clear', list_clear), ('popitem', dict_popitem)):
        A(T['dict'], n, f)
    for t in ('set', 'frozenset'):
        A(T[t], '__new__', set_new)
        if t == 'set':
            A(T[t], '__init__', set_init)
        A(T[t], 'add', set_add)
        A(T[t], 'discard', set_discard)
        A(T[t], 'remove', set_remove)
        A(T[t], 'pop', set_pop)
        A(T[t], 'clear', list_clear)
        A(T[t], 'copy', list_copy)
        A(T[t], '__xor__', set_xor)
        A(T[t], 'symmetric_difference', set_xor)
        for n, g in (('issubset', set_sub(0)), ('issuperset', set_sub(1)), ('isdisjoint', set_disjoint), ('__le__', set_sub(0)),
                     ('__ge__', set_sub(1)), ('__lt__', set_sub(0, True)), ('__gt__', set_sub(1, True))):
            A(T[t], n, g)
        A(T[t], '__or__', set_binop('or'))
        A(T[t], '__and__', set_binop('and'))
        A(T[t], '__sub__', set_binop('sub'))
        A(T[t], 'union', set_binop('or'))
        A(T[t], 'intersection', set_binop('and'))
        A(T[t], 'difference', set_binop('sub'))

        def set_upd(m, st, args, kw):
            return TailCall(m.prelude['set_update'], args)
        A(T[t], 'update', set_upd)
    A(T['property'], '__new__', property_new)
    A(T['property'], 'setter', property_setter)
    A(T['staticmethod'], '__new__', wrap_new)
    A(T['classmethod'], '__new__', wrap_new)
    A(T['super'], '__new__', super_new)
    A(T['partial'], '__new__', partial_new)
    A(B['BaseException'], '__new__', exc_new)
    A(B['BaseException'], '__init__', exc_init)
    A(T['generator'], 'send', gen_send)
    A(T['generator'], '__next__', gen_send)
    A(T['generator'], 'close', gen_close)
    A(T['generator'], 'throw', gen_throw)

    def it_next(m, st, args, kw):
        return f_next(m, st, args, kw)
    A(T['iterator'], '__next__', it_next)

    # decimals
    D = T['Decimal']
    A(D, '__new__', dec_new)
    for n in ('scaleb', 'to_integral_value', 'quantize', 'canonical', 'compare_total', 'normalize', 'copy_abs', 'adjusted',
              'copy_sign', 'copy_negate', 'to_integral_exact', 'compare'):
        A(D, n, dec_method(n, 'int' if n == 'adjusted' else 'obj'))
    for n in ('is_zero', 'is_signed', 'is_nan', 'is_infinite', 'is_finite', 'is_snan', 'is_qnan'):
        A(D, n, dec_method(n, 'bool'))
    A(D, 'as_tuple', dec_method('as_tuple'))
    dt = ClsO()
    dt.own = None
    dt.name = dt.qual = 'DecimalTuple'
    dt.bases = (T['tuple'],)
    dt.meta = T['type']
    dt.native = None
    dt.d = {'_fields': ('sign', 'digits', 'exponent')}
    for i, n in enumerate(dt.d['_fields']):
        dt.d[n] = NF('@' + n, _field(i))
    T['DecimalTuple'] = st.new(dt)
    dt.mro = (T['DecimalTuple'], T['tuple'], T['object'])
    T['_LocalContext'] = w.cls('_LocalContext')
    A(T['_LocalContext'], '__enter__', lc_enter)
    A(T['_LocalContext'], '__exit__', lc_exit)
    A(T['Context'], '__new__', ctx_new)

    # datetime
    dt = T['datetime']
    A(dt, '__new__', dt_new)
    A(dt, 'utcoffset', dt_utcoffset)
    A(dt, 'replace', dt_replace)
    A(dt, '__add__', dt_arith('+'))
    for n in ('__eq__', '__ne__'):
        A(dt, n, lambda m, st, a, k, neg=n == '__ne__': TailCall(m.prelude['datetime_eq'], (a[0], a[1], m.types['datetime'], neg)))
    A(dt, '__sub__', dt_arith('-'))
    A(dt, 'strftime', dt_strftime)
    A(dt, 'isoformat', dt_opaque('isoformat', 'str'))
    td = T['timedelta']
    A(td, '__new__', td_new)
    A(td, '__add__', td_arith('+'))
    A(td, '__sub__', td_arith('-'))
    A(td, '__neg__', td_neg)
    A(td, 'total_seconds', td_total_seconds)
    for n, op in (('__lt__', '<'), ('__le__', '<='), ('__gt__', '>'), ('__ge__', '>=')):
        A(td, n, td_cmp(op))
    A(td, '__eq__', td_cmp('=='))
    for n in ('days', 'seconds', 'microseconds'):
        A(td, n, td_field(n), getter=True)
    # io
    A(T['BytesIO'], '__new__', bio_new)
    A(T['BytesIO'], '__init__', bio_init)
    for n, f in (('write', bio_write), ('getvalue', bio_getvalue), ('read', bio_read), ('seek', bio_seek),
                 ('tell', bio_tell), ('close', bio_close), ('truncate', bio_truncate)):
        A(T['BytesIO'], n, f)
    A(T['StringIO'], '__new__', bio_new)
    A(T['StringIO'], '__init__', sio_init)
    for n, f in (('write', sio_write), ('getvalue', sio_getvalue), ('read', sio_read), ('seek', bio_seek),
                 ('tell', bio_tell), ('close', bio_close), ('truncate', bio_truncate)):
        A(T['StringIO'], n, f)
    # patterns
    for n in ('search', 'match', 'fullmatch'):
        A(T['pattern'], n, re_run(n))
    A(T['pattern'], 'sub', re_sub)

    def re_match(n):
        def f(m, st, a, k):
            r = (st.o(a[0]).attrs or {}).get('_m')
            if r is None:
                raise Unsupp('match of an unknown string')
            src = st.o(a[0]).attrs.get('_v')
            if src is not None and n in ('group', 'groups'):
                ix = [m.raw(st, x) for x in a[1:]] or [0]
                if n == 'groups':
                    return tuple(reabs.piece(m, st, src, *r.span(i + 1)) for i in range(len(r.groups())))
                v = tuple(reabs.piece(m, st, src, *r.span(i)) for i in ix)
                return v[0] if len(v) == 1 else v
            v = getattr(r, n)(*[m.raw(st, x) for x in a[1:]])
            return m.mkdict(st, v.items()) if n == 'groupdict' else v
        return f
    for n in ('group', 'groups', 'start', 'end', 'span', 'groupdict'):
        A(T['match'], n, re_match(n))
    A(T['match'], '__getitem__', re_match('group'))
    A(T['memoryview'], '__new__', memoryview_new)
    for n in ('tobytes', 'toreadonly'):
        A(T['memoryview'], n, lambda m, st, a, k: m.raw(st, a[0]))
    A(T['memoryview'], '__enter__', lambda m, st, a, k: a[0])
    A(T['memoryview'], '__exit__', lambda m, st, a, k: None)
    A(T['memoryview'], 'release', lambda m, st, a, k: None)
    A(T['memoryview'], 'nbytes', lambda m, st, a, k: f_len(m, st, (m.raw(st, a[0]),), {}), getter=True)
    for n, g in (('__and__', 'and'), ('__or__', 'or'), ('__sub__', 'sub')):
        A(T['dict_keys'], n, set_binop(g))

    for n, f in (('isinstance', f_isinstance), ('issubclass', f_issubclass), ('len', f_len), ('getattr', f_getattr),
                 ('setattr', f_setattr), ('hasattr', f_hasattr), ('callable', f_callable), ('iter', f_iter),
                 ('next', f_next), ('range', f_range), ('min', minmax('<', 'min_it')), ('max', minmax('>', 'max_it')),
                 ('abs', f_abs), ('ord', f_ord), ('chr', f_chr), ('repr', f_repr), ('print', f_print), ('id', f_id),
                 ('hash', f_hash), ('bin', f_bin), ('sorted', f_sorted), ('round', f_round), ('divmod', f_divmod),
                 ('pow', f_pow), ('hex', f_hex('hex')), ('oct', f_hex('oct')), ('ascii', f_ascii), ('format', f_format), ('delattr', f_delattr),
                 ('vars', f_vars)):
        B[n] = NF(n, f)


def modules(w):
    m, st = w.m, w.st
    T, B = m.types, m.builtins
    Ex = B['ArithmeticError']
    mods = {}
    mods['_native'] = {
        'OrderedDict': T['OrderedDict'], 'defaultdict': T['defaultdict'], 'deque': T['deque'],
        'namedtuple': NF('namedtuple', namedtuple), 'partial': T['partial'], 'repeat': NF('repeat', it_repeat),
        'count': NF('count', it_count),
    }
    T['_Moves'] = w.cls('_Moves')
    moves = st.new(O(T['_Moves'], {}, None))
    mods['_native']['SixMoves'] = moves
    w.moves = moves
    for n in ('InvalidOperation', 'Inexact', 'Rounded', 'Overflow'):
        T[n] = w.cls(n, (Ex,))
    mods['decimal'] = {'Decimal': T['Decimal'], 'ROUND_FLOOR': 'ROUND_FLOOR', 'Context': T['Context'],
                       'Inexact': T['Inexact'], 'localcontext': NF('localcontext', localcontext),
                       'InvalidOperation': T['InvalidOperation'], 'DecimalTuple': T['DecimalTuple'],
                       'ROUND_HALF_UP': 'ROUND_HALF_UP', 'ROUND_DOWN': 'ROUND_DOWN',
                       'ROUND_HALF_EVEN': 'ROUND_HALF_EVEN', 'MAX_PREC': 999999999999999999,
                       'DecimalException': Ex, 'Rounded': T['Rounded'],
                       'getcontext': NF('getcontext', lc_enter), 'MAX_EMAX': 999999999999999999,
                       'MIN_EMIN': -999999999999999999, 'Overflow': T['Overflow']}
    mods['datetime'] = {'datetime': T['datetime'], 'timedelta': T['timedelta'], 'tzinfo': T['tzinfo']}
    mods['math'] = {n: NF('math.' + n, math_pred(n)) for n in ('isnan', 'isinf', 'floor', 'ceil', 'copysign', 'isfinite', 'trunc', 'log10', 'log2', 'log', 'sqrt', 'gcd')}
    mods['math'].update(inf=float('inf'), nan=float('nan'), pi=_math.pi, e=_math.e)
    mods['_struct'] = {'pack': NF('struct.pack', struct_pack), 'unpack': NF('struct.unpack', struct_unpack),
                      'calcsize': NF('struct.calcsize', struct_calcsize), 'error': w.cls('error', (B['Exception'],))}
    mods['re'] = {'compile': NF('re.compile', re_compile), 'search': NF('re.search', re_mod(re_run('search'))),
                  'match': NF('re.match', re_mod(re_run('match'))),
                  'fullmatch': NF('re.fullmatch', re_mod(re_run('fullmatch'))),
                  'sub': NF('re.sub', re_mod(re_sub)), 'M': 8, 'MULTILINE': 8, 'I': 2, 'IGNORECASE': 2, 'S': 16,
                  'DOTALL': 16, 'X': 64, 'U': 32, 'ASCII': 256, 'A': 256}
    mods['base64'] = {n: NF('base64.' + n, b64(n)) for n in ('b64encode', 'b64decode', 'standard_b64encode',
                                                             'standard_b64decode')}
    T['binascii.Error'] = w.cls('Error', (B['ValueError'],))
    mods['binascii'] = {'Error': T['binascii.Error']}
    mods['io'] = {'BytesIO': T['BytesIO'], 'StringIO': T['StringIO'], 'TextIOBase': T['TextIOBase']}
    vi = namedtuple(m, st, ('version_info', 'major minor micro releaselevel serial'), {})
    mods['sys'] = {'version_info': st.new(O(vi, None, (3, 9, 18, 'final', 0))), 'maxunicode': 0x10FFFF, 'maxsize': 2 ** 63 - 1,
                   'byteorder': 'little', 'modules': None, 'platform': 'linux'}
    mods['warnings'] = {'warn': NF('warn', f_print)}
    mods['abc'] = {'abstractmethod': NF('abstractmethod', lambda m, st, a, k: a[0]), 'ABCMeta': T['type'],
                   'ABC': T['object']}
    mods['logging'] = {}
    return mods
