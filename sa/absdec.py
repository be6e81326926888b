"""Abstract decimals: a known sign, digit count and exponent, any digits.  Term ('adec', sign, coefficient, digit count, exponent)."""
from dom import *
import numfmt


def get(st, v):
    t = st.syms[v.i].term if type(v) is Sym else None
    return t if t is not None and t[0] == 'adec' else None


def make(m, st, sign, coef, nd, exp):
    k = ('t', 'adec', sign, coef, nd, exp)
    if k not in st.facts:
        st.facts[k] = st.sym('obj', None, m.types['Decimal'], ('adec', sign, coef, nd, exp))
    return st.facts[k]


def fresh(m, st, nd):
    return st.sym('int', ((0 if nd == 1 else 10 ** (nd - 1), 10 ** nd - 1),))


def coef(m, st, t):
    return t[2] if not t[1] else m.unlin(m.neg(m.lin(st, m.norm(st, t[2]))))


def chars(m, st, t):
    d = numfmt.digits(m, st, t[2], 10, t[3])
    return [48] * (t[3] - len(d)) + d


def rounds(m, st, t, prec):
    """Fixing the value to the context's precision may change digits."""
    return t[3] > prec


def lossy(m, st, t):
    """The same magnitude with digits nothing is known about"""
    return make(m, st, t[1], st.sym('int', ((0, 10 ** t[3] - 1),), term=('rounded', t[2])), t[3], t[4])


def text(m, st, t):
    """to-scientific-string"""
    _, sign, c, nd, exp = t
    c = m.norm(st, c)
    if nd == 1 and type(c) is not int and is_has(st.syms[c.i].dom, 0):
        pass                                    # a single zero digit prints like any other digit
    ds = chars(m, st, t)
    adj = exp + nd - 1
    out = [45] if sign else []
    if exp <= 0 and adj >= -6:
        if exp == 0:
            out += ds
        elif nd + exp > 0:
            out += ds[:nd + exp] + [46] + ds[nd + exp:]
        else:
            out += [48, 46] + [48] * -(nd + exp) + ds
    else:
        out += ds[:1] + ([46] + ds[1:] if nd > 1 else []) + [ord(x) for x in 'E%+d' % adj]
    return m.seqnorm(st, Seq('str', tuple(out)))


def method(m, st, name, t, v, args, prec):
    """-> result or None"""
    _, sign, c, nd, exp = t
    big = prec is not None and prec < nd
    if name == 'as_tuple':
        return ('tuple', sign, tuple(m.norm(st, m.unlin(m.add(m.lin(st, x), Lin(-48, ()))) if type(x) is not int else x - 48)
                                     for x in chars(m, st, t)), exp)
    if name == 'scaleb' and len(args) == 1 and type(args[0]) is int:
        r = make(m, st, sign, c, nd, exp + args[0])
        return lossy(m, st, get(st, r)) if big else r
    if name in ('to_integral_value', 'to_integral_exact') and not args:
        if exp >= 0:
            return v
        q = exp and st.sym('int', ((0, 10 ** nd),), term=('truncated', c, exp))
        return make(m, st, sign, q, nd, 0)
    if name == 'is_zero':
        return ('zero', c)
    if name == 'is_signed':
        return bool(sign)
    if name in ('is_nan', 'is_infinite', 'is_snan', 'is_qnan'):
        return False
    if name == 'is_finite':
        return True
    if name == 'adjusted':
        return exp + nd - 1
    if name == 'copy_abs':
        return make(m, st, 0, c, nd, exp)
    if name == 'copy_negate':
        return make(m, st, 1 - sign, c, nd, exp)
    if name == 'canonical':
        return v
    return None


def to_int(m, st, t):
    _, sign, c, nd, exp = t
    l = m.lin(st, m.norm(st, c))
    if exp < 0:
        return None
    k = 10 ** exp * (-1 if sign else 1)
    return m.unlin(Lin(l.c * k, tuple((s, x * k) for s, x in l.t)))
