"""Formatting of partly abstract integers: digits as symbols whose terms say which digit of which value they are."""
import re

from dom import *

PCT = re.compile(r'%(?:\(([^)]*)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])')
SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z]?)$')
BASE = {'d': 10, 'i': 10, 'u': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2, '': 10}
MAXD = 50


def digit_values(dom, unit, base):
    out = set()
    for a, b in dom:
        x, y = a // unit, b // unit
        if y - x + 1 >= base:
            return set(range(base))
        out |= set(v % base for v in range(int(x), int(y) + 1))
    return out


def boxed(m, st, v):
    """A symbol for an integer value that may be an affine form."""
    l = m.lin(st, v)
    if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
        return Sym(l.t[0][0])
    k = ('t', 'lin', l)
    if k not in st.facts:
        lo, hi = m.lin_range(st, l)
        st.facts[k] = st.sym('int', ((lo, hi),), term=('lin', l))
    return st.facts[k]


def digits(m, st, v, base, width=0, upper=False):
    """Non-negative abstract integer -> list of elements (ints or digit symbols), zero-padded to `width`; None: not representable."""
    l = m.lin(st, v)
    if l is None:
        return None
    if not l.t:
        s = render(l.c, base, upper).rjust(width, '0')
        return [ord(c) for c in s]
    lo, hi = m.lin_range(st, l)
    if hi == INF or hi >= base ** MAXD or lo == -INF or -lo >= base ** MAXD:
        return None
    if lo < 0:
        if m.compare(st, '<', l, Lin(0, ())):
            d = digits(m, st, m.unlin(m.neg(m.lin(st, m.norm(st, m.unlin(l))))), base, max(width - 1, 0), upper)
            return None if d is None else [45] + d
        l = m.lin(st, m.norm(st, m.unlin(l)))
        lo, hi = m.lin_range(st, l)
        if lo < 0:
            return None
    n = max(width, 1)
    while base ** n <= hi:
        if m.compare(st, '<', l, Lin(base ** n, ())):
            break
        n += 1
    l = m.lin(st, m.norm(st, l))
    if not l.t:
        s = render(l.c, base, upper).rjust(width, '0')
        return [ord(c) for c in s]
    x = boxed(m, st, m.unlin(l))
    dom = st.syms[x.i].dom
    out = []
    chars = '0123456789ABCDEF' if upper else '0123456789abcdef'
    for k in range(n - 1, -1, -1):
        vals = digit_values(dom, base ** k, base)
        if len(vals) == 1:
            out.append(ord(chars[vals.pop()]))
            continue
        key = ('t', 'digit', base, k, x, upper)
        if key not in st.facts:
            st.facts[key] = st.sym('int', is_from([ord(chars[d]) for d in vals]), term=('hexd' if base == 16 else 'digit%d' % base, n, k, x))
        else:
            st.setdom(st.facts[key], is_and(st.syms[st.facts[key].i].dom, is_from([ord(chars[d]) for d in vals])))
        out.append(st.facts[key])
    return out


def render(v, base, upper):
    s = {10: '%d', 16: '%X' if upper else '%x', 8: '%o'}.get(base)
    return s % v if s else bin(v)[2:]


def pct(m, st, f, args):
    """'...' % args with abstract arguments -> Seq/str, or None"""
    vals = list(args) if type(args) is tuple else [args]
    out = []
    pos = 0
    i = 0
    for mt in PCT.finditer(f):
        out += [ord(c) for c in f[pos:mt.start()]]
        pos = mt.end()
        name, flags, width, prec, conv = mt.groups()
        if conv == '%':
            out.append(37)
            continue
        if name is not None or i >= len(vals):
            return None
        v = m.raw(st, vals[i])
        v0 = vals[i]
        i += 1
        if isconst(v) and type(v0) is not Ref:
            try:
                out += [ord(c) for c in mt.group(0) % v]
            except (TypeError, ValueError):
                return None
            continue
        k = m.kindof(st, v)
        if conv == 's' and k == 'str' and not width and not prec and not flags and type(v) is Seq and not v.star:
            out += list(v.e)
            continue
        if conv in BASE and k == 'int' and prec is None and set(flags) <= {'0'} and (not width or '0' in flags):
            d = digits(m, st, v, BASE[conv], int(width or 0), conv == 'X')
            if d is None:
                return None
            out += d
            continue
        if conv == 'c' and k == 'int' and not width:
            out.append(v)
            continue
        return None
    if i != len(vals):
        return None
    out += [ord(c) for c in f[pos:]]
    return m.seqnorm(st, Seq('str', tuple(out)))


def spec(m, st, v, sp):
    """format(v, sp) with an abstract integer -> Seq/str, or None"""
    if not isinstance(sp, str) or m.kindof(st, v) != 'int':
        return None
    mt = SPEC.match(sp)
    if not mt:
        return None
    fill, align, sign, alt, zero, width, comma, prec, conv = mt.groups()
    if sign or alt or comma or prec or conv not in BASE:
        return None
    if width and not zero and not (fill == '0' and align in ('>', '=')):
        return None
    d = digits(m, st, v, BASE[conv], int(width or 0), conv == 'X')
    return None if d is None else m.seqnorm(st, Seq('str', tuple(d)))


def isconst(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes))
