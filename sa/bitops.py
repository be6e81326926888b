"""Bit fields of abstract non-negative integers, exactly.

A symbol with the term ('bits', l, a, w) is (l >> a) & (2**w - 1) for the affine form l; w None: no mask."""
from dom import *


def expand(m, st, l):
    """Replace boxed affine forms by what they stand for."""
    l = m.lin(st, m.norm(st, l) if type(l) is not Lin else m.norm(st, m.unlin(l)))
    for _ in range(8):
        for s, k in l.t:
            t = st.syms[s].term
            if t is not None and t[0] == 'lin' and type(t[1]) is Lin:
                x = m.norm(st, t[1])
                x = x if type(x) is Lin else Lin(int(x), ())
                rest = Lin(l.c, tuple(p for p in l.t if p[0] != s))
                l = m.add(rest, Lin(x.c * k, tuple((y, z * k) for y, z in x.t)))
                break
            if t is not None and t[0] == 'bits' and type(m.norm(st, t[1])) is not Lin and m.lin(st, t[1]) is not None:
                b = m.norm(st, t[1])
                if type(b) is int:
                    x = b >> t[2] & ((1 << t[3]) - 1 if t[3] is not None else -1)
                    l = Lin(l.c + x * k, tuple(p for p in l.t if p[0] != s))
                    break
        else:
            break
    return l


def parts(m, st, l):
    """Disjoint fields of an affine form: [(position, width or None, Sym or constant bits)] or None"""
    c = l.c
    if c < 0:
        return None
    out = []
    for s, k in l.t:
        d = st.syms[s].dom
        if k <= 0 or k & (k - 1) or d is None or d[0][0] < 0:
            return None
        hi = d[-1][1]
        out.append((k.bit_length() - 1, None if hi == INF else int(hi).bit_length(), Sym(s)))
    out.sort(key=lambda x: x[0])
    for x, y in zip(out, out[1:]):
        if x[1] is None or x[0] + x[1] > y[0]:
            return None
    for p, w, _ in out:
        if (c >> p) & ((1 << w) - 1 if w is not None else -1):
            return None
    return out, c


def bits(m, st, l, a, w):
    """-> int, Sym or Lin; None: not representable"""
    l = expand(m, st, l)
    if w == 0:
        return 0
    if not l.t:
        return (l.c >> a) & ((1 << w) - 1) if w is not None else l.c >> a
    lo, hi = m.lin_range(st, l)
    if lo == -INF or lo < 0:
        return None
    if hi != INF and hi < (1 << a):
        return 0
    if w is not None and hi != INF and hi < (1 << (a + w)):
        w = None
    if a == 0 and w is None:
        return m.unlin(l)
    if not l.c and len(l.t) == 1 and l.t[0][1] == 1:
        return bits1(m, st, Sym(l.t[0][0]), a, w)
    ps = parts(m, st, l)
    if ps is not None and (l.c or len(l.t) > 1 or l.t[0][1] != 1):
        fs, c = ps
        r = Lin((c >> a) & ((1 << w) - 1) if w is not None else c >> a, ())
        for p, fw, s in fs:
            # the part of the field [p, p+fw) inside [a, a+w)
            b = max(a, p)
            e = None if w is None else a + w
            if fw is not None and (e is None or p + fw < e):
                e = p + fw
            if e is not None and e <= b:
                continue
            x = bits1(m, st, s, b - p, None if e is None else e - b)
            k = 1 << (b - a)
            x = m.lin(st, x)
            r = m.add(r, Lin(x.c * k, tuple((y, z * k) for y, z in x.t)))
        return m.unlin(r)
    return raw(m, st, l, a, w)


def bits1(m, st, s, a, w):
    """bits of a symbol"""
    d = st.syms[s.i].dom
    hi = d[-1][1]
    if hi != INF and hi < (1 << a):
        return 0
    if w is not None and hi != INF and hi < (1 << (a + w)):
        w = None
    if a == 0 and w is None:
        return s
    t = st.syms[s.i].term
    if t is not None and t[0] == 'bits':
        a2 = t[2] + a
        w2 = w if t[3] is None else t[3] - a if w is None else min(w, t[3] - a)
        if w2 is not None and w2 <= 0:
            return 0
        return raw(m, st, t[1], a2, w2)
    return raw(m, st, Lin(0, ((s.i, 1),)), a, w)


def dom_of(m, st, l, a, w):
    if len(l.t) == 1 and l.t[0][1] == 1:
        d = is_shift(st.syms[l.t[0][0]].dom, l.c)
        if d[-1][1] != INF and is_size(d) <= 1024:
            mask = (1 << w) - 1 if w is not None else -1
            return is_from([(x >> a) & mask for x in is_iter(d)])
    lo, hi = m.lin_range(st, l)
    q0, q1 = int(lo) >> a, (INF if hi == INF else int(hi) >> a)
    if w is None:
        return ((q0, q1),)
    full = ((0, (1 << w) - 1),)
    if q1 == INF or (q0 >> w) != (q1 >> w):
        return full
    mask = (1 << w) - 1
    return ((q0 & mask, q1 & mask),)


def raw(m, st, l, a, w):
    key = ('t', 'bits', l, a, w)
    d = dom_of(m, st, l, a, w)
    if key not in st.facts:
        if is_one(d):
            return d[0][0]
        st.facts[key] = st.sym('int', d, term=('bits', l, a, w))
    else:
        s = st.facts[key]
        d2 = is_and(st.syms[s.i].dom, d)
        if d2:
            st.setdom(s, d2)
    return m.norm(st, st.facts[key])


def backprop(m, st, i, depth=0):
    """After the domain of symbol i shrank: what it is computed from."""
    t = st.syms[i].term
    d = st.syms[i].dom
    if t is None or not d or depth > 6:
        return
    if t[0] == 'bits':
        _, l, a, w = t
        lo, hi = m.lin_range(st, l)
        base = 0
        if w is not None:
            if hi == INF or int(lo) >> (a + w) != int(hi) >> (a + w):
                return
            base = (int(lo) >> (a + w)) << (a + w)
        x, y = d[0][0], d[-1][1]
        want = ((base + (int(x) << a), INF if y == INF else base + ((int(y) + 1) << a) - 1),)
        constrain(m, st, l, want, depth)
    elif t[0] == 'lin' and type(t[1]) is Lin:
        constrain(m, st, t[1], ((d[0][0], d[-1][1]),), depth)


def constrain(m, st, l, want, depth):
    l = m.norm(st, l)
    if type(l) is not Lin or len(l.t) != 1:
        return
    s, k = l.t[0]
    lo, hi = want[0]
    if k < 0:
        return
    lo, hi = -((l.c - lo) // k), INF if hi == INF else (hi - l.c) // k
    d = is_and(st.syms[s].dom, ((lo, hi),))
    if d and d != st.syms[s].dom:
        st.setdom(Sym(s), d)
        backprop(m, st, s, depth + 1)


def bit_length(m, st, l):
    """Forks on the ranges of the magnitude -> int or None"""
    lo, hi = m.lin_range(st, l)
    if hi == INF or lo == -INF or max(hi, -lo) >= 1 << 256:
        return None
    if lo < 0:
        if m.compare(st, '<', l, Lin(0, ())):
            l = m.lin(st, m.norm(st, m.unlin(m.neg(l))))
        else:
            l = m.lin(st, m.norm(st, m.unlin(l)))
        lo, hi = m.lin_range(st, l)
    for n in range(int(max(lo, 0)).bit_length(), int(hi).bit_length()):
        if m.compare(st, '<', l, Lin(1 << n, ())):
            return n
    return int(hi).bit_length()


def to_bytes(m, st, l, n, order):
    """elements or None"""
    out = []
    for j in range(n):
        x = bits(m, st, l, 8 * j, 8)
        if x is None:
            return None
        out.append(x)
    return out[::-1] if order == 'big' else out


def coalesce(m, st, l):
    """Sums of adjacent bit fields of one value become that value."""
    l = expand(m, st, l)
    for _ in range(12):
        groups = {}
        for s, k in l.t:
            t = st.syms[s].term
            if t is not None and t[0] == 'bits':
                groups.setdefault(t[1], []).append((t[2], t[3], k, s))
        done = False
        for base, fs in groups.items():
            fs.sort(key=lambda x: x[0])
            a0 = fs[0][0]
            # a value whose low or high bits are constant lacks those fields: the value's range tells
            lo, hi = m.lin_range(st, base)
            ok, pos, k0 = a0 == 0, 0, fs[0][2]
            for a, w, k, s in fs:
                if a != pos or k != k0 << a:
                    ok = False
                    break
                pos = None if w is None else a + w
                if pos is None:
                    break
            if not ok:
                continue
            names = set(s for a, w, k, s in fs)
            rest = Lin(l.c, tuple(p for p in l.t if p[0] not in names))
            b = Lin(base.c * k0, tuple((s, z * k0) for s, z in base.t))
            if pos is not None and hi >= 1 << pos:
                # the bits above are constant
                top = int(lo) >> pos
                if hi == INF or top != int(hi) >> pos:
                    continue
                rest = Lin(rest.c - (top << pos) * k0, rest.t)
            l = expand(m, st, m.add(rest, b))
            done = True
            break
        if not done:
            break
    return l


def same(m, st, a, b):
    """Are two integer values equal in every instance?"""
    x = coalesce(m, st, m.add(coalesce(m, st, a), coalesce(m, st, b), -1))
    if not x.t:
        return x.c == 0
    # a symbol that is a bit field of a symbol whose range makes them equal
    lo, hi = m.lin_range(st, x)
    return lo == hi == 0 or m.signs(st, x) == {0}
