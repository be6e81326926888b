"""ion_equals on pairs of values, against the equality of the Ion data model."""
from dom import Lin
from machine import Unsupp, Seq
from wrexp import Undecided, Call
from simexp import DumpDriver, Script


class EqDriver(DumpDriver):
    def token(self, st, t):
        if t[0] == 'tok':
            t = t[1]
        if t[0] == 'loc':
            st, loc = self.call1(st, self.w.get('symbols', 'ImportLocation'), t[2:4])
            return self.call1(st, self.tokc, (None, t[1], loc))
        return self.call1(st, self.tokc, (t[1], None) if t[0] in ('sym', 'txt') else (None, t[1]))

    def conv(self, v):
        """The check's values as the ones build() takes"""
        if v[0] == 'plain':
            c = v[1]
            if type(c) is tuple and c[:1] == ('pairs',):
                return ('pairs', tuple((k, self.conv(x)) for k, x in c[1]))
            if type(c) is tuple and c[:1] in (('tok',), ('ts',)):
                return ('plain', TS(c) if c[0] == 'ts' else c)
            if isinstance(c, (list, tuple)):
                return ('plain', type(c)(self.conv(x) for x in c))
            return v
        _, t, c, a = v
        if c is not None and t in ('LIST', 'SEXP'):
            c = [self.conv(x) for x in c]
        elif c is not None and t == 'STRUCT':
            c = ('multi', tuple((k, self.conv(x)) for k, x in c))
        elif c is not None and t == 'TIMESTAMP':
            c = TS(c)
        return ('ion', t, c, a)

    def value(self, st, v):
        if isinstance(v, TS):
            return v.build(self, st)
        if isinstance(v, AnyVal):
            return v.build(self, st)
        return DumpDriver.value(self, st, v)


class TS(object):
    def __init__(self, c):
        self.c = c

    def build(self, d, st):
        from decimal import Decimal
        _, f, frac, off = self.c
        kw = {}
        if off is not None:
            st, td = d.call1(st, st.o(d.m.modules['datetime']).d['timedelta'], (), {'minutes': off})
            st, tz = d.call1(st, d.w.get('core', 'OffsetTZInfo'), (td,))
            kw['tzinfo'] = tz
        full = tuple(f) + (1,) * (3 - len(f))
        full += (0,) * (6 - len(full))
        if self.plain:
            return d.call1(st, st.o(d.m.modules['datetime']).d['datetime'], full + (int(frac),), kw)
        kw['precision'] = st.o(d.w.get('core', 'TimestampPrecision')).d[['YEAR', 'MONTH', 'DAY', None, 'MINUTE', 'SECOND'][len(f) - 1]]
        if frac is not None:
            kw['fractional_seconds'] = Decimal((0, tuple(map(int, frac)), -len(frac)))
        return d.call1(st, d.w.get('core', 'Timestamp'), full, kw)
    plain = False


class AnyVal(object):
    """An abstract value: kind int / str with n characters; the same object is the same value"""
    def __init__(self, kind, n=1, dom=((0, 0x10ffff),)):
        self.kind, self.n, self.dom = kind, n, dom

    def parts(self, d, st):
        if self not in d.memo:
            d.memo[self] = tuple(st.sym('int', self.dom if self.kind != 'bytes' else ((0, 255),)) for _ in range(self.n))
        return d.memo[self]

    def build(self, d, st):
        p = self.parts(d, st)
        if self.kind == 'int':
            return st, p[0]
        v = d.m.seqnorm(st, Seq('bytes' if self.kind == 'bytes' else 'str', p))
        if self.kind == 'tok':
            return d.call1(st, d.tokc, (v, None))
        return st, v


def _any():
    """(a, b, [pairs of abstract values that are equal iff the result is True])"""
    out = []
    x, y = AnyVal('int', 1, ((-10 ** 6, 10 ** 6),)), AnyVal('int', 1, ((-10 ** 6, 10 ** 6),))
    for a in (('ion', 'INT', x, ()), ('plain', x)):
        for b in (('ion', 'INT', y, ()), ('plain', y)):
            out.append((a, b, [(x, y)]))
            out.append((('ion', 'LIST', [a, a], ()), ('ion', 'LIST', [b, a], ()), [(x, y)]))
            out.append((('ion', 'STRUCT', ('multi', (('f', a),)), ()), ('ion', 'STRUCT', ('multi', (('f', b),)), ()), [(x, y)]))
    for n in (1, 2):
        for typ, kind in (('STRING', 'str'), ('SYMBOL', 'tok'), ('CLOB', 'bytes'), ('BLOB', 'bytes')):
            x, y = AnyVal(kind, n), AnyVal(kind, n)
            out.append((('ion', typ, x, ()), ('ion', typ, y, ()), [(x, y)]))
            if typ != 'CLOB':
                out.append((('ion', typ, x, ()), ('plain', y), [(x, y)]))
                out.append((('plain', x), ('plain', y), [(x, y)]))
            out.append((('ion', 'SEXP', [('ion', typ, x, ()), ('ion', typ, y, ())], ()), ('ion', 'SEXP', [('ion', typ, y, ()), ('ion', typ, x, ())], ()), [(x, y)]))
        x, y = AnyVal('str', n), AnyVal('str', n)
        out.append((('ion', 'INT', 1, (('any', x),)), ('ion', 'INT', 1, (('any', y),)), [(x, y)]))
        one = ('ion', 'INT', 1, ())
        out.append((('ion', 'STRUCT', ('multi', ((x, one),)), ()), ('ion', 'STRUCT', ('multi', ((y, one),)), ()), [(x, y)]))
    return out


ANY = _any()


class EqScript(Script):
    def __init__(self, world, budget=300):
        Script.__init__(self, world, budget)
        self.d = EqDriver(world)
        tok = self.d.token

        def token(st, t):
            if t[0] == 'any':
                st, v = t[1].build(self.d, st)
                return self.d.call1(st, self.d.tokc, (v, None))
            return tok(st, t)
        self.d.token = token
        key = self.d.key
        self.d.key = lambda st, k: k.build(self.d, st)[1] if isinstance(k, AnyVal) else key(st, k)

    def show(self, v):
        return repr(v).replace("'plain'", 'plain').replace("'ion'", 'ion')[:110]

    def run(self, scripts):
        return Script.run(self, [(self.show(s[0]) + ' and ' + self.show(s[1]),) + tuple(s) for s in scripts])

    def script(self, name, a, b, want, instants=False):
        d, m = self.d, self.m
        st = self.w.state()
        d.memo = {}
        objs = []
        for v in (a, b):
            c = v if type(want) is list else d.conv(v)
            if v[0] == 'plain' and isinstance(c[1], TS):
                c[1].plain = True
            mark(c)
            st, x = d.build(st, c)
            objs.append(x)
        f = self.w.get('equivalence', 'ion_equals')
        for x, y in (objs, objs[::-1]):
            for o in m.call_all(st.clone(), f, (x, y), {'timestamps_instants_only': True} if instants else {}):
                self.trans += 1
                self.nodes.append(None)
                if o.kind == 'unknown':
                    self.unknown.setdefault(str(o.v)[:150], name)
                    continue
                if o.kind != 'return':
                    self.add('exception', '%s raised' % m.exc_name(o.st, o.v), d.exc_where(o.st, o.v), name)
                    continue
                self.completes += 1
                got = m.norm(o.st, o.v)
                if got is not True and got is not False:
                    self.unknown.setdefault('result %r' % (got,), name)
                    continue
                w = want
                if type(want) is list:
                    w = self.equal(o.st, want)
                    if w is None:
                        self.unknown.setdefault('the path leaves it open', name)
                        continue
                if w is None:
                    continue
                self.agree += 1
                if got is not w:
                    self.add('equality', 'values that are %s compare as %s' % ('equal' if w else 'different', 'equal' if got else 'different'), 'ion_equals', name)

    def equal(self, st, pairs):
        out = True
        for x, y in pairs:
            for p, q in zip(self.d.memo[x], self.d.memo[y]):
                l = self.m.add(self.m.lin(st, self.m.norm(st, p)), self.m.lin(st, self.m.norm(st, q)), -1)
                if not l.t:
                    if l.c:
                        return False
                    continue
                s = st.clone()
                s2 = st.clone()
                poss = [r for r in (True, False) if self.can(s, l, r)]
                if poss == [False]:
                    return False
                if poss == [True, False]:
                    out = None
        return out

    def can(self, st, l, zero):
        """The path allows l to be (not) zero"""
        k = st.facts.get(('s', l.c, l.t))
        n = st.facts.get(('s', -l.c, tuple((a, -b) for a, b in l.t)))
        for v in (k, n):
            if v is not None:
                return (0 in v) if zero else bool(set(v) - {0})
        lo, hi = self.m.lin_range(st, l)
        return lo <= 0 <= hi if zero else True


def mark(c):
    """Timestamps inside plain values are plain datetimes"""
    if c[0] == 'plain' and isinstance(c[1], (list, tuple)) and not (type(c[1]) is tuple and c[1][:1] == ('tok',)):
        for x in c[1]:
            mark(x)
    elif c[0] == 'plain' and isinstance(c[1], TS):
        c[1].plain = True
    elif c[0] == 'pairs':
        for _, x in c[1]:
            mark(x)
