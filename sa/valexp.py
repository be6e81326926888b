"""Timestamps and multimaps as values: construction and operations against models."""
from decimal import Decimal as D

from dom import Lin
from machine import Unsupp, Ref, O
from wrexp import Undecided
from simexp import SimpleDriver, Script, Wrong

NAMES = ('year', 'month', 'day', 'hour', 'minute', 'second')
PREC = ('YEAR', 'MONTH', 'DAY', 'MINUTE', 'SECOND')


def fraction(us, fp, fs):
    """-> (microsecond, fractional_precision, fractional_seconds) or None for ValueError; arguments None when not given"""
    if fp is not None and not 0 <= fp <= 6:
        return None
    if fs is not None and not 0 <= fs < 1:
        return None
    if fs is not None and (fp is not None or us is not None) or fp is not None and us is None:
        return None
    if fs is not None:
        if fs == 0 and fs.as_tuple().exponent > 0:
            fs = D(0)
        n = -fs.as_tuple().exponent
        digits = ''.join(map(str, fs.as_tuple().digits)).rjust(n, '0')[-n:] if n else ''
        return int((digits + '000000')[:6]), min(n, 6), fs
    if us is None:
        return 0, 0, D(0)
    if not 0 <= us <= 999999:
        return None
    fp = 6 if fp is None else fp
    if us % 10 ** (6 - fp):
        return None
    us6 = '%06d' % us
    return us, fp, D((0, tuple(int(c) for c in us6[:fp]) or (0,), -fp))


class ValueScript(Script):
    def __init__(self, world, budget=300):
        Script.__init__(self, world, budget)
        self.d = SimpleDriver(world)

    def script(self, name, kind, *a):
        getattr(self, kind)(name, *a)

    def outcomes(self, name, rs, error):
        """The ones that return; the others are judged"""
        for o in rs:
            self.trans += 1
            self.nodes.append(None)
            if o.kind == 'unknown':
                self.unknown.setdefault(str(o.v)[:150], name)
            elif o.kind == 'diverge':
                self.add('hang', 'never returns', str(o.v), name)
            elif o.kind == 'raise':
                if error is True and 'ValueError' in self.m.exc_names(o.st, o.v) or error == 'open':
                    self.agree += 1
                else:
                    self.add('exception', '%s raised' % self.m.exc_name(o.st, o.v), self.d.exc_where(o.st, o.v), name)
            elif error is True:
                self.add('accepts-invalid', 'ValueError must be raised', 'timestamp', name)
            else:
                yield o

    # -------------------------------------------------------------------------------------- timestamps
    def time(self, name, fields, how, us, fp, fs, off, prec):
        """how: (number of fields given by position, whether absent arguments are given as None, 'class' or 'function')"""
        d, m = self.d, self.m
        st = self.w.state()
        npos, nones, fn = how
        kw = dict(zip(NAMES[npos:], fields[npos:]))
        args = tuple(fields[:npos])
        if npos == 6 and (us is not None or nones):
            args += (us,)
        elif us is not None or nones:
            kw['microsecond'] = us
        tz = None
        if fn == 'class' and off is not None:
            st, td = d.call1(st, st.o(m.modules['datetime']).d['timedelta'], (), {'minutes': off})
            st, tz = d.call1(st, self.w.get('core', 'OffsetTZInfo'), (td,))
            kw['tzinfo'] = tz
        elif fn == 'function' and off is not None:
            h = abs(off) // 60 * (1 if off > 0 else -1)
            if h or nones:
                kw['off_hours'] = h
            if off - h * 60 or not h and not nones:
                kw['off_minutes'] = off - h * 60
        if prec is not None or nones:
            kw['precision'] = prec and st.o(self.w.get('core', 'TimestampPrecision')).d[prec]
        if fp is not None or nones:
            kw['fractional_precision'] = fp
        if fs is not None or nones:
            kw['fractional_seconds'] = fs
        f = self.w.get('core', 'Timestamp' if fn == 'class' else 'timestamp')
        want = fraction(us, fp, fs)
        if fn == 'class' and us is None and nones and fs is None and fp is None and False:
            return
        for o in self.outcomes(name, m.call_all(st, f, args, kw), want is None):
            self.completes += 1
            try:
                self.same_time(o.st, o.v, list(fields) + [1] * (3 - len(fields)) + [0] * (6 - max(3, len(fields))), want, off, prec)
                self.agree += 1
            except Wrong as x:
                self.add('value', str(x), 'timestamp', name)

    def same_time(self, st, v, fields, want, off, prec):
        d, m = self.d, self.m
        for n, x in zip(NAMES, fields):
            st, y = d.attr1(st, v, n)
            if m.norm(st, y) != x:
                raise Wrong('%s is another' % n)
        us, fp, fs = want
        for n, x in (('microsecond', us), ('fractional_precision', fp)):
            st, y = d.attr1(st, v, n)
            if m.norm(st, y) != x:
                raise Wrong('%s is another' % n)
        st, y = d.attr1(st, v, 'fractional_seconds')
        y = m.raw(st, y)
        if not isinstance(y, D):
            raise Undecided('fraction %r' % (y,))
        if y.as_tuple().exponent != fs.as_tuple().exponent or y != fs or y.is_signed():
            raise Wrong('fractional_seconds is another')
        st, y = d.attr1(st, v, 'precision')
        if y != (prec and st.o(self.w.get('core', 'TimestampPrecision')).d[prec]):
            raise Wrong('precision is another')
        self.offset(st, v, off)

    def offset(self, st, v, off):
        d, m = self.d, self.m
        st, y = d.callattr(st, v, 'utcoffset')
        if y is None or off is None:
            if y is not None or off is not None:
                raise Wrong('the offset is another')
            return
        l = m.lin(st, st.o(y).attrs['_us']) if type(y) is Ref and '_us' in (st.o(y).attrs or {}) else None
        if l is None:
            raise Undecided('offset %r' % (y,))
        off = off if type(off) is Lin else Lin(off, ())
        if not d.zero(st, m.add(l, Lin(off.c * 60000000, tuple((a, b * 60000000) for a, b in off.t)), -1)):
            raise Wrong('the offset is another')

    def shift(self, name, hours, minutes):
        """timestamp() with abstract offsets in the given ranges (or None)"""
        d, m = self.d, self.m
        st = self.w.state()
        kw, off = {}, Lin(0, ())
        for n, r, k, lim in (('off_hours', hours, 60, 23), ('off_minutes', minutes, 1, 59)):
            if r is not None:
                kw[n] = st.sym('int', (r,))
                off = m.add(off, Lin(0, ((kw[n].i, k),)))
        for o in self.outcomes(name, m.call_all(st, self.w.get('core', 'timestamp'), (2000, 1, 1), kw), 'open'):
            self.completes += 1
            try:
                for n, lim in (('off_hours', 23), ('off_minutes', 59)):
                    if n in kw:
                        lo, hi = m.lin_range(o.st, m.lin(o.st, m.norm(o.st, kw[n])))
                        if lo < -lim or hi > lim:
                            raise Wrong('an offset out of range is accepted')
                l = m.norm(o.st, m.unlin(off)) if off.t else None
                self.offset(o.st, o.v, None if l is None else l if type(l) is int else off)
                self.agree += 1
            except Wrong as x:
                self.add('value', str(x), 'timestamp', name)

    def shift_in(self, name, hours, minutes):
        """... that are in range: nothing may be raised"""
        st = self.w.state()
        kw = {n: st.sym('int', (r,)) for n, r in (('off_hours', hours), ('off_minutes', minutes)) if r is not None}
        for o in self.outcomes(name, self.m.call_all(st, self.w.get('core', 'timestamp'), (2000, 1, 1), kw), False):
            self.agree += 1

    # -------------------------------------------------------------------------------------- multimaps
    def multimap(self, name, cls, first, ops):
        d, m = self.d, self.m
        st = self.w.state()
        model = {}
        args = ()
        if first is not None:
            st, l = d.call1(st, m.types['list'], (tuple(first),))
            st, x = d.call1(st, m.types['dict'], (l,))
            args = (x,)
            for k, v in first:
                model[k] = [v]
        st, mm = d.call1(st, self.w.get(*cls), args)
        n = 100
        for op, k in ops:
            n += 1
            r = m.call_all(*self.bind(st, mm, {'set': '__setitem__', 'add': 'add_item', 'del': '__delitem__'}[op], (k,) if op == 'del' else (k, n)))
            self.trans += 1
            if len(r) != 1 or r[0].kind in ('unknown', 'diverge'):
                raise Unsupp('%s: %s' % (op, r[0].v))
            if op == 'del' and k not in model:
                if r[0].kind != 'raise' or 'KeyError' not in m.exc_names(r[0].st, r[0].v):
                    self.add('accepts-invalid', 'removal of a key that is not there must raise KeyError', 'Multimap', name)
                    return
                st = r[0].st
                continue
            if r[0].kind != 'return':
                self.add('exception', '%s raised' % m.exc_name(r[0].st, r[0].v), d.exc_where(r[0].st, r[0].v), name)
                return
            st = r[0].st
            if op == 'del':
                del model[k]
            elif op == 'set':
                model[k] = [n]
            else:
                model.setdefault(k, []).append(n)
        self.nodes.append(None)
        try:
            self.observe(st, mm, model)
            self.completes += 1
        except Wrong as x:
            self.add('multimap', str(x), 'Multimap', name)

    def bind(self, st, v, name, args):
        st, f = self.d.attr1(st, v, name)
        return st, f, args

    def observe(self, st, mm, model):
        d, m = self.d, self.m
        pairs = [(k, v) for k, vs in model.items() for v in vs]

        def lst(st, v):
            r = m.call_all(st, m.types['list'], (v,))
            if len(r) != 1 or r[0].kind != 'return':
                raise Unsupp('list of it')
            return r[0].st, [x for x in m.concrete_iter(r[0].st, r[0].v)]

        def want(what, got, exp):
            self.agree += 1
            if got != exp:
                raise Wrong('%s is %r, not %r' % (what, got, exp) if len(repr((got, exp))) < 80 else '%s is another' % what)
        for n in ('items', 'iteritems'):
            st, r = d.callattr(st, mm, n)
            st, r = lst(st, r)
            want(n + '()', [tuple(m.norm(st, y) for y in m.concrete_iter(st, x)) for x in r], pairs)
        st, r = d.callattr(st, mm, '__len__')
        want('len', m.norm(st, r), len(pairs))
        st, r = lst(st, mm)
        want('the iteration', [m.norm(st, x) for x in r], list(model))
        for k in ('a', 'b', None):
            r = m.call_all(*self.bind(st, mm, '__getitem__', (k,)))
            r2 = m.call_all(*self.bind(st, mm, 'get_all_values', (k,)))
            if any(len(x) != 1 or x[0].kind in ('unknown', 'diverge') for x in (r, r2)):
                raise Unsupp('item')
            if k in model:
                want('the item', r[0].v if r[0].kind == 'return' else 'KeyError', model[k][-1])
                if r2[0].kind != 'return':
                    raise Wrong('get_all_values raised')
                s2, x = lst(r2[0].st, r2[0].v)
                want('get_all_values', [m.norm(s2, y) for y in x], model[k])
            else:
                for x in (r, r2):
                    self.agree += 1
                    if x[0].kind != 'raise' or 'KeyError' not in m.exc_names(x[0].st, x[0].v):
                        raise Wrong('a missing key must raise KeyError')
