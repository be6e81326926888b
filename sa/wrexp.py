"""Writer exploration: the writers' coroutines, derived from /repo's source by machine.py, driven with sequences of events.

The bytes they hand out are read back by an independent reference (reftext.py for text, refbin-style decoding in wrbin.py for
binary) and the events read must be the events written."""
import time
from collections import deque
from decimal import Decimal

from dom import *
from machine import O, Unsupp
from canon import Canon
from explore import Driver
import reftext
import absdec
from reftext import DEAD, OOS

CT = {'L': 'LIST', 'S': 'SEXP', 'T': 'STRUCT'}


class Undecided(Exception):
    pass


class Call(object):
    """A value to be built inside the analysed program: a class or function of /repo (or a builtin type) and its arguments."""

    def __init__(self, mod, name, *args, **kw):
        self.mod, self.name, self.args, self.kw = mod, name, args, kw

    def build(self, d, st):
        args = []
        for a in self.args:
            if type(a) is Call:
                st, a = a.build(d, st)
            args.append(a)
        kw = {}
        for k, a in self.kw.items():
            if type(a) is Call:
                st, a = a.build(d, st)
            elif type(a) is tuple and a[0] == 'prec':
                a = st.o(d.w.get('core', 'TimestampPrecision')).d[a[1]]
            kw[k] = a
        if self.mod is None:
            f = d.m.types.get(self.name) or d.m.builtins[self.name]
        elif self.mod.startswith('='):
            f = st.o(d.m.modules[self.mod[1:]]).d[self.name]
        else:
            f = d.w.get(self.mod, self.name)
        return d.call1(st, f, tuple(args), kw)


NOSUR = is_sub(CHAR, ((0xD800, 0xDFFF),))


class Abs(object):
    """A family of values: make(driver, st) -> (st, value, what must be read)"""


class AbsInt(Abs):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def make(self, d, st):
        v = st.sym('int', ((self.lo, self.hi),))
        return st, v, ('int', v)


class AbsFloat(Abs):
    """Any finite float that is not zero, of the given sign"""
    def __init__(self, sign):
        self.sign = sign

    def make(self, d, st):
        v = st.sym('float', term=('anyfloat',))
        st.facts['fsign', v.i] = self.sign
        return st, v, ('flt', v)


class AbsDec(Abs):
    """Any decimal of the given sign, digit count and exponent"""
    def __init__(self, sign, nd, exp):
        self.sign, self.nd, self.exp = sign, nd, exp

    def make(self, d, st):
        c = absdec.fresh(d.m, st, self.nd)
        return st, absdec.make(d.m, st, self.sign, c, self.nd, self.exp), ('dec', (self.sign, c, self.nd, self.exp))


class AbsSid(Abs):
    """A symbol token without text and with any ID of a range"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def build(self, d, st):
        v = st.sym('int', ((self.lo, self.hi),))
        return st, ('sid', v), ('sid', v)

    def make(self, d, st):
        st, t, x = self.build(d, st)
        st, v = d.tok(st, t)
        return st, v, x


class AbsBlob(Abs):
    """Octets of any content and any length of a range"""
    def __init__(self, kind, lo, hi):
        self.kind, self.lo, self.hi = kind, lo, hi

    def make(self, d, st):
        v = st.sym('bytes')
        st.facts['t', 'len', v] = st.sym('int', ((self.lo, self.hi),), term=('len', v))
        return st, v, (self.kind, (v,))


class AbsText(Abs):
    def __init__(self, n, kind='str', dom=None, pre=(), token=False):
        self.n, self.kind, self.token = n, kind, token
        self.dom = dom or (NOSUR if kind == 'str' else ((0, 255),))
        self.pre = tuple(pre)

    def build(self, d, st):
        els = self.pre + tuple(st.sym('int', self.dom) for _ in range(self.n))
        return st, d.m.seqnorm(st, Seq('str' if self.kind == 'str' else 'bytes', els)), els

    def make(self, d, st):
        st, v, els = self.build(d, st)
        if self.token:
            st, v = d.tok(st, ('sym', v))
            return st, v, ('sym', els)
        return st, v, ({'str': 'str', 'clob': 'clob', 'blob': 'blob'}[self.kind], els)


RANGES = (('year', 1, 9999), ('month', 1, 12), ('day', 1, 28), ('hour', 0, 23), ('minute', 0, 59), ('second', 0, 59))


class AbsTime(Abs):
    """timestamp(...) with n abstract fields; frac: None or a constant Decimal; off: None or minutes; plain: a datetime"""

    ranges = RANGES

    def __init__(self, n, prec, frac=None, off=None, plain=False):
        self.n, self.prec, self.frac, self.off, self.plain = n, prec, frac, off, plain

    def make(self, d, st):
        els = tuple(st.sym('int', ((a, b),)) for _, a, b in self.ranges[:self.n])
        if self.plain:
            us = st.sym('int', ((0, 999999),))
            kw = {}
            if self.off is not None:
                st, kw['tzinfo'] = Call('core', 'OffsetTZInfo', Call('=datetime', 'timedelta', minutes=self.off)).build(d, st)
            st, v = d.call1(st, st.o(d.m.modules['datetime']).d['datetime'], els + (us,), kw)
            return st, v, ('ts', els, us, self.off)
        kw = {'precision': st.o(d.w.get('core', 'TimestampPrecision')).d[self.prec]} if self.prec else {}
        fd = None
        if self.frac is not None:
            kw['fractional_seconds'] = self.frac
            t = self.frac.as_tuple()
            fd = None if t.exponent >= 0 else ''.join(map(str, t.digits)).zfill(-t.exponent)
        if self.off is not None:
            q, r = divmod(abs(self.off), 60)
            s = -1 if self.off < 0 else 1
            kw['off_hours'], kw['off_minutes'] = s * q, s * r
        st, v = d.call1(st, d.w.get('core', 'timestamp'), els, kw)
        return st, v, ('ts', els, fd, self.off if self.n >= 5 else 'none')


class MidTime(AbsTime):
    """as AbsTime, on days where no offset changes the month"""
    ranges = tuple((n, 2, 27) if n == 'day' else (n, a, b) for n, a, b in RANGES)


class WDriver(Driver):
    def __init__(self, world):
        Driver.__init__(self, world)
        st = world.st
        self.evc = world.get('core', 'IonEvent')
        self.etv = {k: v for k, v in st.o(world.get('core', 'IonEventType')).d.items()}
        self.itv = {k: v for k, v in st.o(world.get('core', 'IonType')).d.items()}
        wt = st.o(world.get('writer', 'WriteEventType')).d
        self.wt = {wt[k].a: k for k in ('HAS_PENDING', 'NEEDS_INPUT', 'COMPLETE')}
        self.tokc = world.get('symbols', 'SymbolToken')
        self.probes = self.rejected = 0
        world.m.symdigits = True
        world.m.strict = True
        self.badprobe = set()
        self.visited = set()

    def call1(self, st, f, args=(), kw=None):
        r = self.m.call_all(st, f, args, kw or {})
        if len(r) != 1 or r[0].kind != 'return':
            why = r[0].v if r[0].kind == 'unknown' else self.m.exc_name(r[0].st, r[0].v) if r[0].kind == 'raise' else '?'
            raise Unsupp('construction: %s %r' % (r[0].kind, why))
        return r[0].st, r[0].v

    def tok(self, st, t):
        """('sym', text) -> SymbolToken(text, None); ('sid', n) -> SymbolToken(None, n); ('txt', text) -> the str itself"""
        if t is None or t[0] == 'txt':
            return st, t and t[1]
        return self.call1(st, self.tokc, (t[1], None) if t[0] == 'sym' else (None, t[1]) if t[0] == 'sid' else t[1:])

    def realize(self, st, ev):
        """-> (st, event, the event with what the reader must see)"""
        def tok(st, t):
            if isinstance(t, AbsText):
                st, v, els = t.build(self, st)
                return st, ('sym', v), ('sym', els)
            if isinstance(t, AbsSid):
                return t.build(self, st)
            return st, t, t
        st, field, xf = tok(st, ev.field)
        al, xa = [], []
        for a in ev.anns:
            st, x, y = tok(st, a)
            al.append(x)
            xa.append(y)
        value, exp = ev.value, ev.exp
        if isinstance(value, Abs):
            st, value, exp = value.make(self, st)
        st, e = self.make(st, ev.et, ev.it, value, field, al)
        return st, e, Ev(ev.name, ev.et, ev.it, None, exp, xf, tuple(xa))

    def make(self, st, et, it=None, value=None, field=None, anns=()):
        st, f = self.tok(st, field)
        al = []
        for a in anns:
            st, x = self.tok(st, a)
            al.append(x)
        if type(value) is tuple and value[:1] == ('tok',):
            st, value = self.tok(st, value[1])
        elif type(value) is Call:
            st, value = value.build(self, st)
        return self.call1(st, self.evc, (self.etv[et], self.itv[it] if it else None, value, f, tuple(al)))

    def answer(self, st, v):
        """-> (st, kind, data) of a DataEvent"""
        v = self.m.norm(st, v)
        if type(v) is not Ref or type(st.o(v)) is not O:
            return st, 'NOTEVENT', None
        st, t = self.attr1(st, v, 'type')
        st, data = self.attr1(st, v, 'data')
        return st, self.wt.get(t.a if type(t) is Ref else None, 'NOTEVENT'), data

    def bytes_of(self, st, v):
        """The elements of a bytes / bytearray value."""
        v = self.m.raw(st, v)
        if isinstance(v, bytes):
            return list(v)
        if type(v) is Seq and v.kind == 'bytes':
            if v.star:
                raise Undecided('output of unknown length')
            return [self.m.norm(st, x) for x in v.e]
        if type(v) is Ref:
            p = st.o(v).p
            if type(p) is list:
                if any(x is STAR for x in p):
                    raise Undecided('output of unknown length')
                return [self.m.norm(st, x) for x in p]
        if type(v) is Sym:
            raise Undecided('output computed by %r' % (self.close(st, v),))
        raise Undecided('output is %r' % (v,))

    def illegal(self, st, g, pending):
        """Requests the protocol forbids at this point must raise TypeError."""
        bad = []
        if pending:
            s, e = self.make(st.clone(), 'SCALAR', 'NULL')
            bad.append(('an event', s, e))
        else:
            bad.append(('None', st.clone(), None))
            s, e = self.make(st.clone(), 'INCOMPLETE')
            bad.append(('INCOMPLETE', s, e))
        for n, s, e in bad:
            for o in self.m.resume_all(s, g, e, max_steps=100000):
                self.probes += 1
                if o.kind == 'unknown':
                    continue
                if o.kind == 'raise' and 'TypeError' in self.m.exc_names(o.st, o.v):
                    self.rejected += 1
                    continue
                self.badprobe.add((n, 'HAS_PENDING' if pending else 'NEEDS_INPUT/COMPLETE',
                                   'raises ' + self.m.exc_name(o.st, o.v) if o.kind == 'raise' else 'answers it'))

    def feed(self, st, g, ev, probe=False, limit=400):
        """Send one event and then None while the writer has pending data.
        -> list of (st, chunks, status); chunks: list of element lists"""
        done = []
        work = [(st, (), ev)]
        while work:
            st, chunks, e = work.pop()
            if len(chunks) > limit:
                done.append((st, chunks, ('toomany',)))
                continue
            res = self.m.resume_all(st, g, e, max_steps=500000)
            import explore
            if explore.AUDIT is not None:
                for o in res:
                    explore.audit(self.w, o.st, explore.AUDIT)
            for o in res:
                if o.kind == 'unknown':
                    done.append((o.st, chunks, ('unknown', o.v)))
                elif o.kind == 'diverge':
                    done.append((o.st, chunks, ('diverge', None, o.v)))
                elif o.kind == 'raise':
                    done.append((o.st, chunks, ('raise', self.m.exc_name(o.st, o.v), self.exc_where(o.st, o.v),
                                                tuple(self.m.exc_names(o.st, o.v)))))
                else:
                    try:
                        s2, k, data = self.answer(o.st, o.v)
                        if k == 'NOTEVENT':
                            done.append((s2, chunks, ('badyield',)))
                            continue
                        c2 = chunks + (tuple(self.bytes_of(s2, data)),)
                    except Undecided as x:
                        done.append((o.st, chunks, ('undecided', str(x))))
                        continue
                    except Unsupp as x:
                        done.append((o.st, chunks, ('unknown', str(x))))
                        continue
                    if probe:
                        self.illegal(s2, g, k == 'HAS_PENDING')
                    if k == 'HAS_PENDING':
                        work.append((s2, c2, None))
                    else:
                        done.append((s2, c2, (k,)))
        return done


from machine import STAR


# ---------------------------------------------------------------------------------------------- reading text back
class TextFeeder(object):
    """Feeds (partly abstract) output bytes to the reference grammar, splitting where it needs to."""

    def __init__(self, m):
        self.m = m
        self.ref = reftext.Ref(maxdepth=9, maxanns=9)

    def run(self, st, rs, els):
        """-> list of (st, rs, outs, error)"""
        work = [(st, rs, (), 0)]
        done = []
        while work:
            st, rs, outs, i = work.pop()
            while True:
                if rs == DEAD or rs == OOS:
                    done.append((st, rs, outs, i))
                    break
                if i == len(els):
                    done.append((st, rs, outs, None))
                    break
                c = self.m.norm(st, els[i])
                if type(c) is int:
                    r = self.ref.step(rs, c, ((c, c),))
                    assert len(r) == 1
                    rs, outs, i = r[0][1], outs + tuple(r[0][2]), i + 1
                    continue
                if type(c) is not Sym:
                    raise Undecided('output element %r' % (c,))
                for sub, rs2, o2 in self.ref.step(rs, c, st.syms[c.i].dom):
                    if not sub:
                        continue
                    s2 = st.clone()
                    if not narrow(s2, c, sub):
                        continue
                    work.append((s2, rs2, outs + tuple(o2), i + 1))
                break
        return done


def narrow(st, s, sub):
    """Restrict a symbol and what its term is computed from; False: infeasible."""
    st.setdom(s, sub)
    t = st.syms[s.i].term
    if t is not None and t[0] in ('hexd', 'digit10') and type(t[3]) is Sym:
        k, x, b = t[2], t[3], 16 if t[0] == 'hexd' else 10
        vals = set(int(chr(v), b) for v in is_iter(sub))
        d = digits_dom(st.syms[x.i].dom, b ** k, b, vals)
        if d == ():
            return False
        if d is not None:
            st.setdom(x, d)
    return True


def digits_dom(dom, unit, base, vals):
    """The values v of dom with (v // unit) % base in vals; None: too fine to represent"""
    out = []
    if len(vals) == base:
        return dom
    hi = dom[-1][1]
    if hi == INF or hi // unit > 40000:
        # only whether there is one at all
        for a, b in dom:
            if b == INF or b - a >= unit * base:
                return None
            q = set((x % base) for x in range(int(a // unit), int(b // unit) + 1))
            if q & vals:
                return None
        return ()
    for a, b in dom:
        q0 = a // unit
        while q0 * unit <= b:
            if q0 % base in vals:
                out.append((max(a, q0 * unit), min(b, q0 * unit + unit - 1)))
            q0 += 1
    res = ()
    for iv in out:
        if res and res[-1][1] + 1 == iv[0]:
            res = res[:-1] + ((res[-1][0], iv[1]),)
        else:
            res = res + (iv,)
    return res


# ---------------------------------------------------------------------------------------------- agreement
def num(seq):
    t = seq if isinstance(seq, str) else ''.join(chr(x) for x in seq.e) if all(type(x) is int for x in seq.e) else None
    if t is None:
        raise Undecided('abstract digits')
    return t.replace('_', '')


def digs_same(st, m, e, ds, base):
    """Is the digit sequence the notation of e (leading zeros allowed)?"""
    e = m.norm(st, e)
    ds = tuple(m.norm(st, x) for x in ds)
    if all(type(x) is int for x in ds):
        v = int(''.join(chr(x) for x in ds), base)
        return e == v
    while ds and type(ds[0]) is int and ds[0] == 48:
        ds = ds[1:]
    src = None
    for j, x in enumerate(ds):
        k = len(ds) - 1 - j
        if type(x) is int:
            continue
        t = st.syms[x.i].term
        if t is None or t[0] != ('hexd' if base == 16 else 'digit%d' % base) or t[2] != k or (src is not None and t[3] != src):
            return False
        src = t[3]
    if src != e:
        t = type(src) is Sym and st.syms[src.i].term
        if not t or t[0] != 'lin' or m.unlin(t[1]) != e:
            return False
    dom = st.syms[src.i].dom
    for j, x in enumerate(ds):
        if type(x) is int:
            k = len(ds) - 1 - j
            d = digits_dom(dom, base ** k, base, {int(chr(x), base)})
            if d is not None and d != dom:
                return False
    return dom[-1][1] < base ** len(ds)


def el_same(st, m, e, r):
    """written element e against the element r the reference read"""
    e = m.norm(st, e)
    if type(r) is tuple and r[0] == 'hex':
        return digs_same(st, m, e, r[1], 16)
    if type(r) is tuple and r[0] == 'pair':
        raise Undecided('surrogate pair escapes')
    r = m.norm(st, r)
    if type(r) is Sym and type(e) is Sym:
        if r == e:
            return True
        t = st.syms[r.i].term
        if t is not None and t[0] in ('ord', 'chr', 'byte', 'int2byte') and t[1] == e:
            return True
        return False
    return r == e


def seq_same(st, m, es, r):
    es = list(es) if not isinstance(es, str) else [ord(c) for c in es]
    if r.star:
        raise Undecided('star')
    return len(es) == len(r.e) and all(el_same(st, m, e, x) for e, x in zip(es, r.e))


def tok_same(st, m, e, r):
    if e is None or r is None:
        return e is None and r is None
    if e[0] == 'sid':
        return r[0] == 'sid' and int(num(r[1])) == e[1]
    els = e[1]
    if type(els) is Seq:
        els = els.e
    return r[0] == 'sym' and seq_same(st, m, els, r[1])


def fbits(x):
    import struct
    return struct.pack('>d', x)


def val_same(st, m, typ, e, r):
    """e: expectation ('int', n) ... ; r: the reference's value form"""
    if e is None or r is None:
        return e is None and r is None
    k = e[0]
    if k == 'bool':
        return r == ('const', e[1])
    if k == 'int':
        if r[0] != 'int':
            return False
        want = m.norm(st, e[1])
        if type(want) is int:
            try:
                return int(num(r[1]), r[2]) == want
            except Undecided:
                pass
        ds = tuple(m.norm(st, x) for x in r[1].e) if type(r[1]) is Seq else tuple(ord(c) for c in r[1])
        if ds[0] == 45:
            ds = ds[1:]
            want = m.unlin(m.neg(m.lin(st, want)))
        return digs_same(st, m, want, ds, r[2])
    if k == 'dec' and type(e[1]) is tuple:
        if r[0] != 'dec':
            return False
        els = list(m.norm(st, x) for x in r[1].e) if type(r[1]) is Seq else [ord(c) for c in r[1]]
        sign, c, nd, exp = e[1]
        neg = els[:1] == [45]
        if neg:
            els = els[1:]
        x = 0
        for i, ch in enumerate(els):
            if ch in (100, 68, 101, 69):
                x = int(''.join(chr(y) for y in els[i + 1:]))
                els = els[:i]
                break
        if 46 in els:
            i = els.index(46)
            x -= len(els) - 1 - i
            els = els[:i] + els[i + 1:]
        return neg == bool(sign) and x == exp and digs_same(st, m, c, els, 10)
    if k == 'dec':
        return r[0] == 'dec' and Decimal(num(r[1]).replace('d', 'e').replace('D', 'e')).as_tuple() == e[1].as_tuple()
    if k == 'flt' and type(e[1]) is Sym:
        want = st.facts.get(('t', 'frepr', e[1]))
        if r[0] != 'flt' or want is None:
            return False
        got = tuple(m.norm(st, x) for x in r[1].e) if type(r[1]) is Seq else tuple(ord(c) for c in r[1])
        want = tuple(m.norm(st, x) for x in want.e)
        return got == want or got in (want + (101, 48), want + (69, 48))
    if k == 'flt':
        if e[1] != e[1]:
            return r == ('const', 'nan')
        x = float(r[1]) if r[0] == 'const' else float(num(r[1])) if r[0] == 'flt' else None
        return x is not None and fbits(x) == fbits(e[1])
    if k == 'str':
        return r[0] == 'text' and seq_same(st, m, e[1], r[1])
    if k == 'clob':
        return r[0] == 'clob' and seq_same(st, m, e[1], r[1])
    if k == 'blob':
        if r[0] != 'blob':
            return False
        import base64
        want = e[1]
        if not isinstance(want, bytes) and not all(type(m.norm(st, x)) is int for x in want):
            out = []
            for j in range(0, len(want), 3):
                g = tuple(want[j:j + 3])
                for i in range(4):
                    out.append(61 if i > len(g) else ('b64', i, g))
            got = r[1].e if type(r[1]) is Seq else tuple(ord(c) for c in r[1])
            return len(got) == len(out) and all(x == y or type(x) is Sym and st.syms[x.i].term == y for x, y in zip(got, out))
        return base64.b64decode(num(r[1])) == bytes(want)
    if k in ('sym', 'sid'):
        return tok_same(st, m, e, r)
    if k == 'ts':
        # e[1]: (year, month, ...) ; e[2]: fraction digits or None; e[3]: offset minutes or None, 'none' when there is no time
        if r[0] != 'ts':
            return False
        f = r[1]
        if len(f[:6]) != len(e[1]) or not all(digs_same(st, m, x, y.e, 10) for x, y in zip(e[1], f[:6])):
            return False
        if type(e[2]) is Sym:
            if len(f) < 7 or len(f[6].e) != 6 or not digs_same(st, m, e[2], f[6].e, 10):
                return False
        else:
            fr = num(f[6]) if len(f) > 6 else None
            if (fr or None) != (e[2] or None):
                return False
        off = r[2]
        if e[3] == 'none':
            return off is None
        if off == 'Z':
            return e[3] == 0
        if off is None:
            return False
        hh, mm = int(num(off[1])), int(num(off[2]))
        if off[0] == '-' and hh == mm == 0:
            return e[3] is None
        return (1 if off[0] == '+' else -1) * (hh * 60 + mm) == e[3]
    raise Undecided('value form %r' % (k,))


def ev_same(st, m, e, r):
    """-> None or what differs"""
    if e[0] != r[0]:
        return 'reads as %s, not %s' % (r[0], e[0])
    if e[0] == 'IVM':
        return None
    if e[0] == 'END':
        return None if e[1:] == r[1:] else 'reads as the end of %s at depth %s' % r[1:]
    if e[0] == 'START':
        _, typ, depth, field, anns = e
        _, rtyp, rdepth, rfield, ranns = r
    else:
        _, typ, val, depth, field, anns = e
        _, rtyp, rval, rdepth, rfield, ranns = r
    if typ != rtyp:
        return '%s reads as %s' % (typ, rtyp)
    if depth != rdepth:
        return 'depth %s reads as depth %s' % (depth, rdepth)
    if not tok_same(st, m, field, rfield):
        return 'field name %s reads as %s' % (show(field), show(rfield))
    if len(anns) != len(ranns) or not all(tok_same(st, m, a, b) for a, b in zip(anns, ranns)):
        return 'annotations %s read as %s' % (show(anns), show(ranns))
    if e[0] == 'SCALAR' and not val_same(st, m, typ, val, rval):
        return '%s value %s reads as %s' % (typ, show(val), show(rval))
    return None


def tname(t):
    return '<abstract text of %d>' % t.n if isinstance(t, AbsText) else '<any ID>' if isinstance(t, Abs) else show(t[1])


def show(v):
    if type(v) is Seq:
        try:
            return repr(num(v))
        except Undecided:
            return 'abstract'
    if type(v) is tuple:
        return '(%s)' % ', '.join(show(x) for x in v)
    return repr(v)


# ---------------------------------------------------------------------------------------------- structure exploration (text)
class Ev(object):
    """An input event: a name for the path, how to build it, what the reader must see."""
    __slots__ = ('name', 'et', 'it', 'value', 'exp', 'field', 'anns')

    def __init__(self, name, et, it=None, value=None, exp=None, field=None, anns=()):
        self.name, self.et, self.it, self.value, self.exp, self.field, self.anns = name, et, it, value, exp, field, anns

    def with_(self, field=None, anns=()):
        n = self.name
        if anns:
            n = '::'.join(tname(a) for a in anns) + '::' + n
        if field:
            n = tname(field) + ':' + n
        return Ev(n, self.et, self.it, self.value, self.exp, field, tuple(anns))


class TextStructure(object):
    """All event sequences up to a container depth, to a fixpoint of (writer state, reference state, events not yet read)."""

    def __init__(self, world, indent, scalars, fields, anns, maxdepth=2, budget=300, starts=('L', 'S', 'T'), probe=False,
                 make='raw_writer', few=None):
        self.w, self.m = world, world.m
        self.d = WDriver(world)
        self.f = TextFeeder(world.m)
        self.indent, self.scalars, self.fields, self.anns = indent, scalars, fields, anns
        self.maxdepth, self.budget, self.starts, self.probe, self.makename = maxdepth, budget, starts, probe, make
        self.few = few or scalars[:2]
        self.nodes, self.seen, self.viol, self.unknown = [], {}, {}, {}
        self.agree = self.trans = self.completes = 0

    def start(self):
        st = self.w.state()
        return self.d.call1(st, self.w.get('writer_text', self.makename), (), {'indent': self.indent})

    def events(self, stack, fresh):
        out = []
        infield = bool(stack) and stack[-1] == 'T'
        f0 = self.fields[0] if infield else None
        # every scalar plainly; every annotation and field-name form with a few
        for s in self.scalars:
            out.append(s.with_(f0))
        for a in self.anns:
            for s in self.few:
                out.append(s.with_(f0, a))
        if infield:
            for f in self.fields[1:]:
                for s in self.few[:1]:
                    out.append(s.with_(f))
                    out.append(s.with_(f, self.anns[0]))
        if len(stack) < self.maxdepth:
            for c in self.starts:
                e = Ev('start ' + CT[c], 'CONTAINER_START', CT[c])
                out.append(e.with_(f0))
                for a in self.anns[:2]:
                    out.append(e.with_(f0, a))
        if stack:
            out.append(Ev('end', 'CONTAINER_END', CT[stack[-1]]))
            out.append(Ev('STREAM_END', 'STREAM_END'))
            out.append(Ev('IVM', 'VERSION_MARKER'))
        else:
            out.append(Ev('STREAM_END', 'STREAM_END'))
            out.append(Ev('IVM', 'VERSION_MARKER'))
            out.append(Ev('end', 'CONTAINER_END', 'LIST'))
        return out

    def expected(self, ev, stack):
        if ev.et == 'SCALAR':
            return ('SCALAR', ev.it, ev.exp, len(stack), ev.field, ev.anns)
        if ev.et == 'CONTAINER_START':
            return ('START', ev.it, len(stack), ev.field, ev.anns)
        if ev.et == 'CONTAINER_END':
            return ('END', CT[stack[-1]], len(stack) - 1)
        if ev.et == 'VERSION_MARKER':
            return ('IVM',)
        return None

    def path(self, idx, ev=None):
        out = []
        while idx is not None and idx > 0:
            p, n = self.nodes[idx]
            out.append(n)
            idx = p
        out.reverse()
        if ev is not None:
            out.append(ev.name)
        return '; '.join(out)

    def add(self, rule, msg, where, idx, ev, extra=''):
        k = (rule, msg, where)
        if k in self.viol:
            self.viol[k][2] += 1
        else:
            self.viol[k] = [self.path(idx, ev), extra, 1]

    def unk(self, why, idx, ev):
        self.unknown.setdefault(str(why)[:150], self.path(idx, ev))

    def canon(self):
        return Canon(self.w, keep=64, maxlen=64, fkeep=64, fmax=64, rkeep=64, rmax=64)

    def run(self):
        t0 = time.time()
        st, g = self.start()
        if self.probe:
            o = self.m.resume_all(st.clone(), g, None)
            if not all(x.kind == 'unknown' or x.kind == 'raise' and 'TypeError' in self.m.exc_names(x.st, x.v) for x in o):
                self.d.badprobe.add(('None', 'the start', 'does not raise TypeError'))
        work = deque()
        self.push(st, g, self.f.ref.initial, (), '', False, None, None, work)
        while work and time.time() - t0 < self.budget:
            self.node(*(work.popleft() + (work,)))
        self.complete = not work
        self.wall = time.time() - t0
        self.functions = set(self.m.visited)
        return self

    def push(self, st, g, rs, pend, stack, fresh, parent, name, work):
        try:
            s2, (g2, rs2, p2, k2), key = self.canon().run(st, [g, rs, pend, stack], keepseq=(1,))
        except Unsupp as e:
            return self.unk(e, parent, None)
        if key in self.seen:
            return
        idx = len(self.nodes)
        self.seen[key] = idx
        self.nodes.append((parent, name))
        work.append((idx, s2, g2, rs2, p2, stack))

    def node(self, idx, st, g, rs, pend, stack, work):
        for ev in self.events(stack, idx == 0):
            s0, e, ev = self.d.realize(st.clone(), ev)
            illegal = ev.et == 'CONTAINER_END' and not stack or ev.et in ('STREAM_END', 'VERSION_MARKER') and stack
            for s2, chunks, status in self.d.feed(s0, g, e, self.probe and not illegal):
                self.trans += 1
                if status[0] in ('unknown', 'undecided'):
                    self.unk(status, idx, ev)
                    continue
                if status[0] == 'diverge':
                    self.add('hang', 'the writer never answers', str(status[2]), idx, ev)
                    continue
                if status[0] in ('badyield', 'toomany'):
                    self.add('protocol', status[0], 'writer', idx, ev)
                    continue
                if illegal:
                    if status[0] != 'raise' or 'TypeError' not in status[3]:
                        self.add('accepts-invalid', '%s at depth %d must raise TypeError' % (ev.et, len(stack)), 'writer', idx, ev,
                                 str(status[:2]))
                    else:
                        self.agree += 1
                    continue
                if status[0] == 'raise':
                    self.add('exception', '%s raised for a legal event' % status[1], status[2], idx, ev)
                    continue
                self.check(s2, g, rs, pend, stack, idx, ev, chunks, status[0], work)

    def newstack(self, ev, stack):
        if ev.et == 'CONTAINER_START':
            return stack + {'LIST': 'L', 'SEXP': 'S', 'STRUCT': 'T'}[ev.it]
        if ev.et == 'CONTAINER_END':
            return stack[:-1]
        return stack

    def check(self, st, g, rs, pend, stack, idx, ev, chunks, kind, work):
        exp = self.expected(ev, stack)
        pend = pend + ((exp,) if exp else ())
        stack2 = self.newstack(ev, stack)
        els = [x for c in chunks for x in c]
        text = printable(els)
        want = 'NEEDS_INPUT' if stack2 else 'COMPLETE'
        if kind != want:
            return self.add('protocol', 'answers %s, not %s' % (kind, want), ev.et, idx, ev)
        for x in els:
            if type(x) is int and x > 127:
                return self.add('output', 'byte 0x%02x in the output' % x, ev.et, idx, ev, text)
        try:
            for s2, rs2, outs, err in self.f.run(st, rs, els):
                if err is not None:
                    self.add('output', 'the text is not legal Ion' if rs2 == DEAD else 'the text is not plain Ion', ev.et, idx, ev,
                             text)
                    continue
                q = self.match(s2, outs, pend, idx, ev, text)
                if q is None:
                    continue
                if not stack2:
                    # the data handed out so far stands for the events given so far
                    self.completes += 1
                    o2 = self.f.ref.eof(rs2)
                    if o2 is None:
                        self.add('output', 'COMPLETE but the text ends inside a value', ev.et, idx, ev, text)
                        continue
                    q2 = self.match(s2, tuple(o2), q, idx, ev, text)
                    if q2 is None:
                        continue
                    if q2:
                        self.add('output', '%s is missing from the text at COMPLETE' % q2[0][0], ev.et, idx, ev, text)
                        continue
                self.push(s2, g, rs2, q, stack2, False, idx, ev.name, work)
        except Undecided as x:
            self.unk(x, idx, ev)

    def match(self, st, outs, pend, idx, ev, text):
        for r in outs:
            if not pend:
                self.add('event', 'the text holds a %s that was never written' % r[0], ev.et, idx, ev, text)
                return None
            d = ev_same(st, self.m, pend[0], r)
            if d:
                self.add('event', d, ev.et, idx, ev, text)
                return None
            self.agree += 1
            pend = pend[1:]
        return pend


class TextScript(TextStructure):
    """Given event sequences, every path of each."""

    def script(self, evs):
        st, g = self.start()
        self.nodes.append((None, ''))
        work = deque()
        self.k, self.evs = 0, evs
        self.push(st, g, self.f.ref.initial, (), '', False, len(self.nodes) - 1, None, work)
        while work:
            k, item = work.popleft()
            if k < len(evs):
                self.k = k
                self.node(*(item + (work,)))

    def events(self, stack, fresh):
        return [self.evs[self.k]]

    def push(self, st, g, rs, pend, stack, fresh, parent, name, work):
        self.nodes.append((parent, name))
        work.append((self.k + (name is not None), (len(self.nodes) - 1, st, g, rs, pend, stack)))

    def path(self, idx, ev=None):
        return '; '.join(e.name for e in self.evs[:self.k + 1])

    def run(self, scripts):
        t0 = time.time()
        self.complete = True
        for evs in scripts:
            if time.time() - t0 > self.budget:
                self.complete = False
                break
            self.script(evs)
        self.wall = time.time() - t0
        self.functions = set(self.m.visited)
        return self


def printable(els):
    return ''.join(chr(x) if type(x) is int else '?' for x in els)
