"""Product exploration: the text reader's transition relation (derived from /repo's source by machine.py) against the
reference machine of reftext.py, to a fixpoint over canonical abstract states."""
import sys
import time

from dom import *
from machine import O, BM, TailCall, Unsupp, PyExc, STAR
from canon import Canon
import reftext
from reftext import DEAD, OOS

NOSUR = is_sub(CHAR, ((0xD800, 0xDFFF),))


AF, AFU = ((97, 102),), ((65, 70),)
CELLS = (reftext.NZ, is_sub(reftext.DIG, ((49, 49),)), reftext.DIG, AF, AFU, reftext.LET, reftext.IDS, reftext.IDC, ((0x20, 0x7e),), ((0, 0x7f),), NOSUR)


class Stop(Exception):
    pass


class Violation(object):
    def __init__(self, rule, msg, where, path, extra=''):
        self.rule, self.msg, self.where, self.path, self.extra = rule, msg, where, path, extra
        self.n = 1

    def __repr__(self):
        return '%s: %s @ %s after %s %s' % (self.rule, self.msg, self.where, self.path, self.extra)


AUDIT = None            # set of (object, change, where): changes of objects that exist since the import


def audit(w, st, out):
    """Collect the changes the finished call made to objects that existed when the modules had been imported.  A new key in a
    shared dictionary (a cache, a defaultdict's default) is not one; a changed or removed entry, a changed attribute, a grown
    sequence, an advanced iterator is."""
    n = 0
    for e in st.effects:
        if e[0] != 'shared-write':
            continue
        n += 1
        a, where, fn = e[1], e[3], e[4]
        if fn == '<driver>' or str(fn).startswith('prelude') or a not in st.heap:
            continue
        old, new = st.base[a], st.heap[a]
        why = changed(old, new)
        if why:
            out.add((objname(w, a), why, where))
    return n


def changed(old, new):
    if type(old) is not type(new):
        return 'replaced'
    if type(old) is O:
        if type(old.p) is dict:
            for k in old.p:
                if k not in new.p:
                    return 'entry removed'
                if not same(old.p[k], new.p[k]):
                    return 'entry changed'
        elif not same(old.p, new.p):
            return 'content changed'
        oa, na = old.attrs or {}, new.attrs or {}
        for k in set(oa) | set(na):
            if k in ('__tb__', '__cause__', '__context__'):
                continue
            if k not in oa or k not in na or not same(oa[k], na[k]):
                return 'attribute %s changed' % k
        return None
    for f in ('d', 'v', 'i', 'status', 'attrs'):
        if hasattr(old, f):
            x, y = getattr(old, f), getattr(new, f)
            if type(x) is dict and type(y) is dict:
                for k in set(x) | set(y):
                    if k not in x or k not in y or not same(x[k], y[k]):
                        return '%s changed' % k
            elif not same(x, y):
                return {'v': 'variable rebound', 'i': 'iterator advanced', 'status': 'coroutine resumed'}.get(f, f + ' changed')
    return None


def same(x, y):
    return type(x) is type(y) and x == y


def objname(w, a):
    st = w.st
    for mn, mref in w.m.modules.items():
        d = st.o(mref).d
        for k, v in d.items():
            if type(v) is Ref and v.a == a:
                return '%s.%s' % (mn, k)
    for mn, mref in w.m.modules.items():
        for k, v in st.o(mref).d.items():
            if type(v) is Ref and v.a in st.heap or type(v) is Ref and v.a in st.base:
                o = st.o(v)
                for f in ('attrs', 'd', 'p'):
                    x = getattr(o, f, None)
                    if type(x) is dict:
                        for k2, v2 in x.items():
                            if v2 is not None and (v2 == Ref(a) or type(v2) is tuple and Ref(a) in v2):
                                return '%s.%s[%s]' % (mn, k, k2)
    return 'an object created at import'


class Driver(object):
    """Speaks the reader protocol to an abstract reader generator."""

    skip = None                 # predicate on a delivered event: the consumer answers it with SKIP

    def __init__(self, world):
        world.m.symdigits = False
        world.m.strict = False
        self.w = world
        self.m = world.m
        st = world.st
        rt = world.get('reader', 'ReadEventType')
        d = st.o(rt).d
        self.kinds = {k: d[k] for k in ('DATA', 'NEXT', 'SKIP')}
        self.dcls = world.get('core', 'DataEvent')
        et = st.o(world.get('core', 'IonEventType')).d
        self.et = {et[k].a: k for k in ('INCOMPLETE', 'STREAM_END', 'VERSION_MARKER', 'SCALAR', 'CONTAINER_START',
                                        'CONTAINER_END')}
        it = st.o(world.get('core', 'IonType')).d
        self.it = {it[k].a: k for k in it if type(it[k]) is Ref and k.isupper()}

    def data(self, st, kind, payload):
        outs = self.m.call_all(st, self.dcls, (self.kinds[kind], payload))
        if len(outs) != 1 or outs[0].kind != 'return':
            raise Unsupp('DataEvent construction')
        return outs[0].st, outs[0].v

    def attr(self, st, v, name):
        """-> list of (st, kind, value)"""
        try:
            r = self.m.getattr(st, v, name)
        except PyExc as e:
            return [(st, 'raise', e.v)]
        if isinstance(r, TailCall):
            return [(o.st, o.kind, o.v) for o in self.m.call_all(st, r.f, r.args, r.kw)]
        return [(st, 'return', r)]

    def attr1(self, st, v, name):
        r = self.attr(st, v, name)
        if len(r) != 1 or r[0][1] != 'return':
            raise Unsupp('event attribute %s is not a plain value' % name)
        return r[0][0], self.m.norm(r[0][0], r[0][2])

    # ------------------------------------------------------------------ closing values over terms
    def close(self, st, v, d=0):
        m = self.m
        v = m.norm(st, v)
        t = type(v)
        if d > 12:
            return ('deep',)
        if t is Sym:
            i = st.syms[v.i]
            if i.term is not None:
                return ('term',) + tuple(self.close(st, x, d + 1) if j else x for j, x in enumerate(i.term))
            return v
        if t is Seq:
            return Seq(v.kind, tuple(self.close_el(st, x) for x in v.e), v.star)
        if t is Lin:
            return ('lin', v.c, tuple((self.close(st, Sym(s), d + 1), k) for s, k in v.t))
        if t is tuple:
            return tuple(self.close(st, x, d + 1) for x in v)
        if t is Ref:
            o = st.o(v)
            if type(o) is O:
                n = st.o(o.cls).name
                if v.a in self.it:
                    return ('iontype', self.it[v.a])
                p = o.p
                if type(p) is list:
                    star = bool(p) and p[-1] is STAR
                    els = tuple(self.close_el(st, x) for x in (p[:-1] if star else p))
                    if n == 'bytearray':
                        return Seq('bytes', els, star)
                    return ('obj', n, els, star)
                if p is not None and type(p) is not dict:
                    return ('obj', n, self.close(st, p, d + 1))
                return ('obj', n, tuple(sorted((k, self.close(st, x, d + 1)) for k, x in (o.attrs or {}).items()
                                               if not k.startswith('__'))))
            return ('ref', type(o).__name__)
        return v

    def close_el(self, st, x):
        x = self.m.norm(st, x)
        if type(x) is Sym:
            t = st.syms[x.i].term
            if t is not None and t[0] in ('hex', 'lin', 'ord', 'byte'):
                return (t[0],) + tuple(self.close(st, y) for y in t[1:])
        return x

    def symtoken(self, st, v):
        """-> ('sym', Seq text) | ('sid', sidvalue) """
        if v is None:
            return None
        st, text = self.attr1(st, v, 'text')
        if text is not None:
            st, sid = self.attr1(st, v, 'sid')
            if sid is not None:
                return ('sym+sid',)
            return ('sym', self.close(st, text))
        st, sid = self.attr1(st, v, 'sid')
        return ('sid', self.close(st, sid))

    def event(self, st, ev):
        """-> list of (st, desc).  desc: ('STREAM_END',) ... or the reference's output forms with closed values."""
        ev = self.m.norm(st, ev)
        if ev is None:
            return [(st, ('NONE',))]
        if type(ev) is not Ref or type(st.o(ev)) is not O or type(st.o(ev).p) is not tuple:
            return [(st, ('NOTEVENT', self.m.tname(st, ev)))]
        st, et = self.attr1(st, ev, 'event_type')
        k = self.et.get(et.a) if type(et) is Ref else None
        if k in ('INCOMPLETE', 'STREAM_END'):
            return [(st, (k,))]
        st, it = self.attr1(st, ev, 'ion_type')
        typ = self.it.get(it.a) if type(it) is Ref else it
        st, depth = self.attr1(st, ev, 'depth')
        if k == 'CONTAINER_END':
            return [(st, ('END', typ, depth))]
        st, fn = self.attr1(st, ev, 'field_name')
        st, an = self.attr1(st, ev, 'annotations')
        field = self.symtoken(st, fn)
        anns = tuple(self.symtoken(st, x) for x in self.m.concrete_iter(st, an))
        if k == 'CONTAINER_START':
            return [(st, ('START', typ, depth, field, anns))]
        if k not in ('SCALAR', 'VERSION_MARKER'):
            return [(st, ('NOTEVENT', str(k)))]
        out = []
        opaque = False
        pre = st.clone()
        for s2, kind, v in self.attr(st, ev, 'value'):
            if kind == 'unknown':
                raise Unsupp(v)
            if s2.imprecise and not pre.imprecise:
                # the value depends on elements beyond the widening bound: only its event is compared
                if not opaque:
                    opaque = True
                    s2, v, kind = pre.clone(), ('opaque',), 'opaque'
                    out.append((s2, ('SCALAR', typ, v, depth, field, anns)))
                continue
            if kind == 'raise':
                out.append((s2, ('SCALAR', typ, ('raise', self.m.exc_name(s2, v), self.exc_where(s2, v)), depth, field, anns)))
                continue
            v = self.m.norm(s2, v)
            if typ == 'SYMBOL' and v is not None and k == 'SCALAR':
                d = self.symtoken(s2, v)
            else:
                d = self.close(s2, v)
            if k == 'VERSION_MARKER':
                out.append((s2, ('IVM', d, depth, field, anns)))
            else:
                out.append((s2, ('SCALAR', typ, d, depth, field, anns)))
        return out

    def exc_where(self, st, v):
        tb = (st.o(v).attrs or {}).get('__tb__') or ()
        repo = [x for x in tb if not str(x[0]).startswith(('<driver', 'prelude'))]
        if repo:
            x = repo[-1] if False else repo[0]
            return '%s %s' % (x[0], x[1])
        return '?'

    def send(self, st, g, kind, payload):
        st, e = self.data(st, kind, payload)
        res = self.m.resume_all(st, g, e, max_steps=500000)
        if AUDIT is not None:
            for o in res:
                audit(self.w, o.st, AUDIT)
        return res

    def drain(self, st, g, kind, payload, limit=6):
        """Send one event and then NEXT until the reader is quiescent.
        -> list of (st, outs, status); status 'incomplete' | 'end' | ('raise', name, where) | ('unknown', why)"""
        done = []
        work = [(st, (), kind, payload)]
        while work:
            st, outs, kind, payload = work.pop()
            if len(outs) > limit:
                done.append((st, outs, ('toomany',)))
                continue
            for o in self.send(st, g, kind, payload):
                if o.kind == 'unknown':
                    done.append((o.st, outs, ('unknown', o.v)))
                    continue
                if o.kind == 'diverge':
                    done.append((o.st, outs, ('diverge', None, o.v)))
                    continue
                if o.kind == 'raise':
                    done.append((o.st, outs, ('raise', self.m.exc_name(o.st, o.v), self.exc_where(o.st, o.v),
                                              self.is_ion(o.st, o.v))))
                    continue
                try:
                    evs = self.event(o.st, o.v)
                except Unsupp as e:
                    done.append((o.st, outs, ('unknown', str(e))))
                    continue
                for s2, d in evs:
                    if d[0] == 'INCOMPLETE':
                        done.append((s2, outs, ('incomplete',)))
                    elif d[0] == 'STREAM_END':
                        done.append((s2, outs, ('end',)))
                    elif d[0] in ('NONE', 'NOTEVENT'):
                        done.append((s2, outs, ('badyield', d)))
                    else:
                        work.append((s2, outs + (d,), 'SKIP' if self.skip and self.skip(d) else 'NEXT', None))
        return done

    def is_ion(self, st, v):
        ion = self.w.get('exceptions', 'IonException')
        return ion in st.o(st.o(v).cls).mro


class Probe(object):
    """Mixed into a driver: after every answer, a copy of the reader is sent each request that is illegal at that point."""
    flush = False               # NEXT is legal after INCOMPLETE

    def send(self, st, g, kind, payload):
        res = super(Probe, self).send(st, g, kind, payload)
        for o in res:
            if o.kind == 'return':
                try:
                    pre = o.st.clone()
                    st2, et = self.attr1(pre, o.v, 'event_type')
                    k = self.et.get(et.a) if type(et) is Ref else None
                    st2, depth = self.attr1(st2, o.v, 'depth')
                except Unsupp:
                    continue
                self.probe(st2, g, k, depth)
        return res

    def probe(self, st, g, k, depth):
        bad = []
        if k in ('INCOMPLETE', 'STREAM_END'):
            bad.append(('SKIP', None, 'TypeError'))
            if not (self.flush and k == 'INCOMPLETE'):
                bad.append(('NEXT', None, 'TypeError'))
            bad.append(('DATA', self.empty, 'ValueError'))
        else:
            bad.append(('DATA', self.sample, 'TypeError'))
            if depth == 0 and k != 'CONTAINER_START':
                bad.append(('SKIP', None, 'TypeError'))
        for kind, payload, exc in bad:
            s, e = self.data(st.clone(), kind, payload)
            for o in self.m.resume_all(s, g, e, max_steps=100000):
                self.probes += 1
                if o.kind == 'unknown' or o.st.imprecise:
                    continue
                if o.kind == 'raise' and exc in self.m.exc_names(o.st, o.v):
                    self.ok[(k, kind, depth == 0)] = self.ok.get((k, kind, depth == 0), 0) + 1
                    continue
                got = 'raises ' + self.m.exc_name(o.st, o.v) if o.kind == 'raise' else 'answers it'
                self.bad.add((kind if payload is None or len(payload) else 'empty DATA', k, got, exc))


# ---------------------------------------------------------------------------------------------- value agreement
def seq_match(a, b):
    """Element-wise agreement of two abstract sequences (prefix up to either side's unknown tail)."""
    if isinstance(a, (bytes, str)):
        a = Seq('x', tuple(a) if isinstance(a, bytes) else tuple(ord(c) for c in a))
    if isinstance(b, (bytes, str)):
        b = Seq('x', tuple(b) if isinstance(b, bytes) else tuple(ord(c) for c in b))
    if type(a) is not Seq or type(b) is not Seq:
        return False
    n = min(len(a.e), len(b.e))
    for i in range(n):
        if not el_match(a.e[i], b.e[i]):
            return False
    if a.star and b.star:
        return True
    if a.star:
        return len(b.e) >= len(a.e)
    if b.star:
        return len(a.e) >= len(b.e)
    return len(a.e) == len(b.e)


CUR = [None]


def el_match(a, b):
    """a: delivered element, b: reference element."""
    if type(b) is tuple and b[0] == 'hex':
        f = CUR[0].facts.get(('t', 'hex', tuple(b[1]))) if CUR[0] is not None else None
        if type(a) is int and type(f) is int:
            return a == f
        if type(a) is int and type(f) is Sym:
            return CUR[0].syms[f.i].dom == ((a, a),)
        if type(a) is int:
            try:
                return a == int(''.join(chr(x) for x in b[1]), 16)
            except TypeError:
                return False
        if type(a) is tuple and a[0] == 'hex':
            return strip0(a[1:]) == strip0(b[1])
        return False
    if type(b) is tuple and b[0] == 'pair':
        return type(a) is tuple and a[0] == 'pair' and a[1:] == b[1:]
    return a == b


def run_match(st, x, r):
    """reader element x against reference element r in state st"""
    if type(r) is not tuple:
        return False
    CUR[0] = st
    if type(x) is Sym:
        i = st.syms[x.i]
        if i.dom is not None and is_one(i.dom):
            x = i.dom[0][0]
        elif i.term is not None:
            x = i.term
    return el_match(x, r)


def strip0(d):
    d = tuple(d)
    while len(d) > 1 and d[0] == 48:
        d = d[1:]
    return d


def const_text(s):
    if isinstance(s, str):
        return s
    if isinstance(s, bytes):
        return s.decode('latin-1')
    if type(s) is Seq and not s.star and all(type(x) is int for x in s.e):
        return ''.join(chr(x) for x in s.e)
    return None


def as_seq(v):
    """The sequence inside a closed text-like value."""
    if type(v) is Seq or isinstance(v, (str, bytes)):
        return v
    if type(v) is tuple and v and v[0] == 'term' and v[1] in ('str', 'decode', 'encode'):
        return as_seq(v[2])
    return None


def sid_match(a, digits):
    t = const_text(digits)
    if type(a) is int:
        return t is not None and int(t) == a
    if type(a) is tuple and a[:2] == ('term', 'int'):
        return as_seq(a[2]) is not None and seq_match(as_seq(a[2]), digits)
    return False


def tok_match(a, b):
    if a is None or b is None:
        return a is b or a == b
    if b[0] == 'sid':
        return a[0] == 'sid' and sid_match(a[1], b[1])
    if b[0] == 'sym':
        return a[0] == 'sym' and as_seq(a[1]) is not None and seq_match(as_seq(a[1]), b[1])
    return False


def num_text(v, op):
    if type(v) is tuple and v[:1] == ('term',) and v[1] == op:
        return as_seq(v[2]) if as_seq(v[2]) is not None else None
    return None


def val_match(typ, a, b):
    """a: delivered (closed) value; b: reference value.  True / False / None (cannot tell)."""
    if b is None:
        return a is None
    if a is None:
        return False
    if type(a) is tuple and a[:1] == ('raise',):
        return False
    if a == ('opaque',):
        return None
    k = b[0]
    if k == 'const':
        if isinstance(b[1], bool):
            return a is b[1] or (type(a) is tuple and a[0] == 'obj' and a[2] is b[1])
        x = float(b[1])
        if isinstance(a, float):
            return (x != x and a != a) or x == a
        if type(a) is tuple and a[:2] == ('term', 'float'):
            t = const_text(as_seq(a[2]))
            return t is not None and float(t) in (x,) or (x != x and t is not None and float(t) != float(t))
        return False
    if k == 'int':
        t = const_text(b[1])
        if type(a) is int:
            return t is not None and int(t, b[2]) == a
        if type(a) is tuple and a[:2] == ('term', 'int') and len(a) in (3, 4):
            base = a[3] if len(a) == 4 and a[3] is not None else 10
            s = as_seq(a[2])
            return s is not None and base == b[2] and seq_match(s, b[1])
        return False
    if k == 'dec':
        t = const_text(b[1])
        if type(a).__name__ == 'Decimal':
            import decimal
            return t is not None and str(decimal.Decimal(t)) == str(a)
        if type(a) is tuple and a[:2] == ('term', 'Decimal'):
            s = as_seq(a[2])
            return s is not None and seq_match(s, b[1])
        return False
    if k == 'flt':
        t = const_text(b[1])
        if isinstance(a, float):
            return t is not None and float(t) == a
        if type(a) is tuple and a[:2] == ('term', 'float'):
            s = as_seq(a[2])
            return s is not None and seq_match(s, b[1])
        return False
    if k in ('text', 'clob'):
        s = as_seq(a)
        if type(a) is tuple and a[:1] == ('obj',):
            s = as_seq(a[2])
        return s is not None and seq_match(s, b[1])
    if k == 'sym':
        return tok_match(a, b)
    if k == 'sid':
        return tok_match(a, b)
    if k == 'blob':
        t = const_text(b[1])
        if isinstance(a, bytes):
            import base64
            return t is not None and base64.b64decode(t) == a
        if type(a) is tuple and a[:2] == ('term', 'b64decode'):
            s = as_seq(a[2])
            return s is not None and seq_match(s, b[1])
        return False
    if k == 'ts':
        return ts_match(a, b)
    return None


class Cannot(Exception):
    """The closed term is outside the linear fragment; nothing is decided about it."""


def _known(seq):
    """Value domain of int(seq) in the current state, when the path has compared it."""
    st = CUR[0]
    dom = None
    for i, x in st.syms.items():
        t = x.term
        if t is not None and t[0] == 'int' and len(t) > 1 and type(t[1]) is Seq and not t[1].star and x.dom is not None:
            if t[1].e == seq.e:
                dom = x.dom if dom is None else is_and(dom, x.dom)
            elif t[1].e[:1] in ((43,), (45,)) and t[1].e[1:] == seq.e:
                d = x.dom if t[1].e[0] == 43 else tuple((-b, -a) for a, b in reversed(x.dom))
                dom = d if dom is None else is_and(dom, d)
    return dom


def lin_int(v):
    """closed integer term -> {digit symbol or None: coefficient}, by place value"""
    if type(v) is int:
        return {None: v}
    if type(v) is tuple and v[:1] == ('lin',):
        out = {None: v[1]}
        for x, k in v[2]:
            _acc(out, lin_int(x), k)
        return out
    if type(v) is tuple and v[:2] == ('term', 'int') and (len(v) == 3 or v[3] in (None, 10)):
        s = as_seq(v[2])
        if s is None:
            return _trunc(*lin_dec(v[2]))
        if isinstance(s, (str, bytes)):
            return {None: int(s)}
        e, sg = s.e, 1
        if e[:1] in ((43,), (45,)):
            sg, e = (-1 if e[0] == 45 else 1), e[1:]
        if s.star:
            return {('seq', s): 1}
        k = _known(Seq(s.kind, e))
        if k is not None and is_one(k):
            return {None: sg * int(k[0][0])}
        return {x: sg * c for x, c in _digits(e).items()}
    if type(v) is Sym:
        d = CUR[0].syms[v.i].dom
        if d is not None and is_one(d):
            return {None: int(d[0][0])}
        return {v.i: 1}
    raise Cannot(v)


def _digits(e):
    out = {None: 0}
    for j, x in enumerate(e):
        w = 10 ** (len(e) - 1 - j)
        if type(x) is int:
            if not 48 <= x <= 57:
                raise Cannot(e)
            out[None] += (x - 48) * w
        elif type(x) is Sym:
            d = CUR[0].syms[x.i].dom
            if not d or d[0][0] < 48 or d[-1][1] > 57:
                raise Cannot(e)
            if is_one(d):
                out[None] += (int(d[0][0]) - 48) * w
            else:
                _acc(out, {('d', x.i): 1}, w)
        else:
            raise Cannot(e)
    return out


def _acc(out, p, k):
    for x, c in p.items():
        out[x] = out.get(x, 0) + c * k


def lin_dec(v):
    """closed decimal term -> (linear form, power of ten)"""
    if type(v).__name__ == 'Decimal':
        t = v.as_tuple()
        return {None: int(''.join(map(str, t.digits)) or 0) * (-1 if t.sign else 1)}, t.exponent
    if type(v) is int:
        return {None: v}, 0
    if type(v) is tuple and v[:2] == ('term', 'Decimal'):
        s = as_seq(v[2])
        if s is not None and not isinstance(s, (str, bytes)) and not s.star:
            e = s.e
            if 46 in e:
                i = e.index(46)
                return _digits(e[:i] + e[i + 1:]), -(len(e) - i - 1)
            return _digits(e), 0
        return lin_int(v[2]), 0
    if type(v) is tuple and v[:2] == ('term', 'dec.scaleb') and type(v[3]) is int:
        p, k = lin_dec(v[2])
        return p, k + v[3]
    if type(v) is tuple and v[:2] == ('term', 'bin*'):
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if type(y) is int or type(y).__name__ == 'Decimal':
                (p, k), (q, l) = lin_dec(x), lin_dec(y)
                return {n: c * q[None] for n, c in p.items()}, k + l
    if type(v) is tuple and v[:2] in (('term', 'int'),):
        return lin_int(v), 0
    raise Cannot(v)


def _trunc(p, k):
    """floor of a linear form over decimal digits times 10**k"""
    if k >= 0:
        return {x: c * 10 ** k for x, c in p.items()}
    m, out, rest = 10 ** -k, {}, 0
    for x, c in p.items():
        if c % m == 0:
            out[x] = c // m
        elif c < 0 or x is not None and x[0] != 'd':
            raise Cannot(p)
        elif x is None:
            out[None] = c // m
            rest += c % m
        else:
            rest += 9 * c
    if rest >= m:
        raise Cannot(p)
    out.setdefault(None, 0)
    return out


def dec_places(v):
    """closed term for a number of decimal places -> int"""
    if type(v) is int:
        return v
    if type(v) is tuple and v[:1] == ('lin',) and len(v[2]) == 1:
        x, k = v[2][0]
        if type(x) is tuple and x[:2] == ('term', 'dec_exp'):
            return v[1] + k * lin_dec(x[2])[1]
    if type(v) is tuple and v[:2] == ('term', 'dec_exp'):
        return lin_dec(v[2])[1]
    raise Cannot(v)


def lin_eq(a, b):
    ks = set(a) | set(b)
    return all(a.get(k, 0) == b.get(k, 0) for k in ks)


def find_obj(v, name):
    if type(v) is tuple:
        if v[:1] == ('obj',) and v[1] == name:
            return v
        for x in v:
            r = find_obj(x, name)
            if r is not None:
                return r
    return None


def box_only():
    """no fact of the current state relates several symbols, so each may take any value of its domain"""
    return not any(k[0] in ('s', 'b') for k in CUR[0].facts)


def cdom(seq):
    d = _known(seq)
    lo = hi = 0
    for x in seq.e:
        dd = ((x, x),) if type(x) is int else CUR[0].syms[x.i].dom
        lo, hi = lo * 10 + int(dd[0][0]) - 48, hi * 10 + int(dd[-1][1]) - 48
    return ((lo, hi),) if d is None else is_and(d, ((lo, hi),))


def ts_range_ok(b):
    """May every component of reference timestamp b be in range in the current state (so a range error is wrong)?"""
    if CUR[0] is None or not box_only():
        return False
    lim = [(1, 9999), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59)]
    comp = list(zip(b[1][:6], lim))
    if type(b[2]) is tuple:
        comp += [(b[2][1], (0, 23)), (b[2][2], (0, 59))]
    try:
        return all(is_and(cdom(s), (l,)) for s, l in comp)
    except Exception:
        return False


def ts_zero(b):
    """offset -00:00: True certainly, False certainly not, None it may be"""
    if type(b[2]) is not tuple or b[2][0] != '-':
        return False
    h, m = cdom(b[2][1]), cdom(b[2][2])
    if h == ((0, 0),) and m == ((0, 0),):
        return True
    if not is_has(h, 0) or not is_has(m, 0):
        return False
    return None


def at_most(seq, n):
    return not seq.star and len(seq.e) <= n and all(type(x) is int or CUR[0].syms[x.i].kind == 'int' for x in seq.e)


def excess(seq, p):
    """May the number of digits in seq exceed the precision p (an int or a closed term)?  None when that is not known."""
    runs = [x for x in seq.e if type(x) is not int and CUR[0].syms[x.i].kind == 'run']
    n = len(seq.e) - len(runs)
    if seq.star:
        return True if type(p) is int else None
    lens = {}
    top = n
    for x in runs:
        f = CUR[0].facts.get(('t', 'len', x))
        lens[('term', 'len', x)] = lens.get(('term', 'len', x), 0) + 1
        top += CUR[0].syms[f.i if f is not None else x.i].dom[-1][1]
    if type(p) is int:
        return top > p
    if type(p) is tuple and p[:1] == ('lin',) and all(t in lens for t, _ in p[2]):
        if dict(p[2]) == lens:
            return n > p[1]
    elif type(p) is tuple and p[:2] == ('term', 'len') and lens == {p: 1}:
        return n > 0
    return None


def rounds(v, seq):
    """Is the closed decimal built with arithmetic that rounds to fewer digits than seq may have?"""
    if type(v) is not tuple:
        return False
    r = False
    if v[:1] == ('term',) and (v[1] in ('bin*', 'bin/', 'bin+', 'bin-') or str(v[1]).startswith('dec.') and v[1] in (
            'dec.scaleb', 'dec.quantize', 'dec.normalize')):
        r = excess(seq, v[-1][1] if type(v[-1]) is tuple and v[-1][:1] == ('ctx',) else 28)
        if r:
            return True
    for x in v:
        y = rounds(x, seq)
        if y:
            return True
        if y is None:
            r = None
    return r


UNDECIDED = [0]


def ts_match(a, b):
    if type(a) is not tuple or a[:2] != ('obj', 'Timestamp'):
        return False
    at = dict(a[2])
    f, off = b[1], b[2]
    if any(x.star for x in f[:6]):
        UNDECIDED[0] += 1
        return None
    try:
        names = ('year', 'month', 'day', 'hour', 'minute', 'second')
        for i, n in enumerate(names):
            exp = lin_int(('term', 'int', f[i])) if i < len(f) else {None: 1 if i in (1, 2) else 0}
            if not lin_eq(lin_int(at[n]), exp):
                return False
        pr = at.get('precision')
        if type(pr) is tuple and pr[:1] == ('obj',):
            pr = pr[2]
        if pr != {1: 0, 2: 1, 3: 2, 5: 3, 6: 4, 7: 4}[len(f)]:
            return False
        # offset
        tz, td = at['tzinfo'], find_obj(at['tzinfo'], 'timedelta')
        if tz is not None and td is None:
            raise Cannot(tz)
        z = ts_zero(b)
        if off is None or z is True:
            if tz is not None:
                return False
        elif tz is None:
            return None if z is None and not box_only() else False
        else:
            if z is None and box_only():
                return False
            exp = {None: 0}
            if type(off) is tuple:
                sg = -1 if off[0] == '-' else 1
                _acc(exp, lin_int(('term', 'int', off[1])), sg * 3600000000)
                _acc(exp, lin_int(('term', 'int', off[2])), sg * 60000000)
            if not lin_eq(lin_int(dict(td[2])['_us']), exp):
                return False
        # fraction
        n = 0
        if len(f) == 7:
            r = rounds(at['fractional_seconds'], f[6])
            if r:
                return False
            if r is None:
                raise Cannot(at['fractional_seconds'])
            if f[6].star or any(type(x) is not int and CUR[0].syms[x.i].kind == 'run' for x in f[6].e):
                UNDECIDED[0] += 1
                return None
            n = len(f[6].e)
            p, k = lin_dec(at['fractional_seconds'])
            if k != -n or not lin_eq(p, _digits(f[6].e)):
                return False
            if not lin_eq(lin_int(at['microsecond']), _trunc(_digits(f[6].e), 6 - n)):
                return False
        else:
            p, k = lin_dec(at['fractional_seconds'])
            if k != 0 or not lin_eq(p, {}) or not lin_eq(lin_int(at['microsecond']), {}):
                return False
        if dec_places(at['fractional_precision']) != min(n, 6):
            return False
    except Cannot:
        UNDECIDED[0] += 1
        return None
    return True


def out_match(a, b):
    """delivered vs reference event -> None when they agree, else (what, detail)"""
    if b[0] == 'IVM':
        return None if a[0] == 'IVM' and not a[4] and a[3] is None and a[2] == 0 else \
            ('expected a version marker, got %s' % brief(a), '')
    if a[:2] != b[:2]:
        return 'expected %s, got %s' % (brief(b), brief(a)), ''
    if a[0] == 'END':
        return None if a[2] == b[2] else ('depth of END', 'got %r, expected %r' % (a[2], b[2]))
    i = 3 if a[0] == 'SCALAR' else 2
    if a[i] != b[i]:
        return 'depth of ' + brief(b), 'got %r, expected %r' % (a[i], b[i])
    if not tok_match(a[i + 1], b[i + 1]):
        return 'field name of ' + brief(b), 'got %r, expected %r' % (a[i + 1], b[i + 1])
    if len(a[i + 2]) != len(b[i + 2]) or not all(tok_match(x, y) for x, y in zip(a[i + 2], b[i + 2])):
        return 'annotations of ' + brief(b), 'got %r, expected %r' % (a[i + 2], b[i + 2])
    if a[0] == 'SCALAR' and val_match(a[1], a[2], b[2]) is False:
        return 'value of ' + brief(b), 'got %r, expected %r' % (a[2], b[2])
    return None


def brief(d):
    return '%s %s' % (d[0], d[1] if len(d) > 1 and d[0] != 'IVM' else '')


class Explorer(object):
    def __init__(self, world, ref, keep=2, maxlen=24, chunks=(1,), maxnodes=400000, budget=600, pend=3, counters=(),
                 alphabet=NOSUR, canon=None, runs=False, driver=Driver):
        self.runs = runs
        self.w, self.m, self.ref = world, world.m, ref
        self.d = driver(world)
        self.keep, self.maxlen = keep, maxlen
        self.ckw = canon or {}
        self.counters = set(counters)
        self.maxnodes, self.budget, self.maxpend = maxnodes, budget, pend
        self.chunks = chunks
        self.alphabet = alphabet
        self.m.fingerprint = lambda st: Canon(world, keep=1 << 30, maxlen=1 << 30, fkeep=1 << 30, fmax=1 << 30).fingerprint(st)
        self.seen = {}
        self.nodes = []             # (parent index, dom string)
        self.viol = []
        self.vkeys = {}
        self.unknown = {}
        self.trans = 0
        self.ooscount = 0
        self.eofs = 0
        self.agree = 0
        self.events = {}

    def canon(self):
        return Canon(self.w, keep=self.keep, maxlen=self.maxlen, counters=self.counters, cells=CELLS, match=run_match, **self.ckw)

    def fresh(self):
        st = self.w.state()
        outs = self.m.call_all(st, self.w.get('reader_text', 'reader'), (), {'is_unicode': True})
        assert len(outs) == 1 and outs[0].kind == 'return', outs
        return outs[0].st, outs[0].v

    def start(self):
        st, g = self.fresh()
        r = self.d.drain(st, g, 'NEXT', None)
        assert len(r) == 1, r
        return r[0][0], g, r[0][2]

    def path(self, idx, last=None):
        out = []
        while idx is not None and idx > 0:
            p, c = self.nodes[idx]
            out.append(c)
            idx = p
        out.reverse()
        if last is not None:
            out.append(last)
        return ''.join(sample(x) for x in out)

    def add(self, rule, msg, where, idx, last, extra=''):
        where = where.split(' ')[-1].split(':')[0]
        key = (rule, msg, where)
        if key in self.vkeys:
            self.vkeys[key].n += 1
            return
        v = Violation(rule, msg, where, self.path(idx, last), extra)
        self.vkeys[key] = v
        self.viol.append(v)

    def push(self, st, g, rs, pend, status, parent, dom, work):
        c = self.canon()
        c.collapsible = self.ref.collapsible(rs, pend) if self.runs else ()
        try:
            s2, (g2, rs2, pend2, _), key = c.run(st, [g, rs, pend, status], keepseq=(1, 2))
        except Unsupp as e:
            self.unk(str(e), parent, dom)
            return
        if key in self.seen:
            return
        idx = len(self.nodes)
        self.seen[key] = idx
        self.nodes.append((parent, dom))
        work.append((idx, s2, g2, rs2, pend2, status))

    def unk(self, why, idx, dom):
        if why not in self.unknown:
            self.unknown[why] = self.path(idx, dom)

    def run(self):
        t0 = time.time()
        from collections import deque
        st, g, status = self.start()
        self.nodes.append((None, ()))
        work = deque()
        c = self.canon()
        s2, (g2, rs2, p2, _), key = c.run(st, [g, self.ref.initial, (), status[0]], keepseq=(1, 2))
        self.seen[key] = 0
        work.append((0, s2, g2, rs2, p2, status[0]))
        self.complete = False
        while work:
            if len(self.nodes) > self.maxnodes or time.time() - t0 > self.budget:
                self.left = len(work)
                break
            idx, st, g, rs, pend, stat = work.popleft()
            self.node(idx, st, g, rs, pend, stat, work)
        else:
            self.complete = True
            self.left = 0
        self.wall = time.time() - t0
        self.functions = set(self.m.visited)
        return self

    # pend: tuple of ('i', desc) or ('r', desc): events delivered / expected but not matched yet
    def settle(self, pend, iouts, routs):
        p = list(pend)
        for side, outs in (('i', iouts), ('r', routs)):
            for o in outs:
                if p and p[0][0] != side:
                    other = p.pop(0)[1]
                    a, b = (o, other) if side == 'i' else (other, o)
                    d = out_match(a, b)
                    if d is not None:
                        return None, d
                    self.agree += 1
                    self.events[b[:2]] = self.events.get(b[:2], 0) + 1
                else:
                    p.append((side, o))
        return tuple(p), None

    def node(self, idx, st, g, rs, pend, stat, work):
        # (a) the input ends here
        self.ref.st = st
        self.eofs += 1
        exp = self.ref.eof(rs) if rs not in (DEAD, OOS) else None
        ends = self.finish(st, g, 0) if stat != 'end' else [(st, (), ('end',))]
        for s2, outs, status in ends:
            if status[0] == 'unknown':
                self.unk(status[1], idx, 'EOF')
                continue
            if s2.imprecise:
                continue
            where = status[2] if status[0] == 'raise' else self.last(s2)
            if status[0] == 'diverge':
                self.add('hang', 'the reader never answers at the end of the input', status[2], idx, None)
                continue
            if status[0] in ('badyield', 'toomany'):
                self.add('protocol', 'bad yield %r at end of input' % (status,), where, idx, None)
                continue
            if status[0] == 'raise':
                if not status[3]:
                    self.add('exception', '%s at end of input' % status[1], where, idx, None)
                elif exp is not None:
                    self.add('rejects-valid', 'rejects complete input at its end', where, idx, None)
                continue
            if exp is None and any(type(o[2]) is tuple and o[2][:1] == ('raise',) for o in outs if o[0] == 'SCALAR'):
                continue
            if exp is None and rs not in (DEAD, OOS) and (rs[0] or rs[4] is not None and rs[4][0] == 'brace'):
                continue            # inside a container the consumer has to notice the missing end (checked for load)
            if exp is None:
                self.add('accepts-invalid', 'accepts incomplete or illegal input at its end (%s)' % status[0], where, idx, None,
                         repr(outs))
                continue
            if status[0] != 'end':
                self.add('protocol', 'no STREAM_END at end of complete input', where, idx, None)
                continue
            CUR[0] = s2
            p, diff = self.settle(pend, outs, exp)
            if diff is None and p:
                diff = 'events left over at end of input', repr([(x[0], brief(x[1])) for x in p])
            if diff is not None and not self.range_error(pend, outs, exp):
                self.add('event', diff[0], where, idx, None, diff[1])
        # (b) more characters arrive
        for n in self.chunks:
            s0 = st.clone()
            cc = tuple(s0.sym('int', self.alphabet) for _ in range(n))
            for s2, outs, status in self.d.drain(s0, g, 'DATA', Seq('str', cc)):
                self.trans += 1
                if status[0] == 'unknown':
                    self.unk(status[1], idx, ('seq',) + tuple(s2.syms[c.i].dom for c in cc))
                    continue
                self.refsteps(s2, cc, 0, rs, (), (), (idx, g, rs, pend, outs, status, work))

    def refsteps(self, s2, cc, i, rs, routs, subs, a):
        """The reference reads the same characters, one at a time."""
        if i == len(cc):
            idx, g, rs0, pend, outs, status, work = a
            self.succ(idx, s2, g, rs0, rs, pend, outs, routs, status, subs[0] if i == 1 else ('seq',) + subs, work)
            return
        c = cc[i]
        self.ref.st = s2
        for sub, rs2, o in self.ref.step(rs, c, s2.syms[c.i].dom):
            if rs2 == OOS:
                self.ooscount += 1
                continue
            s3 = s2.clone()
            s3.setdom(c, sub)
            self.refsteps(s3, cc, i + 1, rs2, routs + tuple(o), subs + (sub,), a)

    def finish(self, st, g, n):
        """No more data: NEXT until the reader has delivered what was pending (it may need a second request when a
        comment ends the input)."""
        out = []
        for s2, outs, status in self.d.drain(st.clone(), g, 'NEXT', None):
            if status[0] == 'incomplete' and n < 2:
                out.extend((s3, outs + o3, t3) for s3, o3, t3 in self.finish(s2, g, n + 1))
            else:
                out.append((s2, outs, status))
        return out

    def range_error(self, pend, outs, routs):
        """A timestamp whose value is a range error: legitimate unless every component may be in range."""
        its = [o for o in tuple(x[1] for x in pend if x[0] == 'i') + tuple(outs)
               if o[0] == 'SCALAR' and o[1] == 'TIMESTAMP' and type(o[2]) is tuple and o[2][:2] == ('raise', 'ValueError')]
        exp = [o for o in tuple(x[1] for x in pend if x[0] == 'r') + tuple(routs)
               if o[0] == 'SCALAR' and o[1] == 'TIMESTAMP' and o[2] is not None]
        return bool(its) and not (len(its) == len(exp) == 1 and ts_range_ok(exp[0][2]))

    def last(self, st):
        return st.trace[-1][0] if st.trace else '?'

    def succ(self, idx, st, g, rs, rs2, pend, outs, routs, status, sub, work):
        if st.imprecise:
            return self.unk('imprecise: %s' % st.imprecise, idx, sub)
        where = status[2] if status[0] == 'raise' else self.last(st)
        if status[0] == 'diverge':
            return self.add('hang', 'the reader never answers', status[2], idx, sub)
        if status[0] in ('badyield', 'toomany'):
            return self.add('protocol', 'bad yield %r' % (status,), where, idx, sub)
        if status[0] == 'raise' and not status[3]:
            return self.add('exception', '%s raised by the reader' % status[1], where, idx, sub)
        CUR[0] = st
        p, diff = self.settle(pend, outs, routs)
        if diff is not None:
            if rs2 == DEAD and status[0] == 'raise':
                return
            if self.range_error(pend, outs, routs):
                return
            return self.add('event', diff[0], where, idx, sub, diff[1])
        if status[0] == 'raise':
            if rs2 != DEAD:
                self.add('rejects-valid', 'rejects valid input', where, idx, sub, repr(rs2))
            return
        if rs2 == DEAD:
            if any(x[0] == 'i' for x in p):
                return self.add('accepts-invalid', 'delivers %s for invalid input' %
                                brief([x[1] for x in p if x[0] == 'i'][-1]), where, idx, sub)
        if len(p) > self.maxpend:
            return self.add('event', 'events are not delivered', where, idx, sub, repr([(x[0], brief(x[1])) for x in p]))
        self.push(st, g, rs2, p, status[0], idx, sub, work)


def sample(dom):
    if isinstance(dom, str):
        return dom
    if not dom:
        return ''
    if dom[0] == 'seq':
        return ''.join(sample(x) for x in dom[1:])
    for pref in 'ab1 ':
        if is_has(dom, ord(pref)):
            return pref
    for a, b in dom:
        for v in (a, max(a, 33)):
            if a <= v <= b:
                if 32 < v < 127:
                    return chr(v)
    v = int(dom[0][0])
    return chr(v)


def find_counters(world, unit=None, n=24):
    """Pre-analysis: integer locations that keep changing while the reader consumes n characters of one class."""
    locs = {}
    d = Driver(world)
    m = world.m
    for seed, rep in (('1', '1'), ('', ' '), ('"', 'a'), ('{{', 'a'), ('{{a', '='), ('{{"', 'a'), ("\'", 'a'), ('a', 'a'), ("'''", '\n'), ('//', 'a'), ('1.', '1'), ('/*', '*'),
                      ('{a:', ' '), ('[', ' ')):
        c = Canon(world, keep=4, maxlen=12)
        c.record = True
        st = world.state()
        o = m.call_all(st, world.get('reader_text', 'reader'), (), {'is_unicode': True})[0]
        st, g = o.st, o.v
        r = d.drain(st, g, 'NEXT', None)
        st = r[0][0]
        for ch in [x for x in seed] + [rep] * n:
            rs = d.drain(st, g, 'DATA', ch)
            if len(rs) != 1 or rs[0][2][0] not in ('incomplete', 'end'):
                break
            st = rs[0][0]
            try:
                s2, (g2,), key = c.run(st, [g])
            except Unsupp:
                break
        for loc, vals in c.seen.items():
            if len(vals) > n - 8:
                locs.setdefault(loc, set()).update(vals)
    return locs
