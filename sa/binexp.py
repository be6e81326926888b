"""Product exploration of the raw binary reader against refbin.RefBin."""
import time
from collections import deque

from dom import *
from machine import Unsupp
from canon import Canon
from explore import Explorer, Driver, Violation, Cannot, CUR, rounds, find_obj, lin_eq, _acc, lin_dec, dec_places
from refbin import DEAD, OOS


class Split(Exception):
    """The comparison depends on the high part of symbol s at bit k."""
    def __init__(self, s, k):
        self.s, self.k = s, k


def sdom(x):
    return ((x, x),) if type(x) is int else CUR[0].syms[x.i].dom


def block(x, k):
    """The byte x lies in one block of 2**k: its base, else Split."""
    d = sdom(x)
    a, b = int(d[0][0]), int(d[-1][1])
    if a >> k != b >> k:
        raise Split(x, k)
    return a >> k << k


def low(x, k):
    """linear form of x & (2**k-1)"""
    b = block(x, k)
    return {None: x - b} if type(x) is int else _one(x, -b)


def _one(x, c=0):
    d = sdom(x)
    if is_one(d):
        return {None: int(d[0][0]) + c}
    return {None: c, x.i: 1}


def rng(p):
    lo = hi = p.get(None, 0)
    for s, c in p.items():
        if s is None:
            continue
        d = CUR[0].syms[s].dom
        a, b = int(d[0][0]) * c, int(d[-1][1]) * c
        lo, hi = lo + min(a, b), hi + max(a, b)
    return lo, hi


def scale(p, k):
    out = {}
    _acc(out, p, k)
    return out


def be(seq):
    out = {None: 0}
    for x in seq:
        out = {s: c * 256 for s, c in out.items()}
        _acc(out, _one(x) if type(x) is not int else {None: x}, 1)
    return out


def els(v):
    if isinstance(v, bytes):
        return tuple(v)
    if type(v) is Seq and not v.star:
        return v.e
    if type(v) is tuple and v[:1] == ('obj',) and v[1] in ('bytes', 'bytearray', 'memoryview'):
        return els(v[2]) if not isinstance(v[2], tuple) else v[2]
    raise Cannot(v)


def lin(v):
    """closed integer term over bytes -> linear form"""
    t = type(v)
    if t is int:
        return {None: v}
    if t is Sym:
        i = CUR[0].syms[v.i]
        if i.dom is not None and is_one(i.dom):
            return {None: int(i.dom[0][0])}
        return {None: 0, v.i: 1}
    if t is tuple and v[:1] == ('lin',):
        out = {None: v[1]}
        for x, k in v[2]:
            _acc(out, lin(x), k)
        return out
    if t is tuple and v[:1] == ('term',):
        op = v[1]
        if op == '&':
            for x, m in ((v[2], v[3]), (v[3], v[2])):
                if type(m) is int and m > 0 and m & (m + 1) == 0:
                    k = m.bit_length()
                    p = lin(x)
                    a, b = rng(p)
                    if 0 <= a and b <= m:
                        return p
                    if type(x) in (Sym, int):
                        return low(x, k)
                    p = {s: c & m if s is None else c for s, c in p.items() if c % (m + 1)}
                    a, b = rng(p)
                    if 0 <= a and b <= m:
                        return p
        if op in ('|', '^', '+'):
            p, q = lin(v[2]), lin(v[3])
            for a, b in ((p, q), (q, p)):
                lo, hi = rng(b)
                if lo >= 0:
                    k = hi.bit_length()
                    if op == '+' or all(c % (1 << k) == 0 for c in a.values()):
                        out = dict(a)
                        _acc(out, b, 1)
                        return out
        if op == '<<' and type(v[3]) is int:
            return scale(lin(v[2]), 1 << v[3])
        if op == 'unpack' and v[2] in ('>Q', '>I', '>H', '>B', '>L'):
            e = els(v[3])
            if len(e) == {'Q': 8, 'I': 4, 'L': 4, 'H': 2, 'B': 1}[v[2][1]]:
                return be(e)
        if op == 'from_bytes' or op == 'int.from_bytes':
            if len(v) > 3 and v[3] == 'big':
                return be(els(v[2]))
        if op == 'int' and len(v) == 3:
            return lin(v[2])
    raise Cannot(v)


# ------------------------------------------------------------------ reference encodings
def varuint(p):
    out = {None: 0}
    for x in p:
        out = scale(out, 128)
        _acc(out, low(x, 7), 1)
    return out


def take_var(p, i):
    """index after the variable length integer starting at i, None when it does not end"""
    while i < len(p):
        b = block(p[i], 7)
        i += 1
        if b:
            return i
    return None


def varint(p):
    """-> (sign, magnitude)"""
    b = block(p[0], 6)
    out = _one(p[0], -b) if type(p[0]) is not int else {None: p[0] - b}
    for x in p[1:]:
        out = scale(out, 128)
        _acc(out, low(x, 7), 1)
    return (-1 if b & 64 else 1), out


def smag(p):
    """signed magnitude -> (sign bit, magnitude)"""
    if not p:
        return 0, {None: 0}
    b = block(p[0], 7)
    out = _one(p[0], -b) if type(p[0]) is not int else {None: p[0] - b}
    for x in p[1:]:
        out = scale(out, 256)
        _acc(out, _one(x) if type(x) is not int else {None: x}, 1)
    return (1 if b else 0), out


def certainly(p, lo, hi):
    a, b = rng(p)
    return True if lo <= a and b <= hi else False if b < lo or a > hi else None


def lin_same(a, b):
    """equality of two linear forms for every valuation of the (independent) byte symbols"""
    return lin_eq(a, b)


def decimal_ref(p):
    """-> None when malformed else (sign bit, magnitude, exponent form)"""
    if not p:
        return 0, {None: 0}, {None: 0}
    i = take_var(p, 0)
    if i is None:
        return None
    s, e = varint(p[:i])
    sb, m = smag(p[i:])
    return sb, m, scale(e, s)


def dec_match(a, ref, n):
    """closed decimal against (sign bit, magnitude, exponent)"""
    sb, m, e = ref
    z = certainly(m, 0, 0)
    if type(a).__name__ == 'Decimal':
        t = a.as_tuple()
        c = int(''.join(map(str, t.digits)) or 0)
        return z is not False and c == 0 and t.sign == sb and lin_same(e, {None: t.exponent}) or \
            lin_same(m, {None: c}) and t.sign == sb and lin_same(e, {None: t.exponent})
    if type(a) is tuple and a[:2] == ('term', 'Decimal') and type(a[2]) is tuple and len(a[2]) == 3 and a[2][0] in (0, 1):
        s, digs, x = a[2]
        if digs != (0,):
            raise Cannot(a)
        return z is not False and s == sb and lin_same(lin(x), e)
    ctx = False
    ex = {None: 0}
    while type(a) is tuple and a[:2] == ('term', 'dec.scaleb'):
        x = a[-1]
        if type(x) is not tuple or x[:1] != ('ctx',) or x[1] is None:
            if len(str(rng(m)[1])) > 28:
                return False            # rounds to the ambient precision
        elif type(x[1]) is int:
            if x[1] < 1000 and x[1] < len(str(rng(m)[1])):
                return False
        elif not (type(x[1]) is tuple and x[1][:2] == ('term', 'len')):
            raise Cannot(a)
        _acc(ex, lin(a[3]), 1)
        a = a[2]
    if type(a).__name__ == 'Decimal':
        t = a.as_tuple()
        _acc(ex, {None: t.exponent}, 1)
        a = ('term', 'Decimal', int(''.join(map(str, t.digits)) or 0) * (-1 if t.sign else 1))
    if type(a) is tuple and a[:2] == ('term', 'Decimal') and len(a) == 3:
        if z is True and sb:
            return False            # the sign of a zero is lost
        return lin_same(lin(a[2]), scale(m, -1 if sb else 1)) and lin_same(ex, e)
    raise Cannot(a)


COMP = ('year', 'month', 'day', 'hour', 'minute', 'second')
LIM = ((1, 9999), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59))


def ts_ref(p):
    """-> ('bad',) or (offset form | None, [component forms], fraction or None)"""
    i = take_var(p, 0)
    if i is None:
        return None
    s, o = varint(p[:i])
    unknown = False
    if s < 0:
        z = certainly(o, 0, 0)
        if z is None:
            for x in p[:i]:
                if type(x) is not int and not is_one(sdom(x)):
                    raise Split(x, 0)
        unknown = z
    off = None if unknown else scale(o, s)
    comp, frac = [], None
    while i < len(p) and len(comp) < 6:
        j = take_var(p, i)
        if j is None:
            return None
        comp.append(varuint(p[i:j]))
        i = j
    if not comp or len(comp) == 4:
        return None
    if i < len(p):
        frac = decimal_ref(p[i:])
        if frac is None:
            return None
    return off, comp, frac


def ts_valid(r):
    """May the timestamp be in range: True certainly, False certainly not, None unknown"""
    if r is None:
        return False
    off, comp, frac = r
    res = True
    for c, (a, b) in zip(comp, LIM):
        k = certainly(c, a, b)
        if k is False:
            return False
        if k is None:
            res = None
    if len(comp) > 2 and rng(comp[2])[1] > 28:
        res = None
    if off is not None:
        k = certainly(off, -1439, 1439)
        if k is False:
            return False
        if k is None or certainly(off, 0, 0) is not True and certainly(comp[0], 2, 9998) is not True:
            res = None
    if frac is not None:
        sb, m, e = frac
        if certainly(m, 0, 0) is True:
            return res if not sb else None      # a negative zero fraction
        if sb:
            return False if certainly(m, 0, 0) is False else None
        lo, hi = rng(e)
        if lo >= 0 and certainly(m, 0, 0) is False:
            return False
        if not (hi < 0 and rng(m)[1] < 10 ** -hi):
            res = None
    return res


def ts_same(a, r):
    off, comp, frac = r
    if type(a) is not tuple or a[:2] != ('obj', 'Timestamp'):
        return False
    at = dict(a[2])
    vals = list(comp) + [{None: d} for d in (1, 1, 1, 0, 0, 0)[len(comp):]]
    exp = {None: 0} if off is None else scale(off, 60000000)
    for n, c in zip(COMP, vals):
        v = at[n]
        if type(v) is tuple and v[:2] == ('term', 'dt+'):
            td = find_obj(v[4], 'timedelta')
            if v[2] != n or td is None:
                raise Cannot(v)
            if not lin_same(lin(dict(td[2])['_us']), exp):
                return False
            v = v[3]
        elif not lin_same(exp, {None: 0}):
            return False
        if not lin_same(lin(v), c):
            return False
    pr = at.get('precision')
    if type(pr) is tuple and pr[:1] == ('obj',):
        pr = pr[2]
    if pr != {1: 0, 2: 1, 3: 2, 5: 3, 6: 4}[len(comp)]:
        return False
    tz, td = at['tzinfo'], find_obj(at['tzinfo'], 'timedelta')
    if off is None:
        if tz is not None:
            return False
    else:
        if td is None or not lin_same(lin(dict(td[2])['_us']), exp):
            return False
    fs = at['fractional_seconds']
    if frac is not None:
        sb, m, e = frac
        if certainly(m, 0, 0) is True and certainly(e, 0, 1 << 60) is True:
            frac = None
    if frac is None:
        return type(fs).__name__ == 'Decimal' and fs == 0 and fs.as_tuple().exponent == 0
    if not dec_match(fs, frac, 3):
        return False
    return True


def sid_form(v):
    if v is None or v[0] != 'sid':
        raise Cannot(v)
    return lin(v[1])


def tok_same(a, p):
    if a is None or p is None:
        return a is None and p is None
    if a[0] != 'sid':
        return False
    return lin_same(lin(a[1]), varuint(p))


def val_same(typ, a, b):
    """-> True / False.  b: reference payload"""
    raised = type(a) is tuple and a[:1] == ('raise',)
    if raised and a[1] in ('TypeError', 'AttributeError', 'IndexError', 'KeyError', 'NameError', 'UnboundLocalError',
                           'StopIteration', 'AssertionError', 'RuntimeError', 'ZeroDivisionError'):
        return False            # an accident, not a rejection of the input
    if b is None:
        return a is None
    if typ == 'BOOL':
        return a is b
    if typ == 'INT':
        data, sign = b
        m = be(data)
        if sign < 0:
            z = certainly(m, 0, 0)
            if z is True:
                return raised
            if z is None and raised:
                return True
        return not raised and lin_same(lin(a), scale(m, sign))
    if typ == 'FLOAT':
        if raised:
            return False
        if not b:
            return type(a) is float and a == 0 and str(a) == '0.0'
        if type(a) is tuple and a[:2] == ('term', 'unpack'):
            return a[2] == {4: '>f', 8: '>d'}[len(b)] and same_bytes(els(a[3]), b)
        raise Cannot(a)
    if typ == 'DECIMAL':
        r = decimal_ref(b)
        if r is None:
            return raised
        return not raised and dec_match(a, r, len(b))
    if typ == 'TIMESTAMP':
        r = ts_ref(b)
        if r is None:
            return raised
        ok = ts_valid(r)
        if raised:
            return ok is not True
        return ok is not False and ts_same(a, r)
    if typ == 'SYMBOL':
        if raised or a is None or a[0] != 'sid':
            return False
        return lin_same(lin(a[1]), be(b))
    if typ == 'STRING':
        asc = all(sdom(x)[-1][1] < 128 for x in b)
        if raised:
            return not asc and a[1].startswith('Unicode')
        if isinstance(a, str):
            a = a.encode('utf-8')
            return same_bytes(tuple(a), b)
        if type(a) is tuple and a[:2] == ('term', 'decode'):
            if a[3] not in ('utf-8', 'utf8', 'UTF-8') or len(a) > 4 and a[4] not in (None, 'strict'):
                return False
            return same_bytes(els(a[2]), b)
        if type(a) is Seq and asc:
            return same_bytes(els(a), b)
        raise Cannot(a)
    if typ in ('CLOB', 'BLOB'):
        if raised:
            return False
        return same_bytes(els(a), b)
    raise Cannot(typ)


def same_bytes(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        dx, dy = sdom(x), sdom(y)
        if not (is_one(dx) and dx == dy):
            return False
    return True


def brief(d):
    return '%s %s' % (d[0], d[1] if len(d) > 1 and d[0] != 'IVM' else '')


def out_match(a, b):
    if b[0] == 'IVM':
        return None if a[0] == 'IVM' and not a[4] and a[3] is None and a[2] == 0 and a[1] in ((1, 0), None) or a[0] == 'IVM' \
            and type(a[1]) is not tuple and not a[4] and a[3] is None and a[2] == 0 else ('expected a version marker, got %s' % brief(a), '')
    if a[:2] != b[:2]:
        return 'expected %s, got %s' % (brief(b), brief(a)), ''
    if a[0] == 'END':
        return None if a[2] == b[2] else ('depth of END', 'got %r, expected %r' % (a[2], b[2]))
    i = 3 if a[0] == 'SCALAR' else 2
    if a[i] != b[i]:
        return 'depth of ' + brief(b), 'got %r, expected %r' % (a[i], b[i])
    if not tok_same(a[i + 1], b[i + 1]):
        return 'field name of ' + brief(b), 'got %r, expected %r' % (a[i + 1], b[i + 1])
    if len(a[i + 2]) != len(b[i + 2]) or not all(tok_same(x, y) for x, y in zip(a[i + 2], b[i + 2])):
        return 'annotations of ' + brief(b), 'got %r, expected %r' % (a[i + 2], b[i + 2])
    if a[0] == 'SCALAR' and not val_same(a[1], a[2], b[2]):
        return 'value of ' + brief(b), 'got %r, expected %r' % (a[2], b[2])
    return None


class BinDriver(Driver):
    skip = None

    def data(self, st, kind, payload):
        return Driver.data(self, st, kind, payload)

    def drain(self, st, g, kind, payload, limit=20):
        return Driver.drain(self, st, g, kind, payload, limit)


class BinExplorer(Explorer):
    def __init__(self, world, ref, chunks=(1,), budget=600, maxnodes=100000, skip=None):
        Explorer.__init__(self, world, ref, keep=64, maxlen=64, chunks=chunks, budget=budget, maxnodes=maxnodes)
        self.d = BinDriver(world)
        self.d.skip = skip
        self.undecided = {}
        self.splits = 0
        self.tops = 0

    def canon(self):
        return Canon(self.w, keep=64, maxlen=64, fkeep=64, fmax=64, rkeep=64, rmax=64)

    def fresh(self):
        st = self.w.state()
        outs = self.m.call_all(st, self.w.get('reader_binary', 'raw_reader'), (), {})
        assert len(outs) == 1 and outs[0].kind == 'return', outs
        return outs[0].st, outs[0].v

    def start(self):
        st, g = self.fresh()
        r = self.d.drain(st, g, 'NEXT', None)
        assert len(r) == 1, r
        return r[0][0], g, r[0][2]

    def path(self, idx, last=None):
        out = []
        while idx is not None and idx > 0:
            p, c = self.nodes[idx]
            out.append(c)
            idx = p
        out.reverse()
        if last is not None:
            out.append(last)
        return ' '.join(hexdom(x) for x in out)

    def push(self, st, g, rs, status, npos, parent, dom, work):
        c = self.canon()
        top = self.ref.boundary(rs)
        if top:
            # between top-level values only the absolute position may differ: name it
            c.posval = npos
            if rs == ('TOP',):
                rs = self.ref.top_state()
        try:
            s2, (g2, rs2, _), key = c.run(st, [g, rs, status], keepseq=(1,))
        except Unsupp as e:
            self.unk(str(e), parent, dom)
            return
        if top:
            self.tops += 1
        if key in self.seen:
            return
        idx = len(self.nodes)
        self.seen[key] = idx
        self.nodes.append((parent, dom))
        work.append((idx, s2, g2, rs2, status, npos))

    def run(self):
        t0 = time.time()
        st, g, status = self.start()
        self.nodes.append((None, ()))
        work = deque()
        s2, (g2, rs2, _), key = self.canon().run(st, [g, self.ref.initial, status[0]], keepseq=(1,))
        self.seen[key] = 0
        work.append((0, s2, g2, rs2, status[0], 0))
        while work:
            if len(self.nodes) > self.maxnodes or time.time() - t0 > self.budget:
                break
            self.node(*(work.popleft() + (work,)))
        self.left = len(work)
        self.complete = not work
        self.wall = time.time() - t0
        self.functions = set(self.m.visited)
        return self

    def node(self, idx, st, g, rs, stat, npos, work):
        # the input may end here: the reader must have said whether it is between top-level values
        self.eofs += 1
        b = self.ref.boundary(rs) or rs == self.ref.initial
        if stat == 'end' and not b:
            self.add('accepts-invalid', 'reports the end of the stream inside a value', self.last(st), idx, None)
        elif stat == 'incomplete' and b:
            self.add('protocol', 'no STREAM_END between top-level values', self.last(st), idx, None)
        for n in self.chunks:
            for s0, cc, rs2, routs, doms in self.feeds(st, rs, n):
                for s2, outs, status in self.d.drain(s0, g, 'DATA', Seq('bytes', cc)):
                    self.trans += 1
                    dom = ('seq',) + doms
                    if status[0] == 'unknown':
                        self.unk(status[1], idx, dom)
                        continue
                    if s2.imprecise:
                        self.unk('imprecise: %s' % s2.imprecise, idx, dom)
                        continue
                    for s3 in self.cases(s2, outs, routs, status, rs2, idx, dom):
                        self.push(s3, g, rs2, status[0], npos + n, idx, dom, work)

    def feeds(self, st, rs, n, cc=(), routs=(), doms=()):
        if n == 0:
            yield st, cc, rs, routs, doms
            return
        for dom in self.ref.alphabet(rs):
            s2 = st.clone()
            c = int(dom[0][0]) if is_one(dom) else s2.sym('int', dom)
            self.ref.st = s2
            rs2, outs = self.ref.step(rs, c, dom)
            if rs2 == OOS:
                self.ooscount += 1
                continue
            for x in self.feeds(s2, rs2, n - 1, cc + (c,), routs + tuple(outs), doms + (dom,)):
                yield x

    def cases(self, st, outs, routs, status, rs2, idx, dom):
        """Compare; split the state where the comparison needs it.  Yields the states that go on."""
        work = [st]
        while work:
            s = work.pop()
            CUR[0] = s
            try:
                ok = self.compare(s, outs, routs, status, rs2, idx, dom)
            except Split as e:
                self.splits += 1
                for part in blocks(s.syms[e.s.i].dom, e.k):
                    s2 = s.clone()
                    s2.setdom(e.s, part)
                    if feasible(self.m, s2):
                        work.append(s2)
                continue
            except Cannot as e:
                self.undecided.setdefault(str(e)[:200], self.path(idx, dom))
                ok = status[0] != 'raise'
            if ok:
                yield s

    def compare(self, st, outs, routs, status, rs2, idx, dom):
        where = status[2] if status[0] == 'raise' else self.last(st)
        if status[0] == 'diverge':
            self.add('hang', 'the reader never answers', status[2], idx, dom)
            return False
        if status[0] in ('badyield', 'toomany'):
            self.add('protocol', 'bad yield %r' % (status,), where, idx, dom)
            return False
        if status[0] == 'raise' and not status[3]:
            self.add('exception', '%s raised by the reader' % status[1], where, idx, dom)
            return False
        for a, b in zip(outs, routs):
            d = out_match(a, b)
            if d is not None:
                self.add('event', d[0], where, idx, dom, d[1])
                return False
            self.agree += 1
            self.events[b[:2] if b[0] != 'IVM' else ('IVM', '')] = self.events.get(b[:2] if b[0] != 'IVM' else ('IVM', ''), 0) + 1
        dead = rs2[0] == DEAD
        if len(outs) > len(routs):
            self.add('accepts-invalid' if dead else 'event', 'delivers %s for %s input' % (
                brief(outs[len(routs)]), 'invalid' if dead else 'unfinished'), where, idx, dom)
            return False
        if len(outs) < len(routs) and not (dead and status[0] == 'raise'):
            self.add('event', 'does not deliver %s' % brief(routs[len(outs)]), where, idx, dom, repr(status))
            return False
        if status[0] == 'raise':
            if not dead:
                self.add('rejects-valid', 'rejects valid input', where, idx, dom, repr(rs2))
            return False
        return True


def feasible(m, st):
    """Propagate byte domains to masked terms and drop states that contradict a recorded comparison."""
    for i, inf in list(st.syms.items()):
        t = inf.term
        if t is not None and t[0] == '&' and len(t) == 3 and type(t[1]) is Sym and type(t[2]) is int:
            d = st.syms[t[1].i].dom
            if d and d[0][0] >= 0 and d[-1][1] <= 255:
                nd = is_and(inf.dom, is_from(v & t[2] for a, b in d for v in range(int(a), int(b) + 1)))
                if not nd:
                    return False
                if nd != inf.dom:
                    st.setdom(Sym(i), nd)
    for k, v in st.facts.items():
        if k[0] == 's':
            lo, hi = m.lin_range(st, Lin(k[1], k[2]))
            if not (v & ({-1} if lo < 0 else set()) or 0 in v and lo <= 0 <= hi or 1 in v and hi > 0):
                return False
    return True


def blocks(dom, k):
    out = {}
    for a, b in dom:
        a, b = int(a), int(b)
        while a <= b:
            e = min(b, (a >> k << k) + (1 << k) - 1)
            out.setdefault(a >> k, []).append((a, e))
            a = e + 1
    return [tuple(x) for _, x in sorted(out.items())]


def hexdom(d):
    if isinstance(d, str):
        return d
    if d and d[0] == 'seq':
        return ' '.join(hexdom(x) for x in d[1:])
    a, b = int(d[0][0]), int(d[-1][1])
    return '%02X' % a if a == b else '[%02X-%02X]' % (a, b)
