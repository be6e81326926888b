"""Binary writer: event scripts, each path; the octets handed out are decoded by this independent decoder and compared."""
import datetime
import struct
import time
from decimal import Decimal

from dom import *
from machine import Unsupp
import bitops
from wrexp import WDriver, Undecided, Ev, Abs, CT, fbits, show

TYPES = {0: 'NULL', 1: 'BOOL', 2: 'INT', 3: 'INT', 4: 'FLOAT', 5: 'DECIMAL', 6: 'TIMESTAMP', 7: 'SYMBOL', 8: 'STRING', 9: 'CLOB', 10: 'BLOB',
         11: 'LIST', 12: 'SEXP', 13: 'STRUCT'}
KNOWN = ('bits', 'lin', 'len', 'pack', 'utf8', 'rounded', 'truncated', 'anyfloat')


class Bad(Exception):
    """The octets are not legal or do not say what was written."""


class Fork(Exception):
    def __init__(self, l, bound):
        self.l, self.bound = l, bound


class Reader(object):
    def __init__(self, m, st, sids=None):
        self.m, self.st = m, st

    def lin(self, v):
        return bitops.coalesce(self.m, self.st, v)

    def const(self, v, what):
        l = self.lin(v)
        if l.t:
            lo, hi = self.m.lin_range(self.st, l)
            if lo == hi:
                return int(lo)
            self.clean(l)
            mid = (int(lo) + int(hi)) // 2 if hi != INF else None
            if mid is None or hi - lo > 4096:
                raise Undecided('%s is not determined' % what)
            raise Fork(l, mid)
        return l.c

    def clean(self, *ls):
        """Raise Undecided if something here was computed in a way the machine does not follow."""
        for l in ls:
            for s, _ in l.t:
                t = self.st.syms[s].term
                if t is None or t[0] in KNOWN and t[0] not in ('bits', 'lin'):
                    continue
                if t[0] in ('bits', 'lin'):
                    self.clean(self.m.lin(self.st, t[1]))
                    continue
                raise Undecided('computed by %s' % (t[0],))

    def below(self, v, k):
        """v < k, forking"""
        lo, hi = self.m.lin_range(self.st, self.lin(v))
        if hi < k:
            return True
        if lo >= k:
            return False
        raise Fork(self.lin(v), k - 1)

    def bits(self, v, a, w):
        r = bitops.bits(self.m, self.st, self.m.lin(self.st, v), a, w)
        if r is None:
            self.clean(self.lin(v))
            raise Undecided('bits of %r' % (v,))
        return r

    def octet(self, els, i, what):
        if i >= len(els):
            raise Bad('the octets end inside %s' % what)
        e = self.m.norm(self.st, els[i])
        if type(e) is Sym and self.st.syms[e.i].kind != 'int':
            raise Bad('payload octets where %s was expected' % what)
        return e

    def varuint(self, els, i, what):
        v = Lin(0, ())
        while True:
            e = self.octet(els, i, what)
            i += 1
            last = not self.below(e, 0x80)
            x = self.m.lin(self.st, self.bits(e, 0, 7))
            v = self.m.add(Lin(v.c << 7, tuple((s, k << 7) for s, k in v.t)), x)
            if last:
                return self.lin(v), i

    def varint(self, els, i, what):
        """-> sign bit, magnitude, position"""
        e = self.octet(els, i, what)
        last = not self.below(e, 0x80)
        sign = self.const(self.bits(e, 6, 1), 'sign of ' + what)
        v = self.m.lin(self.st, self.bits(e, 0, 6))
        i += 1
        while not last:
            e = self.octet(els, i, what)
            i += 1
            last = not self.below(e, 0x80)
            x = self.m.lin(self.st, self.bits(e, 0, 7))
            v = self.m.add(Lin(v.c << 7, tuple((s, k << 7) for s, k in v.t)), x)
        return sign, self.lin(v), i

    def uint(self, els):
        v = Lin(0, ())
        for j in range(len(els)):
            x = self.m.lin(self.st, self.octet(els, j, 'an integer'))
            v = self.m.add(Lin(v.c << 8, tuple((s, k << 8) for s, k in v.t)), x)
        return self.lin(v)

    def sint(self, els):
        """-> sign bit, magnitude"""
        if not els:
            return 0, Lin(0, ())
        e = self.octet(els, 0, 'an integer')
        sign = self.const(self.bits(e, 7, 1), 'sign')
        v = self.m.lin(self.st, self.bits(e, 0, 7))
        for j in range(1, len(els)):
            x = self.m.lin(self.st, self.octet(els, j, 'an integer'))
            v = self.m.add(Lin(v.c << 8, tuple((s, k << 8) for s, k in v.t)), x)
        return sign, self.lin(v)

    def size(self, e):
        e = self.m.norm(self.st, e)
        if type(e) is Sym and self.st.syms[e.i].kind != 'int':
            import natives
            return self.m.lin(self.st, natives.length(self.m, self.st, e))
        return Lin(1, ())

    def take(self, els, i, n, what):
        """The elements from i that make up n octets."""
        acc = Lin(0, ())
        j = i
        while not bitops.same(self.m, self.st, acc, n):
            lo, hi = self.m.lin_range(self.st, self.lin(self.m.add(acc, n, -1)))
            if j >= len(els) or lo > 0:
                self.clean(n)
                raise Bad('the length of %s is wrong (%s)' % (what, 'too long' if j >= len(els) else 'too short'))
            acc = self.m.add(acc, self.size(els[j]))
            j += 1
        return els[i:j], j

    # ------------------------------------------------------------------------------------------ values
    def stream(self, els):
        out = []
        i = 0
        z = Lin(0, ())
        els = [e for e in (self.m.norm(self.st, x) for x in els)
               if type(e) is int or self.st.syms[e.i].kind == 'int' or not bitops.same(self.m, self.st, self.size(e), z)]
        while i < len(els):
            e = self.octet(els, i, 'a type descriptor')
            if type(e) is int and e == 0xE0:
                ver = [self.octet(els, i + k, 'a version marker') for k in (1, 2, 3)]
                if ver != [1, 0, 0xEA]:
                    raise Bad('a broken version marker')
                out.append(('IVM',))
                i += 4
                continue
            i = self.value(els, i, 0, None, (), out)
        return out

    def header(self, els, i):
        e = self.octet(els, i, 'a type descriptor')
        t = self.const(self.bits(e, 4, 4), 'the type')
        n = self.m.lin(self.st, self.bits(e, 0, 4))
        return t, n, i + 1

    def value(self, els, i, depth, field, anns, out):
        t, n, i = self.header(els, i)
        if t == 15:
            raise Bad('type descriptor 15')
        if not self.below(n, 15):
            if t == 14:
                raise Bad('annotation wrapper of length 15')
            out.append(('SCALAR', TYPES[t], None, depth, field, anns))
            return i
        if t == 1:
            k = self.const(n, 'a bool')
            if k > 1:
                raise Bad('bool of length %d' % k)
            out.append(('SCALAR', 'BOOL', ('bool', bool(k)), depth, field, anns))
            return i
        if t == 0:
            raise Bad('padding')
        if t == 13 and not self.below(n, 1) and self.below(n, 2):
            n, i = self.varuint(els, i, 'a length')
            if self.m.lin_range(self.st, n)[0] < 1:
                raise Bad('empty sorted struct')
        elif not self.below(n, 14):
            n, i = self.varuint(els, i, 'a length')
        body, i = self.take(els, i, n, 'a ' + ('wrapper' if t == 14 else TYPES[t]))
        if t == 14:
            if anns:
                raise Bad('nested annotation wrappers')
            al, j = self.varuint(body, 0, 'an annotation length')
            names, j = self.take(body, j, al, 'the annotations')
            a, k = [], 0
            while k < len(names):
                s, k = self.varuint(names, k, 'an annotation')
                a.append(('sid', s))
            if not a:
                raise Bad('a wrapper without annotations')
            if j >= len(body):
                raise Bad('a wrapper without a value')
            j = self.value(body, j, depth, field, tuple(a), out)
            if j != len(body):
                raise Bad('a wrapper with more than one value')
            return i
        if t >= 11:
            out.append(('START', TYPES[t], depth, field, anns))
            j = 0
            while j < len(body):
                f = None
                if t == 13:
                    s, j = self.varuint(body, j, 'a field name')
                    f = ('sid', s)
                    if j >= len(body):
                        raise Bad('a field without a value')
                j = self.value(body, j, depth + 1, f, (), out)
            out.append(('END', TYPES[t], depth))
            return i
        out.append(('SCALAR', TYPES[t], self.scalar(t, body), depth, field, anns))
        return i

    def scalar(self, t, b):
        if t in (2, 3):
            v = self.uint(b)
            if t == 3:
                if self.m.lin_range(self.st, v)[0] == 0:
                    self.clean(v)
                    raise Bad('negative zero integer')
                v = self.m.neg(v)
            return ('int', v)
        if t == 4:
            if len(b) not in (0, 4, 8):
                raise Bad('float of %d octets' % len(b))
            return ('flt', tuple(self.m.norm(self.st, x) for x in b))
        if t == 5:
            return ('dec',) + self.decimal(b)
        if t == 6:
            s, m, i = self.varint(b, 0, 'an offset')
            off = self.const(m, 'an offset')
            off = None if s and not off else -off if s else off
            fs = []
            while i < len(b) and len(fs) < 6:
                f, i = self.varuint(b, i, 'a timestamp field')
                fs.append(f)
            if len(fs) in (0, 4):
                raise Bad('timestamp of %d fields' % len(fs))
            fr = self.decimal(b[i:]) if i < len(b) else None
            return ('ts', fs, fr, off)
        if t == 7:
            return ('sid', self.uint(b))
        if t == 8:
            return ('str', self.utf8(b))
        return ('clob' if t == 9 else 'blob', b)

    def decimal(self, b):
        """-> sign bit, magnitude, exponent (Lin)"""
        if not b:
            return 0, Lin(0, ()), Lin(0, ())
        s, e, i = self.varint(b, 0, 'an exponent')
        if s:
            e = self.m.neg(e)
        cs, c = self.sint(b[i:])
        return cs, c, e

    def utf8(self, b):
        out, run, j = [], bytearray(), 0

        def flush():
            try:
                out.extend(ord(c) for c in bytes(run).decode('utf-8'))
            except UnicodeDecodeError:
                raise Bad('text that is not UTF-8')
            del run[:]
        while j < len(b):
            e = self.m.norm(self.st, b[j])
            if type(e) is int:
                run.append(e)
                j += 1
                continue
            flush()
            i = self.st.syms[e.i]
            if i.kind != 'int':
                out.append(e)
                j += 1
                continue
            t = i.term
            if t is None and i.dom and i.dom[-1][1] < 0x80:
                out.append(e)
                j += 1
            elif t is not None and t[0] == 'utf8':
                n, cp = t[1], t[3]
                for k in range(n):
                    x = self.m.norm(self.st, b[j + k]) if j + k < len(b) else None
                    if type(x) is not Sym or self.st.syms[x.i].term != ('utf8', n, k, cp):
                        raise Bad('text that is not UTF-8')
                out.append(cp)
                j += n
            else:
                raise Undecided('text octet')
        flush()
        return out


# ---------------------------------------------------------------------------------------------- agreement
def eq(r, a, b):
    a, b = r.m.lin(r.st, a), r.m.lin(r.st, b)
    if bitops.same(r.m, r.st, a, b):
        return True
    r.clean(r.lin(a), r.lin(b))
    return False


def sum_(r, *ts):
    out = Lin(0, ())
    for v, k in ts:
        l = r.m.lin(r.st, v)
        out = r.m.add(out, Lin(l.c * k, tuple((s, y * k) for s, y in l.t)))
    return out


def tok_same(r, e, g):
    if e is None or g is None:
        return e is None and g is None
    if e[0] not in ('sid', 'txt', 'sym'):
        return False
    return e[0] == g[0] and (eq(r, e[1], g[1]) if e[0] == 'sid' else e[1] == g[1])


def val_same(r, e, g):
    if e is None or g is None:
        return e is None and g is None
    k, st = e[0], r.st
    if g[0] != ('sid' if k == 'sym' and g[0] == 'sid' else k):
        return False
    if k == 'bool':
        return e[1] == g[1]
    if k in ('int', 'sid'):
        return eq(r, e[1], g[1])
    if k == 'flt':
        b = g[1]
        if type(e[1]) is Sym:
            if len(b) != 8:
                return False
            return all(type(x) is Sym and st.syms[x.i].term == ('pack', i, '>d', e[1]) for i, x in enumerate(b))
        if not all(type(x) is int for x in b):
            raise Undecided('float octets')
        b = bytes(bytearray(b))
        v = struct.unpack('>f' if len(b) == 4 else '>d', b)[0] if b else 0.0
        return fbits(v) == fbits(e[1]) or v != v and e[1] != e[1]
    if k == 'dec':
        if type(e[1]) is tuple:
            sign, c, nd, exp = e[1]
        else:
            t = e[1].as_tuple()
            sign, c, exp = t.sign, int(''.join(map(str, t.digits))), t.exponent
        return sign == g[1] and eq(r, c, g[2]) and eq(r, exp, g[3])
    if k == 'str':
        want = [ord(c) for c in e[1]] if isinstance(e[1], str) else list(e[1])
        return seq_same(r, want, g[1])
    if k in ('clob', 'blob'):
        return seq_same(r, list(bytearray(e[1])) if isinstance(e[1], bytes) else list(e[1]), g[1])
    if k == 'ts':
        fs, fr, off = e[1], e[2], e[3]
        gf, gr, goff = g[1], g[2], g[3]
        n = len(fs)
        if len(gf) != n:
            return False
        if n >= 5 and off != goff or n < 5 and goff not in (None, 0):
            return False
        if n >= 5 and off:
            if all(not x.t for x in gf):
                v = [x.c for x in gf] + [0] * (6 - n)
                try:
                    l = datetime.datetime(*v) + datetime.timedelta(minutes=off)
                except (ValueError, OverflowError):
                    return False
                if (l.year, l.month, l.day, l.hour, l.minute, l.second)[:n] != tuple(fs):
                    return False
            else:
                if n < 5:
                    return False
                for f, (a, b) in zip(gf, ((1, 9999), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59))):
                    lo, hi = r.m.lin_range(r.st, r.lin(f))
                    if lo < a or hi > b:
                        r.clean(r.lin(f))
                        return False
                tot = lambda x, o: sum_(r, (x[2], 1440), (x[3], 60), (x[4], 1), (o, 1))
                if not (eq(r, fs[0], gf[0]) and eq(r, fs[1], gf[1]) and all(eq(r, a, b) for a, b in zip(fs[5:], gf[5:])) and
                        eq(r, r.m.unlin(tot(fs, 0)), r.m.unlin(tot(gf, off)))):
                    return False
        elif not all(eq(r, a, b) for a, b in zip(fs, gf)):
            return False
        if type(fr) is Sym:
            return gr is not None and gr[0] == 0 and eq(r, fr, gr[1]) and eq(r, -6, gr[2])
        if gr is None:
            return fr is None
        if gr[0]:
            return False
        if type(fr) is tuple:
            return eq(r, fr[0], gr[1]) and eq(r, fr[1], gr[2])
        c, x = r.const(gr[1], 'a fraction'), r.const(gr[2], 'a fraction')
        if c == 0 and x >= 0:
            return fr is None
        return fr is not None and x == -len(fr) and c == int(fr)
    raise Undecided('value form %r' % (k,))


def seq_same(r, want, got):
    if len(want) != len(got):
        return False
    for a, b in zip(want, got):
        a, b = r.m.norm(r.st, a), r.m.norm(r.st, b)
        if a != b and not (type(b) is Sym and r.st.syms[b.i].kind == 'int' and type(a) is not Sym and eq(r, a, b)):
            if type(b) is Sym and r.st.syms[b.i].kind == 'int':
                r.clean(r.lin(b))
            return False
    return True


def ev_same(r, e, g):
    if e[0] != g[0]:
        return 'reads as %s, not %s' % (g[0], e[0])
    if e[0] == 'IVM':
        return None
    if e[0] == 'END':
        return None if e[1:] == g[1:] else 'reads as the end of %s at depth %s' % g[1:]
    if e[0] == 'START':
        _, typ, depth, field, anns = e
        _, gt, gd, gf, ga = g
    else:
        _, typ, val, depth, field, anns = e
        _, gt, gv, gd, gf, ga = g
    if typ != gt:
        return '%s reads as %s' % (typ, gt)
    if depth != gd:
        return 'depth %s reads as depth %s' % (depth, gd)
    if not tok_same(r, field, gf):
        return 'field name %s reads as %s' % (show(field), show(gf))
    if len(anns) != len(ga) or not all(tok_same(r, a, b) for a, b in zip(anns, ga)):
        return 'annotations %s read as %s' % (show(anns), show(ga))
    if e[0] == 'SCALAR' and not val_same(r, val, gv):
        return '%s value %s reads as %s' % (typ, show(val), show(gv))
    return None


def decode(m, st, els, compare):
    """-> list of (state, violation text or None); forks where the octets' meaning depends on the values"""
    work, done = [(st, 0)], []
    while work:
        st, n = work.pop()
        r = Reader(m, st)
        try:
            done.append((st, compare(r, r.stream(els))))
        except Bad as x:
            done.append((st, 'not legal Ion: %s' % x))
        except Fork as f:
            if n > 40:
                raise Undecided('too many cases')
            for want in ((-INF, f.bound), (f.bound + 1, INF)):
                s2 = st.clone()
                l = m.norm(s2, m.unlin(f.l))
                l = l if type(l) is Lin else m.lin(s2, l)
                if len(l.t) != 1:
                    raise Undecided('fork on a sum')
                s, k = l.t[0]
                if k != 1:
                    raise Undecided('fork on a multiple')
                d = is_and(s2.syms[s].dom, ((want[0] - l.c, want[1] - l.c),))
                if not d:
                    continue
                s2.setdom(Sym(s), d)
                bitops.backprop(m, s2, s)
                work.append((s2, n + 1))
    return done


# ---------------------------------------------------------------------------------------------- scripts
class BinScript(object):
    """Event scripts for the raw binary writer, every path of each."""

    def __init__(self, world, budget=300, probe=False, start=None, mod='writer_binary_raw', name='_raw_binary_writer', limit=3000):
        self.w, self.m = world, world.m
        self.d = WDriver(world)
        self.budget, self.probe, self.limit = budget, probe, limit
        self.makename = (mod, name)
        self.viol, self.unknown, self.nodes = {}, {}, []
        self.agree = self.trans = self.completes = 0

    def start(self):
        st = self.w.state()
        st, buf = self.d.call1(st, self.w.get('writer_buffer', 'BufferTree'))
        return self.d.call1(st, self.w.get(*self.makename), (buf,))

    def add(self, rule, msg, where, evs, extra=''):
        k = (rule, msg, where)
        if k in self.viol:
            self.viol[k][2] += 1
        else:
            self.viol[k] = ['; '.join(e.name for e in evs), extra, 1]

    def unk(self, why, evs):
        self.unknown.setdefault(str(why)[:150], '; '.join(e.name for e in evs))

    def expected(self, ev, stack):
        if ev.et == 'SCALAR':
            return ('SCALAR', ev.it, ev.exp, len(stack), ev.field, ev.anns)
        if ev.et == 'CONTAINER_START':
            return ('START', ev.it, len(stack), ev.field, ev.anns)
        if ev.et == 'CONTAINER_END':
            return ('END', CT[stack[-1]], len(stack) - 1)
        return None

    def run(self, scripts):
        t0 = time.time()
        self.complete = True
        for evs in scripts:
            if time.time() - t0 > self.budget:
                self.complete = False
                break
            try:
                self.script(evs)
            except Unsupp as x:
                self.unk(x, evs)
        self.wall = time.time() - t0
        self.functions = set(self.m.visited)
        return self

    def script(self, evs):
        st, g = self.start()
        if not evs or evs[-1].et != 'STREAM_END':
            evs = list(evs) + [Ev('STREAM_END', 'STREAM_END')]
        work = [(st, 0, '', (), ())]
        n = 0
        while work:
            st, i, stack, pend, els = work.pop()
            n += 1
            if n > self.limit:
                return self.unk('more than %d paths' % self.limit, evs)
            self.nodes.append(None)
            if i == len(evs):
                self.compare(st, els, pend, evs)
                continue
            ev = evs[i]
            s0, e, ev = self.d.realize(st.clone(), ev)
            illegal = ev.et == 'CONTAINER_END' and not stack or ev.et in ('STREAM_END', 'VERSION_MARKER') and stack
            for s2, chunks, status in self.d.feed(s0, g, e, self.probe and not illegal):
                self.trans += 1
                if status[0] in ('unknown', 'undecided'):
                    self.unk(status, evs[:i + 1])
                elif status[0] == 'diverge':
                    self.add('hang', 'the writer never answers', str(status[2]), evs[:i + 1])
                elif status[0] in ('badyield', 'toomany'):
                    self.add('protocol', status[0], 'writer', evs[:i + 1])
                elif illegal:
                    if status[0] != 'raise' or 'TypeError' not in status[3]:
                        self.add('accepts-invalid', '%s at depth %d must raise TypeError' % (ev.et, len(stack)), 'writer', evs[:i + 1], str(status[:2]))
                    else:
                        self.agree += 1
                elif status[0] == 'raise':
                    self.add('exception', '%s raised for a legal event' % status[1], status[2], evs[:i + 1])
                else:
                    want = 'COMPLETE' if ev.et == 'STREAM_END' else 'NEEDS_INPUT'
                    if status[0] != want:
                        self.add('protocol', 'answers %s, not %s' % (status[0], want), ev.et, evs[:i + 1])
                        continue
                    exp = self.expected(ev, stack)
                    st2 = stack + {'LIST': 'L', 'SEXP': 'S', 'STRUCT': 'T'}[ev.it] if ev.et == 'CONTAINER_START' else \
                        stack[:-1] if ev.et == 'CONTAINER_END' else stack
                    work.append((s2, i + 1, st2, pend + ((exp,) if exp else ()), els + tuple(x for c in chunks for x in c)))
                    self.completes += ev.et == 'STREAM_END'

    def compare(self, st, els, pend, evs):
        def cmp(r, got):
            for k, e in enumerate(pend):
                if k >= len(got):
                    return '%s %s is missing' % (e[0], e[1])
                d = ev_same(r, e, got[k])
                if d:
                    return d
                self.agree += 1
            return 'the octets hold more than was written' if len(got) > len(pend) else None
        for e in els:
            if type(e) is int and not 0 <= e <= 255:
                return self.add('output', 'octet out of range', 'writer', evs)
        try:
            for s2, v in decode(self.m, st, els, cmp):
                if v:
                    self.add('output', v, self.blame(evs), evs, hexes(els))
        except Undecided as x:
            self.unk(x, evs)

    def blame(self, evs):
        return ','.join(sorted(set(e.it for e in evs if e.et == 'SCALAR' and e.it))[:2]) or 'containers'


def hexes(els):
    return ' '.join('%02x' % x if type(x) is int else '??' for x in els[:60])
