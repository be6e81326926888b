"""simpleion's load/loads and dump/dumps: documents to Python values and back, each against the neutral events they stand for."""
import time

from dom import Sym, Lin
from machine import O, Ref, Unsupp
from wrexp import WDriver, Undecided, Abs, AbsText, TextFeeder, ev_same, fbits
from symwr import WriteScript
import docs

CLASS = dict(BOOL='IonPyInt', INT='IonPyInt', FLOAT='IonPyFloat', DECIMAL='IonPyDecimal', TIMESTAMP='IonPyTimestamp', SYMBOL='IonPySymbol', STRING='IonPyText',
             CLOB='IonPyBytes', BLOB='IonPyBytes', LIST='IonPyList', SEXP='IonPyList', STRUCT='IonPyDict')


class Wrong(Exception):
    pass


class Text(object):
    """n abstract characters"""
    def __init__(self, n, dom=((32, 33), (35, 38), (40, 91), (93, 126))):
        self.n, self.dom = n, dom

    def make(self, st):
        return tuple(st.sym('int', self.dom) for _ in range(self.n))


class Digits(object):
    def __init__(self, n):
        self.n = n


def instantiate(m, st, events):
    """The events with their abstract parts made"""
    def part(v):
        if type(v) is tuple and len(v) > 1 and isinstance(v[1], Text):
            return (v[0], v[1].make(st)) + v[2:]
        if isinstance(v, Digits):
            ds = (st.sym('int', ((49, 57),)),) + tuple(st.sym('int', ((48, 57),)) for _ in range(v.n - 1))
            val = Lin(0, ())
            for k, s in enumerate(ds):
                val = m.add(Lin(val.c * 10, tuple((a, b * 10) for a, b in val.t)), m.add(m.lin(st, s), Lin(-48, ())))
            bs = (st.sym('int', ((1, 255),)),) + tuple(st.sym('int', ((0, 255),)) for _ in range(v.n - 1))
            bval = Lin(0, ())
            for s in bs:
                bval = m.add(Lin(bval.c * 256, tuple((a, b * 256) for a, b in bval.t)), m.lin(st, s))
            return ('num', ds, bs, (val, bval))
        return v
    out = []
    for e in events:
        if e[0] == 'END':
            out.append(e)
            continue
        out.append(e[:2] + tuple(part(x) for x in e[2:-1]) + (tuple(part(a) for a in e[-1]),))
    return out


class SimpleDriver(WDriver):
    def isa(self, st, v, name):
        if type(v) is not Ref or type(st.o(v)) is not O:
            return False
        return self.w.get('simple_types', name) in st.o(st.o(v).cls).mro

    def callattr(self, st, v, name, *args):
        st, f = self.attr1(st, v, name)
        return self.call1(st, f, args)

    def kind(self, fmt):
        return fmt

    # ------------------------------------------------------------------------------------------ a loaded value
    def compare(self, st, obj, evs, i, fmt):
        """The object stands for the value that starts at evs[i] -> (st, position after it); raises Wrong"""
        e = evs[i]
        typ, anns = e[1], e[-1]
        null = e[0] == 'SCALAR' and (e[2] is None or typ == 'NULL')
        cls = 'IonPyNull' if null else CLASS[typ]
        if not self.isa(st, obj, cls):
            raise Wrong('%s %s is not loaded as %s' % ('null' if null else 'a', typ, cls))
        st, it = self.attr1(st, obj, 'ion_type')
        if it != self.itv[typ]:
            raise Wrong('the ion_type of a %s is another' % typ)
        st, al = self.attr1(st, obj, 'ion_annotations')
        al = list(self.m.concrete_iter(st, self.m.raw(st, al)))
        if len(al) != len(anns):
            raise Wrong('%d annotations of a %s, not %d' % (len(al), typ, len(anns)))
        for a, b in zip(al, anns):
            st = self.symbol(st, a, b, 'annotation')
        if null:
            return st, i + 1
        if e[0] == 'SCALAR':
            return self.scalar(st, obj, typ, e[2], fmt), i + 1
        i += 1
        depth = e[2]
        kids = []
        if typ != 'STRUCT':
            got = list(st.o(obj).p)
            for x in got:
                if evs[i][0] == 'END' and evs[i][2] == depth:
                    raise Wrong('a %s has more elements' % typ)
                st, i = self.compare(st, x, evs, i, fmt)
            if not (evs[i][0] == 'END' and evs[i][2] == depth):
                raise Wrong('a %s has fewer elements' % typ)
            return st, i + 1
        # fields: the values of each name in order, the names in the order of their first use
        while not (evs[i][0] == 'END' and evs[i][2] == depth):
            f, j = evs[i][-2], i
            i = self.skip(evs, i)
            name = None if f == ('sid', 0) else f[1] if isinstance(f[1], str) else tuple(self.m.norm(st, x) for x in f[1])
            if type(name) is tuple and all(type(x) is int for x in name):
                name = ''.join(map(chr, name))
            for k in kids:
                if k[0] == name:
                    k[1].append(j)
                    break
            else:
                kids.append((name, [j]))
        st, items = self.callattr(st, obj, 'items')
        items = [list(self.m.concrete_iter(st, x)) for x in self.m.concrete_iter(st, self.m.raw(st, items))]
        want = [(n, j) for n, js in kids for j in js]
        if len(items) != len(want):
            raise Wrong('a STRUCT has %d fields, not %d' % (len(items), len(want)))
        for (k, v), (n, j) in zip(items, want):
            k = self.m.norm(st, self.m.raw(st, k)) if k is not None else None
            if not self.same_text(st, k, n):
                raise Wrong('a field name is another')
            st, _ = self.compare(st, v, evs, j, fmt)
        for n, js in kids:
            key = n if n is None or isinstance(n, str) else self.m.mkseq(st, 'str', list(n), False)
            st, v = self.callattr(st, obj, '__getitem__', key)
            st, _ = self.compare(st, v, evs, js[-1], fmt)
        return st, i + 1

    def skip(self, evs, i):
        if evs[i][0] != 'START':
            return i + 1
        d = evs[i][2]
        while not (evs[i][0] == 'END' and evs[i][2] == d):
            i += 1
        return i + 1

    def same_text(self, st, got, want):
        if got is None or want is None:
            return got is None and want is None
        if self.m.kindof(st, got) != 'str':
            return False
        els, star = self.m.elems(st, got)
        return not star and [self.m.norm(st, x) for x in els] == [self.m.norm(st, x) for x in docs.els(want)]

    def symbol(self, st, v, want, what):
        st, text = self.attr1(st, v, 'text')
        if want[0] == 'sid':
            st, sid = self.attr1(st, v, 'sid')
            if text is not None or self.m.norm(st, sid) != want[1]:
                raise Wrong('a %s is another' % what)
        elif not self.same_text(st, text, want[1]):
            raise Wrong('a %s is another' % what)
        return st

    def scalar(self, st, obj, typ, v, fmt):
        m, k = self.m, v[0]
        ok = False
        if k == 'sym' or k == 'sid':
            return self.symbol(st, obj, v, 'symbol')
        x = m.norm(st, m.raw(st, obj)) if k != 'ts' else None
        if k in ('bool', 'int', 'num'):
            want = (v[3][fmt == 'bin'] if k == 'num' else Lin(int(v[1]), ()))
            l = m.lin(st, x)
            ok = l is not None and self.zero(st, m.add(l, want, -1))
            if not ok and k == 'num' and type(x) is Sym:
                t = st.syms[x.i].term
                ok = t is not None and t[0] == 'int' and len(t) == 3 and t[2] in (None, 10) and \
                    [m.norm(st, b) for b in m.elems(st, t[1])[0]] == [m.norm(st, b) for b in v[1]]
        elif k == 'flt':
            ok = type(x) is float and fbits(x) == fbits(v[1]) or x != x and v[1] != v[1]
        elif k == 'dec':
            from decimal import Decimal
            ok = isinstance(x, Decimal) and x.as_tuple() == v[1].as_tuple()
        elif k == 'str':
            ok = self.same_text(st, x, v[1])
        elif k in ('clob', 'blob'):
            ok = [m.norm(st, b) for b in self.bytes_of(st, obj)] == [m.norm(st, b) for b in docs.els(v[1])]
        elif k == 'ts':
            st, ok = self.timestamp(st, obj, v)
        if not ok:
            raise Wrong('the value of a %s is another' % typ)
        return st

    def zero(self, st, l):
        l = self.m.norm(st, l)
        return l == 0 if type(l) is not Lin else l.c == 0 and not l.t

    def timestamp(self, st, obj, v):
        m = self.m
        fields = list(v[1]) + [1] * (3 - len(v[1]))
        fields += [0] * (6 - len(fields))
        for n, want in zip(('year', 'month', 'day', 'hour', 'minute', 'second'), fields):
            st, x = self.attr1(st, obj, n)
            if m.norm(st, x) != want:
                return st, False
        st, p = self.attr1(st, obj, 'precision')
        if p != st.o(self.w.get('core', 'TimestampPrecision')).d[['YEAR', 'MONTH', 'DAY', None, 'MINUTE', 'SECOND'][len(v[1]) - 1]]:
            return st, False
        st, f = self.attr1(st, obj, 'fractional_seconds')
        f = m.raw(st, f) if f is not None else None
        if (f.as_tuple() if f else (0, (0,), 0) if f is not None and f.as_tuple().exponent == 0 else f.as_tuple() if f is not None else None) != \
                (v[2].as_tuple() if v[2] is not None else None) and not (v[2] is None and (f is None or f.as_tuple() == (0, (0,), 0))):
            return st, False
        st, us = self.attr1(st, obj, 'microsecond')
        if us != (int(v[2] * 1000000) if v[2] is not None else 0):
            return st, False
        st, off = self.callattr(st, obj, 'utcoffset')
        if off is None or v[3] is None:
            return st, off is None and v[3] is None
        st, s = self.callattr(st, off, 'total_seconds')
        return st, s == v[3] * 60


class DumpDriver(SimpleDriver):
    """Builds the Python values"""

    def token(self, st, t):
        return self.call1(st, self.tokc, (t[1], None) if t[0] in ('sym', 'txt') else (None, t[1]))

    def lst(self, st, xs):
        return self.call1(st, self.m.types['list'], (tuple(xs),))

    memo = None

    def key(self, st, k):
        from machine import Seq
        if isinstance(k, Text):
            if k not in self.memo:
                self.memo[k] = k.make(st)
            return self.m.seqnorm(st, Seq('str', self.memo[k]))
        return k

    def build(self, st, o):
        """o: ('ion', type, value, annotations) | ('plain', value): value: Python scalar, Call, ('tok', token), list / tuple / dict / ('multi', pairs) of o"""
        if o[0] == 'plain':
            return self.value(st, o[1])
        if o[0] == 'pairs':
            ps = []
            for k, y in o[1]:
                st, y = self.build(st, y)
                ps.append((self.key(st, k), y))
            st, l = self.lst(st, ps)
            return self.call1(st, self.m.types['dict'], (l,))
        _, typ, v, anns = o
        al = []
        for a in anns:
            st, x = (st, a[1]) if a[0] == 'txt' else self.token(st, a)
            al.append(x)
        if v is None:
            st, f = self.attr1(st, self.w.get('simple_types', 'IonPyNull'), 'from_value')
            return self.call1(st, f, (self.itv[typ], None, tuple(al)))
        st, x = self.value(st, v)
        cls = self.w.get('simple_types', CLASS[typ])
        st, f = self.attr1(st, cls, 'from_value')
        if type(v) is tuple and v[:1] == ('multi',):
            st, e = self.call1(st, self.m.types['dict'])
            st, r = self.call1(st, f, (self.itv[typ], e, tuple(al)))
            for k, y in v[1]:
                st, y = self.build(st, y)
                st, _ = self.callattr(st, r, 'add_item', self.key(st, k), y)
            return st, r
        return self.call1(st, f, (self.itv[typ], x, tuple(al)))

    def value(self, st, v):
        from wrexp import Call
        if type(v) is tuple and v[:1] == ('tok',):
            return self.token(st, v[1])
        if type(v) is tuple and v[:1] == ('multi',):
            return st, None
        if type(v) is Call:
            return v.build(self, st)
        if isinstance(v, (list, tuple)):
            xs = []
            for y in v:
                st, x = self.build(st, y)
                xs.append(x)
            return self.lst(st, xs) if isinstance(v, list) else (st, tuple(xs))
        if isinstance(v, dict):
            ps = []
            for k, y in v.items():
                st, x = self.build(st, y)
                ps.append((k, x))
            st, l = self.lst(st, ps)
            return self.call1(st, self.m.types['dict'], (l,))
        return st, v


class Script(object):
    def __init__(self, world, budget=300):
        self.w, self.m = world, world.m
        self.d = SimpleDriver(world)
        self.budget = budget
        self.viol, self.unknown, self.nodes = {}, {}, []
        self.agree = self.trans = self.completes = 0

    def add(self, rule, msg, where, name, extra=''):
        k = (rule, msg, where)
        if k in self.viol:
            self.viol[k][2] += 1
        else:
            self.viol[k] = [name, extra, 1]

    def run(self, scripts):
        t0 = time.time()
        self.complete = True
        for s in scripts:
            if time.time() - t0 > self.budget:
                self.complete = False
                break
            try:
                self.script(*s)
            except (Unsupp, Undecided) as x:
                self.unknown.setdefault(str(x)[:150], s[0])
        self.wall = time.time() - t0
        self.functions = set(self.m.visited)
        return self


class LoadScript(Script):
    """scripts: (name, events, mode, options): mode: bin / text / str: load from a file of octets or text; bins / texts / strs: loads"""

    def script(self, name, events, mode, single=False, error=None, cut=None):
        d, m = self.d, self.m
        st = self.w.state()
        evs = instantiate(m, st, events)
        fmt = 'bin' if mode.startswith('bin') else 'text'
        els = docs.binary(evs) if fmt == 'bin' else docs.text(evs)
        if cut is not None:
            els = els[:cut]
        v = m.mkseq(st, 'str' if mode.startswith('str') else 'bytes', els, False)
        if mode.endswith('s'):
            f = self.w.get('simpleion', 'loads')
        else:
            f = self.w.get('simpleion', 'load')
            st, v = d.call1(st, m.types['StringIO' if mode == 'str' else 'BytesIO'], (v,))
        for o in m.call_all(st, f, (v,), {'single_value': single}):
            self.trans += 1
            self.nodes.append(None)
            if o.kind == 'unknown':
                self.unknown.setdefault(str(o.v)[:150], name)
            elif o.kind == 'diverge':
                self.add('hang', '%s never returns' % mode, str(o.v), name)
            elif o.kind == 'raise':
                if error and error in m.exc_names(o.st, o.v):
                    self.agree += 1
                else:
                    self.add('exception', '%s raised%s' % (m.exc_name(o.st, o.v), '' if error else ' for a legal document'), d.exc_where(o.st, o.v), name)
            elif error:
                self.add('accepts-invalid', 'a value is returned where %s must be raised' % error, mode, name)
            else:
                self.completes += 1
                try:
                    self.top(o.st, o.v, evs, single, fmt)
                    self.agree += 1
                except Wrong as x:
                    self.add('value', str(x), mode, name, ''.join(chr(c) if type(c) is int else '?' for c in els) if fmt == 'text' else '')

    def top(self, st, v, evs, single, fmt):
        if single:
            st, i = self.d.compare(st, v, evs, 0, fmt)
        else:
            i = 0
            for x in self.m.concrete_iter(st, self.m.raw(st, v)):
                if i == len(evs):
                    raise Wrong('more values than the document has')
                st, i = self.d.compare(st, x, evs, i, fmt)
        if i != len(evs):
            raise Wrong('fewer values than the document has')


class DumpScript(Script):
    """scripts: (name, object, expected events, options of dump); options: binary, indent, sequence_as_stream, tuple_as_sexp, omit_version_marker,
    imports; file: dump to a file instead of dumps"""

    def __init__(self, world, budget=300):
        Script.__init__(self, world, budget)
        self.d = DumpDriver(world)
        self.bin = WriteScript(world)
        self.bin.viol, self.bin.unknown = self.viol, self.unknown
        self.f = TextFeeder(self.m)

    def script(self, name, obj, evs, opts):
        d, m = self.d, self.m
        st = self.w.state()
        opts = dict(opts)
        tofile, imports, error = opts.pop('file', False), opts.pop('imports', ()), opts.pop('error', None)
        d.memo = {}
        st, obj = d.build(st, obj)
        part = lambda v: (v[0], d.memo[v[1]]) + v[2:] if type(v) is tuple and len(v) > 1 and isinstance(v[1], Text) else v
        evs = [e if e[0] == 'END' else e[:2] + tuple(part(x) for x in e[2:-1]) + (tuple(part(a) for a in e[-1]),) for e in evs]
        if imports:
            tabs = []
            for t in imports:
                st, x = self.bin.d.shared(st, *t[:3])
                tabs.append(x)
            st, opts['imports'] = d.lst(st, tabs)
        fp = None
        if tofile:
            st, fp = d.call1(st, m.types['BytesIO'])
            r = m.call_all(st, self.w.get('simpleion', 'dump'), (obj, fp), opts)
        else:
            r = m.call_all(st, self.w.get('simpleion', 'dumps'), (obj,), opts)
        binary = opts.get('binary', True)
        want = list(evs) if not binary and opts.get('omit_version_marker') else [('IVM',)] + list(evs)
        for o in r:
            self.trans += 1
            self.nodes.append(None)
            if o.kind == 'unknown':
                self.unknown.setdefault(str(o.v)[:150], name)
            elif o.kind == 'diverge':
                self.add('hang', 'never returns', str(o.v), name)
            elif o.kind == 'raise':
                if error and error in m.exc_names(o.st, o.v):
                    self.agree += 1
                else:
                    self.add('exception', '%s raised%s' % (m.exc_name(o.st, o.v), '' if error else ' for a legal value'), d.exc_where(o.st, o.v), name)
            elif error:
                self.add('accepts-invalid', '%s must be raised' % error, 'dump', name)
            else:
                s2, v = o.st, o.v
                self.completes += 1
                if tofile:
                    s2, v = d.callattr(s2, fp, 'getvalue')
                v = m.raw(s2, v)
                kind = m.kindof(s2, v)
                if kind != ('bytes' if binary or tofile else 'str'):
                    self.add('value', 'dumps returns %s' % kind, 'dumps', name)
                    continue
                if kind == 'bytes':
                    els = d.bytes_of(s2, v)
                else:
                    els, star = m.elems(s2, v)
                    if star:
                        raise Undecided('output of unknown length')
                if binary:
                    self.bin.imports = imports
                    self.bin.agree = 0
                    class N(object):
                        pass
                    n = N()
                    n.name = name
                    self.bin.check(s2, tuple(els), tuple(want), [n])
                    self.agree += self.bin.agree
                else:
                    self.text(s2, [m.norm(s2, x) for x in els], want, name)

    def text(self, st, els, want, name):
        show = ''.join(chr(c) if type(c) is int else '?' for c in els)
        for s2, rs, outs, err in self.f.run(st, self.f.ref.initial, els):
            if err is None:
                more = self.f.ref.eof(rs)
                if more is None:
                    self.add('output', 'the text ends inside a value', 'dump', name, show)
                    continue
                outs = tuple(outs) + tuple(more)
            else:
                self.add('output', 'the text is not legal Ion', 'dump', name, show)
                continue
            if len(outs) != len(want):
                self.add('output', '%d events read, %d written' % (len(outs), len(want)), 'dump', name, show)
                continue
            for e, r in zip(want, outs):
                x = ev_same(s2, self.m, e, r)
                if x:
                    self.add('output', x, 'dump', name, show)
                    break
                self.agree += 1


class ChunkScript(Script):
    """scripts: (name, events, mode, cuts, skips): the document, cut at the positions (or into pieces of a size), read event by event; SKIP is requested
    at the start of the containers at the positions skips"""

    def script(self, name, events, mode, cuts, skips=()):
        d, m, w = self.d, self.m, self.w
        st = w.state()
        evs = instantiate(m, st, events)
        fmt = 'bin' if mode == 'bin' else 'text'
        els = docs.binary(evs) if fmt == 'bin' else docs.text(evs)
        if type(cuts) is int:
            cuts = tuple(range(cuts, len(els), cuts))
        at = (0,) + tuple(c for c in cuts if c < len(els)) + (len(els),)
        kind = 'str' if mode == 'str' else 'bytes'
        parts = tuple(m.mkseq(st, kind, els[a:b], False) for a, b in zip(at, at[1:]))
        st, fp = d.call1(st, m.prelude['Pieces'], (parts, '' if mode == 'str' else b''))
        if fmt == 'bin':
            st, raw = d.call1(st, w.get('reader_binary', 'binary_reader'))
        else:
            st, raw = d.call1(st, w.get('reader_text', 'reader'), (), {'is_unicode': mode == 'str'})
        st, man = d.call1(st, w.get('reader_managed', 'managed_reader'), (raw,))
        st, g = d.call1(st, w.get('reader', 'blocking_reader'), (man, fp))
        nxt, skip = w.get('reader', 'NEXT_EVENT'), w.get('reader', 'SKIP_EVENT')
        what = '%s in %d pieces' % (mode, len(parts))
        show = ''.join(chr(c) if type(c) is int else '?' for c in els) if fmt == 'text' else ' '.join('%02x' % c if type(c) is int else '??' for c in els)
        work = [(st, 0, nxt)]
        while work:
            st, i, req = work.pop()
            for o in m.resume_all(st, g, req, max_steps=1000000):
                self.trans += 1
                self.nodes.append(None)
                if o.kind == 'unknown':
                    self.unknown.setdefault(str(o.v)[:150], name)
                    continue
                if o.kind == 'diverge':
                    self.add('hang', 'never returns', mode, name, show)
                    continue
                if o.kind == 'raise':
                    self.add('exception', '%s raised for a legal document' % m.exc_name(o.st, o.v), d.exc_where(o.st, o.v), '%s, %s' % (name, what), show)
                    continue
                try:
                    s2, end = self.event(o.st, o.v, evs, i, fmt)
                except Wrong as x:
                    self.add('event', str(x), mode, '%s, %s' % (name, what), show)
                    continue
                self.agree += 1
                if end:
                    self.completes += 1
                elif i in skips:
                    work.append((s2, d.skip(evs, i) - 1, skip))
                else:
                    work.append((s2, i + 1, nxt))

    def event(self, st, ev, evs, i, fmt):
        d, m = self.d, self.m
        ev = m.norm(st, ev)
        if type(ev) is not Ref:
            raise Wrong('no event')
        st, et = d.attr1(st, ev, 'event_type')
        if i == len(evs):
            if et != d.etv['STREAM_END']:
                raise Wrong('more events than the document has')
            return st, True
        e = evs[i]
        want = {'SCALAR': 'SCALAR', 'START': 'CONTAINER_START', 'END': 'CONTAINER_END'}[e[0]]
        if et != d.etv[want]:
            raise Wrong('an event that is no %s %s' % (e[1], want))
        st, it = d.attr1(st, ev, 'ion_type')
        if it != d.itv[e[1]]:
            raise Wrong('the ion_type of a %s is another' % e[1])
        st, depth = d.attr1(st, ev, 'depth')
        if m.norm(st, depth) != e[-3 if e[0] != 'END' else 2]:
            raise Wrong('the depth of a %s is another' % want)
        if e[0] == 'END':
            return st, False
        st, al = d.attr1(st, ev, 'annotations')
        al = list(m.concrete_iter(st, m.raw(st, al)))
        if len(al) != len(e[-1]):
            raise Wrong('%d annotations of a %s, not %d' % (len(al), e[1], len(e[-1])))
        for a, b in zip(al, e[-1]):
            st = d.symbol(st, a, b, 'annotation')
        st, f = d.attr1(st, ev, 'field_name')
        if (f is None) != (e[-2] is None):
            raise Wrong('a field name is missing or superfluous')
        if f is not None:
            st = d.symbol(st, f, e[-2], 'field name')
        st, v = d.attr1(st, ev, 'value')
        if e[0] == 'START' or e[2] is None or e[1] == 'NULL':
            if v is not None:
                raise Wrong('a value where there is none')
            return st, False
        return d.scalar(st, v, e[1], e[2], fmt), False
