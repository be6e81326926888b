"""The managed reader, given scripted raw events with abstract symbol IDs, against refsym's model of symbol tables."""
import time

from dom import *
from machine import O, Unsupp
from explore import Driver
from wrexp import WDriver, Undecided, Abs, AbsSid
import refsym


class SymDriver(WDriver):
    def __init__(self, world):
        WDriver.__init__(self, world)
        g = lambda mod, n: world.get(mod, n)
        self.inc, self.end, self.ivm = g('core', 'ION_STREAM_INCOMPLETE_EVENT'), g('core', 'ION_STREAM_END_EVENT'), g('core', 'ION_VERSION_MARKER_EVENT')

    def token(self, st, v):
        """-> (st, resolved token: ('sym', text) | ('unknown', sid, location))"""
        st, text = self.attr1(st, v, 'text')
        if text is not None:
            return st, ('sym', self.m.raw(st, text))
        st, sid = self.attr1(st, v, 'sid')
        st, loc = self.attr1(st, v, 'location')
        if loc is not None:
            st, n = self.attr1(st, loc, 'name')
            st, p = self.attr1(st, loc, 'position')
            loc = (self.m.raw(st, n), self.m.norm(st, p))
        return st, ('unknown', self.m.norm(st, sid), loc)

    def shared(self, st, name, version, symbols):
        return self.call1(st, self.w.get('symbols', 'shared_symbol_table'), (name, version, tuple(symbols)))

    def catalog(self, st, tables):
        st, c = self.call1(st, self.w.get('symbols', 'SymbolTableCatalog'))
        for t in tables:
            st, x = self.shared(st, *t)
            st, f = self.attr1(st, c, 'register')
            st, _ = self.call1(st, f, (x,))
        return st, c


class ReadScript(object):
    def __init__(self, world, budget=300):
        self.w, self.m = world, world.m
        self.d = SymDriver(world)
        self.budget = budget
        self.viol, self.unknown, self.nodes = {}, {}, []
        self.agree = self.trans = self.completes = 0

    def add(self, rule, msg, where, name, extra=''):
        k = (rule, msg, where)
        if k in self.viol:
            self.viol[k][2] += 1
        else:
            self.viol[k] = [name, extra, 1]

    def run(self, scripts):
        """scripts: (name, events, catalog tables, options)"""
        t0 = time.time()
        self.complete = True
        for s in scripts:
            if time.time() - t0 > self.budget:
                self.complete = False
                break
            try:
                self.script(*s)
            except (Unsupp, Undecided) as x:
                self.unknown.setdefault(str(x)[:150], s[0])
        self.wall = time.time() - t0
        self.functions = set(self.m.visited)
        return self

    def tok(self, st, t):
        if t is None:
            return st, None, None
        if isinstance(t, Abs):
            st, v, x = t.make(self.d, st)
            return st, v, x
        st, v = self.d.tok(st, t)
        return st, v, t

    def build(self, st, e):
        """neutral event -> (st, machine value, neutral event with the symbols of abstract parts)"""
        d = self.d
        if e[0] == 'IVM':
            return st, d.ivm, e
        if e[0] == 'INC':
            return st, d.inc, e
        if e[0] == 'END':
            st, v = d.call1(st, d.evc, (d.etv['CONTAINER_END'], d.itv[e[1]], None, None, (), e[2]))
            return st, v, e
        depth, field, anns = e[-3:]
        st, f, xf = self.tok(st, field)
        al, xa = [], []
        for a in anns:
            st, v, x = self.tok(st, a)
            al.append(v)
            xa.append(x)
        val, xv = None, None
        if e[0] == 'SCALAR' and e[2] is not None:
            if e[1] == 'SYMBOL':
                st, val, xv = self.tok(st, e[2])
            else:
                val, xv = e[2][1], e[2]
        et = 'CONTAINER_START' if e[0] == 'START' else 'SCALAR'
        st, v = d.call1(st, d.evc, (d.etv[et], d.itv[e[1]], val, f, tuple(al), depth))
        return st, v, (e[:2] + ((xv,) if e[0] == 'SCALAR' else ()) + (depth, xf, tuple(xa)))

    def script(self, name, events, tables=(), late=False, skip=None):
        d, m = self.d, self.m
        st = self.w.state()
        st, cat = d.catalog(st, tables)
        vals, evs = [], []
        for e in events:
            st, v, x = self.build(st, e)
            vals.append(v)
            evs.append(x)
        st, raw = d.call1(st, m.prelude['raw_script'], (tuple(vals), tuple(e[0] == 'START' for e in evs), tuple(e[0] == 'END' for e in evs),
                                                       (d.kinds['DATA'], d.kinds['NEXT'], d.kinds['SKIP']), d.inc, d.end))
        r = m.resume_all(st, raw, None, max_steps=10000)
        st = r[0].st
        st, g = d.call1(st, self.w.get('reader_managed', 'managed_reader'), (raw, cat))
        plan = self.plan(evs, tables, skip)
        work = [(st, 0, 'NEXT', ())]
        n = 0
        while work:
            st, k, kind, kept = work.pop()
            n += 1
            if n > 5000:
                raise Undecided('too many paths')
            self.nodes.append(None)
            for o in d.send(st, g, kind, b'x' if kind == 'DATA' else None):
                self.trans += 1
                if o.kind == 'unknown':
                    self.unknown.setdefault(str(o.v)[:150], name)
                    continue
                if o.kind == 'diverge':
                    self.add('hang', 'the managed reader never answers', str(o.v), name)
                    continue
                for s2, want in self.want(o.st, plan, evs, tables, k, skip):
                    if o.kind == 'raise':
                        if want[0] == 'error' or want[0] == 'event' and any(t[0] == 'error' for t in want[2]):
                            if d.is_ion(s2, o.v):
                                self.agree += 1
                                continue
                        self.add('exception', '%s raised%s' % (m.exc_name(s2, o.v), '' if want[0] == 'error' else ' for a legal stream'),
                                 d.exc_where(s2, o.v), name)
                        continue
                    s3, et = d.attr1(s2, o.v, 'event_type')
                    got = d.et.get(et.a) if type(et) is Ref else None
                    if want[0] == 'error':
                        self.add('accepts-invalid', '%s delivered where the symbol table is in error (%s)' % (got, want[1]), 'managed_reader', name)
                        continue
                    if want[0] in ('STREAM_END', 'INCOMPLETE'):
                        if got != want[0]:
                            self.add('event', '%s delivered, not %s' % (got, want[0]), 'managed_reader', name)
                            continue
                        if want[0] == 'INCOMPLETE':
                            work.append((s3, want[1], 'DATA', kept))
                            continue
                        self.completes += 1
                        for e, w in kept:
                            for s4 in self.check(s3, e, w, name, ' (read later)'):
                                s3 = s4
                                break
                            else:
                                break
                        continue
                    nk = want[1]
                    if late:
                        r = self.shape(s3, o.v, got, want, name)
                        if r is not None:
                            work.append((r, nk, want[3], kept + ((o.v, want),)))
                    else:
                        for s4 in self.check(s3, o.v, want, name):
                            work.append((s4, nk, want[3], kept))

    # ------------------------------------------------------------------------------------------- expectations
    def plan(self, evs, tables, skip):
        return None

    def want(self, st, plan, evs, tables, k, skip):
        """What must be delivered when the raw events from k on are read: forks where an abstract ID decides.
        -> list of (st, ('event', next k, expected tokens, request, event) | ('error', why) | ('STREAM_END',) | ('INCOMPLETE', next k))"""
        out = []
        work = [st]
        while work:
            st = work.pop()
            try:
                out.append((st, self.want1(st, evs, tables, k, skip)))
            except Split as x:
                for sub in x.parts:
                    s2 = st.clone()
                    s2.setdom(x.sym, sub)
                    work.append(s2)
        return out

    def conc(self, st, t, n):
        """A token with its ID determined as far as a table of n entries needs it."""
        if t is None or t[0] == 'sym':
            return t
        v = self.m.norm(st, t[1])
        if type(v) is Sym:
            dom = st.syms[v.i].dom
            if dom[0][0] == dom[-1][1]:
                return ('sid', dom[0][0])
            if dom[0][0] > n:
                return ('sid', n + 1)
            parts = [((x, x),) for x in is_iter(is_and(dom, ((0, n),)))]
            rest = is_sub(dom, ((0, n),))
            raise Split(v, parts + ([rest] if rest else []))
        return ('sid', v)

    def want1(self, st, evs, tables, k, skip):
        s = refsym.Symbols(refsym.Catalog(tables))
        conc = lambda t: self.conc(st, t, len(s.table.entries))
        i = 0
        depth, skipping = 0, None
        while i < len(evs):
            e = evs[i]
            if e[0] == 'INC':
                i += 1
                if i > k:
                    return ('INCOMPLETE', i)
                continue
            if e[0] in ('START', 'SCALAR') and s.lst is None:
                if e[0] == 'START' and e[2] == 0 and e[1] == 'STRUCT' and e[4]:
                    e = e[:4] + ((conc(e[4][0]),) + tuple(e[4][1:]),)
                if e[0] == 'SCALAR' and e[3] == 0 and e[1] == 'SYMBOL' and not e[5] and e[2] is not None:
                    e = e[:2] + (conc(e[2]),) + e[3:]
            if s.lst is not None and e[0] in ('START', 'SCALAR'):
                f = e[3] if e[0] == 'START' else e[4]
                e = e[:-2] + (conc(f), ()) if f is not None else e
            try:
                t = s.feed(e)
            except refsym.Error as x:
                if i < k:
                    raise Undecided('error behind')
                return ('error', str(x))
            depth += (e[0] == 'START') - (e[0] == 'END')
            i += 1
            if t is None or i <= k:
                if i <= k and t is not None and skip == i - 1:
                    skipping = depth
                elif skipping is not None and depth < skipping:
                    skipping = None
                continue
            if skipping is not None:
                if depth >= skipping:
                    continue
                skipping = None
            toks = []
            if e[0] != 'END':
                e = evs[i - 1]
                al = e[4] if e[0] == 'START' else e[5]
                f = e[3] if e[0] == 'START' else e[4]
                for x in ((f,) + tuple(al) + ((e[2],) if e[0] == 'SCALAR' and e[1] == 'SYMBOL' else ())):
                    if x is None:
                        toks.append(('none',))
                        continue
                    try:
                        toks.append(t.resolve(conc(x)))
                    except refsym.Error as y:
                        toks.append(('error', str(y)))
            return ('event', i, toks, 'SKIP' if skip == i - 1 else 'NEXT', e)
        return ('STREAM_END',)

    # ------------------------------------------------------------------------------------------- comparison
    def shape(self, st, v, got, want, name):
        e = want[4]
        k = {'START': 'CONTAINER_START', 'END': 'CONTAINER_END', 'SCALAR': 'SCALAR'}[e[0]]
        st, it = self.d.attr1(st, v, 'ion_type')
        it = self.d.it.get(it.a) if type(it) is Ref else it
        st, depth = self.d.attr1(st, v, 'depth')
        if (got, it, depth) != (k, e[1], e[2] if e[0] != 'SCALAR' else e[3]):
            self.add('event', '%s %s at depth %s delivered, not %s %s at depth %s' % (got, it, depth, k, e[1], e[2] if e[0] != 'SCALAR' else e[3]),
                     'managed_reader', name)
            return None
        return st

    def check(self, st, v, want, name, when=''):
        """Compare the delivered event with the expected one -> the states in which it agrees"""
        st, et = self.d.attr1(st, v, 'event_type')
        st = self.shape(st, v, self.d.et.get(et.a) if type(et) is Ref else None, want, name)
        if st is None:
            return []
        e, toks = want[4], list(want[2])
        if e[0] == 'END':
            self.agree += 1
            return [st]
        states = [st]
        for n, what in enumerate(('field_name', 'annotations', 'value')):
            if what == 'value' and e[0] == 'START':
                continue
            exp = toks[:1] if n == 0 else toks[1:1 + len(e[-1])] if n == 1 else toks[1 + len(e[-1]):]
            nxt = []
            for s in states:
                for s2, kind, x in self.d.attr(s, v, what):
                    if kind == 'unknown':
                        raise Unsupp(str(x))
                    bad = [t for t in exp if t[0] == 'error']
                    if kind == 'raise':
                        if bad and self.d.is_ion(s2, x):
                            nxt.append(s2)
                        else:
                            self.add('exception', '%s raised reading %s%s' % (self.m.exc_name(s2, x), what, when), self.d.exc_where(s2, x), name)
                        continue
                    if bad:
                        self.add('symbol', '%s read although its ID is not defined%s' % (what, when), 'managed_reader', name, bad[0][1])
                        continue
                    x = self.m.norm(s2, x)
                    if what == 'annotations':
                        xs = list(self.m.concrete_iter(s2, x))
                    elif what == 'value' and e[1] != 'SYMBOL':
                        w = e[2] and e[2][1]
                        if self.m.raw(s2, x) != w and x != w:
                            self.add('value', 'the value of a %s is changed' % e[1], 'managed_reader', name)
                            continue
                        nxt.append(s2)
                        continue
                    else:
                        xs = [x]
                    ok = True
                    if len(xs) != len(exp):
                        self.add('symbol', '%d %s, not %d%s' % (len(xs), what, len(exp), when), 'managed_reader', name)
                        continue
                    for x, t in zip(xs, exp):
                        if x is None or t == ('none',):
                            if not (x is None and t == ('none',)):
                                self.add('symbol', '%s is %s%s' % (what, 'missing' if x is None else 'not null', when), 'managed_reader', name)
                                ok = False
                            continue
                        s2, g = self.d.token(s2, x)
                        if t[0] == 'unknown' and t[1] == 0 and g[0] == 'unknown' and g[1] == 0:
                            continue
                        if g != t:
                            self.add('symbol', '%s resolves to %s, not %s%s' % (what, g, t, when), 'managed_reader', name)
                            ok = False
                    if ok:
                        nxt.append(s2)
            states = nxt
        self.agree += len(states)
        return states


class Split(Exception):
    def __init__(self, sym, parts):
        self.sym, self.parts = sym, parts
