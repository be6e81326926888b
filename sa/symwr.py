"""The managed binary writer: its octets, decoded and with the symbol IDs resolved by refsym, against the events written."""
from machine import Unsupp
from wrbin import BinScript, decode, hexes, seq_same
from wrexp import Ev, Undecided, Abs, AbsText
from dom import Sym
import refsym
import wrbin
from symexp import SymDriver


def plain(r, v):
    """A decoded string: python str if it is determined, else the tuple of its code points"""
    els = tuple(r.m.norm(r.st, x) for x in v)
    return ''.join(map(chr, els)) if all(type(x) is int for x in els) else els


class WriteScript(BinScript):
    """scripts: (events, imports): imports are (name, version, symbols) or a list of those for nested imports"""

    def __init__(self, world, budget=300, probe=False, limit=3000):
        BinScript.__init__(self, world, budget, probe, limit=limit)
        self.d = SymDriver(world)

    def start(self):
        st, tabs = self.w.state(), []
        for t in self.imports:
            if t[2] is None:
                st, x = self.d.call1(st, self.w.get('symbols', 'placeholder_symbol_table'), (t[0], t[1], t[3]))
            else:
                st, x = self.d.shared(st, *t[:3])
            tabs.append(x)
        kw = {}
        if self.imports:
            st, l = self.d.call1(st, self.m.types['list'], (tuple(tabs),))
            kw['imports'] = l
        return self.d.call1(st, self.w.get('writer_binary', 'binary_writer'), (), kw)

    def table(self):
        t = refsym.Table()
        for x in self.imports:
            t.entries += [(s, (x[0], k + 1)) for k, s in enumerate(x[2] if x[2] is not None else [None] * x[3])]
        return t

    def run(self, scripts):
        import time
        t0 = time.time()
        self.complete = True
        for evs, self.imports in scripts:
            if time.time() - t0 > self.budget:
                self.complete = False
                break
            try:
                self.script(evs)
            except (Unsupp, Undecided) as x:
                self.unk(x, evs)
        self.wall = time.time() - t0
        self.functions = set(self.m.visited)
        return self

    def script(self, evs):
        st, g = self.start()
        if not evs or evs[-1].et != 'STREAM_END':
            evs = list(evs) + [Ev('STREAM_END', 'STREAM_END')]
        work = [(st, 0, '', (), (), '')]     # stage of the stream: '' nothing yet, 'm' marker written, 'v' values written
        n = 0
        while work:
            st, i, stack, pend, els, stage = work.pop()
            n += 1
            if n > self.limit:
                return self.unk('more than %d paths' % self.limit, evs)
            self.nodes.append(None)
            if i == len(evs):
                continue
            ev = evs[i]
            s0, e, ev = self.d.realize(st.clone(), ev)
            illegal = 'TypeError' if ev.et == 'CONTAINER_END' and not stack or ev.et == 'STREAM_END' and stack else \
                'IonException' if ev.et == 'VERSION_MARKER' and stage == 'v' else None
            if not illegal and self.undefined(ev):
                illegal = 'Exception'
            for s2, chunks, status in self.d.feed(s0, g, e, self.probe and not illegal, limit=4000):
                self.trans += 1
                if status[0] in ('unknown', 'undecided'):
                    self.unk(status, evs[:i + 1])
                elif status[0] == 'diverge':
                    self.add('hang', 'the writer never answers', str(status[2]), evs[:i + 1])
                elif status[0] in ('badyield', 'toomany'):
                    self.add('protocol', status[0], 'binary_writer', evs[:i + 1])
                elif illegal:
                    if status[0] != 'raise' or illegal not in status[3]:
                        self.add('accepts-invalid', '%s must raise %s' % (ev.et, illegal), 'binary_writer', evs[:i + 1], str(status[:2]))
                    else:
                        self.agree += 1
                elif status[0] == 'raise':
                    self.add('exception', '%s raised for a legal event' % status[1], status[2], evs[:i + 1])
                else:
                    want = 'COMPLETE' if ev.et == 'STREAM_END' else 'NEEDS_INPUT'
                    if status[0] != want:
                        self.add('protocol', 'answers %s, not %s' % (status[0], want), ev.et, evs[:i + 1])
                        continue
                    p2, sg = pend, stage
                    if ev.et == 'VERSION_MARKER':
                        if stage == '':
                            p2, sg = pend + (('IVM',),), 'm'
                    elif ev.et == 'STREAM_END':
                        sg = ''
                    else:
                        if stage == '':
                            p2 += (('IVM',),)
                        sg = 'v'
                        p2 += (self.expected(ev, stack),)
                    st2 = stack + {'LIST': 'L', 'SEXP': 'S', 'STRUCT': 'T'}[ev.it] if ev.et == 'CONTAINER_START' else \
                        stack[:-1] if ev.et == 'CONTAINER_END' else stack
                    els2 = els + tuple(x for c in chunks for x in c)
                    if ev.et == 'STREAM_END':
                        self.completes += 1
                        before = self.agree
                        ok = self.check(s2, els2, p2, evs[:i + 1])
                        if not ok:
                            continue
                    work.append((s2, i + 1, st2, p2, els2, sg))

    def undefined(self, ev):
        t = self.table()
        toks = [ev.field] + list(ev.anns) + ([ev.exp] if ev.et == 'SCALAR' and ev.it == 'SYMBOL' else [])
        return any(x is not None and x[0] == 'sid' and x[1] > len(t.entries) for x in toks)

    def resolved(self, t):
        if t is None:
            return None
        if t[0] in ('txt', 'full'):
            t = ('sym', t[1])
        if t[0] == 'sym' and not isinstance(t[1], str):
            t = ('sym', tuple(t[1]))
        return self.table().resolve(t)

    def check(self, st, els, pend, evs):
        def cmp(r, got):
            s = refsym.Symbols(refsym.Catalog([t[:3] for t in self.imports if t[2] is not None]))
            k = 0
            for n, g in enumerate(got):
                if g[0] == 'SCALAR' and g[1] == 'STRING' and g[2] is not None:
                    g = g[:2] + (('str', plain(r, g[2][1])),) + g[3:]
                if g[0] == 'SCALAR' and g[1] == 'INT' and g[2] is not None:
                    g = g[:2] + (('int', r.m.norm(r.st, r.m.unlin(r.m.lin(r.st, g[2][1])))),) + g[3:]
                g = self.ids(r, g)
                try:
                    t = s.feed(g)
                    if t is None and g != ('IVM',):
                        continue
                    w = pend[k] if k < len(pend) else None
                    if w is None:
                        return 'the octets hold more than was written'
                    k += 1
                    d = self.same(r, w, g, t)
                except refsym.Error as x:
                    return 'a symbol ID is used that is not defined (%s)' % x
                if d:
                    return d
                self.agree += 1
            if s.lst is not None:
                return 'an unfinished symbol table'
            return '%s is missing' % ' '.join(str(x) for x in pend[k][:2]) if k < len(pend) else None
        try:
            ok = True
            for s2, v in decode(self.m, st, els, cmp):
                if v:
                    self.add('output', v, 'binary_writer', evs, hexes(els))
                    ok = False
            return ok
        except Undecided as x:
            self.unk(x, evs)
            return False

    def ids(self, r, g):
        tok = lambda t: t if t is None or t[0] != 'sid' else ('sid', r.const(t[1], 'a symbol ID'))
        if g[0] == 'START':
            return g[:3] + (tok(g[3]), tuple(tok(a) for a in g[4]))
        if g[0] == 'SCALAR':
            v = tok(g[2]) if g[1] == 'SYMBOL' else g[2]
            return g[:2] + (v, g[3], tok(g[4]), tuple(tok(a) for a in g[5]))
        return g

    def tok_same(self, r, w, g, t):
        if w is None or g is None:
            return w is None and g is None
        w, g = self.resolved(w), t.resolve(g)
        norm = lambda x: tuple(self.rep(r, y) for y in x) if type(x) is tuple else tuple(ord(c) for c in x)
        if w[0] == g[0] == 'sym':
            a, b = norm(w[1]), norm(g[1])
            return a == b
        if w[0] == g[0] == 'unknown':
            return w[2] == g[2] and (w[1] == 0) == (g[1] == 0)
        return False

    def rep(self, r, x):
        """The value or the first of the symbols that are known to equal x"""
        x = r.m.norm(r.st, x)
        if type(x) is not Sym:
            return x
        eqs = [k[2] for k, v in r.st.facts.items() if k[0] == 's' and v == {0} and k[1] == 0 and len(k[2]) == 2]
        cls, n = {x.i}, 0
        while n != len(cls):
            n = len(cls)
            for (a, p), (b, q) in eqs:
                if p == -q and (a in cls or b in cls):
                    cls |= {a, b}
        for i in sorted(cls):
            v = r.m.norm(r.st, Sym(i))
            if type(v) is not Sym:
                return v
        return Sym(min(cls))

    def same(self, r, w, g, t):
        if w[0] != g[0]:
            return 'reads as %s, not %s' % (g[0], w[0])
        if w[0] in ('IVM', 'END'):
            return None if w == g else '%s reads as %s' % (w, g)
        typ, depth, field, anns = w[1], w[-3], w[-2], w[-1]
        if (typ, depth) != (g[1], g[-3]):
            return '%s at depth %s reads as %s at depth %s' % (typ, depth, g[1], g[-3])
        if not self.tok_same(r, field, g[-2], t):
            return 'field name %s reads as %s' % (self.resolved(field), g[-2] and t.resolve(g[-2]))
        if len(anns) != len(g[-1]) or not all(self.tok_same(r, a, b, t) for a, b in zip(anns, g[-1])):
            return 'annotations %s read as %s' % ([self.resolved(a) for a in anns], [t.resolve(a) for a in g[-1]])
        if w[0] == 'SCALAR':
            if typ == 'SYMBOL':
                if not self.tok_same(r, w[2], g[2], t):
                    return 'symbol %s reads as %s' % (self.resolved(w[2]), g[2] and t.resolve(g[2]))
            else:
                gv = g[2]
                if typ == 'STRING' and gv is not None and isinstance(gv[1], str):
                    gv = ('str', [ord(c) for c in gv[1]])
                if not wrbin.val_same(r, w[2], gv):
                    return 'the value of a %s is changed' % typ
        return None
