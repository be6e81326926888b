"""State compaction, canonical keys and widening.

`Canon.run` keeps only what is reachable from the roots, renames addresses and symbols in first-visit order (so two
states that differ only in allocation history get the same key), prunes dead locals of suspended generators, and widens
counters and long sequences so that the exploration reaches a fixpoint.
"""
from dom import *
from machine import (State, O, FuncO, CellO, GenO, ClsO, ModO, IterO, Frame, NF, STAR, isconst, mkconst, Unsupp)

HEXCELL = (((48, 57), (65, 70), (97, 102)),)


class Canon(object):
    def __init__(self, world, keep=2, maxlen=40, counters=(), maxdistinct=200, fkeep=14, fmax=24, rkeep=None, rmax=None,
                 cells=(), match=None, collapsible=()):
        self.w = world
        self.base_na = world.base_na
        self.base_ns = world.st.ns
        self.keep = keep
        self.maxlen = maxlen
        # sequences held in frame locals / in the reference state may be kept longer than those held in objects
        self.lim = {'o': (keep, maxlen), 'f': (fkeep, fmax), 'r': (rkeep or keep, rmax or maxlen)}
        self.mode = 'o'
        self.cells = cells
        # sequences of the reference state whose common prefix with the reader's copies becomes one shared run symbol
        self.match = match
        self.collapsible = collapsible          # [(Seq, minimal length to collapse, length kept as lower bound)]
        self.runs = []
        self.collect = None
        self.counters = set(counters)
        self.seen = {}               # loc -> set of int constants (pre-analysis only)
        self.record = False
        self.maxdistinct = maxdistinct
        self.running = False
        self.posval = None           # an absolute input position, encoded by name (binary reader)

    def run(self, st, roots, drop_mut=True, keepseq=()):
        self.exact = set()
        self.runs = []
        if self.collapsible:
            self.find_runs(st, roots, drop_mut, keepseq)
        while True:
            n = len(self.exact)
            r = self.run1(st, roots, drop_mut, keepseq)
            if len(self.exact) == n or not self.clash:
                return r

    def find_runs(self, st, roots, drop_mut, keepseq):
        self.collect = set()
        self.run1(st, roots, drop_mut, keepseq)
        seen, self.collect = self.collect, None
        done = set()
        for r, need, low, start in self.collapsible:
            e = r.e
            if r.star or len(e) < need + start or (e, start) in done:
                continue
            done.add((e, start))
            n = None
            m1 = start + 1
            while m1 < len(e) and type(e[m1 - 1]) is int:
                m1 += 1
            if type(e[m1 - 1]) is int:
                m1 = max(start + need, 2)       # all constant
            for x in seen:
                k = 0
                while k < len(x) and k < len(e) and (x[k] == e[k] or self.match(st, x[k], e[k])):
                    k += 1
                if k >= m1:
                    n = k if n is None else min(n, k)
            if n is not None and n >= need + start:
                self.runs.append((e[:n], low, self.runid(n), start))

    def runid(self, n):
        return [None]

    def collapse(self, e):
        for pre, low, box, start in self.runs:
            n = len(pre)
            if len(e) >= n and all(e[i] == pre[i] or self.match(self.st, e[i], pre[i]) for i in range(n)):
                if box[0] is None or box[0][0] is not self.newsyms:
                    j = self.ns
                    self.ns += 1
                    self.newsyms[j] = Info('run', ((low, INF),), None, None, True)
                    box[0] = (self.newsyms, j)
                return box[0][1], e[n:], low, e[:start]
        return None

    def run1(self, st, roots, drop_mut, keepseq):
        self.st = st
        self.coarse = set()
        self.clash = False
        self.amap = {}
        self.smap = {}
        self.ns = self.base_ns
        self.na = self.base_na
        self.newsyms = {}
        self.queue = []
        self.enc = []
        self.heap = {}
        for i in range(1, self.base_ns):
            if i in st.syms:
                self.newsyms[i] = st.syms[i]
        newroots = []
        for i, r in enumerate(roots):
            self.ks = i in keepseq
            self.mode = 'r' if self.ks else 'o'
            nv, e = self.val(r, None)
            self.ks = False
            self.mode = 'o'
            newroots.append(nv)
            self.enc.append(e)
        if not drop_mut:
            for a in sorted(st.heap):
                if a < self.base_na:
                    self.queue.append(a)
        while self.queue:
            a = self.queue.pop(0)
            self.obj(a)
        facts = self.facts()
        s = State()
        s.heap = self.heap
        s.base = st.base
        s.na = self.na
        s.ns = self.ns
        s.syms = self.newsyms
        s.facts = facts
        s.effects = []
        s.imprecise = st.imprecise
        s.asrt = 0
        s.steps = 0
        for x in self.heap.values():
            x.own = s.tok
        key = (tuple(self.enc), bool(st.imprecise))
        return s, newroots, key

    def fingerprint(self, st):
        """The exact state, frames included, up to renaming of addresses."""
        self.exact = set()
        self.runs = []
        self.collapsible = ()
        self.ks = False
        self.running = True
        _, _, key = self.run1(st, [], False, ())
        # frames refer to the same renaming as the heap
        enc = [self.frame(f)[1] for f in st.frames]
        n = len(self.enc)
        while self.queue:
            self.obj(self.queue.pop(0))
        return key, tuple(enc), tuple(self.enc[n:])

    # ------------------------------------------------------------------
    def sym(self, i, inseq=False, cells=None):
        if i < self.base_ns:
            return i, ('S0', i)
        if (not inseq or self.mode == 'f') and i not in self.exact:
            self.exact.add(i)
            if i in self.coarse:
                self.clash = True
        j = self.smap.get(i)
        if j is not None:
            return j, ('S', j)
        inf = self.st.syms[i]
        if inseq and i not in self.exact and self.cells and inf.term is None and inf.dom is not None:
            for cell in cells or self.cells:
                if is_sub(inf.dom, cell) == ():
                    inf = inf.with_dom(cell)
                    break
            self.coarse.add(i)
        j = self.ns
        self.ns += 1
        self.smap[i] = j
        term, te = None, None
        if inf.term is not None:
            d = getattr(self, 'depth', 0)
            if d < 3:
                self.depth = d + 1
                if inf.term[0] == 'hex':
                    term, te = self.hexel(inf.term)
                else:
                    term, te = self.val(inf.term[1:], None)
                    term, te = inf.term[:1] + term, (inf.term[0], te)
                self.depth = d
        cls, ce = inf.cls, None
        if cls is not None:
            cls, ce = self.val(cls, None)
        self.newsyms[j] = Info(inf.kind, inf.dom, cls, term, inf.wide)
        return j, ('S', j, inf.kind, inf.dom, ce, te, inf.wide)

    def fresh_wide(self, kind, dom=None):
        j = self.ns
        self.ns += 1
        self.newsyms[j] = Info(kind, dom, None, None, True)
        return Sym(j), ('W', kind, dom)

    def stride(self, c0):
        s, e = self.fresh_wide('int', ((1, INF),))
        return Lin(c0, ((s.i, 4),)), ('W4', c0)

    def seq(self, kind, e, star):
        """Truncate a sequence after `keep` non-constant elements (or maxlen elements)."""
        out, enc = [], []
        gen = 0
        keep, maxlen = self.lim[self.mode]
        if self.collect is not None and not self.ks and not star:
            self.collect.add(tuple(e))
        if self.runs and e:
            c = self.collapse(tuple(e))
            if c is not None:
                out += c[3]
                enc += c[3]
                out.append(Sym(c[0]))
                enc.append(('R', c[0], c[2]))
                e = c[1]
        for x in e:
            if type(x) is Sym:
                d = self.st.syms[x.i].dom
                if d is not None and is_one(d):
                    x = d[0][0]
            if type(x) is Sym:
                gen += 1
                if gen > keep:
                    star = True
                    break
                j, se = self.sym(x.i, True)
                out.append(Sym(j))
                enc.append(se)
            elif type(x) is int:
                out.append(x)
                enc.append(x)
            elif type(x) is tuple and x and x[0] in ('hex', 'pair'):
                gen += 1
                if gen > keep:
                    star = True
                    break
                nv, se = self.hexel(x)
                out.append(nv)
                enc.append(se)
            else:
                gen += 1
                if gen > keep:
                    star = True
                    break
                nv, se = self.val(x, None)
                out.append(nv)
                enc.append(se)
            if len(out) >= maxlen and len(out) < len(e):
                star = True
                break
        return out, ('Q', kind, tuple(enc), star), star

    def hexel(self, x):
        out, enc = [], []
        for y in x:
            if type(y) is tuple:
                nv, e = self.hexel(y)
            elif type(y) is Sym:
                j, e = self.sym(y.i, True, HEXCELL)
                nv = Sym(j)
            else:
                nv, e = y, y
            out.append(nv)
            enc.append(e)
        return tuple(out), ('hx',) + tuple(enc)

    def val(self, v, loc):
        t = type(v)
        if loc is not None and loc in self.counters and (t is Lin or t is Sym):
            l = self.w.m.lin(self.st, v)
            if (type(loc[0]) is tuple or '.py:' in loc[0]) and len(l.t) == 1 and l.t[0][1] == 4:
                return self.stride(2 + (l.c - 2) % 4)
            lo = self.w.m.lin_range(self.st, l)[0]
            return self.fresh_wide('int', ((min(lo, 3), INF),))
        if t is Sym:
            inf = self.st.syms[v.i]
            if inf.dom is not None and is_one(inf.dom):
                v = bool(inf.dom[0][0]) if inf.kind == 'bool' else inf.dom[0][0]
                t = type(v)
            else:
                j, e = self.sym(v.i)
                return Sym(j), e
        if t is int and loc is not None:
            if self.record:
                self.seen.setdefault(loc, set()).add(v)
            if loc in self.counters:
                s4 = type(loc[0]) is tuple or '.py:' in loc[0]
                if s4 and v >= 6:
                    return self.stride(2 + (v - 2) % 4)
                if not s4 and v >= 3:
                    return self.fresh_wide('int', ((3, INF),))
            return v, (v if v != self.posval else ('P',))
        if t is int or v is None:
            return v, (v if v is None or v != self.posval else ('P',))
        if t is Ref:
            a = v.a
            if a < self.base_na:
                return v, ('b', a)
            n = self.amap.get(a)
            if n is None:
                n = self.na
                self.na += 1
                self.amap[a] = n
                self.queue.append(a)
            return Ref(n), ('h', n)
        if t is tuple:
            out, enc = [], []
            for i, x in enumerate(v):
                nv, e = self.val(x, None if loc is None else (loc, i))
                out.append(nv)
                enc.append(e)
            return tuple(out), ('t',) + tuple(enc)
        if t is Seq:
            out, e, star = self.seq(v.kind, v.e, v.star)
            if not self.ks and not star and all(type(x) is int for x in out):
                c = mkconst(v.kind, out)
                return c, (type(c).__name__, c)
            return Seq(v.kind, tuple(out), star), e
        if t is str or t is bytes:
            ml = self.lim[self.mode][1]
            if v and not self.ks and (self.collect is not None or self.runs):
                el = tuple(ord(c) for c in v) if t is str else tuple(v)
                if self.collect is not None:
                    self.collect.add(el)
                else:
                    c = self.collapse(el)
                    if c is not None:
                        return self.val(Seq(t.__name__, el, False), loc)
            if len(v) > ml and not self.ks:
                el = [ord(c) for c in v] if t is str else list(v)
                return Seq(t.__name__, tuple(el[:ml]), True), ('Q', t.__name__, tuple(el[:ml]), True)
            return v, (t.__name__, v)
        if t is Lin:
            out, enc = [], []
            for s, k in v.t:
                j, e = self.sym(s)
                out.append((j, k))
                enc.append((e, k))
            return Lin(v.c, tuple(sorted(out))), ('L', v.c, tuple(enc))
        if t is bool or t is float:
            return v, (t.__name__, repr(v))
        if t.__name__ == 'BM':
            f, e1 = self.val(v.f, None)
            s, e2 = self.val(v.s, None)
            return BM(f, s), ('m', e1, e2)
        if t.__name__ == 'Slice':
            a, b, c = (self.val(x, None) for x in (v.a, v.b, v.c))
            return Slice(a[0], b[0], c[0]), ('sl', a[1], b[1], c[1])
        if t is NF:
            return v, ('nf', v.name)
        return v, ('x', t.__name__, repr(v))

    def dct(self, d, loc):
        out, enc = {}, []
        for k in sorted(d):
            nv, e = self.val(d[k], (loc, k))
            out[k] = nv
            enc.append((k, e))
        return out, tuple(enc)

    def payload(self, p, cname):
        if p is None:
            return None, None
        if type(p) is list:
            if cname in ('bytearray', 'BytesIO', 'StringIO') or (p and all(type(x) in (int, Sym) or x is STAR
                                                                           for x in p)):
                star = bool(p) and p[-1] is STAR
                out, e, star = self.seq(cname, p[:-1] if star else p, star)
                return out + ([STAR] if star else []), e
            out, enc = [], []
            for x in p:
                if x is STAR:
                    out.append(x)
                    enc.append('*')
                    continue
                nv, e = self.val(x, None)
                out.append(nv)
                enc.append(e)
            return out, ('l', tuple(enc))
        if type(p) is dict:
            out, enc = {}, []
            for k, ent in p.items():
                nk, ke = self.hk(k)
                nv, e = self.val(ent, None) if type(ent) is tuple else (ent, repr(ent))
                out[nk] = nv
                enc.append((ke, e))
            return out, ('d', tuple(enc))
        if type(p) is tuple:
            return self.val(p, ('rec', cname))
        return self.val(p, None)

    def hk(self, k):
        if type(k) is tuple and k:
            if k[0] == 'a':
                nv, e = self.val(k[1], None)
                return ('a', nv), ('a', e)
            if k[0] in ('r', 'u'):
                r, e = self.val(Ref(k[1]), None)
                return (k[0], r.a), (k[0], e)
            if k[0] == 't':
                xs = [self.hk(x) for x in k[1:]]
                return ('t',) + tuple(x[0] for x in xs), ('t',) + tuple(x[1] for x in xs)
            if k[0] == 'f':
                nv, e = self.val(k[1], None)
                return ('f', nv), ('f', e)
        return k, ('k', type(k).__name__, k)

    def frame(self, fr):
        f = Frame()
        f.code = fr.code
        f.pc = fr.pc
        live = fr.code.live[fr.pc] if fr.pc < len(fr.code.live) else None
        self.mode = 'f'
        loc, enc = {}, []
        for k in sorted(fr.loc):
            if live is not None and k not in live:
                continue
            nv, e = self.val(fr.loc[k], (fr.code.uid, k))
            loc[k] = nv
            enc.append((k, e))
        f.loc = loc
        cells, ce = self.dct(fr.cells, None)
        f.cells = cells
        stk, se = [], []
        for i, x in enumerate(fr.stack):
            nv, e = self.val(x, (fr.code.uid, fr.pc, i))
            stk.append(nv)
            se.append(e)
        self.mode = 'o'
        f.stack = stk
        f.blocks = list(fr.blocks)
        f.globs, ge = self.val(fr.globs, None)
        f.ns, ne = self.val(fr.ns, None)
        f.gen, gne = self.val(fr.gen, None)
        f.then = None
        te = None
        if fr.then is not None:
            f.then, te = self.val(fr.then, None)
        return f, (fr.code.uid, fr.pc, tuple(enc), ce, tuple(se), tuple(fr.blocks), ne, gne, te)

    def obj(self, a):
        st = self.st
        x = st.heap[a]
        n = self.amap.get(a, a)
        t = type(x)
        if t is O:
            c, ce = self.val(x.cls, None)
            cname = st.o(x.cls).name
            y = O(c)
            ae = None
            if x.attrs is not None:
                y.attrs, ae = self.dct(x.attrs, cname)
            y.p, pe = self.payload(x.p, cname)
            e = ('O', ce, ae, pe)
        elif t is GenO:
            if x.status == 'run' and self.running:
                y = GenO(x.frame)
                e = ('Gr', x.code.uid)          # its frame is on the stack, which refers back to it
            elif x.status == 'run':
                raise Unsupp('running generator in a quiescent state')
            elif x.status == 'done':
                y = GenO(x.frame)
                f = Frame()
                f.code = x.code
                f.pc, f.loc, f.cells, f.stack, f.blocks = 0, {}, {}, [], []
                f.globs = f.ns = f.gen = f.then = None
                y.frame = f
                y.status = 'done'
                e = ('Gd', x.code.uid)
            else:
                f, fe = self.frame(x.frame)
                y = GenO(f)
                y.status = x.status
                e = ('G', x.status, fe)
        elif t is CellO:
            nv, e = self.val(x.v, ('cell', None) if False else None)
            y = CellO(nv)
            e = ('C', e)
        elif t is FuncO:
            y = FuncO()
            y.code, y.name = x.code, x.name
            y.globs, _ = self.val(x.globs, None)
            y.defaults, de = self.val(tuple(x.defaults), None)
            y.kwdef, ke = self.dct(x.kwdef or {}, None)
            y.clos, ce = self.dct(x.clos, None)
            y.attrs, ae = self.dct(x.attrs, None)
            e = ('F', x.code.uid, de, ke, ce, ae)
        elif t is IterO:
            nv, pe = self.val(x.p, None)
            y = IterO(x.kind, nv, x.i)
            e = ('I', x.kind, pe, x.i)
        elif t is ClsO:
            y = x.copy()
            y.d, de = self.dct(x.d, None)
            y.bases = self.val(tuple(x.bases), None)[0]
            y.mro = self.val(tuple(x.mro), None)[0]
            y.meta = self.val(x.meta, None)[0]
            e = ('K', x.name, de)
        else:
            raise Unsupp('compact ' + t.__name__)
        self.heap[n] = y
        self.enc.append((n, e))

    # ------------------------------------------------------------------
    def known(self, v):
        t = type(v)
        if t is Sym:
            return v.i < self.base_ns or v.i in self.smap
        if t is Lin:
            return all(s < self.base_ns or s in self.smap for s, _ in v.t)
        if t is Seq:
            return all(self.known(x) for x in v.e)
        if t is Ref:
            return v.a < self.base_na or v.a in self.amap
        if t is tuple:
            return all(self.known(x) for x in v)
        return True

    def facts(self):
        out = {}
        encs = []
        st = self.st
        todo = [(k, v) for k, v in st.facts.items()]
        changed = True
        while changed:
            changed = False
            rest = []
            for k, v in todo:
                if k[0] == 's':
                    if all(s < self.base_ns or s in self.smap for s, _ in k[2]):
                        t = tuple(sorted((self.smap.get(s, s), c) for s, c in k[2]))
                        # keep the leading coefficient positive
                        c0, v2 = k[1], v
                        if t and t[0][1] < 0:
                            t = tuple((s, -c) for s, c in t)
                            c0 = -c0
                            v2 = frozenset(-x for x in v)
                        out[('s', c0, t)] = v2
                        encs.append(('s', c0, t, tuple(sorted(v2))))
                        changed = True
                        continue
                elif self.known(k[1:]):
                    if k[1] == 'hex':
                        nk, ke = self.hexel(k[1:])
                    else:
                        nk, ke = self.val(tuple(k[2:]), None)
                        nk, ke = k[1:2] + nk, (k[1], ke)
                    nv, ve = self.val(v, None)
                    while self.queue:
                        self.obj(self.queue.pop(0))
                    out[(k[0],) + nk] = nv
                    encs.append((k[0], ke, ve))
                    changed = True
                    continue
                rest.append((k, v))
            todo = rest
        self.enc.append(('facts', tuple(sorted(encs, key=repr))))
        return out
