"""Symbol tables and the catalog through their own interface, against a model."""
from machine import Unsupp, Ref, O
from wrexp import Undecided
from simexp import SimpleDriver, Script, Wrong
from refsym import SYSTEM

DEFAULT = 'the default'


class Bad(Exception):
    """The recipe must be rejected; args[0] is the name of the exception."""


class Model(object):
    """kind: system / shared / local; toks: [(text, sid, location)]"""

    def __init__(self, kind, name=None, version=None, sub=False):
        self.kind, self.name, self.version, self.sub = kind, name, version, sub
        self.toks = [(t, i + 1, ('$ion', i + 1)) for i, t in enumerate(SYSTEM)] if kind != 'shared' else []

    def put(self, text, loc=None):
        sid = len(self.toks) + 1
        self.toks.append((text, sid, (self.name, sid) if self.kind == 'shared' else loc))

    def find(self, text):
        for t in self.toks:
            if t[0] == text:
                return t
        return None

    def same(self, o):
        return (self.kind, self.name, self.version, self.sub, self.toks) == (o.kind, o.name, o.version, o.sub, o.toks)


def sub(t, version, n):
    if t.kind == 'local' or version < 1 or n < 0:
        raise Bad('ValueError')
    r = Model('shared', t.name, version, True)
    for k in ([x[0] for x in t.toks] + [None] * n)[:n]:
        r.put(k)
    return r


def model(r):
    k = r[0]
    if k == 'system':
        return Model('system', '$ion', 1)
    if k == 'place':
        if r[2] < 1 or r[3] < 0:
            raise Bad('ValueError')
        t = Model('shared', r[1], r[2], True)
        for _ in range(r[3]):
            t.put(None)
        return t
    if k == 'sub':
        return sub(model(r[1]), r[2], r[3])
    if k == 'shared':
        imports = [model(i) for i in r[4] or ()]
        if r[1] is None or r[2] is None or r[2] < 1:
            raise Bad('ValueError')
        if not isinstance(r[1], str):
            raise Bad('TypeError')
        t, symbols = Model('shared', r[1], r[2]), r[3]
    else:
        imports, t, symbols = [model(i) for i in r[1] or ()], Model('local'), r[2]
    for i in imports:
        for text, _, loc in i.toks:
            if t.kind == 'local' and i.kind == 'local' and loc and loc[0] == '$ion':
                continue
            t.put(text, loc)
    for s in symbols:
        if s is not None and not isinstance(s, str):
            raise Bad('TypeError')
        t.put(s)
    return t


class TableScript(Script):
    def __init__(self, world, budget=300):
        Script.__init__(self, world, budget)
        self.d = SimpleDriver(world)

    def script(self, name, kind, *a):
        try:
            getattr(self, kind)(name, *a)
        except Wrong as x:
            self.add('table', str(x), 'SymbolTable' if kind != 'catalog' else 'SymbolTableCatalog', name)

    def one(self, st, f, args, kw, want=None):
        """Calls f -> (st, value), or (st, None) when it must raise and does"""
        m = self.m
        rs = m.call_all(st, f, tuple(args), kw or {})
        self.trans += 1
        self.nodes.append(None)
        if len(rs) != 1 or rs[0].kind in ('unknown', 'diverge'):
            raise Undecided(str([(o.kind, str(o.v)[:80]) for o in rs][:2]))
        o = rs[0]
        if o.kind == 'raise':
            if want and want in m.exc_names(o.st, o.v):
                self.agree += 1
                return o.st, None
            raise Wrong('%s raised%s' % (m.exc_name(o.st, o.v), ', not %s' % want if want else ''))
        if want:
            raise Wrong('%s must be raised' % want)
        return o.st, o.v

    def call(self, st, obj, name, *args, **kw):
        st, f = self.d.attr1(st, obj, name)
        return self.one(st, f, args, {}, kw.get('want'))

    def make(self, st, r, want=None):
        f = lambda n: self.w.get('symbols', n)
        if r[0] == 'system':
            return st, f('SYSTEM_SYMBOL_TABLE')
        if r[0] == 'place':
            return self.one(st, f('placeholder_symbol_table'), r[1:], None, want)
        if r[0] == 'sub':
            st, t = self.make(st, r[1])
            return self.one(st, f('substitute_symbol_table'), (t,) + r[2:], None, want)
        imports = r[4] if r[0] == 'shared' else r[1]
        kw = {}
        if imports is not None:
            l = []
            for i in imports:
                st, t = self.make(st, i)
                l.append(t)
            st, kw['imports'] = self.d.call1(st, self.m.types['list'], (tuple(l),))
        if r[0] == 'shared':
            return self.one(st, f('shared_symbol_table'), r[1:4], kw, want)
        if r[2]:
            kw['symbols'] = tuple(r[2])
        return self.one(st, f('local_symbol_table'), (), kw, want)

    # -------------------------------------------------------------------------------------- observations
    def token(self, st, v, want, what):
        self.agree += 1
        if want is None or v is None:
            if v is not want:
                raise Wrong('%s is%s None' % (what, '' if v is None else ' not'))
            return st
        got = []
        for n in ('text', 'sid', 'location'):
            st, x = self.d.attr1(st, v, n)
            x = self.m.norm(st, x)
            if n == 'location' and x is not None:
                st, a = self.d.attr1(st, x, 'name')
                st, b = self.d.attr1(st, x, 'position')
                x = (self.m.norm(st, a), self.m.norm(st, b))
            got.append(x)
        if tuple(got) != want:
            for n, g, w in zip(('text', 'sid', 'location'), got, want):
                if g != w:
                    raise Wrong('the %s of %s is %r, not %r' % (n, what, g, w))
        return st

    def val(self, st, obj, name, want, what=None):
        st, x = self.d.attr1(st, obj, name)
        self.agree += 1
        if self.m.norm(st, x) != want:
            raise Wrong('%s is %r, not %r' % (what or name, x, want))
        return st

    def observe(self, st, t, mod, full=True):
        m = self.m
        st = self.val(st, t, 'max_id', len(mod.toks))
        st, n = self.call(st, t, '__len__')
        if m.norm(st, n) != len(mod.toks):
            raise Wrong('len is %r, not %d' % (n, len(mod.toks)))
        for n, w in (('name', mod.name), ('version', mod.version), ('is_substitute', mod.sub)):
            st = self.val(st, t, n, w)
        st, tt = self.d.attr1(st, t, 'table_type')
        for n in ('is_system', 'is_shared', 'is_local'):
            st, x = self.d.attr1(st, tt, n)
            if bool(m.truth(st, x)) is not (n[3:] == mod.kind or n == 'is_shared' and mod.kind == 'system'):
                raise Wrong('%s is %r' % (n, x))
        st, l = self.one(st, m.types['list'], (t,), None)
        l = list(m.concrete_iter(st, l))
        if len(l) != len(mod.toks):
            raise Wrong('%d tokens in the iteration, not %d' % (len(l), len(mod.toks)))
        for x, w in zip(l, mod.toks):
            st = self.token(st, x, w, 'an element of the iteration')
        keys = range(-2, len(mod.toks) + 3) if full else (0, 1, len(mod.toks), len(mod.toks) + 1)
        for k in keys:
            w = (None, 0, None) if k == 0 else mod.toks[k - 1] if 0 < k <= len(mod.toks) else None
            st = self.lookup(st, t, k, w)
        for k in sorted(set([x[0] for x in mod.toks if x[0] is not None] if full else ()) | set(('a', 'b', 'c', '', 'name'))):
            st = self.lookup(st, t, k, mod.find(k))
        for k in (None, 1.5, b'a') if full else ():
            st, _ = self.call(st, t, 'get', k, want='TypeError')
        self.completes += 1
        return st

    def lookup(self, st, t, k, w):
        what = 'get(%r)' % (k,) if isinstance(k, str) else 'get of an ID'
        st, x = self.call(st, t, 'get', k)
        st = self.token(st, x, w, what)
        if w is None:
            st, x = self.call(st, t, 'get', k, DEFAULT)
            if self.m.norm(st, x) != DEFAULT:
                raise Wrong('%s, not found, is not the default' % what)
            st, _ = self.call(st, t, '__getitem__', k, want='KeyError')
            return st
        st, x = self.call(st, t, '__getitem__', k)
        return self.token(st, x, w, '[]')

    # -------------------------------------------------------------------------------------- scripts
    def table(self, name, recipe, interns=()):
        st = self.w.state()
        try:
            mod = model(recipe)
        except Bad as x:
            self.make(st, recipe, x.args[0])
            self.completes += 1
            return
        st, t = self.make(st, recipe)
        for s in interns:
            if mod.kind != 'local' or not isinstance(s, str):
                st, _ = self.call(st, t, 'intern', s, want='TypeError')
                continue
            w = mod.find(s)
            if w is None:
                mod.put(s)
                w = mod.toks[-1]
            st, x = self.call(st, t, 'intern', s)
            st = self.token(st, x, w, 'what intern returns')
        self.observe(st, t, mod)

    def equal(self, name, a, b):
        st = self.w.state()
        st, x = self.make(st, a)
        st, y = self.make(st, b)
        w = model(a).same(model(b))
        for p, q in ((x, y), (y, x)):
            for n, r in (('__eq__', w), ('__ne__', not w)):
                st, g = self.call(st, p, n, q)
                if self.m.norm(st, g) is not r:
                    raise Wrong('%s of %s tables is %r' % (n, 'equal' if w else 'different', g))
                self.agree += 1
        self.completes += 1

    def catalog(self, name, regs, args):
        m = self.m
        st = self.w.state()
        st, c = self.one(st, self.w.get('symbols', 'SymbolTableCatalog'), (), None)
        known = {}
        for r in regs:
            mod = model(r)
            st, t = self.make(st, r)
            bad = mod.kind != 'shared' or mod.sub
            st, _ = self.call(st, c, 'register', t, want='ValueError' if bad else None)
            if not bad:
                known.setdefault(mod.name, {})[mod.version] = mod, t
        n, v, k = args
        vs = known.get(n) if isinstance(n, str) else None
        want = None
        if not isinstance(n, str) or not isinstance(v, int):
            want = 'TypeError'
        elif v < 1 or k is not None and k < 0:
            want = 'ValueError'
        elif k is None and (not vs or v not in vs):
            want = 'CannotSubstituteTable'
        st, g = self.call(st, c, 'resolve', n, v, k, want=want)
        if want:
            self.completes += 1
            return
        if not vs:
            self.observe(st, g, model(('place', n, v, k)), False)
            return
        mod, t = vs[v] if v in vs else vs[max(vs)]
        if v in vs and (k is None or k == len(mod.toks)):
            if g != t:
                raise Wrong('an exact match is not returned as it was registered')
        else:
            mod = sub(mod, v, k)
        self.observe(st, g, mod, False)
