"""Independent model of Ion 1.0 symbol tables: what the symbol IDs of a stream of raw events mean.

Raw events: ('SCALAR', type, value, depth, field, annotations), ('START', type, depth, field, annotations), ('END', type, depth),
('IVM',).  Tokens: ('sym', text) or ('sid', n).  Resolved tokens: ('sym', text) or ('unknown', sid, location or None)."""

SYSTEM = ('$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id', '$ion_shared_symbol_table')


class Error(Exception):
    """The stream is in error here (and only here: everything before it stands)."""


class Catalog(object):
    def __init__(self, tables=()):
        self.t = {}
        for name, version, symbols in tables:
            self.t.setdefault(name, {})[version] = list(symbols)

    def resolve(self, name, version, max_id):
        vs = self.t.get(name) or {}
        exact = vs.get(version)
        if max_id is None:
            if exact is None:
                raise Error('no exact match and no max_id')
            return list(exact)
        have = exact if exact is not None else vs[max(vs)] if vs else []
        return (have + [None] * max_id)[:max_id]


class Table(object):
    """entries[k]: (text or None, import location or None) of the ID k + 1"""

    def __init__(self):
        self.entries = [(t, ('$ion', i + 1)) for i, t in enumerate(SYSTEM)]
        self.system = True

    def resolve(self, tok):
        if tok[0] == 'sym':
            return tok
        n = tok[1]
        if n == 0:
            return ('unknown', 0, None)
        if n > len(self.entries):
            raise Error('ID %d of %d' % (n, len(self.entries)))
        t, loc = self.entries[n - 1]
        return ('unknown', n, loc) if t is None else ('sym', t)


class Symbols(object):
    """Feed raw events one at a time; user(...) returns the event for the user or None."""

    def __init__(self, catalog=None):
        self.catalog = catalog or Catalog()
        self.table = Table()
        self.lst = None

    def name(self, tok):
        r = self.table.resolve(tok)
        return r[1] if r[0] == 'sym' else None

    def feed(self, e):
        """-> the table the event's tokens are to be resolved with, or None if the event is not for the user"""
        if self.lst is not None:
            self.lst.append(e)
            if e[0] == 'END' and e[2] == 0:
                self.table = self.build(self.lst)
                self.lst = None
            return None
        if e[0] == 'IVM':
            self.table = Table()
            return None
        if e[0] == 'START' and e[2] == 0 and e[1] == 'STRUCT' and e[4] and self.name(e[4][0]) == '$ion_symbol_table':
            self.lst = []
            return None
        if e[0] == 'SCALAR' and e[3] == 0 and e[1] == 'SYMBOL' and not e[5] and e[2] is not None and self.name(e[2]) == '$ion_1_0':
            return None
        return self.table

    def build(self, evs):
        symbols, imports = [], None
        i = 0
        while i < len(evs) - 1:
            e = evs[i]
            body, j = self.inside(evs, i)
            f = self.name(e[3 if e[0] == 'START' else 4])
            if f == 'symbols' and e[0] == 'START' and e[1] == 'LIST':
                symbols = [x[2][1] if x[0] == 'SCALAR' and x[1] == 'STRING' and x[2] is not None else None for x, _ in self.items(body)]
            if f == 'imports':
                if e[0] == 'START' and e[1] == 'LIST':
                    imports = []
                    for x, b in self.items(body):
                        if x[0] == 'START' and x[1] == 'STRUCT':
                            imports += self.imported(b)
                elif e[0] == 'SCALAR' and e[1] == 'SYMBOL' and e[2] is not None and self.name(e[2]) == '$ion_symbol_table':
                    imports = self.table.entries[len(SYSTEM):]
            i = j
        t = Table()
        t.system = False
        t.entries += imports or []
        t.entries += [(s, None) for s in symbols]
        return t

    def inside(self, evs, i):
        """Events within the value at i, and the position after it."""
        if evs[i][0] != 'START':
            return [], i + 1
        d, j = evs[i][2], i + 1
        while not (evs[j][0] == 'END' and evs[j][2] == d):
            j += 1
        return evs[i + 1:j], j + 1

    def items(self, body):
        i = 0
        while i < len(body):
            b, j = self.inside(body, i)
            yield body[i], b
            i = j

    def imported(self, body):
        d = {}
        for e, _ in self.items(body):
            f = self.name(e[3 if e[0] == 'START' else 4])
            if e[0] == 'SCALAR' and e[2] is not None and (f, e[1]) in (('name', 'STRING'), ('version', 'INT'), ('max_id', 'INT')):
                d[f] = e[2][1]
        if not d.get('name') or d['name'] == '$ion':
            return []
        v = d.get('version', 1)
        m = d.get('max_id')
        r = self.catalog.resolve(d['name'], 1 if v < 1 else v, None if m is not None and m < 0 else m)
        return [(t, (d['name'], k + 1)) for k, t in enumerate(r)]
