"""E01: ion_equals is equality of the Ion data model."""
from decimal import Decimal as D
import datetime
import math
import struct

from checks import text, writer

SETS = ('eq-ion', 'eq-plain', 'eq-mixed', 'eq-seq', 'eq-struct', 'eq-anns', 'eq-any', 'eq-instants')


def world():
    return text.world()


# a value: ('ion', type, content, annotations) or ('plain', content); contents: see content()
TOK = lambda t: ('tok', ('sym', t))
LOC = ('foo', 1), ('foo', 2), ('bar', 1)


def ts(fields, frac=None, off=None):
    return ('ts', tuple(fields), frac, off)


def scalars():
    """(type, content)"""
    out = [('NULL', None), ('BOOL', True), ('BOOL', False)]
    out += [('INT', n) for n in (0, 1, -1, 256, 2 ** 53, 2 ** 53 + 1, 10 ** 20, 10 ** 20 + 1)]
    out += [('FLOAT', x) for x in (0.0, -0.0, 1.0, -1.0, 256.0, float('inf'), float('-inf'), float('nan'), 0.1, 1e300, 5e-324, -5e-324, 1.0000000000000002, 2.0 ** 53, 1e20)]
    out += [('DECIMAL', D(s)) for s in ('0', '-0', '0.0', '-0.0', '0E1', '1', '1.0', '-1', '256', '1E2', '100', '0.10', '0.1', '1.' + '0' * 31 + '1', '1.' + '0' * 31 + '2', '1' + '0' * 40, '1E+40', '1E-50', '9007199254740992', '9007199254740993')]
    out += [('STRING', s) for s in ('', 'a', 'b', 'null')] + [('SYMBOL', ('tok', ('sym', s))) for s in ('', 'a', 'b', 'null')]
    out += [('SYMBOL', ('tok', ('sid', n))) for n in (0, 10)] + [('SYMBOL', ('tok', ('loc', 12) + l)) for l in LOC]
    out += [(t, b) for t in ('CLOB', 'BLOB') for b in (b'', b'a', b'b')]
    out += [(t, None) for t in ('INT', 'BOOL', 'STRING', 'SYMBOL', 'LIST', 'STRUCT', 'TIMESTAMP', 'FLOAT')]
    out += [('TIMESTAMP', ts(f, None, o)) for f, o in (((2000,), None), ((2000, 1), None), ((2000, 1, 1), None), ((2000, 1, 1, 0, 0), None), ((2000, 1, 1, 0, 0), 0),
                                                       ((2000, 1, 1, 0, 0, 0), None), ((2000, 1, 1, 0, 0, 0), 0), ((2000, 1, 1, 1, 0, 0), 60), ((2000, 1, 1, 0, 0, 0), 60),
                                                       ((2000, 1, 1, 0, 0, 1), 0), ((2000, 1, 1, 12, 0, 0), -60), ((2000, 1, 2, 12, 0, 0), 1380),
                                                       ((2000, 1, 1, 14, 0, 0), 60), ((2001, 1, 1, 0, 0, 0), 0), ((2000, 2), None), ((2000, 1, 2), None), ((2000, 1, 1, 0, 1), 0))]
    out += [('TIMESTAMP', ts((2000, 1, 1, 0, 0, 0), f, o)) for f, o in (('123456', 0), ('0', 0), ('1', 0), ('10', 0), ('000000', 0), ('000000', None), ('100000', 0), ('1234567', 0),
                                                                       ('12345670', 0), ('1234568', 0), ('0000000', 0))]
    return out


def containers():
    i = lambda n: ('ion', 'INT', n, ())
    a = lambda n: ('ion', 'INT', n, (TOK('x'),))
    f = lambda x: ('ion', 'FLOAT', x, ())
    seqs = [(), (i(1),), (i(1), i(2)), (i(2), i(1)), (f(0.0),), (f(-0.0),), (a(1),), (('ion', 'LIST', (), ()),), (('ion', 'LIST', (i(1),), ()),), (('ion', 'SEXP', (), ()),), (i(1), i(1)),
            (i(1), i(2), i(3)), (i(1), i(4), i(3)), (i(1), i(2), a(3)), (('ion', 'LIST', (('ion', 'LIST', (i(1),), ()),), ()),), (('ion', 'LIST', (('ion', 'LIST', (a(1),), ()),), ()),)]
    out = [(t, s) for t in ('LIST', 'SEXP') for s in seqs]
    fs = [(), (('f', i(1)),), (('f', i(2)),), (('g', i(1)),), (('f', i(1)), ('g', i(2))), (('g', i(2)), ('f', i(1))), (('f', i(2)), ('g', i(1))), (('f', i(1)), ('f', i(1))),
          (('f', i(1)), ('f', i(2))), (('f', i(2)), ('f', i(1))), (('f', i(1)), ('f', i(2)), ('f', i(2))), (('f', i(1)), ('f', i(1)), ('f', i(2))), (('f', f(0.0)),), (('f', f(-0.0)),),
          (('f', a(1)),), (('f', i(1)), ('f', a(1))), (('f', i(1)), ('g', i(1)), ('f', i(2))), (('f', i(1)), ('g', i(2)), ('f', i(1))), (('f', ('ion', 'STRUCT', (('f', i(1)),), ())),),
          (('', i(1)),), ((None, i(1)),), (('f', ('ion', 'NULL', None, ())),), (('f', ('ion', 'INT', None, ())),),
          (('f', i(1)), ('f', i(2)), ('f', i(3))), (('f', i(3)), ('f', i(1)), ('f', i(2))), (('f', i(3)), ('f', i(1)), ('f', i(3))), (('f', i(1)), ('f', i(2)), ('g', i(3)), ('f', i(4))),
          (('f', i(4)), ('g', i(3)), ('f', i(2)), ('f', i(1))), (('f', ('ion', 'STRUCT', (('f', a(1)),), ())),)]
    return out + [('STRUCT', s) for s in fs]


ANN = ((), (TOK('x'),), (TOK('y'),), (TOK('x'), TOK('y')), (TOK('y'), TOK('x')), (TOK('x'), TOK('x')), (('txt', 'x'),), (('tok', ('sid', 0)),), (('tok', ('sid', 10)),), (('tok', ('loc', 12, 'foo', 1)),),
       (('tok', ('loc', 12, 'foo', 2)),), (('tok', ('loc', 30, 'foo', 1)),))


def bare(v):
    """The same value without Ion natures -> value or None"""
    _, t, c, a = v
    if a or c is None and t != 'NULL' or t in ('CLOB', 'SEXP'):
        return None
    if t == 'TIMESTAMP' and not (len(c[1]) == 6 and c[2] is not None and len(c[2]) == 6):
        return None
    if t == 'LIST':
        c = [bare(x) for x in c]
        return None if None in c else ('plain', c)
    if t == 'STRUCT':
        if len(set(k for k, _ in c)) < len(c):
            return None
        c = [(k, bare(x)) for k, x in c]
        return None if any(x is None for _, x in c) else ('plain', ('pairs', tuple(c)))
    return ('plain', c)


def tup(v):
    """Lists as tuples"""
    if v is None or v[0] != 'plain' or type(v[1]) is not list:
        return None
    return ('plain', tuple(tup(x) or x for x in v[1]))


# ---------------------------------------------------------------------------------------------- the model
def symkey(t):
    if t[0] == 'txt':
        return ('text', t[1])
    t = t[1]
    return ('text', t[1]) if t[0] == 'sym' else ('loc',) + t[2:] if t[0] == 'loc' else ('zero',) if t[1] == 0 else ('local',)


def mean(v):
    """-> (type, content, annotations) of the data model; plain text and lists have several possible types"""
    if v[0] == 'ion':
        _, t, c, a = v
        return t, c, tuple(symkey(x) for x in a)
    c = v[1]
    if c is None:
        return 'NULL', None, ()
    if type(c) is tuple and c[:1] == ('tok',):
        return 'SYMBOL', c, ()
    if type(c) is tuple and c[:1] == ('ts',):
        return 'TIMESTAMP', c, ()
    if type(c) is tuple and c[:1] == ('pairs',):
        return 'STRUCT', c[1], ()
    for k, t in ((bool, 'BOOL'), (int, 'INT'), (float, 'FLOAT'), (D, 'DECIMAL'), (str, 'STRING'), (bytes, 'BLOB'), ((list, tuple), 'LIST')):
        if isinstance(c, k):
            return t, c, ()
    raise KeyError(v)


def same(a, b):
    """True, False, or None where the documentation leaves it open"""
    (ta, ca, aa), (tb, cb, ab) = mean(a), mean(b)
    if aa != ab:
        return False
    if ta != tb:
        plains = [(v, t) for v, t in ((a, ta), (b, tb)) if v[0] == 'plain']
        other = tb if len(plains) == 1 and plains[0][0] is a else ta
        for v, t in plains:
            if (t, other) in (('STRING', 'SYMBOL'), ('BLOB', 'CLOB'), ('LIST', 'SEXP')) and len(plains) == 1:
                return None
        if len(plains) == 2 and set((ta, tb)) == {'STRING', 'SYMBOL'}:
            return None
        return False
    if ca is None or cb is None:
        return ca is None and cb is None
    if ta == 'FLOAT':
        return ca != ca and cb != cb or struct.pack('>d', ca) == struct.pack('>d', cb)
    if ta == 'DECIMAL':
        return ca.as_tuple() == cb.as_tuple()
    if ta == 'SYMBOL':
        return symkey(ca) == symkey(cb)
    if ta in ('LIST', 'SEXP'):
        return len(ca) == len(cb) and all3(same(x, y) for x, y in zip(ca, cb))
    if ta == 'STRUCT':
        if len(ca) != len(cb):
            return False
        rest = list(cb)
        for k, x in ca:
            for i, (l, y) in enumerate(rest):
                r = same(x, y) if k == l else False
                if r is None:
                    return None
                if r:
                    del rest[i]
                    break
            else:
                return False
        return True
    return ca == cb


def all3(rs):
    out = True
    for r in rs:
        if r is False:
            return False
        if r is None:
            out = None
    return out


def instant(v):
    _, f, frac, off = v[2] if v[0] == 'ion' else v[1]
    f = list(f) + [1] * (3 - len(f))
    f += [0] * (6 - len(f))
    t = datetime.datetime(*f) - datetime.timedelta(minutes=off or 0)
    return t, (frac or '').ljust(6, '0')[:6]


# ---------------------------------------------------------------------------------------------- pairs
def ions():
    return [('ion', t, c, ()) for t, c in scalars() + containers()]


def pairs(name, thorough):
    """[(a, b, expected, instants only)]"""
    out = []
    I = ions()
    if name == 'eq-ion':
        out = [(a, b) for i, a in enumerate(I) for j, b in enumerate(I) if thorough or a[1] == b[1] or (i * 7 + j) % 5 == 0]
    elif name in ('eq-plain', 'eq-mixed'):
        P = [p for v in I for b in (bare(v),) for p in (b, tup(b)) if p is not None]
        Q = P if name == 'eq-plain' else I
        out = [(a, b) for i, a in enumerate(P) for j, b in enumerate(Q) if thorough or mean(a)[0] == mean(b)[0] or a[0] == b[0] or (i * 3 + j) % 2 == 0]
    elif name == 'eq-seq':
        w = (lambda x: ('ion', 'LIST', (x,), ()), lambda x: ('plain', [x]), lambda x: ('plain', (x,)), lambda x: ('ion', 'SEXP', (x,), ()))
        out = [(f(a), g(b)) for i, a in enumerate(I) for j, b in enumerate(I) if a[1] == b[1] for f, g in ((w[(i + j) % 4], w[(i + j) % 4]), (w[0], w[1]), (w[1], w[2]))]
    elif name == 'eq-struct':
        w = lambda x: ('ion', 'STRUCT', (('f', x), ('g', ('ion', 'INT', 1, ()))), ())
        p = lambda x: ('plain', ('pairs', (('g', ('ion', 'INT', 1, ())), ('f', x))))
        m = lambda x, y: ('ion', 'STRUCT', (('f', x), ('f', y)), ())
        for i, a in enumerate(I):
            for j, b in enumerate(I):
                if a[1] == b[1]:
                    out += [(w(a), w(b)), (p(a), p(b)), (w(a), p(b))][(i + j) % 3:][:1] + [(m(a, b), m(b, a)), (m(a, b), m(a, a))]
    elif name == 'eq-anns':
        for t, c in (('INT', 1), ('STRING', 'a'), ('NULL', None), ('INT', None), ('LIST', ()), ('STRUCT', ()), ('SYMBOL', TOK('a'))) + ((('TIMESTAMP', ts((2000, 1, 1, 0, 0, 0), '000000')), ('FLOAT', 1.0), ('DECIMAL', D(1)))):
            for x in ANN:
                for y in ANN:
                    out.append((('ion', t, c, x), ('ion', t, c, y)))
                p = bare(('ion', t, c, ()))
                if p is not None:
                    out.append((('ion', t, c, x), p))
    elif name == 'eq-instants':
        T = [v for v in I if v[1] == 'TIMESTAMP' and v[2] is not None]
        T += [b for v in T for b in (bare(v),) if b]
        return [(a, b, instant(a) == instant(b), True) for a in T for b in T if not any(c[2] and len(c[2]) > 6 for c in (a[-1] if a[0] == 'plain' else a[2], b[-1] if b[0] == 'plain' else b[2]))] + \
            [(a, b, same(a, b), True) for i, a in enumerate(I) for j, b in enumerate(I) if a[1] != 'TIMESTAMP' and (i + j) % 4 == 0]
    return [(a, b, same(a, b), False) for a, b in out]


def explore(name, budget, thorough=False):
    import eqexp
    e = eqexp.EqScript(world(), budget)
    s = eqexp.ANY if name == 'eq-any' else pairs(name, thorough)
    e.run(s)
    return dict(name=name, complete=e.complete, scripts=len(s), states=len(e.nodes), transitions=e.trans, agree=e.agree, completes=e.completes,
                wall=round(e.wall, 1), unknown=e.unknown, badprobe=[], viol=[k + tuple(v) for k, v in e.viol.items()], functions=sorted(e.functions))


def job(a):
    try:
        return explore(*a)
    except Exception as x:
        import traceback
        return dict(name=a[0], error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    return writer.run_sets(prop, tier, SETS, job, EXPL, RULE, 'comparing')


EXPL = 'Abstract interpretation of ion_equals on pairs of values with and without Ion nature, of every type, nested and annotated, some with abstract content: every path; ' \
    'the result is compared with an independent model of equality in the Ion data model, in both orders of the operands.'
RULE = 'the result is the model\'s, whatever the order of the operands; nothing raises'
