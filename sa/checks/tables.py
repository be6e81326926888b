"""S03: symbol tables and the catalog, through their own interface."""
import itertools

from checks import text, writer

SETS = ('tb-local', 'tb-shared', 'tb-derived', 'tb-intern', 'tb-equal', 'tb-catalog')


def world():
    return text.world()


SYMS = [()] + [p for n in (1, 2, 3) for p in itertools.product(('a', 'b', None), repeat=n)] + [('',), ('name',), ('a', 'name', '', '$ion'), (5,), ('a', b'b'), ('a', 'a', 'a', 'a')]


def sh(name, version, *symbols):
    return ('shared', name, version, symbols, None)


TABLES = [sh('t', 1, 'a', 'b'), sh('t', 2, 'b', 'c', 'a'), sh('u', 1, 'a'), sh('u', 1), sh('v', 3, None, 'c', None, 'c'), ('place', 'p', 1, 2), ('sub', sh('t', 1, 'a', 'b'), 2, 1),
          ('sub', sh('t', 1, 'a', 'b'), 3, 4), ('shared', 'w', 1, ('c',), (sh('t', 1, 'a', 'b'), sh('u', 1, 'a'))), ('system',), ('local', None, ('a', 'x')),
          ('local', (sh('u', 1, 'a'),), ('c',))]


def scripts(name, thorough):
    out = []
    if name == 'tb-local':
        imps = [None, ()] + [(t,) for t in TABLES] + [p for p in itertools.product(TABLES, repeat=2)]
        for i, imp in enumerate(imps):
            for j, s in enumerate(SYMS if i < 2 or thorough else [(), ('a',), ('c', None, 'd')]):
                if len(imp or ()) < 2 or thorough or (i + j) % 3 == 0:
                    out.append(('table', ('local', imp, s)))
    elif name == 'tb-shared':
        for n, v in itertools.product(('t', '', None, b't', '$ion'), (None, -1, 0, 1, 2)):
            for s in (SYMS if (n, v) == ('t', 1) or thorough else SYMS[:3]):
                out.append(('table', ('shared', n, v, s, None)))
        for k, imp in enumerate([(t,) for t in TABLES if t[0] != 'system'] + [p for p in itertools.product([t for t in TABLES if t[0] not in ('system', 'local')], repeat=2)]):
            for s in ((), ('a', 'z')):
                if len(imp) < 2 or thorough or k % 3 == 0:
                    out.append(('table', ('shared', 's', 1, s, imp)))
    elif name == 'tb-derived':
        for v in (-1, 0, 1, 5):
            for n in (-1, 0, 1, 2, 3, 4, 7):
                out.append(('table', ('place', 'p', v, n)))
                for t in TABLES:
                    out.append(('table', ('sub', t, v, n)))
    elif name == 'tb-intern':
        for t in [('local', None, ()), ('local', None, ('a',)), ('local', (TABLES[0], TABLES[4]), ('b',)), ('local', (TABLES[5],), (None,))] + TABLES:
            for n in range(4 if t[0] == 'local' else 2):
                for s in itertools.product(('a', 'z', 'name', 'c', '', None, b'a'), repeat=n):
                    if n < 3 or thorough or len(set(s)) < 3:
                        out.append(('table', t, s))
    elif name == 'tb-equal':
        ts = TABLES + [sh('t', 1, 'a', 'b'), sh('t', 1, 'a', 'b', None), sh('t', 1, 'a', 'c'), sh('t', 1, None, 'b'), sh('v', 1, 'a', 'b'), ('place', 't', 1, 2), sh('t', 1, None, None), ('local', None, ('a', 'x')),
                       ('local', None, ('a', 'x', None)), ('local', None, ()), ('sub', sh('t', 1, 'a', 'b'), 1, 2), ('local', (sh('x', 1, 'a'),), ('x',)), ('local', (sh('u', 1, 'a'),), ('c',)),
                       ('local', (sh('u', 1, None),), ()), ('local', None, (None,))]
        out = [('equal', a, b) for i, a in enumerate(ts) for b in ts[i:]]
    else:
        regs = [(), (TABLES[0],), (TABLES[1],), (TABLES[0], TABLES[1]), (TABLES[1], TABLES[0]), (sh('t', 10, 'x'), sh('t', 9, 'y', 'z'), TABLES[0]), (TABLES[0], sh('t', 1, 'n')),
                (TABLES[0], TABLES[2]), (TABLES[3],), (TABLES[0], TABLES[6]), (TABLES[9],), (TABLES[10], TABLES[0]), (TABLES[5],), (TABLES[8],), (TABLES[4],), (sh('t', 2), TABLES[0])]
        for r in regs:
            for n in ('t', 'u', 'v', 'w', 'p', '$ion', 't ', None, b't'):
                for v in (1, 2, 3, 9, 0, -1, None, 1.0):
                    for k in (None, 0, 1, 2, 3, 5, -1):
                        if thorough or n in ('t', 'v') and v in (1, 2, 3) or k in (None, 2):
                            out.append(('catalog', r, (n, v, k)))
    return [(str(s[1:])[:130],) + s for s in out]


def explore(name, budget, thorough=False):
    import tabexp
    e = tabexp.TableScript(world(), budget)
    s = scripts(name, thorough)
    e.run(s)
    return dict(name=name, complete=e.complete, scripts=len(s), states=len(e.nodes), transitions=e.trans, agree=e.agree, completes=e.completes,
                wall=round(e.wall, 1), unknown=e.unknown, badprobe=[], viol=[k + tuple(v) for k, v in e.viol.items()], functions=sorted(e.functions))


def job(a):
    try:
        return explore(*a)
    except Exception as x:
        import traceback
        return dict(name=a[0], error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    return writer.run_sets(prop, tier, SETS, job, EXPL, RULE, 'using')


EXPL = 'Abstract interpretation of the symbol table constructors, lookups, intern, comparison and the catalog on all tables, pairs of tables and registrations of listed shapes, ' \
    'each followed by all observations; compared with an independent model.'
RULE = 'tokens, IDs, import locations, lookups by ID and by text, errors and the table chosen by the catalog are the model\'s'
