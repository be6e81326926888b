"""S01: what symbol IDs mean to the managed reader.  S02: symbol tables of the managed binary writer (symwr.py)."""
from checks import text, writer
import refsym

SETS = {'S01': ('rd-lists', 'rd-imports-0', 'rd-imports-1', 'rd-append', 'rd-order', 'rd-not-tables', 'rd-markers', 'rd-data', 'rd-late', 'rd-skip'),
        'S02': ('wr-uses', 'wr-imports', 'wr-any', 'wr-streams', 'wr-trees', 'wr-protocol')}
TABLES = (('foo', 1, ('f1', 'f2')), ('foo', 3, ('f1', 'f2', 'f3', 'f4')), ('bar', 1, ('b1', None, 'a', 'name')), ('big', 2, tuple('g%d' % i for i in range(12))))
TOP = 1 << 40


def world():
    return text.world()


def sy(t):
    return ('sym', t)


def sid(n):
    return ('sid', n)


def tok(t, by):
    """A system symbol by text or by ID"""
    return sid(refsym.SYSTEM.index(t) + 1) if by == 'sid' else sy(t)


def S(typ, v, d=0, f=None, a=()):
    return ('SCALAR', typ, v, d, f, tuple(a))


def box(typ, body, d, f=None, a=()):
    return [('START', typ, d, f, tuple(a))] + [x for b in body for x in b] + [('END', typ, d)]


def lst(*body, **k):
    return box('STRUCT', body, 0, None, (tok('$ion_symbol_table', k.get('by')),))


def element(x, d):
    if x is None:
        return [S('STRING', None, d)]
    if isinstance(x, str):
        return [S('STRING', ('str', x), d)]
    if x == 1:
        return [S('INT', ('int', 1), d)]
    if x == 2:
        return [S('NULL', None, d)]
    if x == 3:
        return box('LIST', [[S('STRING', ('str', 'nested'), d + 1)]], d)
    if x == 4:
        return box('STRUCT', [[S('STRING', ('str', 'nested'), d + 1, sy('a'))], box('LIST', [], d + 1, sy('b'))], d)
    if x == 5:
        return [S('SYMBOL', sy('a'), d)]
    if x == 6:
        return [S('STRING', ('str', 'a'), d, None, (sy('note'),))]
    raise KeyError(x)


def symbols(*els, **k):
    return box('LIST', [element(x, 2) for x in els], 1, tok('symbols', k.get('by')))


def imp(name=0, version=0, max_id=0, by=None, extra=()):
    """One import: 0 leaves the field out, None makes it null, ('T', ...) another type"""
    body = list(extra)
    for f, typ, kind, v in (('name', 'STRING', 'str', name), ('version', 'INT', 'int', version), ('max_id', 'INT', 'int', max_id)):
        if v == 0 and type(v) is int:
            continue
        fn = tok(f, by)
        if v is None:
            body.append([S(typ, None, 3, fn)])
        elif type(v) is tuple:
            body.append([S(v[0], v[1] if v[0] == 'SYMBOL' else v[1] and (v[0].lower(), v[1]), 3, fn)])
        else:
            body.append([S(typ, (kind, int(v) if kind == 'int' else v), 3, fn)])
    return box('STRUCT', body, 2)


def imports(*els, **k):
    return box('LIST', els, 1, tok('imports', k.get('by')))


def append(by=None):
    return [S('SYMBOL', tok('$ion_symbol_table', by), 1, tok('imports', by))]


def probes(d=0, f=None):
    """Uses of any symbol ID: as value, annotation and field name"""
    from symexp import AbsSid
    any_ = AbsSid(0, TOP)
    return [[S('SYMBOL', any_, d, f)], [S('INT', ('int', 1), d, f, (any_,))], box('STRUCT', [[S('INT', ('int', 1), d + 1, any_)]], d, f),
            box('LIST', [], d, f, (sy('x'), any_))]


def each(name, events, tables=TABLES, **k):
    return [('%s %d' % (name, i), events + p, tables, k.get('late', False), k.get('skip')) for i, p in enumerate(probes())]


def scripts(name, thorough):
    A = lst(symbols('a', 'b'))
    out = []
    if name == 'rd-lists':
        els = ['a', 'b', None, 1, 2, 3, 4, 5, 6, 'name', '']
        for by in (None, 'sid'):
            out += each('no symbols', lst(by=by)) + each('empty list', lst(symbols(by=by), by=by))
            for x in els:
                out += each('[%r]' % (x,), lst(symbols(x, by=by), by=by))
        for x in els:
            for y in els:
                out += each('[%r, %r]' % (x, y), lst(symbols(x, y)))
                if thorough:
                    for z in els:
                        out += each('[%r, %r, %r]' % (x, y, z), lst(symbols(x, y, z)))
                else:
                    out += each('[%r, %r, c]' % (x, y), lst(symbols(x, y, 'c')))
    elif name.startswith('rd-imports'):
        alone, pairs = [], []
        for n in ('foo', 'bar', 'none', '', '$ion', None, 0, ('SYMBOL', sy('foo')), ('INT', 1)):
            for v in (0, 1, 2, 3, None, -1, ('STRING', '3'), True):
                for m in (0, 1, 2, 3, 5, None, -1, ('STRING', '2')):
                    if v is True:
                        continue
                    if type(n) is tuple or n in (0, None, '', '$ion'):
                        if (v, m) not in ((0, 0), (1, 2), (3, 0)):
                            continue
                    alone.append(imp(n, v, m))
        zero = imp('foo', 1, 0, extra=([S('INT', ('int', 0), 3, sy('max_id'))],))
        few = [imp('foo', 1, 2), imp('foo', 3, 3), imp('bar', 1), imp('none', 1, 2), imp('none', 1), imp('foo', 2, 3), zero, imp(0), imp('big', 1, 14)]
        pairs = [(x, y) for x in few for y in few]
        if name.endswith('0'):
            for x in alone:
                t = '; '.join(str(e[4].__class__ and e[1:3]) for e in x if e[0] == 'SCALAR')
                out += each('import ' + t, lst(imports(x), symbols('a')))[:4 if thorough else 2]
        else:
            for x, y in pairs:
                out += each('imports', lst(imports(x, y), symbols('a', 'f1')))[:4 if thorough else 2]
            for x in few:
                out += each('import by ID', lst(imports(imp('foo', 1, 3, by='sid'), by='sid'), symbols('a', by='sid'), by='sid'))[:2]
                out += each('strange import', lst(imports([S('INT', ('int', 1), 2)], x, box('LIST', [x[:0]], 2), [S('STRUCT', None, 2)]), symbols('a')))
                out += each('import with more', lst(imports(imp('foo', 1, 2, extra=(
                    [S('STRING', ('str', 'x'), 3, sy('other'))], box('STRUCT', [[S('STRING', ('str', 'bar'), 4, sy('name'))]], 3, sy('name')),
                    box('LIST', [[S('INT', ('int', 3), 4)]], 3, sy('version')))), x), symbols('a')))[:2]
    elif name == 'rd-append':
        I = lst(imports(imp('foo', 1, 3), imp('bar', 1)), symbols('a', None, 'f2'))
        for by in (None, 'sid'):
            for pre in ([], A, I, A + lst(append(), symbols('c')), I + lst(append(by), symbols('b')) + lst(append(by))):
                for body in ((append(by),), (append(by), symbols('d', by=by)), (symbols('d'), append(by)), (append(by), symbols(None, 'a'))):
                    out += each('append', pre + lst(*body, by=by))
        for x in (S('SYMBOL', sy('$ion'), 1, sy('imports')), S('SYMBOL', None, 1, sy('imports')), S('STRING', ('str', '$ion_symbol_table'), 1, sy('imports')),
                  S('LIST', None, 1, sy('imports')), S('SYMBOL', sid(4), 1, sy('imports'))):
            out += each('no append', A + lst([x], symbols('d')))
    elif name == 'rd-order':
        X = imp('foo', 1, 3)
        for body in ((symbols('a', 'b'), imports(X)), (imports(X), symbols('a', 'b')), (symbols('a'),), (imports(X),), (symbols('a'), append())):
            for extra in ([S('INT', ('int', 1), 1, sy('other'))], box('LIST', [[S('STRING', ('str', 'z'), 2)]], 1, sy('other')),
                          box('STRUCT', [[S('STRING', ('str', 'z'), 2, sy('symbols'))], box('LIST', [[S('STRING', ('str', 'y'), 3)]], 2, sy('symbols'))], 1, sy('other')),
                          [S('STRING', ('str', 'x'), 1, sy('name'))], box('SEXP', [[S('STRING', ('str', 'z'), 2)]], 1, sy('other'))):
                for k in range(len(body) + 1):
                    b = list(body)
                    b.insert(k, extra)
                    out += each('fields', lst(*b))[:2]
        for odd in ([S('LIST', None, 1, sy('symbols'))], [S('STRING', ('str', 'z'), 1, sy('symbols'))], box('SEXP', [[S('STRING', ('str', 'z'), 2)]], 1, sy('symbols')),
                    box('STRUCT', [[S('STRING', ('str', 'z'), 2, sy('a'))]], 1, sy('symbols'))):
            out += each('no list', A + lst(imports(X), odd))
        for odd in (box('SEXP', [X], 1, sy('imports')), box('STRUCT', [], 1, sy('imports'))):
            out += each('no imports', A + lst(odd, symbols('c')))
    elif name == 'rd-not-tables':
        t = sy('$ion_symbol_table')
        for by in ('sid', None):
            t = tok('$ion_symbol_table', by)
            inner = [symbols('c')]
            for pre in ([], A):
                out += each('second annotation', pre + box('STRUCT', inner, 0, None, (sy('x'), t)))
                out += each('more annotations', pre + box('STRUCT', inner, 0, None, (t, sy('x'))))
                out += each('list', pre + box('LIST', [[S('INT', ('int', 1), 1)]], 0, None, (t,)))
                out += each('null', pre + [S('STRUCT', None, 0, None, (t,))])
                out += each('no annotation', pre + box('STRUCT', inner, 0))
                out += each('symbol', pre + [S('SYMBOL', t)])
                out += each('nested', pre + box('LIST', [box('STRUCT', [], 1, None, (t,)), [S('SYMBOL', sid(2), 1)]], 0))
                out += each('nested', pre + box('STRUCT', [box('STRUCT', [[S('INT', ('int', 2), 2, sy('symbols'))]], 1, sid(7), (t,))], 0))
                out += each('string', pre + [S('STRING', ('str', '$ion_1_0'))])
    elif name == 'rd-markers':
        ivm = [('IVM',)]
        for pre in ([], A, lst(imports(imp('foo', 1, 2)))):
            for mid in (ivm, [S('SYMBOL', sid(2))], [S('SYMBOL', sy('$ion_1_0'))], [S('SYMBOL', sid(2), 0, None, (sy('x'),))], ivm + ivm, [S('SYMBOL', None)],
                        ivm + lst(append(), symbols('z')), ivm + lst(symbols('z')) + ivm, lst(symbols('$ion_1_0')) + [S('SYMBOL', sid(10))],
                        lst(symbols('$ion_symbol_table')) + box('STRUCT', [symbols('q')], 0, None, (sid(10),))):
                out += each('marker', pre + mid)
    elif name == 'rd-data':
        full = lst(imports(imp('foo', 1, 3), imp('bar', 1)), box('LIST', [], 1, sy('other')), symbols('a', 3, 'c')) + [S('SYMBOL', sid(13))]
        for k in range(len(full) + 1):
            ev = full[:k] + [('INC',)] + full[k:]
            out += each('data needed', ev)[:1]
            out += each('data needed', [('IVM',)] + ev[:k + 1] + [('INC',)] + ev[k + 1:] + [('INC',)])[1:2]
    elif name == 'rd-late':
        from symexp import AbsSid
        u = [S('SYMBOL', AbsSid(0, 14))]
        for a, b in ((A, lst(symbols('c'))), (A, lst(append(), symbols('c'))), (A, [('IVM',)]), (lst(imports(imp('foo', 1, 3))), lst(symbols('a', 'b', 'c')))):
            for p in probes():
                out.append(('kept', a + p + b + u, TABLES, True, None))
                out.append(('kept', a + u + b + p + a, TABLES, True, None))
            out.append(('kept', a + box('STRUCT', [[S('INT', ('int', 1), 1, sid(10), (sid(11),))], box('LIST', [u[:0] + [S('SYMBOL', sid(9), 2)]], 1, sid(9))], 0) + b, TABLES,
                        True, None))
    elif name == 'rd-skip':
        inner = box('STRUCT', [[S('SYMBOL', sid(10), 1, sid(11))], box('LIST', [[S('SYMBOL', sid(99), 2)]], 1, sid(4)), [S('INT', ('int', 1), 1, sid(5))]], 0)
        for pre in ([], A):
            for k in range(len(inner)):
                i = len(pre) + k
                if inner[k][0] == 'END' and inner[k][2] == 0:
                    continue
                out += [x[:4] + (i,) for x in each('skip', pre + inner)]
                out += [x[:4] + (i,) for x in each('skip', pre + inner + lst(symbols('n')))][:1]
    else:
        raise KeyError(name)
    return out


def ev_of(typ, v, exp, field=None, anns=()):
    from wrexp import Ev
    return Ev('%s %s%s%s' % (typ, show(exp), ' field ' + show(field) if field is not None else '', ' annotations ' + ' '.join(map(show, anns)) if anns else ''),
              'SCALAR', typ, v, exp, field, anns)


def show(t):
    from wrexp import Abs
    return 'any' if isinstance(t, Abs) else str(t)


def wsym(t, field=None, anns=()):
    """A symbol value: ('txt', text) as str, ('sym', text), ('sid', n) as token"""
    if not isinstance(t, tuple):
        return ev_of('SYMBOL', t, None, field, anns)
    return ev_of('SYMBOL', t[1] if t[0] == 'txt' else ('tok', t), ('sym', t[1]) if t[0] == 'txt' else t, field, anns)


def wint(field=None, anns=()):
    return ev_of('INT', 1, ('int', 1), field, anns)


def wstart(typ, field=None, anns=()):
    from wrexp import Ev
    return Ev('start %s %s %s' % (typ, show(field), ' '.join(map(show, anns))), 'CONTAINER_START', typ, None, None, field, anns)


IMPORTS = ((), (('foo', 1, ('f1', 'f2')),), (('foo', 3, ('f1', None, 'f1', 'a')), ('bar', 1, ('b1', 'a', 'name'))), (('none', 2, None, 3), ('foo', 1, ('f1',))),
           (('empty', 1, ()),), (('big', 5, tuple('g%d' % i for i in range(200))),))


def wscripts(name, thorough):
    from wrexp import Ev, AbsText
    end, se, ivm = Ev('end', 'CONTAINER_END', 'LIST'), Ev('STREAM_END', 'STREAM_END'), Ev('IVM', 'VERSION_MARKER')
    texts = ['a', 'b', 'name', '', u'\u20ac', 'f1', 'g150', 'symbols']
    out = []
    T = lambda *b: [wstart('STRUCT')] + list(b) + [end]
    if name == 'wr-uses':
        toks = [('txt', 'a'), ('sym', 'a'), ('txt', ''), ('sym', ''), ('txt', 'name'), ('sym', 'name'), ('sid', 4), ('sid', 0), ('sym', 'f1'), ('full', 'a', 99),
                ('full', 'name', 12)]
        for imp_ in IMPORTS[:4]:
            for t in toks + [('sid', 10), ('sid', 11)] * (imp_ != ()):
                for u in toks:
                    out += [[wsym(u), wsym(t)], [wint(None, (u, t))], T(wint(u), wint(t)), T(wsym(t, u, (t,)), wint(t, (u,))),
                            [wstart('LIST', None, (t, u)), wsym(u), end], T(wstart('STRUCT', t, (u,)), wint(u), end)]
                out = [x if type(x) is tuple else (x, imp_) for x in out]
            n = 9 + sum(len(x[2]) if x[2] is not None else x[3] for x in imp_)
            out += [([wsym(('sid', n + 1))], imp_), ([wint(None, (('sid', n + 1),))], imp_), (T(wint(('sid', n + 500))), imp_)]
    elif name == 'wr-imports':
        for imp_ in IMPORTS:
            seqs = [[a, b, c] for a in texts for b in texts for c in texts[:3 if not thorough else 8]]
            out += [([wsym(('sym', t)) for t in q] + T(wint(('sym', q[0])), wint(('txt', q[2]))), imp_) for q in seqs]
            n = 9 + sum(len(x[2]) if x[2] is not None else x[3] for x in imp_)
            out += [([wsym(('sid', k)), wsym(('sym', 'new')), wint(None, (('sid', k),))], imp_) for k in list(range(n + 1))[:20] + [n] if k != 2]
            out += [([], imp_), ([wint()], imp_), ([ivm], imp_), ([wstart('LIST'), end], imp_)]
        out += [([wsym(('sym', 't%d' % k)) for k in range(n)] + [wint(None, tuple(('sym', 't%d' % k) for k in range(0, n, 7)))], imp_)
                for n in (60, 110, 120, 130, 260) for imp_ in IMPORTS[:2]]
    elif name == 'wr-any':
        for imp_ in IMPORTS[:4]:
            for n in (0, 1, 2):
                t, u = AbsText(n, token=True), AbsText(1, token=True)
                f, g = AbsText(n), AbsText(1)
                out += [([wsym(t)], imp_), ([wsym(t), wsym(u)], imp_), ([wsym(t), wsym(('sym', 'f1')), wsym(u), wsym(('sym', 'a'))], imp_),
                        ([wint(None, (f, g)), wint(None, (('sym', 'f1'), g))], imp_), (T(wint(f, (g,)), wsym(('sym', 'a'), g), wint(('sym', 'a'))), imp_),
                        ([wstart('SEXP', None, (f,))] + T(wint(g)) + [end] + [wsym(t)] * (n < 2), imp_)]
    elif name == 'wr-streams':
        bodies = [[], [wint()], [wsym(('sym', 'a'))], T(wint(('txt', 'b'))), [wsym(('sym', 'b')), wsym(('sym', 'a'))], [ivm], [ivm, wsym(('sym', 'a'))],
                  [ivm, ivm, wsym(('sid', 4))], [wint(None, (('sym', 'f1'), ('sym', 'b')))]]
        for imp_ in IMPORTS[:2]:
            out += [(a + [se] + b + [se] + c, imp_) for a in bodies for b in bodies for c in (bodies if thorough else bodies[1:5])]
    elif name == 'wr-trees':
        for imp_ in IMPORTS[:2]:
            for q in writer.trees(3, 'LST', ((), (('sym', 'a'),))):
                q = [e.with_(e.field and ('txt', 'f%d' % e.field[1]), e.anns) if e.et != 'CONTAINER_END' else e for e in q]
                out.append((q, imp_))
        for imp_ in IMPORTS:
            for v in (('STRING', 'abc', ('str', 'abc')), ('STRING', None, None), ('SYMBOL', None, None), ('BOOL', True, ('bool', True)), ('NULL', None, None),
                      ('STRUCT', None, None), ('LIST', None, None), ('INT', -300, ('int', -300))):
                for anns in ((), (('sym', 'x'),), (('txt', 'x'), ('sym', 'y'), ('txt', 'x'))):
                    out += [([ev_of(v[0], v[1], v[2], None, anns)], imp_), (T(ev_of(v[0], v[1], v[2], ('txt', 'k'), anns), ev_of(v[0], v[1], v[2], ('sym', 'k'))), imp_)]
            for dup in ('a', 'name', 'f1'):
                out.append((T(wint(('txt', dup)), wint(('sym', dup)), wint(('txt', dup), (('sym', dup),))), imp_))
    elif name == 'wr-protocol':
        for imp_ in IMPORTS[:2]:
            out += [([ivm, wint(), ivm], imp_), ([wint(), ivm], imp_), ([wstart('LIST'), ivm], imp_), ([wstart('LIST'), se], imp_), ([end], imp_), ([ivm, end], imp_),
                    ([wsym(('sym', 'a')), end], imp_), (T(wint(('sym', 'a'))) + [end], imp_), (T(wint(('sym', 'a'))) + [se, ivm, wint(), se, wsym(('sym', 'c'))], imp_)]
    else:
        raise KeyError(name)
    return out


def explore(name, budget, thorough=False):
    from symexp import ReadScript
    if name.startswith('wr-'):
        from symwr import WriteScript
        s = wscripts(name, thorough)
        e = WriteScript(world(), budget, name == 'wr-protocol').run(s)
        r = writer.result(name, e)
        r['scripts'] = len(s)
        return r
    e = ReadScript(world(), budget)
    s = scripts(name, thorough)
    e.run(s)
    return dict(name=name, complete=e.complete, scripts=len(s), states=len(e.nodes), transitions=e.trans, agree=e.agree, completes=e.completes,
                wall=round(e.wall, 1), unknown=e.unknown, badprobe=[], viol=[k + tuple(v) for k, v in e.viol.items()], functions=sorted(e.functions))


def job(a):
    try:
        return explore(*a)
    except Exception as x:
        import traceback
        return dict(name=a[0], error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    return writer.run_sets(prop, tier, SETS[prop], job, EXPL[prop], RULE[prop], 'reading' if prop == 'S01' else 'writing')


EXPL = {'S01': 'Abstract interpretation of the managed reader, its symbol table handlers, the catalog and the tables from the source on scripts of '
               'raw events (local symbol tables of every shape in which the fields and elements vary, followed by uses of any symbol ID), '
               'with the IDs abstract: every path; the tokens delivered are compared with an independent model of Ion 1.0 symbol tables.'}
RULE = {'S01': 'each token delivered is the one the model gives for the table in effect where it was read; an ID that is not defined raises '
               'IonException; symbol tables and version markers are not delivered, everything else is'}
EXPL['S02'] = 'Abstract interpretation of the managed binary writer, its symbol table coroutine, the tables and the raw writer from the source on event ' \
    'scripts with symbols as text, tokens and IDs, abstract symbol texts, shared imports and several streams: every path; the octets are decoded by an ' \
    'independent decoder and their symbol IDs resolved by an independent model of Ion 1.0 symbol tables.'
RULE['S02'] = 'the events read back, symbols resolved, are the events written; every stream starts with one version marker and defines the symbols it uses; ' \
    'illegal events raise'
