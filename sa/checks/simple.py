"""L01: load builds the values a document holds.  L02: dump writes the events a value stands for."""
from decimal import Decimal as D

from checks import text, writer, wvalues

SETS = {'L01': ('ld-bin', 'ld-text', 'ld-str', 'ld-trees', 'ld-single', 'ld-cut', 'ld-fields'),
        'L02': ('dp-plain-bin', 'dp-plain-text', 'dp-ion-bin', 'dp-ion-text', 'dp-trees', 'dp-options', 'dp-fields')}


def world():
    return text.world()


def sy(t):
    return ('sym', t)


# ---------------------------------------------------------------------------------------------- load
def loadable():
    """(type, value) of every form of scalar"""
    from simexp import Text, Digits
    out = [(e.it, frac(e.exp)) for e in wvalues.scalars() + wvalues.times()]
    out = [(t, v) for t, v in out if v != ('sid', 10) and not (v and v[0] == 'dec' and v[1].adjusted() > 900) and not (t == 'TIMESTAMP' and v and not legal_ts(v))]
    out += [('STRING', ('str', Text(n))) for n in (0, 1, 3)] + [('SYMBOL', ('sym', Text(n))) for n in (1, 2)] + [('CLOB', ('clob', Text(2)))]
    out += [('INT', Digits(n)) for n in (1, 2, 5)]
    return out


def frac(v):
    """Timestamps with the fraction as Decimal and no offset where there is no time"""
    if not v or v[0] != 'ts':
        return v
    return v[:2] + (None if v[2] is None else D((0, tuple(map(int, v[2])), -len(v[2]))), None if v[3] == 'none' else v[3])


def legal_ts(v):
    f = v[1]
    return not (v[3] and (f[0] <= 1 or f[0] >= 9999)) and (v[3] is None or len(f) > 3)


def S(t, v, d=0, f=None, a=()):
    return ('SCALAR', t, v, d, f, tuple(a))


def wrap(typ, d, f, a, *body):
    return [('START', typ, d, f, tuple(a))] + [x for b in body for x in b] + [('END', typ, d)]


ANNS = ((), (sy('a'),), (sy('b'), sy(''), sy('b')), (('sid', 0), sy('x')))


def places(t, v):
    """The scalar at the top level, in lists, expressions and structs"""
    one = S('INT', ('int', 1))
    out = [[S(t, v, 0, None, a)] for a in ANNS[:3]] + [[S(t, v), one, S(t, v, 0, None, ANNS[1])]]
    out.append(wrap('LIST', 0, None, ANNS[1], [S(t, v, 1)], [S(t, v, 1, None, ANNS[2])]))
    out.append(wrap('SEXP', 0, None, (), [S(t, v, 1, None, ANNS[1])], [S(t, v, 1)]))
    out.append(wrap('STRUCT', 0, None, (), [S(t, v, 1, sy('f'), ANNS[1])], [S(t, v, 1, sy('g'))], [S(t, v, 1, sy('f'))]))
    return out


def trees(n):
    """All trees of n containers, some annotated, with a scalar or nothing in each"""
    def kids(n, d, typ):
        f = (lambda k: sy('f%d' % k)) if typ == 'STRUCT' else (lambda k: None)
        if n == 0:
            yield []
            yield [S('INT', ('int', d), d, f(0))]
            return
        for k in range(1, n + 1):
            for x in tree(k, d, f(0), ()):
                for y in kids(n - k, d, typ):
                    yield x + y
            if k == n:
                for x in tree(k, d, f(1), (sy('a'),)):
                    yield [S('STRING', ('str', 'x'), d, f(0))] + x + [S('NULL', None, d, f(1))]

    def tree(n, d, f, a):
        for typ in ('LIST', 'SEXP', 'STRUCT'):
            for b in kids(n - 1, d + 1, typ):
                yield wrap(typ, d, f, a, b)
    return list(tree(n, 0, None, (sy('t'),)))


def loads(name, thorough):
    out = []
    if name in ('ld-bin', 'ld-text', 'ld-str'):
        modes = {'ld-bin': ('bin', 'bins'), 'ld-text': ('text', 'texts'), 'ld-str': ('str', 'strs')}[name]
        for i, (t, v) in enumerate(loadable()):
            for j, evs in enumerate(places(t, v)):
                if name == 'ld-text' and any(ord(c) > 126 for c in repr(v)) or thorough is None:
                    continue
                out.append(('%s %s' % (t, show(v)), evs, modes[(i + j) % 2]))
    elif name == 'ld-trees':
        for k in (1, 2, 3) + ((4,) if thorough else ()):
            for i, evs in enumerate(trees(k)):
                out.append(('tree', evs + [S('INT', ('int', 7))], ('bin', 'text', 'str')[i % 3]))
    elif name == 'ld-single':
        one = S('INT', ('int', 1))
        for mode in ('bin', 'text', 'str', 'bins', 'texts', 'strs'):
            out += [('no value', [], mode, False), ('no value', [], mode, True, 'IonException'), ('two values', [one, one], mode, True, 'IonException'),
                    ('null, null', [S('NULL', None), S('NULL', None)], mode, True, 'IonException'),
                    ('list, list', wrap('LIST', 0, None, ()) * 2, mode, True, 'IonException')]
            for t, v in (('INT', ('int', 0)), ('NULL', None), ('STRING', None), ('STRING', ('str', '')), ('BOOL', ('bool', False)), ('LIST', None), ('SYMBOL', sy('x'))):
                out += [('one value', [S(t, v, 0, None, a)], mode, True) for a in ANNS[:2]]
            out += [('one container', wrap(t, 0, None, (), [S('INT', ('int', 1), 1, sy('f') if t == 'STRUCT' else None)]), mode, True) for t in ('LIST', 'SEXP', 'STRUCT')]
            out += [('an empty container', wrap(t, 0, None, ()), mode, True) for t in ('LIST', 'SEXP', 'STRUCT')]
    elif name == 'ld-cut':
        import docs
        evs = wrap('STRUCT', 0, None, (), wrap('LIST', 1, sy('f'), (sy('a'),), [S('INT', ('int', 12), 2)], [S('STRING', ('str', 'xy'), 2)]), [S('SYMBOL', sy('s'), 1, sy('g'))])
        for mode in ('text', 'str', 'texts', 'strs'):
            for cut in range(1, len(docs.text(evs))):
                out += [('a struct cut after %d characters' % cut, evs, mode, single, 'IonException', cut) for single in (False, True)[:1 + (cut % 5 == 0)]]
    elif name == 'ld-fields':
        from simexp import Text
        for mode in ('bin', 'text', 'str'):
            for names in (('a', 'a', 'a'), ('a', 'b', 'a'), ('b', 'a', 'a', 'b'), ('', 'a', ''), ('name', 'x y', 'null'), (Text(1), 'ab', 'ab'), ('ab', Text(2))):
                fs = [sy(n) for n in names]
                if any(isinstance(n, Text) for n in names) and mode != 'bin':
                    fs = fs[:]
                for v in (('INT', 'int'), ('SYMBOL', None)):
                    body = [[S(v[0], v[1] and ('int', k), 1, f)] for k, f in enumerate(fs)]
                    out.append(('fields %s' % (names,), wrap('STRUCT', 0, None, (), *body), mode))
                out.append(('fields', wrap('STRUCT', 0, None, (), *[wrap('STRUCT', 1, f, (), [S('INT', ('int', k), 2, sy('a'))]) for k, f in enumerate(fs)]), mode))
            for fs in ((('sid', 0),), (('sid', 0), sy('a'), ('sid', 0)), (sy('a'), ('sid', 0))):
                out.append(('unknown field', wrap('STRUCT', 0, None, (), *[[S('INT', ('int', k), 1, f)] for k, f in enumerate(fs)]), mode))
    else:
        raise KeyError(name)
    return out


# ---------------------------------------------------------------------------------------------- dump
def plain():
    """(Python value, type, expected value) that need no annotations"""
    from wrexp import Call
    P = lambda v: v
    out = []
    for e in wvalues.scalars() + wvalues.times():
        if e.it in ('CLOB', 'SYMBOL') or e.exp is None and e.it != 'NULL' or e.exp and e.exp[0] == 'dec' and e.exp[1].adjusted() > 900:
            continue
        out.append((e.value, e.it, e.exp))
    for t in ('a', '', 'null', '$10'):
        out.append((('tok', ('sym', t)), 'SYMBOL', ('sym', t)))
    out.append((('tok', ('sid', 0)), 'SYMBOL', ('sid', 0)))
    return out


def ions():
    out = []
    for e in wvalues.scalars() + wvalues.times():
        if e.exp and (e.exp == ('sid', 10) or e.exp[0] == 'dec' and e.exp[1].adjusted() > 900):
            continue
        out.append((e.value, e.it, e.exp))
    return out


def form(exp, binary):
    """Expected values in the form the reader of the output uses"""
    if not binary or exp is None:
        return exp
    return exp


def legal(e, binary):
    from wrexp import Ev
    return not binary or bool(writer.legal_binary([Ev('', 'SCALAR', e[1], e[0], e[2])]))


def dumps(name, thorough):
    out = []
    binary = name.endswith('bin')
    opts = dict(binary=binary)
    IT = {'LIST': list, 'SEXP': list}
    ion = lambda t, v, a=(): ('ion', t, v, a)
    pl = lambda v: ('plain', v)
    one = S('INT', ('int', 1))
    if name.startswith('dp-plain'):
        for v, t, x in [e for e in plain() if legal(e, binary)]:
            out.append(('plain %s %s' % (t, show(x)), pl(v), [S(t, x)], opts))
            out.append(('plain list of %s %s' % (t, show(x)), pl([pl(v), pl([]), pl(v)]),
                        wrap('LIST', 0, None, (), [S(t, x, 1)], wrap('LIST', 1, None, ()), [S(t, x, 1)]), opts))
            out.append(('plain dict of %s %s' % (t, show(x)), pl({'f': pl(v), 'g': pl((pl(v),))}),
                        wrap('STRUCT', 0, None, (), [S(t, x, 1, sy('f'))], wrap('LIST', 1, sy('g'), (), [S(t, x, 2)])), opts))
    elif name.startswith('dp-ion'):
        for v, t, x in [e for e in ions() if legal(e, binary)]:
            if isinstance(v, tuple) and v[:1] == ('tok',) and v[1][0] == 'txt':
                continue
            for a in ANNS[:3] + ((('txt', 'a'), sy('b')),):
                an = tuple(sy(y[1]) if y[0] == 'txt' else y for y in a)
                out.append(('%s %s' % (t, show(x)), ion(t, v, a), [S(t, x, 0, None, an)], opts))
            a = ANNS[1]
            out.append(('list of %s %s' % (t, show(x)), ion('LIST', [ion(t, v, a), ion(t, v)], a), wrap('LIST', 0, None, a, [S(t, x, 1, None, a)], [S(t, x, 1)]), opts))
            out.append(('sexp of %s %s' % (t, show(x)), ion('SEXP', [ion(t, v), ion(t, v, a)]), wrap('SEXP', 0, None, (), [S(t, x, 1)], [S(t, x, 1, None, a)]), opts))
            out.append(('struct of %s %s' % (t, show(x)), ion('STRUCT', ('multi', (('f', ion(t, v, a)), ('g', ion(t, v)), ('f', ion(t, v)))), a),
                        wrap('STRUCT', 0, None, a, [S(t, x, 1, sy('f'), a)], [S(t, x, 1, sy('f'))], [S(t, x, 1, sy('g'))]), opts))
    elif name == 'dp-trees':
        for k in (1, 2, 3) + ((4,) if thorough else ()):
            for i, evs in enumerate(trees(k)):
                o, j = objects(evs, 0, False)
                out.append(('tree', o, evs, dict(binary=bool(i % 2))))
                if i % 3 == 0 or thorough:
                    evs = distinct(evs)
                    o, j = objects(evs, 0, True)
                    out.append(('plain tree', o, plain_events(evs), dict(binary=not i % 2, indent='  ' if i % 2 else None)))
    elif name == 'dp-fields':
        from simexp import Text
        for b in (True, False):
            for k in ('', None, 'a', 'name', 'x y', 'null', '$10', 'a\n', Text(1), Text(2)):
                for t, v, x in (('INT', 1, ('int', 1)), ('STRING', None, None), ('NULL', None, None), ('SYMBOL', ('tok', sy('q')), sy('q')), ('BOOL', True, ('bool', True))):
                    f = ('sid', 0) if k is None else sy(k)
                    for a in ANNS[:2]:
                        out.append(('field %s' % show(k), ion('STRUCT', ('multi', ((k, ion(t, v, a)), ('zzz', ion('INT', 1)), (k, ion(t, v)))), a),
                                    wrap('STRUCT', 0, None, a, [S(t, x, 1, f, a)], [S(t, x, 1, f)], [S('INT', ('int', 1), 1, sy('zzz'))]), dict(binary=b)))
                    if k is not None and (v is not None or t == 'NULL'):
                        for o in (pl(v), pl([pl(v)]), pl({'z': pl(v)})):
                            y = [S(t, x, 1, f)]
                            y = y if o[1] is v else wrap('LIST', 1, f, (), [S(t, x, 2)]) if type(o[1]) is list else wrap('STRUCT', 1, f, (), [S(t, x, 2, sy('z'))])
                            out.append(('plain field %s' % show(k), ('pairs', ((k, o), ('zzz', pl(1)))), wrap('STRUCT', 0, None, (), y, [S('INT', ('int', 1), 1, sy('zzz'))]), dict(binary=b)))
                for o in (ion('LIST', [], ANNS[1]), ion('STRUCT', ('multi', ()), ANNS[1]), ion('SEXP', [])):
                    f = ('sid', 0) if k is None else sy(k)
                    out.append(('container field', ion('STRUCT', ('multi', ((k, o),))), wrap('STRUCT', 0, None, (), wrap(o[1], 1, f, o[3])), dict(binary=b)))
    elif name == 'dp-options':
        seq = [pl(1), pl('x'), pl([pl(2)])]
        evs = [one, S('STRING', ('str', 'x'))] + wrap('LIST', 0, None, (), [S('INT', ('int', 2), 1)])
        nest = lambda typ, es: wrap(typ, 0, None, (), *[[e[:-3] + (e[-3] + 1,) + e[-2:] if e[0] != 'END' else e[:2] + (e[2] + 1,) for e in es]])
        for binary in (True, False):
            for omit in (True, False):
                for indent in (None, '', ' ', '\t'):
                    for file in (True, False):
                        o = dict(binary=binary, omit_version_marker=omit, indent=indent, file=file)
                        out += [('list', pl(seq), nest('LIST', evs), o), ('tuple', pl(tuple(seq)), nest('LIST', evs), o),
                                ('list as stream', pl(seq), evs, dict(o, sequence_as_stream=True)), ('tuple as stream', pl(tuple(seq)), evs, dict(o, sequence_as_stream=True)),
                                ('no list as stream', pl({'a': pl(1)}), wrap('STRUCT', 0, None, (), [S('INT', ('int', 1), 1, sy('a'))]), dict(o, sequence_as_stream=True)),
                                ('scalar as stream', pl('abc'), [S('STRING', ('str', 'abc'))], dict(o, sequence_as_stream=True)),
                                ('empty stream', pl([]), [], dict(o, sequence_as_stream=True)),
                                ('ion list as stream', ion('LIST', [ion('INT', 1, (sy('a'),)), pl(1)], (sy('l'),)), [S('INT', ('int', 1), 0, None, (sy('a'),)), one],
                                 dict(o, sequence_as_stream=True)),
                                ('tuple as sexp', pl(tuple(seq)), nest('SEXP', evs), dict(o, tuple_as_sexp=True)), ('list with tuple as sexp', pl([pl((pl(1),)), pl([pl(1)])]),
                                 wrap('LIST', 0, None, (), wrap('SEXP', 1, None, (), [S('INT', ('int', 1), 2)]), wrap('LIST', 1, None, (), [S('INT', ('int', 1), 2)])),
                                 dict(o, tuple_as_sexp=True)),
                                ('token in tuple as sexp', pl((pl(('tok', sy('q'))), pl(()))), wrap('SEXP', 0, None, (), [S('SYMBOL', sy('q'), 1)], wrap('SEXP', 1, None, ())),
                                 dict(o, tuple_as_sexp=True)),
                                ('ion tuple', ion('SEXP', [pl((pl(1),))]), wrap('SEXP', 0, None, (), wrap('LIST', 1, None, (), [S('INT', ('int', 1), 2)])), o)]
            for imp in ((('foo', 1, ('f1', 'f2')),), (('foo', 1, ('f1', 'f2')), ('bar', 2, ('b1', 'f1', 'zz')))):
                o = dict(binary=True, imports=imp)
                out += [('imports', pl({'f1': pl(1), 'zz': pl(('tok', sy('b1'))), 'new': pl(('tok', sy('f2')))}),
                         wrap('STRUCT', 0, None, (), [S('INT', ('int', 1), 1, sy('f1'))], [S('SYMBOL', sy('b1'), 1, sy('zz'))], [S('SYMBOL', sy('f2'), 1, sy('new'))]), o)]
    else:
        raise KeyError(name)
    return out


def objects(evs, i, bare):
    """The Python value for the events at i -> (object, position after it)"""
    e = evs[i]
    if e[0] == 'SCALAR':
        v = e[2] and e[2][1]
        return (('plain', v) if bare else ('ion', e[1], v, e[-1])), i + 1
    typ, d, kids = e[1], e[2], []
    anns = e[-1]
    i += 1
    while not (evs[i][0] == 'END' and evs[i][2] == d):
        f = evs[i][-2]
        o, i = objects(evs, i, bare)
        kids.append((f and f[1], o))
    if typ != 'STRUCT':
        v = [o for _, o in kids]
        if bare:
            v = tuple(v) if typ == 'SEXP' else v
        return (('plain', v) if bare else ('ion', typ, v, anns)), i + 1
    v = dict(kids) if bare else ('multi', tuple(kids))
    return (('plain', v) if bare else ('ion', typ, v, anns)), i + 1


def distinct(evs):
    """With different field names"""
    return [e if e[0] == 'END' or e[-2] is None else e[:-2] + (sy('k%d' % i), e[-1]) for i, e in enumerate(evs)]


def plain_events(evs):
    """Without annotations, expressions as lists (from tuples)"""
    out = []
    for e in evs:
        e = e[:1] + ('LIST' if e[1] == 'SEXP' else e[1],) + e[2:]
        out.append(e if e[0] == 'END' else e[:-1] + ((),))
    return out


def show(v):
    return repr(v)[:60].replace('<simexp.', '<any ').split(' object')[0]


def explore(name, budget, thorough=False):
    import simexp
    if name.startswith('ld-'):
        s = loads(name, thorough)
        e = simexp.LoadScript(world(), budget).run(s)
    else:
        s = dumps(name, thorough)
        e = simexp.DumpScript(world(), budget).run(s)
    return dict(name=name, complete=e.complete, scripts=len(s), states=len(e.nodes), transitions=e.trans, agree=e.agree, completes=e.completes,
                wall=round(e.wall, 1), unknown=e.unknown, badprobe=[], viol=[k + tuple(v) for k, v in e.viol.items()], functions=sorted(e.functions))


def job(a):
    try:
        return explore(*a)
    except Exception as x:
        import traceback
        return dict(name=a[0], error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    return writer.run_sets(prop, tier, SETS[prop], job, EXPL[prop], RULE[prop], 'loading' if prop == 'L01' else 'dumping')


EXPL = {'L01': 'Abstract interpretation of load and loads with everything below them (blocking reader, raw readers, managed reader, Ion nature classes, Multimap) '
               'on documents made by an independent encoder, with symbolic text and digits: every path; the values returned are inspected as a user would '
               '(iteration, attributes, items) and compared with what the document holds.',
        'L02': 'Abstract interpretation of dump and dumps with everything below them (value iteration, type mapping, Ion nature classes, managed and raw writers) on '
               'Python values of every mapped kind, nested and annotated: every path; the output is read by independent decoders and compared with the events '
               'the value stands for.'}
RULE = {'L01': 'each value has the type, content, annotations and order of the document; single_value accepts exactly one value; incomplete text raises IonException',
        'L02': 'the output holds exactly the events the value stands for, after one version marker (unless omitted), and nothing raises'}
