"""W01, W02: the text writer.  P02: its answers.  W03, W04: the binary writer (see wrbin.py)."""
import multiprocessing
import os
from decimal import Decimal

from report import Finding, AnalysisError
from checks import text, wvalues

FIELDS = [('sym', 'f'), ('sym', 'null'), ('sid', 10), ('txt', 'a b')]
ANNS = [(('sym', 'a'),), (('sym', 'a'), ('sym', 'b c'), ('sym', 'a')), (('sid', 10),), (('txt', 'null'),)]
ENDS = ('-1', 'True', 'null.NULL', 'null.INT', '1.0', 'nan', 'inf', '-inf', 'd1.5', "string 'x'", "string ''", "symbol 'abc'", "symbol 'a b'",
        "symbol ''", "symbol 'null'", 'symbol sid', 'blob 2', "clob b''")
INDENTS = {'none': None, 'empty': '', 'space': ' ', 'tab': '\t', 'three': '   '}
SETS = {'W01': ('struct-none', 'struct-space', 'struct-empty', 'struct-tab', 'struct-three', 'deep-none', 'deep-space'),
        'W02': ('values', 'times', 'offsets', 'ints', 'str', 'sym', 'ann', 'field', 'lob', 'keyword', 'abstimes', 'floats', 'decimals')}
SETS['W03'] = ('bin-values', 'bin-times', 'bin-offsets', 'bin-numbers', 'bin-decimals', 'bin-text', 'bin-abstimes')
SETS['W04'] = ('bin-trees-0', 'bin-trees-1', 'bin-trees-2', 'bin-trees-3', 'bin-lengths', 'bin-ids', 'bin-streams')


def world():
    return text.world()


def struct(indent, depth, budget, few=False, probe=True):
    from wrexp import TextStructure
    sc = [x for x in wvalues.scalars() if x.name in (ENDS if not few else ENDS[:1] + ENDS[9:10])]
    assert len(sc) == (len(ENDS) if not few else 2), [x.name for x in sc]
    return TextStructure(world(), indent, sc, FIELDS if not few else FIELDS[:1], ANNS if not few else ANNS[:1], maxdepth=depth, probe=probe,
                         budget=budget).run()


def contexts(evs):
    """Each value followed by another, at top level and inside each container, plain and annotated."""
    from wrexp import Ev, CT
    x = Ev('x', 'SCALAR', 'SYMBOL', ('tok', ('sym', 'x')), ('sym', 'x'))
    one = Ev('1', 'SCALAR', 'INT', 1, ('int', 1))
    f, a = ('sym', 'f'), [('sym', 'a')]
    out = []
    for v in evs:
        out.append([v, one])
        for c in 'LST':
            fn = f if c == 'T' else None
            out.append([Ev('start ' + CT[c], 'CONTAINER_START', CT[c]), v.with_(fn, a if c == 'S' else ()), x.with_(fn),
                        Ev('end', 'CONTAINER_END', CT[c])])
    return out


def top(evs):
    from wrexp import Ev
    return [[v, Ev('x', 'SCALAR', 'SYMBOL', ('tok', ('sym', 'x')), ('sym', 'x'))] for v in evs]


def V(n, t, v, e=None):
    from wrexp import Ev
    return Ev(n, 'SCALAR', t, v, e)


def scripts(name, thorough):
    from wrexp import Ev, AbsText, AbsTime, AbsInt, AbsFloat, AbsDec, CT
    x = Ev('x', 'SCALAR', 'SYMBOL', ('tok', ('sym', 'x')), ('sym', 'x'))
    lens = (0, 1, 2, 3) if thorough else (0, 1, 2)
    st = {c: Ev('start ' + CT[c], 'CONTAINER_START', CT[c]) for c in 'LST'}
    end = {c: Ev('end', 'CONTAINER_END', CT[c]) for c in 'LST'}
    if name == 'values':
        return contexts(wvalues.scalars())
    if name == 'times':
        return top(wvalues.times())
    if name == 'offsets':
        return top([V('offset %d' % o, 'TIMESTAMP', wvalues.ts((2020, 2, 29, 23, 30, 1), 'SECOND', None, o),
                      ('ts', (2020, 2, 29, 23, 30, 1), None, o)) for o in range(-1439, 1440, 1 if thorough else 7)])
    if name == 'ints':
        b = 10 ** 11
        return contexts([V('any int', 'INT', AbsInt(-b, b)), V('any float > 0', 'FLOAT', AbsFloat(1)), V('any float < 0', 'FLOAT', AbsFloat(-1))])
    if name == 'str':
        return top([V('string of %d' % n, 'STRING', AbsText(n)) for n in (0, 1, 2, 3)])
    if name == 'sym':
        v = [V('symbol of %d' % n, 'SYMBOL', AbsText(n, token=True)) for n in lens]
        return top(v) + [[st['S'], y, x, end['S']] for y in v[:2 if not thorough else 3]]
    if name == 'keyword':
        pre = ('nul', 'nan'[:2], 'tru', 'fals', 'null.in', '$', '$1', '$ion', 'in', '+in', '_', 'a1', '$1_')
        out = []
        for p in pre:
            els = tuple(ord(c) for c in p)
            out.append([V('symbol %s?' % p, 'SYMBOL', AbsText(1, pre=els, token=True)), x])
            out.append([x.with_(None, [AbsText(1, pre=els)]), x])
            out.append([st['T'], x.with_(AbsText(1, pre=els)), end['T']])
        return out
    if name == 'ann':
        return [[x.with_(None, [AbsText(n)]), x] for n in lens] + \
               [[st['L'].with_(None, [('sym', 'a'), AbsText(1)]), end['L']]]
    if name == 'field':
        return [[st['T'], x.with_(AbsText(n)), x.with_(('sym', 'g')), end['T']] for n in lens]
    if name == 'lob':
        return top([V('clob of %d' % n, 'CLOB', AbsText(n, 'clob')) for n in (0, 1, 2, 3)] +
                   [V('blob of %d' % n, 'BLOB', AbsText(n, 'blob')) for n in (0, 1, 2, 3, 4, 5, 6)])
    if name == 'abstimes':
        T = lambda *a, **k: V('timestamp %r %r' % (a, k), 'TIMESTAMP', AbsTime(*a, **k))
        out = [T(1, 'YEAR'), T(2, 'MONTH'), T(3, 'DAY')]
        out += [T(5, 'MINUTE', off=o) for o in (None, 0, 90, -90)]
        for o in (None, 0, -90):
            out += [T(6, 'SECOND', f, off=o) for f in (None, Decimal('0.00'), Decimal('0.05'), Decimal('0E-7'))]
            out += [T(6, None, off=o), T(6, None, off=o, plain=True)]
        return top(out)
    if name == 'floats':
        fs = [0.1 + 0.2, 1 / 3., 1.7976931348623157e308, 2.2250738585072014e-308, 1e15, 9.999e15, 1e17, 1e-4, 1e-5, 123456.789, 2.0 ** 53, 1e100,
              4.35, 1e21, 123e-7, 5e-5, 0.001, 1e5, 100.0]
        fs += [2.0 ** k for k in range(-60, 80, 7)] + [10.0 ** k for k in range(-8, 23)]
        return top([V(repr(f), 'FLOAT', f, ('flt', f)) for s in (1, -1) for f in [s * x for x in fs]])
    if name == 'decimals':
        out = []
        for s in ('', '-'):
            for c in ('0', '7', '10', '123', '9990', '100000', '1234567890123456789012345678901234567890'):
                for e in (-45, -40, -39, -12, -8, -7, -6, -5, -3, -2, -1, 0, 1, 2, 5, 6, 12, 300):
                    d = Decimal('%s%sE%d' % (s, c, e))
                    out.append(V(str(d), 'DECIMAL', d, ('dec', d)))
        from wrexp import AbsDec
        for s in (0, 1):
            for nd in (1, 2, 3, 7, 9, 11):
                for e in (-20, -11, -10, -9, -8, -7, -6, -5, -3, -2, -1, 0, 1, 2, 6, 20, 400):
                    out.append(V('any decimal of %d digits E%d' % (nd, e), 'DECIMAL', AbsDec(s, nd, e)))
        return top(out)
    raise KeyError(name)


def legal_binary(evs):
    """Without the values the binary format cannot hold: UTC time beyond year 1 to 9999; symbols are written by ID."""
    out = []
    for v in evs:
        if v.it == 'SYMBOL' and (v.exp or ('',))[0] == 'sym':
            continue
        if v.it == 'TIMESTAMP' and v.exp and v.exp[1][0] in (1, 9999) and v.exp[3] not in (None, 0, 'none'):
            continue
        out.append(v)
    return out


def trees(n, kinds, anns):
    """All event sequences of forests of n values."""
    from wrexp import Ev, CT
    one = Ev('1', 'SCALAR', 'INT', 1, ('int', 1))

    def forest(n, infield):
        if n == 0:
            yield []
            return
        for k in range(1, n + 1):
            for t in tree(k, infield):
                for r in forest(n - k, infield):
                    yield t + r

    def tree(n, infield):
        f = ('sid', 10 + n) if infield else None
        for a in anns:
            if n == 1:
                yield [one.with_(f, a)]
            for c in kinds:
                for body in forest(n - 1, c == 'T'):
                    yield [Ev('start ' + CT[c], 'CONTAINER_START', CT[c]).with_(f, a)] + body + [Ev('end', 'CONTAINER_END', CT[c])]
    return list(forest(n, False))


def bin_scripts(name, thorough):
    from wrexp import Ev, AbsText, AbsTime, MidTime, AbsInt, AbsFloat, AbsDec, AbsSid, AbsBlob, CT
    one = lambda *v: [[x] for x in v]
    st = {c: Ev('start ' + CT[c], 'CONTAINER_START', CT[c]) for c in 'LST'}
    end = Ev('end', 'CONTAINER_END', 'LIST')
    x1 = V('1', 'INT', 1, ('int', 1))
    a1, f1 = (('sid', 10),), ('sid', 11)
    top = 1 << 21
    if name == 'bin-values':
        return [[x] for x in legal_binary(wvalues.scalars())]
    if name == 'bin-times':
        return [[x] for x in legal_binary(wvalues.times())]
    if name == 'bin-offsets':
        return [[V('offset %d' % o, 'TIMESTAMP', wvalues.ts((2020, 2, 29, 23, 30, 1), 'SECOND', None, o),
                   ('ts', (2020, 2, 29, 23, 30, 1), None, o))] for o in range(-1439, 1440, 1 if thorough else 7)]
    if name == 'bin-numbers':
        b = 2 ** (200 if thorough else 70)
        return one(V('any int', 'INT', AbsInt(-b, b)), V('any float > 0', 'FLOAT', AbsFloat(1)), V('any float < 0', 'FLOAT', AbsFloat(-1)),
                   V('any ID', 'SYMBOL', AbsSid(0, 1 << 40)))
    if name == 'bin-decimals':
        return [[V('any decimal of %d digits E%d' % (n, e), 'DECIMAL', AbsDec(s, n, e))] for s in (0, 1) for n in (1, 2, 3, 5, 9, 18, 28, 29, 40)
                for e in (-9000, -129, -64, -63, -33, -32, -31, -2, -1, 0, 1, 2, 31, 32, 63, 64, 9000)]
    if name == 'bin-text':
        out = [[V('string of %d' % n, 'STRING', AbsText(n))] for n in (0, 1, 2, 3)]
        out += [[V('string of %d characters' % n, 'STRING', u'\u20ac' * (n // 3) + 'x' * (n % 3), ('str', u'\u20ac' * (n // 3) + 'x' * (n % 3)))]
                for n in (12, 13, 14, 15, 126, 127, 128, 129, 16383, 16384)]
        return out
    if name == 'bin-abstimes':
        T = lambda c, *a, **k: [V('timestamp %r %r' % (a, k), 'TIMESTAMP', c(*a, **k))]
        out = [T(AbsTime, 1, 'YEAR'), T(AbsTime, 2, 'MONTH'), T(AbsTime, 3, 'DAY')]
        for o in (None, 0):
            out += [T(AbsTime, 5, 'MINUTE', off=o), T(AbsTime, 6, None, off=o), T(AbsTime, 6, None, off=o, plain=True)]
            out += [T(AbsTime, 6, 'SECOND', f and Decimal(f), off=o) for f in (None, '0.00', '0.05', '0E-7', '0.123456789012345678901234567890123', '0.' + '1234567' * 10)]
        for o in (90, -90, -1439, 1439, 5, -31, 32, 720, 60):
            out += [T(MidTime, 5, 'MINUTE', off=o), T(MidTime, 6, 'SECOND', off=o), T(MidTime, 6, None, off=o, plain=True)]
        return out
    if name.startswith('bin-trees-'):
        k = int(name[-1])
        n4 = trees(4, 'LST' if thorough else 'LT', ((), a1))
        all_ = trees(0, 'LST', ((),)) + trees(1, 'LST', ((), a1, (('sid', 10), ('sid', 4)))) + trees(2, 'LST', ((), a1)) + \
            trees(3, 'LT', ((), a1)) + n4
        return all_[k::4]
    if name == 'bin-lengths':
        out = []
        for k in ('clob', 'blob'):
            b = V(k, k.upper(), AbsBlob(k, 0, top))
            big = V(k, k.upper(), AbsBlob(k, 64, top))
            out += [[b], [b.with_(None, a1)], [b.with_(None, (('sid', 10), ('sid', 300))), x1]]
            for c in 'LST':
                f = f1 if c == 'T' else None
                out += [[st[c], b.with_(f), x1.with_(f), end], [st[c].with_(None, a1), x1.with_(f), b.with_(f, a1), end]]
        b = V('blob', 'BLOB', AbsBlob('blob', 0, top))
        big = V('blob', 'BLOB', AbsBlob('blob', 64, top))
        out += [[big, big], [st['L'], big, x1, big, end], [st['L'], st['S'], big, end, x1, end], [st['T'], st['L'].with_(f1, a1), b, end, x1.with_(f1), end],
                [st['S'].with_(None, a1), st['T'].with_(None, a1), st['L'].with_(f1, a1), big, end, end, end]]
        return out
    if name == 'bin-ids':
        any_ = AbsSid(0, top)
        return [[x1.with_(None, (any_,))], [x1.with_(None, (any_, ('sid', 10)))], [x1.with_(None, tuple([('sid', 10)] * 14 + [any_]))],
                [st['T'], x1.with_(any_), x1.with_(f1), end], [st['T'], x1.with_(any_, (any_,)), end],
                [st['L'].with_(None, (any_,)), x1, end]] + \
            [[x1.with_(None, tuple([('sid', 200)] * n))] for n in (5, 6, 7, 31, 32, 63, 64, 70)]
    if name == 'bin-streams':
        se = Ev('STREAM_END', 'STREAM_END')
        ivm = Ev('IVM', 'VERSION_MARKER')
        body = [[], [x1], [st['L'], end], [st['T'], x1.with_(f1), end], [x1.with_(None, a1)]]
        out = [a + [se] + b + [se] + c for a in body for b in body for c in body]
        for c in 'LST':
            f = f1 if c == 'T' else None
            out += [[st[c], se], [st[c], x1.with_(f), se], [st[c], st['L'].with_(f), se], [st[c], ivm]]
        return out + [[end], [x1, end], [st['L'], end, end]]
    raise KeyError(name)


def explore(name, budget, thorough=False):
    from wrexp import TextScript
    if name.startswith('bin-'):
        from wrbin import BinScript
        e = BinScript(world(), budget=budget, probe=name in ('bin-streams', 'bin-trees-0')).run(bin_scripts(name, thorough))
        return result(name, e)
    k, _, arg = name.partition('-')
    if k == 'struct':
        e = struct(INDENTS[arg], 2, budget)
    elif k == 'deep':
        e = struct(INDENTS[arg], 5 if thorough else 4, budget, True)
    else:
        e = TextScript(world(), None, [], FIELDS, ANNS, budget=budget, probe=False).run(scripts(name, thorough))
    return result(name, e)


def result(name, e):
    return dict(name=name, complete=e.complete, states=len(e.nodes), transitions=e.trans, agree=e.agree, completes=e.completes,
                wall=round(e.wall, 1), unknown=e.unknown, probes=e.d.probes, rejected=e.d.rejected, badprobe=sorted(e.d.badprobe),
                viol=[k + tuple(v) for k, v in e.viol.items()], functions=sorted(e.functions))


def job(a):
    try:
        return explore(*a)
    except Exception as x:
        import traceback
        return dict(name=a[0], error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    return run_sets(prop, tier, SETS[prop], job, EXPL[prop], RULE[prop], 'writing')


def run_sets(prop, tier, names, job, expl, rule, doing):
    thorough = tier == 'thorough'
    world()
    budget = 700 if thorough else 240
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(len(names), os.cpu_count() or 4, 7)) as p:
        res = p.map(job, [(n, budget, thorough) for n in names], chunksize=1)
    findings = []
    bad = [r for r in res if 'error' in r or not r['agree']]
    if bad and not any(r['viol'] or r['badprobe'] for r in res if r not in bad):
        r = bad[0]
        if 'error' in r:
            print(r['tb'])
            raise AnalysisError('%s: %s' % (r['name'], r['error']))
        raise AnalysisError('%s: nothing could be compared (%r)' % (r['name'], r['unknown']))
    res = [r for r in res if r not in bad]      # what was explored decides; a violation found there stands
    for r in res:
        for rule_, msg, where, path, extra, n in r['viol']:
            findings.append(Finding(rule_, '%s: %s' % (where, msg), 'after %s [%s]: %s %s' % (doing, path, msg, extra),
                                    {'events': path, 'exploration': r['name'], 'times': n, 'output': extra}))
        for req, at, got in r['badprobe']:
            findings.append(Finding('protocol', 'writer_trampoline: %s at %s' % (req, at), 'the request %s at %s must raise TypeError; the '
                                    'writer %s' % (req, at, got), {'request': req, 'at': at, 'got': got, 'exploration': r['name']}))
    tot = lambda k: sum(r.get(k, 0) for r in res)
    cov = dict(explanation=expl, rule=rule,
               explorations=[{k: v for k, v in r.items() if k not in ('viol', 'functions', 'badprobe')} for r in res],
               abstract_states=tot('states'), transitions=tot('transitions'), events_compared=tot('agree'),
               complete_answers=tot('completes'), illegal_requests_checked=tot('probes'),
               fixpoint_reached=all(r['complete'] for r in res),
               functions_analysed=sorted(set(x for r in res for x in r['functions'])))
    return findings, cov


EXPL = {'W01': 'Abstract interpretation of the text writer coroutines from the source over every sequence of events up to a container '
               'depth, to a fixpoint of (writer state, state of the reference grammar, events not yet read); the bytes handed out '
               'are read by an independent grammar of Ion text.',
        'W02': 'Abstract interpretation of the text writer on values whose parts are abstract (any integer, any code point, any byte, '
               'any timestamp field), every path; the output, partly abstract, is read by an independent grammar of Ion text.'}
EXPL['W03'] = 'Abstract interpretation of the raw binary writer on values whose parts are abstract (any integer below 2**70, any float, any ' \
    'decimal digits, code points, timestamp fields), every path; the octets, partly abstract bit fields of the values, are decoded by ' \
    'an independent decoder.'
EXPL['W04'] = 'Abstract interpretation of the raw binary writer and its buffer tree on event sequences with payloads of any content and any ' \
    'length below 2**21 (symbolic lengths) and any symbol IDs, and on all forests of up to 4 values; the octets are decoded by an ' \
    'independent decoder.'
RULE = {'W01': 'the events read are the events written, in order, with types, names, annotations and depth; COMPLETE only when all of '
               'them are readable; illegal events and requests raise TypeError',
        'W03': 'the decoded value is the value written, with its type, precision and offset',
        'W04': 'the decoded events are the events written; every length field spans exactly its value; nothing is handed out before '
               'STREAM_END; illegal events raise TypeError and nothing is left over for the next stream',
        'W02': 'the value read is the value written, element by element; only printable ASCII is written'}
