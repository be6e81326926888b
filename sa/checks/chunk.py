"""P02: what is read does not depend on how the input is cut into pieces, and SKIP skips exactly the rest of the container."""
from checks import text, writer, simple
from checks.simple import S, wrap, sy, trees, loadable, places, show

SETS = ('ck-bin', 'ck-text', 'ck-str', 'ck-cuts', 'ck-skip', 'ck-skip-long')


def world():
    return text.world()


def long():
    """Documents in which something is long"""
    from simexp import Text
    out = []
    for n in (5, 13, 14, 20, 130):
        t = 'abcdefghij' * 13
        for typ, v in (('STRING', ('str', t[:n])), ('SYMBOL', sy(t[:n])), ('CLOB', ('clob', t[:n])), ('BLOB', ('blob', t[:n].encode())), ('INT', ('int', 10 ** n))):
            out.append([S(typ, v), S('INT', ('int', 12))])
            out.append(wrap('STRUCT', 0, None, (sy('a'),), [S(typ, v, 1, sy(t[:n]), (sy(t[:n]), sy('a')))], [S('INT', ('int', 1), 1, sy('g'))]))
    out.append([S('STRING', ('str', Text(6))), S('SYMBOL', ('sym', Text(3)))])
    return out


def scripts(name, thorough):
    out = []
    if name in ('ck-bin', 'ck-text', 'ck-str'):
        mode = name[3:]
        for i, (t, v) in enumerate(loadable()):
            if mode == 'text' and any(ord(c) > 126 for c in repr(v)):
                continue
            ps = places(t, v)
            for j, evs in enumerate(ps if thorough else ps[4:5 + 2 * (i % 2)]):
                for k in (1, 2, 3, 5, 8) if thorough else ((1, 3), (2, 5), (1, 8))[(i + j) % 3]:
                    out.append(('%s %s' % (t, show(v)), evs, mode, k))
    elif name == 'ck-cuts':
        import docs
        for i, evs in enumerate(long()):
            for mode in ('bin', 'text', 'str'):
                if any(hasattr(x, 'make') for e in evs for y in e if type(y) is tuple for x in y):
                    n = 24
                else:
                    n = len(docs.binary(evs) if mode == 'bin' else docs.text(evs))
                step = 1 if n < 45 else n // 40 if thorough else n // 14
                for k in range(1, n, step):
                    out.append(('a long value', evs, mode, (k,)))
                for k in (1, 4, 7):
                    if n < 60 or k > 1:
                        out.append(('a long value', evs, mode, k))
    elif name in ('ck-skip', 'ck-skip-long'):
        import docs
        docs_ = [evs + [S('INT', ('int', 7))] for k in (1, 2) + ((3,) if thorough else ()) for evs in trees(k)] if name == 'ck-skip' else \
            [wrap('LIST', 0, None, (), *[wrap(typ, 1, None, (sy('b'),), [e[:3] + (2, sy('f') if typ == 'STRUCT' else None) + e[5:] for e in evs if e[0] == 'SCALAR']) for typ in ('LIST', 'STRUCT')]) +
             [S('INT', ('int', 7))] for evs in long()[:30:2]]
        for i, evs in enumerate(docs_):
            starts = [p for p, e in enumerate(evs) if e[0] == 'START']
            for mode in ('bin', 'text', 'str')[i % 3:][:1] if not thorough and name == 'ck-skip' else ('bin', 'text', 'str'):
                n = len(docs.binary(evs) if mode == 'bin' else docs.text(evs))
                for p in starts:
                    for cuts in ((), 1, 2, 5) + tuple((c,) for c in range(1, n, max(1, n // 12)))[::3 if name == 'ck-skip' else 1]:
                        out.append(('a container skipped', evs, mode, cuts, (p,)))
                out.append(('all containers skipped', evs, mode, 2, tuple(starts)))
    else:
        raise KeyError(name)
    return out


def explore(name, budget, thorough=False):
    import simexp
    s = scripts(name, thorough)
    e = simexp.ChunkScript(world(), budget).run(s)
    return dict(name=name, complete=e.complete, scripts=len(s), states=len(e.nodes), transitions=e.trans, agree=e.agree, completes=e.completes,
                wall=round(e.wall, 1), unknown=e.unknown, badprobe=[], viol=[k + tuple(v) for k, v in e.viol.items()], functions=sorted(e.functions))


def job(a):
    try:
        return explore(*a)
    except Exception as x:
        import traceback
        return dict(name=a[0], error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    return writer.run_sets(prop, tier, SETS, job, EXPL, RULE, 'reading')


EXPL = 'Abstract interpretation of the blocking reader over a file that hands out its content in pieces, with the managed and raw readers below it, on documents ' \
    'made by an independent encoder, cut at every position or into pieces of every small size, with SKIP requested at containers: every path; the events are ' \
    'compared with what the document holds.'
RULE = 'the events are those of the document whatever the pieces; SKIP at the start of a container delivers its end next and what follows it after'
