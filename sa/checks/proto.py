"""Reader request protocol: every illegal request is rejected at every reachable point of the conversation."""
import multiprocessing
import os

from report import Finding, AnalysisError
from checks import text, binary

TEXT = ('st-p', 'quo-in', 'num-in', 'lob', 'skip-start', 'skip-end')
BIN = ('chunks-2', 'lists', 'structs', 'wrappers', 'skip-inner', 'chunks-scalars')


def job(a):
    kind, name, budget = a
    try:
        from explore import Probe, Driver, Explorer, find_counters, NOSUR
        from binexp import BinDriver, BinExplorer
        import reftext
        from refbin import RefBin

        class P(Probe, Driver if kind == 'text' else BinDriver):
            pass
        P.empty, P.sample, P.flush = ('', 'a', True) if kind == 'text' else (b'', b'\x0f', False)
        w = text.world()
        d = P(w)
        d.probes, d.ok, d.bad = 0, {}, set()
        mod = text if kind == 'text' else binary
        e = mod.make(name, budget)
        e.d = d
        d.skip = e.skip
        # the first request
        n = 0
        for k, pay in (('DATA', P.sample), ('SKIP', None), (None, None)):
            st, g = e.fresh()
            if k is None:
                outs = w.m.resume_all(st, g, None, max_steps=100000)
            else:
                st, ev = d.data(st, k, pay)
                outs = w.m.resume_all(st, g, ev, max_steps=100000)
            for o in outs:
                n += 1
                if o.kind == 'unknown':
                    continue
                if o.kind != 'raise' or 'TypeError' not in w.m.exc_names(o.st, o.v):
                    d.bad.add((k or 'None', 'the start', 'raises ' + w.m.exc_name(o.st, o.v) if o.kind == 'raise' else 'answers it',
                               'TypeError'))
        e.run()
        return dict(name=kind + ':' + name, complete=e.complete, states=len(e.nodes), probes=d.probes + n, bad=sorted(d.bad),
                    rejected={' '.join(map(str, k)): v for k, v in d.ok.items()}, unknown=e.unknown, wall=round(e.wall, 1))
    except Exception as x:
        import traceback
        return dict(name=name, error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    text.world()
    budget = 600 if tier == 'thorough' else 200
    jobs = [('text', n, budget) for n in TEXT] + [('binary', n, budget) for n in BIN]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(len(jobs), os.cpu_count() or 4, 6)) as p:
        res = p.map(job, jobs, chunksize=1)
    findings = []
    for r in res:
        if 'error' in r:
            print(r['tb'])
            raise AnalysisError('%s: %s' % (r['name'], r['error']))
        if not r['rejected']:
            raise AnalysisError('%s: no illegal request was decided' % r['name'])
        for req, after, got, exc in r['bad']:
            findings.append(Finding('protocol', 'reader_trampoline (%s reader): %s after %s' % (r['name'].split(':')[0], req, after),
                                    'the request %s after %s must raise %s; the reader %s' % (req, after, exc, got),
                                    {'request': req, 'after': after, 'got': got, 'exploration': r['name']}))
    cov = dict(explanation='At every abstract state in which the reader coroutines answer the consumer (text and binary '
               'readers, derived from the source), a copy is sent each request the protocol forbids there; each path must '
               'end in the documented exception.',
               rule='NEXT first; only DATA after INCOMPLETE/STREAM_END (text: NEXT after INCOMPLETE flushes); never DATA after '
               'another event; never empty DATA; SKIP at depth 0 only after CONTAINER_START',
               explorations=[{k: v for k, v in r.items() if k != 'bad'} for r in res],
               abstract_states=sum(r['states'] for r in res), illegal_requests_checked=sum(r['probes'] for r in res),
               fixpoint_reached=all(r['complete'] for r in res))
    return findings, cov
