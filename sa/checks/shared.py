"""G01: nothing a call does changes objects that exist since the import.  G02: behaviour does not depend on assertions."""
import multiprocessing
import os

from report import Finding, AnalysisError
from checks import text, binary, writer

TEXT = ('st-p', 'quo', 'quo-in', 'num-in', 'lob', 'skip-start', 'str', 'op', 'ts', 'kw')
BIN = ('chunks-2', 'lists', 'structs', 'wrappers', 'skip-inner', 'octets', 'ints', 'lobs', 'decimals', 'times', 'zero-ints', 'zero-decimals',
       'times-2', 'chunks-len')
WRITE = ('deep-none', 'deep-space', 'values', 'str', 'sym', 'ann', 'lob', 'abstimes', 'bin-values', 'bin-times', 'bin-trees-0', 'bin-lengths',
         'bin-ids', 'bin-streams')
MODS = {'text': text, 'binary': binary, 'writer': writer}
WORLDS = (text, binary)    # the writer analyses use the world of the text reader's


def job(a):
    kind, name, budget, audit = a
    try:
        import explore
        explore.AUDIT = set() if audit else None
        r = MODS[kind].explore(name, budget)
        r['shared'] = sorted(explore.AUDIT or ())
        r['kind'] = kind
        return r
    except Exception as x:
        import traceback
        return dict(name=name, error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def sweep(jobs):
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(len(jobs), os.cpu_count() or 4, 7)) as p:
        res = p.map(job, jobs, chunksize=1)
    bad = [r for r in res if 'error' in r or not r['agree']]
    for r in () if any(r.get('shared') for r in res) else bad:      # a change that was seen stands
        if 'error' in r:
            print(r['tb'])
            raise AnalysisError('%s: %s' % (r['name'], r['error']))
        if not r['agree']:
            raise AnalysisError('%s: no event was compared with the reference (%r)' % (r['name'], r['unknown']))
    return [r for r in res if 'error' not in r]


def all_jobs(budget, audit):
    j = [('text', n, budget, audit) for n in TEXT] + [('binary', n, budget, audit) for n in BIN] + [('writer', n, budget, audit) for n in WRITE]
    return sorted(j, key=lambda x: x[1] not in ('kw', 'ts', 'str', 'st-p', 'octets', 'deep-none', 'deep-space'))


def shared(prop, tier):
    text.world()
    res = sweep(all_jobs(600 if tier == 'thorough' else 200, True))
    findings = []
    for r in res:
        for obj, why, where in r['shared']:
            findings.append(Finding('shared-state', '%s: %s' % (where.split(':')[0], obj), '%s changes %s: %s' % (where, obj, why),
                                    {'object': obj, 'change': why, 'where': where, 'exploration': r['name']}))
    return findings, cov(res, 'Every write of the explored paths (readers and writers) is traced; the target must have been '
                         'created by the call itself or an earlier call of the same reader/writer, never at import.',
                         'no change of an object that exists since the import (a new key in a shared dictionary is no change)')


def asserts(prop, tier):
    for m in WORLDS:
        m.NOASSERT[0] = True
        m.W[0] = None
    w = text.world()
    for m in WORLDS:
        m.W[0] = w
    res = sweep(all_jobs(600 if tier == 'thorough' else 200, False))
    suspects = [r for r in res if r['viol'] or r.get('badprobe')]
    findings = []
    if suspects:
        # only differences count: what also happens with assertions enabled is another property's matter
        for m in WORLDS:
            m.NOASSERT[0] = False
            m.W[0] = None
        w = text.world()
        for m in WORLDS:
            m.W[0] = w
        base = {(r['kind'], r['name']): r for r in sweep([(r['kind'], r['name'], 200, False) for r in suspects])}
        for r in suspects:
            old = {v[:3] for v in base[r['kind'], r['name']]['viol']}
            for b in r.get('badprobe') or ():
                if b not in (base[r['kind'], r['name']].get('badprobe') or ()):
                    findings.append(Finding('assert-protocol', '%s at %s' % tuple(b[:2]), 'with assertions disabled, the request %s at %s: %s'
                                            % tuple(b), {'exploration': r['name']}))
            for rule, msg, where, path, extra, n in r['viol']:
                if (rule, msg, where) not in old:
                    findings.append(Finding('assert-' + rule, '%s: %s' % (where, msg),
                                            'with assertions disabled, after %r: %s %s' % (path, msg, extra),
                                            {'input': path, 'exploration': r['name'], 'states': n}))
    return findings, cov(res, 'The explorations of the other checks on the program as Python -O runs it: assert statements '
                         'removed, __debug__ false, at import time and in calls.',
                         'the program without its assertions must still agree with the references')


def cov(res, explanation, rule):
    tot = lambda k: sum(r[k] for r in res)
    return dict(explanation=explanation, rule=rule,
                explorations=[{k: v for k, v in r.items() if k not in ('viol', 'functions', 'shared', 'badprobe')} for r in res],
                abstract_states=tot('states'), transitions=tot('transitions'), events_compared=tot('agree'),
                fixpoint_reached=all(r['complete'] for r in res),
                functions_analysed=sorted(set(x for r in res for x in r['functions'])))
