"""Text reader: abstract interpretation of reader_text.reader to a fixpoint against the reference token machine."""
import multiprocessing
import os
import time

import reftext
from dom import is_or
from report import Finding, AnalysisError

cs = reftext.cs
ALL = None

# name: (alphabet, starts, maxdepth, maxanns, chunks, extra)
CFG = {
    'num': (ALL, cs('-0123456789'), 0, 0, (1,), dict(keep=5, maxlen=24, rkeep=5, rmax=12)),
    'ts': (cs('0123456789-T:.Z+ \t,/x'), cs('0123456789'), 0, 0, (1,), dict(keep=5, maxlen=24, rkeep=5, rmax=12)),
    'ts-in': (cs('0123456789-T:.Z+],[/* \t'), None, 1, 0, (1,), dict(keep=5, maxlen=24, rkeep=5, rmax=12)),
    'num-in': (cs('[({)]},: \t123bcd.-/'), None, 1, 1, (1,), {}),
    'kw': (ALL, is_or(reftext.IDS, cs('+')), 0, 0, (1,), {}),
    'kw-in': (cs('[()],natulefisrg.$_0123+-: \t/*\n'), None, 1, 1, (1,), {}),
    'op': (ALL, cs('(/+-*atn'), 1, 1, (1,), {}),
    'str': (ALL, cs('"\''), 0, 0, (1,), {}),
    'quo': (cs('bcd"\':/*\n \t'), None, 0, 2, (1,), {}),
    'quo-in': (cs('[](),bcd"\' \t'), None, 1, 1, (1,), {}),
    'quo-st': (cs('{},:bcd"\' \t'), None, 1, 1, (1,), {}),
    'lob': (ALL, cs('{'), 0, 0, (1,), {}),
    'st-a': (cs('{}[](),:bcd/*\n \t'), None, 2, 1, (1,), {}),
    'st-b': (cs('{}[](),:bcd \t'), None, 2, 1, (1,), {}),
    'st-s': (cs('(){}bcd+-/.*\n,'), None, 2, 1, (1,), {}),
    'st-p': (cs('{}[],:b '), None, 2, 0, (1,), {}),
    'st-3': (cs('{}[](),:bcd \t'), None, 3, 2, (1,), {}),
    # a request may bring one or two characters, in any order
    'ch-num': (cs('0123456789-T:.Z+ \tex_,/'), None, 0, 0, (1, 2), dict(keep=5, maxlen=24, rkeep=5, rmax=12)),
    'ch-quo': (cs('bc"\':/* \t\n'), None, 0, 2, (1, 2), {}),
    'ch-esc': (cs('"\\nxu04b\r\n'), None, 0, 0, (1, 2), {}),
    'ch-st': (cs('{}[](),:bcd \t/*\n'), None, 1, 1, (1, 2), {}),
    'ch-lob': (cs('{}bcd="\' \t'), None, 0, 0, (1, 2), {}),
    'ch-kw': (cs('nultrefas. \t:$10_i'), None, 0, 0, (1, 2), {}),
    # the consumer skips: after a container start, after a value, after the end of an inner container
    'skip-start': (cs('{}[](),:bcd \t'), None, 2, 1, (1, 2), dict(skip=lambda d: d[0] == 'START')),
    'skip-start1': (cs('{}[],:b '), None, 2, 0, (1,), dict(skip=lambda d: d[0] == 'START' and d[2] == 1)),
    'skip-scalar': (cs('{}[],:b '), None, 2, 0, (1,), dict(skip=lambda d: d[0] == 'SCALAR' and d[3] > 0)),
    'skip-scalar1': (cs('[](){}b: '), None, 2, 0, (1,), dict(skip=lambda d: d[0] == 'SCALAR' and d[3] == 1)),
    'skip-end': (cs('{}[],:b '), None, 2, 0, (1,), dict(skip=lambda d: d[0] == 'END' and d[2] > 0)),
    'skip-all': (cs('[](){}: b'), None, 2, 0, (1,), dict(skip=lambda d: d[0] == 'END' and d[2] > 0 or d[0] == 'START' and d[2] == 1)),
    'skip-deep': (cs('[],b'), None, 5, 0, (1,), dict(skip=lambda d: d[0] == 'START' and d[2] in (2, 3))),
    'skip-deep-end': (cs('[],b'), None, 5, 0, (1,), dict(skip=lambda d: d[0] == 'END' and d[2] in (2, 3) or d[0] == 'SCALAR' and d[3] == 3)),
    'skip-lob': (cs('{}[bc"= ,:]'), None, 1, 0, (1, 2), dict(skip=lambda d: d[0] == 'START')),
}
SETS = {
    'T01': ('num', 'num-in'),
    'T02': ('ts', 'ts-in'),
    'T03': ('kw', 'op', 'kw-in'),
    'T04': ('str', 'quo', 'quo-in', 'quo-st'),
    'T05': ('st-a', 'st-b', 'st-s', 'num-in', 'quo-st'),
    'T06': ('lob',),
    'T08': ('skip-start', 'skip-start1', 'skip-scalar', 'skip-scalar1', 'skip-end', 'skip-all', 'skip-lob', 'skip-deep', 'skip-deep-end'),
    'T07': ('ch-num', 'ch-quo', 'ch-esc', 'ch-st', 'ch-lob', 'ch-kw'),
}
THOROUGH = {'T05': ('st-3',), 'T07': ('num', 'str', 'lob')}
W = [None]
NOASSERT = [False]


def world():
    from world import World
    if W[0] is None:
        W[0] = World(no_assert=NOASSERT[0]).load_all().freeze()
    return W[0]


def make(name, budget):
    from explore import Explorer, find_counters, NOSUR
    alpha, starts, depth, anns, chunks, extra = CFG[name]
    w = world()
    o = dict(keep=1, maxlen=12, rkeep=2, rmax=12)
    o.update(extra)
    skip = o.get('skip')
    kw = dict(maxdepth=depth, maxanns=anns, starts=starts)
    ref = reftext.SkipRef(skip, **kw) if skip else reftext.Ref(**kw)
    e = Explorer(w, ref, runs=True, keep=o['keep'], maxlen=o['maxlen'], canon=dict(rkeep=o['rkeep'], rmax=o['rmax']),
                 counters=find_counters(w), budget=budget, alphabet=alpha or NOSUR, chunks=chunks)
    e.d.skip = e.skip = skip
    return e


def explore(name, budget):
    e = make(name, budget)
    e.run()
    return dict(name=name, complete=e.complete, states=len(e.nodes), transitions=e.trans, ends=e.eofs, agree=e.agree,
                oos=e.ooscount, left=e.left, wall=round(e.wall, 1), unknown=e.unknown,
                events={' '.join(str(x) for x in k): v for k, v in e.events.items()},
                viol=[(v.rule, v.msg, v.where, v.path, v.extra, v.n) for v in e.viol],
                functions=sorted(e.functions))


def job(a):
    try:
        return explore(*a)
    except Exception as x:
        import traceback
        return dict(name=a[0], error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    names = SETS[prop] + (THOROUGH.get(prop, ()) if tier == 'thorough' else ())
    world()
    budget = 600 if tier == 'thorough' else 420
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(len(names), os.cpu_count() or 4, 6)) as p:
        res = p.map(job, [(n, budget) for n in names], chunksize=1)
    findings = []
    bad = [r for r in res if 'error' in r or not r['agree']]
    if bad and not any(r['viol'] for r in res if r not in bad):
        r = bad[0]
        if 'error' in r:
            print(r['tb'])
            raise AnalysisError('%s: %s' % (r['name'], r['error']))
        raise AnalysisError('%s: no reader event was compared with the reference (%r)' % (r['name'], r['unknown']))
    res = [r for r in res if r not in bad]      # what was explored decides; a violation found there stands
    for r in res:
        for rule, msg, where, path, extra, n in r['viol']:
            findings.append(Finding(rule, '%s: %s' % (where, msg), 'after input %r: %s %s' % (path, msg, extra),
                                    {'input': path, 'exploration': r['name'], 'states': n}))
    tot = lambda k: sum(r[k] for r in res)
    cov = dict(explanation='Abstract interpretation of the text reader coroutines from the source, every character class '
               'as one abstract character, to a fixpoint over canonical abstract states; at every state each next '
               'character class and the end of input are compared with an independent reference grammar of Ion text '
               '(events, values as digit/character sequences, errors).',
               rule='each transition of the reader must agree with the reference grammar',
               explorations=[{k: v for k, v in r.items() if k not in ('viol', 'functions')} for r in res],
               abstract_states=tot('states'), transitions=tot('transitions'), end_of_input_checks=tot('ends'),
               events_compared=tot('agree'), fixpoint_reached=all(r['complete'] for r in res),
               functions_analysed=sorted(set(x for r in res for x in r['functions'])))
    return findings, cov
