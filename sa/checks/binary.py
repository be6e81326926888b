"""Binary reader: abstract interpretation of reader_binary.raw_reader, every byte abstract, against refbin.RefBin."""
import multiprocessing
import os

from report import Finding, AnalysisError

ALL = tuple(range(256))
E = tuple(range(0xe0, 0xf0))
NOWRAP = tuple(t for t in ALL if t >> 4 != 14 or t in (0xe0, 0xe1, 0xe2, 0xef))
INNER = (0x00, 0x01, 0x03, 0x0f, 0x11, 0x20, 0x21, 0x22, 0x31, 0x40, 0x48, 0x51, 0x52, 0x71, 0x82, 0x8e, 0xa2, 0xb0, 0xb1,
         0xb2, 0xb3, 0xbe, 0xc2, 0xd0, 0xd1, 0xd2, 0xd3, 0xde)
NEST = (0x0f, 0, 1, 0x21, 0x31, 0x82, 0xb0, 0xb2, 0xb3, 0xb4, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xc3, 0xbe, 0xde)
TWO = ((0, 127), (128, 255))
FLD = ((0x80, 0x80), (0x81, 0xff), (1, 127))
Z = ((0, 0), (1, 127), (128, 128), (129, 255))


def st0(d):
    return d[0] == 'START' and d[2] == 0


def st1(d):
    return d[0] == 'START' and d[2] == 1 or d[0] == 'SCALAR' and d[3] == 1


def st2(d):
    return d[0] == 'END' and d[2] > 0


CFG = {
    # every type octet at top level, payloads of fully abstract bytes
    'octets': dict(types=NOWRAP, inner=(0x0f, 0x20), paylen=5, lens=(0x80, 0x81, 0x82, 0x00), maxdepth=1, fields=FLD),
    'ints': dict(types=tuple(range(0x20, 0x40)) + tuple(range(0x71, 0x7e)), paylen=13),
    'big-ints': dict(types=(0x2e, 0x3e, 0x7e), paylen=35, lens=tuple(range(0x8e, 0xa4))),
    'big-decimals': dict(types=(0x5e,), paylen=31, lens=tuple(range(0x8e, 0xa0)),
                         split={('DECIMAL', 0): ((0, 63), (64, 127), (128, 191), (192, 255)), ('DECIMAL', 1): TWO}),
    'zero-ints': dict(types=(0x21, 0x22, 0x31, 0x32, 0x33, 0x3e, 0x2e), paylen=3, lens=(0x80, 0x81, 0x82),
                      split={('INT', None): ((0, 0), (1, 255)), ('NEG', None): ((0, 0), (1, 255))}),
    'lobs': dict(types=tuple(range(0x80, 0xaf)), paylen=14, lens=(0x80, 0x81, 0x8e, 0x00)),
    'decimals': dict(types=tuple(range(0x50, 0x5e)), paylen=13),
    'zero-decimals': dict(types=(0x51, 0x52, 0x53, 0x54, 0x5e), paylen=4, lens=(0x80, 0x81, 0x82),
                          split={('DECIMAL', 0): ((0, 0), (64, 64), (128, 128), (129, 191), (192, 192), (193, 255)),
                                 ('DECIMAL', None): Z}),
    'times': dict(types=tuple(range(0x60, 0x70)), paylen=13, lens=(0x80, 0x81, 0x87),
                  split={('TIMESTAMP', None): ((128, 255),)}),
    'times-2': dict(types=tuple(range(0x60, 0x6a)), paylen=9,
                    split={('TIMESTAMP', 0): ((0, 127), (128, 191), (192, 192), (193, 255)),
                           ('TIMESTAMP', 1): TWO, ('TIMESTAMP', 2): TWO, ('TIMESTAMP', 3): TWO,
                           ('TIMESTAMP', None): ((128, 255),)}),
    'times-3': dict(types=(0x68, 0x69, 0x6a, 0x6b), paylen=11,
                    split={('TIMESTAMP', 0): ((128, 128), (192, 192)), ('TIMESTAMP', 7): ((128, 128), (129, 130), (192, 192), (193, 195)),
                           ('TIMESTAMP', 8): Z, ('TIMESTAMP', 9): ((0, 0), (1, 255)), ('TIMESTAMP', None): ((129, 140),)}),
    # containers, wrappers, pads, version markers
    'lists': dict(types=(0xb0, 0xb1, 0xb2, 0xb3, 0xb5, 0xc4, 0xbe, 0xce), inner=ALL, inner2=NEST, paylen=4, lens=(0x80, 0x81, 0x83, 0x00), maxdepth=2, alens=(0x81,)),
    'structs': dict(types=(0xd0, 0xd1, 0xd2, 0xd3, 0xd5, 0xde), inner=ALL, inner2=NEST, paylen=4, lens=(0x80, 0x81, 0x82, 0x83, 0x00), alens=(0x81,),
                    maxdepth=2, fields=FLD),
    'nested': dict(types=(0xb8, 0xd9, 0xc7), inner=NEST, paylen=3, lens=(0x80, 0x82, 0x83, 0), maxdepth=3, fields=FLD),
    'wrappers': dict(types=E, inner=INNER + E, paylen=3, lens=(0x80, 0x81, 0x82, 0x84, 0x85), alens=(0x80, 0x81, 0x82, 0),
                     sids=TWO, maxdepth=1),
    'inner-wrappers': dict(types=(0xb5, 0xd6, 0xb7, 0xd8), inner=INNER + E, paylen=2, lens=(0x80, 0x82, 0x84),
                           alens=(0x80, 0x81, 0x82), sids=TWO, maxdepth=2),
    # requests of one, two or three bytes; skipping
    'chunks-2': dict(types=(0xb5, 0xd6, 0xe5, 0x83, 0x0f, 0x02, 0x20, 0xbe), inner=(0x0f, 0x02, 0x21, 0x82, 0xb0, 0xb2, 0xd2, 0xe3, 0xe4, 0x00, 0x20, 0xf0),
                     paylen=3, lens=(0x80, 0x83, 0x00), maxdepth=2, alens=(0x81,), chunks=(1, 2), maxtop=2),
    'chunks-3': dict(types=(0xb4, 0xd4, 0xe4, 0x82, 0x02, 0x20), inner=(0x0f, 0x21, 0x82, 0xb0, 0xb2, 0xd2, 0x00), paylen=3,
                     lens=(0x80, 0x83), maxdepth=2, alens=(0x81,), chunks=(3, 2), maxtop=2),
    'skip-outer': dict(types=(0xb6, 0xb0, 0xbe, 0xd7, 0xc5, 0xe8, 0x20), inner=(0x0f, 0x21, 0xb3, 0xd4), paylen=3,
                       lens=(0x80, 0x82, 0x83, 0), maxdepth=2, skip=st0, chunks=(1, 2, 3), maxtop=2),
    'skip-end': dict(types=(0xb6, 0xd7, 0xc5, 0xe8, 0xbe), inner=(0x0f, 0x21, 0xb0, 0xb1, 0xc2, 0xd2, 0xe4, 0x00), paylen=3, lens=(0x80, 0x82, 0x83),
                     maxdepth=3, skip=st2, fields=FLD, chunks=(1, 2)),
    # pieces of several bytes while skipping
    'skip-wide': dict(types=(0xb6, 0xd7, 0x20, 0x21), inner=(0x21, 0xb3, 0x84, 0x05), paylen=5,
                       lens=(0x80, 0x83), maxdepth=2, skip=st0, chunks=(1, 4, 5), maxtop=3),
    # length fields and annotation subfields that arrive one byte at a time, at top level and below
    'chunks-len': dict(types=(0xe4, 0xe5, 0xee, 0xbe, 0xde, 0x8e, 0x2e, 0xae, 0x0e), inner=(0x8e, 0xbe, 0xde, 0xee, 0x0e, 0xe4, 0x20, 0x2e, 0x5e), paylen=3, fields=FLD,
                       lens=(0x80, 0x81, 0x82, 0x84, 0x00), alens=(0x81, 0x82, 0), sids=TWO, maxdepth=2, chunks=(1, 2)),
    'chunks-scalars': dict(types=(0x22, 0x32, 0x2a, 0x44, 0x48, 0x52, 0x53, 0x65, 0x72, 0x83, 0x93, 0xa3, 0x8e), paylen=10, lens=(0x83, 0x80),
                           chunks=(1, 2, 3), maxtop=2, split={('TIMESTAMP', None): ((128, 255),)}),
    'skip-inner': dict(types=(0xb6, 0xd7, 0xc5, 0xe8, 0xbe), inner=NEST + (0xe3, 0xe4), paylen=3, lens=(0x80, 0x82, 0x83, 0), maxdepth=3,
                       skip=st1, fields=FLD, chunks=(1, 2)),
}
SETS = {
    'B01': ('big-decimals', 'octets', 'big-ints', 'ints', 'zero-ints', 'lobs', 'decimals', 'zero-decimals', 'times', 'times-2', 'times-3'),
    'B02': ('lists', 'structs', 'nested', 'wrappers', 'inner-wrappers', 'octets', 'chunks-len'),
    'B03': ('chunks-2', 'chunks-3', 'skip-outer', 'skip-wide', 'skip-inner', 'skip-end', 'chunks-len', 'chunks-scalars'),
}
THOROUGH = {}
W = [None]
NOASSERT = [False]


def world():
    from world import World
    if W[0] is None:
        W[0] = World(no_assert=NOASSERT[0]).load_all().freeze()
    return W[0]


def make(name, budget):
    from binexp import BinExplorer
    from refbin import RefBin
    c = dict(CFG[name])
    chunks = c.pop('chunks', (1,))
    ref = RefBin(**c)
    e = BinExplorer(world(), ref, chunks=chunks, budget=budget, skip=c.get('skip'))
    e.skip = c.get('skip')
    return e


def explore(name, budget):
    e = make(name, budget)
    e.run()
    return dict(name=name, complete=e.complete, states=len(e.nodes), transitions=e.trans, ends=e.eofs, agree=e.agree,
                oos=e.ooscount, left=e.left, wall=round(e.wall, 1), unknown=e.unknown, undecided=e.undecided,
                events={' '.join(str(x) for x in k): v for k, v in e.events.items()},
                viol=[(v.rule, v.msg, v.where, v.path, v.extra, v.n) for v in e.viol],
                functions=sorted(e.functions))


def job(a):
    try:
        return explore(*a)
    except Exception as x:
        import traceback
        return dict(name=a[0], error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    names = SETS[prop] + (THOROUGH.get(prop, ()) if tier == 'thorough' else ())
    world()
    budget = 600 if tier == 'thorough' else 240
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(len(names), os.cpu_count() or 4, 8)) as p:
        res = p.map(job, [(n, budget) for n in names], chunksize=1)
    findings = []
    for r in res:
        if 'error' in r:
            print(r['tb'])
            raise AnalysisError('%s: %s' % (r['name'], r['error']))
        if not r['agree']:
            raise AnalysisError('%s: no reader event was compared with the reference (%r)' % (r['name'], r['unknown']))
        for rule, msg, where, path, extra, n in r['viol']:
            findings.append(Finding(rule, '%s: %s' % (where, msg), 'after bytes %s: %s %s' % (path, msg, extra),
                                    {'input': path, 'exploration': r['name'], 'states': n}))
    tot = lambda k: sum(r[k] for r in res)
    cov = dict(explanation='Abstract interpretation of the binary reader coroutines from the source over abstract bytes '
               '(payload bytes range over 0..255, type octets over every value); at every state each next byte class and '
               'the end of the available bytes are compared with an independent reference machine of Ion 1.0 binary: events, '
               'depth, field and annotation SIDs, values as linear forms over the payload bytes, errors.',
               rule='each transition of the reader must agree with the reference machine of Ion binary',
               explorations=[{k: v for k, v in r.items() if k not in ('viol', 'functions')} for r in res],
               abstract_states=tot('states'), transitions=tot('transitions'), end_of_input_checks=tot('ends'),
               events_compared=tot('agree'), fixpoint_reached=all(r['complete'] for r in res),
               functions_analysed=sorted(set(x for r in res for x in r['functions'])))
    return findings, cov
