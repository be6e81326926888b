"""V01: timestamps hold what they are made from.  V02: a multimap keeps every value of a key, in order."""
from decimal import Decimal as D
import itertools

from checks import text, writer

SETS = {'V01': ('ts-fraction', 'ts-fields', 'ts-offset'), 'V02': ('mm-ops', 'mm-ion', 'mm-init')}


def world():
    return text.world()


US = (None, 0, 1, 10, 100, 1000, 10000, 100000, 120000, 123456, 999999, 999990, 1000000, -1)
FP = (None, 0, 1, 2, 3, 4, 5, 6, 7, -1)
FS = (None,) + tuple(D(s) for s in ('0', '0.0', '0E3', '0.000000', '0E-7', '0.1', '0.10', '0.12', '0.123456', '0.1234567', '0.0000001', '0.999999', '0.9999999', '1E-8', '0.000001', '0.00001000',
                                    '1', '1.0', '-0.1', '1E1', '0.0000005', '0.0000009', '0.0000019', '0.9999995', '0.1234565', '5E-7', '9E-10', '0E-30', '0.0000000001', '0.00000100000000', '0.123456789012345678901234567890123'))
FIELDS = ((2000,), (2000, 2), (2000, 2, 29), (2000, 2, 29, 23), (2000, 2, 29, 23, 59), (2000, 2, 29, 23, 59, 58), (1, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59))


def scripts(name, thorough):
    out = []
    full = (2000, 2, 29, 23, 59, 58)
    if name == 'ts-fraction':
        for i, (us, fp, fs) in enumerate(itertools.product(US, FP, FS)):
            if fs is not None and us is not None and fp is not None and not thorough and i % 7:
                continue
            for how in ((6, True, 'class'), (6, False, 'class'), (5, False, 'class'), (6, True, 'function'), (3, False, 'function'))[0 if thorough else i % 2::1 if thorough else 2]:
                out.append(('us=%s precision=%s fraction=%s' % (us, fp, fs), 'time', full, how, us, fp, fs, None, 'SECOND'))
    elif name == 'ts-fields':
        for f in FIELDS:
            for npos in range(1, len(f) + 1):
                for nones in (False, True):
                    for fn in ('class', 'function'):
                        if fn == 'class' and (len(f) < 3 or npos < 3):
                            continue
                        for us, fp, fs in ((None, None, None), (500000, 1, None), (None, None, D('0.5')), (0, 0, None)):
                            for off in (None, 0, 90, -90, 1439, -1439, 59, -59, -300):
                                for prec in (None, 'MINUTE', 'SECOND') if len(f) > 4 else (None, 'YEAR', 'DAY'):
                                    if thorough or (len(out) + npos) % 2 or True:
                                        out.append(('%s' % (f,), 'time', f, (npos, nones, fn), us, fp, fs, off, prec))
    elif name == 'ts-offset':
        for h in (None, (-30, 30), (-23, 23), (0, 0)):
            for mi in (None, (-70, 70), (-59, 59), (0, 0)):
                out.append(('offset hours %s minutes %s' % (h, mi), 'shift', h, mi))
        for h in (None, (-23, 23)):
            for mi in (None, (-59, 59)):
                out.append(('offset hours %s minutes %s' % (h, mi), 'shift_in', h, mi))
    elif name.startswith('mm-'):
        ops = [(o, k) for o in ('set', 'add', 'del') for k in ('a', 'b')] + [('add', None)]
        cls = ('simple_types', 'IonPyDict') if name == 'mm-ion' else ('core', 'Multimap')
        firsts = (None,) if name != 'mm-init' else ((), (('a', 1),), (('a', 1), ('b', 2)), (('b', 1), ('a', 2), (None, 3)))
        n = (4 if name == 'mm-ops' else 3) + thorough
        for k in range(n + 1 if len(firsts) == 1 else n):
            for seq in itertools.product(ops, repeat=k):
                for f in firsts:
                    out.append((' '.join('%s %s' % o for o in seq), 'multimap', cls, f, seq))
    else:
        raise KeyError(name)
    return out


def explore(name, budget, thorough=False):
    import valexp
    e = valexp.ValueScript(world(), budget)
    s = scripts(name, thorough)
    e.run(s)
    return dict(name=name, complete=e.complete, scripts=len(s), states=len(e.nodes), transitions=e.trans, agree=e.agree, completes=e.completes,
                wall=round(e.wall, 1), unknown=e.unknown, badprobe=[], viol=[k + tuple(v) for k, v in e.viol.items()], functions=sorted(e.functions))


def job(a):
    try:
        return explore(*a)
    except Exception as x:
        import traceback
        return dict(name=a[0], error='%s: %s' % (type(x).__name__, x), tb=traceback.format_exc())


def run(prop, tier):
    return writer.run_sets(prop, tier, SETS[prop], job, EXPL[prop], RULE[prop], 'making')


EXPL = {'V01': 'Abstract interpretation of the Timestamp constructor, timestamp() and OffsetTZInfo on every combination of ways to give the fraction, the fields, the precision and the offset '
               '(offsets abstract): every path; the attributes of the result are compared with a model of the documented rules.',
        'V02': 'Abstract interpretation of Multimap and IonPyDict on all sequences of operations up to a length, each followed by all observations, compared with a model.'}
RULE = {'V01': 'the attributes are those the documentation gives for the arguments; ValueError exactly for arguments it rejects',
        'V02': 'items, iteration, length, item and all values are the model\'s; missing keys raise KeyError'}
