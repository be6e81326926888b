"""Runs every t_* function of snippets.py in the abstract machine and in Python and compares the results."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', '..', 'sa'))
from dom import *          # noqa
from machine import *    # noqa
from world import World    # noqa


def back(w, st, v, depth=0):
    m = w.m
    if depth > 12:
        return '...'
    if type(v) is Ref:
        o = st.o(v)
        k = m.base_kind(st, o.cls) if type(o) is O else None
        if type(o) is not O:
            return ('?', type(o).__name__)
        if type(o.p) is list:
            if k == 'bytearray':
                return bytearray(o.p)
            r = [back(w, st, x, depth + 1) for x in o.p]
            return r
        if type(o.p) is dict:
            if k == 'set':
                return set(back(w, st, x if type(x) is not tuple else x[0], depth + 1) for x in o.p.values())
            return dict((back(w, st, a, depth + 1), back(w, st, b, depth + 1)) for a, b in o.p.values())
        if o.p is not None:
            return back(w, st, m.raw(st, v), depth + 1)
        return ('?', st.o(o.cls).name)
    if type(v) is tuple:
        return tuple(back(w, st, x, depth + 1) for x in v)
    return v


def main():
    src = open(os.path.join(HERE, 'snippets.py')).read()
    ns = {}
    exec(compile(src, 'snippets', 'exec'), ns)
    w = World()
    w.sources['snippets'] = src
    try:
        r = w.load(w.st, 'snippets')
    except Exception as e:
        import traceback
        traceback.print_exc()
        return
    w.freeze()
    d = w.st.o(r).d
    bad = 0
    names = [n for n in ns if n.startswith('t_') and (len(sys.argv) < 2 or n in sys.argv[1:])]
    for n in names:
        exp = ns[n]()
        try:
            outs = w.m.call_all(w.state(), d[n], (), {})
        except Exception as e:
            print(n, 'CRASH', type(e).__name__, str(e)[:150]); bad += 1
            if len(sys.argv) > 1: import traceback; traceback.print_exc()
            continue
        if len(outs) != 1 or outs[0].kind != 'return':
            o = outs[0]
            print(n, 'FAIL', [(x.kind, str(x.v)[:150] if x.kind == 'unknown' else (w.m.exc_name(x.st, x.v), x.st.o(x.v).attrs.get('args')) if x.kind == 'raise' else '') for x in outs][:3]); bad += 1
            continue
        got = back(w, outs[0].st, outs[0].v)
        norm = lambda x: repr([list(x) if type(x) is deque_t else x for x in [x]])
        if got != exp and repr(got) != repr(exp):
            print(n, 'DIFF got', str(got)[:300], '\n     exp', str(exp)[:300]); bad += 1
    print('%d of %d differ' % (bad, len(names)))


from collections import deque as deque_t  # noqa
if __name__ == '__main__':
    main()
