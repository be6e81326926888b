"""Regular expressions over partly abstract text: every abstract character is split into the atoms of the pattern's character
sets, then one representative string decides the match for all."""
import re
import warnings

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import sre_parse

from dom import *

SETS = {}
CATS = {'CATEGORY_DIGIT': '\\d', 'CATEGORY_NOT_DIGIT': '\\d', 'CATEGORY_SPACE': '\\s', 'CATEGORY_NOT_SPACE': '\\s',
        'CATEGORY_WORD': '\\w', 'CATEGORY_NOT_WORD': '\\w'}


def catset(pat, flags, isbytes):
    k = (pat, flags, isbytes)
    if k not in SETS:
        r = re.compile(pat.encode() if isbytes else pat, flags)
        out, start = [], None
        top = 0x100 if isbytes else 0x110000
        for v in range(top + 1):
            ok = v < top and r.match(bytes((v,)) if isbytes else chr(v)) is not None
            if ok and start is None:
                start = v
            elif not ok and start is not None:
                out.append((start, v - 1))
                start = None
        SETS[k] = tuple(out)
    return SETS[k]


def sets(tree, flags, isbytes, out):
    for op, av in tree:
        n = op.name
        if n in ('LITERAL', 'NOT_LITERAL'):
            out.add(((av, av),))
        elif n == 'RANGE':
            out.add((av,))
        elif n == 'ANY':
            out.add(((10, 10),))
        elif n == 'IN':
            sets(av, flags, isbytes, out)
        elif n == 'CATEGORY':
            out.add(catset(CATS[av.name], flags & (re.A | re.U), isbytes))
        elif n == 'AT':
            if 'BOUNDARY' in av.name:
                out.add(catset('\\w', flags & (re.A | re.U), isbytes))
            else:
                out.add(((10, 10),))
        elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            sets(av[2], flags, isbytes, out)
        elif n == 'SUBPATTERN':
            if av[1] or av[2]:
                return False
            sets(av[3], flags, isbytes, out)
        elif n in ('ASSERT', 'ASSERT_NOT'):
            sets(av[1], flags, isbytes, out)
        elif n == 'BRANCH':
            for b in av[1]:
                sets(b, flags, isbytes, out)
        elif n == 'NEGATE':
            pass
        else:
            out.add(None)
    return True


ATOMS = {}


def atoms(pat, flags):
    k = (pat, flags)
    if k not in ATOMS:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = sre_parse.parse(pat, flags)
        out = set()
        ok = sets(tree, tree.state.flags if hasattr(tree, 'state') else tree.pattern.flags, isinstance(pat, bytes), out)
        if not ok or None in out or flags & re.I:
            ATOMS[k] = None
        else:
            parts = [((0, 0xff),) if isinstance(pat, bytes) else ((0, 0x10ffff),)]
            for s in sorted(out):
                parts = [p for q in parts for p in (is_and(q, s), is_sub(q, s)) if p]
            ATOMS[k] = parts
    return ATOMS[k]


def represent(m, st, pat, flags, v):
    """-> a representative constant for the sequence, after splitting; None when it cannot be done"""
    if type(v) is not Seq or v.star:
        return None
    if isinstance(pat, bytes) != (v.kind == 'bytes'):
        return None
    at = atoms(pat, flags)
    if at is None:
        return None
    out = []
    for e in v.e:
        e = m.norm(st, e)
        if type(e) is int:
            out.append(e)
            continue
        if type(e) is not Sym or st.syms[e.i].kind != 'int':
            return None
        for a in at[:-1]:
            if m.indom(st, e, a):
                break
        out.append(int(st.syms[e.i].dom[0][0]))
    return bytes(out) if v.kind == 'bytes' else ''.join(chr(x) for x in out)


def piece(m, st, v, a, b):
    return None if a < 0 else m.seqnorm(st, Seq(v.kind, v.e[a:b]))


def sub(m, st, pat, flags, repl, v, count=0):
    """-> the substituted sequence or None"""
    if not isinstance(repl, (str, bytes)) or (b'\\' if isinstance(repl, bytes) else '\\') in repl:
        return None
    r = represent(m, st, pat, flags, v)
    if r is None:
        return None
    out, pos = [], 0
    for n, mt in enumerate(re.compile(pat, flags).finditer(r)):
        if count and n >= count:
            break
        out += list(v.e[pos:mt.start()]) + [c if isinstance(c, int) else ord(c) for c in repl]
        pos = mt.end()
    return m.seqnorm(st, Seq(v.kind, tuple(out) + v.e[pos:]))
