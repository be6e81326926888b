"""Reference machine for Ion 1.0 binary, written from the Ion specification (independent of /repo's code).

State: (phase, stack, field, anns, data)
  stack   tuple of (kind, remaining bytes); kinds LIST SEXP STRUCT, WRAP (annotation wrapper)
  field   SID bytes of the current field name, or None;  anns: tuple of SID byte tuples
  data    phase dependent
Bytes are abstract symbols; `step` partitions the domain of the next byte.
"""
from dom import is_sub, is_and, is_one

DEAD, OOS = 'dead', 'oos'
TIDS = ('NULL', 'BOOL', 'INT', 'INT', 'FLOAT', 'DECIMAL', 'TIMESTAMP', 'SYMBOL', 'STRING', 'CLOB', 'BLOB', 'LIST',
        'SEXP', 'STRUCT')
CONT = ('LIST', 'SEXP', 'STRUCT')
BYTE = ((0, 255),)


class RefBin(object):
    def __init__(self, types=None, inner=None, lens=(), alens=(1,), maxdepth=1, maxtop=1, skip=None, paylen=13,
                 split=(), fields=((0x80, 255),), sids=((0x80, 255),), maxdead=2, inner2=None):
        self.types = set(types) if types is not None else set(range(256))
        self.inner = set(inner) if inner is not None else self.types
        self.inner2 = set(inner2) if inner2 is not None else self.inner
        self.lens, self.alens = lens, alens
        self.maxdepth, self.maxtop = maxdepth, maxtop
        self.skip = skip
        self.paylen = paylen
        self.split = dict(split)
        self.fields, self.sids = fields, sids
        self.maxdead = maxdead
        self.initial = (('ivm', 0), (), None, (), 0)

    # ---- the alphabet offered in a state: list of domains (the machine is asked about each separately)
    def alphabet(self, rs):
        if rs[0] == DEAD:
            tail = rs[2] if len(rs) > 2 else ()
            return [((x, x),) for x in (tail[rs[1]:rs[1] + 1] or (0x21, 0x81, 0x84))]
        if rs[0] in ('TOP', OOS):
            return []
        ph = rs[0]
        p = ph[0]
        if p == 'ivm':
            b = (0xE0, 1, 0, 0xEA)[ph[1]]
            return [((b, b),), is_sub(BYTE, ((b, b),))]
        if p == 'T':
            ts = self.types if not rs[1] else self.inner if len(rs[1]) < 2 else self.inner2
            return [((t, t),) for t in sorted(ts)]
        if p == 'IVMT':
            b = (1, 0, 0xEA)[ph[1]]
            return [((b, b),), is_sub(BYTE, ((b, b),))]
        if p == 'L':
            return [((x, x),) for x in (self.lens if ph[1] != 'WRAP' else self.lens)]
        if p == 'AL':
            return [((x, x),) for x in self.alens]
        if p == 'F':
            return [(x,) for x in self.fields] if len(ph[1]) < 2 else [((128, 255),)]
        if p == 'AS':
            return [(x,) for x in self.sids]
        if p == 'P':
            k = (ph[1], len(ph[3]))
            sp = self.split.get(k) or self.split.get((ph[1], None))
            return [d if type(d[0]) is tuple else (d,) for d in sp] if sp else [BYTE]
        return [BYTE]

    # ---- one byte; dom is one of alphabet(rs) (a single block); returns (next state, outs)
    def step(self, rs, c, dom):
        if rs[0] == DEAD:
            tail = rs[2] if len(rs) > 2 else ()
            return ((DEAD, rs[1] + 1) + rs[2:], ()) if rs[1] < self.maxdead + len(tail) else (OOS, ())
        if rs[0] in ('TOP', OOS):
            return OOS, ()
        ph, stack, field, anns, tops = rs
        v = dom[0][0] if is_one(dom) else None
        p = ph[0]
        if p == 'ivm':
            if v is None or v != (0xE0, 1, 0, 0xEA)[ph[1]]:
                return (DEAD, 0), ()
            if ph[1] == 3:
                return (('T',), (), None, (), tops), (('IVM',),)
            return (('ivm', ph[1] + 1), (), None, (), 0), ()
        # every byte has to lie within all enclosing containers
        if any(n < 1 for _, n in stack):
            raise AssertionError(rs)
        stack = tuple((k, n - 1) for k, n in stack)
        room = stack[-1][1] if stack else None
        if p == 'T':
            return self.type(v, stack, field, anns, tops, room)
        if p == 'IVMT':
            if v != (1, 0, 0xEA)[ph[1]]:
                return (DEAD, 0), ()
            if ph[1] == 2:
                return self.done(('IVM',), stack, tops)
            return (('IVMT', ph[1] + 1), stack, field, anns, tops), ()
        if p == 'L':
            typ, acc = ph[1:3]
            acc = acc * 128 + (v & 127)
            if not v & 128 and len(ph) > 4:
                return OOS, ()
            if not v & 128:
                if room == 0:
                    return (DEAD, 0, (0x80,)), ()
                return (('L', typ, acc) + (0,) * (len(ph) - 2), stack, field, anns, tops), ()
            if typ == 'D1' and acc < 2:
                return (DEAD, 0), ()
            return self.sized('STRUCT' if typ == 'D1' else typ, acc, stack, field, anns, tops, room)
        if p == 'F':
            f = ph[1] + (c,)
            if dom[0][0] >= 128:
                if room == 0:
                    return (DEAD, 0), ()
                return (('T',), stack, f, anns, tops), ()
            if room == 0:
                return (DEAD, 0, (0x80, 0x20)), ()
            return (('F', f), stack, None, anns, tops), ()
        if p == 'AL':
            acc = ph[1] * 128 + (v & 127)
            if not v & 128:
                if len(ph) > 3 and room:
                    return OOS, ()
                return ((DEAD, 0), ()) if room == 0 else ((('AL', acc) + (0,) * (len(ph) - 1), stack, field, anns, tops), ())
            if acc < 1 or acc >= room:
                return (DEAD, 0), ()
            return (('AS', acc, ()), stack, field, anns, tops), ()
        if p == 'AS':
            _, n, cur = ph
            cur = cur + (c,)
            if dom[0][0] >= 128:
                anns = anns + (cur,)
                cur = ()
            if n == 1:
                if cur:
                    return (DEAD, 0), ()
                return (('T',), stack, field, anns, tops), ()
            return (('AS', n - 1, cur), stack, field, anns, tops), ()
        if p == 'P':
            _, typ, n, acc = ph
            acc = acc + (c,)
            if n > 1:
                return (('P', typ, n - 1, acc), stack, field, anns, tops), ()
            return self.scalar(typ, acc, stack, field, anns, tops)
        if p == 'S':
            if ph[1] > 1:
                return (('S', ph[1] - 1), stack, field, anns, tops), ()
            return self.after(stack, tops, ())
        if p == 'K':
            if ph[1] > 1:
                return (('K', ph[1] - 1), stack, field, anns, tops), ()
            return self.after(stack, tops, ())
        raise AssertionError(ph)

    def depth(self, stack):
        return sum(1 for k, _ in stack if k != 'WRAP')

    def type(self, v, stack, field, anns, tops, room):
        tid, ln = v >> 4, v & 15
        wrap = bool(stack) and stack[-1][0] == 'WRAP'
        die = (DEAD, 0), ()
        if tid == 15:
            return die
        if tid == 14:
            if ln == 0:
                if stack:
                    return (DEAD, 0, (1, 0, 0xEA)), ()
                return (('IVMT', 0), stack, field, anns, tops), ()
            if wrap:
                return (DEAD, 0, (0x81, 0x84, 0x21) if ln > 3 else (0x81, 0x84, 0x20)), ()
            if ln < 3 or ln == 15:
                return die
            if ln == 14:
                if room == 0:
                    return (DEAD, 0, (0x83,)), ()
                return (('L', 'WRAP', 0), stack, field, anns, tops), ()
            return self.sized('WRAP', ln, stack, field, anns, tops, room)
        typ = TIDS[tid]
        if ln == 15:
            return self.scalar(typ, None, stack, field, anns, tops)
        if typ == 'NULL':
            if wrap:
                return die
            if field is not None:
                d = field_zero(self.st, field)
                if d is None:
                    return OOS, ()
                if not d:
                    return die
            typ = 'PAD'
        elif typ == 'BOOL':
            if ln > 1:
                return die
            return self.scalar(typ, bool(ln), stack, field, anns, tops)
        elif tid == 3:
            typ = 'NEG'
            if ln == 0:
                return die
        elif typ == 'FLOAT':
            if ln not in (0, 4, 8):
                return die
        elif typ == 'TIMESTAMP':
            if ln == 0:
                return die
        elif typ == 'STRUCT' and ln == 1:
            if room == 0:
                return die
            return (('L', 'D1', 0), stack, field, anns, tops), ()
        if ln == 14:
            if room == 0:
                return (DEAD, 0, (0x80,)), ()
            return (('L', typ, 0), stack, field, anns, tops), ()
        return self.sized(typ, ln, stack, field, anns, tops, room)

    def sized(self, typ, n, stack, field, anns, tops, room):
        die = (DEAD, 0), ()
        if room is not None and n > room:
            return die
        if typ == 'WRAP':
            if n < 3:
                return die
            return (('AL', 0), stack + (('WRAP', n),), field, anns, tops), ()
        if typ == 'PAD':
            if n == 0:
                return self.after(stack, tops, ())
            return (('S', n), stack, field, anns, tops), ()
        wrap = bool(stack) and stack[-1][0] == 'WRAP'
        if wrap and n != room:
            return die
        if typ in CONT:
            d = self.depth(stack)
            if d >= self.maxdepth:
                return OOS, ()
            ev = ('START', typ, d, field, anns)
            st2 = stack + ((typ, n),)
            if self.skip and self.skip(ev):
                if n == 0:
                    return self.after(st2, tops, (ev,))
                return (('K', n), st2, None, (), tops), (ev,)
            return self.after(st2, tops, (ev,), skipped=True)
        if n == 0:
            return self.scalar(typ, (), stack, field, anns, tops)
        if n > self.paylen:
            return OOS, ()
        return (('P', typ, n, ()), stack, field, anns, tops), ()

    def scalar(self, typ, data, stack, field, anns, tops):
        wrap = bool(stack) and stack[-1][0] == 'WRAP'
        if wrap and stack[-1][1] != 0:
            return (DEAD, 0), ()
        sign = 1
        if typ == 'NEG':
            typ, sign = 'INT', -1
        ev = ('SCALAR', typ, (data, sign) if typ == 'INT' and data is not None else data, self.depth(stack), field, anns)
        if self.skip and self.skip(ev) and stack:
            s2 = tuple(x for x in stack)
            while s2 and s2[-1][0] == 'WRAP':
                s2 = s2[:-1]
            if s2 and s2[-1][1]:
                return (('K', s2[-1][1]), s2, None, (), tops), (ev,)
        return self.after(stack, tops, (ev,))

    def done(self, ev, stack, tops):
        return self.after(stack, tops, (ev,))

    def after(self, stack, tops, outs, skipped=False):
        """A value (or pad, or container start) ended: close what is complete, then expect the next thing."""
        outs = tuple(outs)
        while stack:
            k, n = stack[-1]
            if k == 'WRAP':
                if n:
                    if skipped:
                        break
                    return (DEAD, 0), ()
                stack = stack[:-1]
                continue
            if n:
                break
            stack = stack[:-1]
            ev = ('END', k, self.depth(stack))
            outs += (ev,)
            skipped = False
            if self.skip and self.skip(ev):
                s2 = stack
                while s2 and s2[-1] == ('WRAP', 0):
                    s2 = s2[:-1]
                if s2 and s2[-1][0] != 'WRAP' and s2[-1][1]:
                    return (('K', s2[-1][1]), s2, None, (), tops), outs
        if not stack:
            tops += 1
            if tops >= self.maxtop:
                return ('TOP',), outs
            return (('T',), (), None, (), tops), outs
        if stack[-1][0] == 'STRUCT':
            return (('F', ()), stack, None, (), tops), outs
        return (('T',), stack, None, (), tops), outs

    def top_state(self):
        return (("T",), (), None, (), 0)

    def boundary(self, rs):
        return rs[0] == 'TOP' or rs[0] not in (DEAD, OOS) and type(rs[0]) is tuple and rs[0] == ('T',) and not rs[1]


def field_zero(st, f):
    """Is the VarUInt certainly zero / certainly not / unknown (None)."""
    lo = hi = 0
    for b in f:
        d = st.syms[b.i].dom if not isinstance(b, int) else ((b, b),)
        vs = [(a & 127, z & 127) if a >> 7 == z >> 7 else (0, 127) for a, z in d]
        lo += min(a for a, _ in vs)
        hi += max(z for _, z in vs)
    return True if hi == 0 else False if lo > 0 else None
