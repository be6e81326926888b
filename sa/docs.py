"""Ion documents (text and binary, partly abstract) for given neutral events.

Neutral events: ('SCALAR', type, value, depth, field, annotations), ('START', type, depth, field, annotations), ('END', type, depth).
Values: None, ('bool', b), ('int', n), ('flt', x), ('dec', Decimal), ('ts', fields, fraction, offset), ('sym', text), ('sid', n), ('str', els),
('clob', els), ('blob', els); els: str/bytes or a tuple of code points / octets, which may be abstract.  ('num', text elements, octets, value):
an int given by its elements in either format."""
import base64
import struct

from dom import Sym, Lin

KINDS = ('NULL', 'BOOL', 'INT', None, 'FLOAT', 'DECIMAL', 'TIMESTAMP', 'SYMBOL', 'STRING', 'CLOB', 'BLOB', 'LIST', 'SEXP', 'STRUCT')


def els(v):
    return [ord(c) for c in v] if isinstance(v, str) else list(bytearray(v)) if isinstance(v, bytes) else list(v)


# ---------------------------------------------------------------------------------------------- text
def T(s):
    return [ord(c) for c in s]


def quoted(v, q):
    out = []
    for c in els(v):
        if type(c) is not int or 32 <= c < 127 and c not in (ord(q), 92):
            out.append(c)
        else:
            out += T('\\x%02x' % c if c < 256 else '\\u%04x' % c if c < 65536 else '\\U%08x' % c)
    return T(q) + out + T(q)


def symbol(t):
    return T('$%d' % t[1]) if t[0] == 'sid' else quoted(t[1], "'")


def text_scalar(typ, v):
    if v is None:
        return T('null.' + typ.lower())
    k = v[0]
    if k == 'bool':
        return T('true' if v[1] else 'false')
    if k == 'int':
        return T(str(v[1]))
    if k == 'num':
        return list(v[1])
    if k == 'flt':
        x = v[1]
        s = repr(x)
        return T('nan' if x != x else '+inf' if s == 'inf' else s if s == '-inf' or 'e' in s else s + 'e0')
    if k == 'dec':
        s, ds, e = v[1].as_tuple()
        return T('%s%sd%d' % ('-' * s, ''.join(map(str, ds)), e))
    if k == 'ts':
        f = v[1]
        s = '%04d' % f[0] + ''.join('-%02d' % x for x in f[1:3])
        if len(f) < 3:
            return T(s + 'T')
        if len(f) == 3:
            return T(s)
        s += 'T%02d:%02d' % f[3:5] + ''.join(':%02d' % x for x in f[5:6])
        if v[2] is not None:
            s += '.' + '%0*d' % (-v[2].as_tuple().exponent, int(v[2].scaleb(-v[2].as_tuple().exponent)))
        o = v[3]
        return T(s + ('-00:00' if o is None else 'Z' if o == 0 else '%s%02d:%02d' % ('-' if o < 0 else '+', abs(o) // 60, abs(o) % 60)))
    if k in ('sym', 'sid'):
        return symbol(v)
    if k == 'str':
        return quoted(v[1], '"')
    if k == 'clob':
        return T('{{') + quoted(v[1], '"') + T('}}')
    return T('{{' + base64.b64encode(bytes(bytearray(els(v[1])))).decode() + '}}')


def text(events):
    out, stack, first = [], [], True
    for e in events:
        if e[0] == 'END':
            out += T(stack.pop())
            first = False
            continue
        if not first:
            out += T(',' if stack and stack[-1] in ']}' else ' ')
        d, field, anns = e[-3:]
        if field is not None:
            out += symbol(field) + T(':')
        for a in anns:
            out += symbol(a) + T('::')
        if e[0] == 'START':
            o, c = {'LIST': '[]', 'SEXP': '()', 'STRUCT': '{}'}[e[1]]
            out += T(o)
            stack.append(c)
            first = True
        else:
            out += text_scalar(e[1], e[2])
            first = False
    return out


# ---------------------------------------------------------------------------------------------- binary
def varuint(n):
    out = [n & 127 | 128]
    while n > 127:
        n >>= 7
        out.insert(0, n & 127)
    return out


def varint(n, neg=False):
    s, m = 64 if n < 0 or neg else 0, abs(n)
    out = [m & 127]
    while m > 127:
        m >>= 7
        out.insert(0, m & 127)
    if out[0] & 64:
        out.insert(0, 0)
    out[0] |= s
    out[-1] |= 128
    return out


def uint(n):
    return list(bytearray(n.to_bytes((n.bit_length() + 7) // 8, 'big')))


def sint(n, neg):
    if n == 0 and not neg:
        return []
    b = uint(abs(n)) or [0]
    if b[0] & 128:
        b.insert(0, 0)
    if neg:
        b[0] |= 128
    return b


def decimal(d):
    s, ds, e = d.as_tuple()
    n = int(''.join(map(str, ds)))
    return [] if (s, n, e) == (0, 0, 0) else varint(e) + sint(n, s)


def tagged(t, body):
    return [t << 4 | len(body)] + body if len(body) < 14 else [t << 4 | 14] + varuint(len(body)) + body


def encode(text):
    """Code points, abstract ones below 128 -> octets"""
    out = []
    for c in els(text):
        out += [c] if type(c) is not int else list(bytearray(chr(c).encode('utf-8')))
    return out


class Binary(object):
    def __init__(self):
        self.table = []

    def sid(self, t):
        if t[0] == 'sid':
            return t[1]
        k = t[1] if isinstance(t[1], str) else tuple(t[1])
        if k not in self.table:
            self.table.append(k)
        return 10 + self.table.index(k)

    def scalar(self, typ, v):
        if v is None:
            k = KINDS.index(typ)
            return [k << 4 | 15]
        k = v[0]
        if k == 'bool':
            return [0x11 if v[1] else 0x10]
        if k == 'int':
            return tagged(3 if v[1] < 0 else 2, uint(abs(v[1])))
        if k == 'num':
            return tagged(2, list(v[2]))
        if k == 'flt':
            return tagged(4, list(bytearray(struct.pack('>d', v[1]))))
        if k == 'dec':
            return tagged(5, decimal(v[1]))
        if k == 'ts':
            import datetime
            f, o = list(v[1]), v[3]
            b = varint(0, True) if o is None else varint(o)
            if o:
                x = datetime.datetime(*(f + [1] * (3 - len(f)) + [0] * max(0, 6 - max(3, len(f))))) - datetime.timedelta(minutes=o)
                f = [x.year, x.month, x.day, x.hour, x.minute, x.second][:len(f)]
            for x in f:
                b += varuint(x)
            return tagged(6, b + (decimal(v[2]) if v[2] is not None else []))
        if k in ('sym', 'sid'):
            return tagged(7, uint(self.sid(v)))
        if k == 'str':
            return tagged(8, encode(v[1]))
        return tagged(9 if k == 'clob' else 10, els(v[1]))

    def document(self, events):
        stack = [[]]
        heads = []
        for e in events:
            if e[0] == 'END':
                body = stack.pop()
                t, pre, anns = heads.pop()
                self.put(stack[-1], pre, anns, tagged(t, body))
                continue
            field, anns = e[-2:]
            pre = varuint(self.sid(field)) if field is not None else []
            anns = [x for a in anns for x in varuint(self.sid(a))]
            if e[0] == 'START':
                heads.append((KINDS.index(e[1]), pre, anns))
                stack.append([])
            else:
                self.put(stack[-1], pre, anns, self.scalar(e[1], e[2]))
        lst = []
        if self.table:
            syms = [x for t in self.table for x in tagged(8, encode(t))]
            lst = tagged(13, varuint(7) + tagged(11, syms))
            lst = tagged(14, varuint(1) + varuint(3) + lst)
        return [0xE0, 1, 0, 0xEA] + lst + stack[0]

    def put(self, out, pre, anns, body):
        out += pre + (tagged(14, varuint(len(anns)) + anns + body) if anns else body)


def binary(events):
    return Binary().document(events)
