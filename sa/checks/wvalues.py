"""Concrete values for the writer structure explorations: at least one for every form a value can take in the output."""
from decimal import Decimal as D
from wrexp import Ev, Call

SYM = ('abc', 'a b', '', 'null', 'true', 'nan', '$', '_x', '$10', '$ion', '1a', 'a-b', '+', "it's", 'a"b', 'a\\b', 'null.int', '$abc', '$1a')
TXT = ('', 'x', 'a"b', "a'b", 'a\\b', '\n\t\r', '\x00\x07\x1f\x7f', '\x80\xff', u'\u0100\u2028\uffff', u'\U0001f600\U0010ffff', '\\n', "'''", '//', '}}')


def V(n, t, v, e):
    return Ev(n, 'SCALAR', t, v, e)


def ts(fields, prec, frac=None, off=None, text=None):
    """fields: (y, mo, d, h, mi, s) as given to timestamp(); frac: Decimal fractional seconds; off: minutes or None"""
    kw = {}
    if prec:
        kw['precision'] = ('prec', prec)
    if frac is not None:
        kw['fractional_seconds'] = D(frac)
    if off is not None:
        h, mi = divmod(abs(off), 60)
        s = -1 if off < 0 else 1
        kw['off_hours'], kw['off_minutes'] = s * h, s * mi
    return Call('core', 'timestamp', *fields, **kw)


def dt(*a, **k):
    return Call('=datetime', 'datetime', *a, **k)


def tz(minutes):
    return Call('core', 'OffsetTZInfo', Call('=datetime', 'timedelta', minutes=minutes))


def scalars():
    out = []
    for i in (0, 1, -1, 10, 2 ** 31, -2 ** 63, 2 ** 64, 10 ** 40):
        out.append(V(str(i), 'INT', i, ('int', i)))
    for b in (True, False):
        out.append(V(str(b), 'BOOL', b, ('bool', b)))
    for t in 'NULL BOOL INT FLOAT DECIMAL TIMESTAMP SYMBOL STRING CLOB BLOB LIST SEXP STRUCT'.split():
        out.append(V('null.' + t, t, None, None))
    for f in (0.0, -0.0, 1.0, -1.5, 1e300, 1e-300, 5e-324, 123456789012345678.0, float('inf'), float('-inf'), float('nan'), 1e16, 1e22, 0.1):
        out.append(V(repr(f), 'FLOAT', f, ('flt', f)))
    for d in ('0', '-0', '0.0', '0E+3', '0E-9', '1', '-1', '1.5', '-12.34', '1E+5', '1E-10', '123E+3', '-9.9E-20', '1E+1000', '12345678901234567890123456789.123',
              '0.000001', '0.0000001'):
        out.append(V('d' + d, 'DECIMAL', D(d), ('dec', D(d))))
    for s in TXT:
        out.append(V('string %r' % s, 'STRING', s, ('str', s)))
    for s in SYM:
        out.append(V('symbol %r' % s, 'SYMBOL', ('tok', ('sym', s)), ('sym', s)))
    out.append(V('symbol str', 'SYMBOL', 'abc', ('sym', 'abc')))
    out.append(V('symbol sid', 'SYMBOL', ('tok', ('sid', 10)), ('sid', 10)))
    out.append(V('symbol sid 0', 'SYMBOL', ('tok', ('sid', 0)), ('sid', 0)))
    for b in (b'', b'a', b'ab', b'abc', bytes(bytearray(range(256)))):
        out.append(V('blob %d' % len(b), 'BLOB', b, ('blob', b)))
    for b in (b'', b'a"b', b"''' '\\", b'\x00\x1f\x7f\x80\xff', b'}}', b'\n\r\t'):
        out.append(V('clob %r' % b, 'CLOB', b, ('clob', [x for x in b])))
    return out


def times():
    out = []
    for f, prec, nums in (((2020,), 'YEAR', 1), ((1,), 'YEAR', 1), ((2020, 2), 'MONTH', 2), ((2020, 12, 31), 'DAY', 3), ((999, 12, 31, 23, 59), 'MINUTE', 5),
                          ((2020, 2, 29, 0, 0), 'MINUTE', 5), ((2020, 2, 29, 23, 59, 58), 'SECOND', 6), ((1899, 3, 1, 1, 2, 3), 'SECOND', 6), ((2000, 2, 29, 1, 2, 3), None, 6),
                          ((1600, 2, 29, 12, 0, 0), 'SECOND', 6), ((4, 2, 29), 'DAY', 3), ((1896, 2, 29, 1, 2), 'MINUTE', 5), ((2400, 2, 29), 'DAY', 3), ((1600, 2, 29), 'DAY', 3),
                          ((1, 1, 31), 'DAY', 3), ((1899, 12, 31, 4, 5, 6), 'SECOND', 6), ((1900, 2, 28, 23, 59), 'MINUTE', 5), ((9999, 12, 31, 23, 59, 59), 'SECOND', 6)):
        for off in ((None, 0, 330, -330, -480, 1439, -1439, 30, -30) if nums >= 5 else (None,)):
            for frac in ((None, '0', '0.0', '0.000', '0.123', '0.000001', '0.999999', '0.100', '0.123456789012', '0E-8', '0E+3', '0.00000000000001') if nums == 6 else (None,)):
                if off not in (None, 0, -330) and frac not in (None, '0.123'):
                    continue
                if f[0] in (9999, 1) and off is not None:
                    pass
                fd = None
                if frac is not None:
                    t = D(frac).as_tuple()
                    fd = None if t.exponent >= 0 else ''.join(map(str, t.digits)).zfill(-t.exponent)
                e = ('ts', f[:nums], fd, off if nums >= 5 else 'none')
                out.append(V('%s/%s off=%s frac=%s' % (f, prec, off, frac), 'TIMESTAMP', ts(f, prec, frac, off), e))
    for us in (0, 1, 120000, 999999):
        for off in (None, 0, -90):
            k = {} if off is None else {'tzinfo': tz(off)}
            out.append(V('datetime us=%d off=%s' % (us, off), 'TIMESTAMP', dt(2007, 6, 5, 4, 3, 2, us, **k), ('ts', (2007, 6, 5, 4, 3, 2), '%06d' % us, off)))
    return out
