# Library models in (analysed, never executed) Python.  Loaded by world.py through the same IR as the repository.


def collect(it):
    out = []
    for x in it:
        out.append(x)
    return tuple(out)


def contains(it, v):
    for x in it:
        if x is v or x == v:
            return True
    return False


def all_eq(pairs):
    for a, b in pairs:
        if not (a is b or a == b):
            return False
    return True


def getitem_iter(o):
    i = 0
    while True:
        try:
            v = o[i]
        except IndexError:
            return
        yield v
        i += 1


def enumerate(it, start=0):
    for x in it:
        yield (start, x)
        start += 1


def zip(*its):
    its = [iter(i) for i in its]
    while its:
        row = []
        for i in its:
            try:
                row.append(next(i))
            except StopIteration:
                return
        yield tuple(row)


def map(f, *its):
    if len(its) == 1:
        for x in its[0]:
            yield f(x)
    else:
        for xs in zip(*its):
            yield f(*xs)


def filter(f, it):
    for x in it:
        if f is None:
            if x:
                yield x
        elif f(x):
            yield x


def any(it):
    for x in it:
        if x:
            return True
    return False


def all(it):
    for x in it:
        if not x:
            return False
    return True


def sum(it, start=0):
    for x in it:
        start = start + x
    return start


def min_it(it):
    first = True
    for x in it:
        if first or x < m:
            m = x
            first = False
    if first:
        raise ValueError('min() arg is an empty sequence')
    return m


def max_it(it):
    first = True
    for x in it:
        if first or x > m:
            m = x
            first = False
    if first:
        raise ValueError('max() arg is an empty sequence')
    return m


def reversed(s):
    return iter(s[::-1])


def join(sep, it):
    out = None
    for x in it:
        if not isinstance(x, type(sep)):
            raise TypeError('sequence item: expected str instance')
        if out is None:
            out = x
        else:
            out = out + sep + x
    if out is None:
        return sep[:0]
    return out


def list_sort_insert(l, key):
    out = []
    for x in l:
        k = x if key is None else key(x)
        i = 0
        while i < len(out) and not (k < out[i][0]):
            i += 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def dict_update(d, o):
    if isinstance(o, dict):
        for k in list(o):
            d[k] = o[k]
    elif hasattr(o, 'keys'):
        for k in o.keys():
            d[k] = o[k]
    else:
        for k, v in o:
            d[k] = v


def set_update(s, o):
    for x in o:
        s.add(x)


def getattr_default(f, args, default):
    try:
        return f(*args)
    except AttributeError:
        return default


def hasattr_call(f, args):
    try:
        f(*args)
    except AttributeError:
        return False
    return True


def gen_close(g):
    try:
        g.throw(GeneratorExit())
    except (GeneratorExit, StopIteration):
        return None
    raise RuntimeError('generator ignored GeneratorExit')


def iter_sentinel(f, sentinel):
    while True:
        x = f()
        if x == sentinel:
            return
        yield x


def best(it, key, default, small):
    first = True
    for x in it:
        k = x if key is None else key(x)
        if first or (k < bk if small else k > bk):
            b, bk = x, k
            first = False
    if first:
        if default:
            return default[0]
        raise ValueError('arg is an empty sequence')
    return b


def seq_less(a, b, strict):
    for x, y in zip(a, b):
        if x != y:
            return x < y
    return len(a) < len(b) if strict else len(a) <= len(b)


def fromkeys(cls, it, value=None):
    d = cls()
    for k in it:
        d[k] = value
    return d


def strftime(self, fmt):
    out = ''
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out += c
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        if d == 'Y':
            out += '%d' % self.year
        elif d == 'm':
            out += '%02d' % self.month
        elif d == 'd':
            out += '%02d' % self.day
        elif d == 'H':
            out += '%02d' % self.hour
        elif d == 'M':
            out += '%02d' % self.minute
        elif d == 'S':
            out += '%02d' % self.second
        elif d == 'f':
            out += '%06d' % self.microsecond
        elif d == '%':
            out += '%'
        elif d == 'z':
            off = self.utcoffset()
            if off is not None:
                days, secs, us = off.days, off.seconds, off.microseconds
                sign = '+'
                if days < 0:
                    sign = '-'
                    off = -off
                    secs, us = off.seconds, off.microseconds
                out += sign + '%02d%02d' % (secs // 3600, secs // 60 % 60)
                if secs % 60 or us:
                    out += '%02d' % (secs % 60)
                    if us:
                        out += '.%06d' % us
    return out


def raw_script(events, starts, ends, kinds, inc, end):
    """A raw reader that delivers given events; inc stands for 'needs data' and is answered by DATA."""
    depth = 0
    i = 0
    needs = False
    skip = 0
    cmd = yield None
    while True:
        if (cmd.type is kinds[0]) != needs:
            raise RuntimeError('the managed reader breaks the read protocol')
        if cmd.type is kinds[2]:
            if depth == 0:
                raise RuntimeError('the managed reader skips at the top level')
            skip = depth
        needs = False
        while True:
            if i == len(events):
                ev = end
                break
            ev = events[i]
            i += 1
            if ev is inc:
                needs = True
                break
            if starts[i - 1]:
                depth += 1
            elif ends[i - 1]:
                depth -= 1
            if skip == 0 or depth < skip:
                skip = 0
                break
        cmd = yield ev


class Pieces(object):
    """A file that hands out its content in the given pieces"""
    def __init__(self, parts, end):
        self.parts = parts
        self.end = end
        self.i = 0

    def read(self, n=-1):
        if self.i == len(self.parts):
            return self.end
        self.i += 1
        return self.parts[self.i - 1]


def datetime_eq(a, b, cls, neg):
    if not isinstance(b, cls):
        return NotImplemented
    oa = a.utcoffset()
    ob = b.utcoffset()
    if (oa is None) != (ob is None):
        return neg
    if oa is not None and oa != ob:
        a = a - oa
        b = b - ob
    for x, y in ((a.year, b.year), (a.month, b.month), (a.day, b.day), (a.hour, b.hour), (a.minute, b.minute), (a.second, b.second), (a.microsecond, b.microsecond)):
        if x != y:
            return neg
    return not neg
