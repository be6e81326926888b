from _native import repeat, count


class chain(object):
    def __init__(self, *its):
        self._g = _chain(its)

    @classmethod
    def from_iterable(cls, its):
        return _chain(its)

    def __iter__(self):
        return self._g

    def __next__(self):
        return next(self._g)


def _chain(its):
    for it in its:
        for x in it:
            yield x


def islice(it, *args):
    step = 1
    if len(args) == 1:
        start, stop = 0, args[0]
    else:
        start, stop = args[0] or 0, args[1]
        if len(args) > 2 and args[2] is not None:
            step = args[2]
    i = 0
    nxt = start
    it = iter(it)
    while stop is None or nxt < stop:
        try:
            x = next(it)
        except StopIteration:
            return
        if i == nxt:
            nxt += step
            yield x
        i += 1


def zip_longest(*its, fillvalue=None):
    its = [iter(i) for i in its]
    while True:
        row = []
        live = False
        for i in its:
            try:
                row.append(next(i))
                live = True
            except StopIteration:
                row.append(fillvalue)
        if not live:
            return
        yield tuple(row)


def product(*its, repeat=1):
    pools = [tuple(i) for i in its] * repeat
    out = [()]
    for pool in pools:
        out = [x + (y,) for x in out for y in pool]
    for x in out:
        yield x


def takewhile(p, it):
    for x in it:
        if not p(x):
            return
        yield x


def dropwhile(p, it):
    it = iter(it)
    for x in it:
        if not p(x):
            yield x
            break
    for x in it:
        yield x


def filterfalse(p, it):
    for x in it:
        if not (p(x) if p is not None else x):
            yield x


def starmap(f, it):
    for a in it:
        yield f(*a)


def compress(it, sel):
    for x, s in zip(it, sel):
        if s:
            yield x


def accumulate(it, f=None, initial=None):
    it = iter(it)
    if initial is None:
        try:
            acc = next(it)
        except StopIteration:
            return
    else:
        acc = initial
    yield acc
    for x in it:
        acc = acc + x if f is None else f(acc, x)
        yield acc


def groupby(it, key=None):
    cur = []
    first = True
    for x in it:
        k = x if key is None else key(x)
        if not first and k == last:
            cur.append(x)
            continue
        if not first:
            yield last, iter(cur)
        first = False
        last = k
        cur = [x]
    if not first:
        yield last, iter(cur)


def cycle(it):
    seen = list(it)
    while seen:
        for x in seen:
            yield x


def tee(it, n=2):
    seen = list(it)
    return tuple(iter(seen) for _ in range(n))
