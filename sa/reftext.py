"""Reference machine for Ion 1.0 text, written from the specification (not from /repo).

A state is a tuple (stack, pos, field, anns, tok).  step(state, c, dom) partitions the set `dom` of possible next
characters and returns [(subset, state', outputs)].  Content is carried as sequences of the abstract characters
themselves, so what a reader delivers can be compared character by character.  DEAD: no continuation is legal Ion.
OOS: the reference leaves the behaviour open (stated per rule), the exploration stops there.
"""
from dom import *

DEAD = ('dead',)
OOS = ('oos',)


def cs(s):
    return is_from([ord(c) for c in s])


WS = cs(' \t\n\r\v\f')
NL = cs('\r\n')
DIG = cs('0123456789')
NZ = cs('123456789')
HEX = cs('0123456789abcdefABCDEF')
BIN = cs('01')
LET = cs('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
IDS = is_or(LET, cs('_$'))
IDC = is_or(IDS, DIG)
OPS = cs('!#%&*+-./;<=>?@^`|~')
# operators that end a token within an s-expression; a following '+' or '-' may also begin a number (left open)
SOPS = is_sub(OPS, cs('/+-'))
STOP = is_or(WS, cs('{}[](),"\''))          # the numeric stop characters
B64 = is_or(is_or(LET, DIG), cs('+/'))
ESC1 = {'a': 7, 'b': 8, 't': 9, 'n': 10, 'f': 12, 'r': 13, 'v': 11, '?': 63, '0': 0, "'": 39, '"': 34, '/': 47, '\\': 92}
CTRL = ((0, 0x1f), (0x7f, 0x7f))
TYPES = {'null': 'NULL', 'bool': 'BOOL', 'int': 'INT', 'float': 'FLOAT', 'decimal': 'DECIMAL',
         'timestamp': 'TIMESTAMP', 'string': 'STRING', 'symbol': 'SYMBOL', 'blob': 'BLOB', 'clob': 'CLOB',
         'struct': 'STRUCT', 'list': 'LIST', 'sexp': 'SEXP'}
KEYWORDS = {'null': ('NULL', None), 'true': ('BOOL', ('const', True)), 'false': ('BOOL', ('const', False)),
            'nan': ('FLOAT', ('const', 'nan'))}
CT = {'L': 'LIST', 'S': 'SEXP', 'T': 'STRUCT'}
CEND = {'L': ord(']'), 'S': ord(')'), 'T': ord('}')}


def one(ch):
    v = ord(ch) if isinstance(ch, str) else ch
    return ((v, v),)


class Ref(object):
    """maxdepth / maxanns: bounds beyond which the exploration stops (OOS)."""

    def __init__(self, maxdepth=2, maxanns=1, starts=None, nested=True):
        self.maxdepth = maxdepth
        self.maxanns = maxanns
        self.starts = starts           # set of characters allowed to start a value (None: all)
        self.initial = ('', 'v', None, (), None)

    # ------------------------------------------------------------------ helpers
    def split(self, dom, alts):
        """alts: [(set, fn)]; fn(sub) -> list of (set, state, outs)."""
        out = []
        for s, f in alts:
            sub = is_and(dom, s)
            if sub:
                dom = is_sub(dom, s)
                r = f(sub)
                out.extend(r)
        if dom:
            out.append((dom, DEAD, ()))
        return out

    @staticmethod
    def go(state, outs=()):
        return lambda sub: [(sub, state, tuple(outs))]

    def add(self, seq, c, sub):
        """Append the current character (narrowed to `sub`)."""
        if is_one(sub):
            c = sub[0][0]
        if seq.star:
            return seq
        return Seq(seq.kind, seq.e + (c,), False)

    def scalar(self, s, typ, value):
        stack, pos, field, anns, _ = s
        return ('SCALAR', typ, value, len(stack), field, anns)

    def after(self, s):
        """State after a complete value in the current container."""
        stack = s[0]
        return (stack, 'a' if stack and stack[-1] in 'LT' else 'v', None, (), None)

    def with_tok(self, s, tok):
        return s[:4] + (tok,)

    def then(self, s, outs, c, sub):
        """Emit outs, then process the same character in state s."""
        return [(d, s2, tuple(outs) + tuple(o)) for d, s2, o in self.step(s, c, sub)]

    # ------------------------------------------------------------------ widening
    def collapsible(self, s, pend):
        """Sequences whose content no longer influences the reference: [(Seq, minimal length, lower bound kept)]."""
        out = []

        def walk(v, need, low, start=0, const=False):
            if type(v) is Seq:
                if const and len(v.e) > 1 or any(type(x) is not int for x in v.e):
                    out.append((v, need, low, start))
            elif type(v) is tuple:
                for x in v:
                    walk(x, need, low, start, const)
        if s not in (DEAD, OOS):
            walk(s[2], 1, 1)
            walk(s[3], 1, 1)
            if s[4] is not None:
                k = s[4][0]
                if k in ('num', 'inf', 'ts', 'tT', 'off', 'tend', 'ivm', 'year'):
                    walk(s[4], 6, 5)
                elif k == 'id':
                    walk(s[4], 1, 1, 1 if s[4][2] == 2 else 0)
                else:
                    walk(s[4], 1, 1, 0, k in ('str', 'qsym', 'ls', 'lse', 'clob', 'cls', 'cle', 'clse'))
        walk(pend, 1, 1)
        return out

    # ------------------------------------------------------------------ dispatch
    def step(self, s, c, dom):
        if s in (DEAD, OOS):
            return [(dom, s, ())]
        tok = s[4]
        if tok is None:
            return self.between(s, c, dom)
        return getattr(self, 't_' + tok[0])(s, c, dom, *tok[1:])

    def eof(self, s):
        """-> outs (list) if the input may end here, else None."""
        if s in (DEAD, OOS):
            return None
        tok = s[4]
        if s[0]:
            return None
        if tok is None:
            return None if (s[3] or s[2] is not None) else []
        f = getattr(self, 'e_' + tok[0], None)
        return f(s, *tok[1:]) if f else None

    # ------------------------------------------------------------------ between tokens
    def between(self, s, c, dom):
        stack, pos, field, anns, _ = s
        top = stack[-1] if stack else ''
        alts = [(WS, self.go(s))]
        if top == 'S':
            alts.append((one('/'), self.go(self.with_tok(s, ('sslash', None)))))
        else:
            alts.append((one('/'), self.go(self.with_tok(s, ('slash',)))))
        if stack and not anns and field is None and pos != ':' and (pos != 'v' or top != 'T'):
            par = stack[:-1]
            close = (par, 'a' if par and par[-1] in 'LT' else 'v', None, (), None)
            alts.append((one(CEND[top]), self.go(close, [('END', CT[top], len(par))])))
        if pos == 'a':
            alts.append((one(','), self.go((stack, 'f' if top == 'T' else 'v', None, (), None))))
            return self.split(dom, alts)
        if pos == 'f':
            alts += [(one('"'), self.go(self.with_tok(s, ('str', 'field', Seq('str', ()), 0)))),
                     (one("'"), self.go(self.with_tok(s, ('q1',)))),
                     (IDS, lambda sub: [(d, self.with_tok(s, ('id', self.add(Seq('str', ()), c, d), int(d == one('$')))), ())
                                        for d in self.classes(sub)])]
            return self.split(dom, alts)
        if pos == ':':
            alts.append((one(':'), self.go((stack, 'v', field, (), None))))
            return self.split(dom, alts)
        # a value may start here
        v = [(one('-'), self.go(self.with_tok(s, ('neg',)))),
             (one('+'), self.go(self.with_tok(s, ('plus',)))),
             (one('0'), self.go(self.with_tok(s, ('num', 'z', 1, self.add(Seq('bytes', ()), 48, one('0')), False)))),
             (NZ, lambda sub: [(sub, self.with_tok(s, ('num', 'i', 1, self.add(Seq('bytes', ()), c, sub), False)), ())]),
             (one('{'), self.go(self.with_tok(s, ('brace',)))),
             (one('['), lambda sub: self.open(s, 'L', sub)),
             (one('('), lambda sub: self.open(s, 'S', sub)),
             (one('"'), self.go(self.with_tok(s, ('str', 'value', Seq('str', ()), 0)))),
             (one("'"), self.go(self.with_tok(s, ('q1',)))),
             (IDS, lambda sub: [(d, self.with_tok(s, ('id', self.add(Seq('str', ()), c, d), int(d == one('$')))), ())
                                for d in self.classes(sub)])]
        if top == 'S':
            v.append((is_sub(OPS, cs('/+-')), lambda sub: [(sub, self.with_tok(s, ('op', self.add(Seq('str', ()), c, sub))), ())]))
        if self.starts is not None:
            allowed = self.starts
            v2 = []
            for st_, f in v:
                a = is_and(st_, allowed)
                b = is_sub(st_, allowed)
                if a:
                    v2.append((a, f))
                if b:
                    v2.append((b, self.go(OOS)))
            v = v2
        return self.split(dom, alts + v)

    def classes(self, sub):
        """Keyword-relevant characters are tracked individually."""
        out = []
        for ch in 'ntf$i':
            o = is_and(sub, one(ch))
            if o:
                out.append(o)
                sub = is_sub(sub, o)
        if sub:
            out.append(sub)
        return out

    def open(self, s, k, sub):
        stack, pos, field, anns, _ = s
        if len(stack) >= self.maxdepth:
            return [(sub, OOS, ())]
        return [(sub, (stack + k, 'f' if k == 'T' else '0' if k == 'L' else 'v', None, (), None),
                 (('START', CT[k], len(stack), field, anns),))]

    # ------------------------------------------------------------------ comments
    def t_slash(self, s, c, dom):
        return self.split(dom, [(one('/'), self.go(self.with_tok(s, ('lc', None)))),
                                (one('*'), self.go(self.with_tok(s, ('bc', False, None))))])

    def t_lc(self, s, c, dom, resume):
        return self.split(dom, [(NL, self.go(self.with_tok(s, resume))), (CHAR, self.go(s))])

    def e_lc(self, s, resume):
        return self.eof(self.with_tok(s, resume))

    def t_bc(self, s, c, dom, star, resume):
        alts = []
        if star:
            alts.append((one('/'), self.go(self.with_tok(s, resume))))
        alts.append((one('*'), self.go(self.with_tok(s, ('bc', True, resume)))))
        alts.append((CHAR, self.go(self.with_tok(s, ('bc', False, resume)))))
        return self.split(dom, alts)

    def t_sslash(self, s, c, dom, resume):
        """'/' inside an s-expression: a comment or the beginning of an operator."""
        def op(sub):
            s2, outs = s, []
            if resume is not None:
                s2, outs = self.settle(self.with_tok(s, resume))
            s2 = self.with_tok(s2, ('op', Seq('str', (47,))))
            return self.then(s2, outs, c, sub)
        return self.split(dom, [(one('/'), self.go(self.with_tok(s, ('lc', resume)))),
                                (one('*'), self.go(self.with_tok(s, ('bc', False, resume)))),
                                (CHAR, op)])

    def settle(self, s):
        """A pending symbol / long string turns out to be a complete value."""
        tok = s[4]
        if tok[0] == 'psym':
            out = self.scalar(s, 'SYMBOL', tok[1])
        else:
            out = self.scalar(s, 'STRING', ('text', tok[1]))
        return self.after(s), [out]

    # ------------------------------------------------------------------ symbols and keywords
    def t_op(self, s, c, dom, text):
        def more(sub):
            return [(sub, self.with_tok(s, ('op', self.add(text, c, sub))), ())]
        end = [self.scalar(s, 'SYMBOL', ('sym', text))]
        return self.split(dom, [(OPS, more), (CHAR, lambda sub: self.then(self.after(s), end, c, sub))])

    def kwtext(self, text):
        if text.star or any(type(x) is not int for x in text.e):
            return None
        return ''.join(chr(x) for x in text.e)

    # sid: 0 not a symbol identifier; 1 just '$'; 2 '$' digits
    def t_id(self, s, c, dom, text, sid):
        stack = s[0]
        sexp = bool(stack) and stack[-1] == 'S'
        isfield = s[1] == 'f'
        t = self.kwtext(text)
        kw = t in KEYWORDS

        def more(sub):
            out = []
            if sid:
                o = is_and(sub, DIG)
                if o:
                    out.append((o, self.with_tok(s, ('id', self.add(text, c, o), 2)), ()))
                    sub = is_sub(sub, o)
            if t is not None:
                for k in list(KEYWORDS) + ['$ion_']:
                    if k.startswith(t) and len(k) > len(t):
                        o = is_and(sub, one(k[len(t)]))
                        if o:
                            out.append((o, self.with_tok(s, ('id', self.add(text, c, o), 0)), ()))
                            sub = is_sub(sub, o)
            if t == '$ion_' and not stack and not s[3] and not isfield:
                # version-marker look-alikes: tracked by their own token
                return out + self.t_ivm(s, c, sub, text, 0)
            if sub:
                out.append((sub, self.with_tok(s, ('id', self.add(text, c, sub), 0)), ()))
            return out

        if kw:
            typ, val = KEYWORDS[t]
            if isfield:
                alts = [(IDC, more)]
                return self.split(dom, alts)
            outs = [self.scalar(s, typ, val)]
            alts = [(IDC, more)]
            if t == 'null':
                alts.append((one('.'), self.go(self.with_tok(s, ('tnull', '')))))
            alts.append((one(':'), self.go(DEAD)))
            alts.append((is_or(STOP, one('/')), lambda sub: self.then(self.after(s), outs, c, sub)))
            if sexp:
                alts.append((SOPS, lambda sub: self.then(self.after(s), outs, c, sub)))
                alts.append((OPS, self.go(OOS)))
            return self.split(dom, alts)
        sym = self.symval(text, sid)
        ps = self.with_tok(s, ('psym', sym, False))
        alts = [(IDC, more),
                (is_or(WS, cs('/:')), lambda sub: self.then(ps, [], c, sub))]
        if isfield:
            return self.split(dom, alts)
        alts.append((STOP, lambda sub: self.then(self.after(s), [self.scalar(s, 'SYMBOL', sym)], c, sub)))
        if sexp:
            alts.append((SOPS, lambda sub: self.then(self.after(s), [self.scalar(s, 'SYMBOL', sym)], c, sub)))
            alts.append((OPS, self.go(OOS)))
        return self.split(dom, alts)

    def t_ivm(self, s, c, dom, text, stage):
        """After '$ion_' at the top level: [0-9]+ '_' [0-9]+ is a version marker."""
        # stage 0: no digit yet; 1: major digits; 2: '_' seen; 3: minor digits
        def to(st_, cls):
            def f(sub):
                out = []
                for d in self.vdig(text, sub):
                    out.append((d, self.with_tok(s, ('ivm', self.add(text, c, d), st_)), ()))
                return out
            return f

        def plain(sub):
            return [(sub, self.with_tok(s, ('id', self.add(text, c, sub), 0)), ())]

        def oos(sub):
            return [(sub, OOS, ())]
        if stage == 0:
            return self.split(dom, [(DIG, to(1, DIG)), (one('_'), oos), (IDC, plain), (CHAR, lambda sub: self.t_id2(s, c, sub, text))])
        if stage == 1:
            return self.split(dom, [(DIG, to(1, DIG)), (one('_'), to(2, None)), (IDC, plain),
                                    (CHAR, lambda sub: self.t_id2(s, c, sub, text))])
        if stage == 2:
            return self.split(dom, [(DIG, to(3, DIG)), (IDC, plain), (CHAR, lambda sub: self.t_id2(s, c, sub, text))])
        ps = self.with_tok(s, ('psym', ('ivm', text), False))
        return self.split(dom, [(DIG, to(3, DIG)), (IDC, plain),
                                (is_or(WS, cs('/:')), lambda sub: self.then(ps, [], c, sub)),
                                (STOP, lambda sub: self.then(self.after(s), self.ivm_out(s, text), c, sub)
                                    if self.ivm_out(s, text) is not None else [(sub, DEAD, ())])])

    def vdig(self, text, sub):
        t = self.kwtext(text)
        out = []
        if t is not None and '$ion_1_0'.startswith(t) and len(t) < 8:
            o = is_and(sub, one('$ion_1_0'[len(t)]))
            if o:
                out.append(o)
                sub = is_sub(sub, o)
        if sub:
            out.append(sub)
        return out

    def ivm_out(self, s, text):
        return [('IVM',)] if self.kwtext(text) == '$ion_1_0' else None

    def t_id2(self, s, c, dom, text):
        return self.t_id(self.with_tok(s, ('id', text, 0)), c, dom, text, 0)

    st = None

    def symval(self, text, sid):
        if sid == 2:
            return ('sid', Seq('str', text.e[1:], text.star))
        return ('sym', text)

    def e_id(self, s, text, sid):
        t = self.kwtext(text)
        if t in KEYWORDS:
            typ, val = KEYWORDS[t]
            return [self.scalar(s, typ, val)]
        return [self.scalar(s, 'SYMBOL', self.symval(text, sid))]

    def e_ivm(self, s, text, stage):
        if stage == 3:
            return self.ivm_out(s, text)
        return [self.scalar(s, 'SYMBOL', ('sym', text))]

    def e_op(self, s, text):
        return None

    def t_psym(self, s, c, dom, sym, quoted):
        """A symbol token has ended; '::' makes it an annotation, ':' a field name, anything else a value."""
        stack, pos, field, anns, _ = s
        sexp = bool(stack) and stack[-1] == 'S'
        isfield = pos == 'f'
        alts = [(WS, self.go(s))]
        if sexp:
            alts.append((one('/'), self.go(self.with_tok(s, ('sslash', s[4])))))
        else:
            def comment(sub):
                return [(sub, self.with_tok(s, ('slash2', s[4])), ())]
            alts.append((one('/'), comment))
        tv = sym
        if sym[0] == 'ivm':
            tv = ('sym', sym[1])
        if isfield:
            alts.append((one(':'), self.go((stack, 'v', tv, (), None))))
            return self.split(dom, alts)
        if len(anns) >= self.maxanns:
            alts.append((one(':'), self.go(OOS)))
        else:
            alts.append((one(':'), self.go(self.with_tok(s, ('colon', tv)))))

        def value(sub):
            if sym[0] == 'ivm':
                o = self.ivm_out(s, sym[1])
                if o is None:
                    return [(sub, DEAD, ())]
                return self.then(self.after(s), o, c, sub)
            return self.then(self.after(s), [self.scalar(s, 'SYMBOL', sym)], c, sub)
        alts.append((CHAR, value))
        return self.split(dom, alts)

    def t_slash2(self, s, c, dom, resume):
        return self.split(dom, [(one('/'), self.go(self.with_tok(s, ('lc', resume)))),
                                (one('*'), self.go(self.with_tok(s, ('bc', False, resume))))])

    def e_psym(self, s, sym, quoted):
        if s[1] == 'f':
            return None
        if sym[0] == 'ivm':
            return self.ivm_out(s, sym[1])
        return [self.scalar(s, 'SYMBOL', sym)]

    def t_colon(self, s, c, dom, sym):
        stack, pos, field, anns, _ = s
        npos = 'v' if pos == '0' else pos
        return self.split(dom, [(one(':'), self.go((stack, npos, field, anns + (sym,), None)))])

    def t_tnull(self, s, c, dom, text):
        if text in TYPES:
            sexp = bool(s[0]) and s[0][-1] == 'S'
            outs = [self.scalar(s, TYPES[text], None)]
            alts = [(is_or(STOP, one('/')), lambda sub: self.then(self.after(s), outs, c, sub))]
            if sexp:
                alts.append((SOPS, lambda sub: self.then(self.after(s), outs, c, sub)))
                alts.append((OPS, self.go(OOS)))
            return self.split(dom, alts)
        alts = []
        for ch in sorted(set(k[len(text)] for k in TYPES if k.startswith(text) and len(k) > len(text))):
            alts.append((one(ch), self.go(self.with_tok(s, ('tnull', text + ch)))))
        return self.split(dom, alts)

    def e_tnull(self, s, text):
        if text in TYPES:
            return [self.scalar(s, TYPES[text], None)]
        return None

    # ------------------------------------------------------------------ numbers
    def t_neg(self, s, c, dom):
        sexp = bool(s[0]) and s[0][-1] == 'S'
        z = Seq('bytes', (45,))
        alts = [(one('0'), self.go(self.with_tok(s, ('num', 'z', 9, Seq('bytes', (45, 48)), False)))),
                (NZ, lambda sub: [(sub, self.with_tok(s, ('num', 'i', 9, self.add(z, c, sub), False)), ())]),
                (one('i'), self.go(self.with_tok(s, ('inf', '-', 1))))]
        if sexp:
            op = self.with_tok(s, ('op', Seq('str', (45,))))
            alts.append((CHAR, lambda sub: self.then(op, [], c, sub)))
        return self.split(dom, alts)

    def t_plus(self, s, c, dom):
        sexp = bool(s[0]) and s[0][-1] == 'S'
        alts = [(one('i'), self.go(self.with_tok(s, ('inf', '+', 1))))]
        if sexp:
            op = self.with_tok(s, ('op', Seq('str', (43,))))
            alts.append((CHAR, lambda sub: self.then(op, [], c, sub)))
        return self.split(dom, alts)

    def t_inf(self, s, c, dom, sign, n):
        sexp = bool(s[0]) and s[0][-1] == 'S'
        outs = [self.scalar(s, 'FLOAT', ('const', sign + 'inf'))]
        if n < 3:
            alts = [(one('inf'[n]), self.go(self.with_tok(s, ('inf', sign, n + 1))))]
        else:
            alts = [(is_or(STOP, one('/')), lambda sub: self.then(self.after(s), outs, c, sub))]
            if sexp:
                alts.append((SOPS, lambda sub: self.then(self.after(s), outs, c, sub)))
        if sexp:
            alts.append((CHAR, self.go(OOS)))      # operator followed by an identifier without a separator
        return self.split(dom, alts)

    def e_inf(self, s, sign, n):
        if n == 3:
            return [self.scalar(s, 'FLOAT', ('const', sign + 'inf'))]
        return None

    def numval(self, sub, text):
        if sub in ('z', 'i'):
            return 'INT', ('int', text, 10)
        if sub == 'xd':
            return 'INT', ('int', text, 16)
        if sub == 'bd':
            return 'INT', ('int', text, 2)
        if sub in ('.', 'f', 'Ded'):
            return 'DECIMAL', ('dec', text)
        if sub == 'Eed':
            return 'FLOAT', ('flt', text)
        return None

    def t_num(self, s, c, dom, sub, nd, text, us):
        """sub: z i . f (D|E)e (D|E)es (D|E)ed x xd b bd; nd: digits so far (9: not a possible year); us: after '_'"""
        W = self.with_tok
        alts = []

        def to(nsub, nnd=9, put=None):
            def f(d):
                t = self.add(text, c, d) if put is None else Seq('bytes', text.e + (put,), text.star) \
                    if not text.star else text
                return [(d, W(s, ('num', nsub, nnd, t, False)), ())]
            return f

        def und(d):
            return [(d, W(s, ('num', sub, 9, text, True)), ())]
        if us:
            dig = {'i': DIG, 'f': DIG, 'xd': HEX, 'bd': BIN}[sub]
            return self.split(dom, [(dig, to(sub))])
        if sub == 'z':
            alts += [(one('.'), to('.')), (cs('dD'), to('De', put=101)), (cs('eE'), to('Ee')),
                     (cs('xX'), to('x')), (cs('bB'), to('b'))]
            if nd == 1:
                alts.append((DIG, lambda d: [(d, W(s, ('year', 2, self.add(text, c, d))), ())]))
        elif sub == 'i':
            alts += [(DIG, to('i', min(nd + 1, 9) if nd < 5 else 9)), (one('_'), und), (one('.'), to('.')),
                     (cs('dD'), to('De', put=101)), (cs('eE'), to('Ee'))]
            if nd == 4:
                alts += self.year_alts(s, c, text)
        elif sub == '.':
            alts += [(DIG, to('f')), (cs('dD'), to('De', put=101)), (cs('eE'), to('Ee'))]
        elif sub == 'f':
            alts += [(DIG, to('f')), (one('_'), und), (cs('dD'), to('De', put=101)), (cs('eE'), to('Ee'))]
        elif sub in ('De', 'Ee'):
            alts += [(cs('+-'), to(sub + 's')), (DIG, to(sub + 'd'))]
        elif sub in ('Des', 'Ees'):
            alts += [(DIG, to(sub[:-1] + 'd'))]
        elif sub in ('Ded', 'Eed'):
            alts += [(DIG, to(sub))]
        elif sub in ('x', 'xd'):
            alts += [(HEX, to('xd'))]
            if sub == 'xd':
                alts.append((one('_'), und))
        elif sub in ('b', 'bd'):
            alts += [(BIN, to('bd'))]
            if sub == 'bd':
                alts.append((one('_'), und))
        v = self.numval(sub, text)
        if v is not None:
            alts += self.numend(s, c, self.scalar(s, v[0], v[1]))
        return self.split(dom, alts)

    def numend(self, s, c, out):
        return [(STOP, lambda d: self.then(self.after(s), [out], c, d)),
                (one('/'), self.go(self.with_tok(self.after(s), ('nslash',)), [out]))]

    def t_nslash(self, s, c, dom):
        # '/' directly after a number: only a comment is specified
        return self.split(dom, [(one('/'), self.go(self.with_tok(s, ('lc', None)))),
                                (one('*'), self.go(self.with_tok(s, ('bc', False, None)))),
                                (CHAR, self.go(OOS))])

    def e_num(self, s, sub, nd, text, us):
        v = self.numval(sub, text)
        if v is None or us:
            return None
        return [self.scalar(s, v[0], v[1])]

    # ------------------------------------------------------------------ timestamps
    def t_year(self, s, c, dom, nd, text):
        if nd == 4:
            return self.split(dom, self.year_alts(s, c, text))
        return self.split(dom, [(DIG, lambda d: [(d, self.with_tok(s, ('year', nd + 1, self.add(text, c, d))), ())])])

    def year_alts(self, s, c, text):
        return [(one('T'), self.go(self.with_tok(s, ('tend', (text,), None)))),
                (one('-'), self.go(self.with_tok(s, ('ts', 'M', (text,), Seq('bytes', ())))))]

    def tsval(self, fields, off):
        return ('ts', fields, off)

    def t_tend(self, s, c, dom, fields, off):
        return self.split(dom, self.numend(s, c, self.scalar(s, 'TIMESTAMP', self.tsval(fields, off))))

    def e_tend(self, s, fields, off):
        return [self.scalar(s, 'TIMESTAMP', self.tsval(fields, off))]

    def t_ts(self, s, c, dom, st_, fields, cur):
        """st_: M D H N(minute) S F ; cur: digits of the current component."""
        W = self.with_tok
        n = len(cur.e)

        def dig(d):
            return [(d, W(s, ('ts', st_, fields, self.add(cur, c, d))), ())]
        if st_ == 'F':
            alts = [(DIG, dig)]
            if n or cur.star:
                alts += self.offset_alts(s, fields + (cur,))
            return self.split(dom, alts)
        if n < 2:
            return self.split(dom, [(DIG, dig)])
        nf = fields + (cur,)
        E = Seq('bytes', ())
        if st_ == 'M':
            alts = [(one('-'), self.go(W(s, ('ts', 'D', nf, E)))), (one('T'), self.go(W(s, ('tend', nf, None))))]
        elif st_ == 'D':
            alts = [(one('T'), self.go(W(s, ('tT', nf))))] + \
                self.numend(s, c, self.scalar(s, 'TIMESTAMP', self.tsval(nf, None)))
        elif st_ == 'H':
            alts = [(one(':'), self.go(W(s, ('ts', 'N', nf, E))))]
        elif st_ == 'N':
            alts = [(one(':'), self.go(W(s, ('ts', 'S', nf, E))))] + self.offset_alts(s, nf)
        else:
            alts = [(one('.'), self.go(W(s, ('ts', 'F', nf, E))))] + self.offset_alts(s, nf)
        return self.split(dom, alts)

    def e_ts(self, s, st_, fields, cur):
        if st_ == 'D' and len(cur.e) == 2:
            return [self.scalar(s, 'TIMESTAMP', self.tsval(fields + (cur,), None))]
        return None

    def t_tT(self, s, c, dom, fields):
        alts = [(DIG, lambda d: [(d, self.with_tok(s, ('ts', 'H', fields, self.add(Seq('bytes', ()), c, d))), ())])]
        alts += self.numend(s, c, self.scalar(s, 'TIMESTAMP', self.tsval(fields, None)))
        return self.split(dom, alts)

    def e_tT(self, s, fields):
        return [self.scalar(s, 'TIMESTAMP', self.tsval(fields, None))]

    def offset_alts(self, s, fields):
        W = self.with_tok
        return [(one('Z'), self.go(W(s, ('tend', fields, 'Z')))),
                (one('+'), self.go(W(s, ('off', fields, '+', Seq('bytes', ()), None)))),
                (one('-'), self.go(W(s, ('off', fields, '-', Seq('bytes', ()), None))))]

    def t_off(self, s, c, dom, fields, sign, hh, mm):
        W = self.with_tok
        if mm is None:
            if len(hh.e) < 2:
                return self.split(dom, [(DIG, lambda d: [(d, W(s, ('off', fields, sign, self.add(hh, c, d), None)), ())])])
            return self.split(dom, [(one(':'), self.go(W(s, ('off', fields, sign, hh, Seq('bytes', ())))))])
        if len(mm.e) < 2:
            return self.split(dom, [(DIG, lambda d: [(d, W(s, ('off', fields, sign, hh, self.add(mm, c, d))), ())])])
        return self.split(dom, self.numend(s, c, self.scalar(s, 'TIMESTAMP', self.tsval(fields, (sign, hh, mm)))))

    def e_off(self, s, fields, sign, hh, mm):
        if mm is not None and len(mm.e) == 2:
            return [self.scalar(s, 'TIMESTAMP', self.tsval(fields, (sign, hh, mm)))]
        return None

    # ------------------------------------------------------------------ quoted text
    # raw control characters inside quoted text are outside the reference, as is U+007F..U+009F in clobs
    def body(self, c, dom, kind, put, nlok):
        """Alternatives for one ordinary character of quoted text."""
        ok = ((0x20, 0x7e),) if kind == 'clob' else is_sub(((0x20, 0x10FFFF),), ((0x7f, 0x9f), (0xd800, 0xdfff)))
        alts = [(is_or(ok, one('\t')), put)]
        if nlok:
            alts.append((one('\n'), put))
        return alts

    def escape_alts(self, s, mk, clob):
        """After a backslash.  mk(element or None) -> token to continue with."""
        alts = [(one(k), self.go(self.with_tok(s, mk(v)))) for k, v in ESC1.items()]
        alts.append((one('\n'), self.go(self.with_tok(s, mk(None)))))
        return alts

    def quoted(self, s, c, dom, tok, textpos, stop, kind, nlok, onstop):
        """Common machine for text with escapes: tok[textpos] is the content, tok[textpos+1] the escape state:
        0 none; 1 after backslash; (w, digits) inside a hex escape; ('cr',) after an escaped CR;
        ('hs', hi) after a high surrogate escape, expecting \\u; ('hs1', hi)"""
        W = self.with_tok
        text, esc = tok[textpos], tok[textpos + 1]

        def cont(t, e=0):
            return W(s, tok[:textpos] + (t, e) + tok[textpos + 2:])

        def push(t, el):
            return t if t.star else Seq(t.kind, t.e + (el,), False)
        if esc == 0:
            def put(d):
                return [(d, cont(self.add(text, c, d)), ())]
            alts = [(one(stop), onstop), (one('\\'), self.go(cont(text, 1)))]
            alts += self.body(c, dom, kind, put, nlok)
            rest = [(CHAR, self.go(OOS))] if kind != 'clob' else \
                [(is_or(CTRL, ((0x80, 0x9f),)), self.go(OOS))]
            if not nlok:
                rest = [(one('\n'), self.go(DEAD)), (one('\r'), self.go(DEAD))] + rest
            return self.split(dom, alts + rest)
        if esc == 1:
            alts = [(one(k), self.go(cont(push(text, v)))) for k, v in ESC1.items()]
            alts += [(one('\n'), self.go(cont(text))), (one('\r'), self.go(cont(text, ('cr',)))),
                     (one('x'), self.go(cont(text, (2, ()))))]
            if kind != 'clob':
                alts += [(one('u'), self.go(cont(text, (4, ())))), (one('U'), self.go(cont(text, (8, ()))))]
            return self.split(dom, alts)
        if esc == ('cr',):
            def other(sub):
                return self.then(cont(text), [], c, sub)
            return self.split(dom, [(one('\n'), self.go(cont(text))), (CHAR, other)])
        if esc[0] in ('hs', 'hs1', 'hs2'):
            hi = esc[1]
            if esc[0] == 'hs':
                return self.split(dom, [(one('\\'), self.go(cont(text, ('hs1', hi))))])
            if esc[0] == 'hs1':
                return self.split(dom, [(one('u'), self.go(cont(text, ('hs2', hi, ()))))])
            ds = esc[2]
            want = [cs('dD'), cs('cdefCDEF'), HEX, HEX][len(ds)]

            def dig2(sub):
                d2 = ds + (sub[0][0] if is_one(sub) else c,)
                if len(d2) < 4:
                    return [(sub, cont(text, ('hs2', hi, d2)), ())]
                return [(sub, cont(push(text, ('pair', hi, d2))), ())]
            return self.split(dom, [(want, dig2), (HEX, self.go(OOS))])
        w, ds = esc

        def dig(sub):
            d2 = ds + (sub[0][0] if is_one(sub) else c,)
            if len(d2) < w:
                return [(sub, cont(text, (w, d2)), ())]
            if w == 4 and type(ds[0]) is tuple and ds[0][0] == 'HI':
                return [(sub, cont(text, ('hs', (ds[0][1],) + d2[1:])), ())]
            return [(sub, cont(push(text, ('hex', tuple(x[1] if type(x) is tuple else x for x in d2)))), ())]
        alts = []
        if w == 4 and len(ds) == 1 and type(ds[0]) is tuple and ds[0][0] == 'D':
            # D8..DB: high surrogate (must be followed by a low one); DC..DF alone: not a character
            def hi(sub):
                return [(sub, cont(text, (4, (('HI', ds[0][1]), sub[0][0] if is_one(sub) else c))), ())]

            def low(sub):
                return [(sub, OOS, ())]

            def bmp(sub):
                return [(sub, cont(text, (4, (ds[0][1], sub[0][0] if is_one(sub) else c))), ())]
            return self.split(dom, [(cs('89abAB'), hi), (cs('cdefCDEF'), low), (HEX, bmp)])
        if w == 4 and not ds:
            def isd(sub):
                return [(sub, cont(text, (4, (('D', sub[0][0] if is_one(sub) else c),))), ())]
            alts.append((cs('dD'), isd))
        if w == 8:
            # 0000xxxx .. 0010xxxx; surrogates and values above U+10FFFF are not characters
            k = len(ds)
            if k < 2:
                return self.split(dom, [(one('0'), dig), (HEX, self.go(OOS))])
            if k == 2:
                return self.split(dom, [(one('0'), dig), (one('1'), dig), (HEX, self.go(OOS))])
            if k == 3:
                return self.split(dom, [(one('0'), dig), (HEX, dig if ds[2] == 48 else self.go(OOS))])
            if k == 4 and ds[2] == 48 and ds[3] == 48:
                alts.append((cs('dD'), self.go(OOS)))
        alts.append((HEX, dig))
        return self.split(dom, alts)

    def t_str(self, s, c, dom, what, text, esc):
        tok = s[4]

        def stop(sub):
            if what == 'field':
                return [(sub, self.with_tok(s, ('psym', ('sym', text), True)), ())]
            return [(sub, self.after(s), (self.scalar(s, 'STRING', ('text', text)),))]
        return self.quoted(s, c, dom, tok, 2, '"', 'text', False, stop)

    def t_q1(self, s, c, dom):
        """One single quote seen."""
        q = self.with_tok(s, ('qsym', Seq('str', ()), 0))
        return self.split(dom, [(one("'"), self.go(self.with_tok(s, ('q2',)))),
                                (CHAR, lambda sub: self.then(q, [], c, sub))])

    def t_q2(self, s, c, dom):
        """Two single quotes: the empty symbol, or the start of a long string."""
        p = self.with_tok(s, ('psym', ('sym', Seq('str', ())), True))
        return self.split(dom, [(one("'"), self.go(self.with_tok(s, ('ls', Seq('str', ()), 0, 0)))),
                                (CHAR, lambda sub: self.then(p, [], c, sub))])

    def e_q2(self, s):
        return self.eof(self.with_tok(s, ('psym', ('sym', Seq('str', ())), True)))

    def t_qsym(self, s, c, dom, text, esc):
        def stop(sub):
            return [(sub, self.with_tok(s, ('psym', ('sym', text), True)), ())]
        return self.quoted(s, c, dom, s[4], 1, "'", 'text', False, stop)

    # long strings: ('ls', text, esc, quotes) inside; ('lse', text) after a closing '''
    def t_ls(self, s, c, dom, text, esc, nq):
        W = self.with_tok
        tok = s[4]
        if esc == 0:
            def q(sub):
                if nq == 2:
                    return [(sub, W(s, ('lse', text, 0)), ())]
                return [(sub, W(s, ('ls', text, 0, nq + 1)), ())]
            if nq:
                t2 = text if text.star else Seq('str', text.e + (39,) * nq, False)
                s2 = W(s, ('ls', t2, 0, 0))
                return self.split(dom, [(one("'"), q), (CHAR, lambda sub: self.then(s2, [], c, sub))])
            return self.quoted(s, c, dom, tok, 1, "'", 'text', True, q)
        return self.quoted(s, c, dom, tok, 1, "'", 'text', True, None)

    def t_lse(self, s, c, dom, text, nq):
        """Between segments of a long string; nq: quotes of a possible further segment."""
        W = self.with_tok
        stack = s[0]
        top = stack[-1] if stack else ''
        isfield = s[1] == 'f'
        if nq:
            if nq == 1:
                alts = [(one("'"), self.go(W(s, ('lse', text, 2))))]
                if not isfield and top in ('', 'S'):
                    nxt = W(self.after(s), ('qsym', Seq('str', ()), 0))
                    alts.append((CHAR, lambda sub: self.then(nxt, [self.scalar(s, 'STRING', ('text', text))], c, sub)))
                return self.split(dom, alts)
            alts = [(one("'"), self.go(W(s, ('ls', text, 0, 0))))]
            if not isfield and top in ('', 'S'):
                nxt = W(self.after(s), ('psym', ('sym', Seq('str', ())), True))
                alts.append((CHAR, lambda sub: self.then(nxt, [self.scalar(s, 'STRING', ('text', text))], c, sub)))
            return self.split(dom, alts)
        alts = [(WS, self.go(s)), (one("'"), self.go(W(s, ('lse', text, 1))))]
        if top == 'S':
            alts.append((one('/'), self.go(W(s, ('sslash', s[4])))))
        else:
            alts.append((one('/'), self.go(W(s, ('slash2', s[4])))))
        if isfield:
            alts.append((one(':'), self.go((stack, 'v', ('sym', text), (), None))))
            return self.split(dom, alts)
        alts.append((CHAR, lambda sub: self.then(self.after(s), [self.scalar(s, 'STRING', ('text', text))], c, sub)))
        return self.split(dom, alts)

    def e_lse(self, s, text, nq):
        if s[1] == 'f' or nq == 1:
            return None
        out = [self.scalar(s, 'STRING', ('text', text))]
        if nq == 2:
            s2 = self.after(s)
            out.append(self.scalar(s2, 'SYMBOL', ('sym', Seq('str', ()))))
        return out

    # ------------------------------------------------------------------ structs and lobs
    def t_brace(self, s, c, dom):
        def struct(sub):
            out = []
            for d, s2, o in self.open(s, 'T', sub):
                if s2 == OOS:
                    out.append((d, OOS, o))
                else:
                    out.extend(self.then(s2, o, c, d))
            return out
        return self.split(dom, [(one('{'), self.go(self.with_tok(s, ('lob',)))), (CHAR, struct)])

    def t_lob(self, s, c, dom):
        W = self.with_tok
        return self.split(dom, [(WS, self.go(s)),
                                (one('"'), self.go(W(s, ('clob', Seq('str', ()), 0)))),
                                (one("'"), self.go(W(s, ('clq', 1)))),
                                (one('}'), self.go(W(s, ('lobend', 'BLOB', ('blob', Seq('bytes', ())))))),
                                (B64, lambda sub: [(sub, W(s, ('blob', self.add(Seq('bytes', ()), c, sub), 1)), ())])])

    def t_blob(self, s, c, dom, text, n):
        """n: number of digits modulo 4; 4: one pad seen after 3 digits -> complete; 5: needs one more pad; 6: complete"""
        W = self.with_tok
        alts = [(WS, self.go(s))]
        if n < 4:
            alts.append((B64, lambda sub: [(sub, W(s, ('blob', self.add(text, c, sub), (n + 1) % 4)), ())]))
        if n == 2:
            alts.append((one('='), self.go(W(s, ('blob', self.add(text, 61, one('=')), 5)))))
        elif n == 3:
            alts.append((one('='), self.go(W(s, ('blob', self.add(text, 61, one('=')), 6)))))
        elif n == 5:
            alts.append((one('='), self.go(W(s, ('blob', self.add(text, 61, one('=')), 6)))))
        if n in (0, 1, 6):
            alts.append((one('='), self.go(OOS)))       # wrongly padded: rejected when the value is decoded, if at all
        if n in (0, 6):
            alts.append((one('}'), self.go(W(s, ('lobend', 'BLOB', ('blob', text))))))
        elif n in (1, 2, 3, 5):
            alts.append((one('}'), self.go(OOS)))       # wrongly padded: rejected only when the value is decoded
        return self.split(dom, alts)

    def t_lobend(self, s, c, dom, typ, val):
        return self.split(dom, [(one('}'), self.go(self.after(s), [self.scalar(s, typ, val)]))])

    def t_clq(self, s, c, dom, n):
        nxt = ('cls', Seq('str', ()), 0, 0) if n == 2 else ('clq', n + 1)
        return self.split(dom, [(one("'"), self.go(self.with_tok(s, nxt)))])

    def t_clob(self, s, c, dom, text, esc):
        def stop(sub):
            return [(sub, self.with_tok(s, ('cle', text)), ())]
        return self.quoted(s, c, dom, s[4], 1, '"', 'clob', False, stop)

    def t_cle(self, s, c, dom, text):
        return self.split(dom, [(WS, self.go(s)), (one('}'), self.go(self.with_tok(s, ('lobend', 'CLOB', ('clob', text)))))])

    def t_cls(self, s, c, dom, text, esc, nq):
        W = self.with_tok
        if esc == 0:
            def q(sub):
                if nq == 2:
                    return [(sub, W(s, ('clse', text, 0)), ())]
                return [(sub, W(s, ('cls', text, 0, nq + 1)), ())]
            if nq:
                t2 = text if text.star else Seq('str', text.e + (39,) * nq, False)
                s2 = W(s, ('cls', t2, 0, 0))
                return self.split(dom, [(one("'"), q), (CHAR, lambda sub: self.then(s2, [], c, sub))])
            return self.quoted(s, c, dom, s[4], 1, "'", 'clob', True, q)
        return self.quoted(s, c, dom, s[4], 1, "'", 'clob', True, None)

    def t_clse(self, s, c, dom, text, nq):
        W = self.with_tok
        if nq:
            nxt = ('cls', text, 0, 0) if nq == 2 else ('clse', text, nq + 1)
            return self.split(dom, [(one("'"), self.go(W(s, nxt)))])
        return self.split(dom, [(WS, self.go(s)), (one("'"), self.go(W(s, ('clse', text, 1)))),
                                (one('}'), self.go(W(s, ('lobend', 'CLOB', ('clob', text)))))])


def container_depth(d):
    """Depth of the container the consumer is in once it has received event d (-1: top level)."""
    return d[2] if d[0] == 'START' else d[2] - 1 if d[0] == 'END' else d[3] - 1 if d[0] == 'SCALAR' else -1


class SkipRef(object):
    """The reference grammar with a consumer that answers some events with SKIP: nothing is delivered until the end of the
    container the consumer is in, which is."""

    def __init__(self, skip, **kw):
        self.ref = Ref(**kw)
        self.skip = skip
        self.initial = self.ref.initial + (None,)

    st = property(lambda self: self.ref.st, lambda self, v: setattr(self.ref, 'st', v))

    def filter(self, outs, sk):
        res = []
        for o in outs:
            if sk is not None and not (o[0] == 'END' and o[2] == sk):
                continue
            sk = None
            res.append(o)
            if self.skip(o) and container_depth(o) >= 0:
                sk = container_depth(o)
        return tuple(res), sk

    def step(self, s, c, dom):
        r = []
        for sub, s2, outs in self.ref.step(s[:5] if s not in (DEAD, OOS) else s, c, dom):
            if s2 not in (DEAD, OOS):
                outs, sk = self.filter(outs, s[5])
                s2 = tuple(s2) + (sk,)
            elif s not in (DEAD, OOS):
                outs, sk = self.filter(outs, s[5])
            r.append((sub, s2, outs))
        return r

    def eof(self, s):
        o = self.ref.eof(s[:5])
        return None if o is None else self.filter(o, s[5])[0]

    def collapsible(self, s, pend):
        return self.ref.collapsible(s[:5] if s not in (DEAD, OOS) else s, pend)
