"""AST -> stack IR compiler used by the abstract machine.

The IR is a small CPython-3.7-like stack code.  Nothing here executes the analysed program: the source text is
parsed, scopes are resolved, and every function body becomes a ``Code`` object whose instructions the abstract
machine (machine.py) interprets over abstract states.
"""
import ast


class Code(object):
    __slots__ = ('name', 'qualname', 'filename', 'firstlineno', 'instrs', 'lines', 'argnames', 'npos', 'vararg',
                 'kwarg', 'kwonly', 'cellvars', 'freevars', 'is_gen', 'live', 'labels', 'uid', 'kind', 'node')

    def __init__(self, name, qualname, filename, lineno, kind):
        self.name = name
        self.qualname = qualname
        self.filename = filename
        self.firstlineno = lineno
        self.kind = kind
        self.instrs = []
        self.lines = []
        self.argnames = []
        self.npos = 0
        self.vararg = None
        self.kwarg = None
        self.kwonly = []
        self.cellvars = ()
        self.freevars = ()
        self.is_gen = False
        self.live = None
        self.uid = None

    def __repr__(self):
        return '<Code %s %s:%d>' % (self.qualname, self.filename, self.firstlineno)


_BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}
_CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
           ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
_UNOPS = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}


class _Scope(object):
    def __init__(self, kind, parent, node):
        self.kind = kind            # 'module' | 'function' | 'class'
        self.parent = parent
        self.node = node
        self.bound = set()
        self.globals = set()
        self.nonlocals = set()
        self.used = set()
        self.children = []
        self.cells = set()
        self.free = set()
        self.is_gen = False


class Unsupported(Exception):
    pass


class _ScopeBuilder(ast.NodeVisitor):
    """Builds the scope tree: name binding, free and cell variables."""

    def __init__(self, private=None):
        self.scopes = {}
        self.cur = None
        self.cls = [None]

    def m(self, name):
        c = self.cls[-1]
        if c and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (c.lstrip('_'), name)
        return name

    def push(self, kind, node):
        s = _Scope(kind, self.cur, node)
        if self.cur is not None:
            self.cur.children.append(s)
        self.scopes[node] = s
        self.cur = s
        return s

    def pop(self):
        self.cur = self.cur.parent

    def visit_Module(self, node):
        self.push('module', node)
        for s in node.body:
            self.visit(s)
        self.pop()

    def _args(self, a):
        out = []
        for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs:
            out.append(self.m(x.arg))
        if a.vararg:
            out.append(self.m(a.vararg.arg))
        if a.kwarg:
            out.append(self.m(a.kwarg.arg))
        return out

    def visit_FunctionDef(self, node):
        self.cur.bound.add(self.m(node.name))
        for d in node.decorator_list:
            self.visit(d)
        self._defaults(node.args)
        s = self.push('function', node)
        s.bound.update(self._args(node.args))
        for b in node.body:
            self.visit(b)
        self.pop()

    def _defaults(self, a):
        for d in a.defaults:
            self.visit(d)
        for d in a.kw_defaults:
            if d is not None:
                self.visit(d)

    def visit_Lambda(self, node):
        self._defaults(node.args)
        s = self.push('function', node)
        s.bound.update(self._args(node.args))
        self.visit(node.body)
        self.pop()

    def visit_ClassDef(self, node):
        self.cur.bound.add(self.m(node.name))
        for d in node.decorator_list:
            self.visit(d)
        for b in node.bases:
            self.visit(b)
        for k in node.keywords:
            self.visit(k.value)
        self.push('class', node)
        self.cls.append(node.name)
        for b in node.body:
            self.visit(b)
        self.cls.pop()
        self.pop()

    def _comp(self, node):
        self.visit(node.generators[0].iter)
        s = self.push('function', node)
        s.bound.add('.0')
        for i, g in enumerate(node.generators):
            if i:
                self.visit(g.iter)
            self.visit(g.target)
            for c in g.ifs:
                self.visit(c)
        if isinstance(node, ast.DictComp):
            self.visit(node.key)
            self.visit(node.value)
        else:
            self.visit(node.elt)
        if isinstance(node, ast.GeneratorExp):
            s.is_gen = True
        self.pop()

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, node):
        n = self.m(node.id)
        if isinstance(node.ctx, ast.Load):
            self.cur.used.add(n)
            if n == 'super':
                self.cur.used.add('__class__')
        else:
            self.cur.bound.add(n)

    def visit_NamedExpr(self, node):
        self.visit(node.value)
        n = self.m(node.target.id)
        s = self.cur
        while isinstance(s.node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            s.nonlocals.add(n)
            s = s.parent
        s.bound.add(n)

    def visit_Global(self, node):
        self.cur.globals.update(self.m(n) for n in node.names)

    def visit_Nonlocal(self, node):
        self.cur.nonlocals.update(self.m(n) for n in node.names)

    def visit_Import(self, node):
        for a in node.names:
            self.cur.bound.add(self.m((a.asname or a.name).split('.')[0]))

    def visit_ImportFrom(self, node):
        for a in node.names:
            self.cur.bound.add(self.m(a.asname or a.name))

    def visit_ExceptHandler(self, node):
        if node.type:
            self.visit(node.type)
        if node.name:
            self.cur.bound.add(self.m(node.name))
        for b in node.body:
            self.visit(b)

    def visit_Yield(self, node):
        self.cur.is_gen = True
        self.generic_visit(node)

    def visit_YieldFrom(self, node):
        self.cur.is_gen = True
        self.generic_visit(node)


def _resolve(scope):
    for c in scope.children:
        _resolve(c)
    if scope.kind == 'class':
        # names free in children that are not bound here (class scopes are not enclosing scopes), plus __class__
        for c in scope.children:
            for n in c.free:
                if n == '__class__':
                    scope.cells.add('__class__')
                else:
                    scope.free.add(n)
        for n in scope.used | scope.nonlocals:
            if n not in scope.bound and n not in scope.globals and _enclosing_has(scope, n):
                scope.free.add(n)
        return
    if scope.kind == 'module':
        return
    need = set()
    for c in scope.children:
        need |= c.free
    local = scope.bound - scope.globals - scope.nonlocals
    scope.cells = {n for n in need if n in local}
    free = {n for n in need if n not in local}
    for n in (scope.used | scope.nonlocals):
        if n in local or n in scope.globals:
            continue
        if n == '__class__' or _enclosing_has(scope, n):
            if n == '__class__' and not _in_class(scope):
                continue
            free.add(n)
    scope.free = free


def _in_class(scope):
    s = scope.parent
    while s is not None:
        if s.kind == 'class':
            return True
        s = s.parent
    return False


def _enclosing_has(scope, n):
    s = scope.parent
    while s is not None and s.kind != 'module':
        if s.kind == 'function' and n in s.bound and n not in s.globals and n not in s.nonlocals:
            return True
        s = s.parent
    return False


class _Compiler(object):
    def __init__(self, filename, scopes):
        self.filename = filename
        self.scopes = scopes
        self.codes = []

    # ---- emit helpers
    def emit(self, op, arg=None):
        self.code.instrs.append([op, arg])
        self.code.lines.append(self.line)
        return len(self.code.instrs) - 1

    def here(self):
        return len(self.code.instrs)

    def patch(self, idx, target=None):
        self.code.instrs[idx][1] = self.here() if target is None else target

    def m(self, name):
        c = self.cls
        if c and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (c.lstrip('_'), name)
        return name

    def tmp(self):
        self.ntmp += 1
        return '$t%d' % self.ntmp

    # ---- code object compile
    def compile_code(self, node, name, kind, cls, qual):
        scope = self.scopes[node]
        saved = {k: self.__dict__.get(k) for k in ('code', 'scope', 'cls', 'loops', 'ntmp', 'line', 'exc', 'qual')}
        code = Code(name, qual, self.filename, getattr(node, 'lineno', 1), kind)
        code.node = node
        self.code, self.scope, self.cls, self.loops, self.ntmp = code, scope, cls, [], 0
        self.line = code.firstlineno
        self.exc = []
        self.qual = qual
        code.cellvars = tuple(sorted(scope.cells))
        code.freevars = tuple(sorted(scope.free))
        code.is_gen = scope.is_gen
        if kind == 'module':
            for s in node.body:
                self.stmt(s)
            self.emit('CONST', None)
            self.emit('RETURN')
        elif kind == 'class':
            for s in node.body:
                self.stmt(s)
            self.emit('CONST', None)
            self.emit('RETURN')
        elif kind == 'comp':
            code.argnames = ['.0']
            code.npos = 1
            self.comp_body(node)
        else:
            a = node.args
            pos = list(getattr(a, 'posonlyargs', [])) + a.args
            code.argnames = [self.m(x.arg) for x in pos]
            code.npos = len(pos)
            code.kwonly = [self.m(x.arg) for x in a.kwonlyargs]
            code.vararg = self.m(a.vararg.arg) if a.vararg else None
            code.kwarg = self.m(a.kwarg.arg) if a.kwarg else None
            if isinstance(node, ast.Lambda):
                self.expr(node.body)
                self.emit('RETURN')
            else:
                for s in node.body:
                    self.stmt(s)
                self.emit('CONST', None)
                self.emit('RETURN')
        self.codes.append(code)
        code.uid = '%s:%s:%d' % (self.filename, qual, len(self.codes))
        self.__dict__.update(saved)
        code.instrs = [tuple(i) for i in code.instrs]
        _liveness(code)
        return code

    # ---- names
    def load(self, n):
        s = self.scope
        n = self.m(n)
        if s.kind == 'function':
            if n in s.cells or n in s.free:
                self.emit('LOADC', n)
            elif n in s.bound and n not in s.globals and n not in s.nonlocals:
                self.emit('LOADL', n)
            else:
                self.emit('LOADG', n)
        elif s.kind == 'class':
            if n in s.free:
                self.emit('LOADNC', n)
            else:
                self.emit('LOADN', n)
        else:
            self.emit('LOADG', n)

    def store(self, n):
        s = self.scope
        n = self.m(n)
        if s.kind == 'function':
            if n in s.globals:
                self.emit('STOREG', n)
            elif n in s.cells or n in s.free:
                self.emit('STOREC', n)
            else:
                self.emit('STOREL', n)
        elif s.kind == 'class':
            self.emit('STOREN', n)
        else:
            self.emit('STOREG', n)

    def delete(self, n):
        s = self.scope
        n = self.m(n)
        if s.kind == 'function' and n not in s.globals:
            self.emit('DELC' if (n in s.cells or n in s.free) else 'DELL', n)
        elif s.kind == 'class':
            self.emit('DELN', n)
        else:
            self.emit('DELG', n)

    # ---- expressions
    def expr(self, e):
        old = self.line
        self.line = getattr(e, 'lineno', self.line)
        getattr(self, 'e_' + type(e).__name__, self.e_bad)(e)
        self.line = old

    def e_bad(self, e):
        raise Unsupported('%s at %s:%d' % (type(e).__name__, self.filename, e.lineno))

    def e_Constant(self, e):
        self.emit('CONST', e.value)

    def e_Name(self, e):
        self.load(e.id)

    def e_Attribute(self, e):
        self.expr(e.value)
        self.emit('ATTR', self.m(e.attr))

    def e_Subscript(self, e):
        self.expr(e.value)
        self.slice(e.slice)
        self.emit('SUB')

    def slice(self, s):
        if isinstance(s, ast.Slice):
            for x in (s.lower, s.upper, s.step):
                if x is None:
                    self.emit('CONST', None)
                else:
                    self.expr(x)
            self.emit('MKSLICE')
        elif type(s).__name__ == 'Index':
            self.expr(s.value)
        else:
            self.expr(s)

    def e_Slice(self, e):
        self.slice(e)

    def e_BinOp(self, e):
        self.expr(e.left)
        self.expr(e.right)
        self.emit('BIN', _BINOPS[type(e.op)])

    def e_UnaryOp(self, e):
        self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            self.emit('NOT')
        else:
            self.emit('UN', _UNOPS[type(e.op)])

    def e_BoolOp(self, e):
        ends = []
        op = 'JFP' if isinstance(e.op, ast.And) else 'JTP'
        for v in e.values[:-1]:
            self.expr(v)
            ends.append(self.emit(op))
        self.expr(e.values[-1])
        for x in ends:
            self.patch(x)

    def e_Compare(self, e):
        self.expr(e.left)
        ends = []
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            self.expr(c)
            if i < len(e.ops) - 1:
                self.emit('DUP')
                self.emit('ROT3')
                self.emit('CMP', _CMPOPS[type(op)])
                ends.append(self.emit('JFP'))
            else:
                self.emit('CMP', _CMPOPS[type(op)])
        if ends:
            j = self.emit('JMP')
            for x in ends:
                self.patch(x)
            self.emit('ROT2')
            self.emit('POP')
            self.patch(j)

    def e_IfExp(self, e):
        self.cond(e.test, False)
        j = self.emit('JF')
        self.expr(e.body)
        k = self.emit('JMP')
        self.patch(j)
        self.expr(e.orelse)
        self.patch(k)

    def cond(self, e, _):
        self.expr(e)

    def e_NamedExpr(self, e):
        self.expr(e.value)
        self.emit('DUP')
        self.store(e.target.id)

    def e_Tuple(self, e):
        self.seq(e, 'MKTUPLE')

    def e_List(self, e):
        self.seq(e, 'MKLIST')

    def e_Set(self, e):
        self.seq(e, 'MKSET')

    def seq(self, e, op):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            self.emit('MKLIST', 0)
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.expr(x.value)
                    self.emit('LISTEXT')
                else:
                    self.expr(x)
                    self.emit('LISTAPP', 1)
            if op != 'MKLIST':
                self.emit('LISTTO', op)
            return
        for x in e.elts:
            self.expr(x)
        self.emit(op, len(e.elts))

    def e_Dict(self, e):
        self.emit('MKDICT', 0)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.expr(v)
                self.emit('DICTUPD')
            else:
                self.expr(k)
                self.expr(v)
                self.emit('DICTSET', 1)

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and not e.keywords \
                and self.scope.kind == 'function' and '__class__' in self.scope.free:
            self.load('super')
            self.emit('LOADC', '__class__')
            self.load(self.code.argnames[0])
            self.emit('CALL', (2, ()))
            return
        self.expr(e.func)
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            self.emit('MKLIST', 0)
            for x in e.args:
                if isinstance(x, ast.Starred):
                    self.expr(x.value)
                    self.emit('LISTEXT')
                else:
                    self.expr(x)
                    self.emit('LISTAPP', 1)
            self.emit('MKDICT', 0)
            for k in e.keywords:
                if k.arg is None:
                    self.expr(k.value)
                    self.emit('DICTUPD')
                else:
                    self.emit('CONST', k.arg)
                    self.expr(k.value)
                    self.emit('DICTSET', 1)
            self.emit('CALLX')
            return
        for a in e.args:
            self.expr(a)
        for k in e.keywords:
            self.expr(k.value)
        self.emit('CALL', (len(e.args), tuple(k.arg for k in e.keywords)))

    def e_Lambda(self, e):
        self.func(e, '<lambda>')

    def func(self, node, name):
        a = node.args
        for d in a.defaults:
            self.expr(d)
        kwd = []
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd.append(self.m(x.arg))
                self.expr(d)
        q = name if self.code.kind == 'module' else self.qual + '.' + name
        code = self.compile_code(node, name, 'function', self.cls, q)
        self.emit('MKFUNC', (code, len(a.defaults), tuple(kwd)))

    def comp_common(self, e, name):
        self.expr(e.generators[0].iter)
        self.emit('ITER')
        code = self.compile_code(e, name, 'comp', self.cls, self.qual + '.' + name)
        self.emit('MKFUNC', (code, 0, ()))
        self.emit('ROT2')
        self.emit('CALL', (1, ()))

    def e_ListComp(self, e):
        self.comp_common(e, '<listcomp>')

    def e_SetComp(self, e):
        self.comp_common(e, '<setcomp>')

    def e_DictComp(self, e):
        self.comp_common(e, '<dictcomp>')

    def e_GeneratorExp(self, e):
        self.comp_common(e, '<genexpr>')

    def comp_body(self, e):
        kind = type(e).__name__
        if kind == 'ListComp':
            self.emit('MKLIST', 0)
        elif kind == 'SetComp':
            self.emit('MKSET', 0)
        elif kind == 'DictComp':
            self.emit('MKDICT', 0)
        depth = [1]

        def gen(i):
            if i == len(e.generators):
                if kind == 'GeneratorExp':
                    self.expr(e.elt)
                    self.emit('YIELD')
                    self.emit('POP')
                elif kind == 'DictComp':
                    self.expr(e.key)
                    self.expr(e.value)
                    self.emit('DICTSET', depth[0])
                elif kind == 'SetComp':
                    self.expr(e.elt)
                    self.emit('SETADD', depth[0])
                else:
                    self.expr(e.elt)
                    self.emit('LISTAPP', depth[0])
                return
            g = e.generators[i]
            if i == 0:
                self.load_raw('.0')
            else:
                self.expr(g.iter)
                self.emit('ITER')
            depth[0] += 1
            top = self.here()
            f = self.emit('FORITER')
            self.assign(g.target)
            for c in g.ifs:
                self.expr(c)
                self.emit('JF', top)
            gen(i + 1)
            self.emit('JMP', top)
            self.patch(f)
            depth[0] -= 1
        gen(0)
        if kind == 'GeneratorExp':
            self.emit('CONST', None)
        self.emit('RETURN')

    def load_raw(self, n):
        self.emit('LOADC' if n in self.scope.cells else 'LOADL', n)

    def e_Yield(self, e):
        if e.value is None:
            self.emit('CONST', None)
        else:
            self.expr(e.value)
        self.emit('YIELD')

    def e_YieldFrom(self, e):
        # simple delegation: for x in it: yield x (send values are forwarded through .send when not None)
        self.expr(e.value)
        self.emit('ITER')
        self.emit('CONST', None)
        top = self.here()
        f = self.emit('YFROM')          # [it, sent] -> [it, yielded] or jump with [result]
        self.emit('YIELD')
        self.emit('JMP', top)
        self.patch(f)

    def e_JoinedStr(self, e):
        n = 0
        for v in e.values:
            if isinstance(v, ast.Constant):
                self.emit('CONST', v.value)
            else:
                self.expr(v.value)
                if v.format_spec is not None:
                    self.expr(v.format_spec)
                else:
                    self.emit('CONST', '')
                self.emit('FORMAT', v.conversion)
            n += 1
        self.emit('STRJOIN', n)

    def e_Starred(self, e):
        raise Unsupported('starred')

    # ---- assignment targets
    def assign(self, t):
        if isinstance(t, ast.Name):
            self.store(t.id)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.emit('SETATTR', self.m(t.attr))
        elif isinstance(t, ast.Subscript):
            self.expr(t.value)
            self.slice(t.slice)
            self.emit('SETSUB')
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                self.emit('UNPACKX', (star[0], len(t.elts) - star[0] - 1))
            else:
                self.emit('UNPACK', len(t.elts))
            for x in t.elts:
                self.assign(x.value if isinstance(x, ast.Starred) else x)
        else:
            raise Unsupported(type(t).__name__)

    # ---- statements
    def stmt(self, s):
        self.line = s.lineno
        getattr(self, 's_' + type(s).__name__, self.e_bad)(s)

    def body(self, b):
        for s in b:
            self.stmt(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value)
        self.emit('POP')

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        self.expr(s.value)
        for i, t in enumerate(s.targets):
            if i < len(s.targets) - 1:
                self.emit('DUP')
            self.assign(t)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.expr(s.value)
            self.assign(s.target)

    def s_AugAssign(self, s):
        t = s.target
        op = _BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            self.load(t.id)
            self.expr(s.value)
            self.emit('IBIN', op)
            self.store(t.id)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.emit('DUP')
            self.emit('ATTR', self.m(t.attr))
            self.expr(s.value)
            self.emit('IBIN', op)
            self.emit('ROT2')
            self.emit('SETATTR', self.m(t.attr))
        else:
            self.expr(t.value)
            self.slice(t.slice)
            self.emit('DUP2')
            self.emit('SUB')
            self.expr(s.value)
            self.emit('IBIN', op)
            self.emit('ROT3')
            self.emit('SETSUB')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.delete(t.id)
            elif isinstance(t, ast.Attribute):
                self.expr(t.value)
                self.emit('DELATTR', self.m(t.attr))
            elif isinstance(t, ast.Subscript):
                self.expr(t.value)
                self.slice(t.slice)
                self.emit('DELSUB')
            else:
                raise Unsupported('del')

    def s_If(self, s):
        self.expr(s.test)
        j = self.emit('JF')
        self.body(s.body)
        if s.orelse:
            k = self.emit('JMP')
            self.patch(j)
            self.body(s.orelse)
            self.patch(k)
        else:
            self.patch(j)

    def s_While(self, s):
        top = self.here()
        if isinstance(s.test, ast.Constant) and s.test.value:
            j = None
        else:
            self.expr(s.test)
            j = self.emit('JF')
        self.loops.append(('loop', top, [], False, len(self.exc)))
        self.body(s.body)
        self.emit('JMP', top)
        if j is not None:
            self.patch(j)
        lp = self.loops.pop()
        self.body(s.orelse)
        for b in lp[2]:
            self.patch(b)

    def s_For(self, s):
        self.expr(s.iter)
        self.emit('ITER')
        top = self.here()
        f = self.emit('FORITER')
        self.assign(s.target)
        self.loops.append(('loop', top, [], True, len(self.exc)))
        self.body(s.body)
        self.emit('JMP', top)
        self.patch(f)
        lp = self.loops.pop()
        self.body(s.orelse)
        for b in lp[2]:
            self.patch(b)

    def unwind(self, to):
        """Emit the cleanup of exception blocks (and finally bodies) down to depth ``to``."""
        saved = list(self.exc)
        while len(self.exc) > to:
            kind, body = self.exc.pop()
            if kind == 'block':
                self.emit('POPB')
            elif kind == 'finally':
                self.emit('POPB')
                body()
            elif kind == 'foriter':
                pass
        self.exc = saved

    def s_Break(self, s):
        lp = self.loops[-1]
        self.unwind(lp[4])
        if lp[3]:
            self.emit('POP')
        lp[2].append(self.emit('JMP'))

    def s_Continue(self, s):
        lp = self.loops[-1]
        self.unwind(lp[4])
        self.emit('JMP', lp[1])

    def s_Return(self, s):
        if s.value is None:
            self.emit('CONST', None)
        else:
            self.expr(s.value)
        if self.exc:
            t = self.tmp()
            self.emit('STOREL', t)
            self.unwind(0)
            self.emit('LOADL', t)
        self.emit('RETURN')

    def s_Raise(self, s):
        if s.exc is None:
            self.emit('LOADL', self.curexc[-1])
            self.emit('RAISE')
        else:
            self.expr(s.exc)
            if s.cause is not None:
                self.expr(s.cause)
            self.emit('RAISE', None if s.cause is None else 'from')

    curexc = ()

    def s_Try(self, s):
        if s.finalbody:
            def fin():
                self.body(s.finalbody)
            f = self.emit('SETUPX')
            self.exc.append(('finally', fin))
            if s.handlers:
                self.try_except(s)
            else:
                self.body(s.body)
            self.exc.pop()
            self.emit('POPB')
            fin()
            e = self.emit('JMP')
            self.patch(f)
            t = self.tmp()
            self.emit('STOREL', t)
            fin()
            self.emit('LOADL', t)
            self.emit('RERAISE')
            self.patch(e)
        else:
            self.try_except(s)

    def try_except(self, s):
        f = self.emit('SETUPX')
        self.exc.append(('block', None))
        self.body(s.body)
        self.exc.pop()
        self.emit('POPB')
        self.body(s.orelse)
        ends = [self.emit('JMP')]
        self.patch(f)
        t = self.tmp()
        self.emit('STOREL', t)
        for h in s.handlers:
            self.line = h.lineno
            if h.type is not None:
                self.emit('LOADL', t)
                self.expr(h.type)
                self.emit('EXCMATCH')
                nxt = self.emit('JF')
            else:
                nxt = None
            if h.name:
                self.emit('LOADL', t)
                self.store(h.name)
            old = self.curexc
            self.curexc = tuple(old) + (t,)
            self.body(h.body)
            self.curexc = old
            ends.append(self.emit('JMP'))
            if nxt is not None:
                self.patch(nxt)
        self.emit('LOADL', t)
        self.emit('RERAISE')
        for e in ends:
            self.patch(e)

    def s_With(self, s):
        self.with_items(s, 0)

    def with_items(self, s, i):
        if i == len(s.items):
            self.body(s.body)
            return
        it = s.items[i]
        t = self.tmp()
        self.expr(it.context_expr)
        self.emit('DUP')
        self.emit('STOREL', t)
        self.emit('ATTR', '__enter__')
        self.emit('CALL', (0, ()))
        if it.optional_vars is not None:
            self.assign(it.optional_vars)
        else:
            self.emit('POP')

        def fin():
            self.emit('LOADL', t)
            self.emit('ATTR', '__exit__')
            for _ in range(3):
                self.emit('CONST', None)
            self.emit('CALL', (3, ()))
            self.emit('POP')
        f = self.emit('SETUPX')
        self.exc.append(('finally', fin))
        self.with_items(s, i + 1)
        self.exc.pop()
        self.emit('POPB')
        fin()
        e = self.emit('JMP')
        self.patch(f)
        t2 = self.tmp()
        self.emit('STOREL', t2)
        # exceptional exit: __exit__(type, exc, tb); a true result swallows
        self.emit('LOADL', t)
        self.emit('ATTR', '__exit__')
        self.emit('LOADL', t2)
        self.emit('ATTR', '__class__')
        self.emit('LOADL', t2)
        self.emit('CONST', None)
        self.emit('CALL', (3, ()))
        sw = self.emit('JT')
        self.emit('LOADL', t2)
        self.emit('RERAISE')
        self.patch(sw)
        self.patch(e)

    def s_Assert(self, s):
        self.emit('ASSERT_ON')
        self.expr(s.test)
        j = self.emit('JT')
        self.emit('LOADG', 'AssertionError')
        if s.msg is not None:
            self.expr(s.msg)
            self.emit('CALL', (1, ()))
        self.emit('RAISE')
        self.patch(j)
        self.emit('ASSERT_OFF')

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            self.emit('IMPORT', (a.name, a.asname is not None))
            self.store(a.asname or a.name.split('.')[0])

    def s_ImportFrom(self, s):
        if s.module == '__future__':
            return
        for a in s.names:
            self.emit('IMPORTFROM', (s.module, s.level, a.name))
            if a.name == '*':
                raise Unsupported('import *')
            self.store(a.asname or a.name)

    def s_FunctionDef(self, s):
        for d in s.decorator_list:
            self.expr(d)
        self.func(s, s.name)
        for d in s.decorator_list:
            self.emit('CALL', (1, ()))
        self.store(s.name)

    def s_ClassDef(self, s):
        for d in s.decorator_list:
            self.expr(d)
        for b in s.bases:
            self.expr(b)
        for k in s.keywords:
            self.expr(k.value)
        q = s.name if self.code.kind == 'module' else self.qual + '.' + s.name
        code = self.compile_code(s, s.name, 'class', s.name, q)
        self.emit('MKCLASS', (code, len(s.bases), tuple(k.arg for k in s.keywords)))
        for d in s.decorator_list:
            self.emit('CALL', (1, ()))
        self.store(s.name)


def _liveness(code):
    """Backward liveness of plain locals: live[pc] = frozenset of locals that may be read from pc on."""
    n = len(code.instrs)
    live = [frozenset()] * (n + 1)
    handlers = []
    # conservatively: every handler entry is reachable from any instruction between SETUPX and its POPB; to stay
    # simple and sound the live-in of all handlers of the code object is added everywhere.
    changed = True
    targets = {}
    for i, (op, arg) in enumerate(code.instrs):
        if op == 'SETUPX':
            handlers.append(arg)
    while changed:
        changed = False
        hl = frozenset().union(*[live[h] for h in handlers]) if handlers else frozenset()
        for i in range(n - 1, -1, -1):
            op, arg = code.instrs[i]
            if op in ('RETURN', 'RAISE', 'RERAISE'):
                out = frozenset()
            elif op == 'JMP':
                out = live[arg]
            elif op in ('JF', 'JT', 'JFP', 'JTP', 'FORITER', 'SETUPX', 'YFROM'):
                out = live[arg] | live[i + 1]
            else:
                out = live[i + 1]
            out = out | hl
            if op == 'LOADL':
                new = out | {arg}
            elif op in ('STOREL', 'DELL'):
                new = out - {arg} if op == 'STOREL' and not handlers else out
            else:
                new = out
            if new != live[i]:
                live[i] = new
                changed = True
    code.live = live


def compile_module(source, filename, modname):
    tree = ast.parse(source, filename)
    return compile_tree(tree, filename)


def compile_tree(tree, filename):
    sb = _ScopeBuilder()
    sb.visit(tree)
    _resolve(sb.scopes[tree])
    c = _Compiler(filename, sb.scopes)
    c.code = None
    top = c.compile_code(tree, '<module>', 'module', None, '')
    return top, c.codes
