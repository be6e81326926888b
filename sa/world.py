"""Native library models and the world loader: abstractly evaluates the module initialisers of /repo/amazon/ion."""
import ast
import decimal
import os
import sys

from dom import *
import ir
import machine as M
from machine import (Machine, State, O, FuncO, CellO, GenO, ClsO, ModO, IterO, NF as _NF, TailCall, Unsupp, PyExc, NeedIter,
                     STAR, isconst, mkconst, _PENDING)

HERE = os.path.dirname(os.path.abspath(__file__))

EXC_TREE = {
    'BaseException': 'object', 'Exception': 'BaseException', 'GeneratorExit': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'StopIteration': 'Exception', 'ArithmeticError': 'Exception', 'OverflowError': 'ArithmeticError',
    'ZeroDivisionError': 'ArithmeticError', 'AssertionError': 'Exception', 'AttributeError': 'Exception',
    'EOFError': 'Exception', 'ImportError': 'Exception', 'LookupError': 'Exception', 'IndexError': 'LookupError',
    'KeyError': 'LookupError', 'MemoryError': 'Exception', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'IOError': 'OSError', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'SyntaxError': 'Exception',
    'TypeError': 'Exception', 'ValueError': 'Exception', 'UnicodeError': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'Warning': 'Exception',
    'DeprecationWarning': 'Warning',
}


# standard modules the analysis has no model of: using one of their functions is 'unknown', importing them is not
OPAQUE = set('''threading weakref dataclasses numbers pprint textwrap time random traceback inspect types heapq array codecs
unicodedata fractions statistics datetime tempfile os pathlib glob shutil subprocess hashlib zlib queue concurrent asyncio
locale calendar zoneinfo uuid pickle copyreg atexit gc signal select socket ssl urllib html http csv keyword token tokenize
ast dis platform getpass argparse optparse cProfile profile timeit importlib pkgutil contextvars reprlib __future__
ctypes mmap secrets bz2 lzma gzip zipfile tarfile sched selectors graphlib'''.split())


def _opaque(name):
    def f(m, st, args, kw):
        raise Unsupp('no model of %s' % name)
    return _NF(name, f)


class OpaqueDict(dict):
    def __contains__(self, k):
        return dict.__contains__(self, k) or not k.startswith('__')

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if dict.__contains__(self, k) else _opaque(self['__name__'] + '.' + k)


class World(object):
    def __init__(self, root=None, no_assert=False, sources=None):
        self.root = root or os.environ.get('SA_ROOT') or '/repo'
        self.sources = sources or {}
        self.m = m = Machine()
        m.no_assert = no_assert
        self.st = st = State()
        self.codes = {}           # uid -> Code (repository code only)
        self.modcodes = {}        # modname -> [Code]
        self.native_mods = {}
        m.world = self
        self.build_types()
        self.build_builtins()
        self.build_native_mods()
        m.loader = self.load
        m.prelude = {}
        pm = self.load(st, '_prelude')
        for k, v in st.o(pm).d.items():
            m.prelude[k] = v
        for k in ('enumerate', 'zip', 'map', 'filter', 'any', 'all', 'sum', 'reversed'):
            m.builtins[k] = m.prelude[k]
        for n in sorted(os.listdir(os.path.join(HERE, 'prelude'))):
            if n.endswith('.py') and n not in ('_prelude.py', 'collections_abc.py'):
                self.load(st, n[:-3])
        self.load(st, 'collections.abc')
        for n in self.native_mods:
            self.load(st, n)

    # ------------------------------------------------------------------ construction helpers
    def cls(self, name, bases=None, native=None, meta=None):
        st, m = self.st, self.m
        c = ClsO()
        c.own = None
        c.name = c.qual = name
        c.native = native
        c.d = {}
        c.bases = tuple(bases) if bases is not None else ((m.types['object'],) if 'object' in m.types else ())
        c.mro = ()
        c.meta = meta if meta is not None else m.types.get('type')
        r = st.new(c)
        c.mro = (r,) + tuple(self.merge([list(st.o(b).mro) for b in c.bases] + [list(c.bases)]))
        return r

    def merge(self, seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupp('MRO conflict')
            out.append(h)
            seqs = [[x for x in t if x != h] for t in seqs]
            seqs = [t for t in seqs if t]
        return out

    def add(self, cls, name, fn, getter=False):
        nm = ('@' if getter else '') + self.st.o(cls).name + '.' + name
        self.st.o(cls).d[name] = _NF(nm, fn)

    def build_types(self):
        m, st = self.m, self.st
        T = m.types
        T['object'] = self.cls('object', ())
        T['type'] = self.cls('type')
        st.o(T['object']).meta = T['type']
        st.o(T['type']).meta = T['type']
        for n in ('function', 'generator', 'module', 'iterator', 'cell', 'NoneType', 'method', 'builtin_function',
                  'slice', 'property', 'staticmethod', 'classmethod', 'super', 'ellipsis', 'NotImplementedType',
                  'partial', 'frame'):
            T[n] = self.cls(n)
        T['memoryview'] = self.cls('memoryview', native='bytes')
        for n in ('int', 'float', 'str', 'bytes', 'bytearray', 'tuple', 'list', 'dict', 'set', 'frozenset'):
            T[n] = self.cls(n, native=n if n != 'frozenset' else 'set')
        T['bool'] = self.cls('bool', (T['int'],), native='int')
        T['deque'] = self.cls('deque', native='deque')
        T['dict_keys'] = self.cls('dict_keys', (T['list'],), native='list')
        T['OrderedDict'] = self.cls('OrderedDict', (T['dict'],), native='dict')
        T['defaultdict'] = self.cls('defaultdict', (T['dict'],), native='dict')
        T['Decimal'] = self.cls('Decimal', native='Decimal')
        for n in ('datetime', 'timedelta', 'tzinfo', 'Context', 'pattern', 'match', 'BytesIO', 'StringIO',
                  'TextIOBase'):
            T[n] = self.cls(n)
        st.o(T['StringIO']).bases = (T['TextIOBase'],)
        st.o(T['StringIO']).mro = (T['StringIO'], T['TextIOBase'], T['object'])
        B = m.builtins
        for n, b in EXC_TREE.items():
            B[n] = self.cls(n, (B[b] if b != 'object' else T['object'],))
        B['EnvironmentError'] = B['OSError']

    # ------------------------------------------------------------------ builtins
    def build_builtins(self):
        m, st = self.m, self.st
        T, B = m.types, m.builtins
        for n in ('object', 'type', 'int', 'float', 'str', 'bytes', 'bytearray', 'tuple', 'list', 'dict', 'set',
                  'frozenset', 'bool', 'property', 'staticmethod', 'classmethod', 'super', 'slice', 'memoryview'):
            B[n] = T[n]
        B['NotImplemented'] = NotImplemented
        B['Ellipsis'] = Ellipsis
        B['__debug__'] = not m.no_assert
        B['True'], B['False'], B['None'] = True, False, None
        import natives
        natives.install(self)

    def build_native_mods(self):
        import natives
        self.native_mods = natives.modules(self)

    # ------------------------------------------------------------------ loader
    def find(self, name):
        p = os.path.join(HERE, 'prelude', name.replace('.', '_') + '.py')
        if not name.startswith('amazon') and os.path.exists(p):
            return p, False, False
        rel = name.replace('.', '/')
        if name in self.sources:
            return name, False, True
        if name == 'amazon' or name.startswith('amazon.'):
            q = os.path.join(self.root, rel)
            if os.path.exists(q + '.py'):
                return q + '.py', False, True
            if os.path.exists(os.path.join(q, '__init__.py')):
                return os.path.join(q, '__init__.py'), True, True
        return None, False, False

    def load(self, st, name):
        m = self.m
        if name in m.modules:
            return m.modules[name]
        if '.' in name:
            self.load(st, name.rsplit('.', 1)[0])
        if name in ('amazon', 'amazon.ion'):      # namespace packages: no code of their own
            r = st.new(ModO(name, {'__name__': name}))
            m.modules[name] = r
            if name == 'amazon.ion':
                st.o(m.modules['amazon']).d['ion'] = r
            self.pkgs = getattr(self, 'pkgs', set()) | {name}
            return r
        if name in self.native_mods:
            r = st.new(ModO(name, dict(self.native_mods[name])))
            m.modules[name] = r
            return r
        path, pkg, repo = self.find(name)
        if path is None and name.split('.')[0] in OPAQUE:
            r = st.new(ModO(name, OpaqueDict({'__name__': name})))
            m.modules[name] = r
            return r
        if path is None:
            raise PyExc(st.new(O(m.builtins['ImportError'], {'args': ('No module named %s' % name,)}, None)))
        src = self.sources.get(name)
        if src is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        top, codes = ir.compile_module(src, os.path.relpath(path, self.root) if repo else 'prelude/' + name, name)
        for c in codes:
            self.codes[c.uid] = c
        if repo:
            self.modcodes[name] = codes
        d = {'__name__': name, '__doc__': None, '__file__': path}
        r = st.new(ModO(name, d))
        m.modules[name] = r
        if pkg:
            self.pkgs = getattr(self, 'pkgs', set()) | {name}
        # run the initialiser in a fresh machine run on this state (deterministic: no forks expected)
        frames, res, script, si = st.frames, st.result, st.script, st.si
        st.frames, st.result, st.script, st.si = [], None, [], 0
        m.push_code(st, top, [], ('top',))
        st.frames[-1].globs = r
        out = m.run(st)
        if len(out) != 1:
            raise Unsupp('module initialiser of %s forks' % name)
        if out[0].kind == 'raise':
            if m.exc_name(st, out[0].v) == 'ImportError':
                del m.modules[name]
                st.frames, st.result, st.script, st.si = frames, res, script, si
                raise PyExc(out[0].v)
            raise Unsupp('module %s raises %s %r' % (name, m.exc_name(st, out[0].v), st.o(out[0].v).attrs))
        if out[0].kind == 'unknown':
            raise Unsupp('module %s: %s' % (name, out[0].v))
        st.frames, st.result, st.script, st.si = frames, res, script, si
        if '.' in name:
            par = m.modules[name.rsplit('.', 1)[0]]
            st.o(par).d[name.rsplit('.', 1)[1]] = r
        return r

    def load_all(self):
        d = os.path.join(self.root, 'amazon', 'ion')
        names = sorted(f[:-3] for f in os.listdir(d) if f.endswith('.py') and f != '__init__.py')
        self.skipped = []
        for n in names:
            try:
                self.load(self.st, 'amazon.ion.' + n)
            except PyExc as e:
                self.skipped.append((n, self.m.exc_name(self.st, e.v)))
            except Unsupp as e:
                self.skipped.append((n, str(e)))
                self.m.modules.pop('amazon.ion.' + n, None)
                self.st.frames, self.st.result, self.st.script, self.st.si = [], None, [], 0
        self.m.is_pkg = lambda n: n in getattr(self, 'pkgs', ())
        return self

    def freeze(self):
        """Turn everything allocated so far into the shared immutable base."""
        st = self.st
        b = dict(st.base)
        b.update(st.heap)
        st.base = b
        st.heap = {}
        self.base_na = st.na
        st.effects = []
        return self

    def state(self):
        s = self.st.clone()
        s.effects = []
        s.steps = 0
        return s

    def mod(self, name):
        return self.m.modules['amazon.ion.' + name]

    def get(self, mod, name):
        if 'amazon.ion.' + mod not in self.m.modules:
            raise Unsupp('module %s could not be analysed: %s' % (mod, dict(self.skipped).get(mod, 'absent')))
        d = self.st.o(self.mod(mod)).d
        return d[name]
