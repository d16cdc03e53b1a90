"""The base world: builtin types, library models and the pyamf modules, loaded once from the real source."""
import json, os, sys, struct as _struct, z3
from .core import *
from . import interp as I, rope as R, ops
from .interp import _MISS
from .rope import is_text, is_str, is_uni, Rope

EXC = """BaseException:object SystemExit:BaseException KeyboardInterrupt:BaseException GeneratorExit:BaseException
Exception:BaseException StopIteration:Exception StandardError:Exception ArithmeticError:StandardError
OverflowError:ArithmeticError ZeroDivisionError:ArithmeticError FloatingPointError:ArithmeticError
AssertionError:StandardError AttributeError:StandardError EnvironmentError:StandardError IOError:EnvironmentError
OSError:EnvironmentError EOFError:StandardError ImportError:StandardError LookupError:StandardError
IndexError:LookupError KeyError:LookupError MemoryError:StandardError NameError:StandardError
UnboundLocalError:NameError RuntimeError:StandardError NotImplementedError:RuntimeError SyntaxError:StandardError
SystemError:StandardError TypeError:StandardError ValueError:StandardError UnicodeError:ValueError
UnicodeDecodeError:UnicodeError UnicodeEncodeError:UnicodeError Warning:Exception DeprecationWarning:Warning
UserWarning:Warning struct.error:Exception zlib.error:Exception"""

TYPES = """type NoneType int long float str unicode tuple list dict set frozenset function instancemethod classobj
builtin_function_or_method module xrange code property classmethod staticmethod generator iterator StringIO super
wrapper instance file slice ellipsis datetime date time timedelta tzinfo Decimal deque defaultdict struct_time Element
buffer traceback"""

class World(object):
    def __init__(self, asts):
        """asts: {relative file: JSON AST}"""
        self.asts = asts
        self.nodes = {}
        self.T = {}; self.builtins = {}; self.ctors = {}; self.payload_init = {}; self.object_slots = {}
        self.modules = {}          # name -> Ref (base world)
        self.base = {}; self.ctr = 0
        self.lib = {}              # library module name -> builder
        lem = Lemma('load', None, budget_s=10**6)
        lem.contracts = dict(LOAD_CONTRACTS)
        ex = Ex(self, [], lem)
        self.load_ex = ex
        from . import bi
        self._types(ex)
        bi.install(self, ex)
        ex.modules = {}
        self.loading = True
        self.load_errors = {}
        for m in LOAD:
            try: self.import_(ex, m)
            except PyRaise as e: self.load_errors[m] = ex.describe_exc(e.val)
            except OutOfReach as e: self.load_errors[m] = str(e) + ex.where()
            except I._Return: pass
        self.loading = False
        self.modules = ex.modules
        self.base = ex.heap.over
        self.ctr = ex.heap.ctr

    def _types(self, ex):
        def mkc(name, bases, builtin=None):
            c = ex.heap.new(HClass(name.split('.')[-1], bases, {}, 'type', builtin, 'exceptions' if builtin is None else '__builtin__'))
            self.T[name] = c
            return c
        o = mkc('object', (), 'object')
        for t in TYPES.split(): mkc(t, (o,), t)
        mkc('basestring', (o,), 'basestring')
        for k in ('str', 'unicode'): ex.heap.w(self.T[k].a).bases = (self.T['basestring'],)
        mkc('bool', (self.T['int'],), 'bool')
        ex.heap.w(self.T['datetime'].a).bases = (self.T['date'],)
        ex.heap.w(self.T['defaultdict'].a).bases = (self.T['dict'],)
        for l in EXC.split():
            n, b = l.split(':')
            mkc(n, (self.T[b],))
            if '.' not in n: self.builtins[n] = self.T[n]
        for n in ('object', 'type', 'int', 'long', 'float', 'str', 'unicode', 'tuple', 'list', 'dict', 'set', 'frozenset',
                  'bool', 'property', 'classmethod', 'staticmethod', 'basestring', 'xrange', 'super', 'file', 'buffer'):
            self.builtins[n] = self.T[n]
        self.builtins['bytes'] = self.T['str']

    # ---- modules
    def file_of(self, name):
        p = name.replace('.', '/')
        for f in (p + '/__init__.py', p + '.py'):
            if f in self.asts: return f
        return None
    def is_package(self, name):
        f = self.file_of(name)
        return f is not None and f.endswith('/__init__.py')

    def import_(self, ex, name, frm=None):
        mods = getattr(ex, 'modules', None)
        if mods is None: mods = ex.modules = dict(self.modules)
        if frm and frm.startswith('pyamf'):
            # implicit relative import
            base = frm if self.is_package(frm) else frm.rsplit('.', 1)[0]
            cand = base + '.' + name
            if self.file_of(cand) and not self.file_of(name): return self.import_(ex, cand)
        if name in mods: return mods[name]
        if '.' in name:
            parent, last = name.rsplit('.', 1)
            p = self.import_(ex, parent)
        else: p = None
        f = self.file_of(name)
        if f is None:
            m = self.library(ex, name)
            mods[name] = m
        else:
            if f not in self.nodes: self.nodes[f] = I.load_node(self.asts[f])
            m = ex.heap.new(HModule(name, {'__name__': name.encode(), '__file__': f.encode(), '__doc__': None}))
            mods[name] = m
            try:
                fr = I.Frame(ex, None, m, set(), name)
                if ex.stack is None: ex.stack = []
                ex.stack.append((name, 0))
                fr.block(self.nodes[f].body)
                ex.stack.pop()
            except (PyRaise, OutOfReach):
                del mods[name]
                raise
        if p is not None: ex.heap.w(p.a).vars[last] = m
        return m

    def library(self, ex, name):
        b = self.lib.get(name)
        if b is None:
            if name in ('cpyamf', 'sqlalchemy', 'elixir', 'google', 'builtins', 'twisted', 'lxml', 'defusedxml', 'cElementTree',
                        'elementtree', 'cpyamf.util', 'lxml.etree', 'defusedxml.lxml', '_pyamf_none'):
                ex.raise_('ImportError', name.encode())
            return ex.heap.new(HModule(name, {}, unmodelled=True))
        return b(ex)

    def get(self, ex, dotted):
        """resolve 'pyamf.amf3.Encoder' in the current heap"""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            n = '.'.join(parts[:i])
            if self.file_of(n) or n in self.modules:
                v = self.import_(ex, n)
                for p in parts[i:]: v = I.getattr_(ex, v, p)
                return v
        raise KeyError(dotted)

LOAD = ['pyamf', 'pyamf.python', 'pyamf.util', 'pyamf.util.pure', 'pyamf.util.imports', 'pyamf.xml', 'pyamf.codec', 'pyamf.alias',
        'pyamf.amf0', 'pyamf.amf3', 'pyamf.sol', 'pyamf.versions', 'pyamf.adapters', 'pyamf.adapters.util', 'pyamf.remoting',
        'pyamf.remoting.amf0', 'pyamf.remoting.amf3', 'pyamf.remoting.gateway', 'pyamf.remoting.gateway.wsgi', 'pyamf.remoting.gateway.django',
        'pyamf.remoting.client', 'pyamf.flex', 'pyamf.flex.messaging', 'pyamf.flex.data', 'vtypes']

LOAD_CONTRACTS = {
    'pyamf.adapters.register_adapters': lambda ex, f, a, k: None,
}
