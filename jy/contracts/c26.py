from contracts.graphs import *
import sys, types, imp, os, shutil, tempfile
from pyamf.util import imports

class Boom(Exception): pass
class HookBoom(Exception): pass

# A case: modules {name: (actions of its body, times its import fails)}, hooks {id: (actions, fails)}, and a list of operations.
# Actions: ('import', module), ('hook', module, hook id)
class World(object):
    """what happens on the real import system"""
    serial = [0]
    def __init__(self, mods, hooks):
        World.serial[0] += 1
        self.p = 'zz%d_' % World.serial[0]
        self.mods = dict((self.real(n), (n, a, [k])) for n, (a, k) in mods.items()); self.hooks = hooks; self.log = []
    def real(self, n): return self.p + n
    def find_module(self, name, path=None): return self if name in self.mods else None
    def load_module(self, name):
        n, acts, left = self.mods[name]
        m = imp.new_module(name); m.__loader__ = self; m.__file__ = '<mem>'
        m.__path__ = []
        sys.modules[name] = m
        try:
            self.log.append(('start', n))
            for a in acts: self.act(a)
            if left[0]: left[0] -= 1; raise Boom(n)
            m.done = True
            self.log.append(('end', n))
        except:
            sys.modules.pop(name, None); raise
        return m
    def act(self, a):
        if a[0] == 'import': __import__(self.real(a[1]))
        elif a[0] == 'forget': sys.modules.pop(self.real(a[1]), None)
        else: imports.when_imported(self.real(a[1]), *[self.hook(a[1], h) for h in a[2:]])
    def hook(self, n, h):
        def f(mod):
            self.log.append(('hook', h, n, mod is sys.modules.get(self.real(n)) and mod.__name__ == self.real(n), getattr(mod, 'done', False)))
            acts, fails = self.hooks[h]
            for a in acts: self.act(a)
            if fails: raise HookBoom(h)
        return f
    def __enter__(self): sys.meta_path.append(self); return self
    def __exit__(self, *a):
        sys.meta_path.remove(self)
        for k in sys.modules.keys():
            if k.startswith(self.p): sys.modules.pop(k, None)
        for k in list(imports.finder.post_load_hooks):
            if k.startswith(self.p): del imports.finder.post_load_hooks[k]

class Model(object):
    """what should happen"""
    def __init__(self, mods, hooks):
        self.mods = dict((n, (a, [k])) for n, (a, k) in mods.items()); self.hooks = hooks; self.log = []; self.loaded = set(); self.loading = []; self.pending = {}
    def imp(self, name):
        parts = name.split('.')
        for i in range(1, len(parts) + 1): self.one('.'.join(parts[:i]))
    def one(self, n):
        if n in self.loaded or n in self.loading: return
        if n not in self.mods: raise ImportError(n)
        acts, left = self.mods[n]
        self.loading.append(n)
        try:
            self.log.append(('start', n))
            for a in acts: self.act(a)
            if left[0]: left[0] -= 1; raise Boom(n)
            self.log.append(('end', n))
        finally: self.loading.remove(n)
        self.loaded.add(n)
        for h in self.pending.pop(n, []): self.run(n, h)
    def run(self, n, h):
        self.log.append(('hook', h, n, True, True))
        acts, fails = self.hooks[h]
        if len(self.log) > 200: raise Skip
        for a in acts: self.act(a)
        if fails: raise HookBoom(h)
    def act(self, a):
        if a[0] == 'import': self.imp(a[1])
        elif a[0] == 'forget':
            if a[1] in self.loading: raise Skip
            self.loaded.discard(a[1])
        else:
            if a[1] in self.loading: raise Skip       # (half loaded)
            for h in a[2:]:
                if a[1] in self.loaded: self.run(a[1], h)
                else: self.pending.setdefault(a[1], []).append(h)

NAMES = ['a', 'b', 'c', 'a.x', 'a.y', 'ab', 'none', 'a.none']
def g_acts(r, n, hooks):
    out = []
    for _ in range(n):
        if r.randrange(3): out.append(('import', r.choice(NAMES[:6]) if r.randrange(8) else r.choice(NAMES)))
        else: out.append(('hook', r.choice(NAMES)) + tuple(r.choice(hooks) for _ in range(r.choice([1, 1, 2]))))
    return out
def g_case(r):
    hs = range(r.randrange(1, 6))
    mods = dict((n, (g_acts(r, r.choice([0, 0, 1, 2]), hs), r.choice([0, 0, 0, 1, 2]))) for n in NAMES[:6])
    hooks = dict((h, (g_acts(r, r.choice([0, 0, 0, 1]), hs), r.randrange(6) == 0)) for h in hs)
    ops = []
    for _ in range(r.choice([2, 3, 5, 8, 12])):
        k = r.randrange(12)
        ops.append(('forget', r.choice(NAMES[:3])) if k == 0 else g_acts(r, 1, hs)[0] if k < 8 else ('import', r.choice(NAMES[:6])))
    return sorted(mods.items()), sorted(hooks.items()), ops

E0 = [(n, ([], 0)) for n in NAMES[:6]]
def mods(**kw): return sorted((dict(E0, **dict((k.replace('_', '.'), v) for k, v in kw.items()))).items())
H = [(h, ([], False)) for h in range(4)]
FIXED = [(mods(), H, o) for o in (
    [('hook', 'a', 0), ('import', 'a')], [('import', 'a'), ('hook', 'a', 0)], [('hook', 'a', 0, 1, 2), ('import', 'a'), ('import', 'a')], [('hook', 'a', 2), ('hook', 'a', 1), ('hook', 'a', 0), ('import', 'a')],
    [('hook', 'a.x', 0), ('import', 'a'), ('import', 'a.y'), ('import', 'a.x')], [('hook', 'a', 0), ('hook', 'a.x', 1), ('import', 'a.x')], [('hook', 'a', 0), ('import', 'ab'), ('import', 'b'), ('import', 'a')], [('hook', 'ab', 0), ('import', 'a'), ('import', 'ab')],
    [('hook', 'none', 0), ('import', 'none'), ('import', 'none'), ('import', 'a')], [('hook', 'a', 0), ('hook', 'b', 1), ('import', 'b'), ('import', 'a')], [('hook', 'a', 0), ('import', 'a'), ('hook', 'a', 1), ('import', 'a')], [('hook', 'a', 0, 0), ('import', 'a')],
    [('hook', 'a', 0), ('import', 'a'), ('forget', 'a'), ('hook', 'a', 1), ('import', 'a')], [('hook', 'a', 0), ('import', 'a'), ('forget', 'a'), ('import', 'a')])] + [
    (mods(a=([], 1)), H, [('hook', 'a', 0), ('hook', 'b', 1), ('import', 'a'), ('import', 'b'), ('import', 'a')]),
    (mods(a=([('import', 'b')], 1)), H, [('hook', 'a', 0), ('hook', 'b', 1), ('import', 'a'), ('import', 'a'), ('import', 'b')]),
    (mods(a=([('import', 'b'), ('import', 'c')], 2)), H, [('hook', 'a', 0), ('hook', 'b', 1), ('hook', 'c', 2), ('import', 'a'), ('import', 'a'), ('import', 'a')]),
    (mods(a=([('import', 'b')], 0), b=([('import', 'a')], 0)), H, [('hook', 'a', 0), ('hook', 'b', 1), ('import', 'a')]),
    (mods(a=([('import', 'b')], 0), b=([], 1)), H, [('hook', 'a', 0), ('hook', 'b', 1), ('import', 'a'), ('import', 'a')]),
    (mods(a=([('hook', 'b', 1)], 0)), H, [('hook', 'b', 0), ('import', 'a'), ('import', 'b')]),
    (mods(), [(0, ([('import', 'b')], False)), (1, ([], False)), (2, ([('hook', 'a', 1)], False)), (3, ([('hook', 'b', 1)], False))], [('hook', 'a', 0, 2, 3), ('hook', 'b', 1), ('import', 'a')]),
    (mods(), [(0, ([], True)), (1, ([], False))], [('hook', 'a', 0), ('hook', 'b', 1), ('import', 'a'), ('import', 'b'), ('import', 'a'), ('hook', 'a', 1)]),
    (mods(), [(0, ([], True)), (1, ([], False))], [('import', 'a'), ('hook', 'a', 0), ('hook', 'a', 1)]),
    (mods(a=([('import', 'b')], 0)), [(0, ([], True)), (1, ([], False))], [('hook', 'b', 0), ('hook', 'a', 1), ('import', 'a'), ('import', 'a')])]

@contract('C26', g_case, FIXED, weight=4)
def hooks_fire(case):
    """each hook runs once, when its module is loaded or already is, in order, and no error disturbs the hooks of other modules"""
    ms, hs, ops = case
    model = Model(dict(ms), dict(hs))
    before = len(sys.meta_path), list(imports.finder.loaded_modules)
    with World(dict(ms), dict(hs)) as w:
        for o in ops:
            want = outcome(model.act, o)
            if want[0] == 'exc' and isinstance(want[1], Skip): return
            got = outcome(w.act, o)
            ensure(got[0] == want[0] and (got[0] == 'ok' or type(got[1]) is type(want[1])), '%s gave %s, expected %s', o, got, want)
            if got[0] == 'exc' and isinstance(got[1], (Boom, HookBoom)): ensure(got[1].args == want[1].args, 'the error of %s came as %s', want[1].args, got[1].args)
            ensure(w.log == model.log, 'after %s: %s, expected %s', o, w.log[-6:], model.log[-6:])
            ensure(imports.finder in sys.meta_path, 'the finder is gone')

@contract('C26', None, ['plain', 'fails', 'package', 'from'])
def on_files(kind):
    """the same for modules in files"""
    d = tempfile.mkdtemp(prefix='verif-imports-'); World.serial[0] += 1
    n = 'zzf%d' % World.serial[0]
    got = []
    try:
        sys.path.insert(0, d)
        os.mkdir(os.path.join(d, n + 'p'))
        def put(f, s):
            h = open(os.path.join(d, f), 'w'); h.write(s); h.close()
        put(n + 'b.py', 'value = 7\n')
        put(n + '.py', 'import sys\nimport %sb\nvalue = 5\nif not hasattr(sys, "%s"):\n    sys.%s = 1\n    %s\nlast = 9\n' % (n, n, n, 'raise RuntimeError("x")' if kind == 'fails' else 'pass'))
        put(n + 'p/__init__.py', 'value = 1\nlast = 9\n'); put(n + 'p/s.py', 'value = 2\nlast = 9\n')
        def hook(tag): return lambda m: got.append((tag, m.__name__, m is sys.modules[m.__name__], getattr(m, 'last', None)))
        if kind in ('package', 'from'):
            imports.when_imported(n + 'p.s', hook(1)); imports.when_imported(n + 'p', hook(0)); imports.when_imported(n + 'p.s', hook(2))
            if kind == 'package': exec 'import %sp.s' % n in {}
            else: exec 'from %sp import s' % n in {}
            ensure(got == [(0, n + 'p', True, 9), (1, n + 'p.s', True, 9), (2, n + 'p.s', True, 9)], '%s', got)
            return
        imports.when_imported(n, hook(0), hook(1)); imports.when_imported(n + 'b', hook(2))
        if kind == 'fails':
            raises(RuntimeError, __import__, n)
            ensure([g[0] for g in got] == [2], '%s', got)
        m = __import__(n)
        ensure(m.value == 5 and m is sys.modules[n], '%s', m)
        ensure(sorted(got) == [(0, n, True, 9), (1, n, True, 9), (2, n + 'b', True, None)] and got.index((0, n, True, 9)) < got.index((1, n, True, 9)), '%s', got)
        __import__(n); ensure(len(got) == 3, '%s', got)
    finally:
        sys.path.remove(d); shutil.rmtree(d, ignore_errors=True)
        if hasattr(sys, n): delattr(sys, n)

@contract('C26', None, ['x'])
def states(_):
    """the state of the finder can be saved and restored"""
    f = imports.finder
    s = f.__getstate__()
    imports.when_imported('zz_none', lambda m: None)
    ensure('zz_none' in f.post_load_hooks and 'zz_none' not in s[0], '%s', s)
    f.__setstate__(s)
    ensure('zz_none' not in f.post_load_hooks, 'a hook stayed')
    imports._init(); imports._init()
    ensure(len([x for x in sys.meta_path if x is f]) == 1 and imports.finder is f, '%s', sys.meta_path)
