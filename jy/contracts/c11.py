from vals import *
from pyamf import util, alias as palias

def mkpool():
    out = []
    for i in range(4):
        d = {}
        if i == 1: d['__amf__'] = {'alias': 'reg.own'}
        if i == 2: d['__amf__'] = {'dynamic': False, 'static': ('a',)}
        out.append(type('R%d' % i, (object,), d))
    class Old: pass
    out.append(Old)
    return out
AL = ['reg.A', 'reg.B', u'reg.C', 'reg.own', 'D', 'DSK2', 'reg.none']
BADCLS = [5, 'x', None, object, len, [], u'reg.A']

def g_ops(r):
    out = []
    for _ in range(r.randrange(1, 18)):
        k = r.randrange(10)
        if k < 4: out.append(('reg', r.randrange(5), r.choice(AL + [None])))
        elif k < 6: out.append(('unreg', r.randrange(5)))
        elif k < 8: out.append(('unreg', r.choice(AL)))
        elif k == 8: out.append(('bad', r.randrange(len(BADCLS)), r.choice(AL + [None])))
        else: out.append(('empty', r.randrange(5)))
    return out

@contract('C11', g_ops, [
    [('reg', 0, 'reg.A'), ('unreg', 0), ('unreg', 'reg.A')], [('reg', 0, 'reg.A'), ('unreg', 'reg.A'), ('unreg', 0)], [('reg', 0, None), ('unreg', 0)],
    [('reg', 0, 'reg.A'), ('reg', 1, 'reg.A'), ('unreg', 0), ('unreg', 1)], [('reg', 0, 'reg.A'), ('reg', 0, 'reg.B'), ('unreg', 0), ('unreg', 'reg.A')],
    [('reg', 0, 'reg.A'), ('reg', 0, 'reg.B'), ('unreg', 'reg.A'), ('unreg', 0)], [('reg', 1, None), ('reg', 1, None), ('unreg', 1)], [('bad', i, 'reg.A') for i in range(len(BADCLS))],
    [('reg', 0, 'reg.A'), ('bad', 0, 'reg.A'), ('empty', 0), ('empty', 1)], [('reg', 4, 'reg.A'), ('unreg', 4)]], weight=3)
def registry(ops):
    """after any sequence of registrations and removals a class and its alias give the entry of the latest registration, a removed one none, and a refused one changes nothing"""
    cs = mkpool(); model = {}
    before = dict(pyamf.CLASS_CACHE)
    try:
        for n, op in enumerate(ops):
            if op[0] == 'reg':
                k = cs[op[1]]
                x = pyamf.register_class(k, op[2]) if op[2] is not None else pyamf.register_class(k)
                al = op[2] if op[2] is not None else 'reg.own' if op[1] == 1 else None
                ensure(isinstance(x, pyamf.ClassAlias) and x.klass is k and x.alias == (al or '') and x.anonymous == (al is None), 'registered as %s', x)
                model[k] = x
                if al is not None: model[al] = x
            elif op[0] == 'unreg':
                key = cs[op[1]] if isinstance(op[1], int) else op[1]
                if key in model:
                    x = pyamf.unregister_class(key)
                    ensure(x is model[key], 'unregistering %s gives %s', key, x)
                    for q in [q for q in model if model[q] is x]: del model[q]
                else: raises(pyamf.UnknownClassAlias, pyamf.unregister_class, key)
            elif op[0] == 'bad': raises((TypeError, ValueError), pyamf.register_class, BADCLS[op[1]], op[2])
            else: raises(ValueError, pyamf.register_class, cs[op[1]], '')
            # (asking for an unknown alias tries to import it, which is slow)
            for q in cs + [q for q in AL if q in model or n == len(ops) - 1 or q in op[1:]]:
                if q in model: ensure(pyamf.get_class_alias(q) is model[q] and (not isinstance(q, basestring) or pyamf.load_class(q) is model[q]), '%s after %s gives %s', q, op, pyamf.get_class_alias(q))
                else: raises(pyamf.UnknownClassAlias, pyamf.get_class_alias, q)
        for q in before: ensure(pyamf.CLASS_CACHE.get(q) is before[q], 'another registration (%s) changed', q)
    finally:
        for q in cs + AL: pyamf.CLASS_CACHE.pop(q, None)

class L(object):
    def __init__(self, n, ans): self.n = n; self.ans = ans; self.calls = []
    def __call__(self, alias):
        self.calls.append(alias)
        return self.ans(alias)

def g_load(r):
    return ([(r.choice(['none', 'class', 'alias', 'other', 'bad']), r.choice(['ld.A', 'ld.B'])) for _ in range(r.randrange(0, 4))],
            [r.choice(['ld.A', 'ld.B', 'ld.C']) for _ in range(r.randrange(1, 4))], r.randrange(4))
@contract('C11', g_load, [([('class', 'ld.A'), ('none', 'ld.A')], ['ld.A', 'ld.A', 'ld.B'], 0), ([('alias', 'ld.A')], ['ld.A', 'ld.B'], 0), ([('other', 'ld.A')], ['ld.A'], 0), ([('bad', 'ld.A')], ['ld.A', 'ld.B'], 0)])
def loaders(c):
    """an unknown alias is asked of the loaders; the class or alias one answers is registered (and not asked for again), nobody answering is an error"""
    specs, asks, drop = c
    ls = []; made = []
    for i, (kind, al) in enumerate(specs):
        K = type('L%d' % i, (object,), {}); made.append(K)
        if kind == 'alias': a = palias.ClassAlias(K, al); f = lambda q, al=al, a=a: a if q == al else None
        elif kind == 'other': a = palias.ClassAlias(K, 'ld.other%d' % i); f = lambda q, al=al, a=a: a if q == al else None
        elif kind == 'class': f = lambda q, al=al, K=K: K if q == al else None
        elif kind == 'bad': f = lambda q, al=al: 5 if q == al else None
        else: f = lambda q: None
        ls.append(L(i, f))
    n0 = set(pyamf.CLASS_LOADERS)
    reg = ls[:]
    try:
        for l in ls: pyamf.register_class_loader(l); pyamf.register_class_loader(l)
        if drop < len(ls):
            pyamf.unregister_class_loader(ls[drop]); reg.remove(ls[drop])
            raises(LookupError, pyamf.unregister_class_loader, ls[drop])
        for q in asks:
            cand = [i for i, (kind, al) in enumerate(specs) if al == q and kind != 'none' and ls[i] in reg]
            known = q in pyamf.CLASS_CACHE
            cnt = [len(l.calls) for l in ls]
            if known:
                x = pyamf.get_class_alias(q); ensure([len(l.calls) for l in ls] == cnt, 'a loader is asked for a registered alias')
            elif not cand:
                raises(pyamf.UnknownClassAlias, pyamf.get_class_alias, q)
                for l in reg: ensure(l.calls and l.calls[-1] == q, 'a loader was not asked')
            else:
                r = outcome(pyamf.get_class_alias, q)
                if r[0] == 'exc':
                    ensure(isinstance(r[1], TypeError) and [i for i in cand if specs[i][0] == 'bad'], 'loading %s: %s', q, r[1]); ensure(q not in pyamf.CLASS_CACHE, 'a refused answer is registered')
                    continue
                x = r[1]
                ensure(x.klass in [made[i] for i in cand], 'loaded %s', x)
                i = made.index(x.klass)
                ensure(pyamf.get_class_alias(x.klass) is x, 'the loaded class is not registered')
                if specs[i][0] != 'other': ensure(x.alias == q and pyamf.get_class_alias(q) is x, 'the loaded alias is not registered')
                else: ensure(pyamf.get_class_alias('ld.other%d' % i) is x, 'the loaded alias is not registered')
            for l in ls:
                if l not in reg: ensure(not l.calls, 'a removed loader is asked')
        raises(TypeError, pyamf.register_class_loader, 5)
    finally:
        for l in ls:
            if l in pyamf.CLASS_LOADERS: pyamf.unregister_class_loader(l)
        for q in ['ld.A', 'ld.B', 'ld.C'] + ['ld.other%d' % i for i in range(4)] + made: pyamf.CLASS_CACHE.pop(q, None)
    ensure(set(pyamf.CLASS_LOADERS) == n0, 'the loaders changed')

@contract('C11', None, [q for q in ['datetime.datetime', 'collections.OrderedDict', 'nosuch.Klass', 'datetime.nosuch', 'datetime', '', '.', 'a.b.c', 'flex.messaging.io.ArrayCollection', 'flex.messaging.io.Nosuch',
                   'flex.messaging.messages.RemotingMessage', 'flex.nosuch', 'DSK', 'DSC']])
def fallback(q):
    """an alias no loader knows is tried as the full name of a class, else it is an unknown class"""
    before = dict(pyamf.CLASS_CACHE)
    try:
        r = outcome(pyamf.get_class_alias, q)
        if q in ('datetime.datetime', 'collections.OrderedDict'):
            ensure(r[0] == 'ok' and '%s.%s' % (r[1].klass.__module__, r[1].klass.__name__) == q and pyamf.get_class_alias(q) is r[1], '%s gives %s', q, r[1])
        elif q.startswith('flex.messaging') and 'Nosuch' not in q or q in ('DSK', 'DSC'): ensure(r[0] == 'ok' and r[1].alias == q, '%s gives %s', q, r[1])
        else: ensure(r[0] == 'exc' and isinstance(r[1], pyamf.UnknownClassAlias), '%s gives %s', q, r[1])
    finally:
        for k in list(pyamf.CLASS_CACHE):
            if k not in before and not q.startswith('flex') and q not in ('DSK', 'DSC'): del pyamf.CLASS_CACHE[k]

class T0(object): pass
class T1(T0): pass
class T2: pass
TYPES = [T0, T1, T2, (T0, T1), [T0, T1], [T2, T0], len, (T2,)]
BADT = [5, 'x', (T0, 5), [5], None]
@contract('C11', lambda r: [(r.choice(['add', 'add', 'rm', 'bad']), r.randrange(8)) for _ in range(r.randrange(1, 12))],
          [[('add', i), ('add', i), ('rm', i), ('rm', i)] for i in range(8)] + [[('add', 3), ('add', 4), ('rm', 4), ('rm', 3)]] + [[('bad', i) for i in range(5)]])
def types_(ops):
    """custom types: a registered one is found until removed, a second registration or an invalid type is refused, and nothing else changes"""
    before = dict(pyamf.TYPE_MAP); model = {}
    try:
        for op, i in ops:
            t = TYPES[i]; key = tuple(t) if isinstance(t, list) else t
            if op == 'add':
                f = lambda o, encoder=None, i=i: i
                if key in model: raises(KeyError, pyamf.add_type, t, f)
                else: pyamf.add_type(t, f); model[key] = f
            elif op == 'rm':
                if key in model: ensure(pyamf.remove_type(t) is model[key], 'removing %s', t); del model[key]
                else: raises(KeyError, pyamf.remove_type, t)
            else: raises((TypeError, KeyError), pyamf.add_type, BADT[i % len(BADT)], len)
            for t in TYPES:
                key = tuple(t) if isinstance(t, list) else t
                if key in model: ensure(pyamf.get_type(t) is model[key], 'type %s', t)
                else: raises(KeyError, pyamf.get_type, t)
            ensure(len(pyamf.TYPE_MAP) == len(before) + len(model), 'a refused type was added')
    finally:
        pyamf.TYPE_MAP.clear(); pyamf.TYPE_MAP.update(before)

class E0(Exception): pass
class E1(E0): pass
class NotErr(object): pass
class OldErr: pass
CODES = ['c.a', 'c.b', u'c.c', 'E0']
@contract('C11', lambda r: [(r.choice(['add', 'add', 'rm', 'rmc', 'bad']), r.randrange(2), r.randrange(4)) for _ in range(r.randrange(1, 12))],
          [[('add', 0, 0), ('add', 1, 0), ('rmc', 0, 0), ('rmc', 0, 0)], [('add', 0, 0), ('rm', 0, 0), ('rm', 0, 0)], [('add', 0, 0), ('add', 0, 1), ('rm', 0, 0), ('rm', 0, 0), ('rm', 0, 0)], [('bad', 0, i) for i in range(4)]])
def errors(ops):
    """error classes: a registered code gives its class until removed, a used code or an invalid class is refused, and nothing else changes"""
    before = dict(pyamf.ERROR_CLASS_MAP); model = {}
    try:
        for op, i, j in ops:
            k = [E0, E1][i]; code = CODES[j]
            if op == 'add':
                if code in model: raises(ValueError, pyamf.add_error_class, k, code)
                else: pyamf.add_error_class(k, code); model[code] = k
            elif op == 'rmc':
                if code in model: pyamf.remove_error_class(code); del model[code]
                else: raises(ValueError, pyamf.remove_error_class, code)
            elif op == 'rm':
                have = [q for q in model if model[q] is k]
                if have:
                    pyamf.remove_error_class(k)
                    gone = [q for q in have if q not in pyamf.ERROR_CLASS_MAP]
                    ensure(len(gone) == 1, 'removing %s removes the codes %s of %s', k, gone, have)
                    del model[gone[0]]
                else: raises(ValueError, pyamf.remove_error_class, k)
            else:
                raises(TypeError, pyamf.add_error_class, [NotErr, OldErr, 5, 'x'][j], 'c.bad'); raises(TypeError, pyamf.remove_error_class, 5)
            want = dict(before); want.update(model)
            ensure(samekeys(pyamf.ERROR_CLASS_MAP, want) and all(pyamf.ERROR_CLASS_MAP[q] is want[q] for q in want), 'error classes after %s: %s', op, pyamf.ERROR_CLASS_MAP)
    finally:
        pyamf.ERROR_CLASS_MAP.clear(); pyamf.ERROR_CLASS_MAP.update(before)

@contract('C11', lambda r: (r.randrange(2), r.randrange(2), r.randrange(2), [r.randrange(6) for _ in range(r.randrange(1, 4))]), [(a, b, s, [0, 1, 2, 3, 4, 5]) for a in (0, 1) for b in (0, 1) for s in (0, 1)])
def alias_types(c):
    """an alias type applies to its classes (existing registrations included, under alias and class alike) from registration to removal; invalid or duplicate ones are refused"""
    named, sub, first, bad = c
    class MyAlias(pyamf.ClassAlias): pass
    class Mine(object): pass
    class SubMine(Mine): pass
    class NotMine(object): pass
    k = SubMine if sub else Mine
    types0 = dict(pyamf.ALIAS_TYPES)
    def reg(c, n): return pyamf.register_class(c, n) if named else pyamf.register_class(c)
    try:
        o = reg(NotMine, 'at.other')
        if first: reg(k, 'at.A')
        pyamf.register_alias_type(MyAlias, Mine)
        if not first: reg(k, 'at.A')
        x = pyamf.get_class_alias(k)
        ensure(type(x) is MyAlias and x.klass is k and x.alias == ('at.A' if named else ''), 'the class is registered as %s', x)
        if named: ensure(pyamf.get_class_alias('at.A') is x, 'the alias and the class give different entries')
        ensure(pyamf.get_class_alias(NotMine) is o, 'another class is affected')
        for b in bad:
            f = [lambda: pyamf.register_alias_type(MyAlias, Mine), lambda: pyamf.register_alias_type(5, NotMine), lambda: pyamf.register_alias_type(Mine, NotMine),
                 lambda: pyamf.register_alias_type(type('M2', (pyamf.ClassAlias,), {})), lambda: pyamf.register_alias_type(type('M2', (pyamf.ClassAlias,), {}), NotMine, 5),
                 lambda: pyamf.register_alias_type(type('M2', (pyamf.ClassAlias,), {}), NotMine, Mine)][b]
            raises((TypeError, ValueError, RuntimeError), f)
            ensure(len(pyamf.ALIAS_TYPES) == len(types0) + 1 and pyamf.ALIAS_TYPES[MyAlias] == (Mine,), 'a refused alias type is registered')
        ensure(pyamf.get_class_alias(k) is x, 'a refused alias type changed the registry')
        pyamf.unregister_alias_type(MyAlias)
        ensure(pyamf.ALIAS_TYPES == types0, 'alias types %s', pyamf.ALIAS_TYPES)
        pyamf.unregister_class(k)
        raises(pyamf.UnknownClassAlias, pyamf.get_class_alias, k)
        if named: raises(pyamf.UnknownClassAlias, pyamf.get_class_alias, 'at.A')
    finally:
        pyamf.ALIAS_TYPES.clear(); pyamf.ALIAS_TYPES.update(types0)
        for q in (Mine, SubMine, NotMine, 'at.A', 'at.other'): pyamf.CLASS_CACHE.pop(q, None)

@contract('C11', lambda r: (r.randrange(3), r.choice(['.', ':', '']), sorted(set(r.choice(['P0', 'P1', 'P2', 'P3']) for _ in range(r.randrange(3)))), r.randrange(2)),
          [(m, '.', ig, s) for m in range(3) for ig in ([], ['P1']) for s in (0, 1)])
def package(c):
    """registering a package registers exactly its own classes, each under package, separator and name, except those ignored"""
    how, sep, ignore, strict = c
    import imp
    m = imp.new_module('pkgmod')
    cs = {}
    for i in range(4):
        k = type('P%d' % i, (object,), {'__module__': 'pkgmod' if i < 3 else 'elsewhere'}); cs[k.__name__] = k; setattr(m, k.__name__, k)
    m.n = 5; m.f = len
    before = dict(pyamf.CLASS_CACHE)
    try:
        if how == 0: src = m
        elif how == 1: src = dict(m.__dict__)
        else: src = m; m.__all__ = ('P0', 'P1', 'n', 'P3')
        r = pyamf.register_package(src, 'pk', separator=sep, ignore=ignore, strict=bool(strict))
        want = set(n for n in cs if n not in ignore and not (strict and n == 'P3') and not (how == 2 and n == 'P2'))
        ensure(set(k.__name__ for k in r) == want, 'registered %s, expected %s', sorted(k.__name__ for k in r), sorted(want))
        for n in cs:
            if n in want: ensure(pyamf.get_class_alias(cs[n]) is r[cs[n]] and pyamf.CLASS_CACHE['pk%s%s' % (sep, n)] is r[cs[n]] and r[cs[n]].klass is cs[n], '%s is registered as %s', n, r[cs[n]])
            else: raises(pyamf.UnknownClassAlias, pyamf.get_class_alias, cs[n])
    finally:
        pyamf.CLASS_CACHE.clear(); pyamf.CLASS_CACHE.update(before)
