"""Class configurations and objects, described for one or two attribute names at a time: every collection of attribute names holds those names
or not, and any number of others (pyvc/names.py)."""
from .gw import *
from pyvc import names as N
CA = 'pyamf.alias.ClassAlias'
by_name = lambda ex, x, y: isinstance(x, Opaque) and isinstance(y, Opaque) and x.name == y.name
def key(t): return R.key(t)

def tracked(ex, *labels):
    ex.ghost['names'] = [R.sym_str(ex, 'name ' + l) for l in labels]
    for t in ex.ghost['names']: ex.assume(as_int(R.length(ex, t)) > 0)
    return ex.ghost['names']

def tracked_names(ex): return list(ex.ghost['names'])
KINDS = ('plain', 'slot', 'get', 'set', 'getset', 'member')
class Config(object):
    """what a class (or a class it derives from) says of the tracked names, and of others"""
    def __init__(self, ex, label, names, others, kinds=KINDS, say=None, syn=True, ext=()):
        self.ex = ex; self.label = label; self.names = names; self.others = others
        say = say or {}
        pick = lambda what, n: say[what] if what in say else ex.choice(n)
        self.kind = {}; self.static = {}; self.exclude = {}; self.proxy = {}; self.readonly = {}; self.syn = {}
        for t in names:
            k = key(t)
            self.kind[k] = kinds[pick('kind', len(kinds))]; self.static[k] = bool(pick('static', 2)); self.exclude[k] = bool(pick('exclude', 2))
            self.proxy[k] = bool(pick('proxy', 2)); self.readonly[k] = bool(pick('readonly', 2))
            if syn:
                to = [None, N.other(ex, 'external')] + [x for x in list(names) + list(ext) if x is not t]
                self.syn[k] = to[pick('synonym', len(to))]
            else: self.syn[k] = None
        if 'modes' in say: self.dynamic, self.sealed = say['modes'][ex.choice(len(say['modes']))]
        else:
            self.dynamic = (None, True, False)[pick('dynamic', 3)]
            self.sealed = bool(pick('sealed', 2))
    def seq(self, have, what):
        """a collection of names, as a program writes it"""
        ts = [t for t in self.names if have[key(t)]]; o = self.others in ('all', what)
        if not ts and not o: return None
        if o:
            return self.ex.heap.new(HList([N.Rest(self.ex)] + ts + ([N.Rest(self.ex)] if ts else [])))
        return tuple(ts)
    def klass(self, extra=None, mro=None):
        ex = self.ex; tab = {}
        for t in self.names:
            k = self.kind[key(t)]
            if k in ('get', 'set', 'getset'):
                p = Opaque('property ' + self.label, (), {'isinstance': lambda ex2, v, c: c == ex2.world.T['property'], 'truth': lambda *a: True, 'getattr': lambda ex2, o, a, k=k: {'fget': Opaque('getter', (), {'truth': lambda *a: True}) if 'get' in k else None, 'fset': Opaque('setter', (), {'truth': lambda *a: True}) if 'set' in k.replace('get', '') else None}[a]})
                tab[key(t)] = p
            elif k == 'member': tab[key(t)] = Opaque('member', (), {'isinstance': lambda *a: False})
        def another(ex2, nm):
            h = ex2.choice(3)
            if h == 0: return Opaque('member', (), {'isinstance': lambda *a: False})
            return Opaque('property of another', (), {'isinstance': lambda ex3, v, c: c == ex3.world.T['property'], 'getattr': lambda ex3, o, a: Opaque(a, (), {'truth': lambda *a: True}) if a == 'fget' or h == 1 else None})
        d = ex.heap.new(HDict(base=N.Table(ex, tab, ex.int('members', lo=0).t if self.others == 'all' else 0, another)))
        slots = self.seq({k: v == 'slot' for k, v in self.kind.items()}, 'slot')
        def get(ex2, o, a):
            if a == '__dict__': return d
            if a == '__slots__' and slots is not None: return slots
            if extra and a in extra: return extra[a]
            I.attr_error(ex2, o, a)
        self.k = Opaque('class ' + self.label, (), {'isinstance': lambda ex2, v, c: c in (ex2.world.T['type'], ex2.world.T['object']), 'getattr': get, 'is': by_name, 'truth': lambda *a: True, 'callable': True,
                        'issubclass': lambda ex2, v, c: self.is_dict if c == ex2.world.T['dict'] else True if c == ex2.world.T['object'] else ex2.choice(2),
                        'mro': lambda ex2: mro(ex2) if mro else (self.k, ex2.world.T['object'])})
        return self.k
    is_dict = False
    def settings(self):
        ex = self.ex; out = {}
        for a in ('static', 'exclude', 'readonly', 'proxy'): out[a + '_attrs'] = self.seq(getattr(self, a), a)
        syn = {k: v for k, v in self.syn.items() if v is not None}
        out['synonym_attrs'] = None
        if syn or self.others == 'all':
            n = ex.int('renamed', lo=0).t if self.others == 'all' else 0
            out['synonym_attrs'] = ex.heap.new(HDict(base=N.Table(ex, syn, n, lambda ex2, nm: N.other(ex2, 'external'))))
        out['dynamic'] = self.dynamic
        return out
    # what it means
    def excluded(self, k): return self.exclude[k]
    def proxied(self, k): return self.proxy[k]
    def enc(self, k): return (self.static[k] or self.kind[k] in ('slot', 'get', 'getset')) and not self.exclude[k]
    def dec(self, k): return (self.static[k] or self.kind[k] in ('slot', 'set', 'getset')) and not self.exclude[k] and not self.ro(k)
    def ro(self, k): return self.readonly[k] or self.kind[k] == 'get'
    def is_static(self, k): return self.static[k] and not self.exclude[k]
    def is_dynamic(self): return not self.sealed and self.dynamic is not False

def alias_of(ex, c, mro=None, **more):
    """the ClassAlias of the class"""
    k = c.klass(mro=mro and (lambda ex2: (c.k,) + tuple(mro) + (ex2.world.T['object'],)))
    scope(ex, **{'pyamf.util.is_class_sealed': lambda ex2, f, a, kw: c.sealed, CA + '.checkClass': lambda *a: None})
    s = c.settings(); s.update(more)
    al = call(ex, CA, k, None, defer=True, **s)
    return al

FIELDS = ('static_attrs', 'exclude_attrs', 'readonly_attrs', 'proxy_attrs', 'encodable_properties', 'decodable_properties')
class Compiled(object):
    """the state of a ClassAlias after compile(), as the lemmas of C09.compile_* establish it, for the tracked names: static (and not excluded),
    excluded, encodable, decodable, readonly, proxied, and the synonym of each; any number of others in each collection"""
    def __init__(self, ex, names, is_dict=False, use=('enc', 'dec', 'proxy', 'syn'), parts=None, mode=None):
        self.ex = ex; self.names = names; self.is_dict = is_dict; self.use = use
        self.st = {}; self.exc = {}; self.e = {}; self.d = {}; self.r = {}; self.p = {}; self.syn = {}; self.n = {}
        pick = lambda w, n: ex.choice(n) if w in use else 0
        for t in names:
            k = key(t)
            if parts is not None: self.exc[k], self.st[k], self.e[k], self.d[k], self.r[k] = parts[k]; self.p[k] = bool(pick('proxy', 2)); self.syn[k] = None; continue
            h = (ex.choice(4) if 'enc' in use or 'dec' in use else 3)          # excluded, static, encodable, none of these
            self.exc[k] = h == 0; self.st[k] = h == 1; self.e[k] = h in (1, 2)
            j = pick('dec', 3)          # decodable, readonly, neither
            if h == 1 and j == 2 or h == 0 and j == 0: raise Stop()
            self.d[k] = j == 0 and h != 0 and 'dec' in use; self.r[k] = j == 1
            self.p[k] = bool(pick('proxy', 2))
            self.syn[k] = None
        self.mode = mode if mode is not None else ex.choice(3) if 'enc' in use or 'dec' in use else 0      # dynamic; not dynamic; of a sealed class
        if is_dict and self.mode == 2: raise Stop()
        self.sealed = self.mode == 2; self.dynamic = self.mode == 0
        self.al = None
    c = None
    def some(self, have, what):
        """a sorted list of names"""
        ts = [t for t in self.names if have[key(t)]]
        if self.alone: return self.ex.heap.new(HList(ts)) if ts else None
        if not ts and (self.ex.choice(2) if self.full is None else not self.full): return None
        n = self.ex.int('other ' + what, lo=0 if ts else 1).t; self.n[what] = n
        return self.ex.heap.new(HList(N.spread(self.ex, ts, n)))
    alone = False; full = None
    def alias(self, shortcuts=True, **over):
        """-> the ClassAlias"""
        ex = self.ex; k = Opaque('class', (), {'isinstance': lambda ex2, v, c: c in (ex2.world.T['type'], ex2.world.T['object']), 'is': by_name, 'truth': lambda *a: True, 'callable': True}); self.k = k
        scope(ex, **{CA + '.checkClass': lambda *a: None})
        al = self.al = call(ex, CA, k, None, defer=True)
        short = {w: bool(ex.choice(2)) for w in ('encode', 'decode') if w[:3] in self.use and shortcuts}
        none = lambda *ds: not any(v for d in ds for v in d.values())
        if short.get('encode') and not none(self.e, self.st, self.exc, self.p, self.syn): raise Stop()
        if short.get('decode') and not (none(self.d, self.st, self.exc, self.r, self.p, self.syn) and self.dynamic): raise Stop()
        self.alone = any(short.values()); self.short = short
        f = {'static_attrs': self.some(self.st, 'static'), 'exclude_attrs': self.some(self.exc, 'excluded'), 'dynamic': self.dynamic, 'sealed': self.sealed, 'is_dict': self.is_dict, '_compiled': True, 'external': False, 'amf3': False}
        if f['static_attrs'] is None: f['static_attrs'] = I.new_list(ex, [])
        f['static_attrs_set'] = self.set_of(f['static_attrs'])
        enc = f['encodable_properties'] = self.some(self.e, 'encodable') if 'enc' in self.use else self.idle('encodable')
        ns = None
        if enc is not None and 'enc' in self.use:
            ns = self.set_of(enc); ns_b = ex.heap.get(ns.a).base
            for t in self.names:
                if self.st[key(t)]: ns_b.t[key(t)] = False
            ns_b.less(ex)
        f['non_static_encodable_properties'] = ns
        f['decodable_properties'] = self.some(self.d, 'decodable') if 'dec' in self.use else self.idle('decodable')
        f['readonly_attrs'] = self.some(self.r, 'readonly') if 'dec' in self.use else self.idle('readonly')
        f['proxy_attrs'] = self.some(self.p, 'proxy') if 'proxy' in self.use else self.idle('proxies')
        f['synonym_attrs'] = self.synonyms() if 'syn' in self.use else I.new_dict(ex) if self.alone or self.full is not None else Opaque('synonyms')
        for w in ('encode', 'decode'): f['shortcut_' + w] = short.get(w, Opaque('shortcut'))
        f.update(over)
        for a, v in f.items(): reach(a, lambda: I.getattr_(ex, al, a)) if a in ('static_attrs', 'dynamic') else None; I.setattr_(ex, al, a, v)
        return al
    def idle(self, what): return Opaque(what) if self.full is None else self.some({key(t): False for t in self.names}, what)
    def set_of(self, l):
        t, n = N.view(self.ex, l)
        return self.ex.heap.new(HSet(base=N.Names(self.ex, t, n)))
    def synonyms(self):
        ex = self.ex; syn = {k: v for k, v in self.syn.items() if v is not None}
        n = 0 if self.alone else ex.int('other synonyms', lo=0).t
        return ex.heap.new(HDict(base=N.Table(ex, syn, n, lambda ex2, nm: N.other(ex2, 'external'))))

class Obj(object):
    """an object: a value for each tracked name, or none, in its dictionary or elsewhere"""
    def __init__(self, ex, c, names, kind=None, had=None):
        self.ex = ex; self.c = c; self.names = names
        kind = ('plain', 'keyed')[ex.choice(2)] if kind is None and not c.is_dict and not c.sealed else kind
        self.kind = 'dict' if c.is_dict else 'slotted' if c.sealed else kind
        self.listed = {}; self.val = {}
        for t in names:
            k = key(t); v = Opaque('value of ' + k, (), {'is': by_name, 'truth': lambda *a: True})
            if self.kind == 'dict': self.listed[k] = bool(ex.choice(2)) if had is None or len(had) > 1 else had == (0,); self.val[k] = v if self.listed[k] else MISS
            else:
                # among its own attributes; read as an attribute (of its class, perhaps), or not
                hs = [x for x in had or (0, 1, 2) if x or self.kind != 'slotted'] or [1]; h = hs[ex.choice(len(hs))]
                self.listed[k] = h == 0; self.val[k] = MISS if h == 2 else v
        n = ex.int('own', lo=0).t
        self.table = N.Table(ex, {k: self.val[k] for k in self.listed if self.listed[k]}, n)
        d = ex.heap.new(HDict(base=self.table)); self.d = d; self.failed = False
        self.sets = []
        def get(ex2, o, a):
            if a == '__dict__' and self.kind != 'slotted': return d
            if a == 'keys' and self.kind == 'keyed': return Opaque('keys', (), {'call': lambda ex3, f, x, kw: I.call(ex3, I.getattr_(ex3, d, 'keys'), [])})
            I.attr_error(ex2, o, a)
        def get_sym(ex2, o, nm, dflt, probe):
            w = N.which(ex2, nm)
            v = self.val[w] if w is not None else Opaque('value of another') if ex2.choice(2) else MISS
            if v is MISS:
                if dflt is not MISS: return dflt
                if probe: return MISS
                self.failed = w is None; I.attr_error(ex2, o, 'name')
            return v
        def put_sym(ex2, o, nm, v): self.sets.append((N.which(ex2, nm), v))
        self.o = Opaque('object', (), {'getattr': get, 'getattr_sym': get_sym, 'setattr_sym': put_sym, 'is': by_name, 'truth': lambda *a: True, 'class': c.k, 'isinstance': lambda ex2, v, t: c.is_dict and t == ex2.world.T['dict']}) if self.kind != 'dict' else d

def wrapped(what, v): return Opaque('%s %s' % (what, getattr(v, 'name', repr(v))), (), {'is': by_name, 'truth': lambda *a: True})
class Codec(object):
    """an encoder or decoder, or none"""
    def __init__(self, ex, there=None):
        self.ex = ex; self.there = ex.choice(2) if there is None else there
        def wrap(what): return Opaque(what, (), {'call': lambda ex2, f, a, k: wrapped(what, a[0]), 'callable': True})
        ctx = Opaque('context', (), {'getattr': lambda ex2, o, a: wrap({'getProxyForObject': 'proxy of', 'getObjectForProxy': 'unwrapped'}[a]), 'truth': lambda *a: True})
        self.c = Opaque('codec', (), {'getattr': lambda ex2, o, a: ctx if a == 'context' else I.attr_error(ex2, o, a), 'truth': lambda *a: True, 'is': by_name}) if self.there else None
