"""Deductive part: the registries in any state (any entries under any keys, described pointwise: an operation may touch the keys it is about and no other), any class, alias text, loaders in any number with any answers."""
from .gw import *
P = 'pyamf.'
CA = 'pyamf.alias.ClassAlias'
by_name = lambda ex, x, y: isinstance(x, Opaque) and isinstance(y, Opaque) and x.name == y.name

def same_text(ex, a, b):
    """whether two texts are equal: for unknown ones, either"""
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)): return as_bool(R.eq(ex, a, b))
    return z3.Bool('%s equals %s' % tuple(sorted((R.key(a), R.key(b)))))

class Registry(object):
    """a dictionary with any content: each key met is compared with those met before; a new one has an arbitrary entry or none"""
    def __init__(self, ex, name, make): self.name = name; self.make = make; self.keys = []; self.now = []; self.was = []; self.ex = ex
    def at(self, ex, k):
        for i, x in enumerate(self.keys):
            if R.is_text(k) and R.is_text(x) and R.kind_of(k) == R.kind_of(x) and R.key(k) == R.key(x): return i
        for i, x in enumerate(self.keys):
            if R.is_text(k) != R.is_text(x): continue
            if ex.branch(same_text(ex, k, x)) if R.is_text(k) else self.same(k, x): return i
        self.keys.append(k)
        v = self.make(ex, k) if ex.choice(2) else MISS
        self.now.append(v); self.was.append(v); return len(self.keys) - 1
    def put(self, k, v):
        """the content at the start"""
        self.keys.append(k); self.now.append(v); self.was.append(v); return len(self.keys) - 1
    def lookup(self, ex, d, k): return self.now[self.at(ex, k)]
    def set(self, ex, d, k, v): self.now[self.at(ex, k)] = v; return True
    def delete(self, ex, d, k):
        i = self.at(ex, k)
        if self.now[i] is MISS: return False
        self.now[i] = MISS; return True
    def items(self, ex, d): raise OutOfReach('iterating %s' % self.name)
    def clone(self, ex, d): return self          # (only to iterate over what it has now)
    def nonempty(self, ex, d): return z3.Bool(ex.fresh(self.name + ' nonempty'))
    def len(self, ex, d): return ex.int('len ' + self.name, lo=0)
    def get(self, k): return self.now[self.at(self.ex, k)]
    def same(self, a, b): return a is b or isinstance(a, Ref) and a == b or isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name
    def holds(self, k, v, name): self.ex.prove(self.same(self.get(k), v), name, '%r / %r' % (self.get(k), v))
    def unchanged(self, name, but=()):
        """every key but these has what it had (a key met now for the first time too)"""
        skip = [self.at(self.ex, k) for k in but]
        for i, k in enumerate(self.keys):
            if i not in skip: self.ex.prove(self.same(self.now[i], self.was[i]), name, '%r: %r / %r' % (k, self.now[i], self.was[i]))

def install(ex, q, base):
    r = ex.heap.w(G(ex, q).a); r.ent = {}; r.sym = []; r.base = base; return base

def a_class(ex, name, meta=None, style='type'):
    """an arbitrary class, perhaps with a configuration"""
    def get(ex2, o, a):
        if a == '__amf__' and meta is not None: return meta
        if a == '__name__': return b'K'
        I.attr_error(ex2, o, a)
    def inst(ex2, v, c): return c == ex2.world.T[style] or c == ex2.world.T['object']
    return Opaque(name, (), {'isinstance': inst, 'getattr': get, 'is': by_name, 'truth': lambda *a: True, 'callable': True, 'sub': lambda ex2, x, c: ex2.branch(z3.Bool('%s is a kind of %s' % (name, c)))})
class Entry(Opaque): pass      # (with its alias and klass)
def entry(ex, name, alias=None, klass=None, anonymous=None):
    """a registration made by someone: a ClassAlias"""
    n = ex.fresh(name)
    al = R.sym_str(ex, n + ' alias', 'u') if alias is None else alias
    kl = a_class(ex, n + ' class') if klass is None else klass
    if alias is None: ex.assume(as_int(R.length(ex, al)) > 0)      # (an empty alias is refused)
    def get(ex2, o, a):
        if a == 'alias': return al
        if a == 'klass': return kl
        if a == 'anonymous': return SymBool(z3.Bool(n + ' anonymous')) if anonymous is None else anonymous
        I.attr_error(ex2, o, a)
    e = Entry(n, (), {'isinstance': lambda ex2, v, c: c == G(ex2, CA) or c == ex2.world.T['object'], 'getattr': get, 'is': by_name, 'truth': lambda *a: True})
    e.alias = al; e.klass = kl
    return e

class World(object):
    """the class registry in an arbitrary state, with a class, an alias for it, and another of each"""
    def __init__(self, ex, meta=None, alias=None, plain=False):
        self.ex = ex
        self.cache = install(ex, P + 'CLASS_CACHE', Registry(ex, 'CLASS_CACHE', lambda ex2, k: entry(ex2, 'earlier')))
        self.k = a_class(ex, 'K', meta, 'type' if plain else ['type', 'classobj'][ex.choice(2)])
        self.alias = R.sym_str(ex, 'alias', 'u') if alias is None else alias
        self.other = R.sym_str(ex, 'other alias', 'u'); self.ok = a_class(ex, 'another class')
        if R.kind_of(self.alias) == 'u': ex.assume(z3.Not(same_text(ex, self.other, self.alias)))
        if not plain:
            o = [(entry(ex, 'earlier'), MISS), (MISS, entry(ex, 'earlier'))][ex.choice(2)]
            self.cache.put(self.other, o[0]); self.cache.put(self.ok, o[1])
        self.special = G(ex, 'vtypes.Special'); self.kind = None
        def which(ex2, f, a, k):
            ex2.prove(a[0] is self.k, 'kind-of-this-class')
            if self.kind is None: self.kind = ex2.choice(2)
            return self.special if self.kind else None
        self.rejected = None
        def check(ex2, f, a, k):
            ex2.prove(a[1] is self.k, 'checks-this-class')
            if self.rejected is None: self.rejected = ex2.choice(2)
            if self.rejected: ex2.raise_('TypeError', b'constructor')
            return None
        scope(ex, **{'pyamf.util.get_class_alias': which, CA + '.checkClass': check})
    def registered(self, x, name, alias=None):
        """obligation: x is the registration of the class, of the right kind"""
        ex = self.ex
        ex.prove(isinstance(x, Ref) and I.class_of(ex, x) == (self.special if self.kind else G(ex, CA)), name + '-kind', repr(x))
        ex.prove(attr(ex, x, 'klass') is self.k, name + '-class')
        self.cache.holds(self.k, x, name + '-under-the-class')

NAMED = ('amf3', 'dynamic', 'external'); LISTED = ('static', 'exclude', 'readonly', 'proxy', 'synonym')
def config(ex, alias):
    """a configuration with any subset of its settings (all, none, or one of them), as a dictionary or an object"""
    sets = (('alias',) + NAMED + LISTED, (), ('alias',), ('dynamic', 'exclude'))[ex.choice(4)]
    vals = {s: alias if s == 'alias' else Opaque('setting ' + s, (), {'is': by_name, 'truth': lambda *a: True}) for s in sets}
    if ex.choice(2):
        d = ex.heap.new(HDict())
        for s in sets: I.dict_set(ex, d, s.encode(), vals[s])
        return d, vals
    def get(ex2, o, a):
        if a in vals: return vals[a]
        I.attr_error(ex2, o, a)
    return Opaque('configuration', (), {'getattr': get, 'isinstance': lambda *a: False, 'class': Opaque('configuration class', (), {'is': by_name})}), vals

def register(ex):
    """a registered class is under its alias (its own argument before its configuration; bytes are read as utf-8; without one under none) and under the class, the same new entry, which has its configuration; a class that is not one, an empty alias and one whose constructor is refused leave everything as it was; nothing else is touched"""
    own = R.sym_str(ex, 'configured alias', 'u'); has = ex.choice(2)
    meta, vals = config(ex, own) if has else (None, {})
    how = ex.choice(4)
    given = [None, R.sym_str(ex, 'alias', 'u'), R.sym_str(ex, 'alias bytes', 'b'), ''][how]
    want = given if given is not None else vals.get('alias')
    s = World(ex, meta, alias=want if want is not None else R.sym_str(ex, 'no alias', 'u'))
    for x in (given, own):
        if x is not None and x != '': ex.assume(as_int(R.length(ex, x)) > 0)
    bad = ex.choice(4)
    k = [s.k, None, ex.world.T['object'], Opaque('not a class', (), {'isinstance': lambda *a: False, 'is': by_name, 'class': Opaque('its type', (), {'is': by_name})})][bad]
    a = [k] if given is None and ex.choice(2) else [k, given]
    r = result(ex, lambda: call(ex, P + 'register_class', *a))
    if bad: expect(ex, r, 'TypeError', 'not-a-class'); s.cache.unchanged('refused-changes-nothing'); ex.cover('not a class'); return
    if s.rejected: expect(ex, r, 'TypeError', 'constructor'); s.cache.unchanged('refused-changes-nothing'); ex.cover('constructor'); return
    if how == 3: expect(ex, r, 'ValueError', 'empty'); s.cache.unchanged('refused-changes-nothing'); ex.cover('empty'); return
    if r[0] == 'exc' and how == 2: ex.prove(r[1] == 'UnicodeDecodeError', 'bytes-that-are-no-text', repr(r)); s.cache.unchanged('refused-changes-nothing'); return
    expect(ex, r, 'ok', 'registered'); x = r[1]
    s.registered(x, 'registered')
    ex.prove(I.truth(ex, attr(ex, x, 'anonymous')) == (want is None), 'anonymous')
    al = attr(ex, x, 'alias')
    if want is None: s.cache.unchanged('nothing-else', [s.k]); ex.prove(al in ('', b''), 'no-alias'); ex.cover('anonymous')
    else:
        ex.prove(R.kind_of(al) == 'u', 'alias-is-text')
        same_bytes(ex, al if R.kind_of(want) == 'u' else R.utf8(ex, al), want, 'its-alias')
        s.cache.holds(al, x, 'under-the-alias'); s.cache.unchanged('nothing-else', [s.k, al]); ex.cover('named')
    for p in NAMED + LISTED:
        v = attr(ex, x, p if p in NAMED else p + '_attrs')
        if p in vals: ex.prove(isinstance(v, Opaque) and v.name == vals[p].name, 'configured', p)
        elif p == 'synonym': ex.prove(isinstance(v, Ref) and ex.heap.get(v.a).ent == {}, 'not-configured', p)
        else: ex.prove(v is None, 'not-configured', '%s %r' % (p, v))

def unregister(ex):
    """removing by alias or class takes away the entry found, under its alias and its class unless they have been registered again since; an unknown one is an error; nothing else is touched"""
    s = World(ex)
    e = entry(ex, 'registration', s.alias, s.k); o = entry(ex, 'newer', s.alias, a_class(ex, 'newer class')); o2 = entry(ex, 'newer', R.sym_str(ex, 'newer alias', 'u'), s.k)
    there = ex.choice(4)
    s.cache.put(s.alias, [e, o, e, MISS][there]); s.cache.put(s.k, [e, e, o2, MISS][there])
    by = [s.alias, s.k][ex.choice(2)]; x = s.cache.get(by)
    r = result(ex, lambda: call(ex, P + 'unregister_class', by))
    if x is MISS: expect(ex, r, 'UnknownClassAlias', 'unknown'); s.cache.unchanged('refused-changes-nothing'); ex.cover('unknown'); return
    expect(ex, r, 'ok', 'removed'); ex.prove(r[1] is x, 'the-entry')
    gone = [k for k in (x.alias, x.klass) if s.cache.same(s.cache.was[s.cache.at(ex, k)], x)]
    for k in gone: s.cache.holds(k, MISS, 'gone')
    s.cache.holds(by, MISS, 'not-found-any-more'); s.cache.unchanged('nothing-else', gone); ex.cover('removed')

def find(ex):
    """a registered class or alias gives its entry, and no loader or module is asked; a class that is not registered is unknown"""
    s = World(ex); e = entry(ex, 'registration', s.alias, s.k)
    install_set(ex, Loaders(ex, s, lambda ex2: ex2.prove(False, 'no-loader-asked')))
    by = [s.alias, s.k][ex.choice(2)]; there = ex.choice(2)
    if R.is_text(by) and not there: raise Stop()          # (load)
    s.cache.put(by, e if there else MISS)
    load = R.is_text(by) and ex.choice(2)
    r = result(ex, lambda: call(ex, P + ('load_class' if load else 'get_class_alias'), by))
    if there: expect(ex, r, 'ok', 'found'); ex.prove(r[1] is e, 'the-entry'); ex.cover('found')
    else: expect(ex, r, 'UnknownClassAlias', 'unknown'); ex.cover('unknown')
    s.cache.unchanged('only-looks')

class Loaders(object):
    """the class loaders: any number, in any order"""
    def __init__(self, ex, own, answer):
        self.ex = ex; self.own = own; self.n = ex.int('loaders', lo=0).t; self.asked = 0; self.answer = answer
        self.mine = None; self.now = None; self.was = None
    def item(self, ex, k):
        def run(ex2, f, a, kw):
            ex2.prove(as_int(self.asked) == as_int(k), 'each-once-in-turn'); self.asked = tint(as_int(k) + 1)
            ex2.prove(len(a) == 1 and not kw and a[0] is self.own.alias, 'asked-for-the-alias', repr(a))
            return self.answer(ex2)
        return Opaque('loader', (as_int(k),), {'call': run, 'callable': True, 'truth': lambda *a: True})
    def span(self, ex, s): return L.Piece(self.n, self.item, 'loaders', lambda: Asked(self))
    def has(self, ex, s, k): return z3.BoolVal(bool(self.now)) if self.mine is not None and k is self.mine else z3.Bool(ex.fresh('is a loader'))
    def add(self, ex, s, k):
        ex.prove(self.mine is not None and k is self.mine, 'adds-only-this-loader'); self.now = True
    def discard(self, ex, s, k):
        ex.prove(self.mine is not None and k is self.mine, 'removes-only-this-loader'); was = self.now; self.now = False; return was
    def len(self, ex, s): return self.n
    def nonempty(self, ex, s): return self.n > 0
def install_set(ex, base):
    r = ex.heap.w(G(ex, P + 'CLASS_LOADERS').a); r.ent = {}; r.sym = []; r.base = base; return base
class Asked(L.Inv):
    """the loaders before k were asked, once each, and knew nothing; nothing was registered"""
    def __init__(self, own): self.own = own
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k): self.own.asked = tint(as_int(k))
    def check(self, f, k):
        self.ex.prove(as_int(self.own.asked) == as_int(k), 'all-asked'); self.own.own.cache.unchanged('nothing-registered-yet')

def answers(ex, s, st, what):
    """any answer a loader or module can give"""
    def play_(ex2):
        if st.get('a') is None or what == 'loader':
            h = ex2.choice(5 if what == 'loader' else 4)
            st['a'] = [('class', s.k), ('entry', entry(ex2, 'answer')), ('other', Opaque('something else', (), {'isinstance': lambda *a: False, 'is': by_name})), ('error', None), ('none', None)][h]
        kind, v = st['a']
        if kind == 'error': st['e'] = error(ex2, 'loader error'); raise PyRaise(st['e'])
        return v
    return play_
def settled(ex, s, r, kind, v, st):
    """what an answer leads to"""
    if kind == 'error': ex.prove(r[0] == 'exc' and r[2] is st['e'], 'its-error'); s.cache.unchanged('nothing-registered'); ex.cover('error'); return
    if kind == 'other' or s.rejected: expect(ex, r, 'TypeError', 'refused'); s.cache.unchanged('nothing-registered'); ex.cover('refused'); return
    expect(ex, r, 'ok', 'answered')
    if kind == 'class':
        s.registered(r[1], 'answer'); ex.cover('class')
        s.cache.holds(s.alias, r[1], 'under-the-alias'); same_bytes(ex, attr(ex, r[1], 'alias'), s.alias, 'its-alias'); s.cache.unchanged('nothing-else', [s.k, s.alias])
    else:
        ex.prove(r[1] is v, 'the-answer'); s.cache.holds(v.alias, v, 'under-its-alias'); s.cache.holds(v.klass, v, 'under-its-class'); s.cache.unchanged('nothing-else', [v.alias, v.klass]); ex.cover('entry')

def dotted(ex):
    """an alias: a name, perhaps after a module's, perhaps within packages -> alias, module path, name"""
    h = R.sym_str(ex, 'module', 'u'); t = R.sym_str(ex, 'name', 'u')
    for x in (t, h): ex.memo[('without', x.parts[0].atom.fname, '.')] = True
    ex.assume(as_int(R.length(ex, t)) > 0)
    deep = ex.choice(3)
    path = None if deep == 0 else h if deep == 1 else R.concat(ex, R.concat(ex, R.sym_str(ex, 'package', 'u'), '.'), h)
    return t if path is None else R.concat(ex, R.concat(ex, path, '.'), t), path, t

def load(ex):
    """an unknown alias is asked of the loaders in turn; the first that knows it settles it: a class is registered under the alias, an entry under its own alias and class, anything else is refused"""
    s = World(ex, alias=dotted(ex)[0]); s.cache.put(s.alias, MISS); st = {}
    install_set(ex, Loaders(ex, s, answers(ex, s, st, 'loader')))
    def none(ex2, f, a, k): raise Stop()        # no loader knew it: modules()
    scope(ex, **{'pyamf.util.get_module': none})
    fn = P + ('load_class', 'get_class_alias')[ex.choice(2)]
    r = result(ex, lambda: call(ex, fn, s.alias))
    if st.get('a') is None or st['a'][0] == 'none': raise Stop()
    settled(ex, s, r, st['a'][0], st['a'][1], st)

def modules(ex):
    """an alias no loader knows is looked for as the name of a class (or entry) in a module, and registered; else it is unknown, and nothing is registered"""
    alias, path, t = dotted(ex)
    s = World(ex, alias=alias); s.cache.put(s.alias, MISS); st = {}
    install_set(ex, Loaders(ex, s, lambda ex2: None))
    ans = answers(ex, s, st, 'module')
    def attr_of(ex2, o, n, dflt=None, probe=False):
        same_bytes(ex2, n, t, 'asks-the-module-for-the-last-part')
        if st['m'] == 1: ex2.raise_(['AttributeError', 'UnicodeEncodeError'][ex2.choice(2)], b'no such name')
        return ans(ex2)
    mod = Opaque('module', (), {'getattr_sym': attr_of, 'is': by_name, 'truth': lambda *a: True})
    def get(ex2, f, a, k):
        same_bytes(ex2, a[0] if R.is_text(a[0]) else 'not text', path if path is not None else a[0][:0] if a[0] in ('', b'') else '', 'asks-for-the-module-named-before')
        st['m'] = ex2.choice(3)
        if st['m'] == 0: ex2.raise_(['ImportError', 'AttributeError', 'ValueError'][ex2.choice(3)], b'no module')
        return mod
    scope(ex, **{'pyamf.util.get_module': get})
    r = result(ex, lambda: call(ex, P + ('load_class', 'get_class_alias')[ex.choice(2)], alias))
    ex.prove('m' in st, 'a-module-is-asked', repr((alias, path, r)))
    if st['m'] < 2: expect(ex, r, 'UnknownClassAlias', 'unknown'); s.cache.unchanged('nothing-registered'); ex.cover('unknown'); return
    if st['a'][0] == 'error' and is_a(ex, st['e'], tuple(ex.world.T[c] for c in ('ImportError', 'AttributeError', 'ValueError'))): expect(ex, r, 'UnknownClassAlias', 'unknown'); s.cache.unchanged('nothing-registered'); return
    settled(ex, s, r, st['a'][0], st['a'][1], st)

def loaders(ex):
    """a callable becomes a loader, once; anything else is refused; a loader that is removed is none any more, and removing what is none is an error"""
    s = World(ex); b = install_set(ex, Loaders(ex, s, None))
    bad = ex.choice(2); rm = ex.choice(2)
    l = Opaque('loader', (), {'callable': not bad, 'is': by_name, 'truth': lambda *a: True, 'call': None if bad else lambda *a: None, 'getattr': lambda ex2, o, a: I.attr_error(ex2, o, a) if bad or a != '__call__' else Opaque('call')})
    b.mine = l; b.now = b.was = bool(ex.choice(2))
    r = result(ex, lambda: call(ex, P + ('unregister_class_loader' if rm else 'register_class_loader'), l))
    if rm and not b.was: expect(ex, r, 'LookupError', 'not-a-loader'); ex.prove(b.now is False, 'unchanged'); ex.cover('not one')
    elif rm: expect(ex, r, 'ok', 'removed'); ex.prove(b.now is False, 'removed'); ex.cover('removed')
    elif bad: expect(ex, r, 'TypeError', 'not-callable'); ex.prove(b.now is b.was, 'unchanged'); ex.cover('refused')
    else: expect(ex, r, 'ok', 'added'); ex.prove(b.now is True, 'added'); ex.cover('added')

# ---- kinds of alias
class First(L.Inv):
    """nothing before k settled it"""
    def __init__(self, own, n, hit): self.n = n; self.hit = hit; self.own = own
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k):
        i = z3.Int('i'); self.ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < as_int(k)), z3.Not(self.hit(i))))) if self.own.forall else None
    def check(self, f, k):
        if self.own.forall and not (isinstance(k, int) and k == 0): self.ex.prove(z3.Not(self.hit(as_int(k) - 1)), 'only-those-that-do-not-apply-are-passed')

def alias_type(ex):
    """the kind of alias of a class is one registered for a class it derives from, or for a predicate that is true of it; without one it has none"""
    class S: forall = True
    s = S(); I_ = z3.IntSort(); B = z3.BoolSort()
    sub = z3.Function('derives from', I_, I_, B); pred = z3.Function('is a predicate', I_, I_, B); says = z3.Function('says true', I_, I_, B); isfn = z3.Function('can be called', I_, I_, B)
    fits = lambda k, i: z3.If(pred(k, i), z3.And(isfn(k, i), says(k, i)), sub(k, i))
    size = z3.Function('number of classes', I_, I_)
    i = z3.Int('i'); hit = lambda k: z3.Exists([i], z3.And(i >= 0, i < size(k), fits(k, i)))
    K = Opaque('K', (), {'is': by_name})
    def issub(ex2, v, c):
        k, j = [as_int(x) for x in c.idx]
        if ex2.branch(pred(k, j)): ex2.raise_('TypeError', b'not a class')
        return SymBool(sub(k, j))
    K = Opaque('K', (), {'is': by_name, 'issubclass': issub})
    def member(k):
        def m(ex2, j):
            j = as_int(j); c = ex2.branch(isfn(k, j))
            def run(ex3, f, a, kw): ex3.prove(len(a) == 1 and a[0] is K, 'asked-about-the-class'); return True if ex3.branch(says(k, j)) else Opaque('anything but true', (), {'is': lambda *a: False})
            return Opaque('member', (k, j), {'callable': c, 'call': run, 'getattr': lambda ex3, o, a: Opaque('call') if a == '__call__' and c else I.attr_error(ex3, o, a)})
        return m
    def item(ex2, k):
        k = as_int(k); ex2.assume(size(k) >= 0)
        return (Opaque('kind', (k,), {'is': by_name, 'truth': lambda *a: True}), (L.Piece(size(k), member(k), 'members', lambda: First(s, size(k), lambda j: fits(k, j))),))
    n = ex.int('kinds', lo=0).t
    class Kinds(AbsDict):
        def items(self, ex2, d): return [L.Piece(n, item, 'kinds', lambda: First(s, n, hit))]
    install(ex, P + 'ALIAS_TYPES', Kinds('ALIAS_TYPES', None))
    r = result(ex, lambda: call(ex, P + 'util.get_class_alias', K)); expect(ex, r, 'ok', 'answers')
    if r[1] is None: ex.prove(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(hit(i)))), 'none-only-when-none-applies'); ex.cover('none')
    else:
        ex.prove(isinstance(r[1], Opaque) and r[1].name == 'kind', 'a-kind'); k = as_int(r[1].idx[0]); ex.prove(z3.And(k >= 0, k < n, hit(k)), 'one-that-applies'); ex.cover('some')

class Rest(L.Inv):
    """the other registrations may be replaced; the own ones are as they are"""
    def __init__(self, own): self.own = own
    def enter(self, f): self.ex = f.ex; self.before = list(self.own.state())
    def check(self, f, k):
        for a, b in zip(self.own.state(), self.before): self.ex.prove(self.own.cache.same(a, b), 'own-registrations-untouched', '%r / %r' % (a, b))

def kinds_before(ex, s, c, taken):
    """kinds registered before: any, one of them perhaps with this very class"""
    st = {'now': MISS}; hit = z3.Function('is this one', z3.IntSort(), z3.BoolSort())
    class S: forall = False
    def members(ex2, *ix): return L.Piece(ex2.int('m', lo=0).t, lambda ex3, j: Opaque('other class', ix + (as_int(j),), {'is': by_name}), 'members', lambda: First(S(), 0, hit))
    def item(ex2, k): return (Opaque('kind', (as_int(k),)), (members(ex2, as_int(k)),))
    class Kinds(AbsDict):
        def items(self, ex2, d): p = L.Piece(ex2.int('kinds', lo=0).t, item, 'kinds', lambda: First(S(), 0, hit)); return [p] + ([(Opaque('kind of it'), (members(ex2), c, members(ex2))), p] if taken else [])
        def set(self, ex2, d, k, v): ex2.prove(k == s.special and st['now'] is MISS, 'registers-this-kind-once'); st['now'] = v; return True
    install(ex, P + 'ALIAS_TYPES', Kinds('ALIAS_TYPES', None))
    return st
def callable_class(ex, name):
    c = a_class(ex, name)
    return Opaque(name, (), dict(c.props, getattr=lambda ex2, o, a: Opaque('call') if a == '__call__' else I.attr_error(ex2, o, a)))

def kind_for(ex):
    """a new kind of alias for classes or a predicate not taken is registered for them; one that is no kind of alias, has no classes, something else among them or one that is taken is refused, and nothing changes"""
    s = World(ex); sp = s.special; s.cache.items = lambda ex2, d: []
    c = callable_class(ex, 'base'); c2 = callable_class(ex, 'base2'); taken = ex.choice(2); st = kinds_before(ex, s, c, taken)
    p = Opaque('predicate', (), {'callable': True, 'is': by_name, 'call': lambda *a: True, 'isinstance': lambda *a: False, 'getattr': lambda ex2, o, a: Opaque('call') if a == '__call__' else I.attr_error(ex2, o, a)}); no = Opaque('no class', (), {'is': by_name, 'callable': False, 'isinstance': lambda *a: False, 'getattr': I.attr_error})
    what = ex.choice(8); kind, args = [(sp, (c,)), (sp, (c2, c)), (sp, (p,)), (sp, ()), (sp, (c, no)), (no, (c,)), (G(ex, 'vtypes.Thing'), (c,)), (sp, (no,))][what]
    r = result(ex, lambda: call(ex, P + 'register_alias_type', kind, *args))
    bad = ('ValueError',) if what in (3, 6) else ('TypeError',) if what in (5, 7) else ('RuntimeError',) if taken and what in (0, 1) else ('TypeError', 'RuntimeError') if what == 4 else None
    if bad: ex.prove(r[0] == 'exc' and r[1] in bad, 'refused', repr(r)); ex.prove(st['now'] is MISS, 'not-registered'); s.cache.unchanged('registrations-unchanged'); ex.cover('refused'); return
    expect(ex, r, 'ok', 'registered'); v = st['now']; ex.prove(isinstance(v, tuple) and len(v) == len(args) and all(x is y for x, y in zip(v, args)), 'with-its-classes', repr(v)); ex.cover('accepted')

def new_kind(ex):
    """registering a kind of alias replaces the registration of a class it is for by one of that kind, under its class and under the same alias (unless that was registered again since), and leaves those of other classes, and newer ones, as they are; any number of other registrations, in any order"""
    s = World(ex, plain=True); sp = s.special; ex.assume(as_int(R.length(ex, s.alias)) > 0)
    how = ex.choice(3); anon = how == 0; newer = how == 1
    e = entry(ex, 'registration', b'' if anon else s.alias, s.k, anon); o = entry(ex, 'newer', s.alias, s.ok, False)
    if not anon: s.cache.put(s.alias, o if newer else e)
    s.cache.put(s.k, e)
    s.state = lambda: [s.cache.get(s.k)] + ([] if anon else [s.cache.get(s.alias)])
    def others():
        def item(ex2, k):
            key = R.sym_str(ex2, 'key', 'u') if ex2.choice(2) else a_class(ex2, ex2.fresh('class key'))
            if R.is_text(key): ex2.assume(z3.Not(same_text(ex2, key, s.alias))); ex2.assume(z3.Not(as_bool(R.eq(ex2, key, s.other))))
            # of another class (its alias may have been registered again, as the one here), or an older registration of this class
            v = entry(ex2, 'registration of another', *[(), (s.alias, None), (None, s.k)][ex2.choice(3)]); s.cache.put(key, v if ex2.choice(2) else entry(ex2, 'replaced'))
            return (key, v)
        return L.Piece(ex.int('others', lo=0).t, item, 'others', lambda: Rest(s))
    own = [(s.k, e)] + ([] if anon else [(s.alias, o if newer else e)])
    if not anon and ex.choice(2): own.reverse()
    before = others(); items = [before]
    for x in own: items += [x, others()]
    s.cache.items = lambda ex2, d: items
    applies = ex.choice(2)
    def which(ex2, f, a, k): return (sp if applies else None) if by_name(ex2, a[0], s.k) else None if by_name(ex2, a[0], s.ok) else (sp, None)[ex2.choice(2)]
    def compiles(ex2, f, a, k): I.setattr_(ex2, a[0], '_compiled', True); return None
    scope(ex, **{'pyamf.util.get_class_alias': which, CA + '.compile': compiles, CA + '.checkClass': lambda *a: None})
    c = callable_class(ex, 'base'); st = kinds_before(ex, s, c, 0)
    r = result(ex, lambda: call(ex, P + 'register_alias_type', sp, c))
    expect(ex, r, 'ok', 'registered')
    x = s.cache.get(s.k)
    if not applies: ex.prove(s.cache.same(x, e), 'other-classes-kept'); ex.cover('does not apply')
    else:
        ex.prove(isinstance(x, Ref) and I.class_of(ex, x) == sp and attr(ex, x, 'klass') is s.k and attr(ex, x, 'anonymous') is anon, 'of-the-new-kind', repr(x)); ex.cover('applies')
        if not anon: same_bytes(ex, attr(ex, x, 'alias'), s.alias, 'same-alias')
    if newer: s.cache.holds(s.alias, o, 'newer-registration-kept')
    elif not anon: s.cache.holds(s.alias, x, 'same-under-its-alias')

def forget_kind(ex):
    """removing a kind of alias removes it alone"""
    st = {}
    b = install(ex, P + 'ALIAS_TYPES', Registry(ex, 'ALIAS_TYPES', lambda ex2, k: Opaque(ex2.fresh('classes'), (), {'is': by_name})))
    k = G(ex, 'vtypes.Special'); had = b.get(k); b.get(G(ex, CA))
    r = result(ex, lambda: call(ex, P + 'unregister_alias_type', k)); expect(ex, r, 'ok', 'removed')
    ex.prove(r[1] is (None if had is MISS else had), 'its-classes'); b.holds(k, MISS, 'gone'); b.unchanged('nothing-else', [k])

# ---- custom types
class Types(Registry):
    """the registered types, in some order"""
    def same(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return Registry.same(self, a, b)
    def items(self, ex, d):
        def piece():
            def item(ex2, k): return (Opaque('another type', (as_int(k),), {'eq': lambda *a: False, 'is': by_name}), Opaque('its function', (as_int(k),)))
            return L.Piece(ex.int('types', lo=0).t, item, 'types', lambda: Pass())
        out = [piece()]
        for k, v in zip(self.keys, self.now):
            if v is not MISS: out += [(k, v), piece()]
        return out
class Pass(L.Inv): pass

def kind_of_type(ex, name):
    """a class, a callable, or neither"""
    h = ex.choice(3)
    return Opaque(name, (), {'isinstance': lambda ex2, v, c: h == 0 and c in (ex2.world.T['type'], ex2.world.T['object']), 'callable': h < 2, 'is': by_name, 'eq': lambda ex2, x, y: by_name(ex2, x, y), 'truth': lambda *a: True,
                             'getattr': lambda ex2, o, a: Opaque('call') if h < 2 and a == '__call__' else I.attr_error(ex2, o, a)}), h < 2

def types_(ex):
    """a type not registered (a class or callable, or a tuple or list of them) is registered with its function; one that is, or is no type, is refused and nothing changes; asking gives its function or an error; removing removes it alone"""
    b = install(ex, P + 'TYPE_MAP', Types(ex, 'TYPE_MAP', lambda ex2, k: Opaque(ex2.fresh('function'))))
    t, good = kind_of_type(ex, 'T'); shape = ex.choice(4)
    if shape: t2, g2 = kind_of_type(ex, 'T2'); good = good and (g2 or shape == 1)
    key = [t, (t,), (t, t2) if shape else 0, (t, t2) if shape else 0][shape]; arg = I.new_list(ex, list(key)) if shape == 3 else key
    there = ex.choice(2); old = Opaque('old function')
    b.put(key, old if there else MISS); b.put(Opaque('another', (), {'eq': lambda *a: False, 'is': by_name}), Opaque('its function')) if ex.choice(2) else None
    op = ex.choice(3); f = Opaque('function') if ex.choice(2) else None
    if op == 0:
        r = result(ex, lambda: call(ex, P + 'add_type', arg, *([f] if f is not None else [])))
        if there: expect(ex, r, 'KeyError', 'taken'); b.unchanged('refused-changes-nothing'); ex.cover('taken')
        elif not good: expect(ex, r, 'TypeError', 'invalid'); b.unchanged('refused-changes-nothing'); ex.cover('invalid')
        else: expect(ex, r, 'ok', 'added'); ex.prove(b.get(key) is f, 'with-its-function'); b.unchanged('nothing-else', [key]); ex.cover('added')
        return
    r = result(ex, lambda: call(ex, P + ('get_type', 'remove_type')[op - 1], arg))
    if not there: expect(ex, r, 'KeyError', 'unknown'); b.unchanged('unchanged'); ex.cover('unknown'); return
    expect(ex, r, 'ok', 'known'); ex.prove(r[1] is old, 'its-function')
    if op == 1: b.unchanged('only-looks'); ex.cover('found')
    else: b.holds(key, MISS, 'gone'); b.unchanged('nothing-else', [key]); ex.cover('removed')

# ---- error classes
class Others(L.Piece):
    """codes and classes of others"""
    def __init__(self, ex, i):
        L.Piece.__init__(self, z3.Int('codes %d' % i), lambda ex2, k: (R.sym_str(ex2, 'code of another', 'b', ix=(i, as_int(k))), Opaque('another error', (i, as_int(k)), {'eq': lambda *a: False, 'is': by_name})), 'codes'); ex.assume(self.n >= 0)
    def where(self, ex, x): return None
    def keys(self): return self.part(0)
    def values(self): return self.part(1)
    def part(self, j):
        p = L.Piece(self.n, lambda ex, k: self._item(ex, k)[j], 'codes'); p.where = self.where
        return p
class Errors(Registry):
    """the error classes: codes and classes in some order"""
    def items(self, ex, d):
        out = [Others(ex, 0)]
        for i, (k, v) in enumerate(zip(self.keys, self.now)):
            if v is not MISS: out += [(k, v), Others(ex, i + 1)]
        return out

def errors(ex):
    """an exception class gets a code that is not taken; another class, or a taken code, is refused and nothing changes; removing by code or class removes one registration of it alone, or is an error"""
    b = install(ex, P + 'ERROR_CLASS_MAP', Errors(ex, 'ERROR_CLASS_MAP', None))
    code = R.sym_str(ex, 'code', ('b', 'u')[ex.choice(2)]); E = G(ex, 'vtypes.Error'); there = ex.choice(2)
    b.put(code, E if there else MISS); ex.cover('there' if there else 'new')
    op = ex.choice(3)
    if op == 0:
        k = [E, ex.world.T['KeyError'], G(ex, 'vtypes.Thing'), G(ex, 'vtypes.Old'), None, 5][ex.choice(6)]
        bad = not isinstance(k, Ref) or ex.heap.get(k.a).name in ('Thing', 'Old')
        r = result(ex, lambda: call(ex, P + 'add_error_class', k, code))
        if bad: expect(ex, r, 'TypeError', 'no-exception-class'); b.unchanged('refused-changes-nothing'); ex.cover('refused')
        elif there: expect(ex, r, 'ValueError', 'taken'); b.unchanged('refused-changes-nothing'); ex.cover('taken')
        else: expect(ex, r, 'ok', 'added'); b.holds(code, k, 'under-its-code'); b.unchanged('nothing-else', [code]); ex.cover('added')
        return
    r = result(ex, lambda: call(ex, P + 'remove_error_class', [code, E, None][op - 1] if op < 3 else None))
    if not there: expect(ex, r, 'ValueError', 'unknown'); b.unchanged('unchanged'); ex.cover('unknown')
    else: expect(ex, r, 'ok', 'removed'); b.holds(code, MISS, 'gone'); b.unchanged('nothing-else', [code]); ex.cover('removed')

def lemmas(world, tier):
    CON = {q: in_scope(q) for q in ('pyamf.util.get_class_alias', 'pyamf.util.get_module', CA + '.checkClass', CA + '.compile')}
    L_ = lambda n, f, **k: Lemma('C11.' + n, f, contracts=k.pop('contracts', CON), **k)
    return [L_('register', register, max_paths=12000, cover=('not a class', 'constructor', 'empty', 'anonymous', 'named')), L_('unregister', unregister, cover=('removed', 'unknown')), L_('find', find, cover=('found', 'unknown')),
            L_('load', load, cover=('class', 'entry', 'refused', 'error')), L_('modules', modules, cover=('class', 'entry', 'refused', 'error', 'unknown')), L_('loaders', loaders, cover=('added', 'removed', 'refused', 'not one')),
            L_('alias_type', alias_type, contracts={}, cover=('none', 'some')), L_('kind_for', kind_for, cover=('refused', 'accepted')), L_('new_kind', new_kind, max_paths=12000, cover=('applies', 'does not apply')), L_('forget_kind', forget_kind),
            L_('types', types_, cover=('taken', 'invalid', 'added', 'unknown', 'found', 'removed')), L_('errors', errors, cover=('there', 'new', 'refused', 'taken', 'added', 'unknown', 'removed'))]
CALLEE[CA + '.checkClass'] = 'assumed: passes or refuses the class; the constructors it refuses are bounded (jy)'
CALLEE[CA + '.compile'] = 'C09/C10; registers unknown base classes, replaces no registration'
CALLEE['pyamf.util.get_class_alias'] = 'discharged by C11.alias_type'
CALLEE['pyamf.util.get_module'] = 'assumed: a module, or ImportError, AttributeError or ValueError (the import system)'
