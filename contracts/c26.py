"""Deductive part: registering, finding and running import hooks in any state of the finder: any number of hooks for any modules,
any modules being imported, any import and any hook returning or raising."""
from .gw import *
IM = 'pyamf.util.imports.'
F = IM + 'ModuleFinder'

class Pending(AbsDict):
    """the hooks of every module name: none, or a list of any number of them"""
    def __init__(self, own): AbsDict.__init__(self, 'pending', own.pending); self.own = own
    def delete(self, ex, d, k):
        v = self.lookup(ex, d, k)
        if v is MISS: return False
        ex.memo[('absdict', self.name, keyname(ex, k))] = MISS; return True
    def clone(self, ex, d): raise OutOfReach('copying the pending hooks')

class Run(L.Inv):
    """hooks lo..lo+k were called, once each and in order, with the module"""
    def __init__(self, own, which, lo): self.own = own; self.which = which; self.lo = lo
    def enter(self, f): self.ex = f.ex; self.n0 = len(self.own.log)
    def havoc(self, f, k): self.own.log[self.n0:] = [(self.which, self.lo, tint(as_int(self.lo) + as_int(k)))]
    def check(self, f, k):
        ex = self.ex; at = as_int(self.lo)
        for w, lo, hi in self.own.log[self.n0:]:
            ex.prove(w == self.which and as_bool(as_int(lo) == at), 'each-hook-once-in-order', '%s %s' % (w, lo)); at = as_int(hi)
        ex.prove(at == as_int(self.lo) + as_int(k), 'each-hook-once-in-order', 'up to %s' % at)

class Finder(object):
    """a finder in an arbitrary state"""
    def __init__(self, ex):
        self.ex = ex; self.log = []; self.mod = Opaque('module', (), {'truth': lambda *a: True, 'is': lambda ex2, x, y: isinstance(y, Opaque) and x.name == y.name})
        self.f = call(ex, F)
        self.name = R.sym_str(ex, 'module name'); self.other = R.sym_str(ex, 'other name')
        ex.assume(z3.Not(as_bool(R.eq(ex, self.name, self.other))))
        self.stop = None; self.lists = {}
        self.d = attr(ex, self.f, 'post_load_hooks'); reach('post_load_hooks', lambda: setattr(ex.heap.w(self.d.a), 'base', Pending(self)))
        self.now = ex.int('being imported', lo=0).t
        p = L.Piece(self.now, lambda ex2, k: R.sym_str(ex2, 'imported', 'b', ix=(as_int(k),)), 'being imported')
        self.in_progress = False
        def where(ex2, x): return ex2.int('place', lo=0).t if R.key(x) == R.key(self.name) and self.in_progress else None
        p.where = where; self.others = p
        l = attr(ex, self.f, 'loaded_modules'); self.l = l
        ex.heap.w(l.a).items[:] = [p]
        sysm = attr(ex, G(ex, IM[:-1]), 'sys'); m = attr(ex, sysm, 'modules'); r = ex.heap.w(m.a); r.ent = {}; r.sym = []; r.base = AbsDict('sys.modules', lambda ex2, k: self.mod if R.key(k) == R.key(self.name) else Opaque('another module'))
        self.sysm = m
    def pending(self, ex, k):
        which = 'own' if R.key(k) == R.key(self.name) else 'other'
        l = ex.heap.new(HList([self.hooks(which + ' pending')])); self.lists[which] = l
        return l
    def has(self, k):
        v = Pending(self).lookup(self.ex, self.d, k); return None if v is MISS else v
    def hooks(self, which, lo=0, n=None):
        n = self.count(which) if n is None else n
        return L.Piece(n, lambda ex, k: self.hook(which, tint(as_int(lo) + as_int(k))), which, lambda: Run(self, which, lo))
    def count(self, which):
        n = z3.Int('%s hooks' % which); self.ex.assume(n >= 0); return n
    def hook(self, which, j):
        def run(ex, f, a, k):
            ex.prove(len(a) == 1 and a[0] is self.mod and not k, 'called-with-the-module', repr(a))
            self.log.append((which, j, tint(as_int(j) + 1)))
            if self.during is not None: self.during(ex)
            if ex.choice(2): self.stop = error(ex, 'hook error'); raise PyRaise(self.stop)
            return Opaque('ignored')
        return Opaque('%s hook' % which, (as_int(j),), {'call': run, 'truth': lambda *a: True, 'callable': True})
    during = None
    def ran(self, want, name):
        """obligation: these stretches of hooks ran, in order"""
        ex = self.ex
        log = [x for x in self.log if not ex.valid(as_int(x[1]) == as_int(x[2]))]; want = [x for x in want if not ex.valid(as_int(x[2]) == 0)]
        i = 0
        for w, lo, hi in want:
            at = as_int(lo)
            while i < len(log) and log[i][0] == w and ex.valid(as_int(log[i][1]) == at): at = as_int(log[i][2]); i += 1
            ex.prove(at == as_int(hi), name, '%s up to %s' % (w, at))
        ex.prove(i == len(log), name, 'more: %r' % (log[i:],))
    def is_hooks(self, l, want, name):
        ex = self.ex
        its = [x for x in ex.heap.get(l.a).items if not ex.valid(as_int(x.count(ex)) == 0)]
        want = [w for w in want if not ex.valid(self.count(w) == 0)]
        ex.prove(len(its) == len(want) and all(I.is_piece(x) and x.name == w and ex.valid(as_int(x.n) == self.count(w)) for x, w in zip(its, want)), name, repr(its))
    def progress(self, want, name):
        its = self.ex.heap.get(self.l.a).items
        if self.ex.valid(self.now == 0): its = [x for x in its if not I.is_piece(x)]
        else:
            self.ex.prove(len(its) > 0 and I.is_piece(its[0]) and its[0].name == self.others.name and self.ex.valid(as_int(its[0].n) == self.now), name, repr(its)); its = its[1:]
        self.ex.prove(len(its) == len(want) and all(R.is_text(a) and R.key(a) == R.key(b) for a, b in zip(its, want)), name, repr(its))
    def others_kept(self, had, name):
        v = self.has(self.other)
        if had is None: self.ex.prove(v is None, name)
        else: self.ex.prove(v is not None and v == had, name); self.is_hooks(v, ['other pending'], name)

def register(ex):
    """hooks of a module that is loaded run at once, in order, once each; of another, they are put after the pending ones; nothing else changes"""
    s = Finder(ex); other = s.has(s.other)
    top = ex.choice(2)
    if top: ex.heap.w(G(ex, IM[:-1]).a).vars['finder'] = s.f
    fn = G(ex, IM + 'when_imported') if top else I.getattr_(ex, s.f, 'when_imported')
    new = s.hooks('new')
    r = result(ex, lambda: I.call(ex, fn, [s.name, new]))
    loaded = ex.branch(z3.Bool('sys.modules has %s' % keyname(ex, s.name)))
    s.others_kept(other, 'hooks-of-other-modules'); s.progress([], 'imports-in-progress')
    if loaded:
        if r[0] == 'exc': ex.prove(s.stop is not None and r[2] is s.stop, 'error-of-the-hook'); ex.cover('failed'); return
        s.ran([('new', 0, s.count('new'))], 'at-once'); ex.cover('at once'); return
    expect(ex, r, 'ok', 'registered'); s.ran([], 'none-yet')
    had = 'own' in s.lists and z3.Bool('pending has %s' % keyname(ex, s.name))
    now = s.has(s.name)
    ex.prove(now is not None, 'pending'); s.is_hooks(now, (['own pending'] if 'own' in s.lists else []) + ['new'], 'after-the-pending-ones'); ex.cover('later')

def find(ex):
    """the finder takes the import of a module that has hooks and is not being imported through it already"""
    s = Finder(ex); s.in_progress = bool(ex.choice(2))
    r = result(ex, lambda: meth(ex, s.f, 'find_module', s.name, *[(), (None,)][ex.choice(2)])); expect(ex, r, 'ok', 'find')
    v = s.has(s.name)
    want = not s.in_progress and v is not None and ex.branch(s.count('own pending') > 0)
    ex.prove(r[1] == s.f if want else r[1] is None, 'takes-it' if want else 'leaves-it', repr(r[1])); s.ran([], 'none-run'); s.progress([], 'unchanged')
    ex.cover('takes' if want else 'leaves')

def load(ex):
    """an import: the module is being imported while its own body runs and while its hooks do; after a success its hooks, those registered meanwhile too, ran once each in order with the module and are no longer pending; after a failure they are all still pending; hooks of other modules are not run, and what was being imported is as before"""
    s = Finder(ex); other = s.has(s.other); st = {}
    def imp(ex2, f, a, k):
        ex2.prove(R.is_text(a[0]) and R.key(a[0]) == R.key(s.name) and 'o' not in st, 'imports-that-module-once'); s.progress([s.name], 'marked-while-importing'); s.ran([], 'no-hook-before')
        # the body of the module may register more hooks for it
        st['more'] = ex2.choice(2)
        if st['more']:
            v = s.has(s.name)
            if v is None: raise Stop()      # find_module took it for its hooks
            ex2.heap.w(v.a).items.append(s.hooks('new'))
        st['o'] = outcome(ex2, 'import', exits=True); return play(st['o'])
    if s.has(s.name) is None: raise Stop()
    ex.heap.w(G(ex, IM[:-1]).a).vars['__import__'] = Opaque('__import__', (), {'call': imp, 'callable': True})
    ex.assume(z3.Bool('sys.modules has %s' % keyname(ex, s.name)))      # once imported
    def during(ex2): ex2.prove(s.has(s.name) is None, 'no-longer-pending-while-run'); s.progress([s.name], 'marked-while-running')
    s.during = during
    r = result(ex, lambda: meth(ex, s.f, 'load_module', s.name))
    s.others_kept(other, 'hooks-of-other-modules')
    its = ex.heap.get(s.l.a).items; s.progress([], 'no-longer-being-imported')
    names = ['own pending'] + (['new'] if st['more'] else [])
    if st['o'][0] != 'ok':
        ex.prove(r[0] == 'exc' and r[2] is st['o'][1], 'its-error'); s.ran([], 'no-hook-run')
        v = s.has(s.name); ex.prove(v is not None, 'still-pending'); s.is_hooks(v, names, 'still-pending'); ex.cover('failed import'); return
    if s.stop is not None: ex.prove(r[0] == 'exc' and r[2] is s.stop, 'error-of-the-hook'); ex.cover('failed hook'); return
    expect(ex, r, 'ok', 'loaded'); ex.prove(r[1] is s.mod, 'the-module'); s.ran([(n, 0, s.count(n)) for n in names], 'each-once-in-order'); ex.prove(s.has(s.name) is None, 'no-longer-pending'); ex.cover('loaded')

def installed(ex):
    """the finder is asked first, and is there once"""
    sysm = attr(ex, G(ex, IM[:-1]), 'sys'); p = attr(ex, sysm, 'meta_path')
    mine = G(ex, IM + 'finder'); n = ex.int('others', lo=0).t
    o = L.Piece(n, lambda ex2, k: Opaque('finder', (as_int(k),)), 'finders'); o.where = lambda ex2, x: None
    there = ex.choice(2)
    ex.heap.w(p.a).items[:] = ([mine] if there else []) + [o]
    none = ex.choice(2)
    if none and not there: ex.heap.w(G(ex, IM[:-1]).a).vars['finder'] = None
    r = result(ex, lambda: call(ex, IM + '_init')); expect(ex, r, 'ok', 'init')
    f = attr(ex, G(ex, IM[:-1]), 'finder'); its = ex.heap.get(p.a).items
    ex.prove(I.class_of(ex, f) == G(ex, F), 'a-finder'); ex.prove(len(its) == 2 and its[0] == f and its[1] is o, 'first-and-once', repr(its))

def lemmas(world, tier):
    return [Lemma('C26.register', register, cover=('failed', 'at once', 'later')), Lemma('C26.find', find, cover=('takes', 'leaves')), Lemma('C26.load', load, cover=('failed import', 'failed hook', 'loaded')), Lemma('C26.installed', installed)]
