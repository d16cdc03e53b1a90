"""Deductive part: a target resolves to the service registered under it, or to the service registered under what precedes its
last dot and the method named after it, else to the unknown-service error, for any target text and any registered services; a
method is looked up under exactly its name and called with exactly the arguments, private and non-callable ones never; the
methods a service shows; registering and removing services by loop invariants over any number of registered ones."""
from .gw import *

SERVICES = 'services'
def gateway(ex, **k): return call(ex, GW + 'BaseGateway', **k)

def services_dict(ex, g, base):
    d = I.as_dict(ex, attr(ex, g, 'services'))
    reach('services', lambda: setattr(ex.heap.w(d.a), 'base', base))

def wrapper(ex, service, **k): return call(ex, GW + 'ServiceWrapper', service, **k)

def target(ex):
    """any target: (whole, before its last dot, after it or None)"""
    k = 'ub'[ex.choice(2)]
    last = R.sym_str(ex, 'last', k)
    for p in last.parts: ex.memo[('without', p.atom.fname, '.')] = True
    if ex.choice(2): return last, None, last
    first = R.sym_str(ex, 'first', k)
    return R.concat(ex, R.concat(ex, first, '.' if k == 'u' else b'.'), last), first, last

def resolve(ex):
    """a request for any target, with any services registered"""
    g = gateway(ex)
    whole, first, last = target(ex)
    got = {}
    def make(ex2, k):
        w = wrapper(ex2, mark(ex2, 'service %s' % keyname(ex2, k)))
        got[keyname(ex2, k)] = w
        return w
    services_dict(ex, g, AbsDict('services', make))
    env = mark(ex, 'envelope')
    req = call(ex, RM + 'Request', whole, ex.heap.new(HList()), env)
    r = result(ex, lambda: meth(ex, g, 'getServiceRequest', req, whole))
    has = lambda k: ex.branch(z3.Bool('services has %s' % keyname(ex, k)))
    if has(whole): svc, m = whole, None; ex.cover('whole')
    else:
        name = first if first is not None else b''
        if has(name): svc, m = name, last; ex.cover('method')
        else:
            expect(ex, r, 'UnknownServiceError', 'unknown-target-refused'); ex.cover('unknown'); return
    expect(ex, r, 'ok', 'target-resolved')
    ex.prove(attr(ex, r[1], 'service') == got.get(keyname(ex, svc)), 'the-service-registered-under-it')
    mm = attr(ex, r[1], 'method')
    if m is None: ex.prove(mm is None, 'no-method')
    else: same_bytes(ex, mm, m, 'the-method-after-the-last-dot')
    ex.prove(attr(ex, r[1], 'request') is env, 'of-this-envelope')

def texts(ex, name, kind=None):
    return R.sym_str(ex, name, kind or 'ub'[ex.choice(2)])

def a_service(ex, tr, method, found, can):
    """a service object: its only attribute of interest is looked up by a symbolic name"""
    def get(ex2, o, n, dflt, probe=False):
        tr.ev.append(('lookup', n))
        if found: return method
        if dflt is not MISS: return dflt
        ex2.raise_('AttributeError', b'no such method')
    return Opaque('service', (), {'getattr_sym': get, 'isinstance': lambda *a: False, 'callable': can, 'str': lambda *a: b'<service>', 'truth': lambda *a: True,
        'call': lambda ex2, f, a, k: (tr.ev.append(('call', tuple(a), dict(k))), mark(ex2, 'result'))[1]})

def args_piece(ex):
    n = ex.int('arguments', lo=0).t
    return L.Piece(n, lambda ex2, k: Opaque('argument', (as_int(k),)), 'arguments')

def calls(ex):
    """any method name and any arguments on any service object"""
    tr = Trace()
    found = ex.choice(2); can = bool(ex.choice(2))
    m = Opaque('method', (), {'callable': can, 'truth': lambda *a: True, 'call': lambda ex2, f, a, k: (tr.ev.append(('method', tuple(a), dict(k))), mark(ex2, 'result'))[1]})
    w = wrapper(ex, a_service(ex, tr, m, found, True))
    name = texts(ex, 'name')
    args = (args_piece(ex),)
    sr = call(ex, GW + 'ServiceRequest', mark(ex, 'envelope'), w, name)
    r = result(ex, lambda: I.call(ex, sr, list(args)))
    n = as_int(R.length(ex, name))
    if n.eq(z3.IntVal(0)): private = False
    else: private = ex.branch(n >= 1) and I.truth(ex, meth(ex, name, 'startswith', b'_'))
    if r[0] == 'exc' and r[1].startswith('Unicode'):
        ex.prove(R.kind_of(name) == 'u', 'only-a-name-that-is-no-text'); ex.prove(not tr.ev, 'nothing-run'); ex.cover('non-ascii'); return
    if private:
        expect(ex, r, 'InvalidServiceMethodError', 'private-refused'); ex.prove(not tr.ev, 'nothing-run'); ex.cover('private'); return
    ex.prove(all(e[0] != 'call' for e in tr.ev), 'the-service-itself-is-not-called')
    for e in tr.ev:
        if e[0] == 'lookup': ex.prove(as_bool(R.eq(ex, source(e[1]), name)), 'exactly-the-named-one', repr(e[1]))
    ran = [e for e in tr.ev if e[0] == 'method']
    if not found: expect(ex, r, 'UnknownServiceMethodError', 'unknown-method-refused'); ex.prove(not ran, 'nothing-run'); ex.cover('unknown'); return
    if not can: expect(ex, r, 'InvalidServiceMethodError', 'not-callable-refused'); ex.prove(not ran, 'nothing-run'); ex.cover('not callable'); return
    expect(ex, r, 'ok', 'called'); ex.prove(len(ran) == 1 and not ran[0][2], 'called-once')
    same_args(ex, ran[0][1], args, 'with-exactly-the-arguments'); ex.prove(isinstance(r[1], Opaque) and r[1].name == 'result', 'its-result')
    ex.cover('called')

def source(s):
    """the text an ASCII byte string was made of"""
    m = s.parts[0].atom.meta if isinstance(s, R.Rope) and len(s.parts) == 1 and isinstance(s.parts[0], R.Seg) else None
    return m[1] if m and m[0] == 'ascii' else s

def plain(ex):
    """a service called by its own name"""
    tr = Trace(); can = bool(ex.choice(2))
    w = wrapper(ex, a_service(ex, tr, None, False, can))
    args = (args_piece(ex),)
    r = result(ex, lambda: I.call(ex, call(ex, GW + 'ServiceRequest', mark(ex, 'envelope'), w, None), list(args)))
    if not can: expect(ex, r, 'UnknownServiceMethodError', 'not-callable-refused'); ex.prove(not tr.ev, 'nothing-run'); ex.cover('not callable'); return
    expect(ex, r, 'ok', 'called'); ex.cover('called')
    ex.prove([e[0] for e in tr.ev] == ['call'] and not tr.ev[0][2], 'called-once', repr(tr.ev)); same_args(ex, tr.ev[0][1], args, 'with-exactly-the-arguments')

class Methods(object):
    """names 0..k of dir(): those that are public and callable, with their values"""
    def __init__(self, own, k): self.own = own; self.k = k
    def clone(self, ex, d): return self
    def set(self, ex, d, key, v):
        o = self.own; k = self.k
        ex.prove(as_bool(R.eq(ex, key, o.name(ex, k))), 'under-its-own-name'); ex.prove(as_bool(I.is_(ex, v, o.value(ex, k))), 'its-own-value')
        ex.memo[('kept', d.a)] = True
        return True
    def lookup(self, ex, d, k): raise OutOfReach('looking a method up')
    def nonempty(self, ex, d): raise OutOfReach('methods')

class Dir(L.Inv):
    def __init__(self, ex):
        self.nm = ex.fresh('attribute'); self.n = ex.int('attributes', lo=0).t
        self.piece = L.Piece(self.n, self.name, 'dir', lambda: self)
    def name(self, ex, k): return R.sym_str(ex, self.nm, 'b', ix=(as_int(k),), minlen=1)
    def value(self, ex, k): return Opaque('value', (as_int(k),), {'callable': lambda ex2, v: ex2.branch(z3.Function('is callable', z3.IntSort(), z3.BoolSort())(as_int(k)))})
    def enter(self, f):
        self.ex = f.ex
        ds = [v for v in f.ex.heap.get(f.env.a).vars.values() if isinstance(I.rec(f.ex, v), HDict)]
        if len(ds) != 1: raise OutOfReach('the methods collected')
        self.d = ds[0]
    def havoc(self, f, k):
        self.ex.heap.w(self.d.a).base = Methods(self, k); self.ex.memo.pop(('kept', self.d.a), None); self.done = k
    def check(self, f, k):
        ex = self.ex; b = ex.heap.get(self.d.a)
        ex.prove(not b.ent and not b.sym, 'nothing-else', repr(b.ent))
        if b.base is None: return ex.prove(as_int(k) == 0, 'starts-empty')
        j = b.base.k
        if j is k: return
        public = not I.truth(ex, meth(ex, self.name(ex, j), 'startswith', b'_'))
        can = I.truth(ex, call(ex, ex.world.builtins['callable'], self.value(ex, j)))
        ex.prove((public and can) == bool(ex.memo.get(('kept', self.d.a))), 'exactly-the-public-callables')
        ex.cover('kept' if public and can else 'left out')

def methods_of(ex):
    """the methods of an object with any attributes: the public callable ones under their names"""
    D = Dir(ex)
    def get(ex2, o, n, dflt, probe=False):
        if not isinstance(n, R.Rope) or len(n.parts) != 1: raise OutOfReach('attribute')
        return D.value(ex2, n.parts[0].atom.ix[0])
    s = Opaque('service', (), {'dir': lambda ex2, v: ex2.heap.new(HList([D.piece])), 'getattr_sym': get, 'isinstance': lambda *a: False})
    r = meth(ex, wrapper(ex, s), 'getMethods')
    b = ex.heap.get(I.as_dict(ex, r).a).base
    ex.prove(isinstance(b, Methods) and as_bool(as_int(b.k) == D.n), 'of-all-attributes')

class Reg(object):
    """n services registered under distinct names"""
    def __init__(self, ex):
        self.ex = ex; self.n = ex.int('registered', lo=0).t; self.gone = None; self.added = []
        self.nm = ex.fresh('service name')
    def name(self, ex, k): return R.sym_str(ex, self.nm, 'b', ix=(as_int(k),))
    def wrap(self, ex, k):
        key = ('wrap', str(as_int(k)))
        if key not in ex.memo: ex.memo[key] = wrapper(ex, Opaque('service', (as_int(k),), {'eq': self.svc_eq}))
        return ex.memo[key]
    def svc_eq(self, ex, x, y): return z3.Function('is the one named', z3.IntSort(), z3.BoolSort())(as_int(x.idx[0]))
    def hit(self, ex, k, s):
        """entry k is the one to remove"""
        byname = R.eq(ex, self.name(ex, k), s) if R.is_text(s) else False
        return z3.Or(as_bool(byname), z3.Function('is the one named', z3.IntSort(), z3.BoolSort())(as_int(k)))

class RegDict(object):
    def __init__(self, reg, inv): self.reg = reg; self.inv = inv
    def clone(self, ex, d): return self
    def items(self, ex, d): return [L.Piece(self.reg.n, lambda ex2, k: (self.reg.name(ex2, k), self.reg.wrap(ex2, k)), 'services', self.inv)]
    def delete(self, ex, d, k):
        if not (isinstance(k, R.Rope) and len(k.parts) == 1 and k.parts[0].atom.fname == self.reg.nm): raise OutOfReach('removing another name')
        ex.prove(self.reg.gone is None, 'one-removed'); self.reg.gone = k.parts[0].atom.ix[0]
        return True
    def set(self, ex, d, k, v): raise OutOfReach('registering')
    def lookup(self, ex, d, k):
        if isinstance(k, R.Rope) and len(k.parts) == 1 and k.parts[0].atom.fname == self.reg.nm: return self.reg.wrap(ex, k.parts[0].atom.ix[0])
        raise OutOfReach('looking up another name')
    def nonempty(self, ex, d): return self.reg.n > 0
    def len(self, ex, d): return mkint(self.reg.n)

class Scan(L.Inv):
    """no service before k is the one to remove, and none was removed"""
    def __init__(self, reg, s): self.reg = reg; self.s = s
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k): self.k = k; self.reg.gone = None
    def check(self, f, k):
        ex = self.ex
        ex.prove(self.reg.gone is None, 'none-removed-before')
        if isinstance(k, int) and k == 0: return
        j = tint(as_int(k) - 1)
        if getattr(self, 'k', None) is not None: ex.prove(z3.Not(self.reg.hit(ex, j, self.s)), 'none-passed-over')

def remove(by):
    def f(ex):
        g = gateway(ex); reg = Reg(ex)
        s = texts(ex, 'which', 'b') if by == 'name' else mark(ex, 'which')
        if by == 'object': s.props['eq'] = lambda ex2, x, y: reg.svc_eq(ex2, y, x) if isinstance(y, Opaque) and y.name == 'service' else z3.BoolVal(False)
        inv = Scan(reg, s)
        services_dict(ex, g, RegDict(reg, lambda: inv))
        r = result(ex, lambda: meth(ex, g, 'removeService', s))
        if reg.gone is not None:
            ex.cover('removed'); expect(ex, r, 'ok', 'removed')
            ex.prove(reg.hit(ex, reg.gone, s), 'the-one-named')
        else:
            ex.cover('not found'); expect(ex, r, 'NameError', 'unknown-refused')
    f.__doc__ = 'removing a service by %s from any number of registered ones: the first that fits and no other, or an error' % by
    return f

def add(ex):
    """registering any object under any name: refused when taken or no service, else found under it; nothing is called"""
    g = gateway(ex)
    tr = Trace()
    have = wrapper(ex, mark(ex, 'other'))
    services_dict(ex, g, AbsDict('services', lambda ex2, k: have))
    what = ex.choice(5)
    T = ex.world.T
    svc = [lambda: code(ex, 'service', tr), lambda: instance(ex), lambda: ex.int('number'), lambda: texts(ex, 'text'), lambda: 2.5][what]()
    name = texts(ex, 'name')
    scope(ex, **{GW + 'ServiceCollection.__contains__': lambda ex2, f, a, k: I.mkbool(z3.Bool('services has %s' % keyname(ex2, a[1])))})
    r = result(ex, lambda: meth(ex, g, 'addService', svc, name))
    ex.prove(not tr.ev, 'nothing-run')
    if what > 1: expect(ex, r, 'TypeError', 'scalar-refused'); ex.cover('scalar'); done = False
    elif ex.branch(z3.Bool('services has %s' % keyname(ex, name))): expect(ex, r, 'RemotingError', 'taken-refused'); ex.cover('taken'); done = False
    else: expect(ex, r, 'ok', 'registered'); ex.cover('registered'); done = True
    d = I.as_dict(ex, attr(ex, g, 'services'))
    v = I.dict_lookup(ex, d, name) if done else ex.memo.get(('absdict', 'services', keyname(ex, name)))
    if done: ex.prove(isinstance(v, Ref) and attr(ex, v, 'service') is svc or attr(ex, v, 'service') == svc, 'under-its-name')
    else: ex.prove(v is None or v is MISS or v == have, 'nothing-registered')

def instance(ex): return call(ex, GW + 'ServiceCollection')

def processor(ex):
    """the processor of a request: that of RemoteObject without a target, the AMF0 one for any other"""
    g = gateway(ex)
    t = [None, b'', '', b'null', 'null', texts(ex, 'target', 'u'), texts(ex, 'target', 'b')][ex.choice(7)]
    q = call(ex, RM + 'Request', t, ex.heap.new(HList()))
    p = meth(ex, g, 'getProcessor', q)
    if isinstance(t, R.Rope):
        if ex.branch(as_int(R.length(ex, t)) == 0) or ex.branch(as_bool(R.eq(ex, t, 'null' if R.is_uni(t) else b'null'))): ro = True
        else: ro = False
    else: ro = True
    ex.prove(I.class_of(ex, p) == G(ex, (A3 if ro else A0) + 'RequestProcessor'), 'processor-of-the-target')
    ex.prove(attr(ex, p, 'gateway') == g, 'of-this-gateway')
    ex.cover('remote object' if ro else 'call')

def lemmas(world, tier):
    CON = {q: in_scope(q) for q in (GW + 'ServiceCollection.__contains__',)}
    L_ = lambda n, f, **k: Lemma('C14.' + n, f, contracts=k.pop('contracts', CON), **k)
    return [L_('resolve', resolve, cover=('whole', 'method', 'unknown')), L_('calls', calls, cover=('private', 'unknown', 'not callable', 'called')), L_('plain', plain, cover=('called', 'not callable')),
            L_('methods', methods_of, cover=('kept', 'left out')), L_('remove_by_name', remove('name'), cover=('removed', 'not found')), L_('remove_by_object', remove('object'), cover=('removed', 'not found')),
            L_('add', add, cover=('scalar', 'taken', 'registered')), L_('processor', processor, cover=('remote object', 'call'))]
