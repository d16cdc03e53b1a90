"""Deductive part: which attributes of an object are written, for an arbitrary attribute name, class configuration and object; any number of other
attributes, configured in any way; and what a class inherits from any number of base classes."""
from .attrs import *
from pyvc import loops as L

def shown(v): return 'nothing' if v is MISS else repr(v)
def alike(v, w): return v is w or v is not MISS and w is not MISS and (isinstance(v, Opaque) and isinstance(w, Opaque) and v.name == w.name or isinstance(v, Ref) and v == w)
def table(ex, d): return ex.heap.get(d.a).base if N.is_names(ex, d) else N.lift(ex, d)
def expect_table(ex, attrs, want, name):
    """obligation: what a dictionary has under each tracked name"""
    b = table(ex, attrs)
    for k, v in want.items(): ex.prove(bool(alike(b.t[k], v)), name, '%s: %s, not %s' % (k, shown(b.t[k]), shown(v)))

# ---- the configuration, compiled
def collection(ex, al, f):
    v = attr(ex, al, f)
    if v is None: return None, {k: False for k, _ in N.by_key(ex)}, 0
    t, n = N.view(ex, v); return v, t, n
def check_compiled(ex, al, c, syn=True):
    """obligation: the state of an alias is as its settings say"""
    got = {}; cols = {}
    F = FIELDS + ('static_attrs_set', 'non_static_encodable_properties')
    for f in F: cols[f] = collection(ex, al, f); got[f] = cols[f][1]
    for t in c.names:
        k = key(t)
        for f, want in (('exclude_attrs', c.excluded(k)), ('static_attrs', c.is_static(k)), ('static_attrs_set', c.is_static(k)), ('readonly_attrs', c.ro(k)), ('proxy_attrs', c.proxied(k)),
                        ('encodable_properties', c.enc(k)), ('decodable_properties', c.dec(k)), ('non_static_encodable_properties', c.enc(k) and not c.is_static(k))):
            ex.prove(bool(got[f][k] == want), f, '%s: %s, not %s' % (k, got[f][k], want))
        its = [x for x in I.iterate(ex, cols['static_attrs'][0]) if not I.is_piece(x) and N.which(ex, x) == k]
        ex.prove(len(its) <= 1, 'static-once', repr(its))
    for f in F:
        v, t, n = cols[f]
        if f in ('static_attrs', 'static_attrs_set', 'non_static_encodable_properties'): continue
        if v is not None: ex.prove(z3.Or(as_int(n) > 0, any(t.values())), 'none-when-empty', f)
    for f, w in (('dynamic', c.is_dynamic()), ('sealed', c.sealed), ('_compiled', True), ('is_dict', c.is_dict)): ex.prove(attr(ex, al, f) is w or attr(ex, al, f) == w, f, '%r, not %r' % (attr(ex, al, f), w))
    ex.prove(attr(ex, al, 'external') == False, 'external')
    sy = attr(ex, al, 'synonym_attrs')
    def empty(f): v, t, n = cols[f]; return z3.And(as_int(n) == 0, not any(t.values())) if v is not None else z3.BoolVal(True)
    no_syn = z3.Not(as_bool(ex.heap.get(sy.a).base.nonempty(ex, sy))) if N.is_names(ex, sy) else z3.BoolVal(not I.dict_items(ex, sy))
    if I.truth(ex, attr(ex, al, 'shortcut_encode')):
        ex.prove(z3.And(no_syn, *[empty(f) for f in ('encodable_properties', 'static_attrs', 'exclude_attrs', 'proxy_attrs')]), 'shortcut-only-without-restrictions'); ex.cover('short way to encode')
    if I.truth(ex, attr(ex, al, 'shortcut_decode')):
        ex.prove(z3.And(no_syn, z3.BoolVal(bool(c.is_dynamic())), *[empty(f) for f in ('decodable_properties', 'static_attrs', 'exclude_attrs', 'readonly_attrs', 'proxy_attrs')]), 'shortcut-only-without-restrictions'); ex.cover('short way to decode')
    if syn:
        for t in c.names:
            k = key(t); v = table(ex, sy).t[k]
            ex.prove(v is MISS if c.syn[k] is None else v is not MISS and R.key(v) == R.key(c.syn[k]), 'synonym', '%s: %r' % (k, v))

def compiled(ex, kinds, say):
    a, = tracked(ex, 'a')
    c = Config(ex, 'K', [a], 'all', kinds=kinds, say=say)
    al = alias_of(ex, c)
    ex.prove(attr(ex, al, '_compiled') is False, 'deferred')
    r = result(ex, lambda: meth(ex, al, 'compile')); expect(ex, r, 'ok', 'compiles')
    check_compiled(ex, al, c); ex.cover('compiled')

def compile_lemma(kind, static, excluded, modes=None):
    what = ', '.join((kind,) + (('static',) if static else ()) + (('excluded',) if excluded else ()))
    def run(ex): compiled(ex, (kind,), {'kind': 0, 'synonym': 0, 'proxy': 0, 'static': static, 'exclude': excluded, **({'modes': modes} if modes else {})})
    run.__doc__ = 'the compiled state of a class configuration is what its settings say (attribute: %s): excluded names are in nothing but the exclusions; static ones, slots and readable properties are encodable, static ones, slots and settable properties that are not read-only decodable; a sealed class is not dynamic, another is unless it says so; the short ways are taken only if there is nothing to observe%s' % (what, ' (dynamic not given, given as False, or the class sealed: the other combinations of the two in the thorough tier)' if modes else '')
    return run

def renamed(ex):
    """the same of proxied names and synonyms"""
    compiled(ex, ('plain',), {'kind': 0, 'static': 0, 'exclude': 0, 'readonly': 0})
# ---- what a class inherits
STATES = [(exc, st, e, d, r) for exc in (0, 1) for st in (0, 1) for e in (0, 1) for d in (0, 1) for r in (0, 1) if not (exc and (st or e or d)) and not (st and not e) and not (r and d) and not (st and not r and not d)]
class Derived(object):
    """a class configuration and that of its base class, together"""
    def __init__(self, c, b): self.names = c.names; self.c = c; self.b = b; self.is_dict = False; self.sealed = c.sealed; self.syn = {k: c.syn[k] if c.syn[k] is not None else b.syn[k] for k in c.syn}
    def excluded(self, k): return self.c.exclude[k] or self.b.exc[k]
    def is_static(self, k): return (self.c.static[k] or self.b.st[k]) and not self.excluded(k)
    def ro(self, k): return self.c.ro(k) or self.b.r[k]
    def proxied(self, k): return self.c.proxy[k] or self.b.p[k]
    def enc(self, k): return (self.c.enc(k) or self.b.e[k]) and not self.excluded(k)
    def dec(self, k): return (self.c.dec(k) or self.b.d[k]) and not self.excluded(k) and not self.ro(k)
    def is_dynamic(self):
        if self.sealed: return False
        if self.c.dynamic is not None: return self.c.dynamic
        return self.b.dynamic or bool(self.b.sealed)        # (of a sealed class an unsealed one is derived)
def known_bases(ex, aliases, known=None):
    """the alias of each base class, registered already or by this"""
    h = ex.choice(2) if known is None else 0
    def find(x): return [al for k, al in aliases if isinstance(x, Opaque) and x.name == k.name][0]
    def get(ex2, f, a, kw):
        if h: raise PyRaise(call(ex2, 'pyamf.alias.UnknownClassAlias'))
        return find(a[0])
    def reg(ex2, f, a, kw): ex2.prove(bool(h), 'registers-unknown-classes-only'); return find(a[0])
    scope(ex, **{'pyamf.get_class_alias': get, 'pyamf.register_class': reg})

def inherits(parts, say, modes=(0,), syn=False, full=True):
    def run(ex):
        a, x = tracked(ex, 'a', 'x') if syn else tracked(ex, 'a') + [None]; k = key(a)
        b = Compiled(ex, [a], use=('enc', 'dec', 'syn') + (() if 'proxy' in say else ('proxy',)), parts={k: parts[ex.choice(len(parts))]}, mode=modes[ex.choice(len(modes))])
        b.full = full
        if syn: b.syn[k] = (None, N.other(ex, 'external of the base'), x)[ex.choice(3)]
        ba = b.alias(shortcuts=False)
        c = Config(ex, 'K', [a], 'none', kinds=('plain',), say=say, syn=syn, ext=(x,))
        known_bases(ex, [(b.k, ba)], full or None)
        al = alias_of(ex, c, mro=(b.k,))
        r = result(ex, lambda: meth(ex, al, 'compile')); expect(ex, r, 'ok', 'compiles')
        check_compiled(ex, al, Derived(c, b)); ex.cover('compiled')
    return run

def any_bases(ex):
    """every base class contributes, once each, from the closest on, before the configuration is final"""
    tracked(ex, 'a')
    n = ex.int('bases', lo=0).t; log = []
    class Order(L.Inv):
        def enter(self, f): ex.prove(not log, 'none-before'); self.n0 = 0
        def check(self, f, k): ex.prove(self.at == as_int(k), 'each-once-in-order')
        at = z3.IntVal(0)
        def havoc(self, f, k): self.at = as_int(k); st['inv'] = self
    st = {}
    def base(ex2, f, a, kw):
        t = a[1]
        if isinstance(t, Opaque) and t.name == 'base':
            ex2.prove(as_int(t.idx[0]) == st['inv'].at, 'each-once-in-order'); st['inv'].at = tint(st['inv'].at + 1)
        else: ex2.prove(t == ex2.world.T['object'], 'only-bases')
    def final(ex2, f, a, kw):
        ex2.prove(('inv' in st and ex2.valid(st['inv'].at == n)) or ex2.valid(n == 0), 'all-before'); st['final'] = True
        return NotImplemented
    scope(ex, **{CA + '._compile_base_class': base, CA + '._finalise_compile': final})
    c = Config(ex, 'K', [], 'none', say={'dynamic': 0, 'sealed': 0})
    al = alias_of(ex, c, mro=(L.Piece(n, lambda ex2, k: Opaque('base', (as_int(k),), {'is': lambda ex3, p, q: isinstance(p, Opaque) and isinstance(q, Opaque) and p.name == q.name and p.idx == q.idx}), 'bases', Order),))
    r = result(ex, lambda: meth(ex, al, 'compile')); expect(ex, r, 'ok', 'compiles')
    ex.prove(st.get('final') is True, 'made-final'); ex.cover('compiled')

def closest(ex):
    """whether a class is dynamic: as it says itself, else as its closest base class, wherever the others are"""
    tracked(ex)
    c = Config(ex, 'K', [], 'none')
    bs = []
    for i in range(2):
        b = Compiled(ex, [], use=('enc',)); b.full = False; bs.append((b, b.alias(shortcuts=False))); b.k.name += str(i)
    known_bases(ex, [(b.k, ba) for b, ba in bs])
    al = alias_of(ex, c, mro=tuple(b.k for b, _ in bs))
    r = result(ex, lambda: meth(ex, al, 'compile')); expect(ex, r, 'ok', 'compiles')
    want = Derived(c, bs[0][0]).is_dynamic()
    ex.prove(attr(ex, al, 'dynamic') is want, 'dynamic', '%r, not %r' % (attr(ex, al, 'dynamic'), want)); ex.cover('dynamic' if want else 'not dynamic')

# ---- what is written
def local(ex, c, o, k):
    """what there is to write of an attribute under its own name; 'error': it has to be there and is not"""
    U = G(ex, 'pyamf.Undefined'); v = o.val[k]
    if c.exc[k]: return MISS
    if o.kind == 'dict':
        if o.listed[k] and (c.dynamic or c.e[k]): return v
        return U if c.st[k] else MISS
    if c.st[k]: return U if v is MISS else v
    if c.e[k] or c.dynamic and o.listed[k]: return 'error' if v is MISS else v
    return MISS

def select(is_dict):
    def run(ex):
        a, = tracked(ex, 'a'); k = key(a)
        c = Compiled(ex, [a], is_dict, use=('enc',)); al = c.alias(); o = Obj(ex, c, [a]); cd = Codec(ex); seen = []
        def filtered(ex2, f, x, kw):
            args = (x + [kw.get('codec')])[1:3]
            seen.append(args); ex2.prove(alike(args[1], cd.c), 'that-codec', repr(args)); return args[0]
        scope(ex, **{CA + '._filterEncodableAttributes': filtered})
        r = result(ex, lambda: meth(ex, al, 'getEncodableAttributes', o.o, **({'codec': cd.c} if cd.there else {})))
        want = local(ex, c, o, k)
        if want == 'error': ex.prove(r[0] == 'exc' and r[1] == 'AttributeError', 'missing-property', repr(r)); ex.cover('missing'); return
        if r[0] == 'exc': ex.prove(r[1] == 'AttributeError' and o.failed, 'only-another-attribute-is-missing', repr(r)); return
        ex.cover('written' if want is not MISS else 'not written')
        expect_table(ex, r[1], {k: want}, 'as-configured')
        ex.prove(len(seen) == 1 or not seen and c.short['encode'], 'proxies-and-synonyms', repr(seen))
        ex.prove(r[1] != o.d, 'a-copy'); expect_table(ex, o.d, {k: o.val[k] if o.listed[k] else MISS}, 'the-object-is-unchanged')
    run.__doc__ = 'what is written of an attribute (before proxies and synonyms) is what the compiled configuration permits: nothing of an excluded one; a static one always, undefined standing for a missing one; of a class that is not dynamic, otherwise only encodable properties; else every attribute the object has%s' % (' (dictionaries)' if is_dict else '')
    return run

def unready(ex):
    """an alias that is not compiled yet is compiled first"""
    a, = tracked(ex, 'a'); c = Compiled(ex, [a], use=()); al = c.alias(_compiled=False); n = []
    def comp(ex2, f, x, kw): n.append(1); raise PyRaise(mark(ex2, 'compiling'))
    scope(ex, **{CA + '.compile': comp})
    h = ex.choice(3); o = mark(ex, 'object')
    r = result(ex, lambda: [lambda: meth(ex, al, 'getEncodableAttributes', o), lambda: meth(ex, al, 'getDecodableAttributes', o, o), lambda: meth(ex, al, 'applyAttributes', o, o)][h]())
    ex.prove(r[0] == 'exc' and r[1] is None and r[2].name == 'compiling', 'compiles-first', repr(r)); ex.cover(('encode', 'decode', 'apply')[h])

def renaming(ex, h):
    """the selected attributes: proxied ones are wrapped, those with a synonym are there under it and not under their own name, others are as they were, whatever the order of the synonyms, and when they are swapped"""
    a, b = tracked(ex, 'a', 'b'); ka, kb = key(a), key(b)
    c = Compiled(ex, [a, b], use=('proxy', 'syn'))
    c.syn[ka] = (None, N.other(ex, 'external'), b, b)[h]; c.syn[kb] = a if h == 3 else None
    al = c.alias(); cd = Codec(ex)
    va, vb = [Opaque('value of ' + x, (), {'is': by_name, 'truth': lambda *a: True}) for x in 'ab']
    have = {ka: va if ex.choice(2) else MISS, kb: vb if ex.choice(2) else MISS}
    if h == 2 and have[kb] is not MISS and have[ka] is not MISS: raise Stop()       # both under one name
    d = ex.heap.new(HDict(base=N.Table(ex, {k: v for k, v in have.items()}, ex.int('others', lo=0).t)))
    r = result(ex, lambda: meth(ex, al, '_filterEncodableAttributes', d, codec=cd.c)); expect(ex, r, 'ok', 'filter')
    val = {k: MISS if v is MISS else wrapped('proxy of', v) if c.p[k] and cd.there else v for k, v in have.items()}
    want = {0: val, 1: {ka: MISS, kb: val[kb]}, 2: {ka: MISS, kb: val[ka] if val[ka] is not MISS else val[kb]}, 3: {ka: val[kb], kb: val[ka]}}[h]
    expect_table(ex, r[1], want, 'under-its-name'); ex.cover('filtered')

def lemmas(world, tier):
    CON = {q: in_scope(q) for q in ('pyamf.util.is_class_sealed', CA + '.checkClass', CA + '._filterEncodableAttributes', CA + '.compile', CA + '._compile_base_class', CA + '._finalise_compile', 'pyamf.get_class_alias', 'pyamf.register_class')}
    L_ = lambda n, f, **k: Lemma('C09.' + n, f, contracts=CON, max_paths=40000, **k)
    out = []
    for h, nm in enumerate(('own_name', 'another_name', 'renamed', 'swapped')): out.append(L_('renaming_' + nm, (lambda ex, h=h: renaming(ex, h)), doc=renaming.__doc__ + ' (%s)' % nm.replace('_', ' '), cover=('filtered',)))
    out.append(L_('select', select(False), cover=('written', 'not written', 'missing')))
    out.append(L_('select_dict', select(True), cover=('written', 'not written')))
    d = 'what a class inherits from a base class: what the base excludes, marks read-only, wraps, or declares static, encodable or decodable holds of the class too'
    none = {'static': 0, 'exclude': 0, 'readonly': 0, 'proxy': 0, 'synonym': 0, 'dynamic': 0, 'sealed': 0}
    for i in (0, 1):
        for x in (0, 1): out.append(L_('inherits%s%s' % ('_static' * i, '_excluded' * x), inherits(STATES, {'proxy': 0, 'synonym': 0, 'dynamic': 0, 'sealed': 0, 'static': i, 'exclude': x}), doc=d + ' (the class: %s)' % (('static ' * i + 'excluded' * x) or 'neither static nor excluded'), cover=('compiled',)))
    out.append(L_('inherits_proxies', inherits(STATES[:1], {k: v for k, v in none.items() if k != 'proxy'}, full=False), doc=d + ' (proxies)', cover=('compiled',)))
    out.append(L_('inherits_synonyms', inherits(STATES[:1], {k: v for k, v in none.items() if k != 'synonym'}, syn=True, full=False), doc='a synonym of the class, else that of the base class', cover=('compiled',)))
    out.append(L_('inherits_dynamic', inherits(STATES[:1], {k: v for k, v in none.items() if k not in ('dynamic', 'sealed')}, modes=(0, 1, 2), full=False), doc='whether a class is dynamic, with a base class', cover=('compiled',)))
    out.append(L_('any_bases', any_bases, cover=('compiled',)))
    out.append(L_('closest', closest, cover=('dynamic', 'not dynamic')))
    out.append(L_('compile_renamed', renamed, cover=('compiled',)))
    for k in KINDS:
        for i, st in reversed(list(enumerate(('', '_static')))):
            for j, x in reversed(list(enumerate(('', '_excluded')))):
                out.append(L_('compile_%s%s%s' % (k, st, x), compile_lemma(k, i, j, None if k == 'plain' or tier != 'quick' else ((None, False), (False, False), (None, True))), cover=('compiled',) + (('short way to encode', 'short way to decode') if k == 'plain' and not i + j else ())))
    out.append(L_('unready', unready, cover=('encode', 'decode', 'apply')))
    return out
