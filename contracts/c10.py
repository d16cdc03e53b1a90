"""Deductive part: which attributes of an object are set from incoming data, for an arbitrary attribute name, compiled class configuration (C09.compile_*,
C09.inherits_*), object and data; any number of other attributes, configured in any way."""
from .attrs import *
from pyvc import loops as L

def shown(v): return 'nothing' if v is MISS else repr(v)
def alike(v, w): return v is w or v is not MISS and w is not MISS and isinstance(v, Opaque) and isinstance(w, Opaque) and v.name == w.name
def value(x): return Opaque('incoming ' + x, (), {'is': by_name, 'truth': lambda *a: True})
def permitted(c, k): return not c.exc[k] and not c.r[k] and (c.dynamic or c.d[k])
def incoming(ex, names):
    """-> (what the data has under each tracked name, the dictionary)"""
    have = {key(t): value(key(t)) if ex.choice(2) else MISS for t in names}
    return have, ex.heap.new(HDict(base=N.Table(ex, dict(have), ex.int('others', lo=0).t, lambda ex2, nm: Opaque('incoming of another', (), {'truth': lambda *a: True, 'is': by_name}))))
def expect_now(ex, c, o, r, want, missing, name):
    """obligation: what the object has under each tracked name now; `missing`: a static one was not in the data"""
    if missing: ex.prove(r[0] == 'exc' and r[1] == 'AttributeError', 'missing-static', repr(r)); [ex.prove(alike(o.now(k), o.was(k)), 'nothing-set', k) for k in want]; ex.cover('missing static'); return
    if r[0] == 'exc': ex.prove(r[1] == 'AttributeError', 'fails-for-missing-static-only', repr(r)); ex.prove(as_int(c.n.get('static', 0)) > 0, 'another-static-is-missing'); return
    for k, v in want.items():
        v = o.was(k) if v is MISS else v
        ex.prove(bool(alike(o.now(k), v)), name, '%s: %s, not %s' % (k, shown(o.now(k)), shown(v)))

class Target(Obj):
    """the object that is filled: what it has of the tracked names, before and now"""
    def __init__(self, ex, c, names, had=(0, 2)):
        Obj.__init__(self, ex, c, names, had=had, kind=('plain', 'items')[ex.choice(2)] if not c.is_dict and not c.sealed else None)
        self.first = {key(t): self.val[key(t)] if self.listed[key(t)] else MISS for t in names}; self.put = {}
        self.o_ = self.o
        if self.kind != 'dict':
            def put_sym(ex2, o, nm, v):
                w = N.which(ex2, nm); ex2.prove(self.kind != 'items', 'by-item')
                if w is not None: self.put[w] = v
            def put_item(ex2, f, a, k):
                ex2.prove(a[0] is self.o, 'that-object'); w = N.which(ex2, a[1])
                if w is not None: self.put[w] = a[2]
            si = Opaque('setitem', (), {'call': put_item, 'callable': True})
            get0 = self.o.props['getattr']
            def get(ex2, o, a):
                if a == '__setitem__' and self.kind == 'items': return si
                return get0(ex2, o, a)
            self.o = Opaque('object', (), dict(self.o.props, getattr=get, setattr_sym=put_sym, **{'class': Opaque('class', (), {'getattr': get, 'is': by_name})}))
    def was(self, k): return self.first[k]
    def now(self, k):
        if k in self.put: return self.put[k]
        return self.ex.heap.get(self.d.a).base.t[k]

def filled(c, cd, k, v):
    """what an attribute is set to when the data has v for it"""
    if v is MISS or not permitted(c, k): return MISS
    return wrapped('unwrapped', v) if c.p[k] and cd.there else v

def apply_(parts, is_dict=False, mode=None, mixed=False):
    def run(ex):
        a, = tracked(ex, 'a'); k = key(a)
        c = Compiled(ex, [a], is_dict, use=('dec', 'proxy'), parts={k: parts[ex.choice(len(parts))]}, mode=mode)
        if not mixed: c.full = bool(ex.choice(2))        # every collection of the configuration holds others, or none does
        al = c.alias(synonym_attrs=I.new_dict(ex)); o = Target(ex, c, [a]); cd = Codec(ex); have, d = incoming(ex, [a])
        r = result(ex, lambda: meth(ex, al, 'applyAttributes', o.o, d, **({'codec': cd.c} if cd.there else {})))
        v = filled(c, cd, k, have[k])
        expect_now(ex, c, o, r, {k: v}, c.st[k] and have[k] is MISS, 'as-permitted')
        if r[0] == 'ok': ex.cover('set' if v is not MISS else 'not set')
    return run

def synonyms(h, parts, mode):
    def run(ex):
        a, b = tracked(ex, 'a', 'b'); ka, kb = key(a), key(b)
        c = Compiled(ex, [a, b], use=('dec', 'syn'), parts={ka: parts[ex.choice(len(parts))], kb: (0, 0, 0, 1, 0)}, mode=mode); c.full = False
        c.syn[ka] = b; c.syn[kb] = (None, a)[h]
        al = c.alias(shortcuts=False, shortcut_decode=False); o = Target(ex, c, [a, b], (0,)); cd = Codec(ex, 0); have, d = incoming(ex, [a, b])
        r = result(ex, lambda: meth(ex, al, 'applyAttributes', o.o, d))
        if h: got = {ka: have[kb], kb: have[ka]}
        else: got = {ka: have[kb] if have[kb] is not MISS else have[ka], kb: MISS}
        want = {k: filled(c, cd, k, v) for k, v in got.items()}
        expect_now(ex, c, o, r, want, c.st[ka] and got[ka] is MISS, 'under-the-local-name')
        if r[0] == 'ok': ex.cover('set' if want[ka] is not MISS else 'not set')
        if not h: ex.prove(alike(N.lift(ex, d).t[kb], have[kb]) and alike(N.lift(ex, d).t[ka], have[ka]), 'the-data-is-unchanged')
    return run

STATES = [('excluded', 1, 0, 0, 0, 0), ('excluded and read-only', 1, 0, 0, 0, 1), ('static', 0, 1, 1, 1, 0), ('static and read-only', 0, 1, 1, 0, 1), ('decodable', 0, 0, 1, 1, 0), ('read-only', 0, 0, 1, 0, 1), ('neither', 0, 0, 0, 0, 0)]
MODES = ('dynamic', 'not dynamic', 'sealed class')
def lemmas(world, tier):
    CON = {q: in_scope(q) for q in (CA + '.checkClass',)}
    L_ = lambda n, f, **k: Lemma('C10.' + n, f, contracts=CON, max_paths=40000, **k)
    doc = 'an attribute is set from incoming data just if the configuration of the class permits it: never an excluded or read-only one; of a class that is not dynamic, only declared ones; every other is set to its value, unwrapped if proxied; without a static one the decoding fails and sets nothing'
    out = []
    for m in (0, 1): out.append(L_('apply_to_dict_%s' % MODES[m].replace(' ', '_'), apply_([tuple(s[1:]) for s in STATES], True, m, tier != 'quick'), doc=doc + ' (dictionaries; %s)' % MODES[m], cover=('set', 'not set', 'missing static')))
    for h, hn in enumerate(('renamed', 'swapped')):
        for m in (0, 1): out.append(L_('%s_%s' % (hn, MODES[m].replace(' ', '_')), synonyms(h, [tuple(s[1:]) for s in STATES], m), doc='the same with synonyms: an attribute is set from what the data has under its external name (%s), and the configuration is asked for the local name' % hn, cover=('set', 'not set', 'missing static')))
    for m, mn in enumerate(MODES):
        for n, *st in STATES:
            can = not st[0] and not st[4] and (m == 0 or st[3])
            out.append(L_('apply_%s_%s' % (n.replace(' ', '_').replace('-', '_'), mn.replace(' ', '_')), apply_([tuple(st)], mode=m, mixed=tier != 'quick'), doc='%s (%s; %s)' % (doc, n, mn), cover=(('set',) if can else ()) + (('missing static',) if st[1] else ('not set',))))
    return out
