# Class configurations, described by literals, and what they mean (independently of pyamf.alias).
from vals import *
from pyamf import flex

NAMES = ['a', 'b', 'c', 'd', 'e']
def g_spec(r, i, isdict):
    pick = lambda names, n: sorted(set(r.choice(names) for _ in range(r.randrange(0, n + 1))))
    slots = ['s%d' % i, 't%d' % i] if not isdict and r.randrange(6) == 0 else None
    props = {}
    if not isdict:
        for p in ('p%d' % i, 'q%d' % i):
            if r.randrange(4) == 0: props[p] = r.choice(['rw', 'rw', 'r', 'w'])
    names = NAMES + sorted(props) + (slots or [])
    spec = {}
    if r.randrange(2): spec['static'] = pick(NAMES + [p for p in props if props[p] != 'w'] + (slots or []), 3)
    if r.randrange(2): spec['exclude'] = pick(names, 2)
    if r.randrange(3) == 0: spec['readonly'] = pick(names, 2)
    if r.randrange(3) == 0: spec['dynamic'] = bool(r.randrange(2))
    if r.randrange(3) == 0:
        k = r.randrange(3)
        spec['synonym'] = {r.choice(names): 'X'} if k == 0 else {'a': 'X', 'b': 'Y'} if k == 1 else {'a': 'b', 'b': 'a'}
    if r.randrange(5) == 0: spec['proxy'] = pick(NAMES, 2)
    return {'amf': spec, 'slots': slots, 'props': props, 'dict': isdict, 'obj': bool(r.randrange(2))}

def g_class(r):
    isdict = r.randrange(6) == 0
    return [g_spec(r, i, isdict) for i in range(r.choice([1, 1, 1, 2, 2, 3]))]

def make(specs):
    """the classes, base first"""
    out = []
    base = dict if specs[0]['dict'] else object
    for i, s in enumerate(specs):
        ns = {}
        if s['slots'] is not None: ns['__slots__'] = list(s['slots'])
        for p, k in s['props'].items():
            g = lambda self, p=p: self.__dict__.get('_' + p)
            def st(self, v, p=p): self.__dict__['_' + p] = v
            ns[p] = property(g if 'r' in k else None, st if 'w' in k else None)
        amf = dict(s['amf'])
        if amf or i == 0:
            # a class with no setting of its own must not see its base's
            pass
        ns['__amf__'] = amf if not s['obj'] else type('__amf__', (), dict(amf))
        base = type('K%d' % i, (base,), ns)
        out.append(base)
    return out

class Eff(object): pass
def effective(specs):
    e = Eff()
    e.exclude = set(); e.readonly = set(); static = set(); e.proxy = set(); e.syn = {}; enc = set(); dec = set()
    sealed = False; dyn = True
    allslots = True
    for i, s in enumerate(specs):
        a = s['amf']
        e.exclude |= set(a.get('exclude', ())); e.readonly |= set(a.get('readonly', ())); static |= set(a.get('static', ()))
        e.proxy |= set(a.get('proxy', ())); e.syn.update(a.get('synonym', {}))
        if s['slots'] is not None: enc |= set(s['slots']); dec |= set(s['slots'])
        for p, k in s['props'].items():
            if 'r' in k: enc.add(p)
            if 'w' in k: dec.add(p)
            else: e.readonly.add(p)
        allslots = allslots and s['slots'] is not None
        nowsealed = allslots and not s['dict']
        d = a.get('dynamic')
        if d is None:
            d = dyn if i else True
            if i and not dyn and not nowsealed and sealed: d = True
        if nowsealed: d = False
        dyn = d; sealed = nowsealed
    e.static = sorted(static - e.exclude)
    e.dynamic = dyn; e.sealed = sealed
    e.encodable = (enc | static) - e.exclude
    e.decodable = (dec | static) - e.exclude - e.readonly
    e.isdict = specs[0]['dict']
    e.enc_props = enc
    return e

def forget(ks):
    for k in ks + [dict]:
        try: pyamf.unregister_class(k)
        except (pyamf.UnknownClassAlias, KeyError): pass
    pyamf.CLASS_CACHE.pop('k.K', None)
