from contracts.services import *

def check(ss, gw, target, via, args):
    want = expected(ss, target)
    del LOG[:]
    if via == 0: resp = process(gw, amf0_request(target, args))
    elif via == 1: resp = process(gw, amf3_request(None, target, args))
    else:
        i = target.rfind(u'.')
        if i <= 0: return
        resp = process(gw, amf3_request(target[:i], target[i + 1:], args))
    got = verdict(resp)
    if want[0] == 'call':
        ensure(got == ('ok', u'%s/%d' % (want[1], len(args))), '%s (%s) gave %s', target, ss, got)
        ensure(LOG == [(want[1], tuple(args))], '%s called %s', target, LOG)
    else:
        ensure(got[0] == 'fault' and (want[1] is None or got[1] == want[1]), '%s (%s) gave %s, expected %s', target, ss, got, want)
        ensure(LOG == [], '%s called %s', target, LOG)

def g_reach(r):
    ss = g_services(r)
    return sorted(ss.items()), [(g_target(r, ss), r.randrange(3), [r.randrange(9) for _ in range(r.randrange(3))]) for _ in range(8)]
ALL = [(n + u'.' + m, v, []) for n in (u'svc',) for m in METHS for v in (0, 1, 2)] + [(m, v, [1]) for m in METHS + NAMES if m and m != u'null' for v in (0, 1)]
@contract('C14', g_reach, [([(u'svc', k)], ALL if k == 'instance' else ALL[i % 4::4]) for i, k in enumerate(KINDS)] + [([(u'svc', k)], [(t, v, []) for t in odd_targets(u'svc') for v in ((0, 1, 2) if k == 'instance' else (0,))]) for k in ('instance', 'module', 'class')] + [([(u'', 'instance'), (u'a.b', 'class')], ALL[::3] + [(u'.a', 0, []), (u'a', 1, []), (u'a.b.a', 2, [])]),
    ([(u'svc', 'module'), (u'svc.a', 'func'), (u'svc.a.b', 'class')], ALL[1::3] + [(u'svc.a', 0, [1]), (u'svc.a', 2, [1]), (u'svc.a.b.a', 0, []), (u'svc.a.b.a', 2, [])])], weight=3)
def reach(case):
    """a target reaches exactly the service or the service method it names; anything else is a fault and runs nothing"""
    ss, targets = case
    gw = gateway.BaseGateway(dict((n, service(n, k)) for n, k in ss))
    for t, v, a in targets:
        if not t or t == u'null': v = 1
        if t and t.split(u'.')[-1] in ('two', 'boom', 'echo'): continue
        check(dict(ss), gw, t, v, a)

def g_reg(r): return [(r.choice(['add', 'add', 'remove', 'call']), r.choice([u'svc', u'svc.a', u'other', u'a', u'']), r.choice(KINDS + ('bad',)), r.choice([5, 5L, 1.5, 'x', u'x', True])) for _ in range(r.randrange(2, 14))]
@contract('C14', g_reg, weight=3, corner= [[('add', u'svc', 'class', 5), ('add', u'svc', 'func', 5), ('call', u'svc', 'class', 5), ('remove', u'svc', 'class', 5), ('call', u'svc', 'class', 5), ('remove', u'svc', 'class', 5), ('add', u'svc', 'func', 5)],
    [('add', u'a', 'func', 5), ('add', u'svc', 'func', 5), ('add', u'other', 'class', 5), ('remove', u'svc', 'func', 5)], [('add', u'a', 'bad', v) for v in (0, 1L, 0.0, '', u'', False, 'abc')]])
def registration(ops):
    """duplicate names and values that are no services are refused without effect; a removed service is gone, the others stay"""
    gw = gateway.BaseGateway(); model = {}; objs = {}
    for op, n, kind, bad in ops:
        if op == 'add' and kind == 'bad': raises(TypeError, gw.addService, bad, n)
        elif op == 'add':
            s = service(n, kind)
            if n in model: raises(remoting.RemotingError, gw.addService, s, n)
            else: gw.addService(s, n); model[n] = kind; objs[n] = s
        elif op == 'remove':
            key = n if kind in ('class', 'func') else objs.get(n, n)
            if n in model: gw.removeService(key); del model[n]; del objs[n]
            else: raises(NameError, gw.removeService, key)
        ensure(sorted(gw.services.keys()) == sorted(model), 'services %s, expected %s', gw.services.keys(), model)
        for k in model: ensure(gw.services[k].service == objs[k] and k in gw.services, 'service %s', k)
        for t in (u'svc', u'svc.a', u'other.a', u'a', u'other', u'svc.a.ab', u'.a'):
            for v in ((0, 1) if t == u'svc' else (0,)): check(model, gw, t, v, [1])

@contract('C14', lambda r: [(r.choice(NAMES), r.choice(KINDS)) for _ in range(r.randrange(1, 5))], [[(u'svc', 'class')]], limit=150)
def construct(ss):
    """the services given on construction are the registered ones; a default name is the service's own"""
    ss = dict(ss)
    gw = gateway.BaseGateway(dict((n, service(n, k)) for n, k in ss.items()))
    ensure(sorted(gw.services.keys()) == sorted(ss), 'services %s', gw.services.keys())
    g2 = gateway.BaseGateway()
    class Named(object): pass
    class OldNamed: pass
    def fun(): pass
    for s, n in ((Named, 'Named'), (OldNamed, 'OldNamed'), (fun, 'fun'), (types, 'types')):
        g2.addService(s); ensure(n in g2.services and g2.services[n].service is s, 'default name of %s: %s', s, g2.services.keys())
        raises(remoting.RemotingError, g2.addService, s)
    raises(TypeError, gateway.BaseGateway, [1])
    raises(TypeError, gateway.BaseGateway, None, nonsense=1)
    raises(TypeError, gateway.BaseGateway, {'x': 5})

@contract('C14', lambda r: (r.choice(KINDS), r.choice(CALLABLE + ('_priv', 'missing', 'data')), r.randrange(4), bool(r.randrange(2)), r.randrange(2)), [('class', 'two', n, e, v) for n in range(4) for e in (False, True) for v in (0, 1)], limit=400)
def arguments(case):
    """the arguments arrive in order and unchanged, with the raw request first only if the service asks for it"""
    kind, m, n, ex, via = case
    if kind in ('func', 'lambda', 'method', 'module') or m in ('boom', 'echo'): return
    gw = gateway.BaseGateway({'svc': service('svc', kind)}, expose_request=ex)
    args = [object() for _ in range(n)]; http = object()
    del LOG[:]
    req = amf0_request(u'svc.' + m, args) if via == 0 else amf3_request(u'svc', m, args)
    if via == 1: req.body[0].body = args
    got = verdict(process(gw, req, http))
    want = ([http] if ex else []) + args
    if m in CALLABLE and (m != 'two' or len(want) == 2):
        ensure(LOG == [('svc.' + m, tuple(want))] and got[0] == 'ok', '%s -> %s %s', want, LOG, got)
    else: ensure(LOG == [] and got[0] == 'fault', '%s %s', LOG, got)
