from contracts.http import *

ODD = [('none',), ('num', 5), ('text', u'x'), ('empty',), ('dict',), ('obj',), ('nobody',), ('numbody',), ('textbody',), ('badheaders', None), ('badheaders', u'x'), ('badheaders', 3), ('noop',), ('ack',), ('error',), ('cmd', 999), ('cmd', 8), ('cmd', None), ('cmd', u'x')]
def g_req(r):
    k = r.randrange(12)
    via = r.randrange(2)
    if k < 4: return ('echo', via, g_scalar(r, 3) if r.randrange(2) else ('list', [g_scalar(r, 3)]))
    if k < 8: return ('boom', via, r.choice(sorted(ERRORS)))
    if k == 8: return ('miss', via, r.choice([u'nope', u'svc.zz', u'svc._priv', u'svc.data', u'', u'svc.sub.m', u'\xe9']))
    if k == 9: return ('args', via, r.choice([0, 1, 3]))
    if k == 10: return ('cmd', 1, r.choice([5, 12]))
    return ('odd', 1, r.choice(ODD))
def g_batch(r):
    return r.choice(['wsgi', 'wsgi', 'django']), r.choice([0, 3, 3]), bool(r.randrange(2)), r.choice([None, 'auth', 'pre', None]), [g_req(r) for _ in range(r.choice([1, 2, 3, 5, 8]))]

def request(q):
    """(target, body) of a request"""
    kind, via, x = q
    if kind == 'echo': args = [build(x, [])]; op = u'svc.echo'
    elif kind == 'boom': args = [unicode(x)]; op = u'svc.boom'
    elif kind == 'miss': args = []; op = x; 
    elif kind == 'args': args = [1] * x; op = u'svc.two'
    elif kind == 'cmd':
        m = messaging.CommandMessage(operation=x, messageId=u'mid'); return u'null', [m]
    else:
        k = x[0]
        M = lambda **kw: messaging.RemotingMessage(operation=u'svc.a', messageId=u'mid', **kw)
        if k == 'badheaders': m = M(body=[]); m.headers = x[1]; return u'null', [m]
        if k == 'cmd': m = messaging.CommandMessage(operation=x[1], messageId=u'mid'); return u'null', [m]
        return u'null', {'none': [None], 'num': [5], 'text': [u'x'], 'empty': [], 'dict': [{u'a': 1}], 'obj': [Plain()], 'nobody': [M(body=None)], 'numbody': [M(body=5)], 'textbody': [M(body=u'ab')],
            'noop': [messaging.RemotingMessage(body=[], messageId=u'mid')], 'ack': [messaging.AcknowledgeMessage(messageId=u'mid')], 'error': [messaging.ErrorMessage(messageId=u'mid')]}[k]
    if via == 0 and op: return op, args
    return u'null', [messaging.RemotingMessage(operation=op, body=args, messageId=u'mid', headers={u'DSId': u'ds'})]

def refusing(which):
    def f(*a):
        LOG.append((which, a)); raise ERRORS['coded']()
    return f

def check_batch(end, version, debug, guard, qs):
    cls, ask = ENDS[end]
    gw = cls({'svc': service('svc', 'class')}, debug=debug, expose_request=False, strict=True)
    if guard == 'auth': gw.authenticator = refusing('auth')
    if guard == 'pre': gw.preprocessor = refusing('pre')
    e = remoting.Envelope(version); ids = []
    for i, q in enumerate(qs):
        t, b = request(q); n = u'/%d' % (i + 1) if i != 3 else u'\xe9 %d' % i
        if version == 0 and q[1] == 1 and q[0] != 'odd': pass
        e[n] = remoting.Request(t, body=b); ids.append(n)
    data = remoting.encode(e, use_ext=False, strict=True).getvalue()
    want_args = remoting.decode(data, strict=True)
    del LOG[:]
    a = ask(gw, data)
    ensure(a.status == 200, 'status %s: %s', a.status, a.body)
    ensure(not [x for x in LOG if x[0].startswith('svc') and guard], 'service code ran: %s', LOG)
    out = remoting.decode(a.body, strict=True)
    ensure([u(n) for n in out.keys()] == ids, 'responses %s to requests %s', out.keys(), ids)
    runs = []
    for n, q in zip(ids, qs):
        r = out[n]; kind, via, x = q
        if kind in ('miss',) and not x: via = 1
        ensure(isinstance(r, remoting.Response), '%s', r)
        if via: ensure(isinstance(r.body, (messaging.AcknowledgeMessage)), 'request %s answered with %s', q, r.body)
        if via and not (kind == 'odd' and x[0] in ('none', 'num', 'text', 'empty', 'dict', 'obj')):
            ensure(r.body.correlationId == u'mid', 'request %s answered for %s', q, r.body.correlationId)
        v = verdict(r)
        if kind == 'cmd': ensure(v[0] == 'ok', '%s answered %s', q, v); continue
        if kind == 'odd':
            if x[0] in ('badheaders',) and not guard: ensure(v == ('ok', u'svc.a/0'), '%s answered %s', q, v)
            elif x[0] not in ('ack', 'error', 'textbody', 'badheaders'): ensure(v[0] == 'fault', '%s answered %s', q, v)
        elif kind == 'miss': ensure(v[0] == 'fault', '%s answered %s', q, v)
        elif guard: ensure(v == ('fault', u'My.Code'), '%s answered %s', q, v)
        elif kind == 'echo':
            runs.append('svc.echo'); ensure(v[0] == 'ok', '%s answered %s', q, v)
            d = same(build(x, []), v[1], ctx(3 if via or version == 3 else 0)); ensure(d is None, '%s: %s', q, d)
        elif kind == 'boom':
            runs.append('svc.boom'); ensure(v == ('fault', unicode(code_of(x))), '%s answered %s', q, v)
            m = {'value': u'no', 'uni': u'\xe9\u20ac', 'coded': u'c', 'noargs': u'', 'msguni': None, 'decode': u'd'}.get(x)
            if m is not None: ensure(u(r.body.faultString if via else r.body.description) == m, 'message %s', r.body)
        elif kind == 'args': ensure(v == ('fault', u'TypeError'), '%s answered %s', q, v)
        if v[0] == 'fault':
            text = [r.body.faultDetail, r.body.extendedData] if via else [r.body.details]
            for t in text:
                if debug: ensure(t, 'no stack trace with debugging on: %s', r.body)
                else: ensure(not t, 'details with debugging off: %s', t)
            if not debug: ensure('Traceback' not in repr(vars(r.body)) and 'services.py' not in repr(vars(r.body)), 'a trace with debugging off: %s', vars(r.body))
    ensure([x[0] for x in LOG if x[0] in ('svc.echo', 'svc.boom')] == runs, 'ran %s, expected %s', LOG, runs)

@contract('C16', g_batch, [('wsgi', v, d, None, [('boom', via, k) for k in sorted(ERRORS) for via in (0, 1)]) for v in (0, 3) for d in (False, True)] +
    [('django', 3, d, None, [('boom', via, k) for k in sorted(ERRORS) for via in (0, 1)]) for d in (False, True)] +
    [('wsgi', 3, False, g, [('echo', 0, ('int', 5)), ('boom', 0, 'value'), ('echo', 1, ('null',)), ('cmd', 1, 5), ('miss', 0, u'nope'), ('args', 1, 1), ('echo', 0, ('uni', u'\xe9'))]) for g in (None, 'auth', 'pre')] +
    [('wsgi', 3, d, None, [('odd', 1, x) for x in ODD]) for d in (False, True)])
def batch(case):
    """every request of a batch gets exactly one response under its identifier, in order: its own result or the fault naming its error"""
    check_batch(*case)

@contract('C16', None, ['exit', 'interrupt'])
def process_exits(kind):
    """a request to stop the process is not swallowed"""
    cls = {'exit': SystemExit, 'interrupt': KeyboardInterrupt}[kind]
    def stop(): raise cls()
    for end in ('wsgi', 'django'):
        gw = ENDS[end][0]({'stop': stop}, expose_request=False)
        for t in (u'stop', u'null'):
            e = remoting.Envelope(3); e['/1'] = remoting.Request(t, body=[] if t == u'stop' else [messaging.RemotingMessage(operation=u'stop', body=[])])
            raises(cls, ENDS[end][1], gw, remoting.encode(e).getvalue())
