"""Deductive part: for any values of the fields of the Flex messages, any subset of them set and identifiers in either form, that
the compact form reads back equal and is consumed exactly; any flag bytes, known or not, and any number of them."""
from .gw import *
from .coders import same_value
M = 'pyamf.flex.messaging.'
NAMES = ('body', 'clientId', 'destination', 'headers', 'messageId', 'timestamp', 'timeToLive')

class Log(object):
    """what was written, in order: bytes and objects.  Reading gives them back (C14.external and the lemmas of C03..C06 are
    about their encoding)"""
    def __init__(self, ex, items=(), more=None):
        self.ex = ex; self.items = list(items); self.i = 0; self.more = more; self.read = 0
        self.output = Opaque('output', (), {'getattr': self.get, 'truth': lambda *a: True}); self.input = Opaque('input', (), {'getattr': self.get, 'truth': lambda *a: True})
    def get(self, ex, o, n):
        h = {'writeUnsignedByte': self.wb, 'writeObject': self.wo, 'readUnsignedByte': self.rb, 'readObject': self.ro}.get(n)
        if h is None: raise OutOfReach('%s of a message stream' % n)
        return Opaque(n, (), {'call': h})
    def wb(self, ex, f, a, k):
        ex.prove(z3.And(as_int(a[0]) >= 0, as_int(a[0]) < 256), 'a-byte'); self.items.append(('byte', a[0])); return None
    def wo(self, ex, f, a, k): self.items.append(('object', a[0])); return None
    def next(self, kind):
        if self.i == len(self.items) and self.more is not None and kind == 'object':
            self.read += 1; return self.more(self.read - 1)
        if self.i == len(self.items): self.ex.prove(False, 'reads-what-was-written', 'past its end')
        x = self.items[self.i]; self.i += 1
        self.ex.prove(x[0] == kind, 'reads-what-was-written', 'item %d is a %s' % (self.i, x[0]))
        return x[1]
    def rb(self, ex, f, a, k): return self.next('byte')
    def ro(self, ex, f, a, k): return self.next('object')
    def done(self, name): self.ex.prove(self.i == len(self.items), name, '%d of %d' % (self.i, len(self.items)))

# ---- times: the numbers of seconds and milliseconds of a date, and back
# (named after what they are of)
def by_name(ex, x, y): return isinstance(x, Opaque) and isinstance(y, Opaque) and x.name == y.name
def is_kind(o, k): return isinstance(o, Opaque) and o.name.startswith(k + ' of ')
def of(o): return o.name.split(' of ', 1)[1]
def seconds(ex, x): return Opaque('seconds of ' + x, (), {'binop': times})
def times(ex, op, a, b):
    if is_kind(a, 'seconds') and op == 'Mult' and b == 1000.0: return Opaque('millis of ' + of(a), (), {'binop': times, 'isinstance': lambda *x: False, 'is': by_name})
    if is_kind(a, 'millis') and op == 'Div' and b == 1000.0: return seconds(ex, of(a))
    raise OutOfReach('%s of a time' % op)
def a_date(ex, name): return Opaque('date of ' + name, (), {'isinstance': lambda ex2, o, c: c in (ex2.world.T['date'], ex2.world.T['datetime'], ex2.world.T['object']), 'is': by_name, 'truth': lambda *a: True})
def a_number(ex, name): return Opaque('millis of number ' + name, (), {'binop': times, 'isinstance': lambda *x: False, 'is': by_name})
def c_timestamp(ex, f, a, k):
    if not is_kind(a[0], 'date'): return NotImplemented
    return seconds(ex, of(a[0]))
def c_datetime(ex, f, a, k):
    if not is_kind(a[0], 'seconds'): return NotImplemented
    return Opaque('date of ' + of(a[0]), (), {'isinstance': lambda *x: False})
TIMES = {'pyamf.util.get_timestamp': c_timestamp, 'pyamf.util.get_datetime': c_datetime}
CALLEE['pyamf.util.get_timestamp'] = CALLEE['pyamf.util.get_datetime'] = 'discharged by the lemmas of C04 on dates'

def a_uuid(ex, name):
    b = R.sym_str(ex, name); ex.assume(as_int(R.length(ex, b)) == 16)
    return call(ex, 'uuid.UUID', bytes=b)
def thing(ex, name):
    """any other value: true or false, not a date nor a unique identifier"""
    return Opaque('any ' + name, (), {'isinstance': lambda *a: False, 'is': by_name})
def some(ex, name):
    """a field: unset, any value, and what is treated specially"""
    if name in ('timestamp', 'timeToLive'): return [lambda: None, lambda: a_date(ex, name), lambda: a_number(ex, name)][ex.choice(3)]()
    if name in ('clientId', 'messageId', 'correlationId'): return [lambda: None, lambda: thing(ex, name), lambda: a_uuid(ex, name)][ex.choice(3)]()
    if name == 'headers': return [lambda: None, lambda: ex.heap.new(HDict()), lambda: thing(ex, name)][ex.choice(3)]()
    return [lambda: None, lambda: thing(ex, name)][ex.choice(2)]()
def set_fields(ex, o, names, **k):
    vals = {}
    for n in names: vals[n] = k[n] if n in k else some(ex, n); I.setattr_(ex, o, n, vals[n])
    return vals
def is_field(ex, o, n, v):
    got = attr(ex, o, n)
    if n == 'headers' and not I.truth(ex, v):
        # no headers, or empty ones: empty headers
        ex.prove(got is None or got is v or not isinstance(got, Opaque) and len(list(I.dict_items(ex, got))) == 0, n, repr(got)); return
    if v is None: return ex.prove(got is None, n, repr(got))
    if isinstance(v, Ref):
        ex.prove(isinstance(got, Ref) and I.class_of(ex, got) == G(ex, 'uuid.UUID'), n, repr(got))
        same_bytes(ex, attr(ex, got, 'bytes'), attr(ex, v, 'bytes'), n); return
    if n in ('timestamp', 'timeToLive'): ex.prove(is_kind(got, 'date') and of(got) == of(v), n, '%r / %r' % (got, v)); return
    ex.prove(got is v, n, '%r / %r' % (got, v))

GROUPS = (('body', 'destination', 'headers'), ('clientId', 'messageId'), ('timestamp', 'timeToLive'), NAMES)
def roundtrip(ex):
    """the fields of every message: any subset set, identifiers as such or not, times as dates or numbers"""
    g = ex.choice(4)
    def new(): return call(ex, M + 'AsyncMessageExt')
    o = new()
    if g < 3:
        # every combination within the group, the others all set, or all unset
        rest = ex.choice(2)
        k = dict((n, None if not rest else a_uuid(ex, n) if n == 'messageId' else a_date(ex, n) if n.startswith('time') else thing(ex, n)) for n in NAMES if n not in GROUPS[g])
        v = set_fields(ex, o, NAMES, **k)
    else:
        # which are set is arbitrary
        v = {}
        for n in NAMES:
            v[n] = [None, a_date(ex, n) if n.startswith('time') else thing(ex, n)][ex.choice(2)]; I.setattr_(ex, o, n, v[n])
    log = Log(ex)
    f = G(ex, M + 'AbstractMessage')
    r = result(ex, lambda: I.call(ex, I.getattr_(ex, f, '__writeamf__'), [o, log.output])); expect(ex, r, 'ok', 'write')
    for n in NAMES: ex.prove(as_bool(I.is_(ex, attr(ex, o, n), v[n])), 'message-unchanged', n)
    o2 = new()
    r = result(ex, lambda: I.call(ex, I.getattr_(ex, f, '__readamf__'), [o2, log.input])); expect(ex, r, 'ok', 'read')
    log.done('consumed-exactly')
    for n in NAMES: is_field(ex, o2, n, v[n])

AW, AR = M + 'AbstractMessage.__writeamf__', M + 'AbstractMessage.__readamf__'
def derived(ex):
    """what each kind of message adds: its correlation identifier and its operation"""
    kind = ('AsyncMessageExt', 'AcknowledgeMessageExt', 'CommandMessageExt')[ex.choice(3)]
    o = call(ex, M + kind); log = Log(ex); st = {'done': 0}
    part = Opaque('fields of every message')
    names = ('correlationId', 'operation') if kind == 'CommandMessageExt' else ('correlationId',)
    def w(ex2, f, a, k): ex2.prove(a[0] == o and a[1] is log.output, 'its-fields-first'); log.items.append(('object', part)); return None
    def r_(ex2, f, a, k): ex2.prove(a[0] == o2 and a[1] is log.input and log.next('object') is part, 'its-fields-first'); st['done'] += 1; return None
    scope(ex, **{AW: w, AR: r_})
    v = set_fields(ex, o, names)
    r = result(ex, lambda: meth(ex, o, '__writeamf__', log.output)); expect(ex, r, 'ok', 'write')
    o2 = call(ex, M + kind)
    r = result(ex, lambda: meth(ex, o2, '__readamf__', log.input)); expect(ex, r, 'ok', 'read')
    log.done('consumed-exactly'); ex.prove(st['done'] == 1, 'its-fields-once')
    for n in names: is_field(ex, o2, n, v[n])

def is_object(ex, got, i, how, name):
    """the i-th object read, as the field takes it"""
    if how == 'plain': return ex.prove(isinstance(got, Opaque) and got.name == 'object %d' % i, name, '%r, not object %d' % (got, i))
    ex.prove(is_kind(got, how) and of(got) == 'object %d' % i, name, '%r, not the %s of object %d' % (got, how, i))
def objects(ex):
    def div(ex2, op, a, b):
        if op == 'Div' and b == 1000.0: return seconds(ex2, a.name)
        raise OutOfReach('%s of a field' % op)
    return lambda i: Opaque('object %d' % i, (), {'binop': div, 'isinstance': lambda *a: False})
UU = M + 'decode_uuid'
def c_uuid(ex, f, a, k):
    if not (isinstance(a[0], Opaque) and a[0].name.startswith('object ')): return NotImplemented
    return Opaque('uuid of ' + a[0].name)
CALLEE[UU] = 'discharged by C22.roundtrip'
RF = M + 'read_flags'
def these(ex, flags):
    def h(ex2, f, a, k): return I.new_list(ex2, list(flags))
    scope(ex, **{RF: h})

def flags_base(second):
  def run(ex):
    """any flag bytes of the fields of every message: exactly the announced values are consumed, in the order of their bits, and unknown ones dropped"""
    b = ex.int('flags', lo=0).t; ex.assume(b < 128)
    first = 0
    if second: first = (0, 0x7f, 0x12)[ex.choice(3)]; these(ex, [first, mkint(b)])
    else: these(ex, [mkint(b)])
    log = Log(ex, more=objects(ex)); o = call(ex, M + 'AsyncMessageExt')
    old = {}
    for n in NAMES: old[n] = Opaque('old ' + n); I.setattr_(ex, o, n, old[n])
    r = result(ex, lambda: I.call(ex, I.getattr_(ex, G(ex, M + 'AbstractMessage'), '__readamf__'), [o, log.input])); expect(ex, r, 'ok', 'read')
    at = {}; n = 0
    for i in range(7):
        if (first >> i & 1 if second else ex.branch(b / 2**i % 2 == 1)):
            at[NAMES[i]] = (n, 'date' if i > 4 else 'plain'); n += 1
    if second:
        for i in range(7):
            if ex.branch(b / 2**i % 2 == 1):
                if i < 2: at[('clientId', 'messageId')[i]] = (n, 'uuid')
                n += 1
    ex.prove(log.read == n, 'exactly-the-announced', '%d read' % log.read)
    for nm in NAMES:
        got = attr(ex, o, nm)
        if nm not in at: ex.prove(got is old[nm], 'others-kept', nm)
        else: is_object(ex, got, at[nm][0], at[nm][1], nm)
  return run

def flags_derived(ex):
    """any flag byte of what each kind of message adds: exactly the announced values are consumed and unknown ones dropped"""
    kind = ('AsyncMessage', 'AcknowledgeMessage', 'CommandMessage')[ex.choice(3)]
    b = ex.int('flags', lo=0).t; ex.assume(b < 128)
    log = Log(ex, more=objects(ex)); o = call(ex, M + kind + 'Ext')
    I.setattr_(ex, o, 'correlationId', Opaque('old')); I.setattr_(ex, o, 'operation', Opaque('old'))
    base = M + ('AbstractMessage' if kind == 'AsyncMessage' else 'AsyncMessage') + '.__readamf__'
    scope(ex, **{base: lambda ex2, f, a, k: None})
    these(ex, [mkint(b)])
    r = result(ex, lambda: I.call(ex, I.getattr_(ex, G(ex, M + kind), '__readamf__'), [o, log.input])); expect(ex, r, 'ok', 'read')
    n = 0; at = {}
    for i in range(7):
        if not ex.branch(b / 2**i % 2 == 1): continue
        if kind == 'AsyncMessage' and i < 2: at['correlationId'] = (n, ('plain', 'uuid')[i])
        if kind == 'CommandMessage' and i == 0: at['operation'] = (n, 'plain')
        n += 1
    ex.prove(log.read == n, 'exactly-the-announced', '%d read' % log.read)
    for nm in ('correlationId', 'operation'):
        got = attr(ex, o, nm)
        if nm in at: is_object(ex, got, at[nm][0], at[nm][1], nm)
        else: ex.prove(isinstance(got, Opaque) and got.name == 'old', 'others-kept', nm)

def too_many(ex):
    """more flag bytes than the message has are refused, and no value is read"""
    kind = ('AbstractMessage', 'AsyncMessage', 'AcknowledgeMessage', 'CommandMessage')[ex.choice(4)]
    n = ex.int('more flag bytes', lo=0).t
    f = lambda j: mkint(z3.Function('flag', z3.IntSort(), z3.IntSort())(as_int(j)))
    these(ex, [f(0), f(1)] + ([f(2)] if kind == 'AbstractMessage' else []) + [L.Piece(n, lambda ex2, j: f(as_int(j) + 3), 'flags')])
    log = Log(ex); o = call(ex, M + ('AsyncMessageExt' if kind == 'AbstractMessage' else kind + 'Ext'))
    base = {'AbstractMessage': None, 'AsyncMessage': 'AbstractMessage', 'AcknowledgeMessage': 'AsyncMessage', 'CommandMessage': 'AsyncMessage'}[kind]
    if base: scope(ex, **{M + base + '.__readamf__': lambda ex2, f, a, k: None})
    r = result(ex, lambda: I.call(ex, I.getattr_(ex, G(ex, M + kind), '__readamf__'), [o, log.input])); expect(ex, r, 'DecodeError', 'refused')

class Flags(L.Inv):
    """the first k flag bytes have been read"""
    def __init__(self, own): self.own = own
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k):
        ex = self.ex; o = self.own; k = as_int(k)
        ex.assume(k <= o.n)
        o.at = tint(k)
        l = ex.heap.get(f.env.a).vars['flags']
        ex.heap.w(l.a).items[:] = [o.part(k)]
        ex.heap.w(f.env.a).vars['done'] = SymBool(k == o.n)
    def check(self, f, k):
        ex = self.ex; o = self.own; k = as_int(k)
        ex.prove(as_int(o.at) == k, 'one-at-a-time'); ex.prove(k <= o.n, 'stops-at-the-last')
        v = ex.heap.get(f.env.a).vars
        ex.prove(as_bool(v['done'] if not isinstance(v['done'], bool) else v['done']) == (k == o.n), 'until-the-last')
        o.is_flags(v['flags'], k)
    def variant(self, f): return self.own.n - as_int(self.own.at)

class read_bytes(object):
    """any number of flag bytes is read up to the one without the bit for more, which is taken off"""
    def __init__(self, ex):
        self.ex = ex
        self.n = ex.int('flag bytes', lo=1).t; self.at = 0
        log = Opaque('input', (), {'getattr': lambda ex2, o, nm: Opaque(nm, (), {'call': self.read}) if nm == 'readUnsignedByte' else MISS})
        ex.ghost['while_inv'] = (M[:-1], lambda: Flags(self))
        r = result(ex, lambda: call(ex, RF, log)); expect(ex, r, 'ok', 'read')
        ex.prove(as_int(self.at) == self.n, 'all-of-them'); self.is_flags(r[1], self.n)
    def value(self, j): return z3.Function('flag', z3.IntSort(), z3.IntSort())(as_int(j))
    def read(self, ex, f, a, k):
        j = as_int(self.at); ex.prove(j < self.n, 'stops-at-the-last'); self.at = tint(j + 1)
        v = self.value(j); ex.assume(z3.And(v >= 0, v < 128))
        return mkint(z3.If(j < self.n - 1, v + 128, v))
    def part(self, k):
        p = L.Piece(tint(k), lambda ex, j: mkint(self.value(j)), 'flags'); return p
    def is_flags(self, l, k):
        ex = self.ex; at = 0
        for x in ex.heap.get(l.a).items:
            if I.is_piece(x): ex.prove(isinstance(at, int) and at == 0, 'flags-in-order'); at = as_int(x.n)
            else: ex.prove(as_int(x) == self.value(at), 'flags-in-order', repr(x)); at = as_int(at) + 1
        ex.prove(as_int(at) == as_int(k), 'flags-in-order', 'count')

def small(ex):
    """the small form of a message has its fields, and is the registered external class of its kind"""
    kind, alias = (('AsyncMessage', b'DSA'), ('AcknowledgeMessage', b'DSK'), ('CommandMessage', b'DSC'))[ex.choice(3)]
    o = call(ex, M + kind)
    names = NAMES + ('correlationId',) + (('operation',) if kind == 'CommandMessage' else ())
    v = {}
    for n in names: v[n] = Opaque('value of ' + n, (), {'truth': lambda *a: True}); I.setattr_(ex, o, n, v[n])
    r = result(ex, lambda: meth(ex, o, 'getSmallMessage')); expect(ex, r, 'ok', 'small')
    ex.prove(I.class_of(ex, r[1]) == G(ex, M + kind + 'Ext'), 'its-kind')
    for n in names: ex.prove(attr(ex, r[1], n) is v[n], 'same-' + n)
    a = call(ex, 'pyamf.get_class_alias', I.class_of(ex, r[1]))
    same_bytes(ex, attr(ex, a, 'alias'), alias.decode() if R.is_uni(attr(ex, a, 'alias')) else alias, 'alias'); meth(ex, a, 'compile'); ex.prove(attr(ex, a, 'external') is True, 'external')
    u = ('AbstractMessage', 'ErrorMessage')[ex.choice(2)]
    r = result(ex, lambda: meth(ex, call(ex, M + u), 'getSmallMessage')); expect(ex, r, 'NotImplementedError', 'no-small-form')

def lemmas(world, tier):
    CON = {q: in_scope(q) for q in (AW, AR, M + 'AsyncMessage.__readamf__', RF)}; CON.update(TIMES)
    L_ = lambda n, f, **k: Lemma('C22.' + n, f, contracts=k.pop('contracts', CON), **k)
    CU = dict(CON); CU[UU] = c_uuid
    return [L_('roundtrip', roundtrip), L_('derived', derived), L_('flags', flags_base(False), contracts=CU), L_('uuid_flags', flags_base(True), contracts=CU), L_('derived_flags', flags_derived, contracts=CU),
            L_('too_many', too_many), L_('read_flags', read_bytes), L_('small', small)]
CALLEE[AW] = CALLEE[AR] = 'discharged by C22.roundtrip'
CALLEE[M + 'AsyncMessage.__readamf__'] = 'discharged by C22.derived and derived_flags'
CALLEE[RF] = 'discharged by C22.read_flags'
