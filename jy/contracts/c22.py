from contracts.graphs import *
import uuid
from pyamf.flex import messaging

FULL = {'async': messaging.AsyncMessage, 'ack': messaging.AcknowledgeMessage, 'command': messaging.CommandMessage}
SMALL = {'async': messaging.AsyncMessageExt, 'ack': messaging.AcknowledgeMessageExt, 'command': messaging.CommandMessageExt}
ALIAS = {'async': 'DSA', 'ack': 'DSK', 'command': 'DSC'}
FIELDS = ['body', 'clientId', 'destination', 'headers', 'messageId', 'timestamp', 'timeToLive', 'correlationId', 'operation']
MS = ['timestamp', 'timeToLive']

U1 = ('uuid', '\x00\x01\x02\x03' * 4); U2 = ('uuid', '\xff' * 16); U3 = ('uuid', '\x78\x9c' + 'u' * 14); U4 = ('uuid', '\x78\xda' + 'u' * 14)
def g_id(r):
    k = r.randrange(5)
    if k == 0: return ('uuid', ''.join(chr(r.randrange(256)) for _ in range(16)))
    if k == 1: return ('uni', g_uni(r))
    return r.choice([U1, U2, U3, U4, ('uni', u''), ('uni', u'AB-1'), ('uni', u'\xe9'), ('int', 0), ('int', 7)])
def g_field(r, f):
    if r.randrange(10) == 0: return ('null',)
    if f in ('clientId', 'messageId', 'correlationId'): return g_id(r)
    if f in MS:
        return r.choice([('int', 0), ('int', g_int(r, 0, 2**44)), g_date(r), ('float', pk(float(r.randrange(2**41)))), ('int', r.randrange(2**41))])
    if f == 'operation': return ('int', r.choice([0, 1, 2, 4, 5, 7, 8, 9, 10, 12, 1000]))
    if f == 'headers': return r.choice([('dict', []), ('dict', [('DSId', ('uni', u'nil'))]), ('dict', [(g_name(r, 3), g_scalar(r, 3))]), ('null',)])
    if f == 'destination': return r.choice([('uni', u''), ('uni', u'dest'), ('uni', g_uni(r))])
    return r.choice([('bool', False), ('int', 0), ('uni', u''), ('list', []), g_val(r, 3, 2)])
def g_msg(r):
    k = r.choice(sorted(FULL))
    fs = [f for f in FIELDS if r.randrange(2) and (f != 'operation' or k == 'command')]
    return k, [(f, g_field(r, f)) for f in fs], r.randrange(3)

def value(d):
    return uuid.UUID(bytes=d[1]) if d[0] == 'uuid' else build(d, [])
def as_date(f, d, v):
    """what a timestamp or time to live reads back as"""
    if isinstance(v, datetime.datetime): return v
    if isinstance(v, datetime.date): return datetime.datetime(v.year, v.month, v.day)
    if v is None: return None
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=v)

def check_fields(kind, given, got):
    for f in FIELDS:
        if f == 'operation' and kind != 'command': continue
        d = given.get(f, ('null',)); v = value(d); g = getattr(got, f)
        if f == 'headers':
            ensure(g is not None or v is None, 'headers became %s', g)
            v = v or {}; g = g or {}
            x = same(dict(v), g if isinstance(g, pyamf.ASObject) else pyamf.ASObject(g), ctx(3))
            ensure(x is None, 'headers: %s', x)
        elif isinstance(v, uuid.UUID): ensure(isinstance(g, uuid.UUID) and g == v, '%s: %s became %s', f, v, g)
        elif f in MS:
            w = as_date(f, d, v)
            if w is None: ensure(g is None, '%s became %s', f, g)
            else: ensure(isinstance(g, datetime.datetime) and abs(g - w) <= datetime.timedelta(microseconds=100), '%s: %s became %s', f, w, g)
        else:
            x = same(v, g, ctx(3)); ensure(x is None, '%s: %s', f, x)

def make(kind, fs):
    return FULL[kind](**dict((f, value(d)) for f, d in fs))

ALL = [('body', ('uni', u'b')), ('clientId', ('uni', u'c')), ('destination', ('uni', u'd')), ('headers', ('dict', [('h', ('int', 1))])), ('messageId', ('uni', u'm')), ('timestamp', ('date', (2010, 1, 2, 3, 4, 5, 6000))), ('timeToLive', ('date', (1970, 1, 1, 0, 0, 1, 0))), ('correlationId', ('uni', u'k')), ('operation', ('int', 5))]
def for_kind(k, fs): return [x for x in fs if x[0] != 'operation' or k == 'command']
CORNER = [(k, [], 0) for k in FULL] + [(k, for_kind(k, [x]), 0) for k in FULL for x in ALL] + [(k, for_kind(k, ALL), n) for k in FULL for n in (0, 1, 2)] + [
    (k, for_kind(k, [x for x in ALL if x is not y]), 0) for k in FULL for y in ALL] + [
    (k, for_kind(k, [(f, ('null',)) for f in FIELDS]), 0) for k in FULL] + [
    ('async', [('messageId', ('uuid', 'x\x9c3426153\xb7\x00\x00\x07@\x01\xa5'))], 0)] + [
    (k, [(f, u) for f in ids], 0) for k in FULL for u in (U1, U2, U3, U4, ('uni', u''), ('int', 0)) for ids in (['clientId'], ['messageId'], ['correlationId'], ['clientId', 'messageId'], ['clientId', 'messageId', 'correlationId'])] + [
    (k, [('body', v), ('operation', ('int', 0))][:2 if k == 'command' else 1], 0) for k in FULL for v in [('bool', False), ('int', 0), ('uni', u''), ('list', []), ('dict', []), ('undef',)]] + [
    (k, [(f, v)], 0) for k in FULL for f in MS for v in [('int', 0), ('int', 1000), ('int', 2**41), ('float', pk(0.0)), ('day', (1999, 12, 31)), ('date', (1969, 12, 31, 23, 59, 59, 0)), ('date', (1970, 1, 1, 0, 0, 0, 0))]] + [
    ('command', [('operation', ('int', n))], 0) for n in (0, 1, 5, 1000)]

@contract('C22', g_msg, CORNER, weight=3)
def compact(case):
    """a message's compact form, written and read back, has the same fields, and what follows it is untouched"""
    kind, fs, times = case
    m = make(kind, fs)
    before = dict(vars(m))
    s = m.getSmallMessage()
    ensure(type(s) is SMALL[kind], '%s has the small message %s', kind, s)
    ensure(vars(m) == before, 'the message changed')
    n = 1 + times
    out = decoder(3, encode(*([s] * n + [u'end']), encoding=3).getvalue())
    got = [out.readElement() for _ in range(n)]
    ensure(out.readElement() == u'end' and out.stream.at_eof(), 'what follows the message moved')
    for g in got: ensure(g is got[0], 'a message sent twice is two messages')
    ensure(type(got[0]) is SMALL[kind], '%s came back as %s', kind, got[0])
    check_fields(kind, dict(fs), got[0])

@contract('C22', g_msg, CORNER[:40])
def full(case):
    """the ordinary form of a message has the same fields"""
    kind, fs, times = case
    fs = [(f, d) for f, d in fs if d[0] != 'uuid' and f not in MS]
    m = make(kind, fs)
    g = decoder(3, encode(m, encoding=3).getvalue()).readElement()
    ensure(type(g) is FULL[kind], '%s', g)
    check_fields(kind, dict(fs), g)

# the compact layout, written by hand: flag bytes, then one value for each flag
def layout(kind, base, ids, corr, tail, extra):
    """bytes of a compact message; base/ids: {bit: value}; corr: value or ('uuid', ..) or absent; extra: (position, bits) of unknown fields"""
    st = BufferedByteStream(); e = encoder(3, stream=st)
    def w(v): e.writeElement(v)
    ex = dict(extra)
    st.write('\x0a\x07'); e.serialiseString(ALIAS[kind])
    b1 = sum(base); b2 = sum(ids) | ex.get('ids', 0)
    if b2: st.write(chr(b1 | 0x80) + chr(b2))
    else: st.write(chr(b1))
    from pyamf import amf3 as a3
    for b in sorted(base): w(base[b])
    for b in (1, 2):
        if b in ids: w(a3.ByteArray(ids[b]))
    for b in (4, 8, 16, 32, 64):
        if b2 & b: w([u'unknown', b])
    c = 0
    if corr is not None: c = 2 if corr[0] == 'uuid' else 1
    c |= ex.get('corr', 0)
    st.write(chr(c))
    if corr is not None: w(a3.ByteArray(corr[1]) if corr[0] == 'uuid' else corr[1])
    for b in (4, 8, 16, 32, 64):
        if c & b: w([u'unknown', [b]])
    if kind == 'ack':
        t = ex.get('tail', 0); st.write(chr(t))
        for b in (1, 2, 4, 8, 16, 32, 64):
            if t & b: w(u'unknown%d' % b)
    if kind == 'command':
        t = ex.get('tail', 0) & ~1 | (tail is not None); st.write(chr(t))
        if tail is not None: w(tail)
        for b in (2, 4, 8, 16, 32, 64):
            if t & b: w(None)
    w(u'end')
    return st.getvalue()

def g_lay(r):
    k = r.choice(sorted(FULL))
    base = dict((1 << i, [u'B', u'C', u'D', {u'h': 1}, u'M', 5000, 7000][i]) for i in range(7) if r.randrange(2))
    ids = dict((b, ''.join(chr(r.randrange(256)) for _ in range(16))) for b in (1, 2) if r.randrange(3) == 0)
    corr = r.choice([None, ('text', u'K'), ('uuid', '\x07' * 16)])
    bits = lambda: r.choice([0, 0, 1 << r.randrange(2, 7), r.randrange(128) & ~3])
    return k, sorted(base.items()), sorted(ids.items()), corr, r.choice([None, 0, 5]), [('ids', bits()), ('corr', bits()), ('tail', r.choice([bits(), r.randrange(128)]))]

@contract('C22', g_lay, [(k, [], [], None, None, [(w, b)]) for k in FULL for w in ('ids', 'corr', 'tail') for b in [1 << i for i in range(2, 7)] + [0x7c, 0x54]] +
    [(k, [(1, u'B'), (16, u'M')], [(1, 'x' * 16), (2, 'y' * 16)], ('uuid', 'z' * 16), 5, [('ids', 4), ('corr', 0x44), ('tail', 0x42)]) for k in FULL] + [('ack', [], [], None, None, [('tail', 1)]), ('ack', [(1, u'B')], [], ('text', u'K'), None, [('tail', 3)])], weight=2)
def unknown_fields(case):
    """a flag for an unknown field has its value skipped; each known flag's value goes to its own field"""
    kind, base, ids, corr, tail, extra = case
    base = dict(base); ids = dict(ids)
    d = decoder(3, layout(kind, base, ids, corr, tail, extra))
    g = d.readElement()
    ensure(type(g) is SMALL[kind], '%s', g)
    ensure(d.readElement() == u'end' and d.stream.at_eof(), 'what follows the message moved: %s', g)
    names = ['body', 'clientId', 'destination', 'headers', 'messageId', 'timestamp', 'timeToLive']
    want = dict((names[i], base[1 << i]) for i in range(7) if 1 << i in base)
    for f in MS:
        if f in want: want[f] = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=want[f])
    if 1 in ids: want['clientId'] = uuid.UUID(bytes=ids[1])
    if 2 in ids: want['messageId'] = uuid.UUID(bytes=ids[2])
    if corr: want['correlationId'] = uuid.UUID(bytes=corr[1]) if corr[0] == 'uuid' else corr[1]
    if kind == 'command' and tail is not None: want['operation'] = tail
    for f in FIELDS:
        if f == 'operation' and kind != 'command': continue
        v = getattr(g, f)
        if f not in want: ensure(not v if f == 'headers' else v is None, '%s is %s', f, v)
        else: ensure(v == want[f], '%s is %s, expected %s', f, v, want[f])

@contract('C22', None, [(k, w) for k in FULL for w in ('base', 'corr', 'tail')])
def too_many_flags(case):
    """more flag bytes than a version can have are refused"""
    kind, where = case
    if kind == 'async' and where == 'tail': return
    b = '\x0a\x07\x07' + ALIAS[kind]
    b += {'base': '\x80\x80\x00' + '\x00\x00', 'corr': '\x00' + '\x80\x00' + '\x00', 'tail': '\x00\x00' + '\x80\x00'}[where]
    raises(pyamf.DecodeError, decoder(3, b).readElement)

@contract('C22', None, [(k, n) for k in FULL for n in range(1, 8)])
def cut(case):
    """a compact message cut short is not delivered"""
    kind, n = case
    m = make(kind, for_kind(kind, ALL)).getSmallMessage()
    b = encode(m, encoding=3).getvalue()
    for k in range(n, len(b), 7): raises((pyamf.DecodeError, IOError), decoder(3, b[:k]).readElement)
