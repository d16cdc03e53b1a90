"""Whole envelopes: any number of headers and messages, over the contracts of writing and reading one of them."""
from .gw import *
from .elements import *
WH, RH, WB, RB = (RM + n for n in ('_write_header', '_read_header', '_write_body', '_read_body'))
HC = RM + 'HeaderCollection.'
CLEAR = CODEC + 'IndexedCollection.clear'

def c_clear(ex, f, a, k):
    t = tab(ex, a[0])
    if t is None: return NotImplemented
    tab_put(ex, a[0], 0, ())
    return None
CALLEE[CLEAR] = 'discharged by the lemmas of C08 over the real representation'
for q, l in ((WH, 'C12.write_header'), (RH, 'C12.read_header'), (WB, 'C12.write_request, C12.write_response'), (RB, 'C12.read_request, C12.read_response')): CALLEE[q] = 'discharged by ' + l
CALLEE[HC + 'is_required'] = CALLEE[HC + 'set_required'] = 'discharged by C12.flags'
CALLEE[RM + 'Envelope.__setitem__'] = 'discharged by C16.set_new'
CALLEE['pyamf.get_encoder'] = CALLEE['pyamf.get_decoder'] = 'discharged by C12.codecs'

def bind(a, k, names, **default):
    d = dict(zip(names, a)); d.update(k)
    for n, v in default.items(): d.setdefault(n, v)
    return reach('the arguments', lambda: [d[n] for n in names])

class Parts(Els):
    """headers or messages, each one chunk of bytes"""
    def rope_item(self, ex, k): return [R.whole(self.chunk(ex, k))]
    def minsize(self): return 1
    def cnt(self, ex, w, k):
        c = count_fn(w, self.id)(as_int(k)); ex.assume(c >= 0); return as_int(c)
    def chunk(self, ex, k): return R.Atom(ex, self.id + '.enc', (as_int(k),), 'b', None, ('enc', 'part', self.whole, as_int(k)), 1)

class Headers(WriteLoop): pass
class Each(WriteLoop):
    """messages: the tables are whatever the message before has left"""
    def put_tables(self, k): self.els.packet.used()
    def check_tables(self, k): pass

class ReadHeaders(ReadLoop):
    def put(self, f, k): self.els.packet.reached(self.els, k, 'assume'); self.els.packet.have_headers(k)
    def test(self, f, k): self.els.packet.reached(self.els, k, 'prove'); self.els.packet.headers_are(k)
class ReadBodies(ReadLoop):
    def put(self, f, k): self.els.packet.reached(self.els, k, 'assume'); self.els.packet.have_bodies(k)
    def test(self, f, k): self.els.packet.reached(self.els, k, 'prove'); self.els.packet.bodies_are(k)
    put_tables = Each.put_tables
    check_tables = Each.check_tables

class Packet(object):
    amf = 0
    def __init__(self, ex, write):
        self.ex = ex
        self.h = Parts(ex, 'header', 'u'); self.b = Parts(ex, 'message', 'u')
        for e, l in ((self.h, Headers if write else ReadHeaders), (self.b, Each if write else ReadBodies)):
            ex.assume(e.n < 65536); e.codec = self; e.packet = self; e.inv = (lambda e, l: lambda lo=0: WriteAt(l, e, lo, write))(e, l)
        self.version = ex.int('version', 0, 65535).t
        self.strict = bool(ex.choice(2)); self.tz = [None, Opaque('offset')][ex.choice(2)]
        self.embedded = 0; self.seen = {}
        self.st = None; self.stop = None     # (headers or messages, which of them the data ends in)
        scope(ex, **{WH: self.c_write_header, WB: self.c_write_body, RH: self.c_read_header, RB: self.c_read_body,
                     'pyamf.get_encoder': self.c_codec('Encoder'), 'pyamf.get_decoder': self.c_codec('Decoder'),
                     HC + 'is_required': self.c_is_required, HC + 'set_required': self.c_set_required, RM + 'Envelope.__setitem__': self.c_set})
        if not write: ex.ghost['range_for'] = self.loop_of
    def loop_of(self, piece):
        for e in (self.h, self.b):
            if self.ex.valid(as_int(piece.count(self.ex)) == e.n): return e.inv()
        return None
    def flag(self, j): return z3.Function('must understand:' + self.h.id, z3.IntSort(), z3.BoolSort())(as_int(j))
    def reached(self, els, k, how):
        """of data cut off inside a header or message, no more than those before it are ever read"""
        if self.stop is None or self.stop[0] is not els: return
        c = as_int(k) <= self.stop[1]
        if how == 'assume': self.ex.assume(c)
        else: self.ex.prove(c, 'read-beyond-the-end')
    # -- the codec
    def c_codec(self, what):
        def c(ex, f, a, k):
            a = list(a)
            ex.prove(len(a) in (1, 2), 'codec-arguments', repr(a))
            same_value(ex, a[0], 0, 'an-AMF0-' + what)
            st = a[1] if len(a) > 1 else k.pop('stream', None)
            ex.prove(isinstance(st, Ref), 'over-the-stream')
            if self.st is not None: ex.prove(st == self.st, 'over-the-stream')
            self.st = st
            ex.prove(set(k) <= {'strict', 'timezone_offset'}, 'codec-options', repr(sorted(k)))
            ex.prove(I.truth(ex, k.get('strict', False)) == self.strict, 'codec-strict'); ex.prove(k.get('timezone_offset') is self.tz, 'codec-timezone')
            self.e = call(ex, 'pyamf.amf0.' + what, st, **k)
            self.ctx = attr(ex, self.e, 'context'); self.objs = attr(ex, self.ctx, '_objects')
            abstract_table(ex, self.objs); tab_put(ex, self.objs, 0, ())
            return self.e
        return c
    def used(self):
        """the state of the codec after an arbitrary message: any table, perhaps an embedded AMF3 codec"""
        ex = self.ex
        tab_put(ex, self.objs, ex.int('used', lo=0).t, ())
        x = ex.heap.new(HDict())
        self.cleared = False
        if ex.choice(2):
            def clear(ex2, f, a, k): self.cleared = True
            ctx = Opaque('embedded context', (), {'getattr': lambda ex2, o, n: Opaque('clear', (), {'call': clear}) if n == 'clear' else MISS})
            c = Opaque('embedded codec', (), {'getattr': lambda ex2, o, n: ctx if n == 'context' else MISS, 'truth': lambda *a: True})
            for n in ('amf3_encoder', 'amf3_decoder'): I.dict_set(ex, x, n.encode(), c)
        I.setattr_(ex, self.ctx, 'extra', x)
    def empty(self, c):
        """obligation: this message starts with empty tables, those of embedded AMF3 included"""
        ex = self.ex
        ex.prove(c == self.e, 'by-the-codec')
        t = tab(ex, attr(ex, attr(ex, c, 'context'), '_objects'))
        ex.prove(as_int(t.n) == 0 if t is not None else False, 'starts-with-empty-tables')
        x = ex.heap.get(I.as_dict(ex, attr(ex, attr(ex, c, 'context'), 'extra')).a)
        ex.prove(x.base is None and (not x.ent or self.cleared), 'starts-with-no-embedded-tables', repr(x.ent))
        self.amf3(c)
    def amf3(self, c): self.ex.prove(I.truth(self.ex, attr(self.ex, c, 'use_amf3')) == self.ex.branch(self.version == 3), 'embeds-AMF3-in-version-3-only')
    def grow(self, els, j):
        ex = self.ex
        for w in els.tables(): grow(ex, self.objs, els.cnt(ex, w, j))
    # -- writing
    def c_write_header(self, ex, f, a, k):
        name, v, req, st, e, strict = bind(a, k, ('name', 'header', 'required', 'stream', 'encoder', 'strict'), strict=False)
        j = v.props['elem'][1]; ex.prove(v.props['elem'][0] is self.h, 'a-header')
        same_bytes(ex, name, self.h.name(ex, j), 'header-name'); ex.prove((as_int(req) != 0) == self.flag(j), 'header-flag')
        ex.prove(st == self.st and e == self.e and I.truth(ex, strict) == self.strict, 'header-codec')
        self.amf3(e)
        meth(ex, st, 'write', R.atom_rope(self.h.chunk(ex, j))); self.grow(self.h, j)
    def c_write_body(self, ex, f, a, k):
        name, m, st, e, strict = bind(a, k, ('name', 'message', 'stream', 'encoder', 'strict'), strict=False)
        j = m.props['elem'][1]; ex.prove(m.props['elem'][0] is self.b, 'a-message')
        same_bytes(ex, name, self.b.name(ex, j), 'message-identifier')
        ex.prove(st == self.st and I.truth(ex, strict) == self.strict, 'message-codec')
        self.empty(e)
        meth(ex, st, 'write', R.atom_rope(self.b.chunk(ex, j))); self.grow(self.b, j)
    def c_is_required(self, ex, f, a, k):
        j = self.h.is_name(ex, a[1])
        if j is None: raise OutOfReach('is_required of %r' % (a[1],))
        return SymBool(self.flag(j))
    def write(self):
        ex = self.ex
        env = call(ex, RM + 'Envelope', mkint(self.version))
        def put():
            hs = attr(ex, env, 'headers')
            ex.heap.w(I.as_dict(ex, hs).a).base = Seq(self.h)
            ex.heap.w(I.as_list(ex, attr(ex, env, 'bodies')).a).items[:] = [self.b.pairs()]
        reach('envelope representation', put)
        r = result(ex, lambda: call(ex, RM + 'encode', env, strict=self.strict, timezone_offset=self.tz))
        return r
    def layout(self): return by(u16(self.version), u16(self.h.n), self.h.upto(self.ex, self.h.n), u16(self.b.n), self.b.upto(self.ex, self.b.n))
    # -- reading
    def c_read_header(self, ex, f, a, k):
        st, d, strict = bind(a, k, ('stream', 'decoder', 'strict'), strict=False)
        ex.prove(st == self.st and d == self.e and I.truth(ex, strict) == self.strict, 'header-codec')
        self.amf3(d)
        r = at_chunk(ex, st, 'part')
        if r is None or r[0] is not self.h: return self.ended(ex, st)
        self.grow(self.h, r[1])
        return (self.h.name(ex, r[1]), SymBool(self.flag(r[1])), self.h.item(ex, r[1]))
    def c_read_body(self, ex, f, a, k):
        st, d, strict, lg = bind(a, k, ('stream', 'decoder', 'strict', 'logger'), strict=False, logger=None)
        ex.prove(st == self.st and I.truth(ex, strict) == self.strict, 'message-codec')
        self.empty(d)
        r = at_chunk(ex, st, 'part')
        if r is None or r[0] is not self.b: return self.ended(ex, st)
        self.grow(self.b, r[1])
        return (self.b.name(ex, r[1]), self.b.item(ex, r[1]))
    def ended(self, ex, st):
        """not a complete header or message (it is cut off, or its length is wrong): an error"""
        ex.cover('incomplete')
        raise PyRaise(error(ex, 'decoding error'))
    def c_set_required(self, ex, f, a, k):
        hs, name, v = bind(a, k, ('self', 'idx', 'value'), value=True)
        j = self.h.is_name(ex, name)
        if j is None or not isinstance(v, (bool, SymBool)): raise OutOfReach('set_required of %r' % (name,))
        ex.prove(I.truth(ex, meth(ex, hs, '__contains__', name)), 'of-a-header-there')
        self.required.append((as_int(j), I.truth(ex, v)))
    def c_set(self, ex, f, a, k):
        env, name, m = a
        ex.prove(isinstance(m, Opaque) and 'elem' in m.props and m.props['elem'][0] is self.b, 'the-message-read')
        j = m.props['elem'][1]
        same_bytes(ex, name, self.b.name(ex, j), 'under-its-identifier')
        bs = attr(ex, env, 'bodies')
        is_list2(ex, bs, self.b, j, 'after-those-before-it')
        ex.heap.w(I.as_list(ex, bs).a).items[:] = [self.b.pairs(0, tint(as_int(j) + 1))]
    # the envelope being built: the object whose headers the loop fills
    def env(self):
        if 'env' not in self.seen: raise OutOfReach('no envelope was made')
        return self.seen['env']
    def have_headers(self, k):
        ex = self.ex
        reach('headers', lambda: setattr(ex.heap.w(I.as_dict(ex, attr(ex, self.env(), 'headers')).a), 'base', Seq(self.h, k)))
        self.required = []; self.k = k
    def headers_are(self, k):
        ex = self.ex
        is_seq(ex, attr(ex, self.env(), 'headers'), self.h, k, 'headers')
        if isinstance(k, int) and k == 0: self.required = []; return
        j = tint(as_int(k) - 1)
        got = [v for i, v in self.required if ex.valid(i == as_int(j))]
        ex.prove(len(got) == len(self.required), 'flags-of-this-header-only')
        ex.prove((bool(got) and got[-1]) == ex.branch(self.flag(j)), 'must-understand-flag')
    def have_bodies(self, k):
        ex = self.ex
        reach('bodies', lambda: ex.heap.w(I.as_list(ex, attr(ex, self.env(), 'bodies')).a).items.__setitem__(slice(None), [self.b.pairs(0, k)]))
    def bodies_are(self, k): is_list2(self.ex, attr(self.ex, self.env(), 'bodies'), self.b, k, 'messages')
    def read(self, data=None):
        ex = self.ex
        self.data = self.layout() if data is None else data
        self.in_ = BS(ex, self.data, 0).st
        self.st = self.in_
        return result(ex, lambda: call(ex, RM + 'decode', self.in_, strict=self.strict, timezone_offset=self.tz))

def is_list2(ex, l, els, hi, name):
    """obligation: this list is exactly the pairs 0..hi in order"""
    off = 0
    for x in ex.heap.get(I.as_list(ex, l).a).items:
        if I.is_piece(x):
            if ex.valid(as_int(x.count(ex)) == 0): continue
            ex.prove(x.name == els.lid and isinstance(off, int) and off == 0, name, 'a piece of something else'); off = x.n
        else: ex.prove(False, name, repr(x))
    ex.prove(as_int(off) == as_int(hi), name, 'length %s' % off)

def WriteAt(l, e, lo, write): return l(e, lo) if write else l(e)

def c_envelope(ex, f, a, k):
    p = ex.ghost.get('packet')
    if p is not None: p.seen['env'] = a[0]
    return NotImplemented
ENV = RM + 'Envelope.__init__'
CALLEE[ENV] = 'executed; its object is noted'

def encode(ex):
    """an envelope of any version, headers and messages: version, count and headers in order, count and messages in order, each message by a codec with empty tables"""
    p = Packet(ex, True)
    r = p.write(); expect(ex, r, 'ok', 'encode')
    same_bytes(ex, buf(ex, r[1]), p.layout(), 'envelope-layout')
    ex.prove(r[1] == p.st, 'the-stream'); ex.prove(as_int(meth(ex, r[1], 'tell')) == 0, 'from-its-start')

def decode(ex):
    """the layout of any envelope reads back: version, headers with their flags, messages in order under their identifiers; each message with empty tables; anything left over is refused in strict mode and a version above 9 always"""
    p = Packet(ex, False); ex.ghost['packet'] = p
    rest = R.sym_str(ex, 'left over')
    p.strict0 = p.strict
    r = p.read(R.concat(ex, p.layout(), rest))
    if ex.branch(p.version > 9): expect(ex, r, 'DecodeError', 'version-refused'); ex.cover('version'); return
    if p.strict and ex.branch(as_int(R.length(ex, rest)) > 0):
        ex.prove(r[0] == 'exc', 'left-over-refused'); ex.cover('left over'); return
    expect(ex, r, 'ok', 'decode'); ex.cover('read')
    e = r[1]
    ex.prove(e == p.env(), 'the-envelope')
    same_value(ex, attr(ex, e, 'amfVersion'), mkint(p.version), 'version')
    is_seq(ex, attr(ex, e, 'headers'), p.h, p.h.n, 'headers')
    p.bodies_are(p.b.n)
    ex.prove(as_int(meth(ex, p.in_, 'tell')) == as_int(R.length(ex, p.layout())), 'consumed')

def truncated(ex):
    """an envelope cut off anywhere: inside the version or a count, before or inside any header or message, is refused with an error"""
    p = Packet(ex, False); ex.ghost['packet'] = p
    cut = R.sym_str(ex, 'part'); n = as_int(R.length(ex, cut))
    where = ex.choice(5)
    v, hn, bn = u16(p.version), u16(p.h.n), u16(p.b.n)
    head = [v, v + hn, v + hn, v + hn + R.parts_of(p.h.upto(ex, p.h.n)), v + hn + R.parts_of(p.h.upto(ex, p.h.n)) + bn][where]
    if where == 0: data = by(v[:ex.choice(2)])
    elif where == 1: data = by(v, hn[:ex.choice(2)])
    elif where == 3: data = by(head, bn[:ex.choice(2)])
    else:
        # whole headers (messages) before part j; of it only some bytes, which are no chunk: its reader raises
        e = p.h if where == 2 else p.b
        j = ex.int('cut at', lo=0).t; ex.assume(j < e.n); e.stops.append(j); p.stop = (e, j)
        e.step(ex, j)
        data = by(head, e.upto(ex, j), cut)
    r = p.read(data)
    ex.prove(r[0] == 'exc', 'truncated-refused', repr(r[:2])); ex.cover(('version', 'header count', 'header', 'message count', 'message')[where])

def codecs(ex):
    """the codec of a name: that of AMF0 or AMF3 over the stream with the options given; any other encoding is an error"""
    amf = ex.choice(3); what = ex.choice(2)
    st = stream(ex); tz = Opaque('offset')
    s = bool(ex.choice(2))
    r = result(ex, lambda: call(ex, 'pyamf.get_' + ('encoder', 'decoder')[what], (0, 3, 7)[amf], st, strict=s, timezone_offset=tz))
    if amf == 2: return expect(ex, r, 'ValueError', 'unknown-encoding')
    expect(ex, r, 'ok', 'codec')
    ex.prove(I.class_of(ex, r[1]) == G(ex, 'pyamf.amf%d.%s' % ((0, 3)[amf], ('Encoder', 'Decoder')[what])), 'of-its-encoding')
    ex.prove(attr(ex, r[1], 'stream') == st and attr(ex, r[1], 'timezone_offset') is tz and attr(ex, r[1], 'strict') is s, 'with-its-options')

def flags(ex):
    """among any other headers: the flag last set for a name is its flag, and the others keep theirs; a name not there is refused"""
    nm = Opaque('name', (), {'hashable': True})
    hs = call(ex, RM + 'HeaderCollection')
    there = ex.choice(2)
    n = ex.int('others', lo=0).t
    def eq(ex2, x, y): return z3.BoolVal(x.name == y.name and x.name != 'other') if x.name != y.name or x.name == 'name' else as_int(x.idx[0]) == as_int(y.idx[0])
    nm.props['eq'] = eq
    oth = lambda j: Opaque('other', (as_int(j),), {'eq': eq})
    def part(lo, hi):
        p = L.Piece(tint(as_int(hi) - as_int(lo)), lambda ex2, j: oth(tint(as_int(lo) + as_int(j))), 'others', None, lambda a, b: part(tint(as_int(lo) + as_int(a)), tint(as_int(lo) + as_int(b))))
        p.where = lambda ex2, x: None if x is nm else reach('other', lambda: [][0])
        return p
    was = ex.choice(2) if there else 0
    j0 = ex.int('place', lo=0).t; ex.assume(j0 <= n)
    def put():
        if there: I.dict_set(ex, I.as_dict(ex, hs), nm, Opaque('value'))
        ex.heap.w(I.as_list(ex, attr(ex, hs, 'required')).a).items[:] = [part(0, j0), nm, part(j0, n)] if was else [part(0, n)]
    reach('headers', put)
    if not there:
        expect(ex, result(ex, lambda: meth(ex, hs, 'is_required', nm)), 'KeyError', 'unknown-refused')
        expect(ex, result(ex, lambda: meth(ex, hs, 'set_required', nm)), 'KeyError', 'unknown-refused'); ex.cover('unknown'); return
    ex.prove(I.truth(ex, meth(ex, hs, 'is_required', nm)) == bool(was), 'flag')
    v = bool(ex.choice(2))
    expect(ex, result(ex, lambda: meth(ex, hs, 'set_required', nm, v)), 'ok', 'set'); ex.cover('set')
    ex.prove(I.truth(ex, meth(ex, hs, 'is_required', nm)) == v, 'flag-as-set')
    o = ex.int('any other', lo=0).t; ex.assume(o < n)
    items = ex.heap.get(I.as_list(ex, attr(ex, hs, 'required')).a).items
    tot = 0
    for x in items: tot = as_int(tot) + as_int(x.count(ex) if I.is_piece(x) else 0)
    ex.prove(as_int(tot) == n, 'others-keep-theirs'); ex.prove(sum(x is nm for x in items) == v and all(I.is_piece(x) or x is nm for x in items), 'others-keep-theirs')

def contracts():
    CON = dict(MODULAR); CON.update((q, in_scope(q)) for q in (WH, RH, WB, RB, 'pyamf.get_encoder', 'pyamf.get_decoder', HC + 'is_required', HC + 'set_required', RM + 'Envelope.__setitem__'))
    CON[CLEAR] = c_clear; CON[ENV] = c_envelope
    return CON
