"""Deductive part: sol.encode writes the exact layout for any unicode name and any number of named values (of any content) in
either AMF version, and sol.decode reads it back, by loop invariants over the contracts of writing and reading a value; any
other magic number, length, signature or padding, and data cut off anywhere, is refused; load and save by functions."""
from .elements import *
from .gw import in_scope, scope, error, ERRORS, outcome, play
S = 'pyamf.sol.'
READ = 'pyamf.codec.Decoder.readElement'

class Values(Els):
    """each value is followed by a zero byte"""
    def rope_item(self, ex, k): return Els.rope_item(self, ex, k) + [R.Lit(b'\0')]
    def minsize(self): return Els.minsize(self) + 1

class Codec(object):
    """the codec that get_encoder or get_decoder makes, with its tables abstracted"""
    def __init__(self, ex, amf, els, what):
        self.ex = ex; self.amf = amf; els.codec = self; self.els = els; self.e = None
        scope(ex, **{'pyamf.get_' + what.lower(): self.make})
        self.what = what
    def make(self, ex, f, a, k):
        ex.prove(len(a) == 1 and not k, 'codec-arguments', '%r %r' % (a, k)); same_value(ex, a[0], self.amf, 'codec-of-the-version')
        self.e = call(ex, 'pyamf.amf%d.%s' % (self.amf, self.what))
        self.ctx = attr(ex, self.e, 'context'); self.objs = attr(ex, self.ctx, '_objects')
        abstract_table(ex, self.objs); tab_put(ex, self.objs, 0, ())
        if self.amf == 3:
            self.strs = attr(ex, self.ctx, 'strings'); abstract_table(ex, self.strs, True); tab_put(ex, self.strs, 0, ())
        text_memo(ex, self.ctx)
        if self.what == 'Encoder': self.st = attr(ex, self.e, 'stream')
        return self.e

def values(ex, amf, kind='u'):
    e = Values(ex, 'value', kind, None, amf)
    ex.ghost['named'] = [e]
    e.inv = lambda lo: WriteLoop(e, lo)
    return e

def root(ex):
    t = R.sym_str(ex, 'object name', 'u'); u = utf8_of(ex, t)
    ex.assume(as_int(R.length(ex, u)) < 65536)
    return t, u

def layout(ex, amf, u, els, length, n=None):
    return by(b'\0\xbf', length, b'TCSO\0\4\0\0\0\0', u16(R.length(ex, u)), u, b'\0\0\0', bytes([amf]), els.upto(ex, els.n if n is None else n))
def tail(ex, u, els): return 10 + 2 + as_int(R.length(ex, u)) + 3 + 1 + R.loop_len(ex, els.lid, 0, els.n)

def write(amf):
    def f(ex):
        els = values(ex, amf, ('u', 'b')[ex.choice(2)]); c = Codec(ex, amf, els, 'Encoder')
        t, u = root(ex)
        n = tail(ex, u, els); ex.assume(n < 2**32)
        strict = bool(ex.choice(2))
        d = seq_dict(ex, els)
        if ex.choice(2):
            s = call(ex, S + 'SOL', t); reach('SOL', lambda: setattr(ex.heap.w(I.as_dict(ex, s).a), 'base', Seq(els))); d = s
        r = result(ex, lambda: call(ex, S + 'encode', t, d, strict=strict, encoding=amf)); expect(ex, r, 'ok', 'encode')
        ex.step_done = True
        same_bytes(ex, buf(ex, r[1]), layout(ex, amf, u, els, u32(n) if strict else [R.Lit(b'\0\0\0\0')]), 'layout')
        ex.prove(as_int(meth(ex, r[1], 'tell')) == 0, 'from-its-start')
    f.__doc__ = 'any name and any named values as AMF%d: magic number, exact length (or zero, not strict), signature, name, padding, version, each name and value and a zero' % amf
    return f

def long_name(ex):
    """a name of more than 65535 bytes is refused"""
    els = values(ex, 0); Codec(ex, 0, els, 'Encoder')
    t = R.sym_str(ex, 'object name', 'u'); u = utf8_of(ex, t); ex.assume(as_int(R.length(ex, u)) > 65535)
    r = result(ex, lambda: call(ex, S + 'encode', t, seq_dict(ex, els))); expect(ex, r, 'OverflowError', 'refused')

class ReadValues(ReadLoop):
    """after k rounds: values 0..k were consumed and are in the dict, under their names"""
    def __init__(self, els, stop=None): ReadLoop.__init__(self, els); self.stop = els.n if stop is None else stop
    def enter(self, f):
        c = self.els.codec
        if c.e is None: raise OutOfReach('the loop over the values comes before the decoder')
        ReadLoop.enter(self, f)
        ds = [v for v in f.ex.heap.get(f.env.a).vars.values() if isinstance(v, Ref) and isinstance(I.rec(f.ex, v), HDict)]
        if len(ds) != 1: raise OutOfReach('the dict of the values')
        self.d = ds[0]
    def havoc(self, f, k):
        self.ex.assume(as_int(k) <= self.stop); self.read_state(k)
        self.ex.heap.w(self.d.a).base = Seq(self.els, k)
    def check(self, f, k):
        ex = self.ex
        if not isinstance(k, int): ex.prove(as_int(k) <= self.stop, 'loop-stops-at-the-end')
        self.els.step(ex, k)
        self.test = lambda f, k: None
        ReadLoop.check(self, f, k)
        is_seq(ex, self.d, self.els, k, 'loop-values')
    def variant(self, f):
        return as_int(R.length(self.ex, self.buf0)) - as_int(self.ex.heap.get(sio(self.ex, self.C.st).a).pos)

def torn(ex, f, a, k):
    """a whole value, else an error"""
    r = CHILDREN[READ](ex, f, a, k)
    if r is NotImplemented: raise PyRaise(error(ex, 'decoding error'))
    return r
def torn_name(ex, f, a, k):
    """readString of a name: its text"""
    r = c_name_read(ex, f, a, k)
    if r is not NotImplemented: return R.utf8_decode(ex, r) if not isinstance(r, bytes) else r.decode()
    if ex.ghost.get('torn'): raise PyRaise(error(ex, 'decoding error'))
    return r

def reading(ex, amf, els, data, c, stop=None, how=1, **kw):
    els.codec = c
    ex.ghost['while_inv'] = (S, lambda: ReadValues(els, stop))
    if how:
        c.st = BS(ex, data, 0).st; src = c.st
        return result(ex, lambda: call(ex, S + 'decode', src, **kw))
    return result(ex, lambda: call(ex, S + 'decode', bytes_arg(ex, c, data), **kw))

def bytes_arg(ex, c, data):
    # a byte string is given: the stream is the one made of it
    def init(ex2, f, a, k):
        if c.e is None and len(a) > 1 and a[1] is data: c.st = a[0]
        return NotImplemented
    scope(ex, **{'pyamf.util.pure.BufferedByteStream.__init__': init})
    return data

def read(amf):
    def f(ex):
        els = values(ex, amf); c = Codec(ex, amf, els, 'Decoder')
        t, u = root(ex)
        n = tail(ex, u, els); ex.assume(n < 2**32)
        size = ex.int('length', 0, 2**32 - 1).t
        strict = ex.choice(3)
        data = layout(ex, amf, u, els, u32(size))
        r = reading(ex, amf, els, data, c, how=strict != 1, **({} if strict == 2 else dict(strict=bool(strict))))
        if strict and not ex.branch(size == n):
            expect(ex, r, 'DecodeError', 'wrong-length-refused'); ex.cover('wrong length'); return
        expect(ex, r, 'ok', 'decode'); ex.cover('read')
        ex.prove(isinstance(r[1], tuple) and len(r[1]) == 2, 'a-pair')
        same_bytes(ex, r[1][0], t, 'name'); is_seq(ex, r[1][1], els, els.n, 'values')
    f.__doc__ = 'the layout of any object as AMF%d, in a stream or a byte string: its name and exactly its values under their names; in strict mode any other length is refused' % amf
    return f

def damaged(ex):
    """any other magic number, signature, padding or version of the header is refused, strict or not"""
    t, u = root(ex)
    w = ex.choice(4); ex.cover(('magic', 'signature', 'padding', 'version')[w])
    parts = [b'\0\xbf', None, b'TCSO\0\4\0\0\0\0', b'\0\0\0']
    rest = R.sym_str(ex, 'rest')
    i = (0, 2, 3, None)[w]
    if i is not None:
        bad = R.sym_str(ex, 'other bytes'); ex.assume(as_int(R.length(ex, bad)) == len(parts[i])); ex.assume(z3.Not(as_bool(R.eq(ex, bad, parts[i])))); parts[i] = bad
    ver = [R.Ch(ex.int('version', 0, 255).t)]
    if i is None: ex.assume(z3.And(ver[0].t != 0, ver[0].t != 3)); rest = b''
    body = by(parts[2], u16(R.length(ex, u)), u, parts[3], ver, rest)
    n = as_int(R.length(ex, body)); ex.assume(n < 2**32)
    st = BS(ex, by(parts[0], u32(n), body), 0).st
    r = result(ex, lambda: call(ex, S + 'decode', st, **({} if ex.choice(2) else dict(strict=False))))
    expect(ex, r, 'ValueError' if i is None else 'DecodeError', 'refused')

def bad_padding(amf):
    def f(ex):
        els = values(ex, amf); c = Codec(ex, amf, els, 'Decoder')
        t, u = root(ex)
        j = ex.int('which', lo=0).t; ex.assume(j < els.n); els.stops.append(j); els.step(ex, j)
        pad = ex.int('pad', 1, 255).t
        body = by(b'TCSO\0\4\0\0\0\0', u16(R.length(ex, u)), u, b'\0\0\0', bytes([amf]), els.upto(ex, j), Els.rope_item(els, ex, j), [R.Ch(pad)], R.sym_str(ex, 'more'))
        n = as_int(R.length(ex, body)); ex.assume(n < 2**32)
        r = reading(ex, amf, els, by(b'\0\xbf', u32(n), body), c, j)
        expect(ex, r, 'DecodeError', 'refused')
    f.__doc__ = 'any byte but zero after any value is refused (AMF%d)' % amf
    return f

def short(ex):
    """less than the two leading fields, and (in strict mode) any data whose length is not the one in its header, is refused; and so is a header cut off anywhere in non-strict mode"""
    w = ex.choice(5); ex.cover(('leading', 'length', 'signature', 'name', 'padding')[w])
    t, u = root(ex)
    L_ = [R.Ch(ex.int('l%d' % i, 0, 255).t) for i in range(4)]
    size = 0
    for l in L_: size = size * 256 + l.t
    if w == 0:
        n = ex.choice(6); data = by([b'\0\xbf'[:n], b'\0\xbf'][n > 2], L_[:max(0, n - 2)]); kw = [{}, dict(strict=False)][ex.choice(2)]
    elif w == 1:
        body = R.sym_str(ex, 'body'); ex.assume(as_int(R.length(ex, body)) != size); data = by(b'\0\xbf', L_, body); kw = {}
    else:
        kw = dict(strict=False)
        sig = b'TCSO\0\4\0\0\0\0'
        if w == 2:
            s = R.sym_str(ex, 'part'); ex.assume(as_int(R.length(ex, s)) < 10); data = by(b'\0\xbf', L_, s)
        elif w == 3:
            if ex.choice(2): data = by(b'\0\xbf', L_, sig, u16(R.length(ex, u))[:ex.choice(2)])
            else:
                s = R.sym_str(ex, 'part'); ex.assume(as_int(R.length(ex, s)) < as_int(R.length(ex, u))); data = by(b'\0\xbf', L_, sig, u16(R.length(ex, u)), s)
        else: data = by(b'\0\xbf', L_, sig, u16(R.length(ex, u)), u, b'\0\0\0'[:ex.choice(4)])
    st = BS(ex, data, 0).st
    r = result(ex, lambda: call(ex, S + 'decode', st, **kw))
    if w == 1: expect(ex, r, 'DecodeError', 'refused')
    else: ex.prove(r[0] == 'exc', 'refused')

def torn_values(amf):
    def f(ex):
        ex.ghost['torn'] = True
        els = values(ex, amf); c = Codec(ex, amf, els, 'Decoder')
        t, u = root(ex)
        j = ex.int('which', lo=0).t; ex.assume(j < els.n); els.stops.append(j); els.step(ex, j)
        part = R.sym_str(ex, 'part', minlen=1)
        w = ex.choice(3)
        its = Els.rope_item(els, ex, j)
        if amf == 0 and w == 0: its = [its[0]]      # inside the length of the name
        elif amf == 0 and w == 1:
            s = R.sym_str(ex, 'part of the name'); ex.assume(as_int(R.length(ex, s)) < as_int(R.length(ex, els.wire(ex, j)))); its = u16(R.length(ex, els.wire(ex, j))) + R.parts_of(s)
        elif w == 0: its = R.parts_of(part)
        elif w == 1: its = its[:-1] + R.parts_of(R.sym_str(ex, 'part of the value'))
        ex.cover(str(w))
        data = by(b'\0\xbf', u32(ex.int('length', 0, 2**32 - 1).t), b'TCSO\0\4\0\0\0\0', u16(R.length(ex, u)), u, b'\0\0\0', bytes([amf]), els.upto(ex, j), its)
        r = reading(ex, amf, els, data, c, j, strict=False)
        ex.prove(r[0] == 'exc', 'refused', repr(r))
    f.__doc__ = 'values cut off inside any name or value or before its zero are refused in non-strict mode (AMF%d); in strict mode their length is wrong' % amf
    return f

class File(object):
    """a file object: what is written to it, whether it is closed"""
    def __init__(self, ex, name, content=b''):
        self.ev = []
        def m(n):
            def run(ex2, f, a, k):
                self.ev.append((n,) + tuple(a))
                return content if n == 'read' else None
            return Opaque(name + '.' + n, (), {'call': run})
        self.v = Opaque(name, (), {'truth': lambda *a: True, 'isinstance': lambda *a: False, 'getattr': lambda ex2, o, n: m(n) if n in ('read', 'write', 'close') else I.attr_error(ex2, o, n)})
    def names(self): return [e[0] for e in self.ev]

def opening(ex, fl):
    seen = []
    def run(ex2, a, k): seen.append(a); return fl.v
    ex.ghost['open'] = run
    return seen

def save(ex):
    """what is encoded, of this name and these values, is written at once to the file (opened for writing and closed again when a path is given; a file given stays open)"""
    s = call(ex, S + 'SOL', R.sym_str(ex, 'object name', 'u'))
    out = R.sym_str(ex, 'encoded')
    def enc(ex2, f, a, k):
        ex2.prove(a[1] == s, 'its-values'); same_bytes(ex2, a[0], attr(ex2, s, 'name'), 'its-name'); ver = k.get('encoding', a[3] if len(a) > 3 else 0)
        same_value(ex2, ver, amf, 'in-the-version'); ex2.prove(I.truth(ex2, k.get('strict', a[2] if len(a) > 2 else True)), 'with-its-length')
        return BS(ex2, out, 0).st
    scope(ex, **{S + 'encode': enc})
    amf = (0, 3)[ex.choice(2)]
    fl = File(ex, 'file'); seen = opening(ex, fl)
    path = ex.choice(2)
    p = R.sym_str(ex, 'path', ('b', 'u')[ex.choice(2)]) if path else fl.v
    kw = {} if amf == 0 and ex.choice(2) else dict(encoding=amf)
    r = result(ex, (lambda: meth(ex, s, 'save', p, **kw)) if ex.choice(2) else lambda: call(ex, S + 'save', s, p, **kw))
    expect(ex, r, 'ok', 'save')
    ex.prove(len(seen) == path, 'opened-once')
    if path:
        same_bytes(ex, seen[0][0], p, 'the-path'); ex.prove(isinstance(seen[0][1], bytes) and seen[0][1].startswith(b'w') and b'b' in seen[0][1], 'opened-for-writing', repr(seen[0]))
    whole = b''
    for e in fl.ev:
        if e[0] == 'write': whole = R.concat(ex, whole, e[1])
    same_bytes(ex, whole, out, 'written'); ex.prove(fl.names()[-1:] == (['close'] if path else ['write']) and fl.names().count('close') == path, 'closed-if-opened', repr(fl.names()))

def load(ex):
    """the whole file is decoded; its name and all values make the object; a file opened is closed"""
    els = values(ex, 0); els.inv = lambda lo: Put(els)
    data = R.sym_str(ex, 'content'); nm = R.sym_str(ex, 'object name', 'u')
    d = seq_dict(ex, els)
    def dec(ex2, f, a, k): same_bytes(ex2, a[0], data, 'the-content'); ex2.prove(not k or I.truth(ex2, k.get('strict', True)), 'strictly'); return (nm, d)
    scope(ex, **{S + 'decode': dec})
    fl = File(ex, 'file', data); seen = opening(ex, fl)
    path = ex.choice(2)
    p = R.sym_str(ex, 'path', ('b', 'u')[ex.choice(2)]) if path else fl.v
    r = result(ex, lambda: call(ex, S + 'load', p)); expect(ex, r, 'ok', 'load')
    ex.prove(I.class_of(ex, r[1]) == G(ex, S + 'SOL'), 'an-object'); same_bytes(ex, attr(ex, r[1], 'name'), nm, 'name')
    is_seq(ex, r[1], els, els.n, 'values')
    if path: same_bytes(ex, seen[0][0], p, 'the-path'); ex.prove(isinstance(seen[0][1], bytes) and seen[0][1] == b'rb', 'opened-for-reading', repr(seen[0]))
    ex.prove(fl.names() == ['read'] + ['close'] * path, 'closed-if-opened', repr(fl.names()))
class Put(L.Inv):
    """the entries 0..k are in the object"""
    def __init__(self, els): self.els = els
    def enter(self, f):
        self.ex = f.ex
        vs = [v for v in f.ex.heap.get(f.env.a).vars.values() if isinstance(v, Ref) and isinstance(I.rec(f.ex, v), HObj) and I.class_of(f.ex, v) == G(f.ex, S + 'SOL')]
        if len(vs) != 1: raise OutOfReach('the object being filled')
        self.d = I.as_dict(f.ex, vs[0])
    def havoc(self, f, k): self.ex.heap.w(self.d.a).base = Seq(self.els, k)
    def check(self, f, k): is_seq(self.ex, self.d, self.els, k, 'loop-entries')

def no_file(ex):
    """what is neither a path nor a file is refused"""
    x = [5, None, call(ex, S + 'SOL', 'x')][ex.choice(3)]
    if ex.choice(2): r = result(ex, lambda: call(ex, S + 'load', x))
    else: r = result(ex, lambda: call(ex, S + 'save', call(ex, S + 'SOL', 'x'), x))
    expect(ex, r, 'ValueError', 'refused')

def lemmas(world, tier):
    CON = dict(MODULAR); CON.update(CHILDREN); CON.update(NAMES); CON[READ] = torn; CON['pyamf.amf3.Decoder.readString'] = torn_name
    CON.update((q, in_scope(q)) for q in ('pyamf.get_encoder', 'pyamf.get_decoder', S + 'encode', S + 'decode', 'pyamf.util.pure.BufferedByteStream.__init__'))
    L_ = lambda n, f, **k: Lemma('C19.' + n, f, contracts=k.pop('contracts', CON), **k)
    out = []
    for amf in (0, 3): out += [L_('write_amf%d' % amf, write(amf)), L_('read_amf%d' % amf, read(amf), cover=('read', 'wrong length')), L_('bad_padding_amf%d' % amf, bad_padding(amf)), L_('torn_values_amf%d' % amf, torn_values(amf), cover=('0', '1', '2'))]
    # the functions the file lemmas call by contract are verified above
    D = {q: c for q, c in CON.items() if q not in (S + 'encode', S + 'decode')}
    for l in out: l.contracts = D
    return out + [L_('long_name', long_name, contracts=D), L_('damaged', damaged, contracts=D, cover=('magic', 'signature', 'padding', 'version')), L_('short', short, contracts=D, cover=('leading', 'length', 'signature', 'name', 'padding')),
                  L_('save', save), L_('load', load), L_('no_file', no_file)]
CALLEE['pyamf.amf3.Decoder.readString'] = 'of a name: discharged by the lemmas of C05'
CALLEE[S + 'encode'] = 'discharged by C19.write_amf0, C19.write_amf3'
CALLEE[S + 'decode'] = 'discharged by C19.read_amf0, C19.read_amf3'
CALLEE['pyamf.get_encoder'] = CALLEE['pyamf.get_decoder'] = 'discharged by C12.codecs'
CALLEE['pyamf.util.pure.BufferedByteStream.__init__'] = 'executed; its object is noted'
