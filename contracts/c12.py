"""Deductive part: headers and messages of any content are written in exactly their layout (in strict mode with the exact length,
patched in afterwards) and that layout reads back as the same header or message, by functions; envelopes of any number of
headers and messages write and read them in order, each message with empty tables, by loop invariants over the contracts of
these functions.  Values are arbitrary (their encoding by C04 to C07)."""
from .elements import *
from .c06 import in_scope
from . import packet
from pyvc import loops as L

RM = 'pyamf.remoting.'
def one(ex, name, C, n=1):
    e = Els(ex, name, None, n); e.codec = C; e.inv = lambda lo: WriteLoop(e, lo)
    return e

def name_of(ex, what='name', kind=None, limit=65536, max_u=None):
    """an arbitrary byte (UTF-8) or text name: (value, its bytes, as text)"""
    kind = ex.choice(2) if kind is None else kind
    t = R.sym_str(ex, what, 'u'); u = utf8_of(ex, t)
    ex.assume(as_int(R.length(ex, u)) < limit)
    return (t, u, t) if kind else (u, u, t)

def flag(ex): return [0, 1][ex.choice(2)]

def strict_len(strict, n): return u32(n) if strict else [R.Lit(b'\0\0\0\0')]

def write_header(strict):
    def f(ex):
        e = Enc(ex, 0)
        els = one(ex, 'value', e)
        nm, u, t = name_of(ex)
        req = flag(ex)
        v = els.item(ex, 0)
        body = R.atom_rope(els.chunk(ex, 0)); n = R.length(ex, body); ex.assume(as_int(n) < 2**32)
        r = result(ex, lambda: call(ex, RM + '_write_header', nm, v, req, e.st, e.e, strict)); expect(ex, r, 'ok', 'write-header')
        e.wrote(by(u16(R.length(ex, u)), u, bytes([req]), strict_len(strict, n), body), 'header-layout')
        ex.prove(as_int(tab(ex, e.objs).n) == e.n + els.cnt(ex, 'objects', z3.IntVal(0)), 'only-its-own-entries')
    f.__doc__ = 'a header of any name, flag and value%s: name, flag, %s, value at the end of any content' % (' in strict mode' if strict else '', 'the exact length' if strict else 'no length')
    return f

def long_name(ex):
    """a header name or target of more than 65535 bytes is refused with nothing written"""
    e = Enc(ex, 0); els = one(ex, 'value', e)
    t = R.sym_str(ex, 'name', 'u'); u = utf8_of(ex, t)
    ex.assume(as_int(R.length(ex, u)) > 65535)
    r = result(ex, lambda: call(ex, RM + '_write_header', t, els.item(ex, 0), 0, e.st, e.e, True))
    expect(ex, r, 'OverflowError', 'refused'); e.wrote(b'', 'nothing-written')

def read_header(strict):
    def f(ex):
        nm, u, t = name_of(ex)
        req = ex.int('flag', 0, 255).t
        els = Els(ex, 'value', None, 1)
        body = R.atom_rope(els.chunk(ex, 0)); n = as_int(R.length(ex, body)); ex.assume(n < 2**32)
        size = ex.int('size', 0, 2**32 - 1).t
        d = Dec(ex, 0, by(u16(R.length(ex, u)), u, [R.Ch(req)], u32(size), body)); els.codec = d
        r = result(ex, lambda: call(ex, RM + '_read_header', d.st, d.d, strict))
        if strict and not ex.branch(size == n):
            expect(ex, r, 'DecodeError', 'length-mismatch-refused'); ex.cover('mismatch'); return
        expect(ex, r, 'ok', 'read-header'); ex.cover('read')
        same_bytes(ex, r[1][0], t, 'header-name')
        ex.prove(as_bool(I.is_(ex, r[1][2], els.item(ex, 0))), 'header-value')
        got = r[1][1]
        ex.prove(as_bool(got if isinstance(got, bool) else as_int(got) == 1) == (req != 0), 'header-flag')
        d.consumed('header')
    f.__doc__ = 'the layout of any header%s: its name, flag and value, exactly its bytes consumed%s' % (' in strict mode' if strict else ' with any length', '; any other length than that of its value is refused' if strict else '')
    return f

STATUS = {0: b'/onResult', 1: b'/onStatus', 2: b'/onDebugEvents'}
def suffixed(ex, t):
    for s in STATUS.values():
        if I.truth(ex, meth(ex, t, 'endswith', s)): return True
    return False

def write_request(strict):
    def f(ex):
        e = Enc(ex, 0); els = one(ex, 'argument', e, None); ex.assume(els.n < LIMIT)
        tg, ub, tt = name_of(ex, 'target'); nm, nb, nt = name_of(ex, 'id')
        q = call(ex, RM + 'Request', tg, ex.heap.new(HList([els.piece()])))
        body = by(b'\x0a', u32(els.n), els.upto(ex, els.n)); n = R.length(ex, body); ex.assume(as_int(n) < 2**32)
        r = result(ex, lambda: call(ex, RM + '_write_body', nm, q, e.st, e.e, strict)); expect(ex, r, 'ok', 'write-request')
        e.wrote(by(u16(R.length(ex, ub)), ub, u16(R.length(ex, nb)), nb, strict_len(strict, n), body), 'request-layout')
        ex.prove(as_int(tab(ex, e.objs).n) == e.n + els.tot(ex, 'objects', els.n), 'only-entries-of-the-arguments')
    f.__doc__ = 'a request of any target, identifier and number of arguments%s: both names, %s, 0x0a, the count, each argument in order' % (' in strict mode' if strict else '', 'the exact length' if strict else 'no length')
    return f
LIMIT = 2**26

def write_response(strict):
    def f(ex):
        e = Enc(ex, 0); els = one(ex, 'value', e)
        nm, nb, nt = name_of(ex, 'id')
        st = ex.choice(3); suf = STATUS[st]
        ex.assume(as_int(R.length(ex, nb)) < 65536 - 20)
        body = R.atom_rope(els.chunk(ex, 0)); n = R.length(ex, body); ex.assume(as_int(n) < 2**32)
        q = call(ex, RM + 'Response', els.item(ex, 0), st)
        r = result(ex, lambda: call(ex, RM + '_write_body', nm, q, e.st, e.e, strict)); expect(ex, r, 'ok', 'write-response')
        e.wrote(by(u16(tint(as_int(R.length(ex, nb)) + len(suf))), nb, suf, u16(4), b'null', strict_len(strict, n), body), 'response-layout')
    f.__doc__ = 'a response of any identifier, status and value%s: identifier with the suffix of its status, null, %s, the value' % (' in strict mode' if strict else '', 'the exact length' if strict else 'no length')
    return f

def bad_message(ex):
    """an unknown status, and anything but a request or response, is refused with nothing written"""
    e = Enc(ex, 0); els = one(ex, 'value', e)
    if ex.choice(2):
        st = ex.int('status'); ex.assume(z3.And(st.t != 0, st.t != 1, st.t != 2))
        q = call(ex, RM + 'Response', els.item(ex, 0), st)
        r = result(ex, lambda: call(ex, RM + '_write_body', R.sym_str(ex, 'id'), q, e.st, e.e, True)); expect(ex, r, 'ValueError', 'refused')
    else:
        q = call(ex, RM + 'Message', None, els.item(ex, 0))
        r = result(ex, lambda: call(ex, RM + '_write_body', R.sym_str(ex, 'id'), q, e.st, e.e, True)); expect(ex, r, 'TypeError', 'refused')
    e.wrote(b'', 'nothing-written')

class ReadArgs(ReadLoop):
    """arguments 0..k were consumed and collected"""
    def put(self, f, k): pass
    def test(self, f, k): pass
    def emitted(self, f, k, vs): self.ex.prove(len(vs) == 1 and as_bool(I.is_(self.ex, vs[0], self.els.item(self.ex, k))), 'argument-collected')
    def collected(self, f): return self.els.piece()

def read_request(strict, amf3=False):
    def f(ex):
        tg, ub, tt = name_of(ex, 'target', 0); nm, nb, nt = name_of(ex, 'id', 0)
        if suffixed(ex, tt): raise Stop()
        els = Els(ex, 'argument', None, 1 if amf3 else None); ex.assume(els.n < LIMIT)
        body = by(b'\x0a', u32(els.n), els.upto(ex, els.n)) if not amf3 else R.atom_rope(els.chunk(ex, 0))
        if amf3: body = R.concat(ex, b'\x11', body)
        n = as_int(R.length(ex, body)); ex.assume(n < 2**32)
        size = ex.int('size', 0, 2**32 - 1).t
        d = Dec(ex, 0, by(u16(R.length(ex, ub)), ub, u16(R.length(ex, nb)), nb, u32(size), body)); els.codec = d
        I.setattr_(ex, d.d, 'use_amf3', bool(amf3))
        ex.ghost['range_inv'] = lambda: ReadArgs(els)
        def read(ex2, ff, a, k):
            ex2.prove(a[0] == d.d, 'by-the-decoder')
            same_bytes(ex2, meth(ex2, d.st, 'peek', 1), b'\x11', 'from-its-marker')
            meth(ex2, d.st, 'seek', mkint(as_int(meth(ex2, d.st, 'tell')) + n))
            return els.item(ex2, 0)
        if amf3: ex.ghost['scoped'] = {READ: read}
        r = result(ex, lambda: call(ex, RM + '_read_body', d.st, d.d, strict))
        if strict and not ex.branch(size == n):
            expect(ex, r, 'DecodeError', 'length-mismatch-refused'); ex.cover('mismatch'); return
        expect(ex, r, 'ok', 'read-request'); ex.cover('read')
        q = r[1][1]
        same_bytes(ex, r[1][0], nt, 'request-identifier')
        ex.prove(I.class_of(ex, q) == G(ex, RM + 'Request'), 'is-a-request')
        same_bytes(ex, attr(ex, q, 'target'), tt, 'request-target')
        d.consumed('request')
        b = attr(ex, q, 'body')
        if amf3:
            if I.truth(ex, els.item(ex, 0)): ex.prove(as_bool(I.is_(ex, b, els.item(ex, 0))), 'request-body')
            else: ex.prove(not I.truth(ex, b), 'no-arguments')
        else: is_list(ex, b, els, els.n, 'request-body')
    f.__doc__ = 'the layout of any request%s%s: its identifier, target and arguments, exactly its bytes consumed%s' % (
        ' in strict mode' if strict else ' with any length', ' with its arguments in AMF3' if amf3 else '', '; any other length is refused' if strict else '')
    return f
READ = 'pyamf.codec.Decoder.readElement'
def c_read_(ex, f, a, k):
    h = ex.ghost.get('scoped', {}).get(READ)
    return CHILDREN[READ](ex, f, a, k) if h is None else h(ex, f, a, k)
def as_bool(c): return z3.BoolVal(c) if isinstance(c, bool) else c.t if isinstance(c, SymBool) else c

def read_response(strict):
    def f(ex):
        nm, nb, nt = name_of(ex, 'id', 0, 65536 - 20)
        if suffixed(ex, nt): raise Stop()
        st = ex.choice(3)
        els = Els(ex, 'value', None, 1)
        body = R.atom_rope(els.chunk(ex, 0)); n = as_int(R.length(ex, body)); ex.assume(n < 2**32)
        size = ex.int('size', 0, 2**32 - 1).t
        rn, rb, rt = name_of(ex, 'response', 0)
        d = Dec(ex, 0, by(u16(tint(as_int(R.length(ex, nb)) + len(STATUS[st]))), nb, STATUS[st], u16(R.length(ex, rb)), rb, u32(size), body)); els.codec = d
        fault = Opaque('fault')
        ex.ghost['scoped'] = {RM + 'get_fault': lambda ex2, ff, a, k: (ex2.prove(a[0] == els.item(ex2, 0), 'fault-of-the-value'), fault)[1]}
        v = els.item(ex, 0); v.props['isinstance'] = lambda ex2, x, c: c == G(ex2, 'pyamf.ASObject') and ex2.branch(z3.Bool('is an object'))
        old = els.item
        els.item = lambda ex2, k: v
        r = result(ex, lambda: call(ex, RM + '_read_body', d.st, d.d, strict))
        if strict and not ex.branch(size == n):
            expect(ex, r, 'DecodeError', 'length-mismatch-refused'); ex.cover('mismatch'); return
        expect(ex, r, 'ok', 'read-response'); ex.cover('read')
        same_bytes(ex, r[1][0], nt, 'response-identifier')
        q = r[1][1]
        ex.prove(I.class_of(ex, q) == G(ex, RM + 'Response'), 'is-a-response')
        same_value(ex, attr(ex, q, 'status'), st, 'response-status')
        b = attr(ex, q, 'body')
        if st == 1 and ex.branch(z3.Bool('is an object')): ex.prove(b is fault, 'error-with-fields-as-fault', repr(b))
        else: ex.prove(b is v, 'response-body', repr(b))
        d.consumed('response')
    f.__doc__ = 'the layout of any response%s: its identifier, status and value (an error sent as an object as its fault), exactly its bytes consumed%s' % (' in strict mode' if strict else ' with any length', '; any other length is refused' if strict else '')
    return f

def fault(ex):
    """an error object with any values in any of its fields, with or without a level, becomes a fault with the same fields"""
    o = call(ex, 'pyamf.ASObject')
    d = I.as_dict(ex, o)
    kind = ex.choice(2)
    have = {}
    lvl = ex.choice(3)
    if lvl: I.dict_set(ex, d, 'level' if kind else b'level', ['error', 'status'][lvl - 1] if kind else [b'error', b'status'][lvl - 1])
    for n in ('code', 'type', 'details', 'description'):
        if ex.choice(2):
            have[n] = Opaque(n + ' sent'); I.dict_set(ex, d, n if kind else n.encode(), have[n])
    r = result(ex, lambda: call(ex, RM + 'get_fault', o)); expect(ex, r, 'ok', 'fault')
    ex.prove(I.is_subclass(ex, I.class_of(ex, r[1]), G(ex, RM + 'BaseFault')), 'is-a-fault')
    if lvl < 2: ex.prove(I.class_of(ex, r[1]) == G(ex, RM + 'ErrorFault'), 'error-fault')
    for n in ('code', 'type', 'details', 'description'):
        v = attr(ex, r[1], n)
        if n in have: ex.prove(v is have[n], 'same-field', '%s %r' % (n, v))
        else: same_bytes(ex, v, b'', 'empty-field')
CALLEE[RM + 'get_fault'] = 'discharged by C12.fault for the fields a fault has'

def lemmas(world, tier):
    CON = dict(MODULAR); CON.update(CHILDREN); CON.update((q, in_scope(q)) for q in (RM + 'get_fault',)); CON[READ] = c_read_
    L_ = lambda n, f, **k: Lemma('C12.' + n, f, contracts=k.pop('contracts', CON), **k)
    out = []
    for s, n in ((False, ''), (True, '_strict')):
        c = ('read', 'mismatch') if s else ('read',)
        out += [L_('write_header' + n, write_header(s)), L_('read_header' + n, read_header(s), cover=c), L_('write_request' + n, write_request(s)), L_('write_response' + n, write_response(s)),
                L_('read_request' + n, read_request(s), cover=c), L_('read_request_amf3' + n, read_request(s, True), cover=c), L_('read_response' + n, read_response(s), cover=c)]
    P = packet.contracts()
    return out + [L_('long_name', long_name), L_('bad_message', bad_message), L_('fault', fault), L_('encode', packet.encode, contracts=P), L_('decode', packet.decode, contracts=P, cover=('version', 'left over', 'read')),
                  L_('flags', packet.flags, contracts={}, cover=('unknown', 'set')), L_('codecs', packet.codecs)]
