"""Deductive part: a header or message cut off anywhere, and an envelope cut off anywhere or with a version above 9, is refused;
in strict mode so is one whose lengths disagree with its content or that has bytes left over; before every message, written or
read, the tables are empty, those of embedded AMF3 included: by loop invariants over any number of headers and messages.  That
a value cut off raises an error is the induction hypothesis (by kinds of value: C24)."""
from . import packet, c12
from .packet import *
from .gw import error
READ = c12.READ

def torn(ex):
    """readElement: a complete child, else an error"""
    def read(ex2, f, a, k):
        r = CHILDREN[READ](ex2, f, a, k)
        if r is NotImplemented: raise PyRaise(error(ex2, 'decoding error'))
        return r
    ex.ghost['scoped'] = {READ: read}

def split_of(ex, u, what):
    """fewer bytes than a text of this length has"""
    s = R.sym_str(ex, what); ex.assume(as_int(R.length(ex, s)) < as_int(R.length(ex, u))); return s

def header(strict):
    def f(ex):
        nm, u, t = c12.name_of(ex)
        part = R.sym_str(ex, 'part of the value')
        torn(ex)
        n = u16(R.length(ex, u)); size = u32(ex.int('size', 0, 2**32 - 1).t); flag = [R.Ch(ex.int('flag', 0, 255).t)]
        w = ex.choice(5); ex.cover(('length', 'name', 'flag', 'size', 'value')[w])
        data = (lambda: by(n[:ex.choice(2)]), lambda: by(n, split_of(ex, u, 'part of the name')), lambda: by(n, u), lambda: by(n, u, flag, size[:ex.choice(4)]), lambda: by(n, u, flag, size, part))[w]()
        d = Dec(ex, 0, data, rest=b'')
        r = result(ex, lambda: call(ex, RM + '_read_header', d.st, d.d, strict))
        ex.prove(r[0] == 'exc', 'cut-off-header-refused', repr(r))
    f.__doc__ = 'a header cut off inside its name length, name, flag, length or value%s' % (' in strict mode' if strict else '')
    return f
WHERE = ('target length', 'target', 'identifier length', 'identifier', 'size', 'nothing', 'count', 'argument')

def body(strict):
    def f(ex):
        tg, ub, tt = c12.name_of(ex, 'target', 0); nm, nb, nt = c12.name_of(ex, 'id', 0)
        resp = c12.suffixed(ex, tt)
        torn(ex)
        tl, nl = u16(R.length(ex, ub)), u16(R.length(ex, nb)); size = u32(ex.int('size', 0, 2**32 - 1).t)
        w = ex.choice(8); ex.cover(WHERE[w] if not resp or w < 6 else 'response')
        head = [tl, ub, nl, nb, size]
        if w == 0: data = by(tl[:ex.choice(2)])
        elif w == 1: data = by(tl, split_of(ex, ub, 'part of the target'))
        elif w == 2: data = by(tl, ub, nl[:ex.choice(2)])
        elif w == 3: data = by(tl, ub, nl, split_of(ex, nb, 'part of the identifier'))
        elif w == 4: data = by(tl, ub, nl, nb, size[:ex.choice(4)])
        elif w == 5: data = by(*head)
        elif resp: data = by(*(head + [R.sym_str(ex, 'part of the value')]))
        else:
            els = Els(ex, 'argument', None); ex.assume(els.n < c12.LIMIT)
            cnt = u32(els.n)
            if w == 6: data = by(*(head + [b'\x0a', cnt[:ex.choice(4)]]))
            else:
                j = ex.int('cut at', lo=0).t; ex.assume(j < els.n); els.stops.append(j); els.step(ex, j)
                data = by(*(head + [b'\x0a', cnt, els.upto(ex, j), R.sym_str(ex, 'part of an argument')]))
                class Args(c12.ReadArgs):
                    def put(self, f, k): self.ex.assume(as_int(k) <= j)
                    def test(self, f, k): self.ex.prove(as_int(k) <= j, 'read-beyond-the-end')
                ex.ghost['range_inv'] = lambda: Args(els)
        d = Dec(ex, 0, data, rest=b'')
        if w == 7 and not resp: els.codec = d
        r = result(ex, lambda: call(ex, RM + '_read_body', d.st, d.d, strict))
        ex.prove(r[0] == 'exc', 'cut-off-message-refused', repr(r))
    f.__doc__ = 'a request or response cut off inside a name length, name, length, argument count, argument or value%s' % (' in strict mode' if strict else '')
    return f

def not_args(ex):
    """a request whose arguments are neither an array nor, in an AMF3 message, an AMF3 value is refused"""
    tg, ub, tt = c12.name_of(ex, 'target', 0); nm, nb, nt = c12.name_of(ex, 'id', 0)
    if c12.suffixed(ex, tt): raise Stop()
    m = ex.int('marker', 0, 255).t; ex.assume(m != 0x0a)
    amf3 = bool(ex.choice(2))
    if amf3: ex.assume(m != 0x11)
    d = Dec(ex, 0, by(u16(R.length(ex, ub)), ub, u16(R.length(ex, nb)), nb, u32(ex.int('size', 0, 2**32 - 1).t), [R.Ch(m)]))
    I.setattr_(ex, d.d, 'use_amf3', amf3)
    r = result(ex, lambda: call(ex, RM + '_read_body', d.st, d.d, bool(ex.choice(2))))
    expect(ex, r, 'DecodeError', 'refused')

def lemmas(world, tier):
    CON = dict(MODULAR); CON.update(CHILDREN); CON.update((q, in_scope(q)) for q in (RM + 'get_fault',)); CON[READ] = c12.c_read_
    P = packet.contracts()
    L_ = lambda n, f, **k: Lemma('C13.' + n, f, contracts=k.pop('contracts', CON), **k)
    out = []
    for s, n in ((False, ''), (True, '_strict')):
        out += [L_('header' + n, header(s), cover=('length', 'name', 'flag', 'size', 'value')), L_('body' + n, body(s), cover=WHERE + ('response',))]
    c = ('read', 'mismatch')
    out += [L_('header_length', c12.read_header(True), cover=c), L_('request_length', c12.read_request(True), cover=c), L_('request_length_amf3', c12.read_request(True, True), cover=c), L_('response_length', c12.read_response(True), cover=c)]
    return out + [L_('not_args', not_args), L_('encode', packet.encode, contracts=P), L_('decode', packet.decode, contracts=P, cover=('version', 'left over', 'read')),
                  L_('truncated', packet.truncated, contracts=P, cover=('version', 'header count', 'header', 'message count', 'message'))]
