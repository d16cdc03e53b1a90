from .lib import *

LO, HI = -2**28, 2**28 - 1

def spec(ex, n):
    """the bytes the AMF3 specification gives the 29-bit two's complement of n"""
    u = tint(z3.If(n >= 0, n, n + 2**29))
    u = as_int(u)
    Ch = R.Ch
    b = lambda t: Ch(z3.simplify(t))
    if ex.branch(u < 0x80): return R.mk('b', [b(u)])
    if ex.branch(u < 0x4000): return R.mk('b', [b(128 + u / 128), b(u % 128)])
    if ex.branch(u < 0x200000): return R.mk('b', [b(128 + u / 2**14), b(128 + (u / 128) % 128), b(u % 128)])
    return R.mk('b', [b(128 + u / 2**22), b(128 + (u / 2**15) % 128), b(128 + (u / 256) % 128), b(u % 256)])

def cache(ex):
    """ENCODED_INT_CACHE is arbitrary but maps every key it holds to its specified encoding; writes must keep that"""
    d = G(ex, 'pyamf.amf3.ENCODED_INT_CACHE')
    def check(ex, k, v):
        if not isinstance(k, (int, SymInt)): return ex.prove(False, 'cache-key', repr(k))
        ex.prove(z3.And(as_int(k) >= LO, as_int(k) <= HI), 'cache-key-in-range')
        same_bytes(ex, v, spec(ex, as_int(k)), 'cache-invariant')
    ex.heap.w(d.a).base = AbsDict('ENCODED_INT_CACHE', lambda ex, k: spec(ex, as_int(k)) if k_ok(ex, k) else MISS, check)
def k_ok(ex, k): return isinstance(k, (int, SymInt)) and ex.branch(z3.And(as_int(k) >= LO, as_int(k) <= HI))

def encode_layout(ex):
    """for every n in [-2^28, 2^28) and every cache content: encode_int(n) is exactly the specified 1-4 bytes, and the cache
    invariant is preserved"""
    n = ex.int('n', LO, HI); replay_int(ex, 'roundtrip_signed', n.t)
    cache(ex)
    e = call(ex, 'pyamf.amf3.encode_int', n)
    want = spec(ex, n.t)
    ex.cover('len%s' % R.length(ex, want))
    same_bytes(ex, e, want, 'encode_int-layout')

def encode_refuses(ex):
    """outside [-2^28, 2^28) encode_int raises OverflowError, whatever the cache holds"""
    n = ex.int('n'); replay_int(ex, 'range_refused', n.t)
    ex.assume(z3.Or(n.t < LO, n.t > HI))
    cache(ex)
    r = result(ex, lambda: call(ex, 'pyamf.amf3.encode_int', n))
    ex.prove(r[0] == 'exc' and r[1] == 'OverflowError', 'encode_int-refuses', r)

def decode(signed):
    def decode_(ex):
        """for every unsigned 29-bit u, decode_int on its specified bytes (with anything before and after) gives u, or its
        two's complement when signed, and consumes exactly those bytes"""
        u = ex.int('u', 0, 2**29 - 1); replay_int(ex, 'decode_unsigned', u.t)
        pre = R.sym_str(ex, 'before'); rest = R.sym_str(ex, 'after')
        e = spec(ex, u.t)
        st = stream(ex, R.concat(ex, R.concat(ex, pre, e), rest))
        p = R.length(ex, pre)
        meth(ex, st, 'seek', mkint(p))
        v = call(ex, 'pyamf.amf3.decode_int', st, signed)
        want = z3.If(u.t >= 2**28, u.t - 2**29, u.t) if signed else u.t
        ex.cover('len%s' % R.length(ex, e))
        ex.prove(as_int(v) == want, 'decode_int-value')
        ex.prove(as_int(meth(ex, st, 'tell')) == as_int(p) + as_int(R.length(ex, e)), 'decode_int-consumes')
    return decode_

def roundtrip(ex):
    """decode_int(encode_int(n), True) == n for every signed 29-bit n"""
    n = ex.int('n', LO, HI); replay_int(ex, 'roundtrip_signed', n.t)
    cache(ex)
    st = stream(ex, call(ex, 'pyamf.amf3.encode_int', n))
    v = call(ex, 'pyamf.amf3.decode_int', st, True)
    ex.prove(as_int(v) == n.t, 'roundtrip-value')
    ex.prove(call(ex, attr(ex, st, 'at_eof')), 'roundtrip-consumes-all')

def truncated(ex):
    """fewer bytes than the encoding announces: IOError"""
    k = ex.choice(4)
    bs = [R.Ch(ex.int('b', 128, 255).t) for _ in range(k)]
    st = stream(ex, R.mk('b', bs))
    signed = bool(ex.choice(2))
    r = result(ex, lambda: call(ex, 'pyamf.amf3.decode_int', st, signed))
    ex.prove(r[0] == 'exc' and r[1] == 'IOError', 'decode_int-truncated', r)

def lemmas(world, tier):
    C = ('len1', 'len2', 'len3', 'len4')
    return [Lemma('C01.encode_layout', encode_layout, cover=C), Lemma('C01.encode_refuses', encode_refuses),
            Lemma('C01.decode_unsigned', decode(False), cover=C), Lemma('C01.decode_signed', decode(True), cover=C),
            Lemma('C01.roundtrip', roundtrip), Lemma('C01.truncated', truncated)]
