"""Symbolic byte strings (kind 'b', Python 2 str) and unicode strings (kind 'u')."""
import z3
from .core import *

class Atom(object):
    """An opaque run of bytes/characters named by fname and integer index terms."""
    def __init__(self, ex, fname, ix, kind, length=None, meta=None, minlen=0):
        self.fname = fname; self.ix = tuple(ix); self.kind = kind; self.meta = meta
        if length is None:
            f = z3.Function('len:' + fname, *([z3.IntSort()] * (len(self.ix) + 1)))
            length = f(*self.ix) if self.ix else z3.Int('len:' + fname)
            ex.assume(length >= minlen)
        self.length = length
        self.min = minlen
    def key(self): return (self.fname,) + tuple(str(i) for i in self.ix)
    def at(self, ex, i):
        if self.meta and self.meta[0] == 'ascii':       # the characters of an ASCII text as bytes
            c = as_int(char_term(ex, slice_(ex, self.meta[1], tint(as_int(i)), tint(as_int(i) + 1))))
            ex.assume(z3.And(c >= 0, c < 128)); return c
        f = z3.Function('at:' + self.fname, *([z3.IntSort()] * (len(self.ix) + 2)))
        t = f(*(list(self.ix) + [as_int(i)]))
        ex.assume(z3.And(t >= 0, t <= (255 if self.kind == 'b' else 0x10ffff)))
        return t
    def same(self, ex, o):
        if self is o: return True
        if self.fname != o.fname or len(self.ix) != len(o.ix): return False
        for a, b in zip(self.ix, o.ix):
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and z3.eq(a, b): continue
            if not ex.valid(a == b): return False
        return True
    def __repr__(self): return '%s%s' % (self.fname, list(self.ix) if self.ix else '')

class Lit(object):
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return repr(self.s)
class Ch(object):
    __slots__ = ('t', 'org')
    def __init__(self, t, org=None): self.t = t; self.org = org
    def __repr__(self): return '<%s>' % (self.t,)
class Seg(object):
    __slots__ = ('atom', 'lo', 'hi')
    def __init__(self, atom, lo, hi): self.atom = atom; self.lo = lo; self.hi = hi
    def __repr__(self): return '{%r[%s:%s]}' % (self.atom, self.lo, self.hi)
class RLoop(object):
    """items lo..hi-1 of an accumulating loop"""
    __slots__ = ('lid', 'lo', 'hi')
    def __init__(self, lid, lo, hi): self.lid = lid; self.lo = lo; self.hi = hi
    def __repr__(self): return '{loop %s[%s:%s]}' % (self.lid, self.lo, self.hi)

class Rope(object):
    __slots__ = ('kind', 'parts', 'named')
    def __init__(self, kind, parts): self.kind = kind; self.parts = parts; self.named = None
    def __repr__(self): return 'Rope%s%r' % (self.kind, self.parts)

def is_str(v): return isinstance(v, bytes) or (isinstance(v, Rope) and v.kind == 'b')
def is_uni(v): return isinstance(v, str) or (isinstance(v, Rope) and v.kind == 'u')
def is_text(v): return isinstance(v, (bytes, str, Rope))
def kind_of(v): return 'b' if is_str(v) else 'u'

def parts_of(v):
    if isinstance(v, Rope): return list(v.parts)
    return [Lit(v)] if v else []

def mk(kind, parts):
    out = []
    for p in parts:
        if isinstance(p, Ch):
            t = tint(p.t)
            if isinstance(t, int):
                p = Lit(bytes([t]) if kind == 'b' else chr(t))
        if isinstance(p, Lit):
            if not p.s: continue
            if out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].s + p.s); continue
        elif isinstance(p, Seg):
            lo, hi = tint(p.lo), tint(p.hi)
            if same_term(lo, hi): continue
            if out and isinstance(out[-1], Seg) and out[-1].atom is p.atom and same_term(out[-1].hi, lo):
                out[-1] = Seg(p.atom, out[-1].lo, hi); continue
            p = Seg(p.atom, lo, hi)
        elif isinstance(p, RLoop):
            lo, hi = tint(p.lo), tint(p.hi)
            if same_term(lo, hi): continue
            if out and isinstance(out[-1], RLoop) and out[-1].lid == p.lid and same_term(out[-1].hi, lo):
                out[-1] = RLoop(p.lid, out[-1].lo, hi); continue
            p = RLoop(p.lid, lo, hi)
        out.append(p)
    if not out: return b'' if kind == 'b' else ''
    if len(out) == 1 and isinstance(out[0], Lit): return out[0].s
    return Rope(kind, out)

def same_term(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return z3.eq(z3.simplify(a), z3.simplify(b))

def whole(atom): return Seg(atom, 0, atom.length)
def atom_rope(atom): return mk(atom.kind, [whole(atom)])

def sym_str(ex, name, kind='b', length=None, minlen=0, ix=(), meta=None):
    """an arbitrary string"""
    return atom_rope(Atom(ex, name if ix else ex.fresh(name), ix, kind, length, meta, minlen))

def loop_len(ex, lid, lo, hi):
    lo, hi = as_int(lo), as_int(hi)
    k = ('looplen', lid, lo.get_id(), hi.get_id())
    if k in ex.memo: return ex.memo[k][0]
    f = z3.Function('looplen:%s' % lid, z3.IntSort(), z3.IntSort(), z3.IntSort())
    t = f(lo, hi)
    ex.memo[k] = (t, lo, hi)
    ex.assume(t >= 0)
    ex.assume(z3.Implies(as_int(lo) == as_int(hi), t == 0))
    return t

def part_len(ex, p):
    if isinstance(p, Lit): return len(p.s)
    if isinstance(p, Ch): return 1
    if isinstance(p, RLoop): return loop_len(ex, p.lid, p.lo, p.hi)
    return tint(as_int(p.hi) - as_int(p.lo))

def length(ex, v):
    if isinstance(v, (bytes, str)): return len(v)
    n = 0; syms = []
    for p in v.parts:
        l = part_len(ex, p)
        if isinstance(l, int): n += l
        else: syms.append(l)
    if not syms: return n
    return tint(z3.Sum([z3.IntVal(n)] + syms) if n or len(syms) > 1 else syms[0])

def concat(ex, a, b):
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb:
        a, b = to_unicode_ascii(ex, a), to_unicode_ascii(ex, b)
        ka = 'u'
    return mk(ka, parts_of(a) + parts_of(b))

def to_unicode_ascii(ex, v):
    if is_uni(v): return v
    if isinstance(v, bytes):
        try: return v.decode('ascii')
        except UnicodeDecodeError: ex.raise_('UnicodeDecodeError', b'ascii')
    ps = []
    for p in v.parts:
        if isinstance(p, Lit):
            try: ps.append(Lit(p.s.decode('ascii')))
            except UnicodeDecodeError: ex.raise_('UnicodeDecodeError', b'ascii')
        elif isinstance(p, Seg) and p.atom.meta and p.atom.meta[0] == 'ascii':
            ps.append(whole(ascii_uni(ex, p.atom)))
        else:
            raise OutOfReach('mixing unicode with arbitrary bytes')
    return mk('u', ps)

def ascii_uni(ex, atom):
    return Atom(ex, 'uni:' + atom.fname, atom.ix, 'u', atom.length, ('asciiu', atom))

def is_atomic(p):
    """chunks that may only be consumed as a whole"""
    return isinstance(p, Seg) and p.atom.meta is not None and p.atom.meta[0] in ('enc', 'dbl', 'flt', 'u29')

def cut(ex, parts, p):
    """split parts at offset p (0 <= p <= length holds); forks where the order is undecided"""
    left = []; right = list(parts)
    off = 0
    p = tint(p)
    guard = 0
    while right:
        guard += 1
        if guard > 400: raise OutOfReach('cut')
        if same_term(off, p): break
        h = right[0]
        l = part_len(ex, h)
        end = tint(as_int(off) + as_int(l))
        if isinstance(end, int) and isinstance(p, int):
            inside = p < end
        else:
            if ex.valid(as_int(p) <= as_int(off)):
                while len(right) > 1 and not isinstance(part_len(ex, right[0]), int) and ex.valid(as_int(part_len(ex, right[0])) == 0): left.append(right.pop(0))
                break
            if ex.branch(as_int(p) >= as_int(end)): inside = False
            elif ex.branch(as_int(p) <= as_int(off)): break
            else: inside = True
        if not inside:
            left.append(right.pop(0)); off = end; continue
        d = tint(as_int(p) - as_int(off))
        if isinstance(h, Lit):
            if not isinstance(d, int):
                # fork over the positions inside the literal
                for i in range(1, len(h.s)):
                    if ex.branch(as_int(d) == i): d = i; break
                else: raise Infeasible()
            left.append(Lit(h.s[:d])); right[0] = Lit(h.s[d:])
        elif isinstance(h, RLoop):
            m = split_point(ex, h, d)
            if m is not None:
                left.append(RLoop(h.lid, h.lo, m)); right[0] = RLoop(h.lid, m, h.hi)
                break
            m = split_before(ex, h, d)
            if m is not None:
                left.append(RLoop(h.lid, h.lo, m)); right[0] = RLoop(h.lid, m, h.hi)
                off = tint(as_int(off) + loop_len(ex, h.lid, h.lo, m))
                continue
            # unfold the first item
            right[0:1] = unfold_first(ex, h)
            continue
        elif is_atomic(h) and not (h.atom.meta[0] == 'enc' and same_term(d, 1) and same_term(h.lo, 0)):
            raise OutOfReach('reading inside an encoded chunk %r at %s' % (h, d))
        else:
            m = tint(as_int(h.lo) + as_int(d))
            left.append(Seg(h.atom, h.lo, m)); right[0] = Seg(h.atom, m, h.hi)
        break
    return left, right

def note_split(ex, lid, lo, m, hi):
    """items lo..hi are items lo..m followed by items m..hi"""
    k = ('splits', lid)
    ex.memo[k] = ex.memo.get(k, ()) + (m,)
    ex.assume(z3.Implies(z3.And(as_int(lo) <= as_int(m), as_int(m) <= as_int(hi)), loop_len(ex, lid, lo, hi) == loop_len(ex, lid, lo, m) + loop_len(ex, lid, m, hi)))

def split_point(ex, h, d):
    for m in ex.memo.get(('splits', h.lid), ()):
        if ex.valid(as_int(d) == loop_len(ex, h.lid, h.lo, m)) and ex.valid(z3.And(as_int(m) >= as_int(h.lo), as_int(m) <= as_int(h.hi))): return m
    return None

def split_before(ex, h, d):
    """a noted split that offset d lies behind"""
    for m in reversed(ex.memo.get(('splits', h.lid), ())):
        if same_term(m, h.lo): continue
        if ex.valid(z3.And(as_int(m) >= as_int(h.lo), as_int(m) <= as_int(h.hi))) and ex.valid(as_int(d) >= loop_len(ex, h.lid, h.lo, m)) and ex.branch(as_int(m) > as_int(h.lo)): return m
    return None

def unfold_first(ex, h):
    """RLoop[lo:hi] with lo < hi  ->  item(lo) ++ RLoop[lo+1:hi]"""
    if not ex.branch(as_int(h.lo) < as_int(h.hi)):
        ex.assume(loop_len(ex, h.lid, h.lo, h.hi) == 0)
        return []
    lp = ex.loopseg[h.lid]
    ps = lp.rope_item(ex, h.lo)
    nxt = tint(as_int(h.lo) + 1)
    tot = loop_len(ex, h.lid, h.lo, h.hi)
    rest = loop_len(ex, h.lid, nxt, h.hi)
    il = 0
    for q in ps: il = as_int(il) + as_int(part_len(ex, q))
    ex.assume(tot == il + rest)
    return ps + ([RLoop(h.lid, nxt, h.hi)] if not same_term(nxt, h.hi) else [])

def slice_(ex, v, lo, hi):
    """v[lo:hi] with 0 <= lo <= hi <= len"""
    if isinstance(v, (bytes, str)) and isinstance(lo, int) and isinstance(hi, int): return v[lo:hi]
    k = kind_of(v)
    ps = parts_of(v)
    _, r = cut(ex, ps, lo)
    if isinstance(hi, int) and isinstance(lo, int): n = hi - lo
    else: n = tint(as_int(hi) - as_int(lo))
    m, _ = cut(ex, r, n)
    return mk(k, m)

def char_term(ex, p):
    """the code of a one-character rope"""
    if isinstance(p, (bytes, str)): return p[0] if isinstance(p, bytes) else ord(p)
    h = p.parts[0]
    if isinstance(h, Ch): return SymInt(h.t, None, h.org)
    if isinstance(h, Seg): return SymInt(h.atom.at(ex, h.lo))
    if isinstance(h, RLoop): return char_term(ex, mk(p.kind, unfold_first(ex, h) + list(p.parts[1:])))
    return h.s[0] if isinstance(h.s, bytes) else ord(h.s[0])

def first_byte(ex, h, kind):
    if isinstance(h, Lit): return h.s[0] if kind == 'b' else ord(h.s[0])
    if isinstance(h, Ch): return h.t
    return h.atom.at(ex, h.lo)

def drop_first(h):
    if isinstance(h, Lit): return [Lit(h.s[1:])] if len(h.s) > 1 else []
    if isinstance(h, Ch): return []
    return [Seg(h.atom, tint(as_int(h.lo) + 1), h.hi)]

def digit(t):
    """(number, divisor, modulus) of a term (number div d) mod m"""
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1))): return None
    m = t.arg(1).as_long(); d = 1; u = t.arg(0)
    while z3.is_app(u) and u.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(u.arg(1)): d *= u.arg(1).as_long(); u = u.arg(0)
    return u, d, m

def same_digit(ex, a, b):
    """the same digit of two numbers that are always equal"""
    if a.eq(b): return True
    x, y = digit(a), digit(b)
    return x is not None and y is not None and x[1:] == y[1:] and not x[0].eq(y[0]) and ex.valid(x[0] == y[0])

def eq(ex, a, b):
    """equality of two strings: python bool or z3 Bool.  May fork."""
    if isinstance(a, (bytes, str)) and isinstance(b, (bytes, str)):
        if type(a) is type(b): return a == b
        x, y = (a, b) if isinstance(a, bytes) else (b, a)
        try: return x.decode('ascii') == y
        except UnicodeDecodeError: return False
    if kind_of(a) != kind_of(b):
        a2, b2 = (a, b) if is_str(a) else (b, a)     # a2 bytes, b2 unicode
        # equal in Python 2 iff the bytes are ascii and their text is the unicode string
        if isinstance(a2, bytes):
            try: return eq(ex, a2.decode('ascii'), b2)
            except UnicodeDecodeError: return False
        if isinstance(b2, str):
            try: return eq(ex, a2, b2.encode('ascii'))
            except UnicodeEncodeError: return False
        raise OutOfReach('comparing arbitrary bytes with arbitrary unicode')
    if 'names' in ex.ghost:
        from . import names
        if names.distinct(ex, a, b): return False
    k = kind_of(a)
    la, lb = length(ex, a), length(ex, b)
    conds = []
    if not same_term(la, lb):
        if isinstance(la, int) and isinstance(lb, int): return False
        c = as_int(la) == as_int(lb)
        if not ex.branch(c): return False
    A, B = parts_of(a), parts_of(b)
    guard = 0
    while A and B:
        guard += 1
        if guard > 3000: raise OutOfReach('string comparison')
        x, y = A[0], B[0]
        if isinstance(x, Seg) and isinstance(y, Seg) and x.atom.same(ex, y.atom) and \
                (same_term(x.lo, y.lo) or ex.valid(as_int(x.lo) == as_int(y.lo))):
            if same_term(x.hi, y.hi) or ex.valid(as_int(x.hi) == as_int(y.hi)):
                A.pop(0); B.pop(0); continue
            if ex.branch(as_int(x.hi) <= as_int(y.hi)):
                A.pop(0); B[0] = Seg(y.atom, x.hi, y.hi)
                if ex.valid(as_int(x.hi) == as_int(y.hi)): B.pop(0)
            else:
                B.pop(0); A[0] = Seg(x.atom, y.hi, x.hi)
            continue
        if isinstance(x, RLoop) and isinstance(y, RLoop) and x.lid == y.lid and ex.valid(as_int(x.lo) == as_int(y.lo)):
            if ex.valid(as_int(x.hi) == as_int(y.hi)): A.pop(0); B.pop(0); continue
            if ex.branch(as_int(x.hi) <= as_int(y.hi)): A.pop(0); B[0] = RLoop(y.lid, x.hi, y.hi)
            else: B.pop(0); A[0] = RLoop(x.lid, y.hi, x.hi)
            continue
        if isinstance(x, Lit) and isinstance(y, Lit):
            n = min(len(x.s), len(y.s))
            if x.s[:n] != y.s[:n]: return False
            A[0:1] = [Lit(x.s[n:])] if len(x.s) > n else []
            B[0:1] = [Lit(y.s[n:])] if len(y.s) > n else []
            continue
        if isinstance(x, RLoop): A[0:1] = unfold_first(ex, x); continue
        if isinstance(y, RLoop): B[0:1] = unfold_first(ex, y); continue
        # compare one character, when one side has a known next character and the other is not empty
        sx, sy = isinstance(x, (Lit, Ch)), isinstance(y, (Lit, Ch))
        if not sx:
            l = part_len(ex, x)
            if not isinstance(l, int) and not ex.branch(as_int(l) > 0): A.pop(0); continue
        if not sy:
            l = part_len(ex, y)
            if not isinstance(l, int) and not ex.branch(as_int(l) > 0): B.pop(0); continue
        if sx or sy:
            if is_atomic(x) or is_atomic(y):
                z, w = (x, y) if is_atomic(x) else (y, x)
                if z.atom.meta[0] in ('enc',):
                    fb = z.atom.at(ex, 0)
                    c = fb == as_int(first_byte(ex, w, k))
                    if not ex.branch(c): return False
                    raise OutOfReach('comparing an encoded chunk with bytes')
                raise OutOfReach('comparing the bytes of a float with other bytes')
            fx, fy = as_int(first_byte(ex, x, k)), as_int(first_byte(ex, y, k))
            c = z3.BoolVal(True) if same_digit(ex, fx, fy) else fx == fy
            c = z3.simplify(c) if isinstance(c, z3.ExprRef) else c
            if z3.is_false(c): return False
            if not z3.is_true(c): conds.append(c)
            A[0:1] = drop_first(x); B[0:1] = drop_first(y)
            continue
        # two different atoms
        if whole_atom(A) and whole_atom(B):
            e = same_atom_bool(ex, A[0].atom, B[0].atom)
            conds.append(e); A = []; B = []
            break
        f = z3.Bool('streq:%s|%s' % (key(mk(k, A)), key(mk(k, B))))
        conds.append(f); A = []; B = []
        break
    for rest in (A, B):
        for p in rest:
            l = part_len(ex, p)
            if isinstance(l, int):
                if l: return False
            else: conds.append(as_int(l) == 0)
    if not conds: return True
    return z3.And(*conds) if len(conds) > 1 else conds[0]

def whole_atom(parts):
    return len(parts) == 1 and isinstance(parts[0], Seg) and same_term(parts[0].lo, 0) and \
        same_term(tint(parts[0].hi), tint(parts[0].atom.length))

SID = z3.DeclareSort('StrId')
def sid(atom):
    f = z3.Function('sid:' + atom.fname, *([z3.IntSort()] * len(atom.ix) + [SID])) if atom.ix else None
    return f(*atom.ix) if f is not None else z3.Const('sid:' + atom.fname, SID)

def same_atom_bool(ex, a, b):
    ma, mb = a.meta, b.meta
    if ma and mb and ma[0] == mb[0] == 'utf8':
        return same_atom_bool(ex, ma[1], mb[1])
    if ma and mb and ma[0] == mb[0] and ma[0] in ('decimal', 'udecimal'):
        return ma[1] == mb[1]
    return sid(a) == sid(b)

def key(v):
    """structural name of a string"""
    if isinstance(v, (bytes, str)): return repr(v)
    if v.named is not None: return v.named
    out = []
    for p in v.parts:
        if isinstance(p, Lit): out.append(repr(p.s))
        elif isinstance(p, Ch): out.append('<%s>' % p.t)
        elif isinstance(p, RLoop): out.append('{%s:%s:%s}' % (p.lid, p.lo, p.hi))
        else: out.append('{%s[%s:%s]}' % ('|'.join(p.atom.key()), p.lo, p.hi))
    v.named = v.kind + '+'.join(out)
    return v.named

# ---- utf-8
def utf8(ex, v):
    """unicode -> bytes"""
    if isinstance(v, str):
        return v.encode('utf-8', 'surrogatepass')
    out = []
    for p in v.parts:
        if isinstance(p, Lit): out.append(Lit(p.s.encode('utf-8', 'surrogatepass')))
        elif isinstance(p, Seg) and whole_atom([p]):
            out.extend(utf8_atom(ex, p.atom))
        else:
            raise OutOfReach('utf-8 of a part of a string')
    return mk('b', out)

def utf8_atom(ex, a):
    if a.meta and a.meta[0] == 'utf8dec': return parts_of(a.meta[1])
    if a.meta and a.meta[0] == 'asciiu': return [whole(a.meta[1])]
    if a.meta and a.meta[0] == 'udecimal':
        return [whole(decimal_atom(ex, a.meta[1], 'b'))]
    k = ('utf8',) + a.key()
    r = ex.memo.get(k)
    if r is None:
        r = Atom(ex, 'utf8:' + a.fname, a.ix, 'b', None, ('utf8', a))
        n = as_int(a.length)
        ex.assume(z3.And(r.length >= n, r.length <= 4 * n))
        ex.memo[k] = r
    return [whole(r)]

def utf8_decode(ex, v):
    """bytes -> unicode or UnicodeDecodeError"""
    if isinstance(v, bytes):
        try: return v.decode('utf-8')
        except UnicodeDecodeError: ex.raise_('UnicodeDecodeError', b'utf-8')
    out = []
    for p in v.parts:
        if isinstance(p, Lit):
            try: out.append(Lit(p.s.decode('utf-8')))
            except UnicodeDecodeError: out = None; break
        elif isinstance(p, Seg) and whole_atom([p]) and p.atom.meta and p.atom.meta[0] == 'utf8':
            out.append(whole(p.atom.meta[1]))
        elif isinstance(p, Seg) and whole_atom([p]) and p.atom.meta and p.atom.meta[0] == 'decimal':
            out.append(whole(decimal_atom(ex, p.atom.meta[1], 'u')))
        elif isinstance(p, Seg) and whole_atom([p]) and p.atom.meta and p.atom.meta[0] == 'ascii':
            out.append(whole(ascii_uni(ex, p.atom)))
        else:
            out = None; break
    if out is not None: return mk('u', out)
    k = key(v)
    ok = z3.Bool('isutf8:' + k)
    if not ex.branch(ok): ex.raise_('UnicodeDecodeError', b'utf-8')
    r = ex.memo.get(('utf8dec', k))
    if r is None:
        r = Atom(ex, 'utf8dec:' + k, (), 'u', None, ('utf8dec', v))
        n = as_int(length(ex, v))
        ex.assume(z3.And(r.length <= n, n <= 4 * r.length))
        ex.memo[('utf8dec', k)] = r
    return atom_rope(r)

def decimal_atom(ex, t, kind):
    """str(int): the decimal digits of an integer"""
    t = z3.simplify(as_int(t))
    k = ('decimal', kind, str(t))
    r = ex.memo.get(k)
    if r is None:
        L = z3.Function('declen', z3.IntSort(), z3.IntSort())(t)
        ex.assume(z3.And(L >= 1, L <= 4096))
        r = Atom(ex, ('decimal' if kind == 'b' else 'udecimal'), (t,), kind, L,
                 ('decimal' if kind == 'b' else 'udecimal', t))
        ex.memo[k] = r
    return r
