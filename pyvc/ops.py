"""Operators."""
import z3, fractions, math
from .core import *
from . import rope as R
from .rope import is_text, is_str, is_uni, Rope
from . import interp as I

INTS = (bool, int, SymInt, SymBool)
FLOATS = (float, SymFloat)

U53 = z3.Q(1, 2**53)

def fl(ex, t, tag):
    """the double nearest to the real t: |fl(t) - t| <= 2^-53 |t| (no subnormals, no overflow: side conditions below)"""
    t = z3.simplify(t)
    k = ('fl', str(t))
    r = ex.memo.get(k)
    if r is None:
        r = z3.Real(ex.fresh('fl'))
        ab = z3.If(t >= 0, t, -t)
        ex.assume(z3.And(r - t <= U53 * ab, t - r <= U53 * ab))
        # whole numbers a double holds are not rounded; otherwise the error is at most half a unit of the last place of the binade
        if ex.ghost.get('fl_int'): ex.assume(z3.Implies(z3.And(z3.IsInt(t), ab <= 2**53), r == t))
        ex.assume(z3.And(*[z3.Implies(ab < 2**b, z3.And(r - t <= z3.Q(1, 2**(54 - b)), t - r <= z3.Q(1, 2**(54 - b)))) for b in (0, 20, 30, 40)]))
        ex.memo[k] = r
    ex.ghost.setdefault('float_rounding', 0)
    return r

def float_of_int(ex, v):
    """float(n)"""
    if isinstance(v, (bool, int)):
        try: return float(v)
        except OverflowError: ex.raise_('OverflowError', b'long too large to convert to float')
    t = as_int(v)
    if ex.branch(z3.And(t >= -2**53, t <= 2**53)):
        return SymFloat(z3.ToReal(t))
    lim = 2**1024 - 2**970
    if ex.branch(z3.Or(t >= lim, t <= -lim)):
        ex.raise_('OverflowError', b'long too large to convert to float')
    r = z3.Function('i2f', z3.IntSort(), z3.RealSort())(t)
    rt = z3.ToReal(t)
    ab = z3.If(t >= 0, rt, -rt)
    ex.assume(z3.And(r - rt <= U53 * ab, rt - r <= U53 * ab))
    # doubles beyond 2^53 are integers
    ex.assume(z3.ToReal(z3.ToInt(r)) == r)
    return SymFloat(r)

def py_floordiv(a, b):   # z3 Int div is euclidean; for positive divisors it is floor
    return a / b

def pow2(t): return 2 ** t

def shift_amount(ex, b):
    if isinstance(b, bool): b = int(b)
    if isinstance(b, int): return b
    raise OutOfReach('shift by a symbolic amount')

def lowmask(c):
    """n when c == 2^n - 1"""
    if c >= 0 and (c & (c + 1)) == 0: return c.bit_length()
    return None

def _num(t): return t.as_long() if z3.is_int_value(t) else None

def modc(x, m):
    """x % m for a positive constant, with nested div/mod by constants normalised"""
    x = z3.simplify(x)
    v = _num(x)
    if v is not None: return z3.IntVal(v % m)
    if z3.is_mod(x):
        c = _num(x.arg(1))
        if c is not None and c > 0:
            if c % m == 0: return modc(x.arg(0), m)
            if m % c == 0: return x
    if z3.is_add(x):
        keep = []; ch = False
        for a in x.children():
            n = _num(a)
            if n is not None:
                if n % m != n: ch = True
                if n % m: keep.append(z3.IntVal(n % m))
                continue
            if z3.is_mul(a) and a.num_args() == 2 and _num(a.arg(0)) is not None:
                k = _num(a.arg(0))
                if k % m == 0: ch = True; continue
            if z3.is_mod(a) and _num(a.arg(1)) is not None and _num(a.arg(1)) % m == 0:
                keep.append(a.arg(0)); ch = True; continue
            keep.append(a)
        if ch:
            if not keep: return z3.IntVal(0)
            return modc(z3.Sum(keep) if len(keep) > 1 else keep[0], m)
    if z3.is_mul(x) and x.num_args() == 2 and _num(x.arg(0)) is not None and _num(x.arg(0)) % m == 0: return z3.IntVal(0)
    return x % m

def divc(x, d):
    """floor(x / d) for a positive constant"""
    if d == 1: return x
    x = z3.simplify(x)
    v = _num(x)
    if v is not None: return z3.IntVal(v // d)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_IDIV:
        c = _num(x.arg(1))
        if c is not None and c > 0: return divc(x.arg(0), c * d)
    if z3.is_mod(x):
        c = _num(x.arg(1))
        if c is not None and c > 0 and c % d == 0: return modc(divc(x.arg(0), d), c // d)
    if z3.is_add(x):
        out = []; rest = []
        for a in x.children():
            n = _num(a)
            if n is not None:
                q, r = divmod(n, d)
                if q: out.append(z3.IntVal(q))
                if r: rest.append(z3.IntVal(r))
            elif z3.is_mul(a) and a.num_args() == 2 and _num(a.arg(0)) is not None and _num(a.arg(0)) % d == 0:
                out.append((_num(a.arg(0)) // d) * a.arg(1))
            else: rest.append(a)
        if out:
            if rest: out.append(divc(z3.Sum(rest) if len(rest) > 1 else rest[0], d))
            return z3.Sum(out) if len(out) > 1 else out[0]
    if z3.is_mul(x) and x.num_args() == 2 and _num(x.arg(0)) is not None and _num(x.arg(0)) % d == 0:
        return (_num(x.arg(0)) // d) * x.arg(1)
    return x / d

def bit_and(ex, x, c):
    """x & c for an integer term and a constant"""
    if c == 0: return z3.IntVal(0)
    n = lowmask(c)
    if n is not None: return modc(x, 2 ** n)
    if c < 0:
        # x & ~m = x - (x & m)
        m = ~c
        return x - bit_and(ex, x, m)
    # runs of ones
    out = z3.IntVal(0); i = 0
    while c >> i:
        if (c >> i) & 1:
            j = i
            while (c >> j) & 1: j += 1
            out = out + modc(divc(x, 2 ** i), 2 ** (j - i)) * (2 ** i)
            i = j
        else: i += 1
    return out

def disjoint_or(ex, x, y):
    """x | y when one is a multiple of 2^k and the other lies in 0..2^k-1"""
    for k in (1, 2, 3, 4, 7, 8, 14, 16, 24, 29, 32, 64):
        for a, b in ((x, y), (y, x)):
            if ex.valid(z3.And(a % (2 ** k) == 0, b >= 0, b < 2 ** k)): return a + b
    return None

def bit_or(ex, a, b):
    x, y = as_int(a), as_int(b)
    cx, cy = tint(x), tint(y)
    if isinstance(cy, int): return x + cy - bit_and(ex, x, cy)
    if isinstance(cx, int): return y + cx - bit_and(ex, y, cx)
    r = disjoint_or(ex, x, y)
    if r is not None: return r
    if ex.valid(z3.And(x >= 0, x < 2 ** 64, y >= 0, y < 2 ** 64)):
        return z3.BV2Int(z3.Int2BV(x, 64) | z3.Int2BV(y, 64))
    raise OutOfReach('| of unbounded symbolic integers')

def kindmix(a, b):
    """int/long kind of a result"""
    return None

def binop(ex, op, a, b):
    if isinstance(a, INTS) and isinstance(b, INTS):
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int): return int_concrete(ex, op, a, b)
        x, y = as_int(a), as_int(b)
        if op == 'Add': return mkint(x + y)
        if op == 'Sub': return mkint(x - y)
        if op == 'Mult': return mkint(x * y)
        if op == 'LShift': return mkint(x * (2 ** shift_amount(ex, b)))
        if op == 'RShift': return mkint(divc(x, 2 ** shift_amount(ex, b)))
        if op == 'BitAnd':
            if isinstance(b, int): return mkint(bit_and(ex, x, b))
            if isinstance(a, int): return mkint(bit_and(ex, y, a))
            if ex.valid(z3.And(x >= 0, x < 2 ** 64, y >= 0, y < 2 ** 64)):
                return mkint(z3.BV2Int(z3.Int2BV(x, 64) & z3.Int2BV(y, 64)))
            raise OutOfReach('& of unbounded symbolic integers')
        if op == 'BitOr': return mkint(bit_or(ex, a, b))
        if op == 'BitXor':
            if isinstance(b, int): return mkint(x + b - 2 * bit_and(ex, x, b))
            if isinstance(a, int): return mkint(y + a - 2 * bit_and(ex, y, a))
            if ex.valid(z3.And(x >= 0, x < 2 ** 64, y >= 0, y < 2 ** 64)):
                return mkint(z3.BV2Int(z3.Int2BV(x, 64) ^ z3.Int2BV(y, 64)))
            raise OutOfReach('^ of symbolic integers')
        if op in ('FloorDiv', 'Div', 'Mod'):
            if isinstance(b, int):
                if b == 0: ex.raise_('ZeroDivisionError', b'integer division or modulo by zero')
                if b > 0: return mkint(divc(x, b) if op != 'Mod' else modc(x, b))
            raise OutOfReach('division by a symbolic or negative integer')
        raise OutOfReach('int operator %s' % op)
    if isinstance(a, INTS + FLOATS) and isinstance(b, INTS + FLOATS):
        return float_op(ex, op, a, b)
    if is_text(a):
        if op == 'Add':
            if not is_text(b): 
                return reflected(ex, op, a, b)
            return R.concat(ex, a, b)
        if op == 'Mult' and isinstance(b, int) and isinstance(a, (bytes, str)): return a * b
        if op == 'Mod': return ex.world.format(ex, a, b)
    if is_text(b) and op == 'Mult' and isinstance(a, int): return b * a
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add': return a + b
    ra, rb = I.rec(ex, a), I.rec(ex, b)
    if op == 'Add' and isinstance(ra, HList) and isinstance(rb, HList):
        return I.new_list(ex, list(ra.items) + list(rb.items))
    if op == 'Mult' and isinstance(ra, HList) and isinstance(b, int):
        return I.new_list(ex, list(ra.items) * b)
    if op == 'Mult' and isinstance(a, tuple) and isinstance(b, int): return a * b
    if isinstance(ra, HSet) and isinstance(rb, HSet) and op in ('Sub', 'BitOr', 'BitAnd'):
        m = {'Sub': 'difference', 'BitOr': 'union', 'BitAnd': 'intersection'}[op]
        return I.call_method(ex, a, m, b)
    if isinstance(a, Opaque):
        h = a.props.get('binop')
        if h is not None: return h(ex, op, a, b)
    if isinstance(b, Opaque):
        h = b.props.get('rbinop')
        if h is not None: return h(ex, op, a, b)
    if isinstance(ra, HObj):
        nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'BitOr': '__or__', 'BitAnd': '__and__', 'Div': '__div__',
              'Mod': '__mod__'}.get(op)
        f = I.class_lookup(ex, ra.cls, nm) if nm else I._MISS
        if f is not I._MISS: return I.call(ex, I.bind(ex, f, a, ra.cls), [b])
    return reflected(ex, op, a, b)

def reflected(ex, op, a, b):
    rb = I.rec(ex, b)
    if isinstance(rb, HObj):
        nm = {'Add': '__radd__', 'Sub': '__rsub__', 'Mult': '__rmul__'}.get(op)
        f = I.class_lookup(ex, rb.cls, nm) if nm else I._MISS
        if f is not I._MISS: return I.call(ex, I.bind(ex, f, b, rb.cls), [a])
    for v in (a, b):
        if isinstance(v, (Opaque, Unmodelled)): raise OutOfReach('operator %s on %r' % (op, v))
    ex.raise_('TypeError', b'unsupported operand type(s)')

def int_concrete(ex, op, a, b):
    try:
        if op == 'Add': return a + b
        if op == 'Sub': return a - b
        if op == 'Mult': return a * b
        if op in ('Div', 'FloorDiv'): return a // b
        if op == 'Mod': return a % b
        if op == 'LShift': return a << b
        if op == 'RShift': return a >> b
        if op == 'BitAnd': return a & b
        if op == 'BitOr': return a | b
        if op == 'BitXor': return a ^ b
        if op == 'Pow': return a ** b
    except ZeroDivisionError: ex.raise_('ZeroDivisionError', b'')
    raise OutOfReach(op)

def float_op(ex, op, a, b):
    if isinstance(a, (bool, int)): a = float_of_int(ex, a)
    elif isinstance(a, (SymInt, SymBool)): a = float_of_int(ex, a)
    if isinstance(b, (bool, int)): b = float_of_int(ex, b)
    elif isinstance(b, (SymInt, SymBool)): b = float_of_int(ex, b)
    if isinstance(a, float) and isinstance(b, float):
        try:
            if op == 'Add': return a + b
            if op == 'Sub': return a - b
            if op == 'Mult': return a * b
            if op == 'Div': return a / b
            if op == 'Mod': return math.fmod(a, b)
        except ZeroDivisionError: ex.raise_('ZeroDivisionError', b'')
        raise OutOfReach('float %s' % op)
    for v in (a, b):
        if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))): raise OutOfReach('special float arithmetic')
    x, y = I.num_term(ex, a), I.num_term(ex, b)
    if op == 'Add': return SymFloat(fl(ex, x + y, 'add'))
    if op == 'Sub': return SymFloat(fl(ex, x - y, 'sub'))
    if op == 'Mult': return SymFloat(fl(ex, x * y, 'mul'))
    if op == 'Div':
        if isinstance(b, float) and b != 0: return SymFloat(fl(ex, x / y, 'div'))
    raise OutOfReach('float operator %s' % op)

def unop(ex, op, v):
    if op == 'Not': return not I.truth(ex, v)
    if op == 'USub':
        if isinstance(v, (bool, int, float)): return -v
        if isinstance(v, (SymInt, SymBool)): return mkint(-as_int(v))
        if isinstance(v, SymFloat): return SymFloat(-v.t)
    if op == 'UAdd': return v
    if op == 'Invert':
        if isinstance(v, int): return ~v
        if isinstance(v, SymInt): return mkint(-as_int(v) - 1)
    raise OutOfReach('unary %s' % op)

def compare(ex, op, a, b):
    """bool or SymBool"""
    if op == 'Eq': return I.mkbool(I.eq(ex, a, b))
    if op == 'NotEq':
        e = I.eq(ex, a, b)
        return (not e) if isinstance(e, bool) else I.mkbool(z3.Not(e))
    if op == 'Is': return I.mkbool(I.is_(ex, a, b))
    if op == 'IsNot':
        e = I.is_(ex, a, b)
        return (not e) if isinstance(e, bool) else I.mkbool(z3.Not(e))
    if op == 'In': return contains(ex, b, a)
    if op == 'NotIn': 
        e = contains(ex, b, a)
        return (not e) if isinstance(e, bool) else I.mkbool(z3.Not(e.t))
    # ordering
    if isinstance(a, I.NUM) and isinstance(b, I.NUM):
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        for v, o, sw in ((a, b, 0), (b, a, 1)):
            if isinstance(v, float) and (v != v): return False
            if isinstance(v, float) and v in (float('inf'), float('-inf')):
                big = v > 0
                if sw: return {'Lt': big, 'LtE': big, 'Gt': not big, 'GtE': not big}[op]
                return {'Lt': not big, 'LtE': not big, 'Gt': big, 'GtE': big}[op]
        x, y = I.num_term(ex, a), I.num_term(ex, b)
        if x.is_real() or y.is_real(): x, y = I.to_real(x), I.to_real(y)
        return I.mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if isinstance(a, (bytes, str)) and isinstance(b, (bytes, str)) and type(a) is type(b):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, Opaque) and a.props.get('cmp'): return a.props['cmp'](ex, op, a, b)
    raise OutOfReach('ordering of %r and %r' % (a, b))

def contains(ex, c, x):
    if isinstance(c, tuple): return any_eq(ex, c, x)
    if isinstance(c, (bytes, str)) and isinstance(x, (bytes, str)):
        if type(c) is type(x): return x in c
        return (x if isinstance(x, str) else x.decode('latin-1')) in (c if isinstance(c, str) else c.decode('latin-1'))
    if isinstance(c, Opaque):
        h = c.props.get('contains')
        if h is not None: return h(ex, c, x)
    if is_text(c): raise OutOfReach('substring of a symbolic string')
    r = I.rec(ex, c)
    if isinstance(r, HList): return any_eq(ex, r.items, x)
    if isinstance(r, HDict): return I.dict_lookup(ex, c, x) is not I._MISS
    if isinstance(r, HSet): return I.set_has(ex, c, x)
    if isinstance(r, HObj):
        f = I.class_lookup(ex, r.cls, '__contains__')
        if f is not I._MISS and isinstance(I.rec(ex, f), HFunc):
            return I.truth(ex, I.call(ex, I.bind(ex, f, c, r.cls), [x]))
        if r.payload is not None: return contains(ex, r.payload, x)
        f = I.class_lookup(ex, r.cls, '__iter__')
        if f is not I._MISS: return any_eq(ex, I.iterate(ex, c), x)
    if isinstance(c, XRange): raise OutOfReach('in xrange')
    ex.raise_('TypeError', b'argument is not iterable')

def piece_where(ex, p, x):
    """the first place of a value in a symbolic sequence, or None"""
    w = getattr(p, 'where', None)
    if w is None: raise OutOfReach('membership in a symbolic list')
    return w(ex, x)

def any_eq(ex, items, x):
    cs = []
    for y in items:
        if I.is_piece(y):
            if piece_where(ex, y, x) is not None: return True
            continue
        e = I.is_(ex, x, y) if not (isinstance(x, I.NUM) or is_text(x) or isinstance(x, Opaque)) else False
        if e is True: return True
        e = I.eq(ex, y, x)
        if e is True: return True
        if e is not False: cs.append(e)
    if not cs: return False
    return I.mkbool(z3.Or(*cs))
