"""datetime: naive datetimes as whole microseconds since 1970-01-01T00:00 (an integer), timedeltas as microseconds."""
import z3, datetime as _dt
from .core import *
from . import interp as I, rope as R, ops
from .interp import _MISS, rec

EPOCH = _dt.datetime(1970, 1, 1)
MIN_US = (_dt.datetime(1, 1, 1) - EPOCH) // _dt.timedelta(microseconds=1)
MAX_US = (_dt.datetime(9999, 12, 31, 23, 59, 59, 999999) - EPOCH) // _dt.timedelta(microseconds=1)
DAY = 86400 * 10**6

def mk(ex, kind, us):
    o = HObj(I.T(ex, kind)); o.f['us'] = us
    return ex.heap.new(o)
def us_of(ex, v): return ex.heap.get(v.a).f['us']
def is_kind(ex, v, kind):
    r = rec(ex, v)
    return isinstance(r, HObj) and 'us' in r.f and I.is_subclass(ex, r.cls, I.T(ex, kind))

def new_datetime(ex, us):
    u = tint(as_int(us))
    if isinstance(u, int): ok = MIN_US <= u <= MAX_US
    else: ok = ex.branch(z3.And(u >= MIN_US, u <= MAX_US))
    if not ok: ex.raise_('OverflowError', b'date value out of range')
    return mk(ex, 'datetime', u)

def ints(a):
    if not all(isinstance(x, int) for x in a): raise OutOfReach('symbolic date fields')
    return a

def c_datetime(ex, c, a, k):
    if k: raise OutOfReach('datetime keywords')
    try: d = _dt.datetime(*ints(a))
    except ValueError: ex.raise_('ValueError', b'date')
    return mk(ex, 'datetime', (d - EPOCH) // _dt.timedelta(microseconds=1))
def c_date(ex, c, a, k):
    d = _dt.datetime(*ints(a))
    return mk(ex, 'date', (d - EPOCH) // _dt.timedelta(microseconds=1))
def c_time(ex, c, a, k):
    t = _dt.time(*ints(a))
    return mk(ex, 'time', ((t.hour * 60 + t.minute) * 60 + t.second) * 10**6 + t.microsecond)
def c_timedelta(ex, c, a, k):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    mult = dict(days=DAY, seconds=10**6, microseconds=1, milliseconds=1000, minutes=60 * 10**6, hours=3600 * 10**6, weeks=7 * DAY)
    vals = dict(zip(names, a)); vals.update(k)
    t = z3.IntVal(0)
    for n, v in vals.items():
        if isinstance(v, (bool, int, SymInt)): t = t + as_int(v) * mult[n]
        elif isinstance(v, float) and v == v: 
            import fractions
            t = t + int(round(fractions.Fraction(v) * mult[n]))
        elif isinstance(v, SymFloat): t = t + round_us(ex, v.t, mult[n])
        else: ex.raise_('TypeError', b'timedelta')
    return mk(ex, 'timedelta', tint(t))

def round_us(ex, real, mult=10**6):
    """nearest integer number of microseconds; either neighbour when tied.  Jython computes it in doubles: the result is within
    one half plus the rounding error of the product (bounded by 2^-50 of the magnitude)"""
    n = z3.Int(ex.fresh('us'))
    x = real * mult
    ab = z3.If(x >= 0, x, -x)
    eps = z3.Q(1, 2) + ab * z3.Q(1, 2**51)
    ex.assume(z3.And(z3.ToReal(n) - x <= eps, x - z3.ToReal(n) <= eps))
    return n

def split_round(ex, real):
    """whole seconds plus the rounded microseconds of the fraction, as the library computes it: divmod(t, 1.0) is off by at most
    2^-54, the product with 1e6 by 2^-33, and the rounding is to the nearest"""
    n = z3.Int(ex.fresh('us'))
    x = real * 10**6
    eps = z3.Q(1, 2) + z3.Q(1, 2**30)
    ex.assume(z3.And(z3.ToReal(n) - x <= eps, x - z3.ToReal(n) <= eps))
    return n

def utcfromtimestamp(ex, a, k):
    v = a[-1]
    if isinstance(v, (bool, int, SymInt)): return range_value(ex, tint(as_int(v) * 10**6))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')): ex.raise_('ValueError', b'timestamp')
        u = int(round(v * 10**6)) if v * 10**6 == v * 10**6 else 0
        try: d = EPOCH + _dt.timedelta(seconds=v)
        except OverflowError: ex.raise_('ValueError', b'year is out of range')
        return mk(ex, 'datetime', (d - EPOCH) // _dt.timedelta(microseconds=1))
    if isinstance(v, SymFloat): return range_value(ex, split_round(ex, v.t))
    ex.raise_('TypeError', b'a float is required')
def range_value(ex, u):
    if isinstance(u, int): ok = MIN_US <= u <= MAX_US
    else: ok = ex.branch(z3.And(u >= MIN_US, u <= MAX_US))
    if not ok: ex.raise_('ValueError', b'year is out of range')
    return mk(ex, 'datetime', u)

def combine(ex, a, k):
    d, t = a[-2], a[-1]
    return mk(ex, 'datetime', tint(as_int(us_of(ex, d)) + as_int(us_of(ex, t))))

def utctimetuple(ex, a, k):
    o = HObj(I.T(ex, 'struct_time')); o.f['secs'] = tint(as_int(us_of(ex, a[0])) / 10**6)
    return ex.heap.new(o)
def timegm(ex, a, k):
    r = rec(ex, a[0])
    if isinstance(r, HObj) and 'secs' in r.f:
        s = r.f['secs']
        return s if isinstance(s, int) else SymInt(s)
    raise OutOfReach('timegm')

def date_(ex, a, k):
    u = as_int(us_of(ex, a[0]))
    return mk(ex, 'date', tint(u - u % DAY))
def time_(ex, a, k):
    u = as_int(us_of(ex, a[0]))
    return mk(ex, 'time', tint(u % DAY))

def add(ex, a, k):
    x, y = a
    if is_kind(ex, x, 'timedelta') and is_kind(ex, y, 'datetime'): x, y = y, x
    if is_kind(ex, x, 'datetime') and is_kind(ex, y, 'timedelta'):
        return new_datetime(ex, tint(as_int(us_of(ex, x)) + as_int(us_of(ex, y))))
    if is_kind(ex, x, 'timedelta') and is_kind(ex, y, 'timedelta'):
        return mk(ex, 'timedelta', tint(as_int(us_of(ex, x)) + as_int(us_of(ex, y))))
    if isinstance(y, Opaque): raise OutOfReach('date arithmetic')
    ex.raise_('TypeError', b'unsupported operand')
def sub(ex, a, k):
    x, y = a
    if is_kind(ex, x, 'datetime') and is_kind(ex, y, 'timedelta'):
        return new_datetime(ex, tint(as_int(us_of(ex, x)) - as_int(us_of(ex, y))))
    if is_kind(ex, x, 'datetime') and is_kind(ex, y, 'datetime') or is_kind(ex, x, 'timedelta') and is_kind(ex, y, 'timedelta'):
        return mk(ex, 'timedelta', tint(as_int(us_of(ex, x)) - as_int(us_of(ex, y))))
    ex.raise_('TypeError', b'unsupported operand')
def eqf(ex, a, k):
    x, y = a
    if isinstance(rec(ex, y), HObj) and 'us' in rec(ex, y).f and I.class_of(ex, x) == I.class_of(ex, y):
        return I.mkbool(as_int(us_of(ex, x)) == as_int(us_of(ex, y)))
    return False

def install(world, ex, lib):
    T = world.T
    world.ctors.update(datetime=c_datetime, date=c_date, time=c_time, timedelta=c_timedelta)
    d = ex.heap.w(T['datetime'].a).dict
    B = BuiltinFn
    d.update({'utcfromtimestamp': B('datetime.utcfromtimestamp', utcfromtimestamp, 'function_like'),
              'combine': B('datetime.combine', combine, 'function_like'),
              'utctimetuple': B('datetime.utctimetuple', utctimetuple),
              'date': B('datetime.date', date_), 'time': B('datetime.time', time_)})
    prop = ex.heap.new(HObj(T['property']))
    ex.heap.w(prop.a).f.update(fget=B('microsecond', lambda ex, a, k: mkint(as_int(us_of(ex, a[0])) % 10**6)), fset=None, fdel=None)
    d['microsecond'] = prop
    for t in ('datetime', 'date', 'time', 'timedelta'):
        dd = ex.heap.w(T[t].a).dict
        dd['__eq__'] = B(t + '.__eq__', eqf)
        if t in ('datetime', 'timedelta'):
            dd['__add__'] = B(t + '.__add__', add); dd['__radd__'] = B(t + '.__radd__', add)
            dd['__sub__'] = B(t + '.__sub__', sub)
    ex.heap.w(T['timedelta'].a).dict['__nonzero__'] = B('timedelta.__nonzero__', lambda ex, a, k: I.mkbool(as_int(us_of(ex, a[0])) != 0))
    lib['datetime'] = {'datetime': T['datetime'], 'date': T['date'], 'time': T['time'], 'timedelta': T['timedelta'], 'tzinfo': T['tzinfo']}
    lib['calendar'] = {'timegm': B('calendar.timegm', timegm)}
    def gmtime(ex, a, k):
        if a: raise OutOfReach('gmtime of a given time')
        o = HObj(I.T(ex, 'struct_time')); o.f['secs'] = ex.int('now', lo=0).t
        return ex.heap.new(o)
    lib['time']['gmtime'] = B('time.gmtime', gmtime)
