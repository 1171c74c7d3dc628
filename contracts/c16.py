"""C16: timestamp conversions denote the exact instant.

timedelta and datetime are C types: ASSUMED contract for whole arguments, a
duration is its exact number of microseconds (OverflowError from 10**9 days), a
date is a number of microseconds since 0001-01-01 (OverflowError outside of
the years 1 to 9999). They are replaced in the module under verification by
the models below, which have exactly that contract.
"""
import datetime as dt
import z3
from pyvc.core import RT, SInt, Sym, mkint, mkbool, zint, iv, Opaque, Unsupported
from pyvc.contract import Unit, expect
from contracts import lib

PROP = 'C16'
T = 'hachoir.core.tools:'
FT = 'hachoir.field.timestamp:'
MAXTD = 999999999 * 86400 * 10**6 + 86400 * 10**6 - 1
ZERO = dt.datetime(1, 1, 1)
END = (dt.datetime.max - ZERO) // dt.timedelta(microseconds=1)


def instant(*a):
    return (dt.datetime(*a) - ZERO) // dt.timedelta(microseconds=1)


UNITS_US = dict(days=86400 * 10**6, seconds=10**6, microseconds=1, milliseconds=1000, minutes=60 * 10**6, hours=3600 * 10**6, weeks=7 * 86400 * 10**6)
ORDER = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')


class TD(Sym):
    """timedelta: an exact number of microseconds"""

    def __init__(self, us):
        if not RT.branch(z3.And(us >= -999999999 * 86400 * 10**6, us <= MAXTD)):
            raise OverflowError('days=%d; must have magnitude <= 999999999')
        self.us = us

    def __add__(self, o):
        if isinstance(o, TD):
            return TD(z3.simplify(self.us + o.us))
        if isinstance(o, dt.timedelta):
            return TD(z3.simplify(self.us + o // dt.timedelta(microseconds=1)))
        if isinstance(o, dt.datetime):
            return SDT(z3.simplify(self.us + (o - ZERO) // dt.timedelta(microseconds=1)))
        if isinstance(o, SDT):
            return SDT(z3.simplify(self.us + o.us))
        return NotImplemented
    __radd__ = __add__

    def __mul__(self, k):
        if isinstance(k, (int, SInt)):
            return TD(z3.simplify(self.us * zint(k)))
        return NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, k):
        if isinstance(k, int) and k > 0:
            return TD(z3.simplify(self.us / k))
        return NotImplemented


class SDT(Sym):
    """datetime: microseconds since 0001-01-01"""

    def __init__(self, us):
        if not RT.branch(z3.And(us >= 0, us <= END)):
            raise OverflowError('date value out of range')
        self.us = us

    def __add__(self, o):
        return o.__add__(self) if isinstance(o, TD) else NotImplemented
    __radd__ = __add__


class Quot(Sym):
    """the floating point quotient of a whole number by a positive one

    ASSUMED: it is the exact quotient rounded to 53 bits, and timedelta rounds a
    number of microseconds to a nearest whole one.
    """

    def __init__(self, num, den):
        self.num, self.den = num, den

    def rounded(self):
        d = SInt(z3.Int(RT.freshname('rounded')))
        e = z3.Abs(self.den * d.e - self.num)
        RT.assume(z3.And(e <= self.den * float_error(self.num, self.den), z3.Implies(self.num == 0, d.e == 0), z3.Implies(self.num > 0, d.e >= 0)))
        return d.e


def float_error(num, den):
    """bound on the distance of the rounded quotient (to a whole number of microseconds) from the exact one"""
    r = z3.Abs(num) / 2**50
    for k in range(66, 53, -1):
        r = z3.If(z3.Abs(num) < den * 2**k, 2**(k - 54), r)
    return z3.If(z3.Abs(num) < den * 2**53, 1, r)


def m_truediv(a, b):
    if isinstance(b, int) and b > 0 and isinstance(a, SInt):
        return Quot(a.e, b)
    raise Unsupported('division of symbolic numbers')


def timedelta(*a, **k):
    if len(a) > len(ORDER):
        raise TypeError('timedelta')
    args = dict(zip(ORDER, a))
    args.update(k)
    us = iv(0)
    for n, v in args.items():
        if n not in UNITS_US:
            raise TypeError(n)
        if isinstance(v, Quot) and n == 'microseconds':
            us = us + v.rounded()
            continue
        if isinstance(v, bool) or not isinstance(v, (int, SInt)):
            raise Unsupported('timedelta of a number which is not whole (%s)' % n)
        us = us + zint(v) * UNITS_US[n]
    return TD(z3.simplify(us))


class patched:
    def __init__(self, mod, **names):
        self.mod, self.names, self.old = mod, names, {}

    def __enter__(self):
        for n, v in self.names.items():
            if hasattr(self.mod, n):
                self.old[n] = getattr(self.mod, n)
                setattr(self.mod, n, v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(self.mod, n, v)


# name: (epoch, numerator and denominator of the unit in microseconds, lowest, highest)
CONV = {
    'timestampUNIX': (instant(1970, 1, 1), 10**6, 1, 2**31 - 1),
    'timestampMac32': (instant(1904, 1, 1), 10**6, 1, 2**32 - 1),
    'timestampWin64': (instant(1601, 1, 1), 1, 10, None),
    'timestampUUID60': (instant(1582, 10, 15), 1, 10, None),
    'durationWin64': (None, 1, 10, None),
    'durationMillisWin64': (None, 1000, 1, None),
}


def exact(name, r, v, label):
    """r denotes the epoch plus v units, truncated to the microsecond"""
    epoch, num, den, _ = CONV[name]
    RT.prove(isinstance(r, TD if epoch is None else SDT), label + ': the kind of result')
    d = r.us - (epoch or 0)
    if name == 'timestampUUID60':
        # known finding: the number goes through a float; no further off than its rounding
        RT.prove(z3.Abs(den * d - num * v) <= den * float_error(num * v, den), label + ': exact, up to the rounding of a float')
        return
    # truncation: den * d <= v * num < den * (d + 1)
    RT.prove(z3.And(den * d <= v * num, v * num < den * (d + 1)), label + ': exact')


def slack(name):
    """known finding: near the end of the year 9999, the rounding of a float decides"""
    return 10 * 32 if name == 'timestampUUID60' else 0


def in_range(name, v):
    epoch, num, den, hi = CONV[name]
    if hi is not None:
        return z3.And(v >= 0, v <= hi)
    if epoch is None:
        return z3.And(v >= 0, v * num < den * (MAXTD + 1))
    return z3.And(v >= 0, v * num < den * (END - epoch + 1))


def b_conv(name):
    def body():
        import hachoir.core.tools as tools
        v = RT.input_int('value')
        with patched(tools, timedelta=timedelta):
            kind, r = expect(T + name, getattr(tools, name), v)
        RT.cover(kind)
        ok = in_range(name, v.e)
        text = isinstance(r, Opaque) or isinstance(r, str)
        if kind == 'ret' and not text:
            RT.prove(in_range(name, v.e - slack(name)), name + ': a value out of range is refused') if slack(name) == 0 else \
                RT.prove(z3.And(v.e >= 0, v.e < 10 * (END - CONV[name][0] + 1) + slack(name)), name + ': a value out of range is refused')
            exact(name, r, v.e, name)
            return
        RT.prove(z3.Not(z3.And(ok, in_range(name, v.e + slack(name)))), name + ': no value in range is refused')
        if name == 'timestampMac32':
            RT.prove(kind == 'ret' and text, name + ': a value out of range gives a text')
            RT.prove(RT.ghost.get('fmt', str(r)).startswith('invalid Mac timestamp'), name + ': a value out of range gives the text for it')
        elif CONV[name][0] is None:
            # a duration which no timedelta can hold needs more than 64 bits
            RT.prove(kind == 'exc' and (type(r) is ValueError or (type(r) is OverflowError and RT.entails(v.e >= 2**64))), name + ': a value error')
        else:
            RT.prove(kind == 'exc' and type(r) is ValueError, name + ': a value error')
    return body


def b_types(name):
    def body():
        import hachoir.core.tools as tools
        v = RT.choice(['1', None, b'1', [1]], 'value')
        with patched(tools, timedelta=timedelta):
            kind, r = expect(T + name, getattr(tools, name), v)
        RT.prove(kind == 'exc' and type(r) in (TypeError, ValueError), name + ': what is not a number is refused')
        RT.cover('refused')
    return body


def m_fmt(a, b):
    RT.ghost['fmt'] = a
    return Opaque('formatted')


FIELDS = {'TimestampUnix32': ('timestampUNIX', 32), 'TimestampUnix64': ('timestampUNIX', 64), 'TimestampMac32': ('timestampMac32', 32),
          'TimestampUUID60': ('timestampUUID60', 60), 'TimestampWin64': ('timestampWin64', 64), 'TimedeltaWin64': ('durationWin64', 64),
          'TimedeltaMillisWin64': ('durationMillisWin64', 64)}


def b_field():
    """a timestamp field is the conversion of its bits"""
    import hachoir.field as F
    import hachoir.core.tools as tools
    g = RT.ghost
    cls = RT.choice(sorted(FIELDS), 'field')
    conv, bits = FIELDS[cls]
    g['nbits'] = bits
    g['abs'] = RT.input_int('address', 0)
    p = lib.obj(F.Field, nextFieldAddress=lambda: 0, _parent=None, _name='p', _address=0, stream=Stream(), endian='order')
    v = g['bits'] = RT.input_int('bits', 0)
    RT.assume(v.e < 2**bits)
    with patched(tools, timedelta=timedelta):
        kind, f = expect(None, getattr(F, cls), p, 't')
        RT.prove(kind == 'ret' and f._size == bits, 'timestamp field: size')
        kind, r = expect(FT + cls + '.createValue', f.createValue)
    RT.cover(kind)
    ok = in_range(conv, v.e)
    if conv == 'timestampUUID60':
        ok = iv(0) == 0
    if kind == 'ret' and not isinstance(r, (str, Opaque)):
        RT.prove(ok, 'timestamp field: out of range')
        exact(conv, r, v.e, 'timestamp field')
        return
    RT.prove(z3.Not(ok), 'timestamp field: no value in range is refused')


class Stream(Sym):
    def readBits(self, address, nbits, endian):
        g = RT.ghost
        RT.prove(z3.And(zint(address) == g['abs'].e, zint(nbits) == g['nbits']), 'timestamp field: its bits are read')
        RT.prove(endian == 'order', 'timestamp field: read in the byte order of the parent')
        return g['bits']


class DateCall(Sym):
    def __init__(self, a):
        self.a = a


def m_datetime(*a, **k):
    names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
    d = dict(zip(names, a))
    d.update(k)
    return DateCall([d.get(n, 0) for n in names])


# places of the parts of a packed date and time in the 32 bits, from the lowest bit
DOS = {'TimeDateMSDOS32': dict(second=(0, 5), minute=(5, 6), hour=(11, 5), day=(16, 5), month=(21, 4), year=(25, 7)),
       'DateTimeMSDOS32': dict(day=(0, 5), month=(5, 4), year=(9, 7), second=(16, 5), minute=(21, 6), hour=(27, 5))}


class Part(Sym):
    def __init__(self, v):
        self.value = v


def b_dos():
    import hachoir.field as F
    import hachoir.field.timestamp as mod
    g = RT.ghost
    cls = RT.choice(sorted(DOS), 'field')
    C = getattr(F, cls)
    f = lib.obj(C, _parent=None, _name='t', _address=0, _current_size=0, endian='DCBA')
    l = list(C.createFields(f))
    at, place = 0, {}
    for x in l:
        RT.prove(isinstance(x, F.Bits), 'packed date: the parts are numbers')
        place[x._name] = (at, x._size)
        at += x._size
    RT.prove(at == 32 and C.static_size == 32, 'packed date: 32 bits')
    v = RT.input_int('packed', 0)
    RT.assume(v.e < 2**32)
    # the part of the given name is the number in its bits (contracts: C01, C06, C08), little endian
    g['part'] = lambda name: Part(mkint(z3.simplify((v.e / 2**place[name][0]) % 2**place[name][1])))
    with patched(mod, datetime=m_datetime):
        kind, r = expect(FT + 'TimeDateMSDOS32.createValue', f.createValue)
    RT.prove(kind == 'ret' and isinstance(r, DateCall), 'packed date: a date')
    want = {n: (v.e / 2**a) % 2**b for n, (a, b) in DOS[cls].items()}
    one = lambda e: z3.If(e == 0, 1, e)
    for n, got, e in zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), r.a,
                         (1980 + want['year'], one(want['month']), one(want['day']), want['hour'], want['minute'], 2 * want['second'], iv(0))):
        RT.prove(zint(got) == e, 'packed date: the ' + n)
    RT.cover('date')


def m_part(self, name):
    return RT.ghost['part'](name)


CALLS = dict(lib.LOG_CALLS, **{'hachoir.field.field:Field.absolute_address': lambda self: RT.ghost['abs']})
UNITS = [Unit(n, [T + n], b_conv(n), models={'str.mod': m_fmt, 'truediv': m_truediv}) for n in CONV]
UNITS += [Unit('types: ' + n, [T + n], b_types(n)) for n in CONV]
UNITS += [
    Unit('timestamp fields', [FT + 'TimedeltaWin64.createValue', FT + 'TimedeltaMillisWin64.createValue', FT + 'timestampFactory'], b_field, calls=CALLS, models={'str.mod': m_fmt, 'truediv': m_truediv}),
    Unit('packed dates', [FT + 'TimeDateMSDOS32.createFields', FT + 'TimeDateMSDOS32.createValue', FT + 'DateTimeMSDOS32.createFields'], b_dos,
         calls=dict(CALLS, **{'hachoir.field.field:Field.__getitem__': m_part})),
]
BOUNDED = []
