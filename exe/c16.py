"""Executable contract of the timestamp conversions, against integer arithmetic."""
import datetime as dt
from exe.common import *

ZERO = dt.datetime(1, 1, 1)
US = dt.timedelta(microseconds=1)
END = (dt.datetime.max - ZERO) // US
MAXTD = dt.timedelta.max // US


def inst(*a):
    return (dt.datetime(*a) - ZERO) // US


CONV = {
    'timestampUNIX': (inst(1970, 1, 1), 10**6, 1, 2**31 - 1),
    'timestampMac32': (inst(1904, 1, 1), 10**6, 1, 2**32 - 1),
    'timestampWin64': (inst(1601, 1, 1), 1, 10, None),
    'timestampUUID60': (inst(1582, 10, 15), 1, 10, None),
    'durationWin64': (None, 1, 10, None),
    'durationMillisWin64': (None, 1000, 1, None),
}
FIELDS = {'TimestampUnix32': ('timestampUNIX', 32), 'TimestampUnix64': ('timestampUNIX', 64), 'TimestampMac32': ('timestampMac32', 32),
          'TimestampUUID60': ('timestampUUID60', 60), 'TimestampWin64': ('timestampWin64', 64), 'TimedeltaWin64': ('durationWin64', 64),
          'TimedeltaMillisWin64': ('durationMillisWin64', 64)}
DOS = {'TimeDateMSDOS32': dict(second=(0, 5), minute=(5, 6), hour=(11, 5), day=(16, 5), month=(21, 4), year=(25, 7)),
       'DateTimeMSDOS32': dict(day=(0, 5), month=(5, 4), year=(9, 7), second=(16, 5), minute=(21, 6), hour=(27, 5))}
BASES = [0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**60 - 1, 2**63, 2**64 - 1, 2**64, 2650467744000000000, 2656215936000000000, 315537897600,
         116444736000000000, 864 * 10**20, 86400000000000000, 10**30]


def cases(rng, tier, hints):
    for c in CONV:
        for b in BASES:
            for d in (-11, -1, 0, 1, 2, 9, 10, 15):
                yield dict(k='c', f=c, v=b + d)
        for v in (-0.5, 0.5, 1.25, 1e300, 'nan', 'inf', '-inf', True):
            yield dict(k='c', f=c, v=v)
    for c in DOS:
        for n, (a, b) in DOS[c].items():
            for v in range(2**b):
                yield dict(k='d', f=c, v=(v << a) | (1 << DOS[c]['day'][0] if n != 'day' else 0) | (1 << DOS[c]['month'][0] if n != 'month' else 0))
    while True:
        k = rng.random()
        if k < .5:
            f = rng.choice(list(CONV))
            v = rng.randrange(2**rng.randrange(1, 68)) if rng.random() < .8 else rng.choice(BASES) + rng.randrange(-100, 100)
            if rng.random() < .08:
                v = -v
            if rng.random() < .1:
                v = v / 7
            yield dict(k='c', f=f, v=v)
        elif k < .8:
            f = rng.choice(list(FIELDS))
            yield dict(k='f', f=f, v=rng.randrange(2**rng.randrange(1, FIELDS[f][1] + 1)), e=rng.choice('BL'))
        else:
            yield dict(k='d', f=rng.choice(list(DOS)), v=rng.randrange(2**32))


def check(f, v, r):
    """r: result or exception of conversion f of v"""
    epoch, num, den, hi = CONV[f]
    exc = isinstance(r, Exception)
    if isinstance(v, str):
        v = float(v)
    special = isinstance(v, float) and (v != v or v in (float('inf'), float('-inf')))
    if special:
        ok = False
    elif hi is not None:
        ok = 0 <= v <= hi
    elif epoch is None:
        ok = 0 <= v and v * num < den * (MAXTD + 1)
    else:
        ok = 0 <= v and v * num < den * (END - epoch + 1)
    if exc or isinstance(r, str):
        if ok:
            if f == 'timestampUUID60' and v + 320 >= 10 * (END - epoch):
                return 'float: timestampUUID60(%d) is refused' % v
            if isinstance(v, float):
                # a rounding may reach the limit
                return None if abs(v * num / den - (END - (epoch or 0))) < 1e9 else '%s(%r) refused: %r' % (f, v, r)
            return '%s(%r) refused: %r' % (f, v, r)
        if isinstance(r, str):
            return None if f == 'timestampMac32' and r.startswith('invalid Mac timestamp') else '%s(%r) is %r' % (f, v, r)
        if f == 'timestampMac32':
            return '%s(%r) raised %r' % (f, v, r)
        if not isinstance(r, ValueError) and not (epoch is None and isinstance(r, OverflowError) and (special or v >= 2**64)):
            return '%s(%r) raised %r' % (f, v, r)
        return None
    if not ok:
        if f == 'timestampUUID60' and 0 <= v < 10 * (END - epoch) + 320:
            return 'float: timestampUUID60(%d) is accepted' % v
        return '%s(%r) accepted: %r' % (f, v, r)
    if not isinstance(r, dt.timedelta if epoch is None else dt.datetime):
        return '%s(%r) is %r' % (f, v, r)
    d = (r // US) if epoch is None else (r - ZERO) // US - epoch
    if isinstance(v, float):
        from fractions import Fraction
        x = Fraction(v) * num / den
        if abs(x - d) > 1 + abs(x) / 10**15:
            return '%s(%r) is %r' % (f, v, r)
        return None
    if f == 'timestampUUID60':
        # a value which is rounded to the nearest microsecond is exact; known
        # finding: it goes through a float
        e = abs(10 * d - v)
        if e < 10:
            return None
        if v > 10 * 2**53 and e <= 10 * 2**((v // 10).bit_length() - 54):
            return 'float: timestampUUID60(%d) is off by %s microseconds' % (v, e / 10)
        return 'timestampUUID60(%r) is %r: off by %s microseconds' % (v, r, e / 10)
    if d != v * num // den:
        return '%s(%r) is %r: off by %d microseconds' % (f, v, r, d - v * num // den)
    return None


def run_case(case):
    import hachoir.core.tools as tools
    import hachoir.field as F
    from hachoir.field import Parser
    from hachoir.stream import StringInputStream
    f, v = case['f'], case['v']
    if case['k'] == 'c':
        x = float(v) if isinstance(v, str) else v
        try:
            r = getattr(tools, f)(x)
        except Exception as e:
            r = e
        return check(f, v, r)
    bits = 32 if case['k'] == 'd' else FIELDS[f][1]
    e = case.get('e', 'L')
    if bits == 60:
        data = (v << 4 if e == 'B' else v).to_bytes(8, 'big' if e == 'B' else 'little')
    else:
        data = v.to_bytes(bits // 8, 'big' if e == 'B' else 'little')

    class Top(Parser):
        endian = endians()[e]

        def createFields(self):
            yield getattr(F, f)(self, 't')
    t = Top(StringInputStream(data + b'\0'))['t']
    if t.size != bits:
        return '%s: size %s' % (f, t.size)
    try:
        r = t.createValue()
    except Exception as x:
        r = x
    if case['k'] == 'f':
        return check(FIELDS[f][0], v, r)
    p = {n: (v >> a) & (2**b - 1) for n, (a, b) in DOS[f].items()}
    try:
        want = dt.datetime(1980 + p['year'], p['month'] or 1, p['day'] or 1, p['hour'], p['minute'], 2 * p['second'])
    except ValueError:
        return None if isinstance(r, ValueError) else '%s: %r is %r' % (f, p, r)
    return None if r == want else '%s: %r is %r' % (f, p, r)


def key(case, msg):
    return 'uuid60-float' if msg.startswith('float: timestampUUID60') else '%s %s' % (case['f'], case['v'])
