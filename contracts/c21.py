"""C21: time and memory limits are always restored.

The alarm of the process and its clock are ghost state: handler, whether an
alarm is pending, when it is due and its interval. The clock advances by any
amount at every call, and once it is set the alarm of the limit may go off at
any call (entry or return) made by limitedTime, or inside the function which is
limited. Times are whole microseconds.
"""
import z3
from pyvc.core import RT, SInt, SBool, Sym, Opaque, mkint, mkbool, zint, zbool, iv, Unsupported, PathEnd
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.c16 import patched

PROP = 'C21'
TM = 'hachoir.core.timeout:'
MM = 'hachoir.core.memory:'
US = 10**6


def us(x):
    """microseconds of a number of seconds"""
    if isinstance(x, Tm):
        return x.e
    if isinstance(x, (int, SInt)):
        return z3.simplify(zint(x) * US)
    if isinstance(x, float):
        return iv(int(round(x * US)))
    raise Unsupported('time %r' % type(x))


class Tm(Sym):
    """a float: number of seconds"""
    __hash__ = None

    def __init__(self, e):
        self.e = z3.simplify(e)

    def __add__(self, o):
        return Tm(self.e + us(o))
    __radd__ = __add__

    def __sub__(self, o):
        return Tm(self.e - us(o))

    def __rsub__(self, o):
        return Tm(us(o) - self.e)

    def __lt__(self, o):
        return mkbool(self.e < us(o))

    def __le__(self, o):
        return mkbool(self.e <= us(o))

    def __gt__(self, o):
        return mkbool(self.e > us(o))

    def __ge__(self, o):
        return mkbool(self.e >= us(o))

    def __eq__(self, o):
        return mkbool(self.e == us(o)) if isinstance(o, (Tm, SInt, int, float)) else False

    def __ne__(self, o):
        return mkbool(self.e != us(o)) if isinstance(o, (Tm, SInt, int, float)) else True

    def __bool__(self):
        return RT.branch(self.e != 0)

    def sym_isinstance(self, ts):
        return any(t is float or getattr(t, '_real', None) is float for t in ts)

    def sym_minmax(self, o, less):
        b = us(o)
        return Tm(z3.If(self.e < b if less else self.e > b, self.e, b))


class Process:
    """alarm, handler and clock"""

    def __init__(self, T, main_thread):
        self.T, self.main_thread = T, main_thread
        self.now = self.set_at = iv(0)
        self.handler = 'old handler'
        self.pending = RT.input_int('pending', 0, 1).e == 1
        self.due = RT.input_int('due in microseconds', 1).e
        self.interval = RT.input_int('interval', 0).e
        RT.assume(z3.Implies(z3.Not(self.pending), self.interval == 0))
        self.limit = False         # the pending alarm is the one of the limit
        self.fired = False
        self.stopped = None
        self.start = (self.pending, self.due, self.interval)

    def tick(self):
        d = RT.int('elapsed').e
        RT.assume(d >= 0)
        self.now = z3.simplify(self.now + d)
        if self.limit and not self.fired and RT.branch(RT.int('goes_off').e == 1):
            self.go_off()

    def go_off(self):
        self.fired, self.limit, self.pending = True, False, z3.BoolVal(False)
        RT.cover('the alarm goes off')
        RT.prove(self.handler is self.T.signalHandler, 'the alarm of the limit goes to the handler of the limit')
        self.handler(14, None)

    def signal(self, num, handler):
        """ASSUMED contract of signal.signal"""
        self.tick()
        if num != 14:
            raise Unsupported('another signal')
        if not self.main_thread:
            raise ValueError('signal only works in main thread')
        old, self.handler = self.handler, handler
        self.tick()
        return old

    def left(self):
        return Tm(z3.If(self.pending, z3.If(self.due > self.now, self.due - self.now, 1), 0))

    def setitimer(self, which, seconds, interval=0):
        """ASSUMED contract of signal.setitimer, for the real time"""
        self.tick()
        if self.stopped is None:
            self.stopped = self.now
        old = (self.left(), Tm(z3.If(self.pending, self.interval, 0)))
        e = us(seconds)
        RT.prove(e >= 0, 'no negative delay')
        if RT.branch(e > 0):
            self.set_at = self.now
            self.pending, self.due, self.interval = z3.BoolVal(True), z3.simplify(self.now + e), us(interval)
            self.limit = self.handler is self.T.signalHandler
        else:
            self.pending, self.limit = z3.BoolVal(False), False
        self.tick()
        return old

    def alarm(self, seconds):
        """ASSUMED contract of signal.alarm: whole seconds, the interval is forgotten"""
        if not isinstance(seconds, (int, SInt)):
            raise TypeError('alarm(float)')
        l = self.left()
        self.setitimer(None, seconds)
        r = RT.int('seconds_left')
        RT.assume(z3.And(r.e * US >= l.e, r.e * US < l.e + US, r.e >= 0))
        return r

    def getitimer(self, which):
        self.tick()
        return (self.left(), Tm(z3.If(self.pending, self.interval, 0)))

    def getsignal(self, num):
        return self.handler

    def clock(self):
        self.tick()
        RT.ghost['read'] = self.now
        RT.ghost.setdefault('read0', self.now)
        return Tm(self.now + RT.ghost['epoch'])


class SignalModule:
    SIGALRM, ITIMER_REAL = 14, 0

    def __init__(self, p):
        self.__call__ = None
        self.signal, self.alarm, self.setitimer, self.getitimer, self.getsignal = p.signal, p.alarm, p.setitimer, p.getitimer, p.getsignal


def guarded(qual, f, *a, **k):
    try:
        return expect(qual, f, *a, **k)
    except Own as e:
        return 'exc', e


class Own(BaseException):
    pass


def b_time(main_thread):
    def body():
        from hachoir.core import timeout as T
        g = RT.ghost
        g['epoch'] = RT.input_int('epoch', 0).e
        p = Process(T, main_thread)
        sec = RT.input_int('second')
        marker, exc = object(), Own()
        ran, outcome = [], []

        def func(*a, **k):
            ran.append((a, k))
            RT.prove(z3.BoolVal(bool(p.limit)), 'the limit is set while the function runs')
            p.tick()
            p.tick()
            if RT.branch(RT.input_int('fails', 0, 1).e == 1):
                outcome.append('exc')
                raise exc
            outcome.append('ret')
            return marker
        a1, k1 = object(), object()
        m = SignalModule(p)
        with patched(T, signal=p.signal, alarm=p.alarm, setitimer=p.setitimer, getitimer=p.getitimer, getsignal=p.getsignal,
                     monotonic=p.clock, time=p.clock, SIGALRM=14, ITIMER_REAL=0):
            kind, r = guarded(TM + 'limitedTime', T.limitedTime, sec, func, a1, x=k1)
        pend, due, interval = p.start
        # restored
        RT.prove(p.handler == 'old handler', 'the handler of the alarm is restored')
        end = p.now
        RT.prove(z3.Implies(pend, p.pending), 'a pending alarm is still pending')
        RT.prove(z3.Implies(z3.Not(pend), z3.Not(p.pending)), 'no alarm is left pending')
        RT.prove(z3.Implies(pend, p.interval == interval), 'with its interval')
        RT.prove(z3.Implies(z3.And(pend, due > end), p.due >= due - US), 'it is due no earlier')
        # but for the time spent between the readings of the clock and the settings
        slack = p.set_at - g.get('read', p.now) + g.get('read0', p.now) - (p.stopped if p.stopped is not None else iv(0))
        RT.prove(z3.Implies(z3.And(pend, due > end), p.due - due <= slack + US), 'it is due when it was')
        if not main_thread:
            RT.cover('other thread')
            RT.prove(kind == 'exc' and isinstance(r, ValueError) and not ran, 'refused outside the main thread')
            return
        if p.fired:
            RT.cover('limit')
            RT.prove(kind == 'exc' and isinstance(r, T.Timeout), 'Timeout when the limit is hit')
        else:
            RT.cover('no limit')
            RT.prove(ran == [((a1,), {'x': k1})], 'the function is called once with its arguments')
            if outcome == ['ret']:
                RT.prove(kind == 'ret' and r is marker, 'the result of the function is returned')
            else:
                RT.prove(kind == 'exc' and r is exc, 'the exception of the function is raised')
    return body


def b_limit():
    """the limit which is set is the one asked for"""
    from hachoir.core import timeout as T
    g = RT.ghost
    g['epoch'] = RT.input_int('epoch', 0).e
    p = Process(T, True)
    sec = RT.input_int('second')
    set_ = []

    def func():
        set_.append(z3.simplify(p.due))
        g['at'] = p.now
        return None
    with patched(T, signal=p.signal, alarm=p.alarm, setitimer=p.setitimer, getitimer=p.getitimer, getsignal=p.getsignal,
                 monotonic=p.clock, time=p.clock, SIGALRM=14, ITIMER_REAL=0):
        guarded(TM + 'limitedTime', T.limitedTime, sec, func)
    if not set_:
        return
    RT.cover('ran')
    lim = z3.If(sec.e > 1, sec.e, 1) * US
    RT.prove(set_[0] <= g['at'] + lim, 'not later than the limit')


def m_ceil(x):
    """ASSUMED contract of math.ceil"""
    if not isinstance(x, Tm):
        raise Unsupported('ceil')
    r = RT.int('ceil')
    RT.assume(z3.And(r.e * US >= x.e, (r.e - 1) * US < x.e))
    return r


def b_fix():
    from hachoir.core import timeout as T
    if RT.branch(RT.input_int('is float', 0, 1).e == 1):
        s = Tm(RT.input_int('microseconds').e)
    else:
        s = RT.input_int('seconds')
    with patched(T, ceil=m_ceil):
        kind, r = expect(TM + 'fixTimeout', T.fixTimeout, s)
    RT.prove(kind == 'ret', 'fixTimeout: no error')
    e = us(s)
    RT.prove(z3.And(zint(r) >= 1, zint(r) * US >= e, z3.Or(zint(r) == 1, (zint(r) - 1) * US < e)), 'the seconds, rounded up, at least one')
    RT.cover('fix')


# ------------------------------------------------------------ memory
INF = -1


def le(a, b):
    """a <= b where -1 is no limit"""
    return z3.Or(b == INF, z3.And(a != INF, a <= b))


class Limits:
    def __init__(self):
        self.soft, self.hard = RT.input_int('soft', -1).e, RT.input_int('hard', -1).e
        RT.assume(le(self.soft, self.hard))
        self.start = (self.soft, self.hard)
        self.root = RT.branch(RT.input_int('privileged', 0, 1).e == 1)

    def getrlimit(self, which):
        """ASSUMED contract of resource.getrlimit"""
        return (mkint(self.soft), mkint(self.hard))

    def setrlimit(self, which, limits):
        """ASSUMED contract of resource.setrlimit"""
        s, h = limits
        s, h = zint(s), zint(h)
        if not RT.branch(le(s, h)):
            raise ValueError('current limit exceeds maximum limit')
        if not self.root and not RT.branch(le(h, self.hard)):
            raise ValueError('not allowed to raise maximum limit')
        self.soft, self.hard = s, h


def b_memory():
    from hachoir.core import memory as M
    g = RT.ghost
    p = Limits()
    lim = RT.input_int('limit', 0)
    size = RT.input_int('used', 0)
    g['size'] = size if RT.branch(RT.input_int('size is known', 0, 1).e == 1) else None
    marker, exc = object(), Own()
    ran, outcome = [], []

    def func(*a, **k):
        ran.append((a, k, p.soft))
        if RT.branch(RT.input_int('fails', 0, 1).e == 1):
            outcome.append('exc')
            raise exc
        outcome.append('ret')
        return marker
    a1, k1 = object(), object()
    with patched(M, getrlimit=p.getrlimit, setrlimit=p.setrlimit):
        kind, r = guarded(MM + 'limitedMemory', M.limitedMemory, lim, func, a1, x=k1)
    s0, h0 = p.start
    RT.prove(z3.And(p.soft == s0, p.hard == h0), 'the memory limit is restored')
    RT.prove(len(ran) == 1 and ran[0][:2] == ((a1,), {'x': k1}), 'the function is called once with its arguments')
    if outcome == ['ret']:
        RT.cover('returns')
        RT.prove(kind == 'ret' and r is marker, 'the result of the function is returned')
    else:
        RT.cover('raises')
        RT.prove(kind == 'exc' and r is exc, 'the exception of the function is raised')
    if ran and g['size'] is not None:
        want = size.e + lim.e
        RT.prove(z3.Implies(le(want, h0), ran[0][2] == want), 'the limit is set while the function runs')


def c_size():
    return RT.ghost['size']


CALLS = {MM + 'getMemorySize': c_size, MM + 'clearCaches': lambda: None}
UNITS = [
    Unit('limitedTime', [TM + 'limitedTime', TM + 'signalHandler', TM + 'fixTimeout'], b_time(True), paths=6000),
    Unit('limitedTime, other thread', [TM + 'limitedTime'], b_time(False)),
    Unit('limitedTime, limit', [TM + 'limitedTime'], b_limit),
    Unit('fixTimeout', [TM + 'fixTimeout'], b_fix),
    Unit('limitedMemory', [MM + 'limitedMemory', MM + 'getMemoryLimit', MM + 'setMemoryLimit'], b_memory, calls=CALLS),
]
