"""Executable contract of limitedTime and limitedMemory, each case in a child process."""
import gc
import json
import os
import resource
import select
import signal
import sys
import threading
import time
from exe.common import *

CASE_TIMEOUT = 30
USES_ALARM = True


def cases(rng, tier, hints):
    for out in ('none', 'handler', 'ign'):
        for pend in (0, 50, 0.5):
            for b in ('ret', 'raise', 'fire', 'nested', 'exit'):
                yield dict(k='time', o=out, p=pend, i=0, b=b, s=5)
    for x in (0, 0.2, 0.5, 1, 1.1, 1.5, 2.4, 2.6, 3.01, 4):
        yield dict(k='time', o='handler', p=0, i=0, b='ret', s=x)
    for h in ('inf', 'fin'):
        for so in ('inf', 'fin', 'hard'):
            for b in ('ret', 'raise', 'alloc', 'nested'):
                yield dict(k='mem', soft=so, hard=h, b=b, l=200 << 20)
    for p in (0, 50):
        yield dict(k='time', o='handler', p=p, i=0, b='thread', s=3)
    yield dict(k='time', o='handler', p=0, i=0, b='real', s=0.3)
    yield dict(k='time', o='handler', p=9, i=3, b='real', s=1)
    yield dict(k='time', o='none', p=0.3, i=0, b='slow', s=3)
    for n in range(0, 400, 1):
        yield dict(k='time', o=('handler', 'none', 'ign')[n % 3], p=(0, 40)[n % 2], i=0, b='inject', s=7, n=n, r=n % 2)
    for n in range(0, 60):
        yield dict(k='time', o=('handler', 'ign')[n % 2], p=0, i=0, b='inject', s=7, n=n, r=1 - n % 2)
    while True:
        if rng.random() < .6:
            yield dict(k='time', o=rng.choice(['none', 'handler', 'ign']), p=rng.choice([0, 0, 30, 100.5, rng.random() * 50 + 2]),
                       i=rng.choice([0, 0, 5]), b=rng.choice(['ret', 'raise', 'fire', 'nested', 'inject', 'inject', 'thread', 'exit']),
                       s=rng.choice([1, 2, 0.5, 10, 3.7, 0, 4.3]), n=rng.randrange(300), r=rng.randrange(2))
        else:
            yield dict(k='mem', soft=rng.choice(['inf', 'fin', 'hard', 'odd']), hard=rng.choice(['inf', 'fin']),
                       b=rng.choice(['ret', 'raise', 'nested', 'alloc'] if rng.random() < .2 else ['ret', 'raise', 'nested']), l=rng.choice([0, 1, 50 << 20, 1 << 30, rng.randrange(1 << 31)]) + (100 << 20))


class Own(BaseException):
    pass


def run_case(case):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            gc.disable()
            try:
                m = time_case(case) if case['k'] == 'time' else mem_case(case)
            except BaseException as e:
                import traceback
                m = 'unexpected %s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-300:])
            os.write(w, json.dumps(m).encode()[:4000])
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    end = time.monotonic() + 20
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return 'the call does not end'
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 4096)
            if not b:
                break
            data += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if not data:
        return 'the process was ended by signal %d' % (st & 127)
    return json.loads(data)


def time_case(c):
    from hachoir.core import timeout as T
    got = []

    def handler(sig, frame):
        got.append(sig)
    old = dict(none=signal.SIG_DFL, handler=handler, ign=signal.SIG_IGN)[c['o']]
    signal.signal(signal.SIGALRM, old)
    b = c['b']
    marker, exc = object(), Own('own')
    if c['p']:
        if old is signal.SIG_DFL:
            signal.signal(signal.SIGALRM, handler)
            old = handler
        signal.setitimer(signal.ITIMER_REAL, c['p'], c['i'])
    t0 = time.monotonic()
    ran = []

    def func(*a, **k):
        ran.append((a, k))
        d = signal.getitimer(signal.ITIMER_REAL)[0]
        lim = max(1, -(-c['s'] // 1))
        if b != 'thread' and not fired and not lim - 0.9 < d <= lim:
            ran.append('alarm in %.3f s for a limit of %s s' % (d, c['s']))
        if b == 'raise' or (b == 'inject' and c['r']):
            raise exc
        if b == 'fire':
            # the time is over
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.kill(os.getpid(), signal.SIGALRM)
            time.sleep(1)
            for i in range(1000):
                i += 1
            return 'not stopped'
        if b == 'real':
            time.sleep(8)
            return 'not stopped'
        if b == 'slow':
            time.sleep(.6)
        if b == 'exit':
            raise SystemExit(3)
        if b == 'nested':
            x = T.limitedTime(c['s'], lambda: marker)
            d, i = signal.getitimer(signal.ITIMER_REAL)
            lim = max(1, -(-c['s'] // 1))
            if not 0 < d <= lim:
                return 'the limit of the outer call is off'
            return x
        return marker
    fired = []
    code = T.limitedTime.__code__
    if b == 'inject':
        n = [c['n']]

        def local(frame, ev, arg):
            frame.f_trace_opcodes = True
            if ev == 'opcode' and signal.getitimer(signal.ITIMER_REAL)[0] > 0 and signal.getsignal(signal.SIGALRM) is T.signalHandler:
                n[0] -= 1
                if n[0] == -1:
                    # the time is over just here
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    fired.append(1)
                    sys.settrace(None)
                    frame.f_trace = None
                    raise T.Timeout('injected')
            return local

        def tracer(frame, ev, arg):
            if frame.f_code is code:
                frame.f_trace_opcodes = True
                return local
            return None
    res = []

    def call():
        try:
            if b == 'inject':
                sys.settrace(tracer)
            try:
                res.append(('ret', T.limitedTime(c['s'], func, 1, x=2)))
            finally:
                sys.settrace(None)
        except BaseException as e:
            res.append(('exc', e))
    if b == 'thread':
        t = threading.Thread(target=call)
        t.start()
        t.join()
    else:
        call()
    d, i = signal.getitimer(signal.ITIMER_REAL)
    now = signal.getsignal(signal.SIGALRM)
    spent = time.monotonic() - t0
    signal.setitimer(signal.ITIMER_REAL, 0)
    kind, v = res[0]
    if b != 'thread' and not fired and ran != [((1,), dict(x=2))]:
        return 'the function was called with %r' % ran
    if now != old:
        return '%s: the handler of the alarm is %r, it was %r (pending %r)' % (b, now, old, c['p'])
    if c['p']:
        left = c['p'] - spent
        if left > 0.2:
            if not left - 1.1 <= d <= left + 1.1 or i != c['i']:
                return '%s: the pending alarm is in %.3f s (interval %s), it was in %.3f s (%s)' % (b, d, i, left, c['i'])
        elif not got and not d:
            return '%s: the pending alarm is lost' % b
    elif d:
        return '%s: an alarm is pending' % b
    if b in ('ret', 'nested', 'slow') or (b == 'inject' and not fired and not c['r']):
        if kind != 'ret' or v is not marker:
            return '%s: %s %r' % (b, kind, v)
    elif b == 'raise' or (b == 'inject' and not fired):
        if kind != 'exc' or v is not exc:
            return '%s: %s %r' % (b, kind, v)
    elif b == 'exit':
        if kind != 'exc' or not isinstance(v, SystemExit) or v.code != 3:
            return '%s: %s %r' % (b, kind, v)
    elif b in ('fire', 'real', 'inject'):
        if kind != 'exc' or not isinstance(v, T.Timeout):
            return '%s: %s %r instead of Timeout' % (b, kind, v)
        if b == 'real' and not max(1, c['s']) - .2 < spent < max(1, c['s']) + 2:
            return 'limit of %s s: stopped after %.2f s' % (c['s'], spent)
    elif b == 'thread':
        if kind == 'ret' and v is not marker:
            return '%s: %r' % (b, v)
    return None


def mem_case(c):
    from hachoir.core import memory as M
    R = resource.RLIMIT_AS
    used = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
    inf = resource.RLIM_INFINITY
    hard = inf if c['hard'] == 'inf' else used + (8 << 30)
    soft = dict(inf=hard, fin=used + (2 << 30), hard=hard, odd=used + (3 << 30) + 12345)[c['soft']]
    resource.setrlimit(R, (soft, hard))
    before = resource.getrlimit(R)
    b, lim = c['b'], c['l']
    marker, exc = object(), Own('own')
    seen = []

    def func(*a, **k):
        now = resource.getrlimit(R)
        v = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
        seen.append((a, k, now[0], v))
        if b == 'raise':
            raise exc
        if b == 'alloc':
            x = bytearray(lim + (512 << 20))
            return 'not stopped'
        if b == 'nested':
            mid = resource.getrlimit(R)
            x = M.limitedMemory(lim // 2 + (30 << 20), lambda: marker)
            if resource.getrlimit(R) != mid:
                return 'limit of the outer call %r became %r' % (mid, resource.getrlimit(R))
            return x
        return marker
    try:
        kind, v = 'ret', M.limitedMemory(lim, func, 1, x=2)
    except BaseException as e:
        kind, v = 'exc', e
    after = resource.getrlimit(R)
    if after != before:
        return '%s: the memory limit is %r, it was %r' % (b, after, before)
    if len(seen) != 1 or seen[0][:2] != ((1,), dict(x=2)):
        return 'the function was called with %r' % seen
    fits = hard == inf or used + lim + (64 << 20) <= hard
    if fits and not abs(seen[0][2] - used - lim) <= 64 << 20:
        return 'limit %d inside the call, expected about %d' % (seen[0][2], used + lim)
    if b == 'alloc' and fits:
        if kind != 'exc' or not isinstance(v, MemoryError):
            return '%s: %s %r instead of MemoryError' % (b, kind, v)
    elif b == 'raise':
        if kind != 'exc' or v is not exc:
            return '%s: %s %r' % (b, kind, v)
    elif b != 'alloc':
        if kind != 'ret' or v is not marker:
            return '%s: %s %r' % (b, kind, v)
    return None
