T = 'hachoir/core/timeout.py'
M = 'hachoir/core/memory.py'
MT = '''
import os, resource, sys
from hachoir.core.memory import limitedMemory
pid = os.fork()
if pid:
    st = os.waitpid(pid, 0)[1]
    sys.exit(1 if st else 0)
R = resource.RLIMIT_AS
used = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
'''
SEEDS = [
dict(id='c21-round', property='C21', file=T,
 old='''        second = int(ceil(second))
''', new='''        second = int(second + 0.5)
''',
 needs='a limit of a fractional number of seconds, below the half',
 breaks='the function is stopped before the limit', demo='''
import signal
from hachoir.core.timeout import limitedTime
left = lambda: signal.getitimer(signal.ITIMER_REAL)[0]
assert 2 < limitedTime(2.6, left) <= 3
assert 2 < limitedTime(2.4, left) <= 3
'''),
dict(id='c21-zero', property='C21', file=T,
 old='''    return max(second, 1)
''', new='''    return abs(second)
''',
 needs='a limit of zero seconds',
 breaks='there is no limit: alarm(0) only cancels', demo='''
import signal
from hachoir.core.timeout import limitedTime
left = lambda: signal.getitimer(signal.ITIMER_REAL)[0]
assert 1 < limitedTime(2, left) <= 2
assert 0 < limitedTime(0, left) <= 1
'''),
dict(id='c21-unlimited', property='C21', file=M,
 old='''        if limited:
            setMemoryLimit(old_limit)
''', new='''        if limited and 0 < old_limit:
            setMemoryLimit(old_limit)
''',
 needs='a process without memory limit',
 breaks='the limit of the function stays after it', demo=MT + '''
before = resource.getrlimit(R)
limitedMemory(1 << 30, lambda: None)
os._exit(0 if resource.getrlimit(R) == before else 1)
'''),
dict(id='c21-after', property='C21', file=M,
 old='''        old_limit = getMemoryLimit()
        limit = max_rss + limit
        limited = setMemoryLimit(limit)
''', new='''        limit = max_rss + limit
        limited = setMemoryLimit(limit)
        old_limit = getMemoryLimit()
''',
 needs='any call which sets a limit',
 breaks='the limit restored is the new one', demo=MT + '''
before = resource.getrlimit(R)
limitedMemory(1 << 30, lambda: None)
os._exit(0 if resource.getrlimit(R) == before else 1)
'''),
dict(id='c21-base-exception', property='C21', file=M,
 old='''    try:
        # Call function
        return func(*args, **kw)
    finally:
        # and unset our memory limit
        if limited:
            setMemoryLimit(old_limit)

        # After calling the function: clear all caches
        clearCaches()
''', new='''    try:
        # Call function
        result = func(*args, **kw)
    except Exception:
        # and unset our memory limit
        if limited:
            setMemoryLimit(old_limit)
        clearCaches()
        raise

    # After calling the function: unset our memory limit, clear all caches
    if limited:
        setMemoryLimit(old_limit)
    clearCaches()
    return result
''',
 needs='the function is interrupted by CTRL+C or ends with SystemExit',
 breaks='the memory limit stays', demo=MT + '''
before = resource.getrlimit(R)
def func():
    raise KeyboardInterrupt()
try:
    limitedMemory(1 << 30, func)
except KeyboardInterrupt:
    pass
os._exit(0 if resource.getrlimit(R) == before else 1)
'''),
]
