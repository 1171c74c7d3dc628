"""Executable contract of the byte-string search."""
import io
from exe.common import *

CASE_TIMEOUT = 30
KINDS = ('str', 'io', 'sub', 'pipe', 'pipesub', 'concat', 'subodd')


class Pipe:
    def __init__(self, b):
        self.f = io.BytesIO(b)

    def read(self, n):
        return self.f.read(n)

    def close(self):
        pass


def mk(n, pos, needle, fill):
    """content of n bytes, made of the byte fill, with the needle at the positions pos (what fits)"""
    d = bytearray([fill]) * n
    for p in pos:
        if 0 <= p <= n:
            w = needle[:n - p]
            d[p:p + len(w)] = w
    return bytes(d)


def cases(rng, tier, hints):
    def c(kind, n, pos, needle, start, end, fill=0, cut=None):
        return dict(k='search', kind=kind, n=n, pos=list(pos), needle=b2s(needle), start=start, end=end, fill=fill, cut=cut)
    nd = {1: b'a', 2: b'ab', 3: b'aab', 5: b'aaaab', 17: b'ab' * 8 + b'c', 1366: b'xy' * 683, 1400: b'a' * 1399 + b'b', 5000: b'pq' * 2499 + b'rs'}
    for h in hints:
        m = h.get('model') or {}
        try:
            ln = int(m.get('needle_length', 1))
            n = int(m.get('size_in_bits', 8)) // 8
            s0 = int(m.get('start', 0))
            e = m.get('end') if m.get('end given') else None
            if 0 < n < 300000 and ln < 100000 and s0 < 8 * n + 800:
                needle = bytes([97]) * (ln - 1) + b'b'
                for kind in KINDS:
                    for p in {int(m.get('p0', 0)), n - ln, s0 // 8, s0 // 8 + 4095, s0 // 8 + 1}:
                        yield c(kind, n, [p], needle, s0 - s0 % 8, e if e is None else e)
        except (TypeError, ValueError):
            pass
    # around every internal boundary
    for ln in (1, 2, 3, 5, 17, 1400):
        needle = nd[ln]
        size = max(3 * ln, 4096)
        for start in (0, 1, 7):
            for base in (0, size, 2 * size, 3 * size):
                for d in {-ln, -ln + 1, -1, 0, 1, -ln // 2} | ({2 - ln} if ln > 2 else set()):
                    p = start + base + d
                    if p < start:
                        continue
                    for n in {p + ln, p + ln + 1, p + ln + 5000, p + ln - 1}:
                        for fill in (0, needle[0]):
                            yield c(rng.choice(KINDS), n, [p], needle, 8 * start, rng.choice((None, None, 8 * n, 8 * (p + ln), 8 * (p + ln) - 1, 8 * (p + ln) + 7, 8 * (n + 9))), fill)
    for kind in KINDS:
        for n in (1, 2, 3, 4, 10):
            for p in range(n):
                for start in range(n + 2):
                    for end in (None, 0, 8 * n, 8 * n - 1, 8 * n + 8, 8 * p + 8, 8 * p + 16, 8 * p):
                        yield c(kind, n, [p], b'a' if p % 2 else b'ab', 8 * start, end)
    for kind in ('pipe', 'pipesub', 'str'):
        for n in (65535, 65536, 65537, 131072, 131073, 70000, 200000):
            for p in (0, 65534, 65535, 65536, 69999, n - 2, n - 1, 131071):
                for end in (None, 8 * n, 8 * n + 8):
                    yield c(kind, n, [p], b'ab', rng.choice((0, 8, 8 * 65535)), end)
    while True:
        ln = rng.choice((1, 2, 2, 3, 5, 17, 1366, 1400, 5000) if rng.random() < .3 else (1, 2, 3, 5))
        needle = nd[ln]
        if rng.random() < .5:
            needle = bytes(rng.choice(b'ab') for _ in range(ln))
        size = max(3 * ln, 4096)
        s = rng.choice((0, 0, 1, rng.randrange(50), size - 1))
        n = rng.choice((rng.randrange(1, 40), s + size * rng.randrange(0, 4) + rng.randrange(0, ln + 3), rng.randrange(1, 4 * size)))
        n = max(1, n)
        pos = [s + size * rng.randrange(4) - rng.randrange(ln + 2) for _ in range(rng.randrange(1, 4))] + [rng.randrange(n)]
        pos = [p for p in pos if p >= 0]
        end = rng.choice((None, None, 8 * n, 8 * (pos[0] if pos else n) + 8 * ln - rng.choice((0, 0, 1, 8, -8)), 8 * rng.randrange(n + 5)))
        yield c(rng.choice(KINDS), n, pos, needle, 8 * s, end, rng.choice((0, needle[0], needle[-1])), rng.randrange(n + 1))


def stream(kind, data, cut):
    from hachoir.stream import StringInputStream, InputIOStream, InputSubStream, ConcatStream
    if kind == 'str':
        return StringInputStream(data), None
    if kind == 'io':
        return InputIOStream(io.BytesIO(data)), None
    if kind == 'pipe':
        return InputIOStream(Pipe(data)), None
    if kind == 'sub':
        p = StringInputStream(b'zz' + data + b'a' * 9)
        return InputSubStream(p, 16, 8 * len(data)), p
    if kind == 'subodd':        # a size which is not a whole number of bytes
        p = StringInputStream(b'zz' + data + b'ab' * 5)
        return InputSubStream(p, 16, 8 * len(data) + 5), p
    if kind == 'pipesub':
        p = InputIOStream(Pipe(b'zz' + data))
        return InputSubStream(p, 16), p
    if kind == 'concat':
        from hachoir.stream.input import ConcatStream
        i = max(1, min(len(data) - 1, cut if cut is not None else len(data) // 2))
        a, b = StringInputStream(data[:i]), StringInputStream(data[i:])
        return ConcatStream((a, b), source='cat'), (a, b)
    raise ValueError(kind)


def run_case(c):
    needle = s2b(c['needle'])
    c['n'] = max(1, c['n'])
    data = mk(c['n'], c['pos'], needle, c['fill'])
    kind = c['kind']
    if kind == 'concat' and len(data) < 2:
        kind = 'str'
    start, end = c['start'], c['end']
    lim = 8 * len(data) + (5 if kind == 'subodd' else 0)
    lim = (lim if end is None else min(end, lim)) // 8
    exp = data.find(needle, start // 8, max(lim, 0)) if start // 8 <= lim else -1
    exp = None if exp < 0 else 8 * exp
    for what in ('searchBytes', 'len', 'len+'):
        st, keep = stream(kind, data, c['cut'])
        try:
            if what == 'searchBytes':
                r = st.searchBytes(needle, start, end)
                e = exp
            else:
                r = st.searchBytesLength(needle, what == 'len+', start, end)
                e = None if exp is None else (exp - start) // 8 + (len(needle) if what == 'len+' else 0)
        except Exception as x:
            return '%s(%r..., start=%r, end=%r) in a %s stream of %d bytes raises %s: %s' % (what, needle[:8], start, end, kind, c['n'], type(x).__name__, x)
        if r != e or (r is not None and type(r) is not int):
            return '%s(%r..., start=%r, end=%r) in a %s stream of %d bytes = %r, expected %r' % (what, needle[:8], start, end, kind, c['n'], r, e)
    return None
