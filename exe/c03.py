"""Executable contract of the pipe cache."""
import io
from exe.common import *

CASE_TIMEOUT = 30


class Pipe:
    """only read(), forward; what comes after the end must not be asked for"""

    def __init__(self, b):
        self.b, self.pos, self.ended, self.again = b, 0, False, 0

    def read(self, n):
        if self.ended:
            self.again += 1
            return b'?' * n
        r = self.b[self.pos:self.pos + n]
        self.pos += len(r)
        self.ended = len(r) < n
        return r

    def close(self):
        pass


def content(n):
    return bytes((i * 131 + (i >> 8) * 7 + 5) & 255 for i in range(n))


def cases(rng, tier, hints):
    for bs in (1, 2, 3):
        B = 1 << bs
        for mn in (1, 2, 3):
            for n in (0, 1, B - 1, B, B + 1, 4 * B, 5 * B - 1, 9 * B + 1):
                for w in (0, 1, 2, 3, 5, 7):
                    # walk forward, then back
                    ops = []
                    for a in list(range(0, n + 2 * B, max(1, B - 1))) + [max(0, n - 1), 0, n // 2, B, n, n + 3]:
                        ops.append([a, w])
                    yield dict(k='small', bs=bs, mn=mn, n=n, ops=ops)
                yield dict(k='small', bs=bs, mn=mn, n=n, ops=[[max(0, n - 1), 1], [0, n], [0, n + 5], [n + 1, 1], [None, 3], [1, B], [None, B]])
    yield dict(k='default', bs=16, mn=2, n=5 * 65536 + 3, ops=[[0, 10], [65530, 10], [3 * 65536 - 1, 2], [2 * 65536, 5], [5 * 65536, 10], [65536, 3], [4 * 65536 + 1, 70000], [None, 4], [0, 1], [3 * 65536, 1]])
    yield dict(k='default', bs=16, mn=256, n=4 * 65536, ops=[[4 * 65536, 1], [0, 4 * 65536], [0, 4 * 65536 + 1], [65535, 2]])
    while True:
        bs = rng.choice((0, 1, 2, 3, 4))
        B = 1 << bs
        mn = rng.choice((1, 1, 2, 3, 4, 6))
        n = rng.choice((rng.randrange(12 * B + 2), B * rng.randrange(1, 12), 3 * B + 1))
        ops = []
        pos = 0
        for _ in range(rng.randrange(1, 16)):
            a = rng.choice((None, rng.randrange(n + 2 * B + 1), max(0, pos - rng.randrange(2 * B + 1)), pos + rng.randrange(2 * B), B * rng.randrange(n // B + 2), 0))
            w = rng.choice((0, 1, 2, B - 1, B, B + 1, rng.randrange(3 * B + 1), max(0, n - pos)))
            ops.append([a, w])
            pos = min(n, (pos if a is None else a) + w)
        yield dict(k=rng.choice(('small', 'stream')), bs=bs, mn=mn, n=n, ops=ops)


class Ref:
    """documented cache: which blocks may have been discarded"""

    def __init__(self, B, mn, n):
        self.B, self.mn, self.n = B, mn, n
        self.known, self.first, self.order = 0, 0, []

    def read(self, a, w):
        """None when an error is permitted"""
        B = self.B
        while self.known <= (a + w) // B and self.known * B < self.n:
            self.order.append(self.known)
            self.known += 1
        ok = True
        for i in range(a // B, (a + w - 1) // B + 1):
            if i < self.known:
                if i < self.first:
                    ok = False
                    break
                self.order.remove(i)
                self.order.append(i)
        if not ok:
            return False
        while self.known - self.first > self.mn and self.order[0] == self.first:
            self.order.pop(0)
            self.first += 1
        return True


def run_case(c):
    from hachoir.stream.input import InputPipe, InputIOStream
    from hachoir.stream import StreamError
    data = content(c['n'])
    src = Pipe(data)
    told = []
    if c['k'] == 'stream':
        if not data:
            return None
        st = InputIOStream(src, source='pipe')
        p = st._input
    else:
        st = None
        p = InputPipe(src, lambda s: told.append(s))
    p.buffer_size, p.buffer_nb_min = c['bs'], c['mn']
    ref = Ref(1 << c['bs'], c['mn'], c['n'])
    pos = 0
    far = 0
    for a, w in c['ops']:
        if a is not None:
            pos = a
            if st is None:
                p.seek(a)
        want = data[pos:pos + w]
        if st is not None and not w:
            continue
        ok = ref.read(pos, w)
        try:
            if st is not None:
                r = st.read(8 * pos, 8 * w)
                if r[0]:
                    return 'shift %r' % r[0]
                miss, r = r[2], r[1]
            else:
                r = p.read(w)
                miss = False
        except StreamError as e:
            if st is not None and pos + w > c['n']:
                continue
            if ok:
                return 'read(%d) at %d fails although the block is in the cache: %s' % (w, pos, e)
            if st is None:
                p.seek(pos)
            continue
        if miss and pos + w <= c['n']:
            return 'read(%d) at %d: missing' % (w, pos)
        if r != want:
            return 'read(%d) at %d gives %r, expected %r' % (w, pos, r[:50], want[:50])
        if src.again:
            return 'the input is read again after its end'
        pos += len(r)
        far = max(far, pos + (w - len(r)))
        if st is None:
            if p.address != pos:
                return 'position is %r after the read, expected %r' % (p.address, pos)
            if len(told) > 1 or told and told[0] != c['n']:
                return 'sizes told: %r, expected %r' % (told, c['n'])
        elif st.size is not None and st.size != 8 * c['n']:
            return 'size of the stream: %r, expected %r' % (st.size, 8 * c['n'])
        if w and len(r) < w:
            size = p.size if st is None else st.size // 8
            if size != c['n']:
                return 'size is %r after reading past the end, expected %r' % (size, c['n'])
