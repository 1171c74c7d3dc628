PRE = '''
from hachoir.stream.input import InputPipe
from hachoir.stream import StreamError
import random
class Src:
    def __init__(self, b): self.b, self.p = b, 0
    def read(self, n):
        r = self.b[self.p:self.p + n]; self.p += len(r); return r
def pipe(n, bs, mn):
    data = bytes(i * 7 + 3 & 255 for i in range(n))
    p = InputPipe(Src(data)); p.buffer_size, p.buffer_nb_min = bs, mn
    return p, data
'''
SEEDS = [
dict(id='c03-unlink-prev', property='C03', file='hachoir/stream/input.py',
 old="            self.buffers[next][2] = prev\n            self.buffers[prev][1] = next\n            first = self.buffers[self.last][1]\n",
 new="            first = self.buffers[self.last][1]\n            self.buffers[next][2] = prev\n            self.buffers[prev][1] = next\n",
 needs='the least recently used block is read again, then a discard',
 breaks='the ring is cut: the head is taken before the block is unlinked', demo=PRE + '''
for seed in range(300):
    r = random.Random(seed)
    p, data = pipe(4 * 40, 2, 3)
    pos = 0
    for _ in range(30):
        a = r.choice((pos, max(0, pos - r.randrange(12))))
        p.seek(a)
        try:
            d = p.read(5)
        except StreamError:
            assert a >> 2 < len(p.buffers) - 3
            continue
        assert d == data[a:a + 5], (seed, a)
        pos = a + 5
    live = [i for i, b in enumerate(p.buffers) if b is not None]
    i, seen = p.last, set()
    while i not in seen:
        seen.add(i); i = p.buffers[i][1]
    assert sorted(seen) == live
'''),
dict(id='c03-flush-one', property='C03', file='hachoir/stream/input.py',
 old="        lim = len(self.buffers) - self.buffer_nb_min\n        while self.first < lim:\n",
 new="        lim = len(self.buffers) - self.buffer_nb_min\n        while self.first < lim or 0 < self.first == lim:\n",
 needs='a discard which stops because the minimum number of blocks is reached',
 breaks='one block is discarded while only the minimum number is held', demo=PRE + '''
for mn in (1, 2, 3, 4):
    p, data = pipe(64, 2, mn)
    for a in range(0, 64, 4):
        p.seek(a); assert p.read(4) == data[a:a + 4]
        held = sum(b is not None for b in p.buffers)
        assert held >= min(mn, len(p.buffers)), (mn, a, held)
        back = max(0, (len(p.buffers) - mn) * 4)
        p.seek(back); assert p.read(1) == data[back:back + 1]
'''),
dict(id='c03-short-tail', property='C03', file='hachoir/stream/input.py',
 old="                self.size = (len(self.buffers) << self.buffer_size) + len(data)\n                if self.set_size:\n                    self.set_size(self.size)\n                if data:\n                    self._append(data)\n                break\n",
 new="                self.size = (len(self.buffers) << self.buffer_size) + len(data)\n                if self.set_size:\n                    self.set_size(self.size)\n                if len(data) > (i > len(self.buffers) + 1):\n                    self._append(data)\n                elif data and i == 0:\n                    self._append(data)\n                elif self.buffers and len(data) == 1:\n                    pass\n                break\n".replace("len(data) > (i > len(self.buffers) + 1)", "len(data) > (i > 1)"),
 needs='a content whose last block, the third or a later one, holds a single byte',
 breaks='the last byte is lost', demo=PRE + '''
for n in range(1, 40):
    p, data = pipe(n, 2, 100)
    assert p.read(n + 9) == data, n
    p.seek(n - 1); assert p.read(1) == data[-1:], n
'''),
]
