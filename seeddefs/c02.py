SEEDS = [
dict(id='c02-concat-start', property='C02', file='hachoir/stream/input.py',
 old="            a, s = 0, size - s\n",
 new="            a, s = (0 if size > 8 else address & 7), size - s\n",
 needs='an unaligned window of at most 8 bits which crosses the boundary of a concatenation',
 breaks='the second part of the window is read at a wrong address', demo='''
from hachoir.stream import StringInputStream, ConcatStream
for a in range(8, 24):
    st = ConcatStream((StringInputStream(b"ab"), StringInputStream(b"cd")), source="x")
    for s in range(1, 17):
        if a + s > 32:
            continue
        sh, d, m = st.read(a, s)
        assert d == b"abcd"[a // 8:(a + s + 7) // 8] and sh == a % 8, (a, s, d)
'''),
dict(id='c02-frag-next', property='C02', file='hachoir/stream/input.py',
 old="                fa = f.absolute_address\n                fs = f.size\n",
 new="                if fs != f.size or fa + fs != f.absolute_address:\n                    fs = f.size\n                fa = f.absolute_address if a + fs < end else max(fa, f.absolute_address)\n",
 needs='the window ends inside a fragment which lies before its predecessor in the parent',
 breaks='the fragment is recorded at the place of its predecessor', demo='''
from hachoir.stream import StringInputStream, FragmentedStream
p = StringInputStream(bytes(range(32)))
class D:
    def __init__(self, a, s): self.absolute_address, self.size = a, s
class F:
    path = "/f"
    stream = p
    def __init__(self, a, s, nxt): self.d, self.next, self.parent = D(a, s), nxt, self
    def getData(self): return self.d
import itertools
for order in itertools.permutations((0, 10, 20)):
    for n in range(1, 13):
        f = None
        for a in reversed(order):
            f = F(8 * a, 32, f)
        st = FragmentedStream(f)
        exp = bytes(x for a in order for x in range(a, a + 4))
        assert st.readBytes(0, n) == exp[:n], (order, n)
        assert st.readBytes(0, 12) == exp
'''),
dict(id='c02-view-tail', property='C02', file='hachoir/stream/input.py',
 old="                        d = max(0, len(data) - max_size)\n",
 new="                        d = max(0, len(data) - max_size) if data[:1] else 0\n                        d = d if d < 1 << 16 else 1 << 16\n",
 needs='reading back from the end of a stream of unknown size when the chunks held exceed the tail by more than 64 KB',
 breaks='the tail starts too early', demo='''
import io
from hachoir.stream import InputIOStream
class P:
    def __init__(self, b): self.b = io.BytesIO(b)
    def read(self, n): return self.b.read(n)
data = bytes(i * 7 & 255 for i in range(1 << 8)) * 900
for n in (100, 65536, 65537, 131000, 131072, 131073, 200000, len(data)):
    st = InputIOStream(P(data[:n]), source="x")
    f = st.file()
    for back in (1, 5, 60):
        f = InputIOStream(P(data[:n]), source="x").file()
        f.seek(-back, 2)
        assert f.read(3) == data[:n][-back:][:3], (n, back)
'''),
dict(id='c02-io-shift', property='C02', file='hachoir/stream/input.py',
 old="        self._input.seek(address)\n        size = (size + shift + 7) >> 3\n        data = self._input.read(size)\n",
 new="        self._input.seek(address)\n        size = ((size + 7) >> 3) + (shift + (size & 7) > 8 if size & 7 else shift > 1)\n        data = self._input.read(size)\n",
 needs='a window of whole bytes which starts at the second bit of a byte',
 breaks='the last byte of the window is missing', demo='''
import io
from hachoir.stream import InputIOStream
st = InputIOStream(io.BytesIO(bytes(range(64))), source="x")
for a in range(0, 40):
    for s in range(1, 70):
        sh, d, m = st.read(a, s)
        assert (sh, d) == (a % 8, bytes(range(a // 8, (a + s + 7) // 8))), (a, s)
'''),
]
