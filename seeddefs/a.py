SEEDS = [
dict(id='c01-signed-wide', property='C01', file='hachoir/stream/input.py',
 old="        if signed and (1 << (nbits - 1)) <= value:\n",
 new="        if signed and (value >> max(nbits - 1, 7)) & 1:\n",
 needs='signed integer narrower than 8 bits with its sign bit set',
 breaks='signed bit fields narrower than a byte are returned as unsigned',
 demo='''
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
s = StringInputStream(b"\\xf5\\x80")
assert s.readInteger(0, True, 8, BIG_ENDIAN) == -11
assert s.readInteger(0, True, 3, BIG_ENDIAN) == -1, s.readInteger(0, True, 3, BIG_ENDIAN)
'''),
dict(id='c12-lower-skip', property='C12', file='hachoir/core/tools.py',
 old="            f = m\n            f += 1\n            seqlen -= h + 1\n",
 new="            f = m + 1\n            seqlen = (seqlen - 1) // 2 if seqlen < 16 else h - 1\n",
 needs='an odd window of at least 16 elements whose last element is the boundary',
 breaks='lowerBound returns a position whose element still passes the test', demo='''
from hachoir.core.tools import lowerBound
for n in range(40):
    for k in range(n + 1):
        assert lowerBound(list(range(n)), lambda x: x < k) == k, (n, k)
'''),
dict(id='c12-binary-mid', property='C12', file='hachoir/core/tools.py',
 old="        elif diff > 0:\n            lower = index + 1\n",
 new="        elif diff > 0:\n            lower = index + (1 if upper - lower < 64 else 2)\n",
 needs='a sequence of at least 64 elements whose matching element directly follows a probed element while the window is wide',
 breaks='binarySearch returns None for an element that is present',
 demo='''
from hachoir.core.tools import binarySearch
for n in (10, 63, 100, 200):
    for k in range(n):
        assert binarySearch(list(range(n)), lambda x: k - x) == k, (n, k)
'''),
]
