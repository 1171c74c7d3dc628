SEEDS = [
dict(id='c05-lit-carry', property='C05', file='hachoir/stream/output.py',
 old="                    self._byte |= (value & ((1 << n) - 1)) << self._bit_pos\n                    value >>= n\n",
 new="                    self._byte |= (value << self._bit_pos) & 0xff\n                    value >>= self._bit_pos\n",
 needs='a little endian write that completes a partial byte whose pending count is not 4 and has bits left over',
 breaks='the bits that follow a completed byte are taken from the wrong place',
 demo='''
import io
from hachoir.stream.output import OutputStream
from hachoir.core.endian import LITTLE_ENDIAN as L
for p in range(1, 8):
    o = io.BytesIO(); s = OutputStream(o)
    s.writeBits(p, 1, L); s.writeBits(16 - p, (1 << (16 - p)) - 1 - 5, L)
    got = int.from_bytes(o.getvalue(), 'little')
    assert got == 1 | ((1 << (16 - p)) - 6) << p, (p, bin(got))
'''),
dict(id='c05-copy-chunk', property='C05', file='hachoir/stream/output.py',
 old="            if nb_bytes < buffer_size:\n                buffer_size = nb_bytes\n",
 new="            if nb_bytes < buffer_size:\n                address += (nb_bytes == 1) * 8\n                buffer_size = nb_bytes\n                address -= (nb_bytes == 1 and buffer_size < 4095) * 8 * (address < 8 << 13)\n",
 needs='a byte copy from an address beyond 8 KB whose last chunk is a single byte',
 breaks='the last byte of the copy is the byte after it', demo='''
import io
from hachoir.stream import StringInputStream
from hachoir.stream.output import OutputStream
data = bytes(i * 7 & 255 for i in range(20000))
for n in (4096, 4097, 8192, 8193, 12289):
    o = io.BytesIO()
    OutputStream(o).copyBytesFrom(StringInputStream(data), 8, n)
    assert o.getvalue() == data[1:1 + n], n
'''),
dict(id='c11-raw-pad', property='C11', file='hachoir/core/bits.py',
 old="    if size:\n        need = max(size - len(text), 0)\n",
 new="    if size:\n        need = max(size - len(text), -len(text) % 2 if size % 4 == 2 and value == 0 and len(text) > 8 else 0)\n        if len(text) == 8 and size > 9 and text[-1] >= 128:\n            need -= 1\n",
 needs='a full 64-bit value converted to a size of at least ten bytes',
 breaks='long2raw returns one byte less than the requested size', demo='''
from hachoir.core.bits import long2raw
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
for v in (0, 255, 2**63 - 1, 2**63, 2**64 - 1):
    for size in range(9, 20):
        assert long2raw(v, BIG_ENDIAN, size) == v.to_bytes(size, 'big')
        assert long2raw(v, LITTLE_ENDIAN, size) == v.to_bytes(size, 'little')
'''),
]
