SEEDS = [
dict(id='c13-same-start', property='C13', file='hachoir/field/seekable_field_set.py',
 old="    blocks = sorted(blocks, key=lambda b: b[0])\n",
 new="    blocks = sorted(dict(blocks).items())\n",
 needs='two blocks which start at the same position, the longer one first in the list',
 breaks='a gap overlaps the longer block', demo='''
from hachoir.field.seekable_field_set import getgaps
import random
r = random.Random(1)
for _ in range(3000):
    b = [(r.randrange(12), r.randrange(1, 6)) for _ in range(r.randrange(5))]
    got = [x for s, l in getgaps(0, 20, b) for x in range(s, s + l)]
    assert got == [x for x in range(20) if not any(s <= x < s + l for s, l in b)], b
'''),
dict(id='c13-relative-blocks', property='C13', file='hachoir/field/seekable_field_set.py',
 old="        blocks = [(x.absolute_address, x.size) for x in self._fields]\n",
 new="        origin = self.address\n        blocks = [(origin + x.address, x.size) for x in self._fields]\n",
 needs='a seekable field set two levels below the root, inside a set which does not start at 0',
 breaks='the fillers are computed for other addresses', demo='''
from hachoir.field import SeekableFieldSet, FieldSet, Parser, Bits
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
class Child(SeekableFieldSet):
    def createFields(self):
        self.seekBit(16)
        yield Bits(self, "a", 8)
        self.seekBit(4)
        yield Bits(self, "b", 4)
class Mid(FieldSet):
    def createFields(self):
        yield Bits(self, "pre", 8)
        yield Child(self, "child", size=40)
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        for i in range(3):
            yield Mid(self, "mid[]")
top = Top(StringInputStream(b"x" * 40))
for i in range(3):
    c = top["mid[%d]/child" % i]
    cov = [0] * 40
    for f in c:
        for x in range(f.address, f.address + f.size):
            cov[x] += 1
    assert cov == [1] * 40, (i, cov)
'''),
dict(id='c13-first-gap', property='C13', file='hachoir/field/seekable_field_set.py',
 old="        if s + l > start:\n            start = s + l\n",
 new="        if s >= start or s + l > start + length:\n            start = s + l\n        elif s + l > start:\n            start = s + (l if s >= end - length else min(l, length - 1))\n",
 needs='a block which starts before the range and reaches its end',
 breaks='the last position of the range is reported as a gap', demo='''
from hachoir.field.seekable_field_set import getgaps
import random
r = random.Random(1)
for _ in range(5000):
    b = [(r.randrange(-6, 12), r.randrange(1, 12)) for _ in range(r.randrange(5))]
    got = [x for s, l in getgaps(0, 8, b) for x in range(s, s + l)]
    assert got == [x for x in range(8) if not any(s <= x < s + l for s, l in b)], b
'''),
]
