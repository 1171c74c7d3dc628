SEEDS = [
dict(id='c08-path-cache', property='C08', file='hachoir/field/field.py',
 edits=[('hachoir/field/field.py', "        if not self._parent:\n            return '/'\n        names = []\n",
 "        if not self._parent:\n            return '/'\n        if hasattr(self, '_path'):\n            return self._path\n        names = []\n"),
 ('hachoir/field/field.py', "        return '/'.join(reversed(names))\n",
 "        self._path = '/'.join(reversed(names))\n        return self._path\n")],
 needs='the path of a field read before the field is added to its set (which numbers its name)',
 breaks='the path reported does not lead back to the field', demo='''
from hachoir.field import Parser, Bits
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        for i in range(3):
            f = Bits(self, "item[]", 8)
            if i == 1:
                self.info("now reading " + f.path)
            yield f
top = Top(StringInputStream(b"abc"))
for f in top:
    assert top[f.path] is f, f.path
'''),
dict(id='c08-dots-root', property='C08', file='hachoir/field/field.py',
 old="            field = field._parent\n            if field is None:\n                break\n        return field\n",
 new="            if field._parent is None:\n                break\n            field = field._parent\n        return field\n",
 needs='more dots than ancestors',
 breaks='a path which leaves the tree gives the root', demo='''
from hachoir.field import Parser, Bits, FieldSet, MissingField
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
class Sub(FieldSet):
    def createFields(self):
        yield Bits(self, "x", 8)
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield Sub(self, "sub")
top = Top(StringInputStream(b"a"))
assert top["sub/x/..."] is top
for key in ("....", "../../../", "....../sub"):
    try:
        top["sub/x"][key]
        raise SystemExit("found " + key)
    except MissingField:
        pass
'''),
dict(id='c08-address-bits', property='C08', file='hachoir/field/generic_field_set.py',
 old="                           lambda x: x.address + x.size <= address)\n",
 new="                           lambda x: (x.address + x.size - 1) // 8 < address // 8)\n",
 needs='fields whose size is not a multiple of 8 bits',
 breaks='lookup by address gives a neighbour', demo='''
from hachoir.field import Parser, Bits
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
import random
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        r = random.Random(3)
        while self.current_size < 100:
            yield Bits(self, "f[]", r.choice((1, 3, 8, 12, 16)))
top = Top(StringInputStream(b"x" * 20))
for f in top:
    for a in range(f.address, f.address + f.size):
        g = top.getFieldByAddress(a)
        assert g is f, (a, f.path, g and g.path)
'''),
]
