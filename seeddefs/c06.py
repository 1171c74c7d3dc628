G = 'hachoir/field/generic_field_set.py'
COMMON = '''
from hachoir.field import Parser, FieldSet, Bits, RawBits
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
from hachoir.core import config
config.quiet = True
def tiles(s):
    address = 0
    for f in s:
        assert f.address == address, (f.path, f.address, address)
        address += f.size
        if f.is_field_set:
            tiles(f)
    assert address == s.size, (s.path, address, s.size)
'''
SEEDS = [
dict(id='c06-stale-address', property='C06', file=G,
 edits=[(G, '''        # required for the msoffice parser
        if field._address != self._current_size:
            self.warning("Fix address of %s to %s (was %s)" %
                         (field.path, self._current_size, field._address))
            field._address = self._current_size

        ask_stop = False
''', '''        ask_stop = False
'''), (G, '''        self._current_size += field.size
        while True:
''', '''        # required for the msoffice parser
        if field._address != self._current_size:
            self.warning("Fix address of %s to %s (was %s)" %
                         (field.path, self._current_size, field._address))
            field._address = self._current_size

        self._current_size += field.size
        while True:
''')],
 needs='a parser which creates several fields before it yields them, in a set too small for the last one whose size nobody checks against the end afterwards',
 breaks='a field is added past the end of its set', demo=COMMON + '''
class Sub(FieldSet):
    def createFields(self):
        a, b, c = Bits(self, "a", 8), Bits(self, "b", 8), Bits(self, "c", 8)
        yield a
        yield b
        yield c
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield Sub(self, "sub", size=16)
        yield Bits(self, "end", 8)
top = Top(StringInputStream(b"abc"))
sub = top["sub"]
address = 0
for f in sub:
    assert f.address == address
    address += f.size
    assert address <= 16, "field past the end of its set: " + f.name
tiles(top)
'''),
dict(id='c06-replace-address', property='C06', file=G,
 old="                index += 1\n                address += field.size\n",
 new="                index += 1\n                address = field._address + old_field.size // len(new_fields)\n",
 needs='a field replaced by at least three fields of different sizes',
 breaks='the addresses of the new fields overlap or leave holes', demo=COMMON + '''
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield Bits(self, "head", 8)
        yield RawBits(self, "raw", 24)
        yield Bits(self, "end", 8)
top = Top(StringInputStream(b"abcde"))
list(top)
top.replaceField("raw", [Bits(top, "a", 4), Bits(top, "b", 12), Bits(top, "c", 8)])
tiles(top)
'''),
dict(id='c06-write-padding', property='C06', file=G,
 old="            padding = createPaddingField(self, size)\n            padding._address = address\n            replace.append(padding)\n\n        self.replaceField",
 new="            if size % 8:\n                padding = createPaddingField(self, size % 8)\n                padding._address = address\n                replace.append(padding)\n                address += padding.size\n                size -= padding.size\n            if size > 8:\n                padding = createPaddingField(self, size)\n                padding._address = address\n                replace.append(padding)\n\n        self.replaceField",
 needs='fields written in a field so that exactly one whole byte is left after them',
 breaks='fields which fit are refused', demo=COMMON + '''
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield Bits(self, "head", 8)
        yield RawBits(self, "raw", 24)
        yield Bits(self, "end", 8)
for n in range(1, 24):
    top = Top(StringInputStream(b"abcde"))
    list(top)
    top.writeFieldsIn(top["raw"], 8, [Bits(top, "a", n)])
    tiles(top)
'''),
]
