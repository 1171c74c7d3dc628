S = 'hachoir/editor/typed_field.py'
TOP = '''
from io import BytesIO
from hachoir.field import Parser, GenericString, String, CString, PascalString16, Bits, UInt8, TimestampMac32
from hachoir.stream import StringInputStream, OutputStream
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
from hachoir.core import config
from hachoir.editor import createEditor
config.quiet = True
def written(ed):
    out = BytesIO()
    ed.writeInto(OutputStream(out))
    return out.getvalue()
'''
SEEDS = [
dict(id='c22-pascal16-max', property='C22', file=S,
 old='''        "Pascal16": (1 << 16) - 1,
''', new='''        "Pascal16": 1 << 16,
''',
 needs='a string of exactly 65536 bytes set to an UTF or plain Pascal16 string',
 breaks='a string whose length the prefix cannot hold is accepted, and writing fails', demo=TOP + '''
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield PascalString16(self, "s")
ed = createEditor(Top(StringInputStream(b"\\0\\1A")))
ed["s"].value = b"x" * 65535
assert written(ed) == b"\\xff\\xff" + b"x" * 65535
try:
    ed["s"].value = b"x" * 65536
except ValueError:
    pass
else:
    assert 0, "accepted"
'''),
dict(id='c22-altered-first', property='C22', file=S,
 old='''        self._setValue(value)
        self._is_altered = True
    value = property(_propGetValue, _propSetValue)
''', new='''        self._is_altered = True
        self._setValue(value)
    value = property(_propGetValue, _propSetValue)
''',
 needs='a refused value set to a field which was not edited before',
 breaks='the refused set leaves the field altered without a value: writing fails', demo=TOP + '''
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield UInt8(self, "a")
        yield UInt8(self, "b")
ed = createEditor(Top(StringInputStream(b"AB")))
try:
    ed["a"].value = 256
except ValueError:
    pass
assert not ed["a"].is_altered
assert written(ed) == b"AB"
'''),
dict(id='c22-empty-size', property='C22', file=S,
 old='''    def _getSize(self):
        if self._value is not None:
            return self._computeSize()
''', new='''    def _getSize(self):
        if self._value:
            return self._computeSize()
''',
 needs='a string field set to the empty string',
 breaks='the size of the field is the one of the original string', demo=TOP + '''
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield CString(self, "s")
        yield UInt8(self, "b")
ed = createEditor(Top(StringInputStream(b"abc\\0B")))
ed["s"].value = b""
assert written(ed) == b"\\0B"
assert ed["s"].size == 8, ed["s"].size
assert ed["b"].address == 8
'''),
dict(id='c22-zero-value', property='C22', file=S,
 old='''    def _propGetValue(self):
        if self._value is not None:
''', new='''    def _propGetValue(self):
        if self._value:
''',
 needs='a field whose original value is not zero, set to zero',
 breaks='the field still reports its original value', demo=TOP + '''
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield Bits(self, "a", 3)
        yield Bits(self, "b", 5)
ed = createEditor(Top(StringInputStream(b"\\xff")))
ed["a"].value = 5
assert ed["a"].value == 5
ed["a"].value = 0
assert written(ed) == b"\\x1f"
assert ed["a"].value == 0, ed["a"].value
'''),
dict(id='c22-suffix-once', property='C22', file=S,
 old='''            output.writeBytes(self._suffix_str)
''', new='''            if self._value:
                output.writeBytes(self._suffix_str)
''',
 needs='a terminated string set to the empty string',
 breaks='the terminator is not written: the next bytes become the string', demo=TOP + '''
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield CString(self, "s")
        yield UInt8(self, "b")
ed = createEditor(Top(StringInputStream(b"abc\\0B")))
ed["s"].value = b"x"
assert written(ed) == b"x\\0B"
ed["s"].value = b""
assert written(ed) == b"\\0B"
'''),
]
