S = 'hachoir/field/string_field.py'
TOP = '''
from hachoir.field import Parser, FieldSet, String, CString, PascalString16, Bits
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
from hachoir.core import config
config.quiet = True
'''
SEEDS = [
dict(id='c14-strip-first', property='C14', file=S,
 old="""        # Truncate
        if self._truncate:
            pos = text.find(self._truncate)
            if 0 <= pos:
                text = text[:pos]

        # Strip string if needed
        if self._strip:
            if isinstance(self._strip, str):
                text = text.strip(self._strip)
            else:
                text = text.strip()
""", new="""        # Strip string if needed
        if self._strip:
            if isinstance(self._strip, str):
                text = text.strip(self._strip)
            else:
                text = text.strip()

        # Truncate
        if self._truncate:
            pos = text.find(self._truncate)
            if 0 <= pos:
                text = text[:pos]
""",
 needs='a string both truncated and stripped, with characters to strip just before the truncation mark',
 breaks='the text keeps the characters before the mark', demo=TOP + '''
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield String(self, "s", 8, charset="ASCII", truncate="\\0", strip=" ")
v = Top(StringInputStream(b" ab \\0xy "))["s"].value
assert v == "ab", repr(v)
'''),
dict(id='c14-odd-fixed', property='C14', file=S,
 old="""            self._content_size = nbytes   # content length in bytes
""", new="""            # content length in bytes: only complete characters
            self._content_size = nbytes
            if charset in self.UTF_CHARSET:
                self._content_size -= nbytes % (self.UTF_CHARSET[charset][0] // 8)
""",
 needs='a fixed UTF-16 string whose size is odd (its last character is cut)',
 breaks='the last byte of the string is not decoded', demo=TOP + '''
class Top(Parser):
    endian = LITTLE_ENDIAN
    def createFields(self):
        yield String(self, "s", 3, charset="UTF-16-LE")
f = Top(StringInputStream(b"B\\0e"))["s"]
assert f.value == "Be", repr(f.value)
assert f.content_size == 3 and f.size == 24
'''),
dict(id='c14-prefix-endian', property='C14', file=S,
 old="                    self.absolute_address, prefix_size * 8, self._parent.endian)\n",
 new="                    self.absolute_address, prefix_size * 8, self._parent.root.endian)\n",
 needs='a prefixed string inside a field set whose byte order is not the one of the file',
 breaks='the length of the string is read with the bytes swapped', demo=TOP + '''
class Sub(FieldSet):
    endian = LITTLE_ENDIAN
    def createFields(self):
        yield PascalString16(self, "s", charset="ASCII")
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield Sub(self, "sub")
f = Top(StringInputStream(b"\\2\\0ab" + bytes(600)))["sub/s"]
assert f.size == 32 and f.value == "ab", f.size
'''),
]
