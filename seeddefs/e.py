TOP = '''
from hachoir.core import config
config.quiet = True
'''
SEEDS = [
dict(id='c17-escape-braces', property='C17', file='hachoir/regex/regex.py',
 old='''    return re.sub(r"([][^.+*?{}|()\\\\$])", r"\\\\\\1", text)''', new='''    return re.sub(r"([][^.+*?|()\\\\$])", r"\\\\\\1", text)''',
 needs='a text with braces around a number', breaks='the text of the expression is a repetition', demo=TOP + '''
from hachoir.regex import createString
r = createString("a{2}b")
assert r.compile(python=True).fullmatch("a{2}b"), str(r)
'''),
dict(id='c17-wide-pair', property='C17', file='hachoir/regex/regex.py',
 old='''            if (self.cmin + 1) == self.cmax:
                return "%s%s" % (cmin, cmax)
''', new='''            if (self.cmax - self.cmin) & 0xff == 1:
                return "%s%s" % (cmin, cmax)
''',
 needs='a range of 258 characters', breaks='only its two ends are matched', demo=TOP + '''
from hachoir.regex import RegexRange
from hachoir.regex.regex import RegexRangeItem
r = RegexRange([RegexRangeItem(0x100, 0x201)])
assert r.compile(python=True).fullmatch(chr(0x180)), str(r)
'''),
dict(id='c22-bit-kind', property='C22', file='hachoir/editor/typed_field.py',
 old='''    elif field.__class__ in (RawBits, Bits, Bit, PaddingBits):
''', new='''    elif field.__class__ in (RawBits, Bits, PaddingBits):
''',
 needs='a field of one bit', breaks='its value cannot be set', demo=TOP + '''
from io import BytesIO
from hachoir.field import Parser, Bit, Bits
from hachoir.editor import createEditor
from hachoir.stream import StringInputStream, OutputStream
from hachoir.core.endian import BIG_ENDIAN
class P(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield Bits(self, "a", 7)
        yield Bit(self, "b")
e = createEditor(P(StringInputStream(b"\\x54")))
e["b"].value = 1
o = BytesIO()
e.writeInto(OutputStream(o))
assert o.getvalue() == b"\\x55", o.getvalue()
'''),
]
