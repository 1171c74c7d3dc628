F = 'hachoir/field/field.py'
TOP = '''
from hachoir.field import Parser, Field, Bits
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
from hachoir.core import config
from hachoir.core.log import log
log.use_print = False
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield Bits(self, "a", 8)
top = Top(StringInputStream(b"abc"))
class F(Field):
    n = 0
'''
SEEDS = [
dict(id='c09-none-value', property='C09', file=F,
 edits=[(F, """        try:
            return self.__value
        except AttributeError:
            try:
                self.__value = self.createValue()
            except Exception as err:
                self.error("Unable to create value: %s" % str(err))
                self.__value = None
            return self.__value
""", """        if self.__value is None:
            try:
                self.__value = self.createValue()
            except Exception as err:
                self.error("Unable to create value: %s" % str(err))
        return self.__value
"""), (F, """class Field(Logger):
    static_size = None
""", """class Field(Logger):
    __value = None
    static_size = None
""")],
 needs='a field whose value is None or whose computation fails, read twice',
 breaks='the value is computed again at every read, and may change', demo=TOP + '''
    def createValue(self):
        self.n += 1
        if self.n == 1:
            raise ValueError("not yet")
        return self.n
f = F(top, "f", 8)
assert f.value is None
assert f.value is None, f.value
assert f.n == 1
'''),
dict(id='c09-error-classes', property='C09', file=F,
 old="""            except Exception as err:
                self.error("Unable to create raw display: %s" % err)
""", new="""            except (LookupError, ValueError, TypeError, AttributeError,
                    ArithmeticError, AssertionError, RuntimeError) as err:
                self.error("Unable to create raw display: %s" % err)
""",
 needs='a raw display which fails with an error of another class, such as struct.error or a stream error',
 breaks='reading the raw display raises', demo=TOP + '''
    def createRawDisplay(self):
        import struct
        return struct.unpack("<I", b"abc")
assert F(top, "f", 8).raw_display == ""
'''),
dict(id='c09-empty-description', property='C09', file=F,
 old="        if self._description is None:\n            try:\n                self._description = self.createDescription()\n",
 new="        if not self._description:\n            try:\n                self._description = self.createDescription()\n",
 needs='a description which is empty, or whose computation fails, read twice',
 breaks='the description is computed again at every read', demo=TOP + '''
    def createDescription(self):
        self.n += 1
        if self.n == 1:
            raise ValueError("x")
        return "text %d" % self.n
f = F(top, "f", 8)
assert f.description == ""
assert f.description == "", f.description
assert f.n == 1
'''),
]
