TOP = '''
from hachoir.core import config
config.quiet = True
'''
PB = TOP + '''
from hachoir.field import Parser, FieldSet, UInt8, UInt16, RawBytes, Bits
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
'''
SEEDS = [
dict(id='c20-cached-class', property='C20', file='hachoir/parser/guess.py',
 old='''            if parser.__class__ in self.parsers:
                return parser
''', new='''            if isinstance(parser, tuple(self.parsers)):
                return parser
''',
 needs='a stream which was parsed by a subclass of a parser in the list', breaks='the parser which is returned is not in the list', demo=PB + '''
from hachoir.parser.guess import QueryParser
from hachoir.parser import Parser
class A(Parser):
    endian = BIG_ENDIAN
    PARSER_TAGS = {"id": "a", "category": "misc", "min_size": 8, "description": "a"}
    def createFields(self):
        yield Bits(self, "x", 24)
    def validate(self): return True
class B(A):
    pass
s = StringInputStream(b"abc")
q = QueryParser([("args", {})]); q.parsers = [B]; q.other = None
b = q.parse(s)
q.parsers = [A]
r = q.parse(s)
assert r.__class__ is A, r
'''),
dict(id='c02-seek-end', property='C02', file='hachoir/stream/input.py',
 old='''            self._from_end = False
            self._offset = max(0, self._offset + self._size)
        return self._offset
''', new='''            self._from_end = False
            self._offset = max(0, min(self._size, self._offset + self._size))
        return self._offset
''',
 needs='a seek after the end, relative to the end', breaks='tell gives the end of the stream', demo=TOP + '''
from hachoir.stream import StringInputStream
f = StringInputStream(b"abc").file()
f.seek(2, 2)
f.seek(-2, 1)
assert f.read() == b"" and f.tell() == 3, f.tell()
'''),
dict(id='c19-lower-priority', property='C19', file='hachoir/metadata/metadata.py',
 old='''            priority = max(priority, MIN_PRIORITY)
            priority = min(priority, MAX_PRIORITY)
        else:
            priority = MAX_PRIORITY
        if not title:
            title = self.header
        text = ["%s:" % title]
''', new='''            priority = max(priority, MIN_PRIORITY) % (MAX_PRIORITY + 1)
        else:
            priority = MAX_PRIORITY
        if not title:
            title = self.header
        text = ["%s:" % title]
''',
 needs='a wanted priority over the maximum', breaks='entries are missing in the export', demo=TOP + '''
from hachoir.metadata.metadata import RootMetadata
m = RootMetadata()
m.author = "x"
m.comment = "y"
a = m.exportPlaintext(priority=1000)
assert a == m.exportPlaintext(), a
'''),
]
