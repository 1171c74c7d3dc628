TOP = '''
from io import BytesIO
from hachoir.field import Parser, FieldSet, Bits, UInt8, UInt16, Int24, RawBytes, ParserError, createOrphanField
from hachoir.stream import StringInputStream, InputIOStream, InputSubStream, FileInputStream
from hachoir.core.endian import BIG_ENDIAN
from hachoir.core import config
config.quiet = True
'''
SEEDS = [
dict(id='c02-open-size', property='C02', file='hachoir/stream/input_helper.py',
 old='''    if offset or size:
        if size:''', new='''    if offset:
        if size:''',
 needs='a file opened with a size and without an offset', breaks='the whole file is given instead of its first bytes', demo=TOP + '''
import os, tempfile
with tempfile.TemporaryDirectory() as tmp:
    p = os.path.join(tmp, "f")
    open(p, "wb").write(b"0123456789")
    with FileInputStream(p, offset=2, size=3) as st:
        assert st.readBytes(0, 3) == b"234" and st.size == 24
    with FileInputStream(p, size=4) as st:
        assert st.size == 32, st.size
'''),
dict(id='c02-dec-exact', property='C02', file='hachoir/field/sub_file.py',
 old='''        self._buffer = d[size + len(d):]''', new='''        self._buffer = d[size:]''',
 needs='a read of a decompressed stream which ends exactly where a block ends', breaks='the last block is given again by the next read', demo=TOP + '''
from hachoir.field.sub_file import CompressedStream
class Copy:
    def __init__(self, stream):
        self.out = b""
    def __call__(self, size, data=b""):
        self.out += data or b""
        r, self.out = self.out[:600], self.out[600:]
        return r
data = bytes(range(200)) * 10
s = CompressedStream(StringInputStream(data), Copy)
got = b""
for n in (100, 20, 392, 10, 600, 1):
    got += s.read(n)
assert got == data[:len(got)], "not the content"
'''),
dict(id='c02-told-dead', property='C02', file='hachoir/stream/input.py',
 old='''                    client = client()
                    if client:
                        client._setSize(self._size)''', new='''                    client = client()
                    if not client:
                        break
                    client._setSize(self._size)''',
 needs='two views of a stream of unknown size, the first one forgotten before the size is found', breaks='the other views never know their size', demo=TOP + '''
class Pipe:
    def __init__(self, b):
        self.b = BytesIO(b)
    def read(self, n):
        return self.b.read(n)
st = InputIOStream(Pipe(b"0123456789"), source="pipe")
a = InputSubStream(st, 8)
b = InputSubStream(st, 16)
del a
assert st.sizeGe(81) is False
assert b.size == 64, b.size
'''),
dict(id='c06-orphan-fails', property='C06', file='hachoir/field/helper.py',
 old='''    try:
        fieldset._current_size = address
        field = field_cls(fieldset, *args, **kw)
    finally:
        fieldset._current_size = save_size
    return field''', new='''    fieldset._current_size = address
    field = field_cls(fieldset, *args, **kw)
    fieldset._current_size = save_size
    return field''',
 needs='an orphan field whose constructor raises, the error being handled', breaks='the next fields are not where the previous one ends', demo=TOP + '''
class P(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield UInt8(self, "a")
        try:
            createOrphanField(self, 40, RawBytes, "x", -1)
        except Exception:
            pass
        yield UInt8(self, "b")
p = P(StringInputStream(b"abcdefgh"))
assert p["b"].address == 8, p["b"].address
'''),
dict(id='c01-int24', property='C01', file='hachoir/field/integer.py',
 old='''Int24 = integerFactory("Int24", True, 24''', new='''Int24 = integerFactory("Int24", False, 24''',
 needs='a negative signed integer of 24 bits', breaks='its value is positive', demo=TOP + '''
class P(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield Int24(self, "a")
assert P(StringInputStream(b"\\xff\\xff\\xfe"))["a"].value == -2
'''),
dict(id='c02-rest-limit', property='C02', file='hachoir/parser/image/png.py',
 old='''                data = self.gzip.unconsumed_tail
''', new='''                data = b""
''',
 needs='compressed data of which one read gives only a part of the content', breaks='the data which was not used yet is lost and the content is damaged', demo=TOP + '''
import zlib
from hachoir.field.sub_file import CompressedStream
from hachoir.parser.image.png import Gunzip
data = b"a" * 5000 + bytes(range(256)) + b"b" * 5000
s = CompressedStream(StringInputStream(zlib.compress(data)), Gunzip)
got = b""
for n in (1, 3000, 4000, 3000, 5000):
    got += s.read(n)
assert got == data
'''),
dict(id='c18-store-again', property='C18', file='hachoir/subfile/search.py',
 old='''            if (offset == 0 and parser.content_size == self.size):''', new='''            if offset == self.start_offset and parser.content_size == self.size:''',
 needs='a search which starts after the beginning of the file, and a file found there as long as the input', breaks='a file which is found is not stored', demo=TOP + '''
import os, tempfile, contextlib, io
from hachoir.subfile.search import SearchSubfile
class Par:
    content_size = 64
    description = "d"
    filename_suffix = ".x"
with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
    s = SearchSubfile(StringInputStream(b"01234567"), 2)
    s.setOutput(tmp + "/out")
    s.processParser(16, Par())
    assert os.path.isdir(tmp + "/out") and len(os.listdir(tmp + "/out")) == 1, "not stored"
'''),
dict(id='c18-name-reuse', property='C18', file='hachoir/subfile/output.py',
 old='''        filename = "file-%04u" % self.file_id
        self.file_id += 1
        if file_ext:
            filename += file_ext
''', new='''        filename = "file-%04u" % (self.file_id % 10000)
        self.file_id += 1
        if file_ext:
            filename += file_ext
''',
 needs='more than ten thousand files found', breaks='a file replaces one which was stored before', demo=TOP + '''
from hachoir.subfile.output import Output
o = Output("unused")
names = {o.createFilename(".x") for i in range(10500)}
assert len(names) == 10500, len(names)
'''),
dict(id='c02-fragment-iter', property='C02', file='hachoir/field/link.py',
 old='''            data = fragment.getData()
            yield data and data.size
            fragment = fragment.next
''', new='''            data = fragment.getData()
            if data is None:
                break
            yield data.size
            fragment = fragment.next
''',
 needs='a chain of fragments in which one has no data', breaks='the fragments after it are not given', demo=TOP + '''
from hachoir.field.link import Fragments
class F:
    def __init__(self, size, next):
        self.size, self.next = size, next
    def getData(self):
        return self if self.size else None
sizes = list(Fragments(F(8, F(0, F(16, None)))))
assert sizes == [8, None, 16], sizes
'''),
]
