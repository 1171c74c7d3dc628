T = 'hachoir/core/tools.py'
F = 'hachoir/field/timestamp.py'
TOP = '''
from hachoir.field import Parser, TimeDateMSDOS32, DateTimeMSDOS32, TimestampWin64, Bits
from hachoir.stream import StringInputStream
from hachoir.core.endian import LITTLE_ENDIAN
from hachoir.core.log import log
from datetime import datetime
log.use_print = False
class Top(Parser):
    endian = LITTLE_ENDIAN
    def createFields(self):
        yield self.cls(self, "a")
'''
SEEDS = [
dict(id='c16-mac-max', property='C16', file=T,
 old="    if not (0 <= value <= 4294967295):\n", new="    if not (0 <= value < 0xffffffff):\n",
 needs='the largest 32-bit Macintosh timestamp',
 breaks='the last second of the range is refused',
 demo='''
from hachoir.core.tools import timestampMac32
from datetime import datetime
assert timestampMac32(0xffffffff) == datetime(2040, 2, 6, 6, 28, 15)
'''),
dict(id='c16-packed-century', property='C16', file=F,
 old="            1980 + self[\"year\"].value, ",
 new="            1900 + (80 + self[\"year\"].value) % 200, ",
 needs='a packed date of the years 2100 to 2107',
 breaks='the packed date denotes a date two centuries earlier',
 demo=TOP + '''
Top.cls = DateTimeMSDOS32
v = (120 << 9) | (2 << 5) | 3
top = Top(StringInputStream(v.to_bytes(2, "little") + b"\\0\\0"))
assert top["a"].value == datetime(2100, 2, 3), top["a"].value
'''),
dict(id='c16-uuid-negative', property='C16', file=T,
 old="""    if value < 0:
        raise ValueError("value have to be a positive or nul integer")
    try:
        return UUID60_TIMESTAMP_T0""", new="""    value &= (1 << 60) - 1
    try:
        return UUID60_TIMESTAMP_T0""",
 needs='a negative or a too large UUID timestamp',
 breaks='a value out of range is converted to a date instead of being refused',
 demo='''
from hachoir.core.tools import timestampUUID60
for bad in (-1, 1 << 62):
    try:
        got = timestampUUID60(bad)
    except ValueError:
        pass
    else:
        raise AssertionError((bad, got))
'''),
]
