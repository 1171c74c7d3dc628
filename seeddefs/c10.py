S = 'hachoir/editor/fieldset.py'
TOP = '''
from io import BytesIO
from hachoir.field import Parser, FieldSet, CString, Bits, UInt8
from hachoir.stream import StringInputStream, OutputStream
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
from hachoir.core import config
from hachoir.editor import createEditor, EditableInteger, EditableBits, EditableBytes
config.quiet = True
def written(ed):
    out = BytesIO()
    ed.writeInto(OutputStream(out))
    return out.getvalue()
class Sub(FieldSet):
    def createFields(self):
        yield UInt8(self, "x")
        yield UInt8(self, "y")
class Top(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield UInt8(self, "a")
        yield CString(self, "s")
        yield Sub(self, "sub")
        yield UInt8(self, "z")
DATA = b"Astr\\0XYZ"
ed = createEditor(Top(StringInputStream(DATA)))
assert written(ed) == DATA
'''
SEEDS = [
dict(id='c10-insert-at-deleted', property='C10', file=S,
 old='''            name = field.name
            if name in self._inserted:
                for newfield in self._inserted[name]:
                    yield weakref.proxy(newfield)
            if name not in self._deleted:
                yield self[name]
''', new='''            name = field.name
            if name in self._deleted:
                continue
            if name in self._inserted:
                for newfield in self._inserted[name]:
                    yield weakref.proxy(newfield)
            yield self[name]
''',
 needs='a field inserted before another one which is then deleted',
 breaks='the inserted field is not written', demo=TOP + '''
ed.insertBefore("s", EditableInteger(ed, "n", False, 8, 0x4e))
assert written(ed) == b"ANstr\\0XYZ"
del ed["s"]
assert written(ed) == b"ANXYZ", written(ed)
'''),
dict(id='c10-address-shortcut', property='C10', file=S,
 old='''        # assert name not in self._deleted
        addr = 0
''', new='''        if not self._deleted and not self._inserted and name in self.input:
            return self.input[name].address
        addr = 0
''',
 needs='a string field made longer, nothing inserted nor deleted, and the address of a later field',
 breaks='the address is the one of the original data', demo=TOP + '''
assert ed["z"].address == 56
ed["s"].value = b"longer"
assert written(ed) == b"Alonger\\0XYZ"
assert ed["z"].address == 80, ed["z"].address
'''),
dict(id='c10-nested-altered', property='C10', file=S,
 old='''        return any(field.is_altered for field in self._fields.values())
''', new='''        return any(field.is_altered for field in self._fields.values()
                   if not field.is_field_set or field._fields)
''',
 needs='a nested set where fields were only deleted or inserted',
 breaks='the outer set counts as not altered: the deletion is not written', demo=TOP + '''
ed["sub/x"].value = 0x30
assert written(ed) == b"Astr\\x000YZ"
ed = createEditor(Top(StringInputStream(DATA)))
del ed["sub/x"]
assert written(ed) == b"Astr\\0YZ", written(ed)
'''),
dict(id='c10-len-groups', property='C10', file=S,
 old='''            - len(self._deleted) \\
            + sum(len(new) for new in self._inserted.values())
''', new='''            - len(self._deleted) + len(self._inserted)
''',
 needs='two fields inserted at the same place',
 breaks='the length counts one of them', demo=TOP + '''
ed.insertBefore("s", EditableInteger(ed, "n", False, 8, 0x4e))
assert len(ed) == len(list(ed)) == 5
ed.insertBefore("s", EditableInteger(ed, "m", False, 8, 0x4d))
assert len(ed) == len(list(ed)) == 6, len(ed)
'''),
dict(id='c10-rotate', property='C10', file=S,
 old='''                    fields.rotate(-pos)
                    fields.extendleft(reversed(new_fields))
                    fields.rotate(pos)
''', new='''                    for field in new_fields:
                        fields.insert(pos, field)
''',
 needs='several fields inserted in one call next to an inserted field',
 breaks='they come in the reverse order', demo=TOP + '''
ed.insertBefore("s", EditableInteger(ed, "n", False, 8, 0x4e))
ed.insertAfter("n", EditableInteger(ed, "p", False, 8, 0x50), EditableInteger(ed, "q", False, 8, 0x51))
assert written(ed) == b"ANPQstr\\0XYZ", written(ed)
'''),
dict(id='c10-size-altered', property='C10', file=S,
 old='''        if self.is_altered:
            return sum(field.size for field in self)
''', new='''        if self._inserted or self._deleted:
            return sum(field.size for field in self)
''',
 needs='a string field of a set made longer or shorter',
 breaks='the size of the set is the original one', demo=TOP + '''
ed["s"].value = b"longer"
assert written(ed) == b"Alonger\\0XYZ"
assert ed.size == 88, ed.size
'''),
]
