S = 'hachoir/subfile/search.py'
P = 'hachoir/regex/pattern.py'
SCAN = '''
import contextlib, io
import hachoir.subfile.pattern as PM
from hachoir.subfile.search import SearchSubfile
from hachoir.stream import StringInputStream
def fake(name, magic, size=None, skip=False):
    class Fake:
        filename_suffix, description, content_size = None, name, size
        @classmethod
        def getParserTags(cls):
            d = {"id": name, "magic": ((magic, 0),)}
            if skip:
                d["subfile"] = "skip"
            return d
        def __init__(self, stream, validate=False):
            pass
    Fake.__name__ = name
    return Fake
def scan(data, classes, size, **k):
    found = []
    PM.QueryParser = lambda tags: classes
    class Search(SearchSubfile):
        def processParser(self, offset, parser):
            found.append((offset // 8, type(parser).__name__))
    s = Search(StringInputStream(data))
    s.verbose = False
    s.slice_size = 8 * size
    with contextlib.redirect_stderr(io.StringIO()):
        s.loadParsers()
        s.main()
    return found
'''
SEEDS = [
dict(id='c18-adjacent', property='C18', file=S,
 old='''            if self.next_offset and offset < self.next_offset:
''', new='''            if self.next_offset and offset <= self.next_offset:
''',
 needs='a file which begins right after a file whose content is skipped',
 breaks='the second one is not found', demo=SCAN + '''
f = [fake("A", b"AAA", 80, True), fake("B", b"BBB")]
assert scan(b"..AAA.......BBB.....BBB...", f, 64) == [(2, "A"), (12, "B"), (20, "B")]
'''),
dict(id='c18-break', property='C18', file=S,
 old='''                if end <= self.next_offset:
                    break
''', new='''                # the rest of the slice is too small to hold a magic
                if end <= self.next_offset + self.patterns.max_length * 8:
                    break
''',
 needs='a file to skip which ends close to the end of a slice, and a signature between both',
 breaks='the signature is not examined', demo=SCAN + '''
f = [fake("A", b"AAA", 64, True), fake("B", b"BB"), fake("C", b"CCCCCCC")]
assert scan(b"AAA.....BB......CCCCCCC" + b"." * 9, f, 12) == [(0, "A"), (8, "B"), (16, "C")]
'''),
dict(id='c18-length', property='C18', file=P,
 old='''        for item in self.regex_patterns:
            if regex:
                regex |= item.regex
            else:
                regex = item.regex
            length = max(length, item.regex.maxLength())
''', new='''        for item in self.regex_patterns:
            if regex:
                regex |= item.regex
                length = max(length, item.regex.maxLength())
            else:
                regex = item.regex
''',
 needs='no string pattern, only regular expressions',
 breaks='the first regular expression does not count in the maximum length: nothing is searched', demo='''
from hachoir.regex import PatternMatching
p = PatternMatching()
p.addRegex("[ab]c", "r")
assert [(a, b, i.user) for a, b, i in p.search("xxbc.ac")] == [(2, 4, "r"), (5, 7, "r")]
'''),
dict(id='c18-commit', property='C18', file=P,
 old='''        self.string_dict[item.text] = item
        self._need_commit = True
''', new='''        self.string_dict[item.text] = item
        self._need_commit = self._regex is None
''',
 needs='a pattern added after a first search',
 breaks='the new pattern is not searched', demo='''
from hachoir.regex import PatternMatching
p = PatternMatching()
p.addString("ab", 1)
assert [i.user for a, b, i in p.search("ab cd")] == [1]
p.addString("cd", 2)
assert [i.user for a, b, i in p.search("ab cd")] == [1, 2]
'''),
dict(id='c18-tag', property='C18', file=P,
 old='''        for match in self.compiled_regex.finditer(data):
            item = self.getPattern(match.group(0))
            yield (match.start(0), match.end(0), item)
''', new='''        last = None
        for match in self.compiled_regex.finditer(data):
            item = self.getPattern(match.group(0))
            if item is last:
                # the same pattern again: a run of padding
                continue
            last = item
            yield (match.start(0), match.end(0), item)
''', needs='the same pattern twice without another pattern in between',
 breaks='the second match is not reported', demo='''
from hachoir.regex import PatternMatching
p = PatternMatching()
p.addString("ab", 1)
p.addString("cd", 2)
assert [(a, i.user) for a, b, i in p.search("ab cd ab ab")] == [(0, 1), (3, 2), (6, 1), (9, 1)]
'''),
]
