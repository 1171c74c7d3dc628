G = 'hachoir/parser/guess.py'
P = 'hachoir/parser/parser.py'
L = 'hachoir/parser/parser_list.py'
HEAD = '''
from hachoir.core import config
config.quiet = True
import hachoir.core.log as log
log.log.use_print = False
import hachoir.parser.guess as G
from hachoir.parser import Parser, ParserList
from hachoir.core.endian import BIG_ENDIAN
from hachoir.stream import StringInputStream


def make(ident, answer, **tags):
    class Cls(Parser):
        endian = BIG_ENDIAN
        PARSER_TAGS = dict(id=ident, description="d", category="misc", min_size=8, **tags)

        def validate(self):
            if isinstance(answer, Exception):
                raise answer
            return answer

        def createFields(self):
            return
            yield
    Cls.__name__ = ident
    return Cls


def registry(*classes):
    db = ParserList()
    for c in classes:
        db.add(c)

    class Inst:
        @staticmethod
        def getInstance():
            return db
    G.HachoirParserList = Inst
    return db


def stream():
    return StringInputStream(b"0123456789")
'''
SEEDS = [
dict(id='c20-short', property='C20', file=P,
 old='''            if stream.sizeGe(nbits):
''', new='''            if stream.sizeGe(nbits // 8):
''',
 needs='a stream shorter than the minimum size of a parser, at least an eighth of it',
 breaks='the parser is used for a stream which is too short', demo=HEAD + '''
a = make("aaa", True)
a.PARSER_TAGS["min_size"] = 20 * 8
registry(a)
assert G.QueryParser([]).parse(stream()) is None
assert isinstance(G.QueryParser([]).parse(StringInputStream(b"x" * 20)), a)
'''),
dict(id='c20-error', property='C20', file=G,
 old='''                warn("Skip parser '%s': %s" % (parser.__name__, err))
            except Exception as err:
''', new='''                warn("Skip parser '%s': %s" % (parser.__name__, err))
            except (MemoryError, RecursionError):
                raise
            except Exception as err:
''',
 needs='a candidate which fails with a MemoryError or RecursionError (a size read from the file)',
 breaks='the error stops the search: the other candidates are not tried', demo=HEAD + '''
a, b = make("aaa", RecursionError("x")), make("bbb", True)
registry(a, b)
try:
    r = G.QueryParser([]).parse(stream())
except RecursionError:
    r = None
assert isinstance(r, b)
'''),
dict(id='c20-atomic', property='C20', edits=[(L, '''        _tags = []
        for tag in tags.items():
''', '''        self.parser_list.append(parser)

        _tags = []
        for tag in tags.items():
'''), (L, '''                return

        self.parser_list.append(parser)

''', '''                return

''')],
 needs='a parser with the identifier of another one',
 breaks='the parser is refused but stays in the list of candidates', demo=HEAD + '''
a, b = make("aaa", False), make("aaa", True)
db = registry(a, b)
assert list(db) == [a]
assert G.QueryParser([]).parse(stream()) is None
'''),
dict(id='c20-twice', property='C20', file=G,
 old='''                        if parser in self.parsers:
                            parsers.append(parser)
                            self.parsers.remove(parser)
''', new='''                        if parser in self.parsers:
                            self.parsers.remove(parser)
                        parsers.append(parser)
''',
 needs='two tags which both select the same parser, which is not valid and comes first',
 breaks='a parser which was already a candidate is tried again: with a None tag before it, parsers which were excluded', demo=HEAD + '''
tried = []
a, b = make("aaa", False, file_ext=("x",), mime=("m/x",)), make("bbb", True, mime=("m/x",))
registry(a, b)
q = G.QueryParser([("file_ext", "x"), ("mime", "m/x")])
assert list(q) == [a, b]
'''),
dict(id='c20-fallback', property='C20', file=G,
 old='''                if fallback and self.fallback:
                    fb = parser
''', new='''                if fallback or self.fallback:
                    fb = parser
''',
 needs='a query which allows a fallback, whose first tag selects several candidates, none of which is valid',
 breaks='the first of them is used though it is not the only one', demo=HEAD + '''
a, b = make("aaa", False, file_ext=("x",)), make("bbb", False, file_ext=("x",))
registry(a, b)
q = G.QueryParser([("file_ext", "x")])
q.use_fallback = True
assert q.parse(stream()) is None
q = G.QueryParser([lambda p: p is a])
q.use_fallback = True
assert isinstance(q.parse(stream()), a)
assert q.parse(stream(), fallback=False) is None
'''),
]
