T = 'hachoir/core/tools.py'
HEAD = 'from hachoir.core.tools import makePrintable, makeUnicode, normalizeNewline\n'
SEEDS = [
    dict(id='c15-escape', property='C15', file=T,
         old='regex_control_code = re.compile(r"([\\x00-\\x1f\\x7f])")\n',
         new='regex_control_code = re.compile(r"([\\x00-\\x1a\\x1c-\\x1f\\x7f])")\n',
         needs='a text with an escape character (27)',
         breaks='the escape character is printed as is: the file controls the terminal',
         demo=HEAD + '''
for code in range(32):
    for text in (makePrintable("a%cb" % code, "UTF-8"), makeUnicode("a%cb" % code)):
        assert not any(ord(c) < 32 for c in text), (code, text)
'''),
    dict(id='c15-cp1252', property='C15',
         edits=[(T, '''    if isinstance(text, bytes):
        text = str(text, "ISO-8859-1")
''', '''    if isinstance(text, bytes):
        # superset of ISO-8859-1, often used by Windows programs
        text = str(text, "cp1252")
''')],
         needs='one of the five bytes which cp1252 does not define',
         breaks='UnicodeDecodeError',
         demo=HEAD + '''
for code in range(256):
    makeUnicode(bytes([65, code, 66]))
'''),
    dict(id='c15-mixed', property='C15',
         edits=[(T, '''    text = text.replace("\\r", "\\n")
    return NEWLINES_REGEX''', '''    return NEWLINES_REGEX'''),
                (T, '''NEWLINES_REGEX = re.compile("\\n+")''', '''NEWLINES_REGEX = re.compile("\\r+|\\n+")''')],
         needs='line ends of different kinds in a row, such as LF CR or CR CR LF',
         breaks='two line ends are left instead of one',
         demo=HEAD + '''
import itertools
for n in range(6):
    for x in itertools.product("\\r\\n", repeat=n):
        x = "".join(x)
        assert normalizeNewline("a" + x + "b") == ("a\\nb" if n else "ab"), x
'''),
    dict(id='c15-quote', property='C15',
         edits=[(T, '''                data = data.replace(quote, '\\\\' + quote)
            data = ''.join((quote, data, quote))
    elif quote:''', '''                data = data.replace(quote, '\\\\' + quote)
    elif quote:'''),
                (T, '''        data = "(empty)"
    else:
        data = ""
''', '''        data = "(empty)"
        quote = None
    else:
        data = ""
'''),
                (T, '''

def makeUnicode(text):''', '''

def _quoted(func):
    def wrapper(data, charset, quote=None, smart=True):
        text = func(data, charset, quote, smart)
        if quote and data:
            text = quote + text + quote
        return text
    wrapper.__doc__ = func.__doc__
    return wrapper


makePrintable = _quoted(makePrintable)


def makeUnicode(text):''')],
         needs='a quote which the charset can not represent',
         breaks='the result can not be written in this charset',
         demo=HEAD + '''
for quote in ("'", '"', "\\xab", "\\u201c"):
    for charset in ("ASCII", "latin-1", "UTF-8"):
        makePrintable("a", charset, quote=quote).encode(charset)
        makePrintable(b"a", charset, quote=quote).encode(charset)
'''),
    dict(id='c15-many', property='C15', file=T,
         old='NEWLINES_REGEX = re.compile("\\n+")',
         new='NEWLINES_REGEX = re.compile("\\n{2,256}")',
         needs='more than 256 line ends in a row',
         breaks='several line ends are left',
         demo=HEAD + '''
for n in range(1, 2000):
    assert normalizeNewline("a" + "\\n" * n + "b") == "a\\nb", n
'''),
]
