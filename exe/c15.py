"""Executable contract of the text clean-up functions."""
from exe.common import *
import codecs
import itertools
import re

CASE_TIMEOUT = 30
CHARSETS = ('ASCII', 'latin-1', 'ISO-8859-15', 'UTF-8', 'UTF-16', 'UTF-16-LE', 'UTF-16-BE', 'UTF-32', 'utf-8-sig', 'shift_jis', 'cp932', 'gbk', 'gb18030', 'big5',
            'euc_jp', 'euc_kr', 'iso2022_jp', 'cp037', 'cp500', 'cp1252', 'cp437', 'koi8-r', 'mac-roman', 'UTF-7')
SPECIAL = ('\\x01', '\\x0', '7', '8', '0', '\\', '"', "'", '\n', '\r', '\t', '\0', '\x1b', '\x7f', '\x80', '\x85', 'é', '€', '表', '\ud800', '\udfff', '\U0001f600', '\u785c\u3130',
           '\u5c78\u3031', '\u5c00\u7800\u3000\u3100', '\u5c95', 'ソ', '~', '+', '¥', '\u2028', 'x01', 'x0', '{', '\ufeff')
NLS = ('\r', '\n', '\r\n', '\n\r', 'a', 'b', ' ', '\v', '\f', '\x85', '\u2028', '\x1c', '\t', '\\r', '\\n', '')


def cases(rng, tier, hints):
    for n in range(7 if tier == 'quick' else 9):
        yield dict(k='newlines', n=n)
    for q in (None, '"', "'", '*', '', "\"'"):
        for smart in (0, 1):
            for c in CHARSETS:
                yield dict(k='chars', c=c, q=q, s=smart)
    for a in range(256):
        yield dict(k='bytes', a=a)
    for c in CHARSETS:
        for a in SPECIAL:
            for b in SPECIAL:
                yield dict(k='print', t=[a, b, '1'], c=c, q=None, s=1, b=0)
    for n in (30, 100, 300, 1000, 5000):
        for a in ('\n', '\r', '\r\n', '\n\r', '\n\n\r'):
            yield dict(k='nl', t=['a', a * n, 'b'])
    while True:
        k = rng.random()
        if k < .2:
            yield dict(k='nl', t=[rng.choice(NLS) for _ in range(rng.randrange(0, 14))])
        else:
            yield dict(k='print', c=rng.choice(CHARSETS), q=rng.choice((None, None, '"', "'", '*', '', '<>', 'é', '\\')), s=rng.randrange(2), b=rng.randrange(4) == 0,
                       t=[rng.choice(SPECIAL) if rng.random() < .6 else chr(rng.choice((rng.randrange(32), rng.randrange(128), rng.randrange(256), rng.randrange(0x10000), rng.randrange(0x110000)))) for _ in range(rng.randrange(0, 9))])


NAMES = {'\n': '\\n', '\r': '\\r', '\t': '\\t', '\a': '\\a', '\b': '\\b'}


def controls(t):
    return ''.join(NAMES.get(c, '\\x%02x' % ord(c)) if ord(c) < 32 or c == '\x7f' else c for c in t)


def shorten(t):
    """\\x0N is written \\N unless an octal digit follows"""
    r, i = [], 0
    while i < len(t):
        if t[i:i + 3] == '\\x0' and t[i + 3:i + 4] and t[i + 3] in '01234567' and not (t[i + 4:i + 5] and t[i + 4] in '01234567'):
            r.append('\\' + t[i + 3])
            i += 4
        else:
            r.append(t[i])
            i += 1
    return ''.join(r)


def represent(t, charset):
    r = []
    for c in t:
        try:
            d = c.encode(charset).decode(charset)
            r.append(d if d or charset != 'utf-8-sig' else c)
        except UnicodeError:
            n = ord(c)
            r.append('\\x%02x' % n if n < 256 else '\\u%04x' % n if n < 65536 else '\\U%08x' % n)
    return ''.join(r)


def check(data, charset, quote, smart):
    from hachoir.core.tools import makePrintable
    try:
        got = makePrintable(data, charset, quote=quote, smart=smart)
    except Exception as e:
        return 'makePrintable(%a, %r, quote=%r, smart=%r): %s: %s' % (data, charset, quote, smart, type(e).__name__, e)
    where = 'makePrintable(%a, %r, quote=%r, smart=%r): %a' % (data, charset, quote, smart, got)
    if type(got) is not str or any(ord(c) < 32 for c in got):
        return where + ' has control characters'
    cs = 'ASCII' if isinstance(data, bytes) and data else charset
    if charset != 'utf-8-sig':
        try:
            got.encode(charset)
        except UnicodeError:
            return where + ' can not be written in this charset'
    t = data.decode('latin-1') if isinstance(data, bytes) else data
    if not t:
        want = '(empty)' if quote else ''
    else:
        want = controls(t)
        if quote:
            if quote in '"\'':
                want = want.replace(quote, '\\' + quote)
            want = quote + want + quote
    if charset not in ('utf-8-sig', 'UTF-16', 'UTF-32', 'UTF-7') or not any(c == '\ufeff' or 0xd800 <= ord(c) < 0xe000 for c in want):
        want = represent(want, cs)
        if smart:
            want = shorten(want)
        if got != want:
            return where + ' instead of %a' % want
    return None


def newline(t):
    from hachoir.core.tools import normalizeNewline
    want = '\n'.join(re.split('[\r\n]+', t))
    got = normalizeNewline(t)
    if got != want:
        return 'normalizeNewline(%r): %r instead of %r' % (t, got, want)


def uni(x, t):
    from hachoir.core.tools import makeUnicode
    try:
        got = makeUnicode(x)
    except Exception as e:
        return 'makeUnicode(%a): %s' % (x, e)
    want = shorten(controls(t))
    if got != want or any(ord(c) < 32 for c in got):
        return 'makeUnicode(%a): %a instead of %a' % (x, got, want)


def run_case(case):
    k = case['k']
    if k == 'newlines':
        for t in itertools.product('\r\na', repeat=case['n']):
            r = newline(''.join(t))
            if r:
                return r
        return None
    if k == 'nl':
        return newline(''.join(case['t']))
    if k == 'chars':
        for i in list(range(0x180)) + [0x2028, 0x20ac, 0x3042, 0xd800, 0xfeff, 0xffff, 0x10ffff]:
            r = check('[%c]' % i, case['c'], case['q'], bool(case['s']))
            if r:
                return r
        return None
    if k == 'bytes':
        a = case['a']
        for b in (0, 1, 7, 8, 9, 10, 13, 27, 31, 32, 34, 39, 48, 55, 56, 92, 120, 127, 128, 255):
            x = bytes((a, b, 49))
            r = check(x, 'ASCII', None, True) or check(x, 'UTF-8', '"', True) or uni(x, x.decode('latin-1')) or uni(x.decode('latin-1'), x.decode('latin-1'))
            if r:
                return r
        return None
    t = ''.join(case['t'])
    if case['b']:
        t = t.encode('utf-8', 'surrogatepass')
    return check(t, case['c'], case['q'], bool(case['s'])) or uni(t, t.decode('latin-1') if case['b'] else t)
