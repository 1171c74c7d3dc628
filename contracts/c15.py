"""C15: text made for display is printable, and text clean-up is exact.

A text is observed through one arbitrary character G: may it occur in the
text, must it occur. Functions which replace single characters act character
by character; which characters a pattern matches is read from the compiled
pattern itself, for every code point.
"""
import re
from re import _parser as P, _constants as K
import z3
from pyvc.core import RT, Sym, mkint, mkbool, zint, iv, Unsupported
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.c16 import patched

PROP = 'C15'
T = 'hachoir.core.tools:'
G = z3.Int('any_character')
REPR = z3.Function('representable', z3.IntSort(), z3.BoolSort())    # in the charset of the output
ESCAPES = frozenset('\\xuU0123456789abcdef')


def t(ts, x):
    return any(y is x or getattr(y, '_real', None) is x for y in ts)


def among(chars):
    """G is one of these characters"""
    r, cs = [], sorted(set(map(ord, chars)))
    while cs:
        a = b = cs.pop(0)
        while cs and cs[0] == b + 1:
            b = cs.pop(0)
        r.append(G == a if a == b else z3.And(a <= G, G <= b))
    return z3.Or(*r) if r else z3.BoolVal(False)


# ---------------------------------------------------------------- patterns

SINGLE = {K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY}


def flat(seq):
    """the items of a pattern, without groups"""
    r = []
    for op, av in seq:
        if op is K.SUBPATTERN:
            r += flat(av[3])
        else:
            r.append((op, av))
    return r


_chars = {}


def single(p):
    """the set of characters a pattern matches, if it always matches one character"""
    if p.pattern not in _chars:
        items = flat(P.parse(p.pattern, p.flags))
        ok = len(items) == 1 and items[0][0] in SINGLE
        if len(items) == 1 and items[0][0] is K.BRANCH:
            ok = all(len(flat(x)) == 1 and flat(x)[0][0] in SINGLE for x in items[0][1][1])
        _chars[p.pattern] = frozenset(filter(p.fullmatch, map(chr, range(0x110000)))) if ok else None
    return _chars[p.pattern]


def run_of(p):
    """the characters, if the pattern matches every run of characters of a set"""
    items = flat(P.parse(p.pattern, p.flags))
    if len(items) == 1 and items[0][0] is K.MAX_REPEAT and items[0][1][0] in (0, 1) and items[0][1][1] is K.MAXREPEAT:
        low, high, sub = items[0][1]
        sub = flat(sub)
        if low == 1 and len(sub) == 1 and sub[0][0] in SINGLE:
            return frozenset(c for c in map(chr, range(0x110000)) if p.fullmatch(c))
    return None


def consumed(p):
    """a set which has every character the pattern can match"""
    def walk(seq):
        r = set()
        for op, av in seq:
            if op is K.LITERAL:
                r.add(chr(av))
            elif op is K.IN:
                q = re.compile(p.pattern, p.flags)
                for o, a in av:
                    if o is K.LITERAL:
                        r.add(chr(a))
                    elif o is K.RANGE:
                        r |= set(map(chr, range(a[0], a[1] + 1)))
                    else:
                        raise Unsupported('character class')
            elif op is K.SUBPATTERN:
                r |= walk(av[3])
            elif op is K.BRANCH:
                for x in av[1]:
                    r |= walk(x)
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                r |= walk(av[2])
            elif op in (K.ASSERT, K.ASSERT_NOT, K.AT):
                pass
            else:
                raise Unsupported('pattern')
        return r
    return walk(P.parse(p.pattern, p.flags))


class Match:
    def __init__(self, p, s):
        self.m = p.fullmatch(s)

    def __getattr__(self, k):
        return getattr(self.m, k)

    def __getitem__(self, k):
        return self.m[k]


class Pattern:
    """a compiled pattern"""

    def __init__(self, p):
        self.p = p

    def __getattr__(self, k):
        return getattr(self.p, k)

    def sub(self, repl, text, count=0):
        if not isinstance(text, Sym):
            return self.p.sub(repl, text, count)
        if count:
            raise Unsupported('count')
        return text.replaced(self.p, repl)


class Re:
    def __getattr__(self, k):
        return getattr(re, k)

    def compile(self, p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(re.compile(p, flags))

    def sub(self, p, repl, text, count=0, flags=0):
        return self.compile(p, flags).sub(repl, text, count)


def patterns(M):
    d = {k: Pattern(v) for k, v in vars(M).items() if isinstance(v, re.Pattern)}
    d['re'] = Re()
    return d


# ---------------------------------------------------------------- texts

class Text(Sym):
    __hash__ = None
    is_text = True

    def __init__(self, may, must, empty):
        self.may, self.must, self.empty = [z3.simplify(x) if z3.is_expr(x) else z3.BoolVal(x) for x in (may, must, empty)]

    @staticmethod
    def of(x):
        if isinstance(x, Text):
            return x
        if isinstance(x, str):
            return Text(among(x), among(x), x == '')
        raise Unsupported('text')

    def sym_isinstance(self, ts):
        return t(ts, str)

    def sym_str(self):
        return self

    def __bool__(self):
        return RT.branch(z3.Not(self.empty))

    def __add__(self, o):
        o = Text.of(o)
        return Text(z3.Or(self.may, o.may), z3.Or(self.must, o.must), z3.And(self.empty, o.empty))

    def __radd__(self, o):
        return Text.of(o) + self

    def replace(self, old, new):
        RT.prove(isinstance(old, str) and isinstance(new, str) and old != '', 'replace: a text')
        return Text(z3.Or(self.may, among(new)), z3.Or(z3.And(self.must, z3.Not(among(old))), z3.And(self.must, among(old), among(new)) if len(old) == 1 else False),
                    z3.And(z3.Bool(RT.freshname('empty')), z3.Not(z3.BoolVal(len(new) >= 1))) if not RT.entails(self.empty) else True)

    def replaced(self, p, repl):
        RT.prove(isinstance(p.pattern, str), 'a pattern of texts')
        s = single(p)
        if s is not None and len(s) < 5000:
            new = ''
            kept = set()
            for c in sorted(s):
                r = repl(Match(p, c)) if callable(repl) else p.sub(repl, c)
                RT.prove(type(r) is str and r != '', 'a character is replaced by a text')
                new += r
                if c in r:
                    kept.add(c)
            return Text(z3.Or(z3.And(self.may, z3.Not(among(s))), among(new)), z3.And(self.must, z3.Or(z3.Not(among(s)), among(kept))), self.empty)
        if callable(repl):
            raise Unsupported('replaced by a function')
        lit = ''.join(x for x in P.parse_template(repl, p) if isinstance(x, str))
        try:
            lost = z3.Not(among(consumed(p)))
        except Unsupported:
            lost = z3.BoolVal(False)
        return Text(z3.Or(self.may, among(lit)), z3.And(self.must, lost), self.empty)

    def encode(self, charset='utf-8', errors='strict'):
        """ASSUMED contract of the encoders: what the charset can not represent is escaped"""
        g = RT.ghost
        RT.prove((charset is g['charset'] or charset == 'ASCII' == g['charset']) and isinstance(errors, str), 'the wanted charset')
        if errors != 'backslashreplace':
            RT.prove(z3.Implies(self.may, REPR(G)), 'every character can be encoded')
            return Encoded(self, charset)
        esc = among(ESCAPES)
        return Encoded(Text(z3.Or(z3.And(self.may, REPR(G)), esc), z3.And(self.must, REPR(G)), self.empty), charset)

    def has_control(self):
        return z3.And(self.may, G < 32)


class Encoded(Sym):
    """an encoded text"""
    __hash__ = None

    def __init__(self, text, charset):
        self.text, self.charset = text, charset

    def sym_isinstance(self, ts):
        return t(ts, bytes)

    def sym_decode(self, charset='utf-8', errors='strict'):
        RT.prove(charset is self.charset or charset == 'ASCII' == self.charset, 'decoded with the same charset')
        return self.text

    decode = sym_decode

    def replaced(self, p, repl):
        RT.prove(False, 'a text which is encoded is not modified: the charset may be any one')
        raise Unsupported('encoded text')


class Charset(Sym):
    """the name of any charset"""
    __hash__ = None


class Bytes(Sym):
    """a byte string"""
    __hash__ = None

    def __init__(self, x):
        self.x = x

    def sym_isinstance(self, ts):
        return t(ts, bytes)

    def __bool__(self):
        return RT.branch(z3.Not(self.x.empty))

    def sym_decode(self, charset='utf-8', errors='strict'):
        RT.prove(isinstance(charset, str) and charset.lower().replace('-', '').replace('_', '') in ('latin1', 'iso88591'), 'a charset which decodes every byte string')
        RT.assume(z3.Implies(self.x.may, G < 256))
        return self.x

    decode = sym_decode


class Thing(Sym):
    """any other object"""
    __hash__ = None

    def __init__(self, how, x):
        self.how, self.x = how, x

    def sym_isinstance(self, ts):
        return False

    def sym_str(self):
        if self.how == 'fails':
            raise UnicodeEncodeError('ascii', 'x', 0, 1, 'broken __str__')
        return self.x

    def sym_repr(self):
        return self.x


def m_join(sep, parts):
    if sep != '':
        raise Unsupported('join')
    r = Text.of('')
    for p in parts:
        r = r + p
    return r


def m_mod(f, a):
    if not isinstance(a, tuple):
        a = (a,)
    parts = f.split('%s')
    if '%' in ''.join(parts) or len(parts) != len(a) + 1:
        raise Unsupported('format')
    return m_join('', [x for y in zip(parts, list(a) + ['']) for x in y])


def some(name):
    may = z3.Bool(name + '_may_have_it')
    must = z3.Bool(name + '_has_it')
    empty = z3.Bool(name + '_is_empty')
    RT.assume(z3.And(z3.Implies(must, may), z3.Implies(empty, z3.Not(may))))
    return Text(may, must, empty)


def begin():
    RT.assume(z3.And(G >= 0, G < 0x110000, z3.Implies(z3.And(32 <= G, G < 127), REPR(G))))


def b_printable():
    from hachoir.core import tools as M
    g = RT.ghost
    begin()
    kind = RT.choice(['text', 'bytes'], 'data')
    quote = RT.choice([None, '', '"', "'", '*', '\xe9', '<>'], 'quote')
    smart = RT.choice([True, False], 'smart')
    x = some('data')
    g['charset'] = charset = Charset()
    data = x
    if kind == 'bytes':
        data = Bytes(x)
        # non empty byte strings are shown in ASCII
        g['charset'] = 'ASCII'
        if RT.branch(x.empty):
            g['charset'] = charset
        else:
            RT.assume(z3.Implies(G >= 128, z3.Not(REPR(G))))
    with patched(M, **patterns(M)):
        k, r = expect(T + 'makePrintable', M.makePrintable, data, charset, quote, smart)
    RT.prove(k == 'ret', 'makePrintable never fails')
    r = Text.of(r)
    RT.prove(z3.Not(r.has_control()), 'no control character')
    RT.prove(z3.Implies(r.may, REPR(G)), 'only characters which the charset can represent')
    RT.prove(z3.Implies(z3.And(x.must, G >= 127, G != 127, REPR(G)), r.must), 'characters above 127 which can be represented are kept')
    RT.prove(z3.Implies(z3.And(r.may, G >= 128), z3.Or(x.may, among(quote or ''))), 'no other characters appear')


def b_unicode():
    from hachoir.core import tools as M
    begin()
    kind = RT.choice(['text', 'bytes', 'thing', 'broken thing'], 'data')
    x = some('data')
    data = {'text': x, 'bytes': Bytes(x)}.get(kind) or Thing('fails' if kind == 'broken thing' else 'ok', x)
    with patched(M, **patterns(M)):
        k, r = expect(T + 'makeUnicode', M.makeUnicode, data)
    RT.prove(k == 'ret', 'makeUnicode never fails')
    r = Text.of(r)
    RT.prove(z3.Not(r.has_control()), 'no control character')
    RT.prove(z3.Implies(z3.And(x.must, G >= 128), r.must), 'characters above 127 are kept')
    RT.prove(z3.Implies(z3.And(r.may, G >= 128), x.may), 'no other characters appear')


# ---------------------------------------------------------------- ends of lines

class Lines(Sym):
    """a text, observed through one arbitrary run of line ends and what is
    around it: length of the run, may it have CR, LF"""
    __hash__ = None
    is_text = True

    def __init__(self, n, cr, lf):
        self.n, self.cr, self.lf = n, z3.simplify(cr), z3.simplify(lf)
        RT.assume(z3.Implies(n >= 1, z3.Or(self.cr, self.lf)))

    def sym_isinstance(self, ts):
        return t(ts, str)

    def frame(self, chars, new):
        RT.prove(set(chars) <= set('\r\n'), 'only line ends are searched: other characters are kept')
        RT.prove(isinstance(new, str) and set(new) <= set('\r\n'), 'line ends are replaced by line ends')

    def has(self, chars):
        return z3.Or(z3.And(self.cr, '\r' in chars), z3.And(self.lf, '\n' in chars))

    def fresh(self, new, inside, only=False):
        """some of the line ends were replaced"""
        n = RT.int('run').e
        RT.assume(z3.And(n >= 0, z3.Implies(self.n >= 1, n >= (1 if new else 0)), z3.Implies(self.n == 0, n == 0)))
        return n

    def replace(self, old, new, count=-1):
        RT.prove(isinstance(old, str) and old != '' and count == -1, 'replace: every line end')
        self.frame(old, new)
        cr, lf = self.cr, self.lf
        if len(old) == 1:
            if old not in new:
                cr, lf = (z3.BoolVal(False), lf) if old == '\r' else (cr, z3.BoolVal(False))
                # what is left of the run
            hit = self.cr if old == '\r' else self.lf
            cr, lf = z3.Or(cr, z3.And(hit, '\r' in new)), z3.Or(lf, z3.And(hit, '\n' in new))
            n = self.n if len(new) == 1 else self.fresh(new, hit)
            return Lines(n, cr, lf)
        hit = z3.And(*[self.has(c) for c in set(old)])
        return Lines(self.fresh(new, hit), z3.Or(cr, z3.And(hit, '\r' in new)), z3.Or(lf, z3.And(hit, '\n' in new)))

    def replaced(self, p, repl):
        RT.prove(isinstance(p.pattern, str) and isinstance(repl, str), 'a pattern of texts')
        s = run_of(p)
        if s is None:
            s = single(p)
            if s is not None and len(s) == 1:
                return self.replace(list(s)[0], repl)
            raise Unsupported('pattern')
        self.frame(s, repl)
        if RT.branch(z3.And(z3.Implies(self.cr, '\r' in s), z3.Implies(self.lf, '\n' in s))):
            return Lines(iv(len(repl)), z3.BoolVal('\r' in repl), z3.BoolVal('\n' in repl))
        hit = self.has(s)
        return Lines(self.fresh(repl, hit), z3.Or(self.cr, z3.And(hit, '\r' in repl)), z3.Or(self.lf, z3.And(hit, '\n' in repl)))


def b_newline():
    from hachoir.core import tools as M
    n = RT.input_int('run', 1).e
    cr, lf = z3.Bool('has_CR'), z3.Bool('has_LF')
    x = Lines(n, cr, lf)
    with patched(M, **patterns(M)):
        k, r = expect(T + 'normalizeNewline', M.normalizeNewline, x)
    RT.prove(k == 'ret' and isinstance(r, Lines), 'normalizeNewline returns a text')
    RT.prove(z3.Not(r.cr), 'no carriage return')
    RT.prove(r.n == 1, 'a run of line ends becomes one line end')


UNITS = [
    Unit('printable', [T + 'makePrintable'], b_printable, calls=lib.LOG_CALLS, models={'str.join.parts': m_join, 'str.mod': m_mod, 'str.encode': lambda o, *a, **k: Text.of(o).encode(*a, **k)}, paths=3000),
    Unit('unicode', [T + 'makeUnicode'], b_unicode, calls=lib.LOG_CALLS, paths=3000),
    Unit('newlines', [T + 'normalizeNewline'], b_newline),
]
BOUNDED = []
