"""C18: signature search reports every match at its right place.

One signature is fixed beforehand: m bytes at the bit position p of the
content, whose pattern belongs to the parser class C, the file starting fo bits
before the signature. It is isolated: no other pattern matches at a place which
overlaps it. Everything else (the content, the other patterns and matches, what
the parsers accept, the sizes of the files found) is arbitrary; the search of
one slice, of the whole file and the pattern matching are proved one over the
contract of the other.

ASSUMED: the regular expression built with | matches exactly the texts of its
two sides and createString(t) exactly t (bounded: exe/c18.py over alphabets of
special characters), and re.finditer gives the leftmost matches, in order and
without overlaps.
"""
import io
import z3
from pyvc.core import RT, LoopSpec, SInt, SBool, Sym, Opaque, mkint, mkbool, zint, zbool, iv, Unsupported, PathEnd
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.lib import obj
from contracts.c16 import patched

PROP = 'C18'
SS = 'hachoir.subfile.search:SearchSubfile.'
HP = 'hachoir.subfile.pattern:HachoirPatternMatching.'
PM = 'hachoir.regex.pattern:PatternMatching.'
I, B = z3.IntSort(), z3.BoolSort()


class OptInt(SInt):
    """an integer >= 0, or None (-1)"""
    __hash__ = None

    def __bool__(self):
        return RT.branch(self.e > 0)

    def _some(self):
        RT.prove(self.e >= 0, 'None is not compared')
        return SInt(self.e)

    def __lt__(self, o):
        return self._some() < o

    def __le__(self, o):
        return self._some() <= o

    def __gt__(self, o):
        return self._some() > o

    def __ge__(self, o):
        return self._some() >= o


def val(x):
    return iv(-1) if x is None else zint(x)


def opt(s):
    s.next_offset = OptInt(val(s.next_offset))


class Cell:
    """a ghost variable"""
    _pyvc_track = True
    _pyvc_name = 'ghost'

    def __init__(self, k):
        self.k = mkint(k)

    @property
    def e(self):
        return zint(self.k)


def cell(name, k):
    c = RT.ghost[name] = Cell(k)
    RT.roots.append(c)
    return c


class Cls:
    """a parser class"""

    def __init__(self, name):
        self.__name__ = name


class Par:
    """a parser object which was accepted"""

    def __init__(self, name='p'):
        self.size = None if RT.choice([True, False], 'content size unknown') else RT.int('content_size')
        if self.size is not None:
            RT.assume(self.size.e >= 0)
        self.skip = RT.choice([True, False], 'skip the content')

    @property
    def content_size(self):
        return self.size

    def getParserTags(self):
        return {'subfile': 'skip'} if self.skip else {}


class Stats(Sym):
    """counters by parser class (not part of the property)"""

    def sym_contains(self, k):
        return RT.branch(RT.int('known').e == 1)

    def __getitem__(self, k):
        return [RT.int('hits'), RT.int('valid')]

    def __setitem__(self, k, v):
        pass


def align8(x):
    return z3.simplify((x + 7) / 8 * 8)


def sig():
    """the signature"""
    g = RT.ghost
    g['p'] = z3.simplify(8 * RT.input_int('position', 0).e)
    g['fo'] = RT.input_int('offset_in_file', 0).e
    g['maxl'] = RT.input_int('max_length', 1).e
    g['m'] = RT.input_int('magic_length', 1).e
    RT.assume(g['m'] <= g['maxl'])
    g['f'] = z3.simplify(g['p'] - g['fo'])


def dealt(no, seen):
    """the file was tried, or starts before the content or inside a file which is skipped"""
    g = RT.ghost
    return z3.Or(seen == 1, g['f'] < 0, z3.And(no > 0, g['f'] < no))


# ---------------------------------------------------------------- one slice

class Data:
    def __init__(self, a, n):
        self.a, self.n = a, n

    def decode(self, encoding):
        RT.prove(encoding.lower().replace('-', '').replace('_', '') in ('latin1', 'iso88591'), 'bytes are decoded one to one')
        return Text(self)

    def len_(self):
        return mkint(self.n)


class Text:
    def __init__(self, data):
        self.data = data


class Stream:
    def readBytes(self, a, n):
        g = RT.ghost
        a, n = zint(a), zint(n)
        RT.prove(z3.And(a >= 0, a % 8 == 0), 'the content is read from a byte')
        RT.prove(z3.And(n >= 0, a + 8 * n <= g['size']), 'only content inside the range is read')
        return Data(a, n)


class Hits(Sym):
    """what HachoirPatternMatching.search gives"""

    def __init__(self, w, k):
        self.w, self.k = w, k

    def len_(self):
        return mkint(self.k)

    def sym_item(self, i):
        g = RT.ghost
        if RT.branch(zint(i) == self.w):
            return (g['C'], mkint(g['f'] - g['a']))
        return (g['other'], RT.int('offset'))


class Patterns:
    """contract of HachoirPatternMatching.search"""

    @property
    def max_length(self):
        return mkint(RT.ghost['maxl'])

    def search(self, data, size=None):
        g = RT.ghost
        if not isinstance(data, Data):
            raise Unsupported('search in something else')
        g['a'] = data.a
        lim = data.n if size is None else zint(size)
        RT.prove(lim >= 0, 'search: size')
        w, k = RT.int('at').e, RT.int('n_hits').e
        inside = z3.And(g['p'] >= data.a, g['p'] < data.a + 8 * lim, g['p'] + 8 * g['m'] <= data.a + 8 * data.n)
        RT.assume(z3.And(k >= 0, z3.If(inside, z3.And(0 <= w, w < k), w == -1)))
        g['w'] = w
        return Hits(w, k)


def c_guess(self, offset, cls):
    """contract of guess"""
    g = RT.ghost
    RT.prove(zint(offset) >= 0, 'a file does not start before the content')
    if cls is g['C']:
        RT.prove(zint(offset) == g['f'], 'the parser is tried at the start of its file')
        g['seen'].k = mkint(g['seen'].e + 1)
    g['accepted'] = None
    if RT.choice([True, False], 'valid'):
        g['accepted'] = (zint(offset), Par())
        return g['accepted'][1]
    return None


def search_obj():
    from hachoir.subfile.search import SearchSubfile
    g = RT.ghost
    g['size'] = RT.input_int('size', 0).e
    g['start'] = z3.simplify(8 * RT.input_int('start', 0).e)
    g['slice'] = z3.simplify(8 * RT.input_int('slice_size', 1).e)
    sig()
    g['C'], g['other'] = Cls('C'), Cls('other')
    return obj(SearchSubfile, stream=Stream(), size=mkint(g['size']), start_offset=mkint(g['start']), slice_size=mkint(g['slice']),
               patterns=Patterns(), stats=Stats(), debug=False, verbose=False, output=None, filter=None)


def b_slice():
    from hachoir.subfile.search import SearchSubfile
    g = RT.ghost
    s = search_obj()
    at = RT.input_int('at', 0)
    RT.assume(z3.And(at.e % 8 == 0, at.e < g['size']))
    no0 = RT.input_int('next_offset', -1).e
    RT.assume(z3.Or(no0 == -1, no0 % 8 == 0))
    s.next_offset = OptInt(no0)
    g['no0'] = no0
    seen, reason = cell('seen', iv(0)), cell('reason', no0)
    kind, gen = expect(SS + 'findMagic', SearchSubfile.findMagic, s, at)
    RT.prove(kind == 'ret', 'findMagic: no error')
    it = iter(gen)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        RT.cover('found')
        acc = g['accepted']
        RT.prove(acc is not None and isinstance(v, tuple) and len(v) == 2 and v[1] is acc[1], 'only files which are valid are reported')
        RT.prove(zint(v[0]) == acc[0], 'a file is reported where it starts')
        g['accepted'] = None
        if acc[1].skip and acc[1].size is not None:
            reason.k = mkint(align8(acc[0] + acc[1].size.e))
    RT.cover('end of the slice')
    no = val(s.next_offset)
    RT.prove(no == reason.e, 'only the content of the last file to skip is skipped')
    RT.prove(z3.Or(no == -1, z3.And(no >= no0, no % 8 == 0)), 'the search goes on at a byte, never backwards')
    p = g['p']
    here = z3.And(p >= at.e, p < at.e + g['slice'], p + 8 * g['m'] <= g['size'])
    RT.prove(z3.Implies(here, dealt(no, seen.e)), 'a signature of the slice is examined')
    RT.prove(seen.e == z3.If(z3.And(here, seen.e == 1), 1, 0), 'only the signatures of the slice are examined, once')


def slice_inv(L):
    g = RT.ghost
    i, w = zint(L._idx), g['w']
    no, seen = val(L.self.next_offset), g['seen'].e
    past = z3.And(w >= 0, w < i)
    return [('next', z3.And(no >= g['no0'], z3.Or(no == -1, no % 8 == 0))), ('reason', no == g['reason'].e),
            ('examined', z3.Implies(past, dealt(no, seen))), ('once', z3.And(seen >= 0, seen <= 1)),
            ('not yet', z3.Implies(z3.Not(past), seen == 0)), ('reported', z3.BoolVal(g.get('accepted') is None))]


def opt_hook(L):
    opt(L.self)


# ---------------------------------------------------------------- the whole file

class Clock:
    def __add__(self, o):
        return self
    __radd__ = __sub__ = __rsub__ = __add__

    def __le__(self, o):
        return RT.branch(RT.int('late').e == 1)
    __lt__ = __ge__ = __gt__ = __le__


class Quiet:
    def update(self, offset):
        pass


class Found(Sym):
    """what findMagic yields: applied when it is exhausted"""

    def __init__(self, s, no, seen):
        self.s, self.no, self.seen = s, no, seen
        self.k = RT.int('n_found').e
        RT.assume(self.k >= 0)

    def len_(self):
        return mkint(self.k)

    def sym_item(self, i):
        # not exhausted
        self.s.next_offset = OptInt(RT.int('unknown').e)
        RT.ghost['seen'].k = RT.int('unknown')
        RT.ghost['inside'] = True
        p = RT.ghost['found'] = (RT.int('found_at'), Opaque('parser'))
        return p


def c_findMagic(self, offset):
    """contract of findMagic"""
    g = RT.ghost
    at = zint(offset)
    RT.prove(z3.And(at % 8 == 0, at >= 0, at < g['size']), 'a slice starts at a byte of the content')
    no0, seen0 = val(self.next_offset), g['seen'].e
    no, seen = RT.int('next_offset').e, RT.int('seen').e
    p = g['p']
    here = z3.And(p >= at, p < at + g['slice'], p + 8 * g['m'] <= g['size'])
    RT.assume(z3.And(no >= no0, z3.Or(no == -1, no % 8 == 0)))
    RT.assume(z3.And(seen >= seen0, seen <= seen0 + z3.If(here, 1, 0)))
    RT.assume(z3.Implies(here, z3.Or(seen == seen0 + 1, g['f'] < 0, z3.And(no > 0, g['f'] < no))))
    return Found(self, no, seen)


def found_after(L):
    it = L._it
    it.s.next_offset = OptInt(it.no)
    RT.ghost['seen'].k = mkint(it.seen)
    RT.ghost['inside'] = False


def c_process(self, offset, parser):
    g = RT.ghost
    RT.prove(g.get('found') is not None and offset is g['found'][0] and parser is g['found'][1], 'each file found is processed')
    g['found'] = None


def b_scan():
    from hachoir.subfile import search as M
    g = RT.ghost
    s = search_obj()
    seen = cell('seen', iv(0))
    s.current_offset = mkint(g['start'])
    s.datarate = Quiet()
    s.verbose = RT.choice([True, False], 'verbose')
    g['found'] = None
    with patched(M, time=Clock):
        kind, r = expect(SS + 'searchSubfiles', M.SearchSubfile.searchSubfiles, s)
    RT.prove(kind == 'ret', 'searchSubfiles: no error')
    RT.cover('end')
    p, no = g['p'], val(s.next_offset)
    RT.prove(zint(s.current_offset) >= g['size'], 'the search goes on until the end')
    RT.prove(z3.Implies(z3.And(p >= g['start'], p + 8 * g['m'] <= g['size']), dealt(no, seen.e)),
             'a signature anywhere in the range is examined, unless its file starts in a file which is skipped')
    RT.prove(seen.e <= 1, 'a signature is examined once')


def scan_inv(L):
    g = RT.ghost
    s, p = L.self, g['p']
    cur, no, seen = zint(s.current_offset), val(s.next_offset), g['seen'].e
    past = z3.And(p >= g['start'], p < cur, p + 8 * g['m'] <= g['size'])
    return [('on a byte', z3.And(cur >= g['start'], z3.Or(cur % 8 == 0, cur == g['size']), z3.Or(cur <= g['size'], cur == g['start']))),
            ('next', z3.Or(no == -1, z3.And(no >= 0, no % 8 == 0))),
            ('examined', z3.Implies(past, dealt(no, seen))),
            ('once', z3.And(seen >= 0, seen <= 1)), ('not yet', z3.Implies(z3.Not(past), seen == 0)),
            ('processed', z3.BoolVal(g['found'] is None))]


# ---------------------------------------------------------------- HachoirPatternMatching.search

ST = z3.Function('match_start', I, I)
EN = z3.Function('match_end', I, I)
NU = z3.Function('users', I, I)
UO = z3.Function('user_offset', I, I, I)
wst = z3.Int('some_match')


class ParTok:
    def __init__(self, i, j):
        self.i, self.j = i, j


class Users(Sym):
    """(offset, parser) of the parsers which have the pattern"""
    _pyvc_name = 'users'

    def __init__(self, i):
        self.i = i

    def snap_state(self):
        return 0

    def snap_children(self):
        return []

    def havoc_value(self):
        return self

    def len_(self):
        return mkint(NU(self.i))

    def sym_item(self, j):
        return (mkint(UO(self.i, zint(j))), ParTok(self.i, zint(j)))


class Item:
    def __init__(self, i):
        self.user = Users(i)


class Matches(Sym):
    def __init__(self, k):
        self.k = k

    def len_(self):
        return mkint(self.k)

    def sym_item(self, i):
        i = zint(i)
        RT.assume(z3.And(ST(i) >= 0, NU(i) >= 1))
        RT.assume(z3.Implies(z3.And(i < wst, wst < self.k), ST(i) < ST(wst)))
        return (mkint(ST(i)), mkint(EN(i)), Item(i))


def c_pmsearch(self, data):
    """contract of PatternMatching.search"""
    g = RT.ghost
    RT.prove(isinstance(data, Text) and data.data is g['data'], 'the whole content is searched')
    return Matches(g['k'])


def b_hsearch():
    from hachoir.subfile.pattern import HachoirPatternMatching as H
    g = RT.ghost
    s = obj(H)
    g['k'] = RT.input_int('matches', 0).e
    g['data'] = Data(iv(0), RT.input_int('length', 0).e)
    size = None if RT.choice([True, False], 'no size') else RT.input_int('size', 0)
    gi, gj = cell('gi', iv(0)), cell('gj', iv(0))
    kind, gen = expect(HP + 'search', H.search, s, g['data'], *([] if size is None else [size]))
    RT.prove(kind == 'ret', 'search: no error')
    for v in gen:
        RT.cover('match')
        nx = z3.And(gj.e == NU(gi.e), gj.e >= 1)
        i, j = z3.simplify(z3.If(nx, gi.e + 1, gi.e)), z3.simplify(z3.If(nx, 0, gj.e))
        ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], ParTok)
        RT.prove(ok, 'a parser and an offset')
        RT.prove(z3.And(v[0].i == i, v[0].j == j), 'every parser of every match, in order')
        RT.prove(zint(v[1]) == 8 * ST(i) - UO(i, j), 'the place of the file')
        if size is not None:
            RT.prove(ST(i) < size.e, 'only matches which start inside')
        gi.k, gj.k = mkint(i), mkint(j + 1)
    RT.cover('end')
    done = z3.If(z3.And(gj.e == NU(gi.e), gj.e >= 1), gi.e + 1, gi.e)
    RT.prove(z3.Or(gj.e == 0, gj.e == NU(gi.e)), 'every parser of the last match')
    inside = z3.BoolVal(True) if size is None else ST(wst) < size.e
    RT.prove(z3.Implies(z3.And(0 <= wst, wst < g['k'], inside), wst < done), 'every match which starts inside is reported')


def hs_inv(L):
    g = RT.ghost
    i, gi, gj = zint(L._idx), g['gi'].e, g['gj'].e
    return [('given', z3.Or(z3.And(gi == i, gj == 0), z3.And(gi == i - 1, gj == NU(i - 1), gj >= 1, gi >= 0)))]


def hu_inv(L):
    g = RT.ghost
    u, j, gi, gj = L._it, zint(L._idx), g['gi'].e, g['gj'].e
    i = u.i
    first = z3.Or(z3.And(gi == i, gj == 0), z3.And(gi == i - 1, gj == NU(i - 1), gj >= 1))
    return [('given', z3.Or(z3.And(j == 0, first), z3.And(gi == i, gj == j, j > 0)))]


# ---------------------------------------------------------------- PatternMatching.search

class Match:
    def __init__(self, i):
        self.i = i

    def start(self, n=0):
        RT.prove(n == 0, 'the whole match')
        return mkint(ST(self.i))

    def end(self, n=0):
        RT.prove(n == 0, 'the whole match')
        return mkint(EN(self.i))

    def group(self, n=0):
        RT.prove(n == 0, 'the whole match')
        return MText(self.i)


class MText:
    def __init__(self, i):
        self.i = i


class PItem:
    def __init__(self, i):
        self.i = i


class ReMatches(Sym):
    def __init__(self, k):
        self.k = k

    def len_(self):
        return mkint(self.k)

    def sym_item(self, i):
        return Match(zint(i))


class Compiled:
    def finditer(self, data):
        g = RT.ghost
        RT.prove(data is g['data'], 'the whole content is searched')
        return ReMatches(g['k'])


def c_commit(self):
    """contract of commit: no pattern has more than _max_length characters"""
    g = RT.ghost
    g['commits'] += 1
    self._max_length = mkint(g['maxl'])
    self._compiled_regex = Compiled()


def c_getPattern(self, data):
    RT.prove(isinstance(data, MText), 'the text of the match')
    return PItem(data.i)


def b_pmsearch():
    from hachoir.regex import PatternMatching
    g = RT.ghost
    g['commits'] = 0
    g['k'] = RT.input_int('matches', 0).e
    g['maxl'] = RT.input_int('max_length', 0).e
    g['data'] = object()
    s = obj(PatternMatching, _max_length=None, _compiled_regex=None, _regex=None)
    given = cell('given', iv(0))
    kind, gen = expect(PM + 'search', PatternMatching.search, s, g['data'])
    RT.prove(kind == 'ret', 'search: no error')
    for v in gen:
        RT.cover('match')
        i = given.e
        ok = isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], PItem)
        RT.prove(ok, 'start, end and pattern')
        RT.prove(z3.And(zint(v[0]) == ST(i), zint(v[1]) == EN(i), v[2].i == i), 'every match with its place and its own pattern, in order')
        given.k = mkint(i + 1)
    RT.prove(g['commits'] > 0, 'the patterns added last are searched')
    RT.prove(z3.Or(g['maxl'] == 0, given.e == g['k']), 'every match is reported')


def ps_inv(L):
    return [('given', RT.ghost['given'].e == zint(L._idx))]


# ---------------------------------------------------------------- patterns

RL = z3.Function('regex_matches_whole', I, B)


class RPat:
    def __init__(self, i):
        self.i = i

    def match(self, data):
        """contract of RegexPattern.match"""
        RT.prove(data is RT.ghost['data'], 'the text of the match')
        return object() if RT.branch(RL(self.i)) else None


class RPats(Sym):
    _pyvc_name = 'regex patterns'

    def __init__(self, n):
        self.n = n

    def snap_state(self):
        return 0

    def snap_children(self):
        return []

    def len_(self):
        return mkint(self.n)

    def sym_item(self, i):
        return RPat(zint(i))


class TDict(Sym):
    """text -> pattern"""
    _pyvc_name = 'string_dict'

    def __init__(self, d):
        self.d = d              # token -> item

    def snap_state(self):
        return tuple(sorted((k, id(v)) for k, v in self.d.items()))

    def snap_children(self):
        return []

    def _k(self, k):
        if not isinstance(k, str) or k not in ('T0', 'T1'):
            raise Unsupported('key')
        return k

    def sym_contains(self, k):
        return self._k(k) in self.d

    def get(self, k, default=None):
        return self.d.get(self._k(k), default)

    def __getitem__(self, k):
        return self.d[self._k(k)]

    def __setitem__(self, k, v):
        self.d[self._k(k)] = v

    def setdefault(self, k, v):
        return self.d.setdefault(self._k(k), v)


class TPat:
    def __init__(self, text, user=None):
        self.text, self.user = text, user


def b_getPattern():
    from hachoir.regex import PatternMatching
    g = RT.ghost
    n = g['n'] = RT.input_int('n_regex', 0).e
    known = RT.choice([True, False], 'a string pattern')
    item = TPat('T0')
    g['data'] = 'T0'
    s = obj(PatternMatching, string_dict=TDict({'T0': item, 'T1': TPat('T1')} if known else {'T1': TPat('T1')}), regex_patterns=RPats(n))
    kind, r = expect(PM + 'getPattern', PatternMatching.getPattern, s, 'T0')
    RT.cover(kind)
    w = z3.Int('some_regex')
    if known:
        RT.prove(kind == 'ret' and r is item, 'the string pattern of this text')
        return
    if kind == 'exc':
        RT.prove(type(r) is KeyError, 'getPattern: KeyError')
        RT.prove(z3.Implies(z3.And(0 <= w, w < n), z3.Not(RL(w))), 'no pattern only if none matches')
        return
    RT.prove(isinstance(r, RPat), 'a pattern')
    RT.prove(z3.And(RL(r.i), r.i >= 0, r.i < n), 'a pattern which matches the whole text')


def gp_inv(L):
    w = z3.Int('some_regex')
    return [('none before', z3.Implies(z3.And(0 <= w, w < zint(L._idx)), z3.Not(RL(w))))]


class CRegex:
    """a compiled regular expression"""

    def __init__(self, full, prefix):
        self.f, self.p = full, prefix

    def _t(self, data):
        RT.prove(data is RT.ghost['data'], 'the text')

    def fullmatch(self, data):
        self._t(data)
        return object() if self.f else None

    def match(self, data):
        self._t(data)
        return object() if self.p else None
    search = match


class Rx:
    """a regular expression: whether it matches the text t0"""

    def __init__(self, has, mx):
        self.has, self.mx = has, mx

    def maxLength(self):
        return self.mx

    def __or__(self, o):
        """ASSUMED contract of | (C17)"""
        return Rx(z3.Or(self.has, o.has), None)

    def __ior__(self, o):
        return self | o

    def havoc_value(self):
        return Rx(z3.Bool(RT.freshname('has')), None)

    def compile(self, python=False):
        RT.prove(python is True, 'compiled for Python')
        r = RT.ghost.get('compiled')
        return r if r is not None else ('compiled', self)


def b_rmatch():
    from hachoir.regex.pattern import RegexPattern
    g = RT.ghost
    full = RT.choice([True, False], 'the whole text matches')
    prefix = True if full else RT.choice([True, False], 'the beginning matches')
    g['data'], g['compiled'] = object(), CRegex(full, prefix)
    p = obj(RegexPattern, regex=Rx(z3.BoolVal(full), None), _compiled_regex=None if RT.choice([True, False], 'first') else g['compiled'], user=None)
    kind, r = expect('hachoir.regex.pattern:RegexPattern.match', RegexPattern.match, p, g['data'])
    RT.prove(kind == 'ret' and bool(r) == full, 'matches a whole text')


class TList(Sym):
    """the list of string patterns: the ones which are known, and what is appended"""
    _pyvc_name = 'string_patterns'

    def __init__(self):
        self.new = []

    def snap_state(self):
        return tuple(map(id, self.new))

    def snap_children(self):
        return []

    def append(self, x):
        self.new.append(x)


def b_addString():
    from hachoir.regex.pattern import PatternMatching, StringPattern
    g = RT.ghost
    has = {t: RT.choice([True, False], t) for t in ('T0', 'T1')}
    old = {t: TPat(t) for t in has if has[t]}
    commit = RT.choice([True, False], 'to commit')
    d, l = TDict(dict(old)), TList()
    s = obj(PatternMatching, string_dict=d, string_patterns=l, _need_commit=commit, regex_patterns=TList())
    u = object()
    kind, r = expect(PM + 'addString', PatternMatching.addString, s, 'T0', u)
    RT.prove(kind == 'ret', 'addString: no error')
    RT.prove(s.string_dict is d and s.string_patterns is l, 'same lists')
    RT.prove(d.d.get('T1') is old.get('T1'), 'the other patterns are kept')
    if 'T0' in old:
        RT.prove(d.d.get('T0') is old['T0'] and l.new == [], 'a pattern which is known is kept')
        RT.prove(commit is False or s._need_commit is True, 'committed later')
        return
    x = d.d.get('T0')
    RT.prove(isinstance(x, StringPattern) and x.text == 'T0' and x.user is u, 'the pattern is stored with its tag')
    RT.prove(len(l.new) == 1 and l.new[0] is x, 'the pattern is listed once')
    RT.prove(s._need_commit is True, 'committed later')


def b_addRegex():
    from hachoir.regex import pattern as M
    g = RT.ghost
    mx = None if RT.choice([True, False], 'unbounded') else RT.input_int('max', 0)
    rx = Rx(z3.BoolVal(True), mx)
    commit = RT.choice([True, False], 'to commit')
    l = TList()
    s = obj(M.PatternMatching, string_dict=TDict({}), string_patterns=TList(), _need_commit=commit, regex_patterns=l)
    u = object()
    with patched(M, parse=lambda t: rx if t == 'regex' else None):
        kind, r = expect(PM + 'addRegex', M.PatternMatching.addRegex, s, 'regex', u)
    RT.cover(kind)
    if mx is None:
        RT.prove(kind == 'exc' and type(r) is ValueError and l.new == [], 'a regular expression without a maximum size is refused')
        return
    RT.prove(kind == 'ret' and len(l.new) == 1, 'the pattern is listed')
    x = l.new[0]
    RT.prove(isinstance(x, M.RegexPattern) and x.regex is rx and x.user is u, 'the pattern is stored with its tag')
    RT.prove(s._need_commit is True, 'committed later')


# t0, an arbitrary text, of length len0; the string pattern number q has it (q = -1: none)
SL = z3.Function('text_length', I, I)
RM = z3.Function('regex_max_length', I, I)
EX = z3.Function('regex_before', I, B)      # one of the first i regular expressions matches t0


class SPat:
    def __init__(self, i):
        self.i = i
        self.text = SText(i)


class SText:
    def __init__(self, i):
        self.i = i

    def len_(self):
        return mkint(SL(self.i))


class SPats(RPats):
    _pyvc_name = 'string patterns'

    def sym_item(self, i):
        i = zint(i)
        RT.assume(SL(i) >= 0)
        RT.assume(z3.Implies(i == RT.ghost['q'], SL(i) == RT.ghost['len0']))
        return SPat(i)


class CPat:
    def __init__(self, i):
        self.i = i
        RT.assume(RM(i) >= 0)
        RT.assume(z3.Implies(RL(i), RM(i) >= RT.ghost['len0']))
        RT.assume(EX(z3.simplify(i + 1)) == z3.Or(EX(i), RL(i)))
        self.regex = Rx(RL(i), mkint(RM(i)))


class CPats(RPats):
    def sym_item(self, i):
        return CPat(zint(i))


def b_commit():
    from hachoir.regex import pattern as M
    g = RT.ghost
    n, nr = g['n'], g['nr'] = RT.input_int('strings', 0).e, RT.input_int('regexes', 0).e
    q, g['len0'] = RT.input_int('q', -1).e, RT.input_int('length', 0).e
    g['q'] = q
    RT.assume(q < n)
    RT.assume(z3.Not(EX(iv(0))))
    need = RT.choice([True, False], 'needed')
    s = obj(M.PatternMatching, string_patterns=SPats(n), regex_patterns=CPats(nr), _need_commit=need, _regex='old', _compiled_regex='old', _max_length='old')

    def create(text):
        """contract of createString"""
        RT.prove(isinstance(text, SText), 'the text of the pattern')
        return Rx(text.i == q, None)

    def empty():
        return Rx(g['len0'] == 0, None)
    with patched(M, createString=create, RegexEmpty=empty):
        kind, r = expect(PM + 'commit', M.PatternMatching.commit, s)
    RT.prove(kind == 'ret', 'commit: no error')
    if not need:
        RT.prove((s._regex, s._compiled_regex, s._max_length) == ('old', 'old', 'old'), 'nothing to do')
        return
    RT.cover('done')
    x = s._regex
    RT.prove(s._need_commit is False, 'committed')
    RT.prove(isinstance(x, Rx) and s._compiled_regex == ('compiled', x), 'the regular expression is compiled')
    RT.prove(z3.Or(x.has == z3.Or(q >= 0, EX(nr)), z3.And(n == 0, nr == 0)), 'the regular expression matches exactly the patterns')
    RT.prove(z3.Implies(z3.Or(q >= 0, EX(nr)), zint(s._max_length) >= g['len0']), 'no pattern is longer than the maximum')
    RT.prove(z3.Implies(z3.And(n == 0, nr == 0), zint(s._max_length) == 0), 'no pattern: nothing to search')


def rx_havoc(L):
    none = RT.choice([True, False], 'no regular expression yet')
    return {nm: (None if none else Rx(z3.Bool(RT.freshname('has')), None))
            for nm, v in L._d.items() if v is None or isinstance(v, Rx)}


def has(L):
    v = [v for nm, v in L._d.items() if v is None or isinstance(v, Rx)]
    if len(v) != 1:
        raise Unsupported('locals of commit')
    return v[0]


def cm_inv1(L):
    g = RT.ghost
    i, q, x = zint(L._idx), g['q'], has(L)
    return [('first', (i == 0) if x is None else (i > 0)),
            ('matches', z3.BoolVal(True) if x is None else x.has == z3.And(q >= 0, q < i)),
            ('length', z3.And(zint(L.length) >= 0, z3.Implies(z3.And(q >= 0, q < i), zint(L.length) >= g['len0']), z3.Implies(i == 0, zint(L.length) == 0)))]


def cm_inv2(L):
    g = RT.ghost
    i, q, n, x = zint(L._idx), g['q'], g['n'], has(L)
    return [('first', z3.And(i == 0, n == 0) if x is None else z3.Or(i > 0, n > 0)),
            ('matches', z3.BoolVal(True) if x is None else x.has == z3.Or(q >= 0, EX(i))),
            ('length', z3.And(zint(L.length) >= 0, z3.Implies(z3.Or(q >= 0, EX(i)), zint(L.length) >= g['len0']), z3.Implies(z3.And(i == 0, n == 0), zint(L.length) == 0)))]


# ---------------------------------------------------------------- patterns of the parsers

NM = {k: z3.Function('n_' + k, I, I) for k in ('magic', 'magic_regex')}
OF = {k: z3.Function('offset_of_' + k, I, I, I) for k in ('magic', 'magic_regex')}
pa, pb = z3.Int('some_parser'), z3.Int('some_magic')


class MagicText:
    def __init__(self, k, i, j, decoded=False):
        self.k, self.i, self.j, self.decoded = k, i, j, decoded

    def decode(self, encoding):
        RT.prove(encoding.lower().replace('-', '').replace('_', '') in ('latin1', 'iso88591'), 'bytes are decoded one to one')
        return MagicText(self.k, self.i, self.j, True)


class MagicList(Sym):
    def __init__(self, k, i):
        self.k, self.i = k, i

    def len_(self):
        return mkint(NM[self.k](self.i))

    def sym_item(self, j):
        j = zint(j)
        return (MagicText(self.k, self.i, j), mkint(OF[self.k](self.i, j)))


class PTags:
    def __init__(self, i):
        self.i = i

    def get(self, name, default=None):
        RT.prove(name in NM, 'tag')
        if RT.branch(NM[name](self.i) == 0):
            return default
        return MagicList(name, self.i)


class PCls:
    def __init__(self, i):
        self.i = i
        for k in NM:
            RT.assume(NM[k](i) >= 0)

    def getParserTags(self):
        return PTags(self.i)


class PList(RPats):
    _pyvc_name = 'parsers'

    def sym_item(self, i):
        return PCls(zint(i))


def added(kind, text, user):
    g = RT.ghost
    RT.prove(isinstance(text, MagicText) and text.decoded and text.k == kind, 'the signature of the parser')
    RT.prove(isinstance(user, tuple) and len(user) == 2 and isinstance(user[1], PCls), 'the tag of the pattern')
    RT.prove(z3.And(user[1].i == text.i, zint(user[0]) == OF[kind](text.i, text.j)), 'the offset of this signature and its parser')
    c = g['n_' + kind]
    if RT.branch(z3.And(text.i == pa, text.j == pb)):
        c.k = mkint(c.e + 1)


def c_addMagic(self, text, user):
    """contract of addMagic"""
    added('magic', text, user)


def c_addRegex(self, text, users):
    RT.prove(isinstance(users, list) and len(users) == 1, 'users of a regular expression')
    added('magic_regex', text, users[0])


def b_hinit():
    from hachoir.subfile import pattern as M
    g = RT.ghost
    n = g['n'] = RT.input_int('parsers', 0).e
    for k in NM:
        cell('n_' + k, iv(0))
    cats = RT.choice([None, ['a'], ['a', 'b']], 'categories')
    ids = RT.choice([None, ['x'], ['x', 'y']], 'identifiers')
    want = [('category', c) for c in cats or []] + [('id', x) for x in ids or []]
    g['asked'] = None

    def query(tags):
        g['asked'] = list(tags)
        return PList(n)
    g['commits'] = 0
    s = obj(M.HachoirPatternMatching)
    g['maxl'] = iv(0)
    with patched(M, QueryParser=query):
        kind, r = expect(HP + '__init__', M.HachoirPatternMatching.__init__, s, cats, ids)
    RT.prove(kind == 'ret', '__init__: no error')
    RT.prove(g['asked'] == want + [None] * bool(want), 'the parsers which are asked for')
    RT.cover('done')
    for k in NM:
        RT.prove(z3.Implies(z3.And(0 <= pa, pa < n, 0 <= pb, pb < NM[k](pa)), g['n_' + k].e == 1), 'every %s of every parser is added, once' % k)
        RT.prove(g['n_' + k].e <= 1, 'added once')


def hi_inv(k, done=()):
    def inv(L):
        g = RT.ghost
        i, n = zint(L._idx), g['n']
        here = z3.And(0 <= pa, 0 <= pb, pb < NM[k](pa))
        r = [('added', g['n_' + k].e == z3.If(z3.And(here, pa < i), 1, 0))]
        return r
    return inv


def hj_inv(k):
    def inv(L):
        g = RT.ghost
        m, j = L._it, zint(L._idx)
        here = z3.And(0 <= pa, 0 <= pb, pb < NM[k](pa))
        return [('added', g['n_' + k].e == z3.If(z3.And(here, z3.Or(pa < m.i, z3.And(pa == m.i, pb < j))), 1, 0))]
    return inv


def b_addMagic():
    from hachoir.subfile.pattern import HachoirPatternMatching as H
    g = RT.ghost
    known = RT.choice([True, False], 'known')
    u0, u1, u = [object()], [object()], object()
    old = list(u0)
    t0 = TPat('T0', u0)
    d = TDict({'T0': t0, 'T1': TPat('T1', u1)} if known else {'T1': TPat('T1', u1)})
    g['calls'] = []
    s = obj(H, string_dict=d)
    kind, r = expect(HP + 'addMagic', H.addMagic, s, 'T0', u)
    RT.prove(kind == 'ret', 'addMagic: no error')
    RT.prove(len(u1) == 1, 'the other patterns are kept')
    if known:
        RT.prove(g['calls'] == [] and t0.user == old + [u], 'one more parser for this signature')
    else:
        RT.prove(len(g['calls']) == 1 and g['calls'][0][0] == 'T0' and g['calls'][0][1] == [u], 'a new pattern')


def c_addString(self, magic, user=None):
    RT.ghost['calls'].append((magic, user))


# ---------------------------------------------------------------- one file, start and end of a search

def b_guess():
    from hachoir.subfile import search as M
    g = RT.ghost
    parent, sub, par = object(), object(), object()
    at = RT.input_int('at', 0)

    class Broken(Exception):
        pass
    fails = RT.choice([True, False], 'fails')
    log = []

    def substream(stream, offset, *a, **k):
        RT.prove(stream is parent and zint(offset) == at.e and not a and not k, 'the stream from this place')
        return sub

    def cls(stream, **k):
        log.append(1)
        RT.prove(stream is sub and k == {'validate': True}, 'the parser is asked to validate')
        if fails:
            raise Broken()
        return par
    s = obj(M.SearchSubfile, stream=parent)
    with patched(M, InputSubStream=substream):
        kind, r = expect(SS + 'guess', M.SearchSubfile.guess, s, at, cls)
    RT.prove(kind == 'ret' and len(log) == 1, 'guess: no error')
    RT.prove(r is (None if fails else par), 'the parser if it is valid, else None')


def b_init():
    from hachoir.subfile import search as M
    off, total = RT.input_int('offset', 0), RT.input_int('stream_size', 0)
    size = None if RT.choice([True, False], 'no size') else RT.input_int('size', 0)

    class St:
        pass
    st = St()
    st.size = total
    s = obj(M.SearchSubfile)
    with patched(M, time=Clock, DataRate=lambda o: Quiet()):
        kind, r = expect(SS + '__init__', M.SearchSubfile.__init__, s, st, off, size)
    RT.prove(kind == 'ret', '__init__: no error')
    want = total.e if size is None else z3.If(total.e <= 8 * (off.e + size.e), total.e, 8 * (off.e + size.e))
    RT.prove(zint(s.size) == want, 'the search stops at the end of the range')
    RT.prove(z3.And(zint(s.start_offset) == 8 * off.e, zint(s.current_offset) == 8 * off.e), 'the search starts at the offset')
    RT.prove(z3.And(zint(s.slice_size) > 0, zint(s.slice_size) % 8 == 0), 'slices are whole bytes')
    RT.prove(s.stream is st and s.patterns is None, 'the stream')


def b_header():
    from hachoir.subfile import search as M
    g = RT.ghost
    g['maxl'] = RT.input_int('max_length', 0).e
    loaded = RT.choice([True, False], 'parsers were chosen')
    start, size = RT.input_int('start', 0), RT.input_int('size', 0)
    RT.assume(start.e % 8 == 0)
    sl = RT.input_int('slice_size', 8)
    RT.assume(sl.e % 8 == 0)
    s = obj(M.SearchSubfile, patterns=Patterns() if loaded else None, slice_size=sl, start_offset=start, size=size, debug=False, current_offset=RT.input_int('cur', 0))
    made = []

    def make(*a):
        made.append(a)
        return Patterns()
    with patched(M, time=Clock, PatternMatching=make, humanFilesize=lambda n: 'size', stderr=io.StringIO()):
        kind, r = expect(SS + 'mainHeader', M.SearchSubfile.mainHeader, s)
    RT.prove(kind == 'ret', 'mainHeader: no error')
    RT.prove(isinstance(s.patterns, Patterns) and len(made) == (not loaded), 'parsers are loaded if none was chosen')
    RT.prove(z3.And(zint(s.slice_size) > 0, zint(s.slice_size) % 8 == 0), 'slices are whole bytes')
    RT.prove(zint(s.current_offset) == start.e, 'the search begins at the start')


CALLS = dict(lib.LOG_CALLS)
UNITS = [
    Unit('one slice', [SS + 'findMagic'], b_slice, calls=dict(CALLS, **{SS + 'guess': c_guess}),
         loops={SS + 'findMagic#0': LoopSpec(slice_inv, None, pre=opt_hook, after=opt_hook)}),
    Unit('whole file', [SS + 'searchSubfiles'], b_scan,
         calls=dict(CALLS, **{SS + 'findMagic': c_findMagic, SS + 'processParser': c_process, SS + 'displayProgress': lambda self: None}),
         loops={SS + 'searchSubfiles#0': LoopSpec(scan_inv, lambda L: RT.ghost['size'] - zint(L.self.current_offset), pre=opt_hook, after=opt_hook),
                SS + 'searchSubfiles#1': LoopSpec(lambda L: [('processed', z3.BoolVal(RT.ghost['found'] is None))], after=found_after)}),
    Unit('matches in a slice', [HP + 'search'], b_hsearch, calls=dict(CALLS, **{PM + 'search': c_pmsearch}),
         loops={HP + 'search#0': LoopSpec(hs_inv), HP + 'search#1': LoopSpec(hu_inv)}),
    Unit('matches', [PM + 'search'], b_pmsearch, calls=dict(CALLS, **{PM + 'commit': c_commit, PM + 'getPattern': c_getPattern}),
         loops={PM + 'search#0': LoopSpec(ps_inv)}),
    Unit('pattern of a match', [PM + 'getPattern'], b_getPattern, loops={PM + 'getPattern#0': LoopSpec(gp_inv)}),
    Unit('match of a regular expression', ['hachoir.regex.pattern:RegexPattern.match'], b_rmatch),
    Unit('adding a string', [PM + 'addString'], b_addString),
    Unit('adding a regular expression', [PM + 'addRegex'], b_addRegex),
    Unit('all patterns', [PM + 'commit'], b_commit,
         loops={PM + 'commit#0': LoopSpec(cm_inv1, havoc=rx_havoc), PM + 'commit#1': LoopSpec(cm_inv2, havoc=rx_havoc)}),
    Unit('signatures of the parsers', [HP + '__init__'], b_hinit,
         calls=dict(CALLS, **{HP + 'addMagic': c_addMagic, PM + 'addRegex': c_addRegex, PM + 'commit': c_commit}),
         loops={HP + '__init__#0': LoopSpec(hi_inv('magic')), HP + '__init__#1': LoopSpec(hj_inv('magic')),
                HP + '__init__#2': LoopSpec(hi_inv('magic_regex')), HP + '__init__#3': LoopSpec(hj_inv('magic_regex'))}),
    Unit('one signature', [HP + 'addMagic'], b_addMagic, calls={PM + 'addString': c_addString}),
    Unit('one file', [SS + 'guess'], b_guess, calls=CALLS),
    Unit('range of the search', [SS + '__init__'], b_init, calls=CALLS),
    Unit('start of the search', [SS + 'mainHeader', SS + 'loadParsers'], b_header, calls=CALLS),
]
BOUNDED = []

from contracts import c18b      # noqa: E402
UNITS += c18b.UNITS
