"""C17: sequence, alternative and character classes of the regex library are language-exact.

An expression means a set of words of a monoid M (words of characters and of
anchors; a relation between positions of a text is such a set). Sequence and
alternative obey the laws of an idempotent semiring, so a function which only
uses these laws is exact for arbitrary languages when it is exact for
indeterminates: an arbitrary expression is an indeterminate word (`w`: list of
words, their union is the language). Where the argument is about characters, an
arbitrary text is fixed beforehand (`m`: is it in the language?; `one`: it is
the single character `c`). Both views are of the same language.

Each class is verified over the contracts of &, |, and their helpers for its
parts. Printing (_str) is in c17b.py. Outside: simplifications of repetitions, and the union of
two complemented classes (known finding).
"""
import operator
import z3
from pyvc.core import RT, LoopSpec, SInt, SBool, Sym, mkint, mkbool, zint, zbool, iv, zmul, Unsupported, PathEnd, norm_slice
from pyvc.contract import Unit, Lemma, expect
from contracts import lib
from contracts.lib import obj
from contracts.c16 import patched

PROP = 'C17'
RX = 'hachoir.regex.regex:'
I, B = z3.IntSort(), z3.BoolSort()
SQ = z3.SeqSort(I)
EPS = z3.Empty(SQ)


def module():
    from hachoir.regex import regex
    return regex


def cat(*ws):
    ws = [w for w in ws if not w.eq(EPS)]
    return EPS if not ws else ws[0] if len(ws) == 1 else z3.Concat(*ws)


def ghost(name, mk):
    g = RT.ghost
    if name not in g:
        g[name] = mk()
    return g[name]


def c():
    """the character fixed beforehand"""
    return ghost('c', lambda: RT.input_int('character', 0).e)


def one():
    return ghost('one', lambda: z3.Bool('one_character'))


# ---------------------------------------------------------------- arbitrary sequences

class Gen:
    """An arbitrary sequence: W(i, j) the word of the elements i <= k < j, M(i, j)
    is the text fixed beforehand in the language of one of them."""

    def __init__(self, name, n, text=False):
        self.name, self.n, self.text = name, n, text
        self.W = z3.Function('W_' + name, I, I, SQ)
        self.M = z3.Function('M_' + name, I, I, B)
        self.S = z3.Function('S_' + name, I, SQ)
        self.M1 = z3.Function('M1_' + name, I, B)
        self.ch = z3.Function('ch_' + name, I, I)
        self.points, self.items = [], {}
        self.point(iv(0))
        self.point(n)

    def point(self, p):
        p = z3.simplify(p)
        if any(p.eq(q) for q in self.points):
            return p
        W, M = self.W, self.M

        def split(a, b, d):
            RT.fact(z3.Implies(z3.And(a <= b, b <= d), z3.And(W(a, d) == z3.Concat(W(a, b), W(b, d)), M(a, d) == z3.Or(M(a, b), M(b, d)))))
        old = list(self.points)
        RT.fact(z3.And(W(p, p) == EPS, z3.Not(M(p, p))))
        for a in old:
            RT.fact(z3.Implies(p == a, z3.And(W(p, p) == W(a, a))))
            for b in old:
                if not a.eq(b):
                    split(a, p, b)
                    split(p, a, b)
                    split(a, b, p)
        self.points.append(p)
        return p

    def seg(self, a, b):
        a, b = self.point(a), self.point(b)
        return self.W(a, b)

    def item(self, i):
        """the element i"""
        i = self.point(i)
        j = self.point(z3.simplify(i + 1))
        k = i.sexpr()
        if k not in self.items:
            RT.fact(z3.And(self.W(i, j) == self.S(i), self.M(i, j) == self.M1(i)))
            if self.text:
                RT.fact(z3.And(self.S(i) == z3.Unit(self.ch(i)), self.ch(i) >= 0))
                self.items[k] = Txt(self.S(i), iv(1), code=self.ch(i))
            else:
                self.items[k] = Rx([self.S(i)], self.M1(i), src=(self, i))
        return self.items[k]


class Txt(Sym):
    """a text: its word, its length, the characters it is cut from"""
    is_text = True
    _pyvc_name = 'text'

    def __init__(self, w, n, src=None, code=None):
        self.w, self.n, self.src, self.code = w, z3.simplify(n), src, code

    @classmethod
    def fresh(cls, name, lo=0):
        n = RT.input_int('len_' + name, lo).e
        g = Gen(name, n, True)
        return cls(g.seg(iv(0), n), n, (g, iv(0), n))

    def len_(self):
        return mkint(self.n)

    def __bool__(self):
        return RT.branch(self.n > 0)

    def __eq__(self, o):
        if isinstance(o, str) and o == '':
            return mkbool(self.n == 0)
        if not isinstance(o, Txt):
            raise Unsupported('comparison of a text')
        b = RT.bool('same_text').e
        RT.assume(z3.Implies(b, z3.And(self.n == o.n, self.w == o.w)))
        a, d = self.first(), o.first()
        RT.assume(z3.Implies(z3.And(self.n == 1, o.n == 1), b == (a == d)))
        return mkbool(b)

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self == o)))

    __hash__ = None

    def __add__(self, o):
        if not isinstance(o, Txt):
            raise Unsupported('text + something else')
        return Txt(cat(self.w, o.w), self.n + o.n)

    def first(self):
        if self.code is None:
            if self.src is not None:
                self.code = self.src[0].item(self.src[1]).code
                RT.fact(z3.Implies(self.n == 1, self.w == z3.Unit(self.code)))
            else:
                self.code = RT.int('char').e
                RT.fact(z3.Implies(self.n == 1, self.w == z3.Unit(self.code)))
        return self.code

    def ord_(self):
        if not RT.branch(self.n == 1):
            raise TypeError('ord() expected a character')
        return mkint(self.first())

    def __getitem__(self, k):
        if self.src is None:
            raise Unsupported('a part of a text')
        g, lo, hi = self.src
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('slice step')
            a, b = norm_slice(k, self.n)
            if not RT.branch(a <= b):
                return Txt(EPS, iv(0))
            a, b = z3.simplify(lo + a), z3.simplify(lo + b)
            return Txt(g.seg(a, b), b - a, (g, a, b))
        e = zint(k)
        if RT.branch(z3.And(0 <= e, e < self.n)):
            return g.item(lo + e)
        if RT.branch(z3.And(-self.n <= e, e < 0)):
            return g.item(hi + e)
        raise IndexError('string index out of range')

    def startswith(self, o):
        if not isinstance(o, Txt):
            raise Unsupported('startswith')
        b = RT.bool('starts_with').e
        if self.src is not None:
            g, lo, hi = self.src
            RT.assume(z3.Implies(b, o.n <= self.n))
            p = z3.simplify(lo + o.n)
            RT.assume(z3.Implies(b, g.seg(lo, p) == o.w))
        return mkbool(b)

    def mem(self):
        """is the text fixed beforehand this one?"""
        if not hasattr(self, '_m'):
            self._m = RT.bool('is_text').e
            RT.fact(z3.If(self.n == 1, self._m == z3.And(one(), c() == self.first()), z3.Implies(self._m, z3.Not(one()))))
        return self._m


class Rx(Sym):
    """an arbitrary expression: its language; an element of a sequence"""
    _pyvc_name = 'expression'

    def __init__(self, w=None, m=None, src=None, single=None):
        self.w, self.m, self.src = w, m, src
        self.sg = single

    @classmethod
    def fresh(cls, name='e', words=True):
        n = RT.freshname(name)
        r = cls([z3.Const('w_' + n, SQ)] if words else None, z3.Bool('m_' + n))
        return r

    def snap_state(self):
        return ()

    def snap_children(self):
        return []

    def __bool__(self):
        return True

    def __and__(self, o):
        return c_and(self, o)

    __add__ = __and__

    def __rand__(self, o):
        return c_and(o, self)

    __radd__ = __rand__

    def __or__(self, o):
        return c_or(self, o)

    def __ror__(self, o):
        return c_or(o, self)

    def or_(self, o):
        return RT.contracts.get(RX + 'Regex.or_', c_or_)(self, o)

    def _or_(self, o, reverse):
        return c__or_(self, o, reverse)

    def _and(self, o):
        return c__and(self, o)

    def _match(self, o):
        return c__match(self, o)

    def match(self, o):
        return c__match(self, o)

    def findPrefix(self, o):
        return c_prefix(self, o)

    def __eq__(self, o):
        return c_eq(self, o)

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(c_eq(self, o))))

    __hash__ = None

    def minLength(self):
        return self.length('min')

    def maxLength(self):
        return self.length('max')

    def length(self, k):
        """contract: a bound of the length of every text which matches; None: not limited (maximum only)"""
        g = RT.ghost
        if 'len' not in g:
            raise Unsupported('length')
        return g['len'](self, k)


class RxOther(Rx):
    """an expression of another class"""


def shape(x):
    return type(x).__name__


def parts(l):
    if isinstance(l, CList):
        return l.parts
    if type(l) in (list, tuple):
        return [('item', x) for x in l]
    raise Unsupported('a list of expressions')


def product(l):
    """words of the sequence of the elements of a list"""
    ws = [EPS]
    for p in parts(l):
        v = [p[1].seg(p[2], p[3])] if p[0] == 'seg' else words(p[1])
        ws = [cat(a, b) for a in ws for b in v]
    return ws


def union_mem(l):
    r = []
    for p in parts(l):
        if p[0] == 'seg':
            p[1].seg(p[2], p[3])
            r.append(p[1].M(z3.simplify(p[2]), z3.simplify(p[3])))
        else:
            r.append(mem(p[1]))
    return z3.Or(*r) if r else z3.BoolVal(False)


def words(x):
    """the language as a list of words"""
    n = shape(x)
    if isinstance(x, Rx):
        if x.w is None:
            raise Unsupported('words')
        return x.w
    if n == 'RegexEmpty':
        return [EPS]
    if n in ANCHORS:
        return [z3.Unit(iv(ANCHORS[n]))]
    if n == 'RegexString':
        if type(x.text) is str:
            return [cat(*[z3.Unit(iv(ord(k))) for k in x.text])]
        return [x.text.w]
    if n == 'RegexAnd':
        return product(x.content)
    if n == 'RegexOr':
        r = []
        for p in parts(x.content):
            if p[0] == 'seg':
                raise Unsupported('words')
            r += words(p[1])
        return r
    raise Unsupported('words of a ' + n)


ANCHORS = dict(RegexWord=-1, RegexStart=-2, RegexEnd=-3)


def mem(x):
    """is the text fixed beforehand in the language?"""
    n = shape(x)
    if isinstance(x, Rx):
        return x.m
    if n == 'RegexEmpty':
        return ghost('mem_empty', lambda: z3.And(z3.Bool('empty_text'), z3.Not(one())))
    if n == 'RegexDot':
        return one()
    if n == 'RegexString':
        if type(x.text) is str:
            raise Unsupported('a fixed text')
        return x.text.mem()
    if n == 'RegexRange':
        r = x.ranges
        if type(r) in (list, tuple):
            i = z3.Or(*[k.has() for k in r]) if r else z3.BoolVal(False)
        else:
            i = r.inn
        return z3.And(one(), z3.Xor(zbool(x.exclude), i))
    if n == 'RegexOr':
        return union_mem(x.content)
    return ghost('mem_%d' % id(x), lambda: RT.bool('m').e)


def haswords(x):
    try:
        return words(x)
    except Unsupported:
        return None


def isrx(x):
    return isinstance(x, (Rx, module().Regex))


def within(a, b):
    return z3.And(*[z3.Or(*[x == y for y in b]) for x in a])


def exact(r, ws, what):
    """obligation: the language of r is the union of these words"""
    RT.prove(isrx(r), what + ': an expression')
    v = words(r)
    RT.prove(within(ws, v), what + ': nothing is lost')
    RT.prove(within(v, ws), what + ': nothing is added')


# ---------------------------------------------------------------- contracts

def c_and(self, o):
    """the sequence"""
    if not isrx(o):
        raise Unsupported('sequence with something else')
    a, b = haswords(self), haswords(o)
    return Rx([cat(x, y) for x in a for y in b] if a is not None and b is not None else None, RT.bool('m').e)


def c__and(self, o):
    return None if RT.choice([True, False], 'no simpler sequence') else c_and(self, o)


def c_or(self, o):
    """the alternative"""
    if not isrx(o):
        raise Unsupported('alternative with something else')
    a, b = haswords(self), haswords(o)
    return Rx(a + b if a is not None and b is not None else None, z3.Or(mem(self), mem(o)))


def c_or_(self, o):
    return None if RT.choice([True, False], 'no simpler alternative') else c_or(self, o)


def c__or_(self, o, reverse):
    return None if RT.choice([True, False], 'no simpler alternative') else c_or(self, o)


def c__match(self, o):
    if RT.choice([True, False], 'does not match'):
        return RT.choice([None, False], 'no match')
    RT.assume(z3.Implies(mem(o), mem(self)))
    return True


def c_eq(self, o):
    if not isrx(o):
        return False
    m = ghost('eq', dict)
    k = tuple(sorted((id(self), id(o))))
    if k not in m:
        b = RT.bool('equal').e
        RT.assume(z3.Implies(b, mem(self) == mem(o)))
        a, d = haswords(self), haswords(o)
        if a is not None and d is not None:
            RT.assume(z3.Implies(b, z3.And(within(a, d), within(d, a))))
        m[k] = (b, self, o)
    return mkbool(m[k][0])


def c_prefix(self, o):
    k = RT.choice(['none', 'exact', 'characters'], 'common prefix')
    if k == 'none':
        return None
    (a,), (b,) = words(self), words(o)
    if k == 'exact':
        p, x, y = (z3.Const(RT.freshname(n), SQ) for n in ('prefix', 'rest_a', 'rest_b'))
        RT.assume(z3.And(a == z3.Concat(p, x), b == z3.Concat(p, y)))
        return (Rx([p], RT.bool('m').e), Rx([x], RT.bool('m').e), Rx([y], RT.bool('m').e))
    e = module().RegexEmpty
    return (Rx([a, b], z3.Or(mem(self), mem(o))), e(), e())


def c_single(x):
    """True only for an expression of a single word"""
    if RT.choice([True, False], 'several values'):
        return False
    ws = words(x)
    RT.assume(z3.And(*[ws[0] == v for v in ws[1:]]))
    return True


def c_join(func, l):
    """contract of _join"""
    if func is operator.__and__:
        return Rx(product(l), RT.bool('m').e)
    raise Unsupported('join')


CALLS = {RX + 'Regex.__and__': c_and, RX + 'Regex.__add__': c_and, RX + 'Regex.__or__': c_or, RX + 'Regex.or_': c_or_, RX + 'Regex.__eq__': c_eq,
         RX + 'matchSingleValue': c_single, RX + 'RegexAnd.join': lambda cls, l: c_join(operator.__and__, l), RX + '_join': c_join,
         RX + 'RegexString.findPrefix': c_prefix, RX + 'Regex.findPrefix': c_prefix}


def calls(*without, **extra):
    d = {k: v for k, v in CALLS.items() if k[len(RX):] not in without}
    d.update(extra)
    return d


# ---------------------------------------------------------------- lists of expressions

class CList(Sym):
    """a list of expressions: segments of arbitrary sequences, and expressions"""
    _pyvc_name = 'content'
    __hash__ = None

    def __init__(self, parts, frozen=False):
        self.parts, self.frozen = parts, frozen

    @classmethod
    def fresh(cls, name, lo):
        n = RT.input_int('n_' + name, lo).e
        g = Gen(name, n)
        return cls([('seg', g, iv(0), n)], True)

    def snap_state(self):
        return tuple((p[0], id(p[1])) + tuple(x.sexpr() for x in p[2:]) for p in self.parts)

    def snap_children(self):
        return []

    def havoc(self):
        n = RT.int('n').e
        RT.assume(n >= 0)
        self.parts = [('seg', Gen(RT.freshname('l'), n), iv(0), n)]

    def len_(self):
        return mkint(z3.simplify(z3.Sum(*[p[3] - p[2] if p[0] == 'seg' else iv(1) for p in self.parts]) if self.parts else iv(0)))

    def __bool__(self):
        return RT.branch(zint(self.len_()) > 0)

    def sym_isinstance(self, ts):
        return any(getattr(t, '_real', t) is list for t in ts)

    def sym_list(self):
        return CList(list(self.parts))

    sym_tuple = sym_list

    def sym_iter(self):
        return self

    def sym_contains(self, x):
        raise Unsupported('in a list of expressions')

    def at(self, e):
        """the element e >= 0 of the list"""
        off = iv(0)
        for p in self.parts:
            n = p[3] - p[2] if p[0] == 'seg' else iv(1)
            if RT.branch(z3.simplify(e < off + n)):
                return p[1].item(z3.simplify(p[2] + e - off)) if p[0] == 'seg' else p[1]
            off = z3.simplify(off + n)
        raise IndexError('list index out of range')

    def sym_item(self, i):
        return self.at(zint(i))

    def __getitem__(self, k):
        n = zint(self.len_())
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('slice step')
            a, b = norm_slice(k, n)
            if not RT.branch(a <= b):
                return CList([])
            r, off = [], iv(0)
            for p in self.parts:
                m = z3.simplify(p[3] - p[2]) if p[0] == 'seg' else iv(1)
                end = z3.simplify(off + m)
                if p[0] == 'item':
                    if RT.branch(z3.And(a <= off, end <= b)):
                        r.append(p)
                else:
                    lo, hi = (a if RT.branch(z3.simplify(a >= off)) else off), (b if RT.branch(z3.simplify(b <= end)) else end)
                    if RT.branch(z3.simplify(lo <= hi)):
                        lo, hi = z3.simplify(p[2] + lo - off), z3.simplify(p[2] + hi - off)
                        r.append(('seg', p[1], lo, hi))
                off = end
            return CList(r)
        e = zint(k)
        if not RT.branch(z3.And(-n <= e, e < n)):
            raise IndexError('list index out of range')
        return self.at(z3.simplify(e) if RT.branch(e >= 0) else z3.simplify(n + e))

    def __add__(self, o):
        return CList(self.parts + parts(o))

    def __radd__(self, o):
        return CList(parts(o) + self.parts)

    def thaw(self):
        if self.frozen:
            RT.prove(z3.BoolVal(False), 'the operands are not modified')

    def __setitem__(self, k, v):
        self.thaw()
        if not isinstance(k, (int, SInt)):
            raise Unsupported('slice assignment')
        x = self[:k]
        y = self[k + 1:] if not (isinstance(k, int) and k == -1) else CList([])
        self.parts = x.parts + [('item', v)] + y.parts

    def __iadd__(self, o):
        self.thaw()
        self.parts = self.parts + parts(o)
        return self

    extend = __iadd__

    def append(self, x):
        self.thaw()
        self.parts = self.parts + [('item', x)]

    def insert(self, i, x):
        self.thaw()
        self.parts = self[:i].parts + [('item', x)] + self[i:].parts

    def pop(self, k=-1):
        self.thaw()
        x = self[k]
        y = self[k + 1:] if not (isinstance(k, int) and k == -1) else CList([])
        self.parts = self[:k].parts + y.parts
        return x

    def __eq__(self, o):
        raise Unsupported('comparison of lists of expressions')

    def __iter__(self):
        if any(p[0] == 'seg' for p in self.parts):
            raise Unsupported('a loop over expressions without an invariant')
        return iter([p[1] for p in self.parts])


class Mapped(Sym):
    """a generator expression over a sequence, element by element"""

    def __init__(self, it, f):
        self.it, self.f = it, f

    def len_(self):
        return RT.len_(self.it)

    def value(self, i):
        r = list(self.f([RT.sym_item(self.it, i)]))
        if len(r) != 1:
            raise Unsupported('a filter')
        return r[0]

    def sym_item(self, i):
        return self.value(i)

    def sym_list(self):
        return self

    def sym_iter(self):
        return self

    def sym_isinstance(self, ts):
        return False

    def sym_contains(self, x):
        if RT.choice([True, False], 'in'):
            k = RT.int('some').e
            RT.assume(z3.And(0 <= k, k < zint(self.len_())))
            v = self.value(mkint(k))
            if x is None:
                if v is not None:
                    RT.kill()
            elif not (v == x):
                RT.kill()
            return True
        if x is not None:
            raise Unsupported('absence of a value')
        self.nonone = True
        return False

    def sym_any(self):
        """only what follows from True"""
        if RT.choice([True, False], 'any'):
            k = RT.int('some').e
            RT.assume(z3.And(0 <= k, k < zint(self.len_())))
            if not self.value(mkint(k)):
                RT.kill()
            return True
        return False

    def sym_all(self):
        if not RT.choice([True, False], 'all'):
            return False
        RT.ghost['all'] = self
        if isinstance(self.it, RList) and RT.branch(self.it.inn):
            # the item which has the character
            k = RT.int('which').e
            RT.assume(z3.And(0 <= k, k < self.it.n))
            RT.assume(self.it.sym_item(k).has())
            if not self.value(mkint(k)):
                RT.kill()
        return True


def c_map(it, f, kind):
    if not isinstance(it, Sym) and isinstance(it, module().Regex):
        it = it.__iter__()
    if isinstance(it, Sym) and (hasattr(it, 'sym_item')):
        return Mapped(it, f)
    return NotImplemented


class Comps(dict):
    def __init__(self, *names):
        for n in names:
            for i in range(3):
                self[RX + n + '@%d' % i] = c_map


def run(name, f, *a, **k):
    k_, r = expect(RX + name, f, *a, **k)
    if k_ == 'exc':
        RT.prove(z3.BoolVal(False), '%s: no error (%s)' % (name, type(r).__name__))
        RT.kill()
    return r


# ---------------------------------------------------------------- sequence

def some_rx(words=True):
    """an operand: the empty expression, or another one"""
    M = module()
    if RT.choice([True, False], 'empty'):
        return M.RegexEmpty()
    return Rx.fresh('o', words)


def b_and(name):
    def body():
        M = module()
        a, b = Rx.fresh('a'), some_rx()
        ws = [cat(x, y) for x in words(a) for y in words(b)]
        r = run('Regex.' + name, getattr(M.Regex, name), a, b)
        RT.cover('sequence')
        exact(r, ws, 'a & b')
    return body


def strings(*names):
    M = module()
    return [obj(M.RegexString, text=Txt.fresh(n, 1)) for n in names]


def rand(name='b', lo=2):
    M = module()
    return obj(M.RegexAnd, content=CList.fresh(name, lo))


def b__and():
    """_and() of each class but RegexAnd"""
    M = module()
    a = RT.choice(['RegexEmpty', 'RegexWord', 'RegexStart', 'RegexEnd', 'RegexString', 'RegexDot', 'RegexRange', 'RegexOr', 'RegexRepeat'], 'class')
    cls = getattr(M, a)
    if a == 'RegexString':
        x = strings('a')[0]
    elif a in ('RegexEmpty', 'RegexWord', 'RegexStart', 'RegexEnd'):
        x = cls()
    else:
        x = obj(cls)            # no attribute is needed: None is expected
    b = RT.choice(['RegexWord', 'RegexStart', 'RegexEnd', 'RegexString', 'RegexAnd', 'other'], 'class of the operand')
    y = Rx.fresh('b') if b == 'other' else strings('b')[0] if b == 'RegexString' else rand() if b == 'RegexAnd' else getattr(M, b)()
    k, r = expect(RX + a + '._and', x._and, y)
    RT.prove(k == 'ret', '_and: no error')
    if r is None:
        return
    RT.cover('optimized')
    if a == b and a in ANCHORS:
        # twice the same anchor is this anchor
        RT.prove(shape(r) == a, '_and: the same anchor once')
        return
    exact(r, [cat(u, v) for u in words(x) for v in words(y)], '_and')


def and_inv(L):
    t = L.total
    g = RT.ghost
    return [('a sequence', z3.BoolVal(isrx(t))), ('the operand and the items added', within([cat(g['wa'], g['gb'].seg(iv(0), zint(L._idx)))], words(t))),
            ('nothing else', within(words(t), [cat(g['wa'], g['gb'].seg(iv(0), zint(L._idx)))]))]


def b_and_and():
    M = module()
    g = RT.ghost
    a = rand('a')
    (g['wa'],) = words(a)
    if RT.choice([True, False], 'two sequences'):
        b = rand('b')
        g['gb'] = b.content.parts[0][1]
    else:
        b = RT.choice([lambda: Rx.fresh('b'), lambda: strings('b')[0], lambda: M.RegexStart(), lambda: M.RegexEnd(), lambda: M.RegexWord()], 'operand')()
    (wb,) = words(b)
    r = run('RegexAnd._and', M.RegexAnd._and, a, b)
    if r is not None:
        RT.cover('optimized')
        exact(r, [cat(g['wa'], wb)], 'RegexAnd._and')


# ---------------------------------------------------------------- alternative

def member(r, ok, what):
    RT.prove(isrx(r), what + ': an expression')
    RT.prove(z3.Implies(ok, mem(r)), what + ': nothing is lost')
    RT.prove(z3.Implies(mem(r), ok), what + ': nothing is added')


def two(words=False):
    a = Rx.fresh('a', words)
    b = Rx.fresh('b', words)
    if RT.choice([True, False], 'other class'):
        b = RxOther(b.w, b.m)
    return a, b


def b_or_():
    M = module()
    a, b = two()
    r = run('Regex.or_', M.Regex.or_, a, b)
    if r is not None:
        RT.cover('optimized')
        member(r, z3.Or(mem(a), mem(b)), 'or_')


def b_or():
    M = module()
    a, b = two()
    RT.ghost['or'] = (a, b)
    r = run('Regex.__or__', M.Regex.__or__, a, b)
    RT.cover('alternative')
    member(r, z3.Or(mem(a), mem(b)), 'a | b')


def c_or_eq(self, o):
    """or_() looks at equality: None means that they differ"""
    if RT.choice([True, False], 'no simpler alternative'):
        RT.assume(z3.Not(zbool(c_eq(self, o))))
        return None
    return c_or(self, o)


def b_match():
    M = module()
    a, b = two()
    r = run('Regex.match', M.Regex.match, a, b)
    if r:
        RT.cover('matches')
        RT.prove(z3.Implies(mem(b), mem(a)), 'match: the language of the other is included')


def b_eq():
    M = module()
    a, b = two()
    k, r = expect(RX + 'Regex.__eq__', M.Regex.__eq__, a, b)
    RT.prove(k == 'ret', '__eq__: no error')
    if r:
        RT.cover('equal')
        RT.prove(mem(a) == mem(b), 'equal expressions have the same language')


def c__eq(self, o):
    b = RT.bool('equal').e
    RT.assume(z3.Implies(b, mem(self) == mem(o)))
    return mkbool(b)


Rx._eq = c__eq


def b_string_or():
    M = module()
    a, b = strings('a', 'b')
    if RT.choice([True, False], 'a string'):
        ws = words(a) + words(b)
    else:
        b = Rx.fresh('o')
        ws = words(a) + words(b)
    r = run('RegexString._or_', M.RegexString._or_, a, b, RT.choice([True, False], 'reverse'))
    if r is not None:
        RT.cover('optimized')
        exact(r, ws, 'RegexString._or_')


def c_createRange(*text, **kw):
    if kw.get('exclude'):
        raise Unsupported('complemented class')
    for t in text:
        RT.prove(isinstance(t, Txt) and zint(t.len_()) == 1, 'createRange: characters')
    return Rx([z3.Unit(t.first()) for t in text], RT.bool('m').e)


def prefix_inv(L):
    """the beginnings of this length are equal"""
    i = zint(L._idx)
    a, b = L.texta, L.textb
    co = L.common
    z = z3.BoolVal(True)
    if co is None:
        return [('nothing yet', i == 0)]
    e = zint(co)
    return [('as long as the loop went', e == i), ('at least a character', e >= 1), ('inside of both texts', z3.And(e <= a.n, e <= b.n)),
            ('the same beginning', a.src[0].seg(iv(0), e) == b.src[0].seg(iv(0), e))]


def prefix_havoc(L):
    if RT.choice([True, False], 'first'):
        return dict(common=None)
    k = RT.int('common')
    RT.assume(k.e >= 1)
    return dict(common=k)


def b_prefix():
    M = module()
    a, b = strings('a', 'b')
    if RT.choice([True, False], 'another class'):
        b = Rx.fresh('o')
    r = run('RegexString.findPrefix', M.RegexString.findPrefix, a, b)
    if r is None:
        return
    RT.cover('prefix')
    RT.prove(isinstance(r, tuple) and len(r) == 3 and all(isrx(x) for x in r), 'findPrefix: three expressions')
    p, x, y = (words(e) for e in r)
    (wa,), (wb,) = words(a), words(b)
    RT.prove(len(x) == 1 and len(y) == 1, 'findPrefix: two ends')
    if len(p) == 1:
        RT.prove(z3.And(wa == cat(p[0], x[0]), wb == cat(p[0], y[0])), 'findPrefix: the prefix and the ends make the texts')
    else:
        RT.prove(z3.And(x[0] == EPS, y[0] == EPS), 'findPrefix: nothing after the class')
        RT.prove(z3.And(within(p, [wa, wb]), within([wa, wb], p)), 'findPrefix: the class of the two characters')


def b_prefix_default():
    M = module()
    k, r = expect(RX + 'Regex.findPrefix', M.Regex.findPrefix, Rx.fresh('a'), Rx.fresh('b'))
    RT.prove(k == 'ret' and r is None, 'findPrefix: none by default')
    k, r = expect(RX + 'Regex._match', M.Regex._match, Rx.fresh('a'), Rx.fresh('b'))
    RT.prove(k == 'ret' and not r, '_match: no by default')
    k, r = expect(RX + 'Regex._or_', M.Regex._or_, Rx.fresh('a'), Rx.fresh('b'), True)
    RT.prove(k == 'ret' and r is None, '_or_: nothing by default')


def andor_inv(L):
    g = RT.ghost
    a, b = L.contenta, L.contentb
    i = zint(L.index)

    return [('inside', z3.And(0 <= i, i <= zint(RT.len_(a)), i <= zint(RT.len_(b)))),
            ('the same beginning', prefix_word(a, i) == prefix_word(b, i))]


def prefix_word(l, i):
    if isinstance(l, CList):
        (p,) = l.parts
        return p[1].seg(p[2], z3.simplify(p[2] + i))
    (w,) = words(l[0])
    return z3.If(i == 0, EPS, w)


def b_and_or():
    M = module()
    a = rand('a')
    b = RT.choice([lambda: rand('b'), lambda: strings('b')[0], lambda: Rx.fresh('o')], 'operand')()
    ws = words(a) + words(b)
    r = run('RegexAnd._or_', M.RegexAnd._or_, a, b, RT.choice([True, False], 'reverse'))
    if r is not None:
        RT.cover('optimized')
        exact(r, ws, 'RegexAnd._or_')


# ---------------------------------------------------------------- joins

def join_inv(L):
    g = RT.ghost
    i = z3.simplify(zint(L._idx) + 1)
    r = L.regex
    if g['func'] is operator.__and__:
        w = [g['gl'].seg(iv(0), i)]
        return [('an expression', z3.BoolVal(isrx(r))), ('the items joined', within(w, words(r))), ('nothing else', within(words(r), w))]
    g['gl'].seg(iv(0), i)
    return [('an expression', z3.BoolVal(isrx(r))), ('the items joined', mem(r) == g['gl'].M(iv(0), i))]


def rx_havoc(name):
    return lambda L: {name: Rx.fresh('h')}


def b_join(which):
    def body():
        M = module()
        g = RT.ghost
        g['func'] = f = getattr(operator, which)
        l = CList.fresh('l', 0 if which == '__and__' else 1)
        g['gl'] = gl = l.parts[0][1]
        n = l.parts[0][3]
        k, r = expect(RX + '_join', M._join, f, l)
        RT.prove(k == 'ret', '_join: no error')
        RT.cover('joined')
        if which == '__and__':
            exact(r, [gl.seg(iv(0), n)], 'join')
        else:
            member(r, gl.M(iv(0), n), 'join')
    return body


def b_joins():
    M = module()
    seen = []

    def c_j(func, l):
        seen.append((func, l))
        return Rx.fresh('j')
    l = CList.fresh('l', 0)
    RT.contracts[RX + '_join'] = c_j
    RT.contracts.pop(RX + 'RegexAnd.join', None)
    M.RegexAnd.join(l)
    RT.prove(len(seen) == 1 and seen[0][0] is operator.__and__ and seen[0][1] is l, 'RegexAnd.join is the sequence of the list')
    M.RegexOr.join(l)
    RT.prove(len(seen) == 2 and seen[1][0] is operator.__or__ and seen[1][1] is l, 'RegexOr.join is the alternative of the list')


# ---------------------------------------------------------------- lists of alternatives

def ror(name='a'):
    M = module()
    return obj(M.RegexOr, content=CList.fresh(name, 2))


def oror_inv1(L):
    g = RT.ghost
    g['gb'].seg(iv(0), zint(L._idx))
    return [('an expression', z3.BoolVal(isrx(L.total))), ('the operand and the items added', mem(L.total) == z3.Or(g['ma'], g['gb'].M(iv(0), z3.simplify(zint(L._idx)))))]


def oror_inv2(L):
    return []


def b_or_or():
    M = module()
    g = RT.ghost
    a = ror('a')
    g['ma'] = mem(a)
    if RT.choice([True, False], 'two alternatives'):
        b = ror('b')
        g['gb'] = b.content.parts[0][1]
    else:
        b = Rx.fresh('b')
    ok = z3.Or(mem(a), mem(b))
    r = run('RegexOr._or_', M.RegexOr._or_, a, b, RT.choice([True, False], 'reverse'))
    if r is not None:
        RT.cover('optimized')
        member(r, ok, 'RegexOr._or_')


class Enum(Sym):
    def __init__(self, l, start=0):
        self.l, self.start = l, start

    def len_(self):
        return RT.len_(self.l)

    def sym_item(self, i):
        return (mkint(z3.simplify(zint(i) + zint(self.start))), RT.sym_item(self.l, i))


def cont_inv(L):
    return []


def b_contains():
    M = module()
    a = ror('a')
    x = Rx.fresh('x')
    k, r = expect(RX + 'RegexOr.__contains__', M.RegexOr.__contains__, a, x)
    RT.prove(k == 'ret', '__contains__: no error')
    if r:
        RT.cover('contained')
        RT.prove(z3.Implies(mem(x), mem(a)), 'an alternative which is contained matches nothing else')


def c_contains(self, x):
    if RT.choice([True, False], 'not contained'):
        return False
    RT.assume(z3.Implies(mem(x), union_mem(self.content)))
    return True


def init_inv(L):
    g = RT.ghost
    i = z3.simplify(zint(L._idx))
    g['gl'].seg(iv(0), i)
    return [('the items added', union_mem(L.self.content) == g['gl'].M(iv(0), i))]


def b_or_init():
    M = module()
    g = RT.ghost
    l = CList.fresh('l', 0)
    gl = g['gl'] = l.parts[0][1]
    o = obj(M.RegexOr)
    opt = RT.choice([True, False], 'optimize')
    k, r = expect(RX + 'RegexOr.__init__', M.RegexOr.__init__, o, l, opt)
    if k == 'exc':
        RT.prove(isinstance(r, AssertionError), 'RegexOr: less than two alternatives are refused')
        return
    RT.cover('made')
    gl.seg(iv(0), l.parts[0][3])
    RT.prove(union_mem(o.content) == gl.M(iv(0), z3.simplify(l.parts[0][3])), 'RegexOr: the union of the alternatives')


def b_and_init():
    M = module()
    l = CList.fresh('l', 2)
    o = obj(M.RegexAnd)
    run('RegexAnd.__init__', M.RegexAnd.__init__, o, l)
    exact(o, product(l), 'RegexAnd')
    RT.prove(o.content is not l, 'RegexAnd: its own list of items')


# ---------------------------------------------------------------- character classes

class It(Sym):
    """contract of RegexRangeItem"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    @property
    def cmin(self):
        return mkint(self.lo)

    @property
    def cmax(self):
        return mkint(self.hi)

    def len_(self):
        return mkint(z3.simplify(self.hi - self.lo + 1))

    def __bool__(self):
        return RT.branch(self.hi - self.lo + 1 > 0)

    def has(self, x=None):
        x = c() if x is None else x
        return z3.And(self.lo <= x, x <= self.hi)

    def sym_contains(self, o):
        if not isinstance(o, It):
            raise Unsupported('item in something else')
        return mkbool(z3.And(self.lo <= o.lo, o.hi <= self.hi))

    def sym_isinstance(self, ts):
        return True


def mk_item(cmin, cmax=None):
    a = zint(cmin)
    b = a if cmax is None else zint(cmax)
    RT.prove(a <= b, 'a range is not empty')
    return It(a, b)


def mk_char(ch):
    if not isinstance(ch, Txt):
        raise Unsupported('a character')
    RT.prove(ch.n == 1, 'a character')
    return It(ch.first(), ch.first())


class RList(Sym):
    """a list of ranges, seen from the character fixed beforehand: is it in one of them?"""
    _pyvc_name = 'ranges'
    __hash__ = None

    def __init__(self, name=None, empty=False, frozen=False):
        self.frozen = frozen
        if empty:
            self.inn, self.n = z3.BoolVal(False), iv(0)
            self.fns(RT.freshname('e'))
        else:
            n = RT.freshname(name or 'r')
            self.inn, self.n = z3.Bool('in_' + n), z3.Int('n_' + n)
            RT.assume(self.n >= 0)
            self.fns(n)

    def fns(self, n):
        self.lo, self.hi = z3.Function('lo_' + n, I, I), z3.Function('hi_' + n, I, I)
        self.P = z3.Function('in_first_' + n, I, B)
        RT.fact(z3.And(z3.Not(self.P(iv(0))), self.P(self.n) == self.inn))

    def snap_state(self):
        return (self.inn.sexpr(), self.n.sexpr())

    def snap_children(self):
        return []

    def havoc(self):
        n = RT.freshname('r')
        self.inn, self.n = z3.Bool('in_' + n), z3.Int('n_' + n)
        RT.assume(self.n >= 0)
        self.fns(n)

    def len_(self):
        return mkint(self.n)

    def sym_item(self, i):
        i = z3.simplify(zint(i))
        x = It(self.lo(i), self.hi(i))
        RT.assume(z3.Implies(z3.And(0 <= i, i < self.n), z3.And(0 <= x.lo, x.lo <= x.hi, z3.Implies(x.has(), self.inn), self.P(z3.simplify(i + 1)) == z3.Or(self.P(i), x.has()))))
        return x

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported('slice of ranges')
        e = zint(k)
        if not RT.branch(z3.And(-self.n <= e, e < self.n)):
            raise IndexError('list index out of range')
        return self.sym_item(e if RT.branch(e >= 0) else self.n + e)

    def sym_list(self):
        r = RList(empty=True)
        r.inn, r.n, r.lo, r.hi, r.P = self.inn, self.n, self.lo, self.hi, self.P
        return r

    sym_tuple = sym_list
    copy = sym_list

    def sym_iter(self):
        return self

    def sym_isinstance(self, ts):
        return any(getattr(t, '_real', t) in (list, tuple) for t in ts)

    def thaw(self):
        if self.frozen:
            RT.prove(z3.BoolVal(False), 'the operands are not modified')

    def change(self, inn, n):
        self.inn, self.n = inn, z3.simplify(n)
        self.fns(RT.freshname('r'))

    def __delitem__(self, k):
        self.thaw()
        x = self[k]
        rest = RT.bool('rest').e
        RT.assume(self.inn == z3.Or(rest, x.has()))
        self.change(rest, self.n - 1)

    def pop(self, k=-1):
        x = self[k]
        del self[k]
        return x

    def __setitem__(self, k, v):
        if not isinstance(v, It):
            raise Unsupported('not a range')
        n = self.n
        del self[k]
        self.change(z3.Or(self.inn, v.has()), n)

    def append(self, x):
        self.thaw()
        if not isinstance(x, It):
            raise Unsupported('not a range')
        self.change(z3.Or(self.inn, x.has()), self.n + 1)

    def insert(self, k, x):
        self.append(x)

    def sort(self, key=None, reverse=False):
        self.thaw()
        self.change(self.inn, self.n)

    def __eq__(self, o):
        if not isinstance(o, RList):
            raise Unsupported('comparison of ranges')
        b = RT.bool('same_ranges').e
        RT.assume(z3.Implies(b, self.inn == o.inn))
        return mkbool(b)

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self == o)))

    def __iter__(self):
        raise Unsupported('a loop over ranges without an invariant')


def c_rangeAdd(ranges, item):
    """contract: the characters of the item are added"""
    if not isinstance(ranges, RList) or not isinstance(item, It):
        raise Unsupported('rangeAdd')
    ranges.thaw()
    n = RT.int('n').e
    RT.assume(z3.And(1 <= n, n <= ranges.n + 1))
    ranges.change(z3.Or(ranges.inn, item.has()), n)


def names(M):
    return dict(RegexRangeItem=mk_item, RegexRangeCharacter=mk_char)


def add_inv(L):
    return [('nothing merged yet', z3.BoolVal(all(v is None for k, v in L._d.items() if k == 'new')))]


def b_rangeAdd():
    M = module()
    r = RList('ranges')
    x = It(RT.input_int('lo', 0).e, RT.input_int('hi', 0).e)
    RT.assume(x.lo <= x.hi)
    in0 = r.inn
    with patched(M, **names(M)):
        run('RegexRange.rangeAdd', M.RegexRange.rangeAdd, r, x)
    RT.cover('added')
    RT.prove(z3.Implies(z3.Or(in0, x.has()), r.inn), 'rangeAdd: no character is lost')
    RT.prove(z3.Implies(r.inn, z3.Or(in0, x.has())), 'rangeAdd: no character is added')


def rinit_inv(L):
    return [('the ranges added', L.self.ranges.inn == L._it.P(z3.simplify(zint(L._idx))))]


def b_range_init():
    M = module()
    l = RList('given', frozen=True)
    o = obj(M.RegexRange)
    ex = mkbool(z3.Bool('exclude'))
    opt = RT.choice([True, False], 'optimize')
    run('RegexRange.__init__', M.RegexRange.__init__, o, l, ex, opt)
    RT.cover('made')
    RT.prove(mem(o) == z3.And(one(), z3.Xor(z3.Bool('exclude'), l.inn)), 'RegexRange: the characters of the ranges, or all the others')


def rng(name, ex):
    M = module()
    return obj(M.RegexRange, ranges=RList(name, frozen=True), exclude=ex)


def class_operands():
    """not two complemented classes: known finding"""
    ea = RT.choice([False, True], 'complemented')
    a = rng('a', ea)
    k = RT.choice(['string', 'class', 'other class'] if not ea else ['string', 'class', 'other class'], 'operand')
    if k == 'string':
        b = strings('b')[0]
    elif k == 'other class':
        b = Rx.fresh('o', False)
    else:
        b = rng('b', False if ea else RT.choice([False, True], 'operand complemented'))
    return a, b


def rmatch_inv(L):
    g = RT.ghost
    return [('the ranges so far are included', z3.Implies(L._it.P(z3.simplify(zint(L._idx))), L.self.ranges.inn))]


def b_range_match():
    M = module()
    a, b = class_operands()
    with patched(M, **names(M)):
        r = run('RegexRange._match', M.RegexRange._match, a, b)
    if r:
        RT.cover('matches')
        RT.prove(z3.Implies(mem(b), mem(a)), '_match: the characters of the other are included')


def ror_inv(L):
    g = RT.ghost
    return [('both', L.ranges.inn == z3.Or(L.self.ranges.inn, L._it.P(z3.simplify(zint(L._idx)))))]


def b_range_or():
    M = module()
    a, b = class_operands()
    ok = z3.Or(mem(a), mem(b))
    with patched(M, **names(M)):
        r = run('RegexRange._or_', M.RegexRange._or_, a, b, RT.choice([True, False], 'reverse'))
    if r is not None:
        RT.cover('optimized')
        member(r, ok, 'RegexRange._or_')


def b_dot_match():
    M = module()
    a = M.RegexDot()
    b = RT.choice([lambda: strings('b')[0], lambda: rng('b', mkbool(z3.Bool('exclude'))), lambda: Rx.fresh('o', False), lambda: M.RegexDot(), lambda: M.RegexEmpty()], 'operand')()
    r = run('RegexDot._match', M.RegexDot._match, a, b)
    if r:
        RT.cover('matches')
        RT.prove(z3.Implies(mem(b), mem(a)), 'RegexDot: any character')


def b_item():
    M = module()
    o = obj(M.RegexRangeItem)
    lo, hi = RT.input_int('lo', 0), RT.input_int('hi', 0)
    given = RT.choice([True, False], 'maximum')
    k, r = expect(RX + 'RegexRangeItem.__init__', M.RegexRangeItem.__init__, o, lo, hi if given else None)
    if not given:
        hi = lo
    if k == 'exc':
        RT.prove(isinstance(r, TypeError), 'an empty range is refused')
        RT.prove(hi.e < lo.e, 'only an empty range is refused')
        return
    RT.cover('made')
    RT.prove(z3.And(zint(o.cmin) == lo.e, zint(o.cmax) == hi.e, lo.e <= hi.e), 'the bounds of the range')
    RT.prove(zint(M.RegexRangeItem.__len__(o)) == hi.e - lo.e + 1, 'the number of characters')
    v = obj(M.RegexRangeItem, cmin=RT.input_int('vlo', 0), cmax=RT.input_int('vhi', 0))
    RT.assume(v.cmin.e <= v.cmax.e)
    r = M.RegexRangeItem.__contains__(o, v)
    RT.prove(zbool(r) == z3.And(lo.e <= v.cmin.e, v.cmax.e <= hi.e), 'inclusion of ranges')


def b_char():
    M = module()
    o = obj(M.RegexRangeCharacter)
    t = Txt.fresh('t', 1)
    RT.assume(t.n == 1)
    run('RegexRangeCharacter.__init__', M.RegexRangeCharacter.__init__, o, t)
    RT.prove(z3.And(zint(o.cmin) == t.first(), zint(o.cmax) == t.first()), 'the range of one character')


class TextSeq(Sym):
    """an arbitrary number of characters"""

    def __init__(self, g):
        self.g = g

    def len_(self):
        return mkint(self.g.n)

    def sym_item(self, i):
        return self.g.item(zint(i))


def b_createRange():
    M = module()
    t = Txt.fresh('t', 0)
    mark = TextSeq(t.src[0])
    got = []

    def c_gen(it, f, kind):
        if isinstance(it, tuple) and len(it) == 1 and it[0] is mark:
            i = RT.input_int('i', 0)
            RT.assume(i.e < mark.g.n)
            r = list(f([mark.sym_item(i)]))
            RT.prove(len(r) == 1 and isinstance(r[0], It), 'createRange: a range for each character')
            RT.prove(z3.And(r[0].lo == mark.g.ch(i.e), r[0].hi == mark.g.ch(i.e)), 'createRange: this character')
            got.append(RList('chars'))
            return got[-1]
        return NotImplemented

    def c_init(self, ranges, exclude=False, optimize=True):
        RT.prove(len(got) == 1 and ranges is got[0], 'createRange: the ranges of the characters')
        self.ranges, self.exclude = ranges, exclude
    RT.contracts[RX + 'RegexRange.__init__'] = c_init
    for i in range(3):
        RT.comps[RX + 'createRange@%d' % i] = c_gen
    ex = RT.choice([None, False, True], 'exclude')
    with patched(M, **names(M)):
        r = run('createRange', M.createRange, mark, **({} if ex is None else dict(exclude=ex)))
    RT.cover('made')
    RT.prove(shape(r) == 'RegexRange' and r.exclude == bool(ex), 'createRange: a class')


def b_createString():
    M = module()
    t = Txt.fresh('t', 0)
    r = run('createString', M.createString, t)
    RT.cover('made')
    exact(r, [t.w], 'createString')


# ---------------------------------------------------------------- equality

def b_eqs():
    M = module()
    k = RT.choice(['string', 'class', 'dot', 'empty'], 'class')
    if k == 'string':
        a, b = strings('a', 'b')
        r = run('RegexString._eq', M.RegexString._eq, a, b)
        if r:
            RT.cover('equal strings')
            RT.prove(a.text.w == b.text.w, 'equal strings have the same text')
    elif k == 'class':
        ea, eb = mkbool(z3.Bool('ea')), mkbool(z3.Bool('eb'))
        a, b = rng('a', ea), rng('b', eb)
        r = run('RegexRange._eq', M.RegexRange._eq, a, b)
        if r:
            RT.cover('equal classes')
            RT.prove(mem(a) == mem(b), 'equal classes have the same characters')


class Zip(Sym):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def len_(self):
        a, b = zint(RT.len_(self.a)), zint(RT.len_(self.b))
        return mkint(z3.If(a < b, a, b))

    def sym_item(self, i):
        return (self.a.sym_item(i), self.b.sym_item(i))

    def sym_iter(self):
        return self


WA, WB = z3.Function('W_a', I, I, SQ), z3.Function('W_b', I, I, SQ)
MA, MB = z3.Function('M_a', I, I, B), z3.Function('M_b', I, I, B)
SA, SB = z3.Function('S_a', I, SQ), z3.Function('S_b', I, SQ)
M1A, M1B = z3.Function('M1_a', I, B), z3.Function('M1_b', I, B)


def l_uses(k, step=False):
    z = iv(0)
    if not step:
        return [WA(z, z) == EPS, WB(z, z) == EPS, MA(z, z) == z3.BoolVal(False), MB(z, z) == z3.BoolVal(False)]
    # the element k of both sequences is equal (hypothesis of the lemma)
    return [z3.Implies(k >= 0, z3.And(WA(z, k + 1) == z3.Concat(WA(z, k), SA(k)), WB(z, k + 1) == z3.Concat(WB(z, k), SB(k)),
                                      MA(z, k + 1) == z3.Or(MA(z, k), M1A(k)), MB(z, k + 1) == z3.Or(MB(z, k), M1B(k)))), SA(k) == SB(k), M1A(k) == M1B(k)]


L_SEQ = Lemma('sequences of equal elements are equal', 1, lambda k: z3.And(WA(iv(0), k) == WB(iv(0), k), MA(iv(0), k) == MB(iv(0), k)), induct=0, uses=l_uses)


def b_seq_eq(cls):
    def body():
        M = module()
        a, b = (rand if cls == 'RegexAnd' else ror)('a'), (rand if cls == 'RegexAnd' else ror)('b')
        old = getattr(M, 'zip', None)
        M.zip = Zip
        try:
            r = run(cls + '._eq', getattr(M, cls)._eq, a, b)
        finally:
            if old is None:
                del M.zip
            else:
                M.zip = old
        if not r:
            return
        RT.cover('equal')
        al = RT.ghost.get('all')
        if al is None:
            raise Unsupported('_eq')
        na, nb = zint(a.content.len_()), zint(b.content.len_())
        RT.prove(na == nb, '_eq: as many elements')
        RT.prove(zint(al.len_()) == na, '_eq: every element is compared')
        # at an arbitrary position, the elements are equal
        i = RT.input_int('position', 0)
        RT.assume(i.e < na)
        if not al.value(i):
            RT.kill()
        RT.prove(z3.And(SA(i.e) == SB(i.e), M1A(i.e) == M1B(i.e)), '_eq: equal elements at every position')
        L_SEQ.use(na)
        if cls == 'RegexAnd':
            RT.prove(words(a)[0] == words(b)[0], '_eq: equal sequences')
        else:
            RT.prove(mem(a) == mem(b), '_eq: equal alternatives')
    return body


# ---------------------------------------------------------------- single values

def b_single():
    M = module()
    k = RT.choice(['empty', 'string', 'start', 'end', 'word', 'dot', 'class', 'or', 'repeat', 'and'], 'class')
    if k == 'and':
        x = rand('a')
    elif k == 'class':
        x = rng('a', mkbool(z3.Bool('exclude')))
    elif k == 'string':
        x = strings('a')[0]
    elif k in ('or', 'repeat'):
        x = ror('a') if k == 'or' else obj(M.RegexRepeat, regex=Rx.fresh('r'), min=RT.int('min'), max=RT.int('max'))
    else:
        x = dict(empty=M.RegexEmpty, start=M.RegexStart, end=M.RegexEnd, word=M.RegexWord, dot=M.RegexDot)[k]()
    r = run('matchSingleValue', M.matchSingleValue, x)
    if not r:
        return
    RT.cover('single')
    RT.prove(k in ('empty', 'string', 'start', 'end', 'word', 'class', 'and'), 'a single value')
    if k == 'class':
        z = x.ranges.sym_item(iv(0))
        RT.prove(z3.And(z3.Not(z3.Bool('exclude')), x.ranges.n == 1, z.lo == z.hi), 'a class of one character')
    if k == 'and':
        al = RT.ghost.get('all')
        if al is None:
            raise Unsupported('matchSingleValue')
        n = zint(x.content.len_())
        RT.prove(zint(al.len_()) == n, 'every element of the sequence')
        i = RT.input_int('position', 0)
        RT.assume(i.e < n)
        if not al.value(i):
            RT.kill()
        RT.prove(z3.Function('single', I, B)(i.e), 'each element of the sequence is a single value')


def c_single_item(x):
    if isinstance(x, Rx) and x.src is not None:
        return mkbool(z3.Function('single', I, B)(x.src[1]))
    raise Unsupported('matchSingleValue')


# ---------------------------------------------------------------- lengths

MN, MX, LN, LP = (z3.Function(n, I, I) for n in ('min_of', 'max_of', 'len_of', 'len_first'))
UNL = z3.Function('unlimited', I, B)


def item_len(x, k):
    i = x.src[1]
    RT.assume(z3.And(0 <= MN(i), MN(i) <= LN(i), z3.Implies(z3.Not(UNL(i)), LN(i) <= MX(i)), LP(z3.simplify(i + 1)) == LP(i) + LN(i)))
    if k == 'min':
        return mkint(MN(i))
    if RT.branch(UNL(i)):
        return None
    return mkint(MX(i))


def m_sumlen(it, start):
    """the sum of the lengths of the items of a sequence, item by item"""
    if not isinstance(it, Mapped):
        raise Unsupported('sum')
    n, k = zint(it.len_()), RT.int('any').e
    kind = RT.ghost['kind']
    if RT.branch(n > 0):
        RT.assume(z3.And(0 <= k, k < n))
        v = it.value(mkint(k))
        if v is None:
            if getattr(it, 'nonone', False):
                RT.kill()
            raise TypeError('sum')
        d = LP(z3.simplify(k + 1)) - LP(k)
        RT.prove(zint(v) <= d if kind == 'min' else zint(v) >= d, 'sum: each length')
    r = RT.int('sum')
    RT.assume(LP(iv(0)) == 0)
    RT.assume(r.e <= LP(n) + zint(start) if kind == 'min' else r.e >= LP(n) + zint(start))
    return r


def andlen_inv(L):
    i = z3.simplify(zint(L._idx))
    t = zint(L.total)
    RT.assume(LP(iv(0)) == 0)
    return [('a bound so far', t <= LP(i) if RT.ghost['kind'] == 'min' else t >= LP(i))]


def b_and_len(k):
    def body():
        M = module()
        g = RT.ghost
        g['kind'], g['len'] = k, item_len
        a = rand('a')
        n = zint(a.content.len_())
        r = run('RegexAnd.%sLength' % k, getattr(M.RegexAnd, k + 'Length'), a)
        if r is None:
            RT.prove(k == 'max', 'the minimum length is a number')
            return
        RT.cover('length')
        RT.prove(zint(r) <= LP(n) if k == 'min' else zint(r) >= LP(n), 'the length of every text matched by a sequence')
    return body


def orlen_inv(L):
    g = RT.ghost
    i = z3.simplify(zint(L._idx))
    v = L.value
    if v is None:
        return [('no length yet', i == 0)]
    e = zint(v)
    return [('a length', i >= 1), ('a bound so far', z3.Implies(i > g['ch'], e <= g['ln'] if g['kind'] == 'min' else e >= g['ln']))]


def orlen_havoc(L):
    return dict(value=None if RT.choice([True, False], 'first') else RT.int('value'))


def b_or_len(k):
    def body():
        M = module()
        g = RT.ghost
        g['kind'], g['len'] = k, item_len
        a = ror('a')
        n = zint(a.content.len_())
        ch = g['ch'] = RT.input_int('alternative', 0).e
        RT.assume(ch < n)
        g['ln'] = LN(ch)
        r = run('RegexOr.%sLength' % k, getattr(M.RegexOr, k + 'Length'), a)
        if r is None:
            RT.prove(k == 'max', 'the minimum length is a number')
            return
        RT.cover('length')
        RT.prove(zint(r) <= LN(ch) if k == 'min' else zint(r) >= LN(ch), 'the length of every text matched by an alternative')
    return body


def b_lens():
    """the classes without parts, and repetitions"""
    M = module()
    g = RT.ghost
    k = RT.choice(['empty', 'string', 'start', 'end', 'word', 'dot', 'class', 'repeat'], 'class')
    if k == 'repeat':
        mn, mx = RT.input_int('min_len', 0).e, RT.input_int('max_len', 0).e
        unl = RT.choice([True, False], 'unlimited')
        g['len'] = lambda x, kind: mkint(mn) if kind == 'min' else None if unl else mkint(mx)
        rmin = RT.input_int('rmin', 0).e
        rmax = None if RT.choice([True, False], 'no maximum') else RT.input_int('rmax', 0).e
        cnt, ln = RT.input_int('repeated', 0).e, RT.input_int('length', 0).e
        RT.assume(cnt >= rmin)
        if rmax is not None:
            RT.assume(cnt <= rmax)
        # cnt texts, each of them between the bounds
        RT.assume(zmul(cnt, mn) <= ln)
        if not unl:
            RT.assume(ln <= zmul(cnt, mx))
            if rmax is not None:
                RT.fact(z3.Implies(z3.And(cnt <= rmax, mx >= 0), zmul(cnt, mx) <= zmul(rmax, mx)))
                RT.fact(zmul(rmax, mx) == zmul(mx, rmax))
        RT.fact(z3.Implies(z3.And(rmin <= cnt, mn >= 0), zmul(rmin, mn) <= zmul(cnt, mn)))
        RT.fact(zmul(rmin, mn) == zmul(mn, rmin))
        x = obj(M.RegexRepeat, regex=Rx.fresh('r'), min=mkint(rmin), max=None if rmax is None else mkint(rmax))
    elif k == 'string':
        x = strings('a')[0]
        ln = x.text.n
    elif k == 'class':
        x, ln = rng('a', mkbool(z3.Bool('exclude'))), iv(1)
    else:
        x, ln = dict(empty=M.RegexEmpty, start=M.RegexStart, end=M.RegexEnd, word=M.RegexWord, dot=M.RegexDot)[k](), iv(1 if k == 'dot' else 0)
    kind, lo = expect(RX + 'minLength', x.minLength)
    RT.prove(kind == 'ret' and lo is not None, 'the minimum length is a number')
    RT.prove(zint(lo) <= ln, 'no text is shorter than the minimum length')
    kind, hi = expect(RX + 'maxLength', x.maxLength)
    RT.prove(kind == 'ret', 'maximum length: no error')
    if hi is None:
        RT.prove(k == 'repeat', 'the length is limited')
        return
    RT.cover('limited')
    RT.prove(ln <= zint(hi), 'no text is longer than the maximum length')


def b_repeat_eq():
    M = module()

    def one_(n):
        mx = None if RT.choice([True, False], 'no maximum') else RT.input_int('max_' + n, 0)
        return obj(M.RegexRepeat, regex=Rx.fresh(n), min=RT.input_int('min_' + n, 0), max=mx)
    a, b = one_('a'), one_('b')
    r = run('RegexRepeat._eq', M.RegexRepeat._eq, a, b)
    if r:
        RT.cover('equal')
        RT.prove(zint(a.min) == zint(b.min), 'equal repetitions: the same minimum')
        RT.prove((a.max is None) == (b.max is None), 'equal repetitions: both limited')
        if a.max is not None and b.max is not None:
            RT.prove(zint(a.max) == zint(b.max), 'equal repetitions: the same maximum')
        RT.prove(mem(a.regex) == mem(b.regex), 'equal repetitions of the same language')


RCALLS = calls(**{RX + 'RegexRange.rangeAdd': c_rangeAdd})
SYM = {RX + 'RegexRange.__init__': lambda: RList(empty=True), RX + 'RegexOr.__init__': lambda: CList([])}
ENUM = {'enumerate': lambda l, s=0: Enum(l, s)}

UNITS = [
    Unit('a & b', [RX + 'Regex.__and__'], b_and('__and__'), calls=calls('Regex.__and__')),
    Unit('a + b', [RX + 'Regex.__add__'], b_and('__add__'), calls=calls('Regex.__add__')),
    Unit('sequences of the classes', [RX + k + '._and' for k in ('Regex', 'RegexEmpty', 'RegexWord', 'RegexStart', 'RegexEnd', 'RegexString')], b__and, calls=calls()),
    Unit('sequences of sequences', [RX + 'RegexAnd._and'], b_and_and, calls=calls(), loops={RX + 'RegexAnd._and#0': LoopSpec(and_inv, havoc=rx_havoc('total'))}),
    Unit('a sequence', [RX + 'RegexAnd.__init__'], b_and_init, calls=calls()),
    Unit('or_', [RX + 'Regex.or_'], b_or_, calls=calls('Regex.or_')),
    Unit('a | b', [RX + 'Regex.__or__'], b_or, calls=calls('Regex.__or__', **{RX + 'Regex.or_': c_or_eq})),
    Unit('match', [RX + 'Regex.match'], b_match, calls=calls()),
    Unit('equality', [RX + 'Regex.__eq__'], b_eq, calls=calls('Regex.__eq__')),
    Unit('alternatives of strings', [RX + 'RegexString._or_'], b_string_or, calls=calls()),
    Unit('common prefix', [RX + 'RegexString.findPrefix'], b_prefix, calls=calls('RegexString.findPrefix', **{RX + 'createRange': c_createRange}),
         loops={RX + 'RegexString.findPrefix#0': LoopSpec(prefix_inv, havoc=prefix_havoc)}),
    Unit('defaults', [RX + 'Regex.findPrefix', RX + 'Regex._match', RX + 'Regex._or_'], b_prefix_default),
    Unit('alternatives of sequences', [RX + 'RegexAnd._or_'], b_and_or, calls=calls(), loops={RX + 'RegexAnd._or_#0': LoopSpec(andor_inv)}),
    Unit('join of a sequence', [RX + '_join'], b_join('__and__'), calls=calls('_join'), loops={RX + '_join#0': LoopSpec(join_inv, havoc=rx_havoc('regex'))}),
    Unit('join of an alternative', [RX + '_join'], b_join('__or__'), calls=calls('_join'), loops={RX + '_join#0': LoopSpec(join_inv, havoc=rx_havoc('regex'))}),
    Unit('joins', [RX + 'RegexAnd.join', RX + 'RegexOr.join'], b_joins),
    Unit('alternatives of alternatives', [RX + 'RegexOr._or_'], b_or_or, calls=calls(), models=ENUM,
         loops={RX + 'RegexOr._or_#0': LoopSpec(oror_inv1, havoc=rx_havoc('total')), RX + 'RegexOr._or_#1': LoopSpec(oror_inv2)}),
    Unit('contained alternatives', [RX + 'RegexOr.__contains__'], b_contains, calls=calls(), loops={RX + 'RegexOr.__contains__#0': LoopSpec(cont_inv)}),
    Unit('an alternative', [RX + 'RegexOr.__init__'], b_or_init, calls=calls(**{RX + 'RegexOr.__contains__': c_contains}), symlists=SYM,
         loops={RX + 'RegexOr.__init__#0': LoopSpec(init_inv)}),
    Unit('adding a range', [RX + 'RegexRange.rangeAdd'], b_rangeAdd, calls=RCALLS, models=ENUM,
         loops={RX + 'RegexRange.rangeAdd#0': LoopSpec(add_inv, havoc=lambda L: dict(new=None))}),
    Unit('a class', [RX + 'RegexRange.__init__'], b_range_init, calls=RCALLS, symlists=SYM, loops={RX + 'RegexRange.__init__#0': LoopSpec(rinit_inv)}),
    Unit('characters of a class', [RX + 'RegexRange._match'], b_range_match, calls=RCALLS, comps=Comps('RegexRange._match'),
         loops={RX + 'RegexRange._match#0': LoopSpec(rmatch_inv)}),
    Unit('union of classes', [RX + 'RegexRange._or_'], b_range_or, calls=RCALLS, symlists=SYM, loops={RX + 'RegexRange._or_#0': LoopSpec(ror_inv)}),
    Unit('any character', [RX + 'RegexDot._match'], b_dot_match, calls=calls()),
    Unit('a range', [RX + 'RegexRangeItem.' + k for k in ('__init__', '__len__', '__contains__')], b_item),
    Unit('a character', [RX + 'RegexRangeCharacter.__init__'], b_char),
    Unit('class of characters', [RX + 'createRange'], b_createRange),
    Unit('createString', [RX + 'createString'], b_createString, calls=calls()),
    Unit('equal strings and classes', [RX + 'RegexString._eq', RX + 'RegexRange._eq'], b_eqs, calls=calls()),
    Unit('equal sequences', [RX + 'RegexAnd._eq'], b_seq_eq('RegexAnd'), calls=calls(), comps=Comps('RegexAnd._eq')),
    Unit('equal alternatives', [RX + 'RegexOr._eq'], b_seq_eq('RegexOr'), calls=calls(), comps=Comps('RegexOr._eq')),
    Unit('equal repetitions', [RX + 'RegexRepeat._eq'], b_repeat_eq, calls=calls()),
    Unit('single values', [RX + 'matchSingleValue'], b_single, calls=calls(**{RX + 'matchSingleValue': c_single_item}), comps=Comps('matchSingleValue')),
    Unit('shortest text of a sequence', [RX + 'RegexAnd.minLength', RX + 'RegexAnd._minmaxLength'], b_and_len('min'), calls=calls(), comps=Comps('RegexAnd.minLength'), models={'sum': m_sumlen},
         loops={RX + 'RegexAnd._minmaxLength#0': LoopSpec(andlen_inv)}),
    Unit('longest text of a sequence', [RX + 'RegexAnd.maxLength', RX + 'RegexAnd._minmaxLength'], b_and_len('max'), calls=calls(), comps=Comps('RegexAnd.maxLength'), models={'sum': m_sumlen},
         loops={RX + 'RegexAnd._minmaxLength#0': LoopSpec(andlen_inv)}),
    Unit('shortest text of an alternative', [RX + 'RegexOr.minLength', RX + 'RegexOr._minmaxLength'], b_or_len('min'), calls=calls(), comps=Comps('RegexOr.minLength'),
         loops={RX + 'RegexOr._minmaxLength#0': LoopSpec(orlen_inv, havoc=orlen_havoc)}),
    Unit('longest text of an alternative', [RX + 'RegexOr.maxLength', RX + 'RegexOr._minmaxLength'], b_or_len('max'), calls=calls(), comps=Comps('RegexOr.maxLength'),
         loops={RX + 'RegexOr._minmaxLength#0': LoopSpec(orlen_inv, havoc=orlen_havoc)}),
    Unit('lengths of the other classes', [RX + k for k in ('Regex.maxLength', 'RegexEmpty.minLength', 'RegexDot.minLength', 'RegexString.minLength', 'RegexRange.minLength', 'RegexRepeat.minLength', 'RegexRepeat.maxLength')], b_lens, calls=calls()),
]
from contracts import c17b     # noqa
for _u in UNITS:
    # a generator expression in a function under contract is read element by element
    for _t in _u.targets:
        for _k in range(3):
            _u.comps.setdefault('%s@%d' % (_t, _k), c_map)
UNITS += c17b.UNITS
BOUNDED = ['RegexRepeat.__init__ and the parser of expressions: executable contract only']
