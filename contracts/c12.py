"""C12: sorted search and alignment."""
import z3
from pyvc.core import RT, SInt, SBool, SBytes, SList, LoopSpec, Sym, mkint, mkbool, zint, iv, P2F, DIVF, MODF, zmul, Unsupported
from pyvc.contract import Unit, Lemma, expect
from contracts import lib

PROP = 'C12'


class Elem(Sym):
    """an arbitrary element of an arbitrary sequence, known by its position"""
    def __init__(self, i):
        self.i = i


class AnySeq(Sym):
    """an arbitrary sequence of n elements"""
    def __init__(self, n):
        self.n = n

    def len_(self):
        return self.n

    def __getitem__(self, k):
        i = zint(k)
        n = self.n.e
        if RT.branch(z3.And(i >= 0, i < n)):
            return Elem(i)
        if RT.branch(z3.And(i < 0, i >= -n)):
            return Elem(i + n)
        raise IndexError('index out of range')


def b_lowerBound():
    from hachoir.core.tools import lowerBound
    n = RT.input_int('n', 0)
    K = RT.input_int('K', 0)       # the test holds exactly for the first K elements
    RT.assume(K.e <= n.e)
    RT.ghost['K'], RT.ghost['n'] = K.e, n.e
    kind, r = expect('hachoir.core.tools:lowerBound', lowerBound, AnySeq(n), lambda x: mkbool(x.i < K.e))
    RT.prove(kind == 'ret' and isinstance(r, (int, SInt)), 'lowerBound returns an index')
    RT.cover('returned')
    RT.prove(zint(r) == K.e, 'lowerBound returns the first position at which the test fails')


def lb_inv(shape):
    def inv(L):
        ints = [zint(L.get(x)) for x in L._mod]
        if len(ints) < 2:
            raise Unsupported('lowerBound: two integer locals expected')
        K, n = RT.ghost['K'], RT.ghost['n']
        x, y = (ints[0], ints[1]) if shape[1] == 0 else (ints[1], ints[0])
        hi = x + y if shape[0] == 'len' else y
        return [('position of the boundary', z3.And(0 <= x, x <= K, K <= hi, hi <= n, x <= hi))]

    def var(L):
        ints = [zint(L.get(x)) for x in L._mod]
        x, y = (ints[0], ints[1]) if shape[1] == 0 else (ints[1], ints[0])
        return y if shape[0] == 'len' else y - x
    return LoopSpec(inv, var)


SHAPES = [('len', 0), ('hi', 0), ('len', 1), ('hi', 1)]


def b_binarySearch():
    from hachoir.core.tools import binarySearch
    n = RT.input_int('n', 0)
    K1 = RT.input_int('K1', 0)       # positive before K1, zero in [K1, K2), negative after
    K2 = RT.input_int('K2', 0)
    RT.assume(z3.And(K1.e <= K2.e, K2.e <= n.e))
    RT.ghost['K1'], RT.ghost['K2'], RT.ghost['n'] = K1.e, K2.e, n.e

    def cmp(x):
        d = RT.int('diff')
        RT.assume(z3.And((d.e > 0) == (x.i < K1.e), (d.e < 0) == (x.i >= K2.e)))
        return d
    kind, r = expect('hachoir.core.tools:binarySearch', binarySearch, AnySeq(n), cmp)
    RT.prove(kind == 'ret', 'binarySearch returns')
    RT.cover('returned')
    if r is None:
        RT.cover('not found')
        RT.prove(K1.e == K2.e, 'binarySearch returns None only when no element matches')
    else:
        RT.cover('found')
        RT.prove(isinstance(r, (int, SInt)), 'binarySearch returns an index')
        RT.prove(z3.And(K1.e <= zint(r), zint(r) < K2.e), 'binarySearch returns the index of a matching element')


def bs_inv(order):
    def inv(L):
        x, y = [zint(L.get(x)) for x in (L._mod if order == 0 else L._mod[::-1])][:2]
        K1, K2, n = RT.ghost['K1'], RT.ghost['K2'], RT.ghost['n']
        return [('matching elements are in the window', z3.And(0 <= x, x <= y, y <= n, x <= K1, K2 <= y))]

    def var(L):
        x, y = [zint(L.get(x)) for x in (L._mod if order == 0 else L._mod[::-1])][:2]
        return y - x
    return LoopSpec(inv, var)


def b_align(fn):
    def body():
        import hachoir.core.tools as t
        v = RT.input_int('value')
        al = RT.input_int('align', 1)
        kind, r = expect('hachoir.core.tools:' + fn, getattr(t, fn), v, al)
        RT.prove(kind == 'ret' and isinstance(r, (int, SInt)), fn + ' returns an integer')
        RT.cover('returned')
        res = zint(r) if fn == 'alignValue' else v.e + zint(r)
        RT.prove(z3.And(res >= v.e, res < v.e + al.e), fn + ': smallest value not below')
        # theorem of Euclidean division: shifting by whole multiples keeps the remainder
        q = DIVF(v.e, al.e)
        lib.div_unique(res, al.e, q, iv(0))
        lib.div_unique(res, al.e, q + 1, iv(0))
        RT.prove(MODF(res, al.e) == 0, fn + ': a multiple of the alignment')
    return body


LB = 'hachoir.core.tools:lowerBound#0'
BS = 'hachoir.core.tools:binarySearch#0'
UNITS = [
    Unit('lowerBound', ['hachoir.core.tools:lowerBound'], b_lowerBound, loops=[{LB: lb_inv(s)} for s in SHAPES]),
    Unit('binarySearch', ['hachoir.core.tools:binarySearch'], b_binarySearch, loops=[{BS: bs_inv(0)}, {BS: bs_inv(1)}]),
    Unit('alignValue', ['hachoir.core.tools:alignValue'], b_align('alignValue')),
    Unit('paddingSize', ['hachoir.core.tools:paddingSize'], b_align('paddingSize')),
]
