"""pyvc: symbolic values, path exploration, proof obligations, contracts."""
import builtins
import itertools
import os
import subprocess
import sys
import tempfile
import time
import z3

I = z3.IntSort()
B = z3.BoolSort()
P2F = z3.Function('P2', I, I)            # 2**k (only applied to k >= 0)
MULF = z3.Function('MUL', I, I, I)       # product of two non-constant terms
DIVF = z3.Function('DIV', I, I, I)       # floor division by a symbolic positive divisor
MODF = z3.Function('MOD', I, I, I)
BORF = z3.Function('BOR', I, I, I)
BANDF = z3.Function('BAND', I, I, I)
BXORF = z3.Function('BXOR', I, I, I)


class PathEnd(BaseException):
    """This execution path is over (loop cut, infeasible, ...)."""


class Unsupported(BaseException):
    """The program left the supported subset: nothing is proved."""


class ObligationFailed(BaseException):
    pass


def iv(x):
    return z3.IntVal(x)


def simp(e):
    return z3.simplify(e, som=True, arith_lhs=False)


# ---------------------------------------------------------------- polynomials
def to_poly(e):
    """dict {tuple(sorted ids of atoms): (coeff, atoms)} of an Int term."""
    out = {}

    def add(d, key, c, atoms):
        if key in d:
            c0, a0 = d[key]
            c = c + c0
        if c == 0:
            d.pop(key, None)
        else:
            d[key] = (c, atoms)

    def go(e):
        if z3.is_int_value(e):
            v = e.as_long()
            return {(): (v, ())} if v else {}
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            d = {}
            for c in e.children():
                for key, (co, at) in go(c).items():
                    add(d, key, co, at)
            return d
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            d = dict(go(ch[0]))
            for c in ch[1:]:
                for key, (co, at) in go(c).items():
                    add(d, key, -co, at)
            return d
        if k == z3.Z3_OP_UMINUS:
            return {key: (-co, at) for key, (co, at) in go(e.arg(0)).items()}
        if k == z3.Z3_OP_MUL or e.decl().eq(MULF):
            ds = [go(c) for c in e.children()]
            cur = {(): (1, ())}
            for d in ds:
                nxt = {}
                for k1, (c1, a1) in cur.items():
                    for k2, (c2, a2) in d.items():
                        key, c, at = mono(c1 * c2, a1 + a2)
                        add(nxt, key, c, at)
                cur = nxt
            return cur
        if e.decl().eq(P2F):
            key, c, at = mono(1, (e,))
            return {key: (c, at)}
        return {(e.get_id(),): (1, (e,))}

    def mono(c, atoms):
        exps = [a.arg(0) for a in atoms if a.decl().eq(P2F)]
        rest = [a for a in atoms if not a.decl().eq(P2F)]
        if exps:
            ex = simp(z3.Sum(exps)) if len(exps) > 1 else simp(exps[0])
            ex, cst = split_const(ex)
            # keep non-negative constant parts as a coefficient
            if ex is None:
                if cst >= 0:
                    c *= 1 << cst
                else:
                    rest.append(P2F(iv(cst)))
            elif cst > 0:
                c *= 1 << cst
                rest.append(P2F(ex))
            else:
                rest.append(P2F(simp(ex + cst)) if cst else P2F(ex))
        rest.sort(key=lambda a: (a.decl().eq(P2F), a.get_id()))
        at = tuple(rest)
        return tuple(a.get_id() for a in at), c, at
    return go(e)


def split_const(e):
    """e = term + const (term None if constant); P2 argument splitting is only
    applied when the remaining term is known to be non-negative by the caller,
    see Rt.p2."""
    if z3.is_int_value(e):
        return None, e.as_long()
    return e, 0


def from_poly(d):
    terms = []
    for key in sorted(d):
        c, at = d[key]
        t = None
        for a in at:
            t = a if t is None else MULF(t, a)
        if t is None:
            terms.append(iv(c))
        elif c == 1:
            terms.append(t)
        else:
            terms.append(c * t)
    if not terms:
        return iv(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def zmul(a, b):
    if z3.is_int_value(a) or z3.is_int_value(b):
        return simp(a * b)
    return from_poly(to_poly(MULF(a, b)))


def znorm(e):
    return from_poly(to_poly(e))


# ---------------------------------------------------------------- symbolic values
class Sym:
    pass


def is_sym(x):
    if isinstance(x, Sym):
        return True
    if type(x) in (tuple, list):
        return any(is_sym(y) for y in x)
    return False


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def zint(x):
    """python int / bool / SInt -> z3 Int term"""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool):
        return iv(1 if x else 0)
    if isinstance(x, int):
        return iv(int(x))
    if isinstance(x, SBool):
        return z3.If(x.e, iv(1), iv(0))
    if z3.is_expr(x):
        return x
    raise Unsupported('not an integer: %r' % (type(x),))


def zbool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    raise Unsupported('not a boolean: %r' % (type(x),))


def isnum(x):
    return isinstance(x, (int, SInt, SBool))


class SBool(Sym):
    __slots__ = ('e',)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return RT.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == zbool(o))
        if isnum(o):
            return mkbool(zint(self) == zint(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mknot(r)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.And(self.e, zbool(o)))
        return SInt(zint(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Or(self.e, zbool(o)))
        return SInt(zint(self)) | o
    __ror__ = __or__

    def __add__(self, o):
        return mkint(zint(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return '<SBool %s>' % self.e


def mknot(b):
    if isinstance(b, bool):
        return not b
    return mkbool(z3.Not(zbool(b)))


class SInt(Sym):
    __slots__ = ('e',)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return '<SInt %s>' % self.e

    def __bool__(self):
        return RT.branch(self.e != 0)

    def _cmp(self, o, f):
        if not isnum(o):
            return NotImplemented
        return mkbool(f(self.e, zint(o)))

    def __eq__(self, o):
        if isinstance(o, float):
            raise Unsupported('int == float')
        if not isnum(o):
            return False
        return mkbool(self.e == zint(o))

    def __ne__(self, o):
        if not isnum(o):
            return True
        return mkbool(self.e != zint(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f, swap=False):
        if isinstance(o, float):
            raise Unsupported('float arithmetic')
        if not isnum(o):
            return NotImplemented
        a, b = self.e, zint(o)
        if swap:
            a, b = b, a
        return f(a, b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: mkint(a + b))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: mkint(a + b), True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: mkint(a - b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: mkint(a - b), True)

    def __mul__(self, o):
        if type(o) in (list, bytes, tuple):
            return repeat_seq(o, self)
        return self._bin(o, lambda a, b: mkint(zmul(a, b)))
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: RT.divmod_(a, b)[0])

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: RT.divmod_(a, b)[0], True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: RT.divmod_(a, b)[1])

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: RT.divmod_(a, b)[1], True)

    def __divmod__(self, o):
        return self._bin(o, lambda a, b: RT.divmod_(a, b))

    def __rdivmod__(self, o):
        return self._bin(o, lambda a, b: RT.divmod_(a, b), True)

    def __truediv__(self, o):
        return RT.truediv(self, o)

    def __rtruediv__(self, o):
        return RT.truediv(o, self)

    def __lshift__(self, o):
        return self._bin(o, RT.lshift)

    def __rlshift__(self, o):
        return self._bin(o, RT.lshift, True)

    def __rshift__(self, o):
        return self._bin(o, RT.rshift)

    def __rrshift__(self, o):
        return self._bin(o, RT.rshift, True)

    def __and__(self, o):
        return self._bin(o, RT.band)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, RT.bor)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, RT.bxor)
    __rxor__ = __xor__

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('pow')

    def __rpow__(self, o):
        if o == 2:
            return RT.p2(self.e)
        raise Unsupported('pow')

    def __index__(self):
        raise Unsupported('symbolic integer used as a native index')

    def __int__(self):
        raise Unsupported('symbolic integer used as a native int')

    def __float__(self):
        raise Unsupported('float')


class Opaque(Sym):
    """A value about which nothing is known (text of messages, ...)."""
    __hash__ = None

    def __init__(self, what='?'):
        self.what = what

    def __repr__(self):
        return '<opaque %s>' % self.what

    def __str__(self):
        return '<opaque>'

    def __add__(self, o):
        return Opaque(self.what)
    __radd__ = __add__

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('comparison of an opaque value')

    def __ne__(self, o):
        raise Unsupported('comparison of an opaque value')

    def __bool__(self):
        raise Unsupported('truth value of an opaque value')


class Unbound(Sym):
    """A local which may be unbound at a cut loop head; any use is an error."""

    def __getattr__(self, n):
        if n.startswith('__') or n in PROTO:
            raise AttributeError(n)
        raise Unsupported('use of a local not bound at the loop head: .%s' % n)

    def __bool__(self):
        raise Unsupported('use of a local not bound at the loop head')


PROTO = ('snap_state', '_pyvc_track', 'havoc_value', 'len_', 'sym_item', 'snap_children', 'is_text', '_pyvc_name')
UNBOUND = Unbound()

# functions which always take values in 0..255
BYTE_FUNCS = []


def byte_func(name):
    f = z3.Function(name, I, I)
    if not any(f.eq(g) for g in BYTE_FUNCS):
        BYTE_FUNCS.append(f)
    return f


def clip(x, lo, hi):
    return z3.If(x < lo, lo, z3.If(x > hi, hi, x))


def zmax(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return iv(max(a.as_long(), b.as_long()))
    return z3.If(a >= b, a, b)


class Seq:
    """Immutable sequence: rope of ('arr', fn, off, len) and ('lit', (v, ...)).
    fn maps a z3 Int to a z3 term; elements of 'lit' are python values."""
    __slots__ = ('segs', 'wrap', 'unwrap')

    def __init__(self, segs, wrap, unwrap):
        out = []
        for s in segs:
            if s[0] == 'lit':
                if not s[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + tuple(s[1]))
                    continue
                out.append(('lit', tuple(s[1])))
            else:
                ln = z3.simplify(s[3])
                if z3.is_int_value(ln) and ln.as_long() <= 0:
                    continue
                off = z3.simplify(s[2])
                if out and out[-1][0] == 'arr' and out[-1][1] is s[1] and \
                        z3.is_true(z3.simplify(out[-1][2] + out[-1][3] == off)):
                    p = out[-1]
                    out[-1] = ('arr', p[1], p[2], z3.simplify(p[3] + ln))
                    continue
                out.append(('arr', s[1], off, ln))
        self.segs = out
        self.wrap = wrap
        self.unwrap = unwrap

    def length(self):
        t = iv(0)
        for s in self.segs:
            t = t + (len(s[1]) if s[0] == 'lit' else s[3])
        return z3.simplify(t)

    def term(self, i):
        """z3 term of element i (i in range assumed)"""
        pos = iv(0)
        alts = []
        for s in self.segs:
            if s[0] == 'lit':
                for v in s[1]:
                    alts.append((pos + 1, self.unwrap(v)))
                    pos = pos + 1
            else:
                alts.append((pos + s[3], s[1](z3.simplify(s[2] + i - pos))))
                pos = pos + s[3]
        if not alts:
            return None
        r = alts[-1][1]
        for lim, t in reversed(alts[:-1]):
            r = z3.If(i < lim, t, r)
        return z3.simplify(r)

    def at(self, i):
        """python value of element i; i: z3 term in range"""
        i = z3.simplify(i)
        if z3.is_int_value(i):
            k = i.as_long()
            for s in self.segs:
                if s[0] == 'lit':
                    if k < len(s[1]):
                        return s[1][k]
                    k -= len(s[1])
                else:
                    break
        return self.wrap(self.term(i))

    def slice(self, a, b):
        """elements a..b (z3 terms, 0 <= a, clipped); entailment-free"""
        segs = []
        pos = iv(0)
        for s in self.segs:
            if s[0] == 'lit':
                n = len(s[1])
                a1, b1 = z3.simplify(a - pos), z3.simplify(b - pos)
                if z3.is_int_value(a1) and z3.is_int_value(b1):
                    segs.append(('lit', s[1][max(0, a1.as_long()):max(0, b1.as_long())]))
                elif RT.entails(z3.And(a1 <= 0, b1 >= n)):
                    segs.append(s)
                elif RT.entails(z3.Or(a1 >= n, b1 <= 0, b1 <= a1)):
                    pass
                else:
                    # decide the position by forking
                    for k, v in enumerate(s[1]):
                        if RT.branch(z3.And(a1 <= k, k < b1)):
                            segs.append(('lit', (v,)))
                pos = pos + n
            else:
                n = s[3]
                lo = z3.simplify(a - pos)
                hi = z3.simplify(b - pos)
                if z3.is_int_value(lo) and lo.as_long() <= 0 or RT.entails(lo <= 0):
                    lo = iv(0)
                elif not RT.entails(lo <= n):
                    lo = clip(lo, iv(0), n)
                if RT.entails(hi >= n):
                    hi = n
                elif not RT.entails(hi >= 0):
                    hi = clip(hi, iv(0), n)
                ln = z3.simplify(hi - lo)
                if not RT.entails(ln >= 0):
                    ln = z3.simplify(zmax(ln, iv(0)))
                segs.append(('arr', s[1], z3.simplify(s[2] + lo), ln))
                pos = pos + n
        return Seq(segs, self.wrap, self.unwrap)

    def cat(self, o):
        return Seq(self.segs + o.segs, self.wrap, self.unwrap)

    def eq_expr(self, o):
        """z3 Bool: equal as sequences."""
        la, lb = self.length(), o.length()
        conj = [la == lb]
        n = la if z3.is_int_value(la) else lb
        if z3.is_int_value(n) and n.as_long() <= 64:
            for k in range(n.as_long()):
                x, y = self.term(iv(k)), o.term(iv(k))
                if x is None or y is None:
                    return z3.BoolVal(False) if n.as_long() else z3.And(conj)
                conj.append(x == y)
        else:
            if len(self.segs) == 1 and len(o.segs) == 1 and self.segs[0][0] == 'arr' == o.segs[0][0] \
                    and self.segs[0][1] is o.segs[0][1] and \
                    z3.is_true(z3.simplify(self.segs[0][2] == o.segs[0][2])):
                return z3.And(conj)
            i = z3.Int(RT.freshname('q'))
            x, y = self.term(i), o.term(i)
            if x is None or y is None:
                return z3.And(conj)
            conj.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < la), x == y)))
        return z3.And(conj)


def norm_slice(sl, n):
    """python slice semantics for step 1/None: z3 (lo, hi) with 0<=lo, hi<=n"""
    if sl.step is not None and sl.step != 1:
        raise Unsupported('slice step')

    def fix(v, dflt):
        if v is None:
            return dflt
        v = zint(v)
        if RT.entails(v >= 0):
            return v if RT.entails(v <= n) else z3.If(v > n, n, v)
        if RT.entails(v < 0):
            w = v + n
        else:
            w = z3.If(v < 0, v + n, v)
        w = z3.simplify(w)
        return z3.simplify(clip(w, iv(0), n)) if not RT.entails(z3.And(w >= 0, w <= n)) else w
    return fix(sl.start, iv(0)), fix(sl.stop, n)


def wrap_int(t):
    return mkint(t)


class SBytes(Sym):
    """symbolic bytes"""
    __slots__ = ('q', 'origin')
    __hash__ = None

    def __init__(self, segs, origin=None):
        self.q = segs if isinstance(segs, Seq) else Seq(segs, wrap_int, zint)
        self.origin = origin

    @staticmethod
    def lift(x):
        if isinstance(x, SBytes):
            return x
        if isinstance(x, (bytes, bytearray)):
            return SBytes([('lit', tuple(x))])
        raise Unsupported('not bytes: %r' % (type(x),))

    def len_(self):
        return mkint(self.q.length())

    def __repr__(self):
        return '<SBytes %s>' % (self.q.segs,)

    def __bool__(self):
        return RT.branch(self.q.length() > 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                return step_slice(self, k)
            lo, hi = norm_slice(k, self.q.length())
            return concrete_bytes(SBytes(self.q.slice(lo, hi)))
        i = zint(k)
        n = self.q.length()
        if RT.branch(z3.And(i >= -n, i < n)):
            if not RT.entails(i >= 0):
                if RT.branch(i < 0):
                    i = i + n
            return self.q.at(i)
        raise IndexError('index out of range')

    def __add__(self, o):
        if not isinstance(o, (bytes, SBytes)):
            return NotImplemented
        return concrete_bytes(SBytes(self.q.cat(SBytes.lift(o).q)))

    def __radd__(self, o):
        if not isinstance(o, (bytes, SBytes)):
            return NotImplemented
        return concrete_bytes(SBytes(SBytes.lift(o).q.cat(self.q)))

    def __mul__(self, n):
        if isinstance(n, int):
            r = b''
            for _ in range(n):
                r = self + r
            return r
        return NotImplemented

    def __eq__(self, o):
        if not isinstance(o, (bytes, SBytes)):
            return False
        return mkbool(self.q.eq_expr(SBytes.lift(o).q))

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __iter__(self):
        k = 0
        while True:
            if not RT.branch(z3.simplify(self.q.length() > k)):
                return
            yield self.q.at(iv(k))
            k += 1
            if k > RT.unroll:
                raise Unsupported('unrolling of an iteration over symbolic bytes')

    def find(self, needle, start=None, end=None):
        return RT.model('bytes.find', self, needle, start, end)

    def tobytes(self):
        return self

    def decode(self, *a):
        return RT.model('bytes.decode', self, *a)


def concrete_bytes(s):
    if not s.q.segs:
        return b''
    if len(s.q.segs) == 1 and s.q.segs[0][0] == 'lit' and all(
            isinstance(v, int) for v in s.q.segs[0][1]):
        return bytes(s.q.segs[0][1])
    return s


def repeat_seq(o, n):
    """[v] * n and b'x' * n with a symbolic count"""
    if len(o) != 1:
        raise Unsupported('repetition of a sequence of length %d' % len(o))
    v = o[0]
    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
        t = zint(v)
    else:
        t = z3.Int(RT.freshname('poison'))
    fn = lambda i: t
    ln = zmax(n.e, iv(0))
    if type(o) is bytes:
        return SBytes([('arr', fn, iv(0), ln)])
    return SList([('arr', fn, iv(0), ln)])


def step_bounds(k, n):
    """(start, count) of x[start::step] for a constant step >= 1 (z3 terms)"""
    st = k.step
    if not isinstance(st, int) or isinstance(st, bool) or st < 1 or k.stop is not None:
        raise Unsupported('slice with this step/stop')
    a = k.start if k.start is not None else 0
    if not isinstance(a, int) or a < 0:
        raise Unsupported('slice start')
    cnt = z3.simplify(z3.If(n > a, (n - a + (st - 1)) / st, iv(0)))
    return a, st, cnt


def step_slice(s, k):
    a, st, cnt = step_bounds(k, s.q.length())
    q = s.q
    fn = lambda i: q.term(z3.simplify(a + st * i))
    if isinstance(s, SBytes):
        return SBytes([('arr', fn, iv(0), cnt)])
    return SList(Seq([('arr', fn, iv(0), cnt)], q.wrap, q.unwrap))


def step_assign(s, k, v):
    a, st, cnt = step_bounds(k, s.q.length())
    if isinstance(v, (bytes, bytearray)):
        v = SBytes.lift(v)
    if isinstance(v, (list, tuple)):
        v = SList([('lit', tuple(v))])
    q, r = s.q, v.q
    if not RT.entails(r.length() == cnt):
        if not RT.branch(r.length() == cnt):
            raise ValueError('attempt to assign sequence of wrong size to extended slice')
    n = q.length()
    fn = lambda i: z3.simplify(z3.If(z3.And(i >= a, (i - a) % st == 0), r.term((i - a) / st), q.term(i)))
    s.q = Seq([('arr', fn, iv(0), n)], q.wrap, q.unwrap)


class SList(Sym):
    """mutable list with a symbolic number of elements."""
    __slots__ = ('q',)
    __hash__ = None

    def __init__(self, segs, wrap=wrap_int, unwrap=zint):
        self.q = segs if isinstance(segs, Seq) else Seq(segs, wrap, unwrap)

    def len_(self):
        return mkint(self.q.length())

    def __repr__(self):
        return '<SList %s>' % (self.q.segs,)

    def __bool__(self):
        return RT.branch(self.q.length() > 0)

    def _ix(self, k, exc='list index out of range'):
        i = zint(k)
        n = self.q.length()
        if RT.branch(z3.And(i >= -n, i < n)):
            if not RT.entails(i >= 0):
                if RT.branch(i < 0):
                    i = i + n
            return z3.simplify(i)
        raise IndexError(exc)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                return step_slice(self, k)
            lo, hi = norm_slice(k, self.q.length())
            return SList(self.q.slice(lo, hi))
        return self.q.at(self._ix(k))

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                return step_assign(self, k, v)
            raise Unsupported('slice assignment')
        i = self._ix(k, 'list assignment index out of range')
        self.q = self.q.slice(iv(0), i).cat(self.mk([v])).cat(
            self.q.slice(z3.simplify(i + 1), self.q.length()))

    def __delitem__(self, k):
        if isinstance(k, slice):
            lo, hi = norm_slice(k, self.q.length())
            if not RT.entails(lo <= hi):
                hi = zmax(lo, hi)
            self.q = self.q.slice(iv(0), lo).cat(self.q.slice(hi, self.q.length()))
            return
        i = self._ix(k, 'list assignment index out of range')
        self.q = self.q.slice(iv(0), i).cat(self.q.slice(z3.simplify(i + 1), self.q.length()))

    def mk(self, vals):
        return Seq([('lit', tuple(vals))], self.q.wrap, self.q.unwrap)

    def append(self, v):
        self.q = self.q.cat(self.mk([v]))

    def extend(self, o):
        self.q = self.q.cat(self._seq(o))

    def _seq(self, o):
        if isinstance(o, SList):
            return o.q
        return self.mk(list(o))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return SList(self.q.cat(self._seq(o)))

    def __radd__(self, o):
        return SList(self._seq(o).cat(self.q))

    def insert(self, k, v):
        n = self.q.length()
        i = zint(k)
        if not RT.entails(i >= 0):
            if RT.branch(i < 0):
                i = z3.simplify(i + n)
                if not RT.entails(i >= 0) and RT.branch(i < 0):
                    i = iv(0)
        if not RT.entails(i <= n):
            if RT.branch(i > n):
                i = n
        self.q = self.q.slice(iv(0), i).cat(self.mk([v])).cat(self.q.slice(i, n))

    def pop(self, k=-1):
        v = self[k]
        del self[k]
        return v

    def copy(self):
        return SList(self.q)

    def __iter__(self):
        k = 0
        while True:
            if not RT.branch(z3.simplify(self.q.length() > k)):
                return
            yield self.q.at(iv(k))
            k += 1
            if k > RT.unroll:
                raise Unsupported('unrolling of an iteration over a symbolic list')

    def __eq__(self, o):
        if isinstance(o, SList):
            return mkbool(self.q.eq_expr(o.q))
        if isinstance(o, list):
            return mkbool(self.q.eq_expr(self.mk(o)))
        return False

    def __ne__(self, o):
        return mknot(self.__eq__(o))


class SRange(Sym):
    __slots__ = ('a', 'b', 'step')

    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step

    def len_(self):
        a, b = zint(self.a), zint(self.b)
        if self.step == 1:
            return mkint(zmax(b - a, iv(0)))
        if self.step == -1:
            return mkint(zmax(a - b, iv(0)))
        if isinstance(self.step, int) and self.step > 1:
            return mkint(zmax((b - a + (self.step - 1)) / self.step, iv(0)))
        raise Unsupported('len(range) with step')

    def item(self, k):
        return mkint(zint(self.a) + zmul(zint(k), zint(self.step)))

    def __iter__(self):
        k = 0
        n = zint(self.len_())
        while RT.branch(z3.simplify(n > k)):
            yield self.item(k)
            k += 1
            if k > RT.unroll:
                raise Unsupported('unrolling of a symbolic range')

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported('range slice')
        n = zint(self.len_())
        i = zint(k)
        if RT.branch(z3.And(i >= 0, i < n)):
            return self.item(k)
        raise Unsupported('range index')


# ---------------------------------------------------------------- theory axioms
def collect(exprs):
    """all sub-applications of interest, by declaration name"""
    seen = set()
    out = {}
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
                out.setdefault(e.decl().name(), []).append(e)
            stack.extend(e.children())
    return out


def has_var(e):
    if z3.is_var(e):
        return True
    return any(has_var(c) for c in e.children())


def axioms(exprs, deep=True):
    """Instances of the arithmetic theory for the terms occurring in exprs.
    Every instance is a theorem about 2**k, floor division and products."""
    ax = []
    done = set()
    exprs = list(exprs)
    for rnd in range(2):
        apps = collect(exprs + ax)
        new = []

        def emit(key, f):
            if key not in done:
                done.add(key)
                new.append(f())
        for f in BYTE_FUNCS:
            for t in apps.get(f.name(), ()):
                if not has_var(t):
                    emit(('b', t.get_id()), lambda: z3.And(t >= 0, t <= 255))
        p2 = [t for t in apps.get('P2', ()) if not has_var(t)]
        for t in p2:
            k = t.arg(0)
            emit(('p', t.get_id()), lambda: z3.And(
                z3.Implies(k >= 0, t >= 1), z3.Implies(k == 0, t == 1),
                z3.And([z3.Implies(k == j, t == (1 << j)) for j in range(1, 9)]),
                z3.Implies(k >= 1, t >= 2), z3.Implies(k >= 3, t >= 8), t >= 0,
                z3.Implies(k > 0, t > k)))
            if z3.is_int_value(k) and k.as_long() >= 0:
                emit(('pc', t.get_id()), lambda: t == iv(1 << k.as_long()))
        for x, y in itertools.combinations(p2, 2):
            d = z3.simplify(x.arg(0) - y.arg(0))
            if z3.is_int_value(d):
                d = d.as_long()
                a, b = (x, y) if d >= 0 else (y, x)
                emit(('pd', x.get_id(), y.get_id()), lambda: z3.Implies(
                    b.arg(0) >= 0, a == b * (1 << abs(d))))
            else:
                emit(('pm', x.get_id(), y.get_id()), lambda: z3.And(
                    z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) < y.arg(0)), 2 * x <= y),
                    z3.Implies(z3.And(y.arg(0) >= 0, y.arg(0) < x.arg(0)), 2 * y <= x),
                    z3.Implies(x.arg(0) == y.arg(0), x == y)))
        divs = {}
        for nm in ('DIV', 'MOD'):
            for t in apps.get(nm, ()):
                if not has_var(t):
                    divs.setdefault((t.arg(0).get_id(), t.arg(1).get_id()), (t.arg(0), t.arg(1)))
        for key, (a, d) in divs.items():
            def mk():
                q, r = DIVF(a, d), MODF(a, d)
                return z3.Implies(d > 0, z3.And(a == zmul(q, d) + r, 0 <= r, r < d,
                                                z3.Implies(a >= 0, q >= 0),
                                                z3.And([z3.Implies(a < (1 << j) * d, q < (1 << j)) for j in range(1, 9)]),
                                                z3.Implies(z3.And(0 <= a, a < d), z3.And(q == 0, r == a))))
            emit(('d',) + key, mk)
        muls = [t for t in apps.get('MUL', ()) if not has_var(t)]
        for t in muls:
            x, y = t.arg(0), t.arg(1)
            emit(('m', t.get_id()), lambda: z3.And(
                z3.Implies(z3.And(x >= 0, y >= 0), t >= 0),
                z3.Implies(z3.And(x >= 1, y >= 0), t >= y),
                z3.Implies(z3.And(y >= 1, x >= 0), t >= x),
                z3.Implies(z3.And(x <= -1, y >= 0), t <= -y),
                z3.Implies(z3.And(y <= -1, x >= 0), t <= -x),
                z3.Implies(z3.And(x >= 2, y >= 0), t >= 2 * y),
                z3.Implies(z3.And(y >= 2, x >= 0), t >= 2 * x),
                z3.Implies(x == 0, t == 0), z3.Implies(y == 0, t == 0),
                z3.Implies(x == 1, t == y), z3.Implies(y == 1, t == x)))
        if deep:
            for s, t in itertools.combinations(muls, 2):
                for (x, p), (y, q) in (((s.arg(0), s.arg(1)), (t.arg(0), t.arg(1))),
                                       ((s.arg(0), s.arg(1)), (t.arg(1), t.arg(0))),
                                       ((s.arg(1), s.arg(0)), (t.arg(0), t.arg(1))),
                                       ((s.arg(1), s.arg(0)), (t.arg(1), t.arg(0)))):
                    if not (p.eq(q) or (p.decl().eq(P2F) and q.decl().eq(P2F))):
                        continue
                    emit(('mm', x.get_id(), p.get_id(), y.get_id(), q.get_id()), lambda: z3.Implies(
                        z3.And(p == q, p >= 0), z3.And(
                            z3.Implies(x == y, s == t),
                            z3.Implies(x + 1 <= y, s + p <= t),
                            z3.Implies(y + 1 <= x, t + p <= s))))
            # MUL(x, P2(k)) with k constant difference
            for t in muls:
                for x, p in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                    if not p.decl().eq(P2F):
                        continue
                    # P2(a) * P2(b) = P2(a+b)
                    if x.decl().eq(P2F):
                        a, b = x.arg(0), p.arg(0)
                        emit(('pp', t.get_id()), lambda: z3.Implies(
                            z3.And(a >= 0, b >= 0), t == P2F(z3.simplify(a + b))))
                    for p2t in p2:
                        d = z3.simplify(p.arg(0) - p2t.arg(0))
                        if z3.is_int_value(d) and d.as_long() > 0 and d.as_long() <= 16:
                            emit(('ms', t.get_id(), p2t.get_id()), lambda: z3.Implies(
                                p2t.arg(0) >= 0, t == (1 << d.as_long()) * MULF(x, p2t)))
            # products of powers: P2(k1) with k1 = k2 + k3
            if len(p2) <= 10:
                for a, b in itertools.combinations_with_replacement(p2, 2):
                    for c in p2:
                        dd = z3.simplify(a.arg(0) + b.arg(0) - c.arg(0))
                        if z3.is_int_value(dd) and dd.as_long() == 0 and not z3.is_int_value(a.arg(0)) \
                                and not z3.is_int_value(b.arg(0)):
                            emit(('ppp', a.get_id(), b.get_id(), c.get_id()), lambda: z3.Implies(
                                z3.And(a.arg(0) >= 0, b.arg(0) >= 0), MULF(a, b) == c))
        for nm, F in (('BOR', BORF), ('BXOR', BXORF), ('BAND', BANDF)):
            for t in apps.get(nm, ()):
                if has_var(t):
                    continue
                x, y = t.arg(0), t.arg(1)

                def mk():
                    c = []
                    if nm == 'BOR':
                        c += [z3.Implies(x == 0, t == y), z3.Implies(y == 0, t == x),
                              z3.Implies(z3.And(x >= 0, y >= 0), z3.And(t >= x, t >= y, t <= x + y)),
                              z3.Implies(x == y, t == x)]
                        for k in range(1, 33):
                            K = 1 << k
                            if k > 8 and k not in (12, 16, 24, 32):
                                continue
                            c.append(z3.Implies(z3.And(x % K == 0, 0 <= y, y < K), t == x + y))
                            c.append(z3.Implies(z3.And(y % K == 0, 0 <= x, x < K), t == x + y))
                            c.append(z3.Implies(z3.And(0 <= x, x < K, 0 <= y, y < K), t < K))
                        for p in p2:
                            c.append(z3.Implies(z3.And(p.arg(0) >= 0, MODF(x, p) == 0, 0 <= y, y < p), t == x + y))
                            c.append(z3.Implies(z3.And(p.arg(0) >= 0, MODF(y, p) == 0, 0 <= x, x < p), t == x + y))
                            c.append(z3.Implies(z3.And(p.arg(0) >= 0, 0 <= x, x < p, 0 <= y, y < p), t < p))
                    elif nm == 'BAND':
                        c += [z3.Implies(z3.And(x >= 0, y >= 0), z3.And(t >= 0, t <= x, t <= y)),
                              z3.Implies(x == 0, t == 0), z3.Implies(y == 0, t == 0)]
                    else:
                        c += [z3.Implies(x == 0, t == y), z3.Implies(y == 0, t == x), z3.Implies(x == y, t == 0),
                              z3.Implies(z3.And(x >= 0, y >= 0), z3.And(t >= 0, t <= x + y))]
                    return z3.And(c)
                emit(('o', t.get_id()), mk)
        if not new:
            break
        ax += new
        if not deep:
            break
    return ax


class Obl:
    __slots__ = ('name', 'status', 'secs', 'backend', 'detail', 'model', 'where')

    def __init__(self, name, status, secs, backend, detail='', model=None, where=''):
        self.name, self.status, self.secs, self.backend = name, status, secs, backend
        self.detail, self.model, self.where = detail, model, where


class LoopSpec:
    """Invariant of one loop.

    inv(L)      -> list of (label, z3 Bool) over L (locals by name) and the heap
    variant(L)  -> z3 Int, or None
    havoc(L)    -> optional dict name -> value, overriding the inferred havoc
    pre(L)      -> optional; called before the first head, may replace locals
    """

    def __init__(self, inv=None, variant=None, havoc=None, pre=None, modifies=None, after=None):
        self.inv, self.variant, self.havoc, self.pre = inv, variant, havoc, pre
        self.modifies = modifies
        self.after = after


class CountFrom(Sym):
    """itertools.count(a): endless"""
    endless = True

    def __init__(self, a):
        self.a = a

    def sym_item(self, i):
        return mkint(zint(self.a) + zint(i))


class LoopCtl:
    def __init__(self, lid, kind, it=None):
        self.lid, self.kind = lid, kind
        self.spec = RT.loop_spec(lid) if RT.active else None
        self.count = 0
        self.vals = None
        self.item = None
        self.symit = None
        self.state = 0
        self.nat = None
        self.idx = None
        if kind == 'for':
            if self.spec is not None:
                self.symit = RT.sym_iterable(it)
                if self.symit is None:
                    self.nat = iter(it)
                    self.spec = None
                else:
                    self.idx = 0
            else:
                self.nat = iter(RT.iter_native(it))
        if self.spec is not None:
            RT.loops_cut.add(lid)

    def cut(self, loc, names):
        if not RT.active:
            return False
        self.count += 1
        if self.spec is None:
            if self.count > RT.max_iter:
                raise Unsupported('loop %s: more than %d iterations without an invariant' % (self.lid, RT.max_iter))
            return False
        if self.state == 0:
            self.state = 1
            self.vals = RT.loop_first(self, loc, names)
            return True
        RT.loop_again(self, loc, names)
        raise PathEnd()

    def more(self):
        if self.nat is not None:
            try:
                self.item = next(self.nat)
                return True
            except StopIteration:
                return False
        if getattr(self.symit, 'endless', False):
            self.item = RT.sym_item(self.symit, self.idx)
            self.idx = self.idx + 1
            return True
        n = zint(RT.len_(self.symit))
        if RT.branch(z3.simplify(zint(self.idx) < n)):
            self.item = RT.sym_item(self.symit, self.idx)
            self.idx = self.idx + 1
            return True
        return False


class Rt:
    def __init__(self):
        self.active = False
        self.dead = False
        self.unroll = 40
        self.max_iter = 400
        self.models = {}
        self.contracts = {}        # qualname -> callable(*args) modelling the callee
        self.target = None
        self.loops = {}
        self.reset_run()
        self.timeout = 8000
        self.given_up = 0
        self.obls = []
        self.loops_cut = set()
        self.called = set()
        self.applied = set()
        self.trusted = set()
        self.solver_time = 0.0

    def reset_run(self):
        self.pc = []
        self.facts = []
        self.decisions = []
        self.prefix = []
        self.pending = []
        self.n = 0
        self.dead = False
        self.depth = 0
        self.solver = None
        self.dyn_models = {}
        self.roots = []
        self.values = {}
        self.ghost = {}
        self.p2known = {}

    # ---- fresh symbols
    def freshname(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def int(self, base='i'):
        return SInt(z3.Int(self.freshname(base)))

    def bool(self, base='b'):
        return SBool(z3.Bool(self.freshname(base)))

    def input_int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        self.values[name] = v
        return SInt(v)

    # ---- path condition
    def assume(self, c):
        c = zbool(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(s):
            self.kill()

    def fact(self, c):
        """a theorem (lemma instance): used in proofs only, not in feasibility"""
        self.facts.append(zbool(c))

    def kill(self):
        self.dead = True
        raise PathEnd()

    def check(self, *cs, timeout=1500):
        t = time.time()
        self.solver.set('timeout', timeout)
        ax = axioms(self.pc + list(cs) + self.facts, deep=False)
        r = self.solver.check(*(list(cs) + ax + self.facts))
        self.solver_time += time.time() - t
        return r

    def feasible(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(c) != z3.unsat

    def entails(self, c):
        c = z3.simplify(zbool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.dead:
            return True
        key = ('ent', c.get_id(), len(self.pc), len(self.facts))
        if key in self.p2known:
            return self.p2known[key][0]
        r = self.check(z3.Not(c), timeout=1000) == z3.unsat
        self.p2known[key] = (r, c)
        return r

    def branch(self, c):
        if self.dead:
            raise PathEnd()
        c = z3.simplify(zbool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            if k > 400:
                raise Unsupported('path too long')
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if t and f:
                self.pending.append(self.decisions + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                self.kill()
        self.decisions.append(d)
        cc = c if d else z3.Not(c)
        self.pc.append(cc)
        self.solver.add(cc)
        return d

    def choice(self, opts, label=''):
        """finite nondeterministic choice, explored exhaustively"""
        if self.dead:
            raise PathEnd()
        opts = list(opts)
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for j in range(1, len(opts)):
                self.pending.append(self.decisions + [j])
        self.decisions.append(d)
        if label:
            self.values[label] = opts[d]
        return opts[d]

    # ---- obligations
    def prove(self, goal, name):
        if self.dead:
            raise PathEnd()
        goal = zbool(goal)
        if len(self.decisions) < len(self.prefix):
            return True
        name = '%s/%s' % (self.unit, name)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.obls.append(Obl(name, 'proved', 0.0, 'simplify'))
            return True
        t = time.time()
        st, be, model = self.solve(goal)
        dt = time.time() - t
        self.solver_time += dt
        self.obls.append(Obl(name, st, dt, be, where=str(self.decisions)))
        o = self.obls[-1]
        if st != 'proved':
            o.model = model
            o.detail = 'goal: %s' % str(g)[:600]
            if model is not None:
                o.model = {}
                for nm, v in self.values.items():
                    o.model[nm] = self.eval_value(model, v)
            else:
                o.model = {nm: v for nm, v in self.values.items() if not z3.is_expr(v)}
            if os.environ.get('PYVC_DEBUG'):
                print('FAILED', name, st, be)
                print('  goal', g)
                for c in self.pc:
                    print('   pc', c)
                for c in self.facts:
                    print('   fact', c)
                print('  model', model)
        self.pc.append(goal)
        self.solver.add(goal)
        return st == 'proved'

    def eval_value(self, model, v):
        if callable(v) and not z3.is_expr(v):
            try:
                return v(lambda e: _mv(model, e))
            except Exception as e:
                return 'eval error %s' % e
        if z3.is_expr(v):
            return _mv(model, v)
        return v

    def solve(self, goal):
        asm = self.pc + self.facts + [z3.Not(goal)]
        goal_vars = None
        ax = axioms(asm, deep=False)
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*asm)
        s.add(*ax)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None
        m0 = s.model() if r == z3.sat else None
        ax = axioms(asm, deep=True)
        s = z3.Solver()
        # patient at first (a loaded machine); not once several obligations were given up
        timeout = self.timeout if self.given_up >= 3 else max(self.timeout, 25000)
        s.set('timeout', timeout)
        s.add(*asm)
        s.add(*ax)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'failed', 'z3', s.model()
        m = None
        # second opinion
        st = external(s, self.timeout / 1000.0 * 2)
        if st:
            return 'proved', st, None
        self.given_up += 1
        return 'unknown', 'z3+cvc5', m0

    def cover(self, name):
        """the current point must be reachable"""
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.pc)
        s.add(*axioms(self.pc, deep=True))
        r = s.check()
        k = '%s/%s' % (self.unit, name)
        cur = self.covers.get(k, 'unsat')
        rank = {'unsat': 0, 'unknown': 1, 'sat': 2}
        if rank[str(r)] > rank[cur]:
            self.covers[k] = str(r)
        elif k not in self.covers:
            self.covers[k] = str(r)

    # ---- arithmetic
    def nonneg(self, k):
        return self.entails(k >= 0)

    def p2(self, k):
        k = z3.simplify(k)
        if z3.is_int_value(k):
            v = k.as_long()
            if v < 0:
                raise Unsupported('negative power of two')
            if v > 100000:
                raise Unsupported('huge power of two')
            return 1 << v
        if not self.nonneg(k):
            if not self.branch(k >= 0):
                raise Unsupported('2**negative')
        # fold a positive constant offset when the rest is known non-negative
        c = const_part(k)
        if c > 0 and c <= 64:
            rest = z3.simplify(k - c)
            if self.nonneg(rest):
                return mkint((1 << c) * P2F(rest))
        return SInt(P2F(k))

    def lshift(self, a, k):
        k = z3.simplify(k)
        if not self.nonneg(k) and self.branch(k < 0):
            raise ValueError('negative shift count')
        return mkint(zmul(a, zint(self.p2(k))))

    def rshift(self, a, k):
        k = z3.simplify(k)
        if not self.nonneg(k) and self.branch(k < 0):
            raise ValueError('negative shift count')
        p = zint(self.p2(k))
        return self.divmod_(a, p)[0]

    def divmod_(self, a, d):
        a, d = z3.simplify(a), z3.simplify(d)
        if z3.is_int_value(d):
            v = d.as_long()
            if v == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if v > 0:
                return mkint(a / d), mkint(a % d)
            # floor semantics with a negative divisor
            q = (-a) / iv(-v)
            return mkint(q), mkint(a - q * v)
        if not self.entails(d > 0):
            if self.branch(d == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            if self.branch(d < 0):
                raise Unsupported('division by a negative symbolic divisor')
        # exact polynomial quotient: a = q*d + r with r free of d
        return mkint(DIVF(a, d)), mkint(MODF(a, d))

    def band(self, a, b):
        for x, m in ((a, b), (b, a)):
            m = z3.simplify(m)
            if z3.is_int_value(m):
                v = m.as_long()
                if v == 0:
                    return 0
                if v > 0:
                    lo = (v & -v).bit_length() - 1
                    run = v >> lo
                    if run & (run + 1) == 0:
                        w = run + 1
                        if lo == 0:
                            return mkint(x % w)
                        return mkint(((x / (1 << lo)) % w) * (1 << lo))
                    # sum over runs
                    tot = iv(0)
                    pos = 0
                    while v:
                        while not v & 1:
                            v >>= 1
                            pos += 1
                        n = 0
                        while v & 1:
                            v >>= 1
                            n += 1
                        tot = tot + ((x / (1 << pos)) % (1 << n)) * (1 << pos)
                        pos += n
                    return mkint(tot)
                if v < 0:
                    # x & ~m' = x - (x & m')
                    r = self.band(x, iv(~v))
                    return mkint(x - zint(r))
        for x, m in ((a, b), (b, a)):
            mm = simp(m + 1)
            pm = self.as_p2(mm)
            if pm is not None:
                return self.divmod_(x, pm)[1]
            pm = self.as_p2(simp(m))
            if pm is not None:
                q = self.divmod_(x, pm)[0]
                return mkint(zmul(zint(q % 2), pm))
        return SInt(BANDF(a, b))

    def as_p2(self, e):
        """e is syntactically c*P2(k) with c a power of two: returns e"""
        e = z3.simplify(e)
        if e.decl().eq(P2F):
            return e
        if e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            c = e.arg(0).as_long()
            if c > 0 and c & (c - 1) == 0 and e.arg(1).decl().eq(P2F):
                return e
        return None

    def bor(self, a, b):
        if z3.is_int_value(a) and a.as_long() == 0:
            return mkint(b)
        if z3.is_int_value(b) and b.as_long() == 0:
            return mkint(a)
        # disjoint bits: the sum
        for x, y in ((a, b), (b, a)):
            if z3.is_int_value(y) and y.as_long() > 0:
                v = y.as_long()
                low, top = v & -v, 1 << v.bit_length()
                if self.entails(z3.And(x >= 0, x < low)) or self.entails(x % top == 0):
                    return mkint(a + b)
        if not (z3.is_int_value(a) or z3.is_int_value(b)):
            for k in (4, 1, 2, 3, 5, 6, 7, 8, 16, 24):
                for x, y in ((a, b), (b, a)):
                    if self.entails(z3.And(x % (1 << k) == 0, y >= 0, y < (1 << k))):
                        return mkint(a + b)
        return SInt(BORF(a, b))

    def bxor(self, a, b):
        for x, m in ((a, b), (b, a)):
            if z3.is_int_value(m):
                v = m.as_long()
                if v == 0:
                    return mkint(x)
                if v > 0:
                    return mkint(x + v - 2 * zint(self.band(x, m)))
        return SInt(BXORF(a, b))

    def truediv(self, a, b):
        h = self.models.get('truediv')
        if h:
            return h(a, b)
        raise Unsupported('true division')

    def model(self, name, *args, **kw):
        h = self.dyn_models.get(name) or self.models.get(name)
        if h is None:
            raise Unsupported('no model for %s' % name)
        self.trusted.add(name)
        return h(*args, **kw)

    # ---- containers
    def len_(self, x):
        if hasattr(x, 'len_'):
            return x.len_()
        return builtins.len(x)

    def iter_native(self, it):
        return it

    def sym_iterable(self, it):
        if isinstance(it, (SList, SBytes, SRange)):
            return it
        if isinstance(it, range):
            return SRange(it.start, it.stop, it.step)
        if isinstance(it, (list, tuple)):
            return None
        if hasattr(it, 'sym_item'):
            return it
        if type(it) is itertools.count:
            a = it.__reduce__()[1]
            if len(a) == 1 or a[1] == 1:
                return CountFrom(a[0])
        return None

    def sym_item(self, it, i):
        if hasattr(it, 'sym_item'):
            return it.sym_item(i)
        if isinstance(it, SRange):
            return it.item(i)
        if isinstance(it, (SList, SBytes)):
            return it.q.at(zint(i))
        if isinstance(it, (list, tuple)):
            return it[i]
        raise Unsupported('iteration')

    # ---- loops
    def loop_spec(self, lid):
        return self.loops.get(lid)

    def loop_env(self, ctl, loc):
        L = dict(loc)
        if ctl.idx is not None:
            L['_idx'] = ctl.idx
            L['_it'] = ctl.symit
        e = Env(L)
        e._mod = getattr(ctl, 'mod', [])
        return e

    def loop_first(self, ctl, loc, names):
        spec = ctl.spec
        short = ctl.lid.split(':')[-1]
        loc = dict(loc)
        if spec.pre:
            r = spec.pre(Env(loc))
            if r:
                loc.update(r)
        ctl.mod = [nm for nm in names if nm in loc and isinstance(loc[nm], (int, SInt))
                   and not isinstance(loc[nm], bool)]
        snap0 = self.snapshot(loc)
        ctl.entry = dict(loc)
        L = self.loop_env(ctl, loc)
        L._old = Env(dict(loc))
        L._oldheap = snap0
        for lab, c in spec.inv(L):
            self.prove(c, 'loop %s: invariant holds initially: %s' % (short, lab))
        # havoc locals
        over = spec.havoc(L) if spec.havoc else {}
        new = {}
        for nm in names:
            if nm in over:
                new[nm] = over[nm]
            elif nm not in loc:
                new[nm] = UNBOUND
            else:
                new[nm] = self.havoc_like(loc[nm], nm, short)
        # havoc heap
        H = self.havoc_heap.setdefault(ctl.lid, set())
        for oid, path in sorted(H, key=str):
            self.havoc_loc(snap0, oid, path, short)
        if ctl.idx is not None:
            i = self.int('idx')
            self.assume(i.e >= 0)
            if not getattr(ctl.symit, 'endless', False):
                self.assume(i.e <= zint(self.len_(ctl.symit)))
            ctl.idx = i
        loc.update(new)
        L = self.loop_env(ctl, loc)
        L._old = Env(dict(ctl.entry))
        L._oldheap = snap0
        for lab, c in spec.inv(L):
            self.assume(c)
        if spec.after:
            spec.after(L)       # lemmas; may replace a value by an equal expression
            for nm in names:
                if nm in L._d:
                    loc[nm] = L._d[nm]
        ctl.snap = self.snapshot(loc)
        ctl.var0 = None
        if spec.variant:
            ctl.var0 = spec.variant(L)
        ctl.oldenv = L._old
        self.depth += 1
        return tuple(loc.get(nm, UNBOUND) for nm in names)

    def loop_again(self, ctl, loc, names):
        spec = ctl.spec
        short = ctl.lid.split(':')[-1]
        if self.dead:
            raise PathEnd()
        # frame: everything that changed must have been havocked
        snap = self.snapshot(loc)
        changed = self.snap_diff(ctl.snap, snap)
        H = self.havoc_heap.setdefault(ctl.lid, set())
        if not changed <= H:
            H |= changed
            raise Restart()
        L = self.loop_env(ctl, loc)
        L._old = ctl.oldenv
        for lab, c in spec.inv(L):
            self.prove(c, 'loop %s: invariant preserved: %s' % (short, lab))
        if spec.variant:
            v = spec.variant(L)
            self.prove(z3.And(zint(ctl.var0) >= 0, zint(v) < zint(ctl.var0)),
                       'loop %s: variant decreases' % short)

    def havoc_like(self, v, nm, short):
        if isinstance(v, (bool, SBool)):
            return self.bool(nm)
        if isinstance(v, (int, SInt)):
            return self.int(nm)
        if isinstance(v, SBytes) or isinstance(v, bytes):
            return self.bytes(nm)
        if isinstance(v, SList):
            f = z3.Function(self.freshname(nm), I, I)
            n = self.int(nm + '_len')
            self.assume(n.e >= 0)
            v2 = SList(Seq([('arr', f, iv(0), n.e)], v.q.wrap, v.q.unwrap))
            return v2
        if isinstance(v, (Opaque, str)):
            return Opaque(nm)
        if v is UNBOUND:
            return UNBOUND
        if hasattr(v, 'havoc_value'):
            return v.havoc_value()
        raise Unsupported('loop %s: do not know how to havoc local %s of type %s' % (short, nm, type(v).__name__))

    def bytes(self, nm='bytes'):
        f = byte_func(self.freshname(nm))
        n = self.int(nm + '_len')
        self.assume(n.e >= 0)
        return SBytes([('arr', f, iv(0), n.e)])

    # heap snapshots: objects reachable from the roots and the locals
    def snapshot(self, loc):
        snap = {}
        stack = list(loc.values()) + list(self.roots)
        keep = []
        while stack:
            o = stack.pop()
            if id(o) in snap:
                continue
            if isinstance(o, SList):
                snap[id(o)] = (o, o.q)
                for s in o.q.segs:
                    if s[0] == 'lit':
                        stack.extend(s[1])
                continue
            if hasattr(o, 'snap_state') and not isinstance(o, type):
                st = o.snap_state()
                snap[id(o)] = (o, st)
                stack.extend(o.snap_children())
                continue
            t = type(o)
            if t is list or t is tuple:
                snap[id(o)] = (o, list(o))
                stack.extend(o)
            elif t is dict:
                snap[id(o)] = (o, dict(o))
                stack.extend(o.values())
            elif t.__module__.startswith('hachoir.') or getattr(t, '_pyvc_track', False):
                if hasattr(o, '__dict__'):
                    d = dict(o.__dict__)
                    snap[id(o)] = (o, d)
                    stack.extend(d.values())
            elif hasattr(o, '__self__') and callable(o):
                stack.append(o.__self__)
            elif getattr(o, '__closure__', None):
                for c in o.__closure__:
                    try:
                        stack.append(c.cell_contents)
                    except ValueError:
                        pass
        return snap

    def objname(self, o):
        return getattr(o, '_pyvc_name', None) or type(o).__name__

    def snap_diff(self, a, b):
        ch = set()
        for oid, (o, st) in a.items():
            if oid not in b:
                # no longer reachable from locals: still compare its state
                cur = self.snapshot({'x': o}).get(oid)
                if cur is None:
                    continue
                st2 = cur[1]
            else:
                st2 = b[oid][1]
            if isinstance(o, SList):
                if st2 is not st:
                    ch.add((self.okey(a, o), '*'))
            elif isinstance(st, dict):
                for k in set(st) | set(st2):
                    if k not in st or k not in st2 or st[k] is not st2[k]:
                        if k in st and k in st2 and isinstance(st[k], (int, str, bytes, type(None))) and \
                                type(st[k]) is type(st2[k]) and st[k] == st2[k]:
                            continue
                        ch.add((self.okey(a, o), k))
            elif isinstance(st, list):
                if len(st) != len(st2) or any(x is not y for x, y in zip(st, st2)):
                    ch.add((self.okey(a, o), '*'))
            elif st != st2:
                ch.add((self.okey(a, o), '*'))
        return ch

    def okey(self, snap, o):
        # named objects are identified by their name
        nm = getattr(o, '_pyvc_name', None)
        if nm and sum(getattr(x[0], '_pyvc_name', None) == nm for x in snap.values()) == 1:
            return (-2, nm)
        # position in the deterministic traversal identifies the object across runs
        for k, oid in enumerate(snap):
            if oid == id(o):
                return (k, self.objname(o))
        return (-1, self.objname(o))

    def havoc_loc(self, snap, key, path, short):
        k, nm = key
        ids = list(snap)
        if k == -2:
            k = [i for i, x in enumerate(snap.values()) if getattr(x[0], '_pyvc_name', None) == nm]
            if not k:
                return
            k = k[0]
        if k < 0 or k >= len(ids):
            raise Unsupported('loop %s: changes an object unknown at the loop head (%s)' % (short, nm))
        o = snap[ids[k]][0]
        if path == '*':
            if isinstance(o, SList):
                h = self.models.get('slist.havoc')
                if h:
                    h(o)
                    return
                o.q = self.havoc_like(o, nm, short).q
                return
            if hasattr(o, 'havoc'):
                o.havoc()
                return
            raise Unsupported('loop %s: native container %s is modified' % (short, nm))
        cur = o.__dict__.get(path, None)
        h = getattr(o, '_pyvc_havoc', None)
        if h is not None:
            r = h(path)
            if r is not NotImplemented:
                o.__dict__[path] = r
                return
        o.__dict__[path] = self.havoc_like(cur, path, short)

    # ---- exploration
    def explore(self, unit, body, max_paths=4000, deadline=None):
        """body() is run once per path"""
        self.unit = unit
        self.covers = getattr(self, 'covers', {})
        self.havoc_heap = {}
        obl_mark = len(self.obls)
        while True:
            work = [[]]
            npaths = 0
            try:
                while work:
                    pre = work.pop()
                    npaths += 1
                    if npaths > max_paths:
                        raise Unsupported('more than %d paths' % max_paths)
                    if deadline and time.time() > deadline:
                        raise Unsupported('time budget exhausted')
                    self.reset_run()
                    self.prefix = pre
                    self.pending = []
                    self.solver = z3.Solver()
                    self.active = True
                    try:
                        body()
                    except PathEnd:
                        pass
                    finally:
                        self.active = False
                    work.extend(self.pending)
                return npaths
            except Restart:
                self.active = False
                del self.obls[obl_mark:]
                continue


class Restart(BaseException):
    pass


class Env:
    """attribute access to the locals at a loop head"""

    def __init__(self, d):
        self.__dict__['_d'] = d

    def __getattr__(self, n):
        try:
            return self._d[n]
        except KeyError:
            raise Unsupported('loop invariant refers to local %r which does not exist' % n)

    def __setattr__(self, n, v):
        if n.startswith('_'):
            self.__dict__[n] = v
        else:
            self._d[n] = v

    def get(self, n, d=None):
        return self._d.get(n, d)


def const_part(k):
    if z3.is_int_value(k):
        return k.as_long()
    if k.decl().kind() == z3.Z3_OP_ADD:
        for c in k.children():
            if z3.is_int_value(c):
                return c.as_long()
    return 0


def _mv(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return str(v)


def external(s, secs):
    """ask cvc5 with the same assertions; returns backend name if unsat"""
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000), f.name],
                           capture_output=True, text=True, timeout=secs + 5)
        if r.stdout.strip().startswith('unsat'):
            return 'cvc5'
    except Exception:
        pass
    finally:
        try:
            os.unlink(f.name)
        except OSError:
            pass
    return None


RT = Rt()
