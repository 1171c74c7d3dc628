"""Specification functions shared by the contracts, their lemmas, and the
assumed contracts of Python builtins."""
import z3
from pyvc.core import (RT, Opaque, SInt, SBytes, SList, SBool, Seq, Sym, Unsupported, mkint, mkbool, zint, zbool, iv, P2F,
                       MULF, DIVF, MODF, zmul, byte_func, concrete_bytes, axioms, wrap_int)
from pyvc.contract import Lemma, Unit, expect, run_target

I = z3.IntSort()


class Content:
    """An arbitrary byte content, as a function index -> byte, with its
    number-valued specification functions."""
    REG = {}

    def __init__(self, name, family=None):
        self.name = name
        self.C = byte_func(name)
        self.Nbe = z3.Function('Nbe_' + name, I, I, I)   # bits [a, a+n) read most significant first
        self.Nle = z3.Function('Nle_' + name, I, I, I)   # bits [a, a+n) read least significant first
        self.Fbe = z3.Function('Fbe_' + name, I, I, I)   # bytes [b, b+l) as a big endian number
        self.Fle = z3.Function('Fle_' + name, I, I, I)
        Content.REG[name] = self
        C, Nbe, Nle, Fbe, Fle = self.C, self.Nbe, self.Nle, self.Fbe, self.Fle
        nm = name

        def bitbe(j):
            r = C(j / 8)
            e = r % 2
            for k in range(1, 8):
                e = z3.If(j % 8 == 7 - k, (r / (1 << k)) % 2, e)
            return e

        def bitle(j):
            r = C(j / 8)
            e = (r / 128) % 2
            for k in range(0, 7):
                e = z3.If(j % 8 == k, (r / (1 << k)) % 2, e)
            return e
        self.bitbe, self.bitle = bitbe, bitle

        # definitions (unfoldings) of the specification functions
        def dNbe(a, n):     # unfold at n+1
            return [Nbe(a, iv(0)) == 0,
                    z3.Implies(n >= 0, Nbe(a, z3.simplify(n + 1)) == 2 * Nbe(a, n) + bitbe(z3.simplify(a + n)))]

        def dNle(a, n):
            return [Nle(a, iv(0)) == 0,
                    z3.Implies(n >= 0, Nle(a, z3.simplify(n + 1)) == Nle(a, n) + zmul(bitv(a, n), P2F(n)) if False
                               else Nle(a, z3.simplify(n + 1)) == Nle(a, n) +
                               z3.If(bitle(z3.simplify(a + n)) == 1, P2F(n), iv(0)))]

        def dFbe(b, l):
            return [Fbe(b, iv(0)) == 0,
                    z3.Implies(l >= 0, Fbe(b, z3.simplify(l + 1)) == 256 * Fbe(b, l) + C(z3.simplify(b + l)))]

        def dFle(b, l):
            return [Fle(b, iv(0)) == 0,
                    z3.Implies(l >= 0, Fle(b, z3.simplify(l + 1)) == Fle(b, l) +
                               zmul(C(z3.simplify(b + l)), P2F(8 * l)))]
        self.dNbe, self.dNle, self.dFbe, self.dFle = dNbe, dNle, dFbe, dFle

        def u_split_be(a, m, n, step=False):
            return dNbe(a, z3.simplify(m + n)) + dNbe(z3.simplify(a + m), n) + [P2F(n + 1) == 2 * P2F(n)] if step \
                else dNbe(a, m) + dNbe(z3.simplify(a + m), n) + [P2F(iv(0)) == 1]
        self.split_be = Lemma(
            nm + ':bits be split', 3,
            lambda a, m, n: Nbe(a, z3.simplify(m + n)) == zmul(Nbe(a, m), P2F(n)) + Nbe(z3.simplify(a + m), n),
            pre=lambda a, m, n: m >= 0, induct=2, uses=u_split_be)
        self.range_be = Lemma(
            nm + ':bits be range', 2, lambda a, n: z3.And(Nbe(a, n) >= 0, Nbe(a, n) < P2F(n)), induct=1,
            uses=lambda a, n, step=False: dNbe(a, n) + ([P2F(n + 1) == 2 * P2F(n)] if step else [P2F(iv(0)) == 1]))
        self.byte_be = Lemma(
            nm + ':bits be of a byte', 1, lambda j: Nbe(8 * j, iv(8)) == C(j),
            uses=lambda j: sum([dNbe(8 * j, iv(k)) for k in range(8)], []) + [
                bitbe(z3.simplify(8 * j + k)) == (C(j) / (1 << (7 - k))) % 2 for k in range(8)])
        self.bit_be = Lemma(nm + ':bit be in byte', 1,
                            lambda j: z3.And(*[bitbe(z3.simplify(8 * j + k)) == (C(j) / (1 << (7 - k))) % 2
                                               for k in range(8)]))
        self.bytes_be = Lemma(
            nm + ':bytes be', 2, lambda b, l: Fbe(b, l) == Nbe(8 * b, 8 * l), induct=1,
            uses=lambda b, l, step=False: (
                [self.split_be.inst(8 * b, 8 * l, iv(8)), self.byte_be.inst(z3.simplify(b + l)),
                 Nbe(z3.simplify(8 * b + 8 * l), iv(8)) == Nbe(z3.simplify(8 * (b + l)), iv(8)), P2F(iv(8)) == 256] +
                dFbe(b, l)) if step else dFbe(b, l) + dNbe(8 * b, iv(0)))
        self.frange_be = Lemma(
            nm + ':bytes be range', 2, lambda b, l: z3.And(Fbe(b, l) >= 0, Fbe(b, l) < P2F(8 * l)), induct=1,
            uses=lambda b, l, step=False: [self.bytes_be.inst(b, l if not step else l + 1),
                                           self.range_be.inst(8 * b, 8 * l if not step else 8 * l + 8)])
        self.split_le = Lemma(
            nm + ':bits le split', 3,
            lambda a, m, n: Nle(a, z3.simplify(m + n)) == Nle(a, m) + zmul(P2F(m), Nle(z3.simplify(a + m), n)),
            pre=lambda a, m, n: m >= 0, induct=2,
            uses=lambda a, m, n, step=False: dNle(a, z3.simplify(m + n)) + dNle(z3.simplify(a + m), n) +
            [P2F(z3.simplify(m + n)) == MULF(P2F(m), P2F(n)),
             MULF(P2F(m), Nle(z3.simplify(a + m), z3.simplify(n + 1))) ==
             zmul(P2F(m), Nle(z3.simplify(a + m), n) + z3.If(bitle(z3.simplify(a + m + n)) == 1, P2F(n), iv(0)))
             ] + [z3.Implies(bitle(z3.simplify(a + m + n)) == 1,
                             zmul(P2F(m), Nle(z3.simplify(a + m), z3.simplify(n + 1))) ==
                             zmul(P2F(m), Nle(z3.simplify(a + m), n)) + P2F(z3.simplify(m + n))),
                  z3.Implies(bitle(z3.simplify(a + m + n)) != 1,
                             zmul(P2F(m), Nle(z3.simplify(a + m), z3.simplify(n + 1))) ==
                             zmul(P2F(m), Nle(z3.simplify(a + m), n)))] if step else dNle(z3.simplify(a + m), n) +
            dNle(a, m))
        self.range_le = Lemma(
            nm + ':bits le range', 2, lambda a, n: z3.And(Nle(a, n) >= 0, Nle(a, n) < P2F(n)), induct=1,
            uses=lambda a, n, step=False: dNle(a, n) + ([P2F(n + 1) == 2 * P2F(n)] if step else [P2F(iv(0)) == 1]))
        self.byte_le = Lemma(
            nm + ':bits le of a byte', 1, lambda j: Nle(8 * j, iv(8)) == C(j),
            uses=lambda j: sum([dNle(8 * j, iv(k)) for k in range(8)], []) + [
                bitle(z3.simplify(8 * j + k)) == (C(j) / (1 << k)) % 2 for k in range(8)])
        self.bytes_le = Lemma(
            nm + ':bytes le', 2, lambda b, l: Fle(b, l) == Nle(8 * b, 8 * l), induct=1,
            uses=lambda b, l, step=False: (
                [self.split_le.inst(8 * b, 8 * l, iv(8)), self.byte_le.inst(z3.simplify(b + l)),
                 Nle(z3.simplify(8 * b + 8 * l), iv(8)) == Nle(z3.simplify(8 * (b + l)), iv(8)),
                 zmul(P2F(8 * l), Nle(z3.simplify(8 * b + 8 * l), iv(8))) == zmul(C(z3.simplify(b + l)), P2F(8 * l))
                 ] + dFle(b, l)) if step else dFle(b, l) + dNle(8 * b, iv(0)))


        if family:
            # same statements about another function symbol: the lemmas of the family are proved
            for v in list(self.__dict__.values()):
                if isinstance(v, Lemma):
                    Lemma.ALL.pop(v.name, None)
                    v.name = family + v.name[len(name):]


CC = Content('C')           # stream content
CM = Content('Cme')         # the same content with the bytes of each 16-bit word exchanged


def swap1(j):
    return z3.If(j % 2 == 0, j + 1, j - 1)


def m_from_bytes(data, order='big', signed=False):
    """ASSUMED contract of int.from_bytes (unsigned)."""
    if signed:
        raise Unsupported('int.from_bytes(signed=True)')
    if isinstance(data, (list, tuple)):
        data = SBytes([('lit', tuple(data))])
    tot = iv(0)
    segs = data.q.segs
    if order == 'little':
        segs = list(reversed(segs))
    elif order != 'big':
        raise ValueError("byteorder must be either 'little' or 'big'")
    for s in segs:
        if s[0] == 'lit':
            vs = s[1] if order == 'big' else reversed(s[1])
            for v in vs:
                tot = tot * 256 + zint(v)
        else:
            c = Content.REG.get(getattr(s[1], 'name', lambda: None)())
            if c is None:
                raise Unsupported('int.from_bytes of an unknown content')
            f = c.Fbe if order == 'big' else c.Fle
            t = f(s[2], s[3])
            if z3.is_int_value(tot) and tot.as_long() == 0:
                tot = t
            else:
                tot = zmul(tot, zint(RT.p2(8 * s[3]))) + t
    return mkint(tot)


RT.models['int.from_bytes'] = m_from_bytes


def div_unique(a, d, X, Y):
    """theorem of Euclidean division: a = X*d + Y, 0 <= Y < d  =>  a//d = X, a%d = Y"""
    RT.fact(z3.Implies(z3.And(d > 0, a == zmul(X, d) + Y, 0 <= Y, Y < d), z3.And(DIVF(a, d) == X, MODF(a, d) == Y)))


class SymStr(Sym):
    """opaque text"""
    is_text = True


def obj(cls, **attrs):
    o = cls.__new__(cls)
    o.__dict__.update(attrs)
    RT.roots.append(o)
    return o


def quiet(cls_path='hachoir.core.log'):
    """logging has no effect on the properties: assumed contract (no effect)"""


def nolog(*a, **k):
    return None


LOG_CALLS = {q: nolog for q in (
    'hachoir.core.log:Logger.info', 'hachoir.core.log:Logger.warning', 'hachoir.core.log:Logger.error',
    'hachoir.core.error:info', 'hachoir.core.error:warning', 'hachoir.core.error:error')}


class JoinList(Sym):
    """a list of byte strings which is only extended and joined with b'': its concatenation"""
    _pyvc_name = 'chunks'

    def __init__(self):
        self.total = SBytes([])

    def snap_state(self):
        return self.total

    def snap_children(self):
        return []

    def havoc(self):
        self.total = RT.bytes('joined')

    def havoc_value(self):
        self.havoc()
        return self

    def append(self, v):
        self.total = SBytes(self.total.q.cat(SBytes.lift(v).q))

    def extend(self, l):
        for v in l:
            self.append(v)

    def __iadd__(self, l):
        self.extend(l)
        return self


def m_bytes_join(sep, l):
    if sep == b'' and isinstance(l, JoinList):
        return l.total
    raise Unsupported('bytes.join')


RT.models['bytes.join'] = m_bytes_join


def same_bytes(data, n, elem, what, label=''):
    """obligations: data has n bytes and its j-th byte is elem(j), for every j"""
    data = SBytes.lift(data)
    RT.prove(data.q.length() == n, what + ': exactly the requested number of bytes')
    j = z3.Int(RT.freshname('any_index'))
    t = data.q.term(j)
    if t is None:
        return
    RT.prove(z3.Implies(z3.And(0 <= j, j < n), t == elem(j)), what + ': exactly the bytes of the window')


class TextList(Sym):
    """a list of texts which is only extended and joined (messages): nothing is known of it"""
    _pyvc_name = 'messages'

    def snap_state(self):
        return ()

    def snap_children(self):
        return []

    def append(self, v):
        pass

    extend = append

    def __iadd__(self, v):
        return self


def m_str_join(sep, l):
    if isinstance(l, TextList):
        return Opaque('text')
    raise Unsupported('str.join')


RT.models['str.join'] = m_str_join
