"""C11: integer, byte and bit conversions."""
import z3
from pyvc.core import (RT, SInt, SBool, SBytes, SList, Seq, LoopSpec, Sym, mkint, mkbool, zint, zbool, iv, P2F, MULF, DIVF, MODF, zmul,
                       Unsupported, concrete_bytes)
from pyvc.contract import Unit, Lemma, expect
from contracts import lib
from contracts.lib import Content, m_from_bytes
from contracts import c01

PROP = 'C11'
I = z3.IntSort()
BITS = 'hachoir.core.bits:'


def is_int(r):
    return isinstance(r, (int, SInt)) and not isinstance(r, (bool, SBool))


def b_swap(name, nbytes):
    def body():
        import hachoir.core.bits as m
        # every number of the width, given by its bytes (b0 least significant)
        b = [RT.input_int('b%d' % k, 0, 255).e for k in range(nbytes)]
        v = SInt(z3.simplify(z3.Sum([b[k] * (1 << 8 * k) for k in range(nbytes)])))
        RT.values['value'] = v.e
        for k in range(nbytes):
            RT.prove((v.e / (1 << 8 * k)) % 256 == b[k], 'digit %d' % k)
        w = z3.simplify(z3.Sum([b[k] * (1 << 8 * (nbytes - 1 - k)) for k in range(nbytes)]))
        kind, r = expect(BITS + name, getattr(m, name), v)
        RT.prove(kind == 'ret' and is_int(r), name + ' returns an integer')
        RT.cover('returned')
        RT.prove(zint(r) == w, name + ' exchanges exactly the bytes')
        # "undoes itself" is this same contract instantiated at the exchanged bytes
    return body


# ---------------------------------------------------------------- countBits
def cb_num(L, n):
    v = L.get(n)
    if v is None:
        raise Unsupported('countBits: local %s' % n)
    return zint(v)


def cb_inv(outer):
    def inv(L):
        V = RT.ghost['V']
        val, cnt, bits = cb_num(L, 'value'), cb_num(L, 'count'), cb_num(L, 'bits')
        p = P2F(z3.simplify(cnt - 1))
        out = [('bounds', z3.And(val >= 0, cnt >= 1, bits >= 1)),
               ('nothing lost', z3.And(zmul(val, p) <= V, V < zmul(val, p) + p)),
               ('zero', z3.And(z3.Implies(V == 0, z3.And(val == 0, cnt == 1)), z3.Implies(V > 0, val >= 1)))]
        if outer:
            out.append(('the rest fits in the step', val < P2F(bits)))
        return out
    return inv


def cb_after(L):
    """theorem: floor division of val by 2**bits, scaled by 2**(count-1)"""
    V = RT.ghost['V']
    val, cnt, bits = cb_num(L, 'value'), cb_num(L, 'count'), cb_num(L, 'bits')
    for b in (bits, bits / 2):
        RT.fact(z3.Implies(b >= 0, P2F(z3.simplify(cnt + b - 1)) == MULF(P2F(b), P2F(z3.simplify(cnt - 1)))))
        q, r = DIVF(val, P2F(b)), MODF(val, P2F(b))
        p = P2F(z3.simplify(cnt - 1))
        pp = P2F(z3.simplify(cnt + b - 1))
        # val = q*2**b + r  =>  val*p = q*2**b*p + r*p,  0 <= r*p <= (2**b - 1)*p
        RT.fact(z3.Implies(b >= 0, z3.And(
            zmul(val, p) == zmul(q, pp) + zmul(r, p),
            zmul(r, p) >= 0, zmul(r, p) + p <= pp)))


def b_countBits():
    from hachoir.core.bits import countBits
    v = RT.input_int('value', 0)
    RT.ghost['V'] = v.e
    kind, r = expect(BITS + 'countBits', countBits, v)
    RT.prove(kind == 'ret' and is_int(r), 'countBits returns an integer')
    RT.cover('returned')
    n = zint(r)
    RT.prove(n >= 1, 'countBits: at least one bit')
    RT.prove(v.e < P2F(n), 'countBits: the number fits')
    RT.prove(z3.Or(n == 1, P2F(z3.simplify(n - 1)) <= v.e), 'countBits: no smaller length fits')


def cb_var(n):
    return lambda L: cb_num(L, n)


CB = BITS + 'countBits#'
CB_LOOPS = {CB + '0': LoopSpec(cb_inv(False), cb_var('value'), after=cb_after),
            CB + '1': LoopSpec(cb_inv(True), cb_var('bits'), after=cb_after),
            CB + '2': LoopSpec(cb_inv(False), cb_var('value'), after=cb_after)}


# ---------------------------------------------------------------- long2raw
def le_number(seq):
    return zint(m_from_bytes(SBytes(Seq(list(seq.segs), seq.wrap, seq.unwrap)), 'little'))


def fresh_content():
    nm = RT.freshname('txt')
    c = Content.REG.get(nm) or Content(nm, family='C')
    return c


def havoc_bytes(v):
    c = fresh_content()
    n = RT.int('len')
    RT.assume(n.e >= 0)
    v.q = Seq([('arr', c.C, iv(0), n.e)], v.q.wrap, v.q.unwrap)
    c.frange_be.use(iv(0), n.e)
    RT.fact(z3.And(c.Fle(iv(0), n.e) >= 0, c.Fle(iv(0), n.e) < P2F(8 * n.e)))   # lemma frange (range_le + bytes_le)
    c.range_le.use(iv(0), 8 * n.e)
    c.bytes_le.use(iv(0), n.e)


def text_of(L):
    t = [v for k, v in L._d.items() if isinstance(v, SList)]
    if len(t) != 1:
        raise Unsupported('long2raw: one list expected')
    return t[0]


def l2r_inv0(L):
    V = RT.ghost['V']
    t = text_of(L)
    n = t.q.length()
    ints = [zint(L.get(x)) for x in L._mod if x != 'byte']
    if len(ints) != 1:
        raise Unsupported('long2raw: the remaining value expected')
    val = ints[0]
    num = le_number(t.q)
    return [('value', z3.And(val >= 0, V == zmul(val, P2F(8 * n)) + num)),
            ('digits', z3.And(num >= 0, num < P2F(8 * n))),
            ('minimal', z3.Or(n == 0, V >= P2F(8 * n - 8)))]


def l2r_var0(L):
    return [zint(L.get(x)) for x in L._mod if x != 'byte'][0]


def l2r_after0(L):
    t = text_of(L)
    P = P2F(8 * t.q.length())
    for x in L._mod:
        val = zint(L.get(x))
        q, r = val / 256, val % 256
        # product distributes: val = 256*q + r
        RT.fact(zmul(val, P) == 256 * zmul(q, P) + zmul(r, P))
        RT.fact(z3.Implies(P2F(8 * t.q.length()) >= 1, zmul(q, P2F(z3.simplify(8 * t.q.length() + 8))) == 256 * zmul(q, P)))
        RT.fact(z3.And(zmul(r, P) >= 0, zmul(r, P) <= 255 * P))


def l2r_inv1(L):
    V = RT.ghost['V']
    t = text_of(L)
    n = t.q.length()
    num = le_number(t.q)
    out = [('value', num == V), ('range', V < P2F(8 * n))]
    if 'n0' in RT.ghost:
        out.append(('length', n == RT.ghost['n0'] + zint(L._idx)))
    return out


def l2r_pre1(L):
    t = text_of(L)
    RT.ghost['n0'] = t.q.length()


def m_reversed(x):
    """ASSUMED: the reversal of a byte list y: y[i] = x[n-1-i]; its big endian number is the little endian number of x"""
    c = fresh_content()
    n = x.q.length()
    RT.fact(c.Fbe(iv(0), n) == le_number(x.q))
    RT.fact(c.Fle(iv(0), n) == zint(m_from_bytes(SBytes(Seq(list(x.q.segs), x.q.wrap, x.q.unwrap)), 'big')))
    return SList([('arr', c.C, iv(0), n)])


def b_long2raw(endian):
    def body():
        from hachoir.core.bits import long2raw
        import hachoir.core.endian as en
        E = getattr(en, endian)
        v = RT.input_int('value', 0)
        RT.ghost['V'] = v.e
        if RT.choice('size given'):
            size = RT.input_int('size', 0)
        else:
            size = None
            RT.assume(v.e > 0)
        kind, r = expect(BITS + 'long2raw', long2raw, v, E, size)
        RT.prove(kind == 'ret', 'long2raw returns')
        RT.cover('returned')
        if isinstance(r, bytes):
            r = SBytes.lift(r)
        RT.prove(isinstance(r, SBytes), 'long2raw returns bytes')
        n = r.q.length()
        num = zint(m_from_bytes(r, 'little' if endian == 'LITTLE_ENDIAN' else 'big'))
        RT.prove(num == v.e, 'long2raw: the bytes read back as the number')
        s = zint(size) if size is not None else iv(0)
        RT.prove(n >= s, 'long2raw: at least the requested size')
        RT.prove(v.e < P2F(8 * n), 'long2raw: every digit present')
        RT.prove(z3.Or(n == s, n == 0, v.e >= P2F(8 * n - 8)), 'long2raw: no superfluous byte')
        # reads back through the library's own function
        k2, back = expect(BITS + 'str2long', __import__('hachoir.core.bits', fromlist=['x']).str2long,
                          concrete_bytes(r), E)
        RT.prove(k2 == 'ret', 'str2long returns')
        RT.prove(zint(back) == v.e, 'str2long(long2raw(v)) = v')
    return body


LR = BITS + 'long2raw#'
L2R_LOOPS = {LR + '0': LoopSpec(l2r_inv0, l2r_var0, after=l2r_after0),
             LR + '1': LoopSpec(l2r_inv1, pre=l2r_pre1)}


def b_byte2bin():
    from hachoir.core.bits import byte2bin
    ok = True
    for n in range(256):
        want = ''.join('1' if n >> (7 - i) & 1 else '0' for i in range(8))
        for mode, w in ((True, want), (False, want[::-1])):
            r = byte2bin(n, mode)
            if r != w:
                RT.prove(False, 'byte2bin(%d, %s)' % (n, mode))
                ok = False
        if byte2bin(n) != want:
            ok = False
    RT.prove(ok, 'byte2bin: the digits of every byte, in both orders')


# ---------------------------------------------------------------- texts of digits
class Txt(Sym):
    """a text of n characters: character i has the code at(i)"""
    _pyvc_name = 'text'

    def __init__(self, n, at):
        self.n, self.at = z3.simplify(n), at

    @classmethod
    def fresh(cls, what='text'):
        f = z3.Function(RT.freshname(what + '_char'), I, I)
        n = RT.int(what + '_len').e
        RT.assume(n >= 0)
        return cls(n, lambda i: f(i))

    @classmethod
    def lift(cls, v):
        if isinstance(v, Txt):
            return v
        if isinstance(v, str):
            def at(i):
                r = iv(-1)
                for k, ch in enumerate(v):
                    r = z3.If(i == k, iv(ord(ch)), r)
                return r
            return cls(iv(len(v)), at)
        raise Unsupported('a text expected')

    def snap_state(self):
        return (self.n, self.at(z3.Int('any_char')))

    def snap_children(self):
        return []

    def havoc_value(self):
        return Txt.fresh()

    def len_(self):
        return mkint(self.n)

    def bool_(self):
        return mkbool(self.n > 0)

    def __add__(self, o):
        o = Txt.lift(o)
        a, b, n = self.at, o.at, self.n
        return Txt(n + o.n, lambda i: z3.If(i < n, a(i), b(i - n)))

    def __radd__(self, o):
        return Txt.lift(o) + self

    def __getitem__(self, k):
        at, n = self.at, self.n
        if isinstance(k, slice):
            step = 1 if k.step is None else k.step
            if step not in (1, -1):
                raise Unsupported('a step')

            def bound(x, default, low, high):
                if x is None:
                    return default
                x = zint(x)
                x = z3.If(x < 0, x + n, x)
                return z3.If(x < low, low, z3.If(x > high, high, x))
            if step == 1:
                a, b = bound(k.start, iv(0), iv(0), n), bound(k.stop, n, iv(0), n)
                return Txt(z3.If(b > a, b - a, 0), lambda i: at(a + i))
            a, b = bound(k.start, n - 1, iv(-1), n - 1), bound(k.stop, iv(-1), iv(-1), n - 1)
            return Txt(z3.If(a > b, a - b, 0), lambda i: at(a - i))
        i = zint(k)
        i = z3.simplify(z3.If(i < 0, i + n, i))
        if not RT.branch(z3.And(0 <= i, i < n)):
            raise IndexError('string index out of range')
        return Char(at(i))

    def sym_item(self, i):
        return Char(self.at(z3.simplify(zint(i))))

    def sym_isinstance(self, ts):
        return str in ts

    def sym_reversed(self):
        return self[::-1]

    def __eq__(self, o):
        if isinstance(o, str) and o == '':
            return mkbool(self.n == 0)
        raise Unsupported('comparison of texts')

    def __ne__(self, o):
        if isinstance(o, str) and o == '':
            return mkbool(self.n != 0)
        raise Unsupported('comparison of texts')

    __hash__ = object.__hash__


class Char(Txt):
    """one character"""

    def __init__(self, code):
        super().__init__(iv(1), lambda i: code)
        self.code = code

    def ord_(self):
        return mkint(self.code)

    def in_str(self, s):
        return mkbool(z3.Or([self.code == ord(ch) for ch in s]))

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(self.code == ord(o)) if len(o) == 1 else False
        raise Unsupported('comparison of characters')

    def __ne__(self, o):
        r = self.__eq__(o)
        return RT.not_(r) if hasattr(RT, 'not_') else mkbool(z3.Not(zbool(r)))

    __hash__ = object.__hash__


def texts(L, pred=lambda v: True):
    old = getattr(L, '_old', L)._d
    return [k for k, v in old.items() if isinstance(v, (str, Txt)) and pred(v)]


def txt_havoc(L):
    return {k: Txt.fresh() for k in texts(L)}


SH = z3.Function('halved', I, I)        # SH(i): the number halved i times; its i-th binary digit is SH(i) mod 2
DIGIT = z3.Function('digit', I, I)      # digits read by bin2long, in the order of the text


def bit(i):
    return SH(i) % 2


def sh_def(i):
    RT.fact(z3.And(SH(z3.simplify(i + 1)) == SH(i) / 2, SH(i) >= 0))


def only(names, what):
    if len(names) != 1:
        raise Unsupported(what)
    return names[0]


def l2b_inv0(L):
    """the digits in order, least one first"""
    g = RT.ghost
    i = z3.simplify(zint(L._idx))
    t = Txt.lift(L.get(only(texts(L, lambda v: isinstance(v, str) and v == ''), 'long2bin: one text expected')))
    v = [L._d[k] for k, x in getattr(L, '_old', L)._d.items() if isinstance(x, SInt) and x.e.eq(SH(iv(0)))]
    if len(v) != 1:
        raise Unsupported('long2bin: the remaining number expected')
    sh_def(i)
    k = g['bit']
    return [('the digits left', zint(v[0]) == SH(i)),
            ('one character for a digit', t.n == i),
            ('each digit', z3.Implies(z3.And(0 <= k, k < i), t.at(k) == 48 + bit(k)))]


def digit_at(j):
    g = RT.ghost
    return 48 + bit(z3.simplify(j if g['big'] else g['n'] - 1 - j))


def grouped(q):
    """position in the result -> (is it a space, digit of the text)"""
    g = RT.ghost
    b, s = g['b'], g['s']
    ln = z3.If(g['n'] - 8 * b < 8, g['n'] - 8 * b, iv(8))
    return s == 8, (8 * b + ln - 1 - s if g['classic'] else 8 * b + s)


def l2b_roles(L):
    old = getattr(L, '_old', L)._d
    a = only([k for k, v in old.items() if isinstance(v, Txt)], 'long2bin: the text to group expected')
    b = only([k for k, v in old.items() if isinstance(v, str) and v == ''], 'long2bin: the result expected')
    return L._d[a], Txt.lift(L._d[b])


def l2b_inv1(L):
    """groups of eight"""
    g = RT.ghost
    t, r = l2b_roles(L)
    n = g['n']
    c = n - t.n                 # characters consumed
    groups = (c + 7) / 8
    q = g['q']
    sp, j = grouped(q)
    jj = g['j']                 # the digit which goes to position q
    return [('whole groups', z3.And(0 <= t.n, t.n <= n, z3.Or(t.n == 0, c % 8 == 0))),
            ('length', r.n == c + z3.If(groups > 0, groups - 1, 0)),
            ('what is left', z3.Implies(z3.And(c <= jj, jj < n), t.at(jj - c) == digit_at(jj))),
            ('each character', z3.Implies(z3.And(0 <= q, q < r.n), r.at(q) == z3.If(sp, 32, digit_at(jj))))]


def b_long2bin():
    from hachoir.core.bits import long2bin
    import hachoir.core.endian as en
    g = RT.ghost
    g['big'] = RT.choice([True, False], 'big endian')
    g['classic'] = RT.choice([True, False], 'classic')
    v = SInt(SH(iv(0)))
    RT.input_int('value', 0)
    RT.assume(RT.input_int('value', 0).e == v.e)
    n = RT.input_int('size', 0)
    g['n'] = n.e
    q = g['q'] = RT.input_int('position', 0).e
    g['b'], g['s'] = RT.int('group').e, RT.int('place').e
    RT.assume(z3.And(q == 9 * g['b'] + g['s'], 0 <= g['s'], g['s'] < 9))
    sp, j = grouped(q)
    g['j'] = RT.int('digit of the text').e
    RT.assume(g['j'] == j)
    g['bit'] = RT.int('bit').e
    RT.assume(g['bit'] == (g['j'] if g['big'] else g['n'] - 1 - g['j']))
    E = en.BIG_ENDIAN if g['big'] else en.LITTLE_ENDIAN
    args = (n, v, E) + ((g['classic'],) if g['classic'] or RT.choice([True, False], 'given') else ())
    kind, r = expect(BITS + 'long2bin', long2bin, *args)
    RT.prove(kind == 'ret', 'long2bin returns')
    r = Txt.lift(r)
    RT.cover('returned')
    RT.prove(r.n == n.e + z3.If(n.e > 0, (n.e + 7) / 8 - 1, 0), 'long2bin: one character for a digit, a space between groups of eight')
    RT.assume(z3.And(q < r.n))
    RT.cover('a character')
    RT.prove(r.at(q) == z3.If(sp, 32, digit_at(g['j'])), 'long2bin: each character is the binary digit of its place')


def c_digits(it, f, kind):
    """the digits of an arbitrary text: what is kept, and as which number"""
    if not isinstance(it, Txt):
        return NotImplemented
    code = RT.int('any character').e
    RT.assume(z3.And(0 <= code, code < 0x110000))
    out = list(f([Char(code)]))
    isdigit = z3.Or(code == 48, code == 49)
    if out:
        RT.prove(isdigit, 'bin2long: only binary digits are kept')
        RT.prove(z3.And(len(out) == 1, zint(out[0]) == code - 48), 'bin2long: the value of a digit')
    else:
        RT.prove(z3.Not(isdigit), 'bin2long: every binary digit is kept')
    m = RT.input_int('digits', 0).e
    return Digits(m, lambda i: DIGIT(i))


class Digits(Sym):
    """a list of digits"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def snap_state(self):
        return ()

    def snap_children(self):
        return []

    def len_(self):
        return mkint(self.n)

    def bool_(self):
        return mkbool(self.n > 0)

    def sym_item(self, i):
        d = self.at(z3.simplify(zint(i)))
        RT.fact(z3.And(0 <= d, d <= 1))
        return mkint(d)

    def sym_reversed(self):
        return self[::-1]

    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, -1):
            n, at = self.n, self.at
            return Digits(n, lambda i: at(n - 1 - i))
        raise Unsupported('part of the digits')


BE = z3.Function('number_of_first', I, I)     # most important digit first: BE(0) = 0, BE(i+1) = 2 BE(i) + digit(i)
LEN = z3.Function('number_from', I, I)        # least important first: LEN(n) = 0, LEN(i) = digit(i) + 2 LEN(i+1)


def b2l_inv(L):
    g = RT.ghost
    i = z3.simplify(zint(L._idx))
    v = only([k for k, x in getattr(L, '_old', L)._d.items() if type(x) is int and x == 0 and isinstance(L._d[k], (int, SInt))], 'bin2long: the number')
    n = z3.Int('digits')
    RT.fact(z3.And(BE(iv(0)) == 0, BE(z3.simplify(i + 1)) == 2 * BE(i) + DIGIT(i)))
    RT.fact(z3.And(LEN(n) == 0, LEN(z3.simplify(n - i - 1)) == DIGIT(z3.simplify(n - i - 1)) + 2 * LEN(z3.simplify(n - i))))
    return [('the digits read', zint(L._d[v]) == (BE(i) if g['big'] else LEN(z3.simplify(n - i))))]


def b_bin2long():
    from hachoir.core.bits import bin2long
    import hachoir.core.endian as en
    g = RT.ghost
    g['big'] = RT.choice([True, False], 'big endian')
    n = RT.input_int('digits', 0).e
    kind, r = expect(BITS + 'bin2long', bin2long, Txt.fresh(), en.BIG_ENDIAN if g['big'] else en.LITTLE_ENDIAN)
    if kind == 'exc':
        RT.prove(z3.And(isinstance(r, AssertionError), n == 0), 'bin2long: refuses a text without digit only')
        return
    RT.cover('returned')
    RT.prove(zint(r) == (BE(n) if g['big'] else LEN(iv(0))), 'bin2long: the number written by the digits')


def _inverse():
    i, n = z3.Ints('i n')
    # bin2long(LITTLE) of the digits of V is V: descending induction on the position
    return [LEN(n) == 0, SH(n) == 0, 0 <= i, i < n, SH(i) >= 0, SH(i + 1) == SH(i) / 2, DIGIT(i) == bit(i),
            LEN(i) == DIGIT(i) + 2 * LEN(i + 1), LEN(i + 1) == SH(i + 1)], LEN(i) == SH(i)


def b_inverse():
    """the digits which long2bin writes (least first) are read back as the number when it has no more than n digits"""
    hyp, goal = _inverse()
    RT.prove(z3.Implies(z3.And(hyp), goal), 'digits read back: step (the base LEN(n) = SH(n) = 0 is the size hypothesis)')


def c_byte2bin(number, classic_mode=True):
    n = zint(number)
    RT.prove(z3.And(0 <= n, n < 256), 'byte2bin: a byte')
    c = bool(classic_mode)

    def at(i):
        r = iv(-1)
        for k in range(8):
            p = 1 << (7 - k if c else k)
            r = z3.If(i == k, 48 + (n / p) % 2, r)
        return r
    return Txt(iv(8), at)


def s2b_inv(L):
    g = RT.ghost
    i = z3.simplify(zint(L._idx))
    t = Txt.lift(L._d[only(texts(L, lambda v: isinstance(v, str) and v == ''), 'str2bin: the text')])
    q = g['q']
    return [('length', t.n == 9 * i - z3.If(i > 0, 1, 0)), ('each character', z3.Implies(z3.And(0 <= q, q < t.n), t.at(q) == g['want']))]


class Chars(Txt):
    """characters whose codes are bytes"""

    def sym_item(self, i):
        r = super().sym_item(i)
        RT.fact(z3.And(0 <= r.code, r.code < 256))
        return r


def b_str2bin():
    from hachoir.core.bits import str2bin
    g = RT.ghost
    g['classic'] = c = RT.choice([True, False], 'classic')
    f = z3.Function('data', I, I)
    n = RT.input_int('size', 0).e
    v = Chars(n, lambda i: f(i))
    q = g['q'] = RT.input_int('position', 0).e
    b, s = q / 9, q % 9
    g['want'] = z3.If(s == 8, 32, zint(0))
    w = iv(32)
    for k in range(8):
        p = 1 << (7 - k if c else k)
        w = z3.If(s == k, 48 + (f(b) / p) % 2, w)
    g['want'] = w
    kind, r = expect(BITS + 'str2bin', str2bin, v, *((c,) if not c or RT.choice([True, False], 'given') else ()))
    RT.prove(kind == 'ret', 'str2bin returns')
    r = Txt.lift(r)
    RT.cover('returned')
    RT.prove(r.n == 9 * n - z3.If(n > 0, 1, 0), 'str2bin: eight digits for a byte, a space between bytes')
    RT.assume(q < r.n)
    RT.cover('a character')
    RT.prove(r.at(q) == w, 'str2bin: each character is the binary digit of its place')


class Pieces(Sym):
    """a list of texts: whatever was there before, then pieces in order"""
    _pyvc_name = 'pieces'

    def __init__(self, first=()):
        self.first = list(first)    # texts before the pieces
        self.n = iv(0)              # pieces
        self.at = None              # piece k: the character formatted

    def snap_state(self):
        return (self.n, self.at(z3.Int('any_piece')) if self.at else 0, tuple(self.first))

    def snap_children(self):
        return []

    def havoc(self):
        f = z3.Function(RT.freshname('piece'), I, I)
        self.n = RT.int('pieces').e
        RT.assume(self.n >= 0)
        self.at = lambda i: f(i)

    def havoc_value(self):
        self.havoc()
        return self

    def append(self, v):
        if isinstance(v, Formatted):
            n, at = self.n, self.at
            self.n = z3.simplify(n + 1)
            self.at = lambda i: z3.If(i == n, v.code, at(i) if at else iv(-1))
        elif z3.simplify(self.n == 0).eq(z3.BoolVal(True)) and isinstance(v, str):
            self.first.append(v)
        else:
            raise Unsupported('a piece of text')

    def sym_isinstance(self, ts):
        return list in ts


class Formatted(Sym):
    """the format applied to one byte"""

    def __init__(self, code):
        self.code = code


class Joined(Sym):
    def __init__(self, sep, l):
        self.sep, self.l = sep, l


def m_mod(f, x):
    if f == RT.ghost['format'] and isinstance(x, SInt):
        return Formatted(x.e)
    if f == RT.ghost['format'] and isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], SInt):
        return Formatted(x[0].e)
    raise Unsupported('format')


def m_join(sep, l):
    if isinstance(l, Pieces):
        return Joined(sep, l)
    if isinstance(l, FormattedAll):
        return Joined(sep, l.pieces([]))
    raise Unsupported('join')


class FormattedAll(Sym):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def sym_list(self):
        return self

    def __radd__(self, o):
        if isinstance(o, Pieces) and z3.simplify(o.n == 0).eq(z3.BoolVal(True)):
            return self.pieces(o.first)
        if isinstance(o, list):
            return self.pieces(o)
        raise Unsupported('pieces')

    def pieces(self, first):
        r = Pieces(first)
        r.n = zint(self.it.len_())

        def at(i):
            out = list(self.f([self.it.sym_item(i)]))
            if len(out) != 1 or not isinstance(out[0], Formatted):
                raise Unsupported('pieces')
            return out[0].code
        r.at = at
        return r


def c_pieces(it, f, kind):
    if isinstance(it, Numbers):
        return FormattedAll(it, f)
    return NotImplemented


class Numbers(Sym):
    """bytes"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def len_(self):
        return mkint(self.n)

    def sym_item(self, i):
        return mkint(self.f(z3.simplify(zint(i))))


def s2h_inv(L):
    g = RT.ghost
    i = z3.simplify(zint(L._idx))
    t = only([v for v in L._d.values() if isinstance(v, Pieces)], 'str2hex: the pieces')
    k = g['k']
    return [('one piece for a byte', t.n == i), ('each piece', z3.Implies(z3.And(0 <= k, k < i), (t.at(k) if t.at else iv(-1)) == g['data'](k)))]


def b_str2hex():
    from hachoir.core.bits import str2hex
    g = RT.ghost
    f = g['data'] = z3.Function('data', I, I)
    n = RT.input_int('size', 0).e
    g['k'] = RT.input_int('position', 0).e
    kw = {}
    for name, vals in (('prefix', ('', '0x')), ('glue', ('', ' ')), ('format', ('%02X', 'x%02x'))):
        v = RT.choice(list(vals), name)
        if v != vals[0] or RT.choice([True, False], 'given'):
            kw[name] = v
        g[name] = v
    kind, r = expect(BITS + 'str2hex', str2hex, Numbers(n, f), **kw)
    RT.prove(kind == 'ret', 'str2hex returns')
    RT.cover('returned')
    RT.prove(isinstance(r, Joined) and r.sep == g['glue'], 'str2hex: the pieces separated by the glue')
    t = r.l
    RT.prove(t.first == ([g['prefix']] if g['prefix'] else []), 'str2hex: the prefix first')
    RT.prove(t.n == n, 'str2hex: one piece for a byte')
    k = g['k']
    RT.assume(z3.And(0 <= k, k < n))
    RT.cover('a piece')
    RT.prove(t.at(k) == f(k), 'str2hex: each byte formatted at its place')


UNITS = [
    Unit('swap16', [BITS + 'swap16'], b_swap('swap16', 2)),
    Unit('swap32', [BITS + 'swap32'], b_swap('swap32', 4)),
    Unit('countBits', [BITS + 'countBits'], b_countBits, loops=CB_LOOPS),
    Unit('long2raw big', [BITS + 'long2raw', BITS + 'str2long'], b_long2raw('BIG_ENDIAN'), loops=L2R_LOOPS,
         symlists=[BITS + 'long2raw'], models={'reversed': m_reversed, 'slist.havoc': havoc_bytes}),
    Unit('long2raw little', [BITS + 'long2raw', BITS + 'str2long'], b_long2raw('LITTLE_ENDIAN'), loops=L2R_LOOPS,
         symlists=[BITS + 'long2raw'], models={'reversed': m_reversed, 'slist.havoc': havoc_bytes}),
    Unit('byte2bin', [BITS + 'byte2bin'], b_byte2bin),
    Unit('long2bin', [BITS + 'long2bin'], b_long2bin,
         loops={BITS + 'long2bin#0': LoopSpec(l2b_inv0, havoc=txt_havoc), BITS + 'long2bin#1': LoopSpec(l2b_inv1, havoc=txt_havoc)}),
    Unit('bin2long', [BITS + 'bin2long'], b_bin2long, loops={BITS + 'bin2long#0': LoopSpec(b2l_inv)},
         comps={BITS + 'bin2long@%d' % i: c_digits for i in range(2)}),
    Unit('digits read back', [BITS + 'long2bin', BITS + 'bin2long'], b_inverse),
    Unit('str2bin', [BITS + 'str2bin'], b_str2bin, loops={BITS + 'str2bin#0': LoopSpec(s2b_inv, havoc=txt_havoc)}, calls={BITS + 'byte2bin': c_byte2bin}),
    Unit('str2hex', [BITS + 'str2hex'], b_str2hex, loops={BITS + 'str2hex#0': LoopSpec(s2h_inv)}, symlists={BITS + 'str2hex': Pieces, BITS + 'str2hex:list': Pieces},
         models={'str.mod': m_mod, 'str.join': m_join}, comps={BITS + 'str2hex@%d' % i: c_pieces for i in range(2)}),
] + [u for u in c01.UNITS if u.name in ('strswapmid', 'arrswapmid', 'str2long')]
BOUNDED = []
ASSUMPTIONS = ['reversed(list of bytes): element i is element n-1-i, hence its big endian number is the little endian number of the list']
