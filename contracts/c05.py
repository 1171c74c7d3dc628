"""C05: bit-level output.

The output file is seen as (n, Nb, Nl): number of bytes emitted so far and
their value as a big / little endian number (which determine the bytes).
Pending bits: `_bit_pos` of them, held in `_byte` at the end from which the
byte order fills a byte. Representation invariant of the stream:
  big:    8n + bit_pos bits, whose number is Nb * 2**bit_pos + _byte / 2**(8-bit_pos)
  little: 8n + bit_pos bits, whose number is Nl + _byte * 2**(8n)
"""
import z3
from pyvc.core import (RT, SInt, SBool, SBytes, SList, Seq, LoopSpec, Sym, mkint, mkbool, zint, iv, P2F, MULF, DIVF, MODF,
                       zmul, znorm, to_poly, from_poly, Unsupported)
from pyvc.contract import Unit, Lemma, expect
from contracts import lib
from contracts.lib import CC, Content, m_from_bytes, obj
from contracts.c01 import c_readBits

PROP = 'C05'
OUT = 'hachoir.stream.output:OutputStream.'


class OutModel:
    _pyvc_track = True
    _pyvc_name = 'output'

    def __init__(self, n, Nb, Nl):
        self.n, self.Nb, self.Nl = n, Nb, Nl

    def write(self, data):
        data = SBytes.lift(data)
        k = data.q.length()
        be, le = zint(m_from_bytes(data, 'big')), zint(m_from_bytes(data, 'little'))
        if RT.want == 'B':
            self.Nb = mkint(zmul(zint(self.Nb), p2s((8 * k))) + be)
        else:
            self.Nl = mkint(zint(self.Nl) + zmul(le, p2s((8 * zint(self.n)))))
        self.n = mkint(zint(self.n) + k)
        return mkint(k)

    def flush(self):
        pass


RT.want = 'B'


def p2s(k):
    return P2F(z3.simplify(k))


def div8(a):
    p = to_poly(a)
    if all(c % 8 == 0 for c, _ in p.values()):
        return z3.simplify(from_poly({k: (c // 8, at) for k, (c, at) in p.items()}))
    return z3.simplify(a / 8)


def endians():
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
    e = RT.choice([BIG_ENDIAN, LITTLE_ENDIAN], 'endian')
    RT.want = 'B' if e is BIG_ENDIAN else 'L'
    return e


def mkout(bitpos=None):
    """an arbitrary stream state satisfying the representation invariant"""
    from hachoir.stream.output import OutputStream
    n, N = RT.input_int('emitted', 0), RT.input_int('N', 0)
    RT.assume(N.e < P2F(8 * n.e))
    RT.fact(P2F(8 * n.e) >= 1)
    out = OutModel(n, N, N)
    if bitpos is None:
        b = RT.input_int('bit_pos', 0, 7)
        for k in range(7):
            if RT.branch(b.e == k):
                b = k
                break
        else:
            b = 7
    else:
        b = bitpos
    if b:
        p = RT.input_int('pending', 0, (1 << b) - 1)
        byte = mkint(p.e * (1 << (8 - b))) if RT.want == 'B' else p
    else:
        byte = 0
    s = obj(OutputStream, _output=out, _filename=None, _bit_pos=b, _byte=byte)
    s._pyvc_name = 'stream'
    RT.roots.append(out)
    return s


def check_state(s, what):
    """representation invariant; returns (number of bits, number)"""
    bp = s._bit_pos
    ok = isinstance(bp, (int, SInt)) and isinstance(s._byte, (int, SInt))
    RT.prove(ok, what + ': the state stays well-formed')
    if not ok:
        raise Unsupported('state')
    RT.prove(z3.And(zint(bp) >= 0, zint(bp) <= 7), what + ': at most seven pending bits')
    byte, n = zint(s._byte), zint(s._output.n)
    if not isinstance(bp, int):
        for k in range(8):
            if RT.branch(zint(bp) == k):
                sub = (bp.e, iv(k)) if bp.e.num_args() == 0 else None
                if sub:     # bp.e = k on this path
                    Nb = zint(s._output.Nb)
                    RT.fact(z3.Implies(bp.e == k, zmul(Nb, P2F(bp.e)) == Nb * (1 << k)))
                    byte, n = [znorm(z3.simplify(z3.substitute(t, sub))) for t in (byte, n)]
                bp = k
                break
    if RT.want == 'B':
        RT.prove(z3.And(byte >= 0, byte < 256, byte % (1 << (8 - bp)) == 0), what + ': pending bits are at the top of the byte')
        V = zint(s._output.Nb) * (1 << bp) + byte / (1 << (8 - bp))
    else:
        RT.prove(z3.And(byte >= 0, byte < (1 << bp)), what + ': pending bits are at the bottom of the byte')
        V = zint(s._output.Nl) + zmul(byte, p2s((8 * n)))
    return z3.simplify(8 * n + bp), z3.simplify(V)


class Written:
    """the bits written so far, as their number"""
    _pyvc_track = True
    _pyvc_name = 'written'


def set_abs(s, L, V):
    if '_abs' not in s.__dict__:
        s._abs = Written()
        RT.roots.append(s._abs)
    s._abs.L, s._abs.V = mkint(L), mkint(V)


def number(s):
    if '_abs' in s.__dict__:
        return zint(s._abs.L), zint(s._abs.V)
    bp = s._bit_pos
    n = zint(s._output.n)
    byte = zint(s._byte)
    if RT.want == 'B':
        return z3.simplify(8 * n + bp), zint(s._output.Nb) * (1 << bp) + byte / (1 << (8 - bp))
    return z3.simplify(8 * n + bp), zint(s._output.Nl) + zmul(byte, p2s((8 * n)))


def appended(L0, V0, cnt, val, L1, V1, what):
    RT.prove(L1 == L0 + cnt, what + ': exactly the requested number of bits')
    if RT.want == 'B':
        RT.prove(V1 == zmul(V0, p2s((cnt))) + val, what + ': the bits follow the ones already written')
    else:
        RT.prove(V1 == V0 + zmul(val, p2s((L0))), what + ': the bits follow the ones already written')


# ------------------------------------------------------------ writeBit(s)
def b_writeBit():
    from hachoir.stream.output import OutputStream
    e = endians()
    s = mkout()
    st = RT.choice([0, 1], 'state')
    L0, V0 = number(s)
    kind, r = expect(OUT + 'writeBit', OutputStream.writeBit, s, bool(st), e)
    RT.prove(kind == 'ret', 'writeBit returns')
    RT.cover('returned')
    L1, V1 = check_state(s, 'writeBit')
    appended(L0, V0, iv(1), iv(st), L1, V1, 'writeBit')


def b_writeBits(endian, bp):
  def body():
    from hachoir.stream.output import OutputStream
    import hachoir.core.endian as en
    e = getattr(en, endian)
    RT.want = 'B' if endian == 'BIG_ENDIAN' else 'L'
    s = mkout(bp)
    cnt = RT.input_int('count', 0)
    for k in range(8):      # narrow writes one by one, the others for any width
        if RT.branch(cnt.e == k):
            cnt = SInt(iv(k))
            break
    c = k if z3.is_int_value(cnt.e) else cnt
    val = RT.input_int('value', 0)
    RT.assume(val.e < p2s((cnt.e)))
    L0, V0 = number(s)
    RT.ghost.update(L0=L0, V0=V0, cnt=cnt.e, val=val.e)
    if RT.want == 'L':
        dist(val.e, 8 - bp, L0)
    kind, r = expect(OUT + 'writeBits', OutputStream.writeBits, s, c, val, e)
    RT.prove(kind == 'ret', 'writeBits returns')
    RT.cover('returned')
    L1, V1 = check_state(s, 'writeBits')
    appended(L0, V0, cnt.e, val.e, L1, V1, 'writeBits')
  return body


def wb_locals(L):
    c, v = L.get('count'), L.get('value')
    if c is None or v is None:
        raise Unsupported('writeBits: locals count and value expected')
    return zint(c), zint(v)


def wb_inv(L):
    g = RT.ghost
    c, v = wb_locals(L)
    s = L.self
    n = zint(s._output.n)
    out = [('rest', z3.And(c >= 0, v >= 0, v < P2F(c), n >= 0)),
           ('bits', 8 * n + c == g['L0'] + g['cnt']),
           ('no pending bits', z3.And(zint(s._bit_pos) == 0, zint(s._byte) == 0))]
    if RT.want == 'B':
        out.append(('number', zmul(zint(s._output.Nb), p2s((c))) + v ==
                    zmul(g['V0'], p2s((g['cnt']))) + g['val']))
    else:
        out.append(('number', zint(s._output.Nl) + zmul(v, p2s((8 * n))) ==
                    g['V0'] + zmul(g['val'], p2s((g['L0'])))))
    return out


WB = OUT + 'writeBits#0'
def dist(v, k, m):
    """v = v / 2**k * 2**k + v % 2**k, multiplied by 2**m (distributivity of multiplication)"""
    P = p2s(m)
    q, r = v / (1 << k), v % (1 << k)
    RT.fact(zmul(v, P) == (1 << k) * zmul(q, P) + zmul(r, P))
    RT.fact(z3.Implies(P >= 1, zmul(q, p2s(m + k)) == (1 << k) * zmul(q, P)))


def wb_after(L):
    if RT.want == 'L':
        dist(wb_locals(L)[1], 8, 8 * zint(L.self._output.n))


WB_LOOPS = {WB: LoopSpec(wb_inv, lambda L: wb_locals(L)[0], after=wb_after)}


# ------------------------------------------------------------ callee contracts
def fresh_state(self, L1, V1):
    """arbitrary state with L1 bits whose number is V1, satisfying the invariant"""
    n, N = RT.int('emitted'), RT.int('N')
    b, byte = RT.int('bit_pos'), RT.int('byte')
    RT.assume(z3.And(n.e >= 0, N.e >= 0, b.e >= 0, b.e <= 7, 8 * n.e + b.e == L1, byte.e >= 0))
    self._output.n, self._bit_pos, self._byte = n, b, byte
    if RT.want == 'B':
        self._output.Nb = N
    else:
        self._output.Nl = N
    self._ghost_number = V1


def c_writeBits(self, count, value, endian):
    c, v = zint(count), zint(value)
    RT.prove(z3.And(c >= 0, v >= 0, v < p2s((c))), 'precondition of writeBits')
    L0, V0 = number(self)
    if RT.want == 'B':
        V1 = zmul(V0, p2s((c))) + v
    else:
        V1 = V0 + zmul(v, p2s((L0)))
    set_abs(self, z3.simplify(L0 + c), V1)
    # the number of pending bits is known modulo 8 of the length only
    self._bit_pos = RT.int('bit_pos')
    RT.assume(self._bit_pos.e == (L0 + c) % 8)


def c_writeBytes(self, data):
    """contract of writeBytes: appends the bytes; refused while bits are pending"""
    if self._bit_pos != 0:
        raise NotImplementedError()
    self._output.write(data)


def c_readBytes(self, address, nb_bytes):
    from hachoir.stream.input import ReadStreamError
    a, k = zint(address), zint(nb_bytes)
    RT.prove(z3.And(a >= 0, k >= 0, a % 8 == 0), 'precondition of readBytes')
    if not RT.branch(a + 8 * k <= 8 * zint(self._n)):
        raise ReadStreamError(0, 0)
    b = div8(a)
    g = RT.ghost
    if 'b0' in g:       # lemmas about consecutive windows
        m = z3.simplify(b - g['b0'])
        for c in (CC,):
            c.bytes_be.use(g['b0'], m)
            c.bytes_be.use(b, k)
            c.bytes_be.use(g['b0'], z3.simplify(m + k))
            c.split_be.use(8 * g['b0'], 8 * m, 8 * k)
            c.bytes_le.use(g['b0'], m)
            c.bytes_le.use(b, k)
            c.bytes_le.use(g['b0'], z3.simplify(m + k))
            c.split_le.use(8 * g['b0'], 8 * m, 8 * k)
            # product with an equal number (congruence of multiplication)
            Q, whole = p2s(8 * g['n0']), c.Fle(g['b0'], z3.simplify(m + k))
            parts = c.Fle(g['b0'], m) + zmul(p2s(8 * m), c.Fle(b, k))
            RT.fact(z3.Implies(whole == parts, zmul(Q, whole) == zmul(Q, parts)))
    return SBytes([('arr', CC.C, b, k)])


def mkinput():
    from hachoir.stream.input import InputStream
    n = RT.input_int('n', 0)
    s = obj(InputStream, _size=mkint(8 * n.e), _n=n, source='x', tags=(), packets=None)
    s._pyvc_name = 'input'
    return s


# ------------------------------------------------------------ bytes
def b_writeBytes():
    from hachoir.stream.output import OutputStream
    endians()
    s = mkout()
    n = RT.input_int('len', 0)
    data = SBytes([('arr', CC.C, iv(0), n.e)])
    if RT.want == 'B':
        want = zmul(zint(s._output.Nb), p2s((8 * n.e))) + CC.Fbe(iv(0), n.e)
    else:
        want = zint(s._output.Nl) + zmul(CC.Fle(iv(0), n.e), p2s((8 * zint(s._output.n))))
    n0 = zint(s._output.n)
    bp, byte = s._bit_pos, s._byte
    kind, r = expect(OUT + 'writeBytes', OutputStream.writeBytes, s, data)
    if bp != 0:
        RT.prove(kind == 'exc' and isinstance(r, NotImplementedError), 'writeBytes is refused while bits are pending')
        RT.prove(zint(s._output.n) == n0, 'a refused write emits nothing')
        return
    RT.cover('returned')
    RT.prove(kind == 'ret', 'writeBytes returns')
    RT.prove(zint(s._output.n) == n0 + n.e, 'writeBytes emits exactly the bytes')
    RT.prove(zint(s._output.Nb if RT.want == 'B' else s._output.Nl) == want, 'writeBytes emits exactly these bytes')
    RT.prove(z3.And(zint(s._bit_pos) == 0, zint(s._byte) == 0), 'writeBytes leaves no pending bits')


def cb_inv(L):
    g = RT.ghost
    ints = dict((x, zint(L.get(x))) for x in ('address', 'nb_bytes') if L.get(x) is not None)
    if len(ints) != 2:
        raise Unsupported('copyBytesFrom: locals address and nb_bytes expected')
    a, rest = ints['address'], ints['nb_bytes']
    out = L.self._output
    done = g['k'] - rest
    inv = [('position', z3.And(a == 8 * g['b0'] + 8 * done, rest >= 0, done >= 0, zint(out.n) == g['n0'] + done)),
           ('buffer', z3.Or(rest == 0, *[zint(L.get(x)) >= 1 for x in L._mod if x not in ('address', 'nb_bytes')][:1]))]
    if RT.want == 'B':
        inv.append(('content', zint(out.Nb) == zmul(g['N0'], p2s((8 * done))) + CC.Fbe(g['b0'], z3.simplify(done))))
    else:
        inv.append(('content', zint(out.Nl) == g['N0'] + zmul(p2s((8 * g['n0'])), CC.Fle(g['b0'], z3.simplify(done)))))
    return inv


def cb_after(L):
    g = RT.ghost
    done = z3.simplify(g['k'] - zint(L.get('nb_bytes')))
    L.address = mkint(z3.simplify(8 * g['b0'] + 8 * done))
    out = L.self._output
    out.n = mkint(g['n0'] + done)
    if RT.want == 'B':
        out.Nb = mkint(zmul(g['N0'], p2s(8 * done)) + CC.Fbe(g['b0'], done))
    else:
        out.Nl = mkint(g['N0'] + zmul(p2s(8 * g['n0']), CC.Fle(g['b0'], done)))


CPB = OUT + 'copyBytesFrom#0'
CB_LOOPS = {CPB: LoopSpec(cb_inv, lambda L: zint(L.get('nb_bytes')), after=cb_after)}


def b_copyBytesFrom():
    from hachoir.stream.output import OutputStream, OutputStreamError
    from hachoir.stream.input import InputStreamError
    endians()
    s = mkout(0)
    i = mkinput()
    a = RT.input_int('address', 0)
    k = RT.input_int('nb_bytes', 0)
    b0 = z3.Int('b0')
    RT.assume(b0 == a.e / 8)
    N0 = zint(s._output.Nb)
    n0 = zint(s._output.n)
    RT.ghost.update(b0=b0, k=k.e, N0=N0, n0=n0)
    CC.bytes_be.use(b0, iv(0))
    CC.bytes_le.use(b0, iv(0))
    RT.fact(z3.And(CC.Fbe(b0, iv(0)) == 0, CC.Fle(b0, iv(0)) == 0))      # definition
    kind, r = expect(OUT + 'copyBytesFrom', OutputStream.copyBytesFrom, s, i, a, k)
    if kind == 'exc':
        RT.prove(isinstance(r, (OutputStreamError, InputStreamError)), 'copyBytesFrom only raises stream errors')
        RT.prove(z3.Or(a.e % 8 != 0, a.e + 8 * k.e > 8 * zint(i._n)), 'copyBytesFrom only fails when the bytes are not there')
        return
    RT.cover('returned')
    RT.prove(a.e % 8 == 0, 'copyBytesFrom refuses unaligned addresses')
    RT.prove(zint(s._output.n) == n0 + k.e, 'copyBytesFrom emits exactly nb_bytes bytes')
    RT.prove(z3.And(zint(s._bit_pos) == 0, zint(s._byte) == 0), 'copyBytesFrom leaves no pending bits')
    if RT.want == 'B':
        RT.prove(zint(s._output.Nb) == zmul(N0, p2s((8 * k.e))) + CC.Fbe(b0, k.e), 'copyBytesFrom emits exactly the input bytes')
    else:
        RT.prove(zint(s._output.Nl) == N0 + zmul(p2s((8 * n0)), CC.Fle(b0, k.e)), 'copyBytesFrom emits exactly the input bytes')


def c_copyBytesFrom(self, input, address, nb_bytes):
    a, k = zint(address), zint(nb_bytes)
    RT.prove(z3.And(a >= 0, k >= 0), 'precondition of copyBytesFrom')
    if RT.branch(a % 8 != 0):
        from hachoir.stream.output import OutputStreamError
        raise OutputStreamError('x')
    if self._bit_pos != 0:
        raise NotImplementedError()
    data = c_readBytes(input, address, nb_bytes)
    RT.fact(z3.And(CC.bytes_be.inst(zint(a) / 8, k), CC.bytes_le.inst(zint(a) / 8, k)))
    RT.lemmas_used.add(CC.bytes_be.name)
    RT.lemmas_used.add(CC.bytes_le.name)
    self._output.write(data)


def cbits_done(L):
    g = RT.ghost
    return z3.simplify(g['nb'] - zint(L.get('nb_bits')))


def cbits_state(done):
    g = RT.ghost
    if RT.want == 'B':
        return (z3.simplify(g['L0'] + done), zmul(g['V0'], p2s(done)) + CC.Nbe(g['a'], done))
    return (z3.simplify(g['L0'] + done), g['V0'] + zmul(CC.Nle(g['a'], done), p2s(g['L0'])))


def c_readBlock(self, address, nbits, endian):
    r = c_readBits(self, address, nbits, endian)
    RT.ghost['block'] = (z3.simplify(zint(address) - RT.ghost['a']), zint(nbits))
    return r


def cbits_pre(L):
    RT.ghost.pop('block', None)
    set_abs(L.self, *number(L.self))


def cbits_inv(L):
    g = RT.ghost
    if L.get('nb_bits') is None or L.get('address') is None:
        raise Unsupported('copyBitsFrom: locals address and nb_bits expected')
    done = cbits_done(L)
    a = g['a']
    RT.fact(z3.And(*(CC.dNbe(a, iv(0)) + CC.dNle(a, iv(0)))))
    if 'block' in g:
        m, c = g['block']
        CC.split_be.use(a, m, c)
        CC.split_le.use(a, m, c)
        # product with an equal number (congruence of multiplication)
        whole, parts = CC.Nle(a, z3.simplify(m + c)), CC.Nle(a, m) + zmul(p2s(m), CC.Nle(z3.simplify(a + m), c))
        RT.fact(z3.Implies(whole == parts, zmul(p2s(g['L0']), whole) == zmul(p2s(g['L0']), parts)))
        whole, parts = CC.Nbe(a, z3.simplify(m + c)), zmul(CC.Nbe(a, m), p2s(c)) + CC.Nbe(z3.simplify(a + m), c)
    L1, V1 = number(L.self)
    W1, W2 = cbits_state(done)
    return [('position', z3.And(zint(L.address) == a + done, zint(L.nb_bits) >= 0, done >= 0)),
            ('length', L1 == W1), ('content', V1 == W2)]


def cbits_after(L):
    done = cbits_done(L)
    set_abs(L.self, *cbits_state(done))
    L.address = mkint(z3.simplify(RT.ghost['a'] + done))


def b_copyBitsFrom():
    from hachoir.stream.output import OutputStream, OutputStreamError
    from hachoir.stream.input import InputStreamError
    e = endians()
    s = mkout()
    i = mkinput()
    a = RT.input_int('address', 0)
    nb = RT.input_int('nb_bits', 1)
    L0, V0 = number(s)
    RT.ghost.update(a=a.e, nb=nb.e, L0=L0, V0=V0)
    CC.range_be.use(a.e, nb.e)
    kind, r = expect(OUT + 'copyBitsFrom', OutputStream.copyBitsFrom, s, i, a, nb, e)
    if kind == 'exc':
        RT.prove(isinstance(r, (OutputStreamError, InputStreamError)), 'copyBitsFrom errors')
        RT.prove(a.e + nb.e > 8 * zint(i._n), 'copyBitsFrom only fails when the bits are not there')
        return
    RT.cover('returned')
    val = CC.Nbe(a.e, nb.e) if RT.want == 'B' else CC.Nle(a.e, nb.e)
    if hasattr(s, '_abs'):
        L1, V1 = number(s)
    else:
        L1, V1 = check_state(s, 'copyBitsFrom')
    appended(L0, V0, nb.e, val, L1, V1, 'copyBitsFrom')


# ------------------------------------------------------------ integers
def c_long2raw(value, endian, size=None):
    v, s = zint(value), zint(size)
    RT.prove(z3.And(v >= 0, s >= 1), 'precondition of long2raw')
    nm = RT.freshname('raw')
    c = Content.REG.get(nm) or Content(nm, family='C')
    n = RT.int('rawlen')
    from hachoir.core.endian import BIG_ENDIAN
    num = (c.Fbe if endian is BIG_ENDIAN else c.Fle)(iv(0), n.e)
    RT.assume(z3.And(n.e >= s, num == v, z3.Or(n.e == s, v >= P2F(z3.simplify(8 * n.e - 8)))))
    # theorem: the power of two is monotone
    RT.fact(z3.Implies(n.e > s, P2F(z3.simplify(8 * n.e - 8)) >= P2F(8 * s)))
    return SBytes([('arr', c.C, iv(0), n.e)])


def b_writeInteger():
    from hachoir.stream.output import OutputStream
    e = endians()
    s = mkout(0)
    size = RT.input_int('size_byte', 1)
    v = RT.input_int('value')
    signed = RT.choice([False, True], 'signed')
    full, half = P2F(8 * size.e), P2F(z3.simplify(8 * size.e - 1))
    RT.fact(z3.And(full == 2 * half, half >= 1))
    if signed:
        RT.assume(z3.And(v.e >= -half, v.e < half))
    else:
        RT.assume(z3.And(v.e >= 0, v.e < full))
    L0, V0 = number(s)
    n0 = zint(s._output.n)
    kind, r = expect(OUT + 'writeInteger', OutputStream.writeInteger, s, v, bool(signed), size, e)
    RT.prove(kind == 'ret', 'writeInteger returns')
    RT.cover('returned')
    L1, V1 = check_state(s, 'writeInteger')
    bits = z3.If(v.e < 0, v.e + full, v.e)
    appended(L0, V0, 8 * size.e, bits, L1, V1, 'writeInteger')
    back = z3.If(2 * bits >= full, bits - full, bits) if signed else bits
    RT.prove(back == v.e, 'writeInteger: readInteger (contract of C01) gives the value back')


class Back:
    """the output as a seekable file: position pos, bytes BACK(i) for i < size"""
    _pyvc_track = True
    _pyvc_name = 'output'

    def __init__(self, size, pos, fails):
        self.size, self.pos, self.fails, self.flushed = size, pos, fails, False

    def flush(self):
        self.flushed = True

    def tell(self):
        return mkint(self.pos)

    def seek(self, pos, whence=0):
        if whence != 0:
            raise Unsupported('seek')
        self.pos = zint(pos)
        return pos

    def read(self, n=None):
        if n is None:
            raise Unsupported('read of everything')
        RT.prove(self.flushed, 'readBytes: what was written is flushed before')
        if self.fails is not None:
            raise self.fails
        RT.ghost['read'] = (self.pos, zint(n))
        p = self.pos
        self.pos = z3.If(self.size < p, p, z3.If(p + zint(n) <= self.size, p + zint(n), self.size))
        r = RT.ghost['data'] = SymData()
        return r

    def write(self, data):
        RT.prove(z3.BoolVal(False), 'readBytes: nothing is written')


class SymData(Sym):
    pass


def b_outRead():
    """InputStream-like reading of what was written: the bytes at the address, the position of the output kept"""
    from hachoir.stream.output import OutputStream, OutputStreamError
    import errno
    size, pos = RT.input_int('size', 0), RT.input_int('pos', 0)
    fails = RT.choice([None, OSError(errno.EBADF, 'x'), OSError(errno.EIO, 'y')], 'read')
    f = Back(size.e, pos.e, fails)
    s = obj(OutputStream, _output=f, _filename=None, _bit_pos=RT.input_int('bit_pos', 0, 7), _byte=RT.input_int('byte', 0, 255))
    a, n = RT.input_int('address', 0), RT.input_int('nbytes', 1)
    RT.assume(z3.And(a.e % 8 == 0, n.e <= 2 ** 16))
    kind, r = expect(OUT + 'readBytes', OutputStream.readBytes, s, a, n)
    RT.prove(zint(f.pos) == pos.e, 'readBytes: later writes go where they would have gone')
    if kind == 'exc':
        RT.prove(fails is not None, 'readBytes: no error of its own')
        RT.prove(isinstance(r, OutputStreamError) if fails.errno == errno.EBADF else r is fails, 'readBytes: the error of the output')
        return
    RT.cover('returned')
    RT.prove(fails is None, 'readBytes: an error is not hidden')
    RT.prove(r is RT.ghost['data'], 'readBytes: the bytes read')
    RT.prove(z3.And(RT.ghost['read'][0] * 8 == a.e, RT.ghost['read'][1] == n.e), 'readBytes: the bytes at the address')


def b_outInit():
    from hachoir.stream import output as M
    f = OutModel(mkint(iv(0)), mkint(iv(0)), mkint(iv(0)))
    kind, s = expect(OUT + '__init__', M.OutputStream, f)
    RT.prove(kind == 'ret' and s._output is f and s._bit_pos == 0 and s._byte == 0, 'a new stream has no pending bit')
    kind, s = expect(OUT[:-len('OutputStream.')] + 'StringOutputStream', M.StringOutputStream)
    RT.prove(kind == 'ret' and isinstance(s, M.OutputStream) and s._output.getvalue() == b'' and s._output.tell() == 0 and s._bit_pos == 0 and s._byte == 0,
             'StringOutputStream: starts empty')
    kind, s2 = expect(OUT[:-len('OutputStream.')] + 'StringOutputStream', M.StringOutputStream)
    RT.prove(kind == 'ret' and s2._output is not s._output, 'StringOutputStream: an output of its own')


CALLS = dict(lib.LOG_CALLS)
CALLS.update({OUT + 'writeBits': c_writeBits, OUT + 'writeBytes': c_writeBytes, OUT + 'copyBytesFrom': c_copyBytesFrom,
              'hachoir.stream.input:InputStream.readBits': c_readBits,
              'hachoir.stream.input:InputStream.readBytes': c_readBytes,
              'hachoir.core.bits:long2raw': c_long2raw})


def U(name, body, loops=None, more=None, **k):
    return Unit(name, [OUT + name], body, loops=loops or {}, calls=dict(CALLS, **(more or {})), **k)


UNITS = [
    U('readBytes', b_outRead),
    Unit('new streams', [OUT + '__init__', OUT[:-len('OutputStream.')] + 'StringOutputStream'], b_outInit),
    U('writeBit', b_writeBit),
    U('writeBytes', b_writeBytes),
    U('copyBytesFrom', b_copyBytesFrom, CB_LOOPS),
    U('copyBitsFrom', b_copyBitsFrom, {OUT + 'copyBitsFrom#0': LoopSpec(cbits_inv, lambda L: zint(L.get('nb_bits')), pre=cbits_pre, after=cbits_after)},
      more={'hachoir.stream.input:InputStream.readBits': c_readBlock}),
    U('writeInteger', b_writeInteger),
] + [Unit('writeBits %s %d' % (e[:3].lower(), b), [OUT + 'writeBits'], b_writeBits(e, b), loops=WB_LOOPS, calls=CALLS)
     for e in ('BIG_ENDIAN', 'LITTLE_ENDIAN') for b in range(8)]
