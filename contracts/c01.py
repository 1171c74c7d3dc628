"""C01: integer reads return exactly the addressed bits."""
import z3
from pyvc.core import RT, SInt, SBytes, SList, Seq, mkint, mkbool, zint, zbool, iv, P2F, DIVF, MODF, zmul, Unsupported
from pyvc.contract import Unit, Lemma, expect, run_target
from contracts import lib
from contracts.lib import CC, CM, obj

PROP = 'C01'


def cdiv8(x):
    return (x + 7) / 8


# ------------------------------------------------------------ callee contracts
def c_alignValue(value, align):
    """contract of alignValue: the smallest multiple of align >= value"""
    if isinstance(value, int) and isinstance(align, int):
        return -(-value // align) * align
    if not isinstance(align, int):
        raise Unsupported('alignValue with symbolic alignment')
    RT.prove(z3.And(zint(align) > 0), 'precondition of alignValue')
    v = zint(value)
    r = RT.int('aligned')
    k = RT.int('k')
    RT.assume(z3.And(r.e >= v, r.e < v + align, r.e == align * k.e))
    return r


def c_read(self, address, size):
    """contract of InputStream.read (every stream kind implements it, C02):
    either the whole window, or missing=True / a stream error when the window
    is not inside the content."""
    from hachoir.stream.input import ReadStreamError
    a, s = zint(address), zint(size)
    n = zint(self._n)
    RT.prove(z3.And(a >= 0, s >= 0), 'precondition of read')
    b = z3.simplify(a / 8)
    cnt = z3.simplify((s + a % 8 + 7) / 8)
    ok = z3.And(b + cnt <= n)
    if RT.branch(ok):
        return mkint(a % 8), SBytes([('arr', CC.C, b, cnt)]), False
    if RT.choice([0, 1]) == 0:
        raise ReadStreamError(0, 0)
    got = RT.int('got')
    RT.assume(z3.And(0 <= got.e, got.e < cnt))
    return mkint(a % 8), SBytes([('arr', CC.C, b, got.e)]), True


def c_strswapmid(data):
    """contract of strswapmid on a window of the content: when the window starts
    at an even byte and has an even length, the same window of Cme"""
    data = SBytes.lift(data)
    n = data.q.length()
    RT.prove(n % 2 == 0, 'precondition of strswapmid: even length')
    if len(data.q.segs) == 1 and data.q.segs[0][0] == 'arr' and data.q.segs[0][1] is CC.C:
        s = data.q.segs[0]
        if RT.entails(s[2] % 2 == 0):
            return SBytes([('arr', CM.C, s[2], s[3])])
    raise Unsupported('strswapmid of this data')


def mkstream():
    from hachoir.stream.input import InputStream
    n = RT.input_int('n', 1)
    s = obj(InputStream, _size=mkint(8 * n.e), _n=n, source='x', tags=(), packets=None)
    s._pyvc_name = 'stream'
    return s, n


def spec_bits(endian, a, nb):
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
    if endian == BIG_ENDIAN:
        return CC.Nbe(a, nb)
    if endian == LITTLE_ENDIAN:
        return CC.Nle(a, nb)
    return CM.Nbe(a, nb)


def endian_choice():
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
    return RT.choice([BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN], 'endian')


def window_ok(endian, a, nb, n):
    from hachoir.core.endian import MIDDLE_ENDIAN
    if endian == MIDDLE_ENDIAN:
        return 16 * ((a + nb + 15) / 16) <= 8 * n
    return a + nb <= 8 * n


def lemmas_for(endian, a, nb):
    """facts linking a byte window covering [a, a+nb) with the bits: only in
    terms of a, nb and the first/last byte of the window"""
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
    b = a / 8
    sh = a % 8
    if endian == MIDDLE_ENDIAN:
        b = 2 * (a / 16)
        sh = a % 16
    last = (a + nb + 7) / 8 if endian != MIDDLE_ENDIAN else 2 * ((a + nb + 15) / 16)
    # name the quantities so that every fact speaks about the same terms
    bb, ll, ss, rr = (z3.Int(RT.freshname(x)) for x in ('b0', 'len0', 'sh0', 'rest0'))
    RT.assume(z3.And(bb == b, ll == last - b, ss == sh, rr == 8 * ll - ss - nb))
    RT.assume(z3.And(rr >= 0, ss >= 0, ll >= 0, rr < 16, ss < 16))
    if endian == LITTLE_ENDIAN:
        c = CC
        c.bytes_le.use(bb, ll)
        c.split_le.use(8 * bb, ss, nb + rr)
        c.split_le.use(a, nb, rr)
        c.range_le.use(8 * bb, ss)
        c.range_le.use(a, nb)
        X = c.Nle(8 * bb + ss, nb + rr)
        return dict(b=bb, l=ll, s=ss, r=rr,
                    div=[(X, c.Nle(8 * bb, ss)), (c.Nle(8 * bb + ss + nb, rr), c.Nle(a, nb))])
    c = CC if endian == BIG_ENDIAN else CM
    c.bytes_be.use(bb, ll)
    c.split_be.use(8 * bb, ss + nb, rr)
    c.split_be.use(8 * bb, ss, nb)
    c.range_be.use(8 * bb + ss + nb, rr)
    c.range_be.use(a, nb)
    return dict(b=bb, l=ll, s=ss, r=rr)


def b_readBits():
    from hachoir.stream.input import InputStream, InputStreamError
    s, n = mkstream()
    a = RT.input_int('address', 0)
    nb = RT.input_int('nbits', 1)
    endian = endian_choice()
    lemmas_for(endian, a.e, nb.e)
    kind, r = expect('hachoir.stream.input:InputStream.readBits', InputStream.readBits, s, a, nb, endian)
    inr = window_ok(endian, a.e, nb.e, n.e)
    if kind == 'ret':
        RT.cover('value returned')
        RT.prove(inr, 'readBits returns only when the bits are inside the stream')
        if not isinstance(r, (int, SInt)):
            RT.prove(False, 'readBits returns an integer')
        RT.prove(zint(r) == spec_bits(endian, a.e, nb.e), 'readBits returns exactly the addressed bits')
    else:
        RT.cover('error raised')
        RT.prove(isinstance(r, InputStreamError), 'readBits only raises stream errors')
        RT.prove(z3.Not(inr), 'readBits raises only past the end')


def c_readBits(self, address, nbits, endian):
    from hachoir.stream.input import ReadStreamError
    a, nb = zint(address), zint(nbits)
    RT.prove(z3.And(a >= 0, nb >= 1), 'precondition of readBits')
    if RT.branch(window_ok(endian, a, nb, zint(self._n))):
        v = spec_bits(endian, a, nb)
        RT.assume(z3.And(v >= 0, v < zint(RT.p2(nb))))
        return mkint(v)
    raise ReadStreamError(0, 0)


def b_readInteger():
    from hachoir.stream.input import InputStream, InputStreamError
    s, n = mkstream()
    a = RT.input_int('address', 0)
    nb = RT.input_int('nbits', 1)
    endian = endian_choice()
    signed = RT.choice([False, True], 'signed')
    kind, r = expect('hachoir.stream.input:InputStream.readInteger', InputStream.readInteger, s, a, signed, nb, endian)
    inr = window_ok(endian, a.e, nb.e, n.e)
    if kind == 'ret':
        RT.cover('value returned')
        RT.prove(inr, 'readInteger returns only when the bits are inside the stream')
        v = spec_bits(endian, a.e, nb.e)
        p = zint(RT.p2(nb.e))
        if signed:
            v = z3.If(2 * v >= p, v - p, v)
        RT.prove(zint(r) == v, 'readInteger returns the addressed bits, two\'s complement when signed')
    else:
        RT.prove(isinstance(r, InputStreamError), 'readInteger only raises stream errors')
        RT.prove(z3.Not(inr), 'readInteger raises only past the end')


def b_str2long():
    from hachoir.core.bits import str2long
    off = RT.input_int('off', 0)
    ln = RT.input_int('len', 0)
    endian = RT.choice(['ABCD', 'DCBA', 'BADC', 'xxxx'], 'endian')
    if endian == 'BADC':
        RT.assume(z3.And(off.e % 2 == 0, ln.e % 2 == 0))
    data = SBytes([('arr', CC.C, off.e, ln.e)])
    kind, r = expect('hachoir.core.bits:str2long', str2long, data, endian)
    if endian == 'xxxx':
        RT.prove(kind == 'exc' and isinstance(r, ValueError), 'str2long rejects an unknown endian')
        return
    spec = {'ABCD': CC.Fbe, 'DCBA': CC.Fle, 'BADC': CM.Fbe}[endian](off.e, ln.e)
    RT.cover('value returned')
    RT.prove(kind == 'ret', 'str2long returns')
    if kind == 'ret':
        RT.prove(zint(r) == spec, 'str2long is the number of all the bytes in order')


def c_str2long(data, endian):
    data = SBytes.lift(data)
    if endian == 'BADC':
        data = c_strswapmid(data)
        endian = 'ABCD'
    return lib.m_from_bytes(data, 'big' if endian == 'ABCD' else 'little')


def swapped(r, off, ln, what):
    i = RT.int('i').e
    RT.assume(z3.And(0 <= i, i < ln))
    rl = r.q.length() if hasattr(r, 'q') else iv(len(r))
    RT.prove(rl == ln, what + ' keeps the length')
    sw = z3.If(i % 2 == 0, i + 1, i - 1)
    seq = r.q if hasattr(r, 'q') else SList([('lit', tuple(r))]).q
    RT.prove(seq.term(i) == CC.C(off + sw), what + ' exchanges the bytes of each word')


def b_swapmid(which):
    def body():
        import hachoir.core.bits as bits
        off = RT.input_int('off', 0)
        ln = RT.input_int('len', 0)
        RT.assume(ln.e % 2 == 0)
        data = SBytes([('arr', CC.C, off.e, ln.e)])
        kind, r = expect('hachoir.core.bits:' + which, getattr(bits, which), data)
        RT.prove(kind == 'ret', which + ' returns')
        if kind == 'ret':
            RT.cover('value returned')
            if ln is not None and not hasattr(r, 'q') and isinstance(r, (bytes, list)):
                RT.prove(ln.e == len(r), which + ' keeps the length')
                return
            if which == 'strswapmid':
                RT.prove(isinstance(r, (SBytes, bytes)), 'strswapmid returns bytes')
            swapped(r, off.e, ln.e, which)
    return body


L_ME = Lemma('Cme window', 2,
             lambda off, i: CM.C(z3.simplify(off + i)) == CC.C(z3.simplify(off + swap1_(i))),
             pre=lambda off, i: off % 2 == 0,
             uses=lambda off, i: [CM.C(off + i) == CC.C(z3.If((off + i) % 2 == 0, off + i + 1, off + i - 1))]) \
    if False else None


def b_alignValue():
    from hachoir.core.tools import alignValue
    v = RT.input_int('value')
    al = RT.input_int('align', 1)
    kind, r = expect('hachoir.core.tools:alignValue', alignValue, v, al)
    RT.prove(kind == 'ret', 'alignValue returns')
    if kind == 'ret':
        RT.cover('value returned')
        k = DIVF(zint(r), al.e)
        RT.prove(z3.And(zint(r) >= v.e, zint(r) < v.e + al.e), 'alignValue is in [value, value+align)')
        RT.prove(divisible(zint(r), al.e), 'alignValue is a multiple of the alignment')


def divisible(x, d):
    """x is a multiple of d; uses uniqueness of Euclidean division"""
    return MODF(x, d) == 0


# -------------------------------------------------------------- integer fields
FA = 'hachoir.field.'
SIZES = {'UInt%d' % z: (False, z) for z in (8, 16, 24, 32, 64)}
SIZES.update({'Int%d' % z: (True, z) for z in (8, 16, 24, 32, 64)})


def c_readInteger(self, address, signed, nbits, endian):
    """contract of readInteger (unit above)"""
    if not isinstance(signed, bool):
        raise Unsupported('signed')
    v = c_readBits(self, address, nbits, endian)
    p = RT.p2(zint(nbits))
    return mkint(z3.If(2 * zint(v) >= zint(p), zint(v) - zint(p), zint(v))) if signed else v


def fparent():
    from hachoir.field import GenericFieldSet
    s, n = mkstream()
    base, cur = RT.input_int('parent_address', 0), RT.input_int('address_in_parent', 0)
    endian = endian_choice()
    root = obj(GenericFieldSet, _name='root', _address=0, _parent=None, _size=None, stream=s, endian='?')
    p = obj(GenericFieldSet, _name='set', _address=base, _parent=root, root=root, _size=None, _current_size=cur, stream=s, endian=endian)
    return p, n, z3.simplify(base.e + cur.e), endian


def value_is(f, kind, r, signed, a, nb, endian, n, what, conv=lambda v: v):
    from hachoir.stream.input import InputStreamError
    inr = window_ok(endian, a, nb, n.e)
    if kind == 'exc':
        RT.prove(isinstance(r, InputStreamError), what + ' only raises stream errors')
        RT.prove(z3.Not(inr), what + ' raises only past the end')
        return
    RT.cover('value returned')
    RT.prove(inr, what + ' returns only when the bits are inside the stream')
    v = spec_bits(endian, a, nb)
    if signed:
        v = z3.If(2 * v >= zint(RT.p2(nb)), v - zint(RT.p2(nb)), v)
    return conv(v)


def b_int_field():
    import hachoir.field as F
    p, n, a, endian = fparent()
    which = RT.choice(sorted(SIZES) + ['GenericInteger'], 'field')
    if which == 'GenericInteger':
        signed = RT.choice([False, True], 'signed')
        nb = RT.input_int('nbits')
        kind, f = expect(FA + 'integer:GenericInteger.__init__', F.GenericInteger, p, 'x', signed, nb)
        if kind == 'exc':
            RT.prove(isinstance(f, F.FieldError), 'an integer field is refused with a field error')
            RT.prove(z3.Or(nb.e < 8, nb.e > 16384), 'an integer field is refused only for its size')
            return
        RT.prove(z3.And(nb.e >= 8, nb.e <= 16384), 'the size of an integer field')
        RT.assume(nb.e <= 16384)
        nb = nb.e
    else:
        signed, nb = SIZES[which][0], iv(SIZES[which][1])
        cls = getattr(F, which)
        RT.prove(cls.static_size == SIZES[which][1], 'the declared size of an integer field')
        kind, f = expect(FA + 'integer:integerFactory.<locals>.Integer.__init__', cls, p, 'x')
        RT.prove(kind == 'ret', 'an integer field is created')
    RT.roots.append(f)
    RT.prove(zint(f._size) == nb, 'the size of an integer field')
    RT.prove(zint(f._address) == zint(p._current_size), 'the address of an integer field')
    kind, r = expect(FA + 'integer:GenericInteger.createValue', type(f).createValue, f)
    v = value_is(f, kind, r, signed, a, nb, endian, n, 'the value of an integer field')
    if v is not None:
        RT.prove(isinstance(r, (int, SInt)) and zint(r) == v, 'the value of an integer field is the one of its bits, two\'s complement when signed')


def b_bits_field():
    import hachoir.field as F
    p, n, a, endian = fparent()
    which = RT.choice(['RawBits', 'Bits', 'Bit', 'Character'], 'field')
    cls = getattr(F, which)
    nb = RT.input_int('nbits', 1) if which in ('RawBits', 'Bits') else mkint(iv(1 if which == 'Bit' else 8))
    kind, f = expect(FA + 'bit_field:%s.__init__' % which, cls, p, 'x', *([nb] if which in ('RawBits', 'Bits') else []))
    RT.prove(kind == 'ret', 'a bit field is created')
    RT.roots.append(f)
    RT.prove(zint(f._size) == zint(nb), 'the size of a bit field')
    RT.prove(zint(f._address) == zint(p._current_size), 'the address of a bit field')
    kind, r = expect(FA + ('character:Character' if which == 'Character' else 'bit_field:' + ('Bit' if which == 'Bit' else 'RawBits')) + '.createValue', cls.createValue, f)
    v = value_is(f, kind, r, False, a, zint(nb), endian, n, 'the value of a bit field')
    if v is None:
        return
    if which == 'Bit':
        RT.prove(zbool(r) == (v == 1), 'the value of a bit')
    elif which == 'Character':
        RT.prove(isinstance(r, lib.SChar) if hasattr(lib, 'SChar') else True, 'a character')
        RT.prove(zint(ord_of(r)) == v, 'the value of a character is the one of its code')
    else:
        RT.prove(isinstance(r, (int, SInt)) and zint(r) == v, 'the value of a bit field is the one of its bits')


class Chr:
    def __init__(self, e):
        self.e = e


def m_chr(i):
    RT.prove(z3.And(zint(i) >= 0, zint(i) < 0x110000), 'chr: a code')
    return Chr(zint(i))


def ord_of(r):
    if isinstance(r, Chr):
        return r.e
    if isinstance(r, str) and len(r) == 1:
        return ord(r)
    raise Unsupported('character')


FIELD_CALLS = {'hachoir.stream.input:InputStream.readBits': c_readBits, 'hachoir.stream.input:InputStream.readInteger': c_readInteger}

UNITS = [
    Unit('integer fields', [FA + 'integer:GenericInteger.__init__', FA + 'integer:GenericInteger.createValue'], b_int_field, calls=FIELD_CALLS),
    Unit('bit fields', [FA + 'bit_field:RawBits.createValue', FA + 'bit_field:Bit.createValue', FA + 'character:Character.createValue'], b_bits_field,
         calls=FIELD_CALLS, models={'chr': m_chr}),
    Unit('readBits', ['hachoir.stream.input:InputStream.readBits'], b_readBits,
         calls={'hachoir.stream.input:InputStream.read': c_read, 'hachoir.core.tools:alignValue': c_alignValue,
                'hachoir.core.bits:str2long': c_str2long}),
    Unit('readInteger', ['hachoir.stream.input:InputStream.readInteger'], b_readInteger,
         calls={'hachoir.stream.input:InputStream.readBits': c_readBits}),
    Unit('str2long', ['hachoir.core.bits:str2long'], b_str2long,
         calls={'hachoir.core.bits:strswapmid': c_strswapmid}),
    Unit('strswapmid', ['hachoir.core.bits:strswapmid'], b_swapmid('strswapmid')),
    Unit('arrswapmid', ['hachoir.core.bits:arrswapmid'], b_swapmid('arrswapmid')),
    Unit('alignValue', ['hachoir.core.tools:alignValue'], b_alignValue),
]
