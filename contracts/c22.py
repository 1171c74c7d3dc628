"""C22: editable fields accept exactly the values their encoding can hold.

The field stands at an arbitrary place of an arbitrary parent; it is a field of
the original set or a new one, and may have been edited before. The output is
the contract of OutputStream (C05): the bits of a number in a byte order, or
bytes. "Parses back" is the contract of the field classes (C01, C14).
"""
import datetime as dt
import z3
from pyvc.core import RT, SInt, SBytes, SList, LoopSpec, Sym, mkint, mkbool, zint, iv, Unsupported, P2F, MODF, zmul
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.c16 import patched
from contracts.c14 import ENC, BOMS

PROP = 'C22'
ED = 'hachoir.editor.typed_field:'
EF = 'hachoir.editor.fieldset:'
CV = lib.Content('value', 'C')
CO = lib.Content('oldvalue', 'C')


class Orig(Sym):
    """a field of the original set"""

    def __init__(self, **k):
        self.__dict__.update(k)


class Input(Sym):
    """the original set"""

    def __getitem__(self, name):
        if name != 'f':
            raise KeyError(name)
        return RT.ghost['orig']

    def __contains__(self, name):
        return name == 'f'

    def sym_contains(self, name):
        return name == 'f'

    @property
    def stream(self):
        return RT.ghost['stream']


class Parent(Sym):
    path = '/'

    def __init__(self, endian):
        self.endian = endian
        self.input = Input()

    def _getOriginalField(self, name):
        return self.input[name]


class Out(Sym):
    """ASSUMED (C05): what was written, in order"""

    def __init__(self):
        self.nums, self.bytes, self.order = [], None, []

    def writeBits(self, count, value, endian):
        RT.prove(z3.And(zint(value) >= 0, zint(value) < zint(RT.p2(zint(count)))), 'writing: the number fits its bits (precondition of writeBits)')
        self.order.append('bits')
        self.nums.append((zint(count), zint(value), endian))

    def writeInteger(self, value, signed, size_byte, endian):
        n = z3.simplify(8 * zint(size_byte))
        v, p = zint(value), zint(RT.p2(n))
        half = zint(RT.p2(z3.simplify(n - 1)))
        if signed:
            RT.prove(z3.And(v >= -half, v < half), 'writing: the number fits its bytes (precondition of writeInteger)')
            v = z3.If(v < 0, v + p, v)
        else:
            RT.prove(z3.And(v >= 0, v < p), 'writing: the number fits its bytes (precondition of writeInteger)')
        self.order.append('bits')
        self.nums.append((n, v, endian))

    def writeBytes(self, data):
        if not isinstance(data, (bytes, SBytes)):
            raise TypeError('a bytes-like object is required')
        self.order.append('bytes')
        d = SBytes.lift(data)
        self.bytes = d if self.bytes is None else self.bytes + d


def choose_endian():
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
    e = RT.ghost['endian'] = RT.choice([BIG_ENDIAN, LITTLE_ENDIAN], 'endian')
    return Parent(e)


def snap(f):
    return dict((k, v) for k, v in f.__dict__.items())


def unchanged(f, s, what):
    d = f.__dict__
    RT.prove(set(d) == set(s) and all(d[k] is s[k] or (isinstance(d[k], (int, str, bytes, bool)) and type(d[k]) is type(s[k]) and d[k] == s[k]) for k in s),
             what + ': a refused value leaves the field unchanged')


def rejected(kind, r, typed, what):
    """typed: the value is of the kind of the field"""
    ok = (ValueError,) if typed else (ValueError, TypeError)
    RT.prove(kind == 'exc' and isinstance(r, ok), what + (': a value which does not fit is refused with a value error' if typed else ': what is no value of this kind is refused'))
    RT.cover('refused')


def setting(cls, mk, v, init_args, what):
    """makes the field (new with the value, or of the original set, edited before or not) and sets its value.
    Returns (kind, result, field or None, snapshot)"""
    how = RT.choice(['original', 'edited', 'new'], 'history')
    p = choose_endian()
    if how == 'new':
        kind, r = expect(ED + cls.__name__ + '.__init__', cls, p, 'f', *init_args)
        return kind, r, (r if kind == 'ret' else None), None
    mk()
    kind, f = expect(ED + cls.__name__ + '.__init__', cls, p, 'f')
    RT.prove(kind == 'ret', what + ': an editable field of a field of the original set')
    RT.prove(f.is_altered is False, what + ': not altered at first')
    o = RT.ghost['orig']
    if hasattr(o, 'value'):
        RT.prove(f.value is o.value, what + ': the original value at first')
    RT.prove(zint(f.size) == zint(o.size), what + ': the original size at first')
    if how == 'edited':
        f._value = RT.ghost['old']
        f._is_altered = True
    s = snap(f)
    kind, r = expect(ED + 'EditableField._propSetValue', setattr, f, 'value', v)
    return kind, r, f, s


def accepted(kind, r, f, v, size, what):
    RT.prove(kind == 'ret', what + ': a value which fits is accepted')
    if kind != 'ret':
        return None
    RT.prove(f.is_altered is True, what + ': the field is altered')
    x = f.value
    RT.prove(x is v or (isinstance(x, (int, SInt)) and RT.entails(zint(x) == zint(v))), what + ': the field has the new value')
    RT.prove(zint(f.size) == size, what + ': size')
    out = Out()
    k, r = expect(ED + type(f).__name__ + '._write', f.writeInto, out)
    RT.prove(k == 'ret', what + ': writing does not fail')
    RT.cover('written')
    return out


def bits_written(out, size, what):
    """the number written, whose bits are those of the field in the byte order of the parent"""
    RT.prove(out.order == ['bits'], what + ': one number is written')
    n, v, e = out.nums[0]
    RT.prove(n == size, what + ': exactly the bits of the field are written')
    RT.prove(e == RT.ghost['endian'], what + ': in the byte order of the parent')
    return v


WRONG = ['1', b'\x01', None, 1.5, [1]]


def number(lo, hi):
    s = RT.input_int('size', 1)
    RT.fact(P2F(s.e) >= 2)
    RT.fact(P2F(s.e) == 2 * P2F(z3.simplify(s.e - 1)))
    v = RT.input_int('new')
    old = RT.ghost['old'] = RT.input_int('old')
    return s, v, old


def b_number(name):
    def body():
        import hachoir.editor.typed_field as M
        g = RT.ghost
        cls = getattr(M, name)
        signed = RT.choice([False, True], 'signed') if name == 'EditableInteger' else False
        s = RT.input_int('size', 8 if name == 'EditableInteger' else 1)
        p = P2F(s.e)
        half = P2F(z3.simplify(s.e - 1))
        RT.fact(z3.And(p == 2 * half, half >= 1))
        lo, hi = (-half, half) if signed else (iv(0), p)
        old = g['old'] = RT.input_int('old')
        RT.assume(z3.And(lo <= old.e, old.e < hi))
        typed = RT.choice([True, False], 'a number')
        v = RT.input_int('new') if typed else RT.choice(WRONG, 'wrong')
        if typed:
            for x in (0, -1):
                lib.div_unique(v.e, p, iv(x), v.e - x * p)

        def mk():
            g['orig'] = Orig(size=s, signed=signed, value='the original value')
        args = (signed, s, v) if name == 'EditableInteger' else (s, v)
        kind, r, f, snp = setting(cls, mk, v, args, name)
        fits = z3.And(lo <= v.e, v.e < hi) if typed else z3.BoolVal(False)
        if kind == 'ret':
            RT.prove(fits, name + ': a value which does not fit is refused')
            out = accepted(kind, r, f, v, s.e, name)
            u = bits_written(out, s.e, name)
            # what the field parsed there reads (C01)
            back = z3.If(u >= half, u - p, u) if signed else u
            RT.prove(z3.And(u >= 0, u < p, back == v.e), name + ': what is written parses back to the value')
        else:
            RT.prove(z3.Not(fits), name + ': a value which fits is accepted')
            rejected(kind, r, typed, name)
            if f is not None:
                unchanged(f, snp, name)
    return body


class Char(Sym):
    """a text of one character"""
    is_text = True

    def __init__(self, code):
        self.code = code

    def len_(self):
        return 1

    def ord_(self):
        return self.code

    def encode(self, charset='utf-8', errors='strict'):
        raise Unsupported('encode')


def b_char():
    import hachoir.editor.typed_field as M
    g = RT.ghost
    cls, name = M.EditableCharacter, 'EditableCharacter'
    typed = RT.choice([True, False], 'a character')
    c = RT.input_int('code', 0, 0x10ffff)
    v = Char(c) if typed else RT.choice([1, b'a', None, '', 'ab', ['a']], 'wrong')
    g['old'] = 'x'

    def mk():
        g['orig'] = Orig(size=8, value='o')
    kind, r, f, s = setting(cls, mk, v, (v,), name)
    if kind == 'ret':
        RT.prove(typed and c.e < 256, name + ': a value which does not fit is refused')
        out = accepted(kind, r, f, v, iv(8), name)
        if out.order == ['bytes']:
            b = out.bytes
            RT.prove(b.q.length() == 1, name + ': exactly the bits of the field are written')
            u = b.q.term(iv(0))
        else:
            u = bits_written(out, iv(8), name)
        RT.prove(u == c.e, name + ': what is written parses back to the value')
    else:
        RT.prove(z3.Not(c.e < 256) if typed else True, name + ': a value which fits is accepted')
        rejected(kind, r, typed, name)
        if f is not None:
            unchanged(f, s, name)


def any_bytes(content, label):
    n = RT.input_int(label + ' length', 0)
    return SBytes([('arr', content.C, iv(0), n.e)]), n.e


def b_bytes():
    import hachoir.editor.typed_field as M
    g = RT.ghost
    cls, name = M.EditableBytes, 'EditableBytes'
    typed = RT.choice([True, False], 'bytes')
    v, n = any_bytes(CV, 'new')
    g['old'] = any_bytes(CO, 'old')[0]
    if not typed:
        v = RT.choice(['a', 1, [1]], 'wrong')

    def mk():
        g['orig'] = Orig(size=RT.input_int('size', 1), value='o')
    kind, r, f, s = setting(cls, mk, v, (v,), name)
    if kind == 'ret':
        RT.prove(n > 0 if typed else False, name + ': a value which does not fit is refused')
        out = accepted(kind, r, f, v, 8 * n, name)
        RT.prove(set(out.order) == {'bytes'}, name + ': bytes are written')
        lib.same_bytes(out.bytes, n, lambda j: CV.C(j), name + ': what is written parses back to the value')
    else:
        RT.prove(z3.Not(n > 0) if typed else True, name + ': a value which fits is accepted')
        rejected(kind, r, typed, name)
        if f is not None:
            unchanged(f, s, name)


FORMATS = ('C', 'UnixLine', 'fixed', 'Pascal8', 'Pascal16', 'Pascal32')


class BomStream(Sym):
    def readBytes(self, address, nbytes):
        g = RT.ghost
        RT.prove(z3.Implies(zint(nbytes) != 0, z3.And(zint(address) == g['abs'].e + 8 * g['prefix'], zint(nbytes) == len(g['bom']))), 'string: the BOM of the original string is kept')
        if RT.entails(zint(nbytes) == 0):
            return b''
        return g['bom']


def b_string(fmt):
    def body():
        import hachoir.editor.typed_field as M
        from hachoir.field.string_field import GenericString
        from hachoir.core.endian import BIG_ENDIAN
        g = RT.ghost
        cls, name = M.EditableString, 'EditableString'
        typed = RT.choice([True, False], 'bytes')
        v, n = any_bytes(CV, 'new')
        g['v'] = v
        g['old'] = any_bytes(CO, 'old')[0]
        if not typed:
            v = RT.choice(['a', 1, None], 'wrong')
        cs = RT.choice([None, 'ISO-8859-1'] + sorted(ENC), 'charset')
        how = RT.choice(['original', 'edited', 'new'], 'history')
        p = choose_endian()
        pe = 'B' if p.endian is BIG_ENDIAN else 'L'
        w, ce = ENC.get(cs, (1, None))
        prefix = g['prefix'] = dict(Pascal8=1, Pascal16=2, Pascal32=4).get(fmt, 0)
        be = None       # byte order given by the BOM
        if ce == 'BOM':
            be = pe if how == 'new' else RT.choice(['B', 'L'], 'BOM')
        g['bom'] = bom = BOMS[w][be] if be else b''
        order = be or ce or pe
        nul = {'C': 0, 'UnixLine': 10}.get(fmt)
        suffix = b'' if nul is None else nul.to_bytes(w, 'big' if order == 'B' else 'little')
        g['suffix'] = suffix
        if how == 'new':
            kind, r = expect(ED + 'EditableString.__init__', lambda: cls(p, 'f', fmt, v, charset=cs))
            f, s = (r if kind == 'ret' else None), None
        else:
            g['abs'] = RT.input_int('address', 0)
            g['stream'] = BomStream()
            resolved = {(2, 'L'): 'UTF-16-LE', (2, 'B'): 'UTF-16-BE', (4, 'L'): 'UTF-32LE', (4, 'B'): 'UTF-32BE'}
            g['orig'] = Orig(size=RT.input_int('size', 1), value='o', charset=resolved[w, be] if be else cs or 'ASCII', format=fmt, content_offset=prefix + len(bom),
                             suffix_str=suffix or '', absolute_address=g['abs'])
            kind, f = expect(ED + 'EditableString.__init__', cls, p, 'f')
            RT.prove(kind == 'ret', 'string: an editable string of the original set')
            RT.prove(f.is_altered is False and f.value is g['orig'].value, 'string: the original value at first')
            if how == 'edited':
                f._value, f._is_altered = g['old'], True
            s = snap(f)
            kind, r = expect(ED + 'EditableField._propSetValue', setattr, f, 'value', v)
        if not typed:
            rejected(kind, r, False, 'string')
            if f is not None:
                unchanged(f, s, 'string')
            return
        total = len(bom) + n
        j = z3.Int('position')
        at = lambda q: z3.And(q >= 0, q < n, q % w == 0, *[CV.C(q + k) == suffix[k] for k in range(w)])
        whole = z3.And(n % w == 0) if suffix else z3.BoolVal(True)
        limit = total < 256**prefix if prefix else (total > 0 if fmt == 'fixed' else z3.BoolVal(True))
        if kind == 'ret':
            RT.prove(limit, 'string: a value which does not fit its length is refused')
            if suffix:
                RT.prove(whole, 'string: a value with half a character before its terminator is refused')
                q = z3.Int('any_earlier')
                RT.prove(z3.Not(at(q)), 'string: a value with its terminator inside is refused')
            out = accepted(kind, r, f, v, 8 * (prefix + total + len(suffix)), 'string')
            lit = [x for x in bom]
            if prefix:
                RT.prove(out.order[0] == 'bits' and set(out.order[1:]) == {'bytes'} and len(out.nums) == 1, 'string: the length, then the bytes')
                cnt, num, e = out.nums[0]
                RT.prove(z3.And(cnt == 8 * prefix, num == total), 'string: the length of the bytes')
                RT.prove(e == g['endian'], 'string: the length in the byte order of the parent')
            else:
                RT.prove(set(out.order) == {'bytes'}, 'string: bytes are written')

            def want(i):
                r = iv(0)
                for k in range(len(suffix)):
                    r = z3.If(i == total + k, suffix[k], r)
                r = z3.If(i < total, CV.C(i - len(bom)), r)
                for k in range(len(bom)):
                    r = z3.If(i == k, bom[k], r)
                return r
            lib.same_bytes(out.bytes, total + len(suffix), want, 'string: what is written parses back to the value')
        else:
            bad = z3.Not(z3.And(limit, whole))
            if suffix:
                bad = z3.Or(bad, z3.Exists([j], at(j)), *[at(x) for x in g.get('witness', [])])
            RT.prove(bad, 'string: a value which fits is accepted')
            rejected(kind, r, True, 'string')
            if f is not None:
                unchanged(f, s, 'string')
    return body


def str_inv(L):
    """no terminator before the position"""
    g = RT.ghost
    w = len(g['suffix'])
    q = z3.Int('any_earlier')
    k = zint(L._idx)
    CVn = CV.C
    return [('no terminator before the position', z3.Implies(z3.And(q >= 0, q < k * w, q % w == 0), z3.Not(z3.And(*[CVn(q + i) == g['suffix'][i] for i in range(w)]))))]


class Secs(Sym):
    """ASSUMED: total_seconds() of less than 2**52 microseconds; int() of it drops the fraction"""

    def __init__(self, us):
        self.us = us


class Diff(Sym):
    def __init__(self, us):
        self.us = us

    def total_seconds(self):
        return Secs(self.us)

    def __floordiv__(self, o):
        return mkint(self.us / (o // dt.timedelta(microseconds=1)))

    @property
    def days(self):
        return mkint(self.us / (86400 * 10**6))

    @property
    def seconds(self):
        return mkint(self.us / 10**6 % 86400)

    @property
    def microseconds(self):
        return mkint(self.us % 10**6)


def us_of(d):
    return (d - dt.datetime(1, 1, 1)) // dt.timedelta(microseconds=1)


class Date(Sym):
    """ASSUMED: datetime (no time zone) is its number of microseconds since the year 1"""

    def __init__(self, us):
        self.us = us

    def sym_isinstance(self, types):
        return any(t is dt.datetime or t is dt.date or t is object for t in types)

    def replace(self, **k):
        if set(k) != {'microsecond'}:
            raise Unsupported('replace')
        return Date(z3.simplify(self.us - self.us % 10**6 + k['microsecond']))

    @property
    def microsecond(self):
        return mkint(self.us % 10**6)

    def _cmp(self, o, f):
        if isinstance(o, Date):
            return mkbool(f(self.us, o.us))
        if isinstance(o, dt.datetime):
            return mkbool(f(self.us, iv(us_of(o))))
        return NotImplemented

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __sub__(self, o):
        if isinstance(o, dt.datetime):
            return Diff(z3.simplify(self.us - us_of(o)))
        return NotImplemented


def m_int(x, *a):
    if isinstance(x, Secs) and not a:
        # toward zero
        return mkint(z3.If(x.us >= 0, x.us / 10**6, -((-x.us) / 10**6)))
    raise Unsupported('int of a model')


def b_mac():
    import hachoir.editor.typed_field as M
    g = RT.ghost
    cls, name = M.EditableTimestampMac32, 'EditableTimestampMac32'
    typed = RT.choice([True, False], 'a date')
    us = RT.input_int('microseconds since the year 1', 0, us_of(dt.datetime.max)).e
    v = Date(us) if typed else RT.choice(['2000-01-01', 5, None, dt.date(2000, 1, 1)], 'wrong')
    g['old'] = dt.datetime(2000, 1, 1)

    def mk():
        g['orig'] = Orig(size=32, value='o')
    kind, r, f, s = setting(cls, mk, v, (v,), name)
    t0 = us_of(dt.datetime(1904, 1, 1))
    sec = (us - t0) / 10**6
    fits = z3.And(sec >= 0, sec < 2**32) if typed else z3.BoolVal(False)
    if kind == 'ret':
        RT.prove(fits, name + ': a value which does not fit is refused')
        RT.prove(f.is_altered is True and RT.entails(zint(f.size) == 32), name + ': altered, size')
        x = f.value
        RT.prove(isinstance(x, Date), name + ': a date')
        # the resolution of the encoding is one second
        RT.prove(x.us == t0 + sec * 10**6, name + ': the field has the new value, to the second')
        out = Out()
        k, r = expect(ED + name + '._write', f.writeInto, out)
        RT.prove(k == 'ret', name + ': writing does not fail')
        RT.cover('written')
        u = bits_written(out, iv(32), name)
        RT.prove(u == sec, name + ': what is written parses back to the value')
    else:
        RT.prove(z3.Not(fits), name + ': a value which fits is accepted')
        rejected(kind, r, typed, name)
        if f is not None:
            unchanged(f, s, name)


def b_float():
    """ASSUMED contract of struct.pack: the bytes of the number in the format, or an error if it
    is no number (struct.error) or does not fit (OverflowError)"""
    import struct
    import hachoir.editor.fieldset as M
    RT.trusted.add('struct.pack')
    how = RT.choice(['fits', 'too large', 'too large for a float', 'no number'], 'value')
    size = RT.choice([32, 64], 'size')
    v, old = object(), object()
    packed = []

    class Struct:
        error = struct.error

        @staticmethod
        def pack(fmt, x):
            packed.append((fmt, x))
            if x is v and how == 'too large':
                raise OverflowError('too large')
            if x is v and how in ('no number', 'too large for a float'):
                raise struct.error('no number')
            return SBytes([('arr', (CV if x is v else CO).C, iv(0), iv(size // 8))])
    inp = Orig(size=size, struct_format='the format', value='the original value', name='f', absolute_address=0)
    f = lib.obj(M.EditableFloat, input=inp, _parent=None, _fields={}, _deleted=set(), _inserted={})
    edited = RT.choice([False, True], 'edited before')
    if edited:
        f.__dict__['_value'] = old
    s = snap(f)
    with patched(M, struct=Struct):
        kind, r = expect(EF + 'EditableFloat._setValue', setattr, f, 'value', v)
        RT.prove(all(p == ('the format', v) for p in packed), 'EditableFloat: checked in the format of the field')
        if kind == 'ret':
            RT.prove(how == 'fits', 'EditableFloat: a value which does not fit is refused')
            RT.prove(f.is_altered is True and f.value is v and f.size == size, 'EditableFloat: the field has the new value, and its size')
            out = Out()
            k, r = expect(EF + 'EditableFloat._write', f.writeInto, out)
            RT.prove(k == 'ret', 'EditableFloat: writing does not fail')
            if k == 'ret':
                RT.cover('written')
                RT.prove(out.order == ['bytes'] and packed[-1] == ('the format', v), 'EditableFloat: the number is written in the format of the field')
                lib.same_bytes(out.bytes, iv(size // 8), lambda j: CV.C(j), 'EditableFloat: what is written parses back to the value')
        else:
            RT.prove(how != 'fits', 'EditableFloat: a value which fits is accepted')
            rejected(kind, r, how != 'no number', 'EditableFloat')
            unchanged(f, s, 'EditableFloat')
            RT.prove(f.value is (old if edited else 'the original value'), 'EditableFloat: a refused value leaves the field unchanged')


# fields of the library and what edits them; any other field is only copied
KINDS = dict(EditableInteger='GenericInteger UInt8 UInt16 UInt24 UInt32 UInt64 Int8 Int16 Int24 Int32 Int64',
             EditableString='GenericString String CString UnixLine PascalString8 PascalString16 PascalString32',
             EditableBytes='Bytes RawBytes PaddingBytes', EditableBits='Bits RawBits Bit PaddingBits', EditableCharacter='Character',
             EditableTimestampMac32='TimestampMac32',
             FakeField='NullBits NullBytes TimestampUnix32 TimestampUnix64 TimestampWin64 TimedeltaWin64 DateTimeMSDOS32 TimestampUUID60 Float80 SubFile Link')


def b_kind():
    """each class of field of the library"""
    import hachoir.field as F
    import hachoir.editor.typed_field as M
    for name, classes in KINDS.items():
        for c in classes.split():
            cls = getattr(F, c, None)
            if cls is None:
                continue
            f = lib.obj(cls, _name='f', _parent=None, _size=32, _description=None, _address=0)
            made = []

            def mk(k):
                def make(p, n, *a, **kw):
                    made.append((k, p, n, a, kw))
                    return made[-1]
                return make
            names = [k for k in dir(M) if k.startswith('Editable') and k != 'EditableField' or k == 'FakeField']
            parent = object()
            with patched(M, **{k: mk(k) for k in names}):
                kind, r = expect(ED + 'createEditableField', M.createEditableField, parent, f)
            RT.prove(kind == 'ret', 'a field of class %s can be edited or copied' % c)
            if kind == 'ret':
                RT.prove(len(made) == 1 and r is made[0] and made[0][0] == name, 'a field of class %s: %s' % (c, name))
                RT.prove(r[1] is parent and r[2] == 'f' and not r[3] and not r[4], 'of the same set and name, with its original value')
    RT.cover('classes')


def b_kind_set():
    import hachoir.field as F
    import hachoir.editor.fieldset as M
    for c, name in (('Float32', 'EditableFloat'), ('Float64', 'EditableFloat'), ('FieldSet', 'EditableFieldSet'), ('Parser', 'EditableFieldSet'), ('Float80', 'EditableFieldSet')):
        cls = getattr(F, c, None)
        if cls is None:
            continue
        f = lib.obj(cls, _name='f', _size=32, _parent=None)
        made = []

        def mk(k):
            def make(p, g):
                made.append((k, p, g))
                return made[-1]
            return make
        parent = object()
        with patched(M, EditableFloat=mk('EditableFloat'), EditableFieldSet=mk('EditableFieldSet')):
            kind, r = expect(EF + 'createEditableFieldSet', M.createEditableFieldSet, parent, f)
            RT.prove(kind == 'ret' and made == [(name, parent, f)] and r is made[0], 'a set of class %s: %s' % (c, name))
            del made[:]
            kind, r = expect(EF + 'createEditor', M.createEditor, f)
            RT.prove(kind == 'ret' and made == [('EditableFieldSet', None, f)] and r is made[0], 'the editor of a set')
    RT.cover('classes')


LOOPS = {ED + 'EditableString._setValue#0': LoopSpec(str_inv, None)}
UNITS = [Unit(n, [ED + n + m for m in ('.__init__', '._setValue', '._write')] + [ED + 'EditableField.writeInto', ED + 'EditableField._propGetValue'], b_number(n))
         for n in ('EditableInteger', 'EditableBits')]
UNITS += [
    Unit('EditableCharacter', [ED + 'EditableCharacter' + m for m in ('.__init__', '._setValue', '._write')], b_char),
    Unit('EditableBytes', [ED + 'EditableBytes' + m for m in ('.__init__', '._setValue', '._computeSize', '._write')], b_bytes),
    Unit('EditableTimestampMac32', [ED + 'EditableTimestampMac32' + m for m in ('.__init__', '._setValue', '._write')], b_mac, models={'int': m_int}),
]
UNITS += [Unit('EditableString ' + x, [ED + 'EditableString' + m for m in ('.__init__', '._setValue', '._computeSize', '._write')], b_string(x), loops=LOOPS) for x in FORMATS]
UNITS += [Unit('EditableFloat', [EF + 'EditableFloat' + m for m in ('._setValue', '._getValue', '._isAltered', '._getSize', '.writeInto', '._write')], b_float)]
UNITS += [Unit('which editable field', [ED + 'createEditableField'], b_kind), Unit('which editable set', [EF + 'createEditableFieldSet', EF + 'createEditor'], b_kind_set)]
ASSUMPTIONS = [
    'OutputStream.writeBits, writeInteger and writeBytes have the contracts proved under C05',
    'parsing is the contract of the field classes (C01 for numbers, C14 for strings)',
    'datetime arithmetic is exact to the microsecond; total_seconds() of less than 2**52 microseconds rounds to its whole seconds under int()',
    'struct.pack gives the bytes of the number in the format, rounded, or refuses it; struct.unpack reads them back',
]
