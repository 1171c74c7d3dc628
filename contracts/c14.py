"""C14: string fields consume exactly their encoded extent.

The stream is arbitrary: OCC(p) says that the terminator of the string stands
at byte p (position in the stream), q is an arbitrary byte position fixed
beforehand. ASSUMED contract of searchBytesLength (proved by C03): the first
occurrence at or after the start address, None if there is none.
"""
import z3
from pyvc.core import RT, SInt, LoopSpec, Sym, mkint, mkbool, zint, iv, Opaque, Unsupported
from pyvc.contract import Unit, expect
from contracts import lib

PROP = 'C14'
SF = 'hachoir.field.string_field:'
GS = SF + 'GenericString.'
OCC = z3.Function('terminator_at', z3.IntSort(), z3.BoolSort())
PREFIX = z3.Int('announced_length')

ENC = {'UTF-8': (1, None), 'UTF-16-LE': (2, 'L'), 'UTF-16-BE': (2, 'B'), 'UTF-32LE': (4, 'L'), 'UTF-32BE': (4, 'B'),
       'UTF-16': (2, 'BOM'), 'UTF-32': (4, 'BOM')}
BOMS = {2: {'L': b'\xff\xfe', 'B': b'\xfe\xff'}, 4: {'L': b'\xff\xfe\0\0', 'B': b'\0\0\xfe\xff'}}
CODEC = {(2, 'L'): 'utf-16-le', (2, 'B'): 'utf-16-be', (4, 'L'): 'utf-32-le', (4, 'B'): 'utf-32-be'}


class Stream(Sym):
    """an arbitrary stream"""

    def __init__(self):
        self.searched = None

    def searchBytesLength(self, needle, include_needle, start_address=0, end_address=None):
        from hachoir.stream import InputStreamError
        g = RT.ghost
        a = zint(start_address)
        if not RT.branch(a % 8 == 0):
            raise InputStreamError('not aligned')
        RT.prove(end_address is None, 'the terminator is searched up to the end of the stream')
        RT.prove(type(needle) is bytes, 'the terminator is searched')
        if g['searched'] is None:
            g['searched'] = needle
        RT.prove(needle == g['searched'], 'one terminator is searched')
        a = z3.simplify(a / 8)
        q = g['q']
        if RT.choice([True, False], 'found'):
            r = RT.int('pos').e
            RT.assume(z3.And(r >= 0, OCC(a + r), z3.Not(z3.And(a <= q, q < a + r, OCC(q)))))
            return mkint(r + len(needle) if include_needle else r)
        RT.assume(z3.Not(z3.And(a <= q, OCC(q))))
        return None

    def readBits(self, address, nbits, endian):
        g = RT.ghost
        RT.prove(z3.And(zint(address) == g['abs'], zint(nbits) == 8 * g['prefix']), 'the prefix is read')
        RT.prove(endian == g['endian'], 'the prefix is read in the byte order of the parent')
        return mkint(PREFIX)

    def readBytes(self, address, nbytes):
        g = RT.ghost
        if g['phase'] == 'value':
            g['reads'].append((address, nbytes))
            return Raw(b'', address, nbytes)
        w = g['w']
        RT.prove(z3.And(zint(address) == g['abs'] + 8 * g['prefix'], zint(nbytes) == w), 'the BOM is read at the start of the content')
        b = RT.choice(['L', 'B', None], 'BOM')
        g['bom'] = b
        if b is None:
            return b'?' * w
        # a BOM is not a terminator
        RT.fact(z3.Not(OCC(g['abs'] / 8)))
        return BOMS[w][b]


def params():
    from hachoir.field.string_field import GenericString
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
    g = RT.ghost
    kind = RT.choice(['8 bit', 'UTF'], 'charset kind')
    if kind == 'UTF':
        cs = RT.choice(sorted(ENC), 'charset')
    else:
        cs = RT.choice([None] + sorted(GenericString.CHARSET_8BIT), 'charset')
    g['w'], g['ce'] = ENC.get(cs, (1, None))
    e = g['endian'] = RT.choice([BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN], 'endian')
    return cs


def build(prefix):
    from hachoir.field import Field
    g = RT.ghost
    g['prefix'], g['searched'], g['bom'], g['phase'], g['reads'] = prefix, None, None, 'init', []
    g['abs'] = RT.input_int('absolute_address', 0).e
    g['q'] = RT.int('any_position').e
    RT.assume(PREFIX >= 0)
    # the byte order is the one of the parent, not of the root
    root = lib.obj(Field, _parent=None, _name='root', _address=0, endian='other')
    return lib.obj(Field, nextFieldAddress=lambda: 5, _parent=root, root=root, _name='p', _address=0, stream=Stream(), endian=g['endian'])


def common(f, kind, cs):
    """the charset is the one of the BOM"""
    g = RT.ghost
    if g['ce'] == 'BOM':
        RT.prove(g['bom'] is not None, 'a string with a wrong BOM is refused')
        RT.prove(f._charset == {'L': {2: 'UTF-16-LE', 4: 'UTF-32LE'}, 'B': {2: 'UTF-16-BE', 4: 'UTF-32BE'}}[g['bom']][g['w']], 'the charset is the one of the BOM')
        bom = g['w']
    else:
        RT.prove(f._charset == cs, 'the charset is the given one')
        bom = 0
    return bom


def b_suffix():
    from hachoir.field.string_field import CString, UnixLine
    from hachoir.field import FieldError
    from hachoir.stream import InputStreamError
    g = RT.ghost
    cs = params()
    fmt = RT.choice(['C', 'UnixLine'], 'format')
    p = build(0)
    w, q, a = g['w'], g['q'], g['abs']
    qa = z3.And(q >= a / 8, (q - a / 8) % w == 0)
    kind, f = expect(GS + '__init__', {'C': CString, 'UnixLine': UnixLine}[fmt], p, 's', charset=cs)
    RT.cover(kind)
    ce = g['ce'] if g['ce'] != 'BOM' else g['bom']
    ch = {'C': '\0', 'UnixLine': '\n'}[fmt]
    if kind == 'exc' and type(f) is InputStreamError:
        RT.prove(a % 8 != 0, 'terminated string: only an unaligned one is refused')
        return
    if g['searched'] is not None:
        RT.prove(w == 1 or ce in ('L', 'B'), 'the byte order is known when the terminator is searched')
        RT.prove(g['searched'] == (ch.encode('ascii') if w == 1 else ch.encode(CODEC[w, ce])), 'the terminator of the character width is searched')
    if kind == 'exc':
        RT.prove(isinstance(f, FieldError), 'terminated string: refused with a field error')
        if not (g['ce'] == 'BOM' and g['bom'] is None):
            RT.prove(z3.Not(z3.And(qa, OCC(q))), 'terminated string: refused only if there is no terminator')
        return
    bom = common(f, fmt, cs)
    L = RT.int('length').e
    RT.assume(L * 8 == zint(f._size) - 8 * w)
    RT.prove(zint(f._size) == 8 * (zint(f._content_size) + bom + w), 'terminated string: the text, and the terminator')
    L = zint(f._content_size) + bom
    RT.prove(z3.And(L >= 0, L % w == 0), 'terminated string: whole characters')
    RT.prove(OCC(a / 8 + L), 'terminated string: ends with the terminator')
    RT.prove(z3.Not(z3.And(qa, q < a / 8 + L, OCC(q))), 'terminated string: ends at the first terminator')
    RT.prove(zint(f._content_offset) == bom, 'terminated string: content offset')
    RT.prove(zint(f._content_size) >= 0, 'terminated string: content size')


def suffix_inv_address(L):
    """the same, when the loop counts an address in bits"""
    g = RT.ghost
    q, a, w = g['q'], g['abs'], g['w']
    l = [zint(L.get(x)) for x in L._mod if isinstance(L.get(x), (int, SInt))]
    if not l:
        raise Unsupported('one address')
    n = z3.simplify((l[0] - a) / 8)
    return [('nothing before', z3.And(l[0] >= a, (l[0] - a) % 8 == 0, n % w == 0, z3.Not(z3.And(q >= a / 8, (q - a / 8) % w == 0, q < a / 8 + n, OCC(q)))))]


def suffix_inv(L):
    g = RT.ghost
    q, a, w = g['q'], g['abs'], g['w']
    l = [zint(L.get(x)) for x in L._mod if isinstance(L.get(x), (int, SInt))]
    if len(l) > 1 and isinstance(L._d.get('length'), (int, SInt)):
        l = [zint(L.length)]
    if len(l) != 1:
        raise Unsupported('one position')
    n = l[0]
    return [('nothing before', z3.And(n >= 0, n % w == 0, z3.Not(z3.And(q >= a / 8, (q - a / 8) % w == 0, q < a / 8 + n, OCC(q)))))]


def b_prefix():
    from hachoir.field.string_field import PascalString8, PascalString16, PascalString32
    from hachoir.field import FieldError
    g = RT.ghost
    cs = params()
    k = RT.choice([1, 2, 4], 'prefix')
    p = build(k)
    kind, f = expect(GS + '__init__', {1: PascalString8, 2: PascalString16, 4: PascalString32}[k], p, 's', charset=cs)
    RT.cover(kind)
    bad = z3.And(z3.BoolVal(g['ce'] == 'BOM'), z3.Or(z3.BoolVal(g['bom'] is None), PREFIX < g['w']))
    if kind == 'exc':
        RT.prove(isinstance(f, FieldError), 'prefixed string: refused with a field error')
        RT.prove(bad, 'prefixed string: refused only for a wrong BOM')
        return
    bom = common(f, 'Pascal', cs)
    RT.prove(zint(f._size) == 8 * (k + PREFIX), 'prefixed string: the prefix, and the announced number of bytes')
    RT.prove(z3.And(zint(f._content_offset) == k + bom, zint(f._content_size) == PREFIX - bom, PREFIX >= bom), 'prefixed string: content')


def b_fixed():
    from hachoir.field.string_field import String
    from hachoir.field import FieldError
    g = RT.ghost
    cs = params()
    p = build(0)
    n = RT.input_int('nbytes')
    kind, f = expect(GS + '__init__', String, p, 's', n, charset=cs)
    RT.cover(kind)
    if kind == 'exc':
        RT.prove(isinstance(f, FieldError), 'fixed string: refused with a field error')
        bad = z3.And(z3.BoolVal(g['ce'] == 'BOM'), z3.Or(z3.BoolVal(g['bom'] is None), n.e < g['w']))
        RT.prove(z3.Or(n.e < 1, n.e > 65535, bad), 'fixed string: refused only for a wrong size or a wrong BOM')
        return
    bom = common(f, 'fixed', cs)
    RT.prove(zint(f._size) == 8 * n.e, 'fixed string: exactly its size')
    RT.prove(z3.And(zint(f._content_offset) == bom, zint(f._content_size) == n.e - bom, n.e >= bom), 'fixed string: content')
    RT.prove(zint(String.static_size('s', n)) == 8 * n.e, 'fixed string: static size')


def b_charset():
    """an unknown charset is refused"""
    from hachoir.field.string_field import CString
    from hachoir.field import FieldError
    RT.ghost['endian'], RT.ghost['w'], RT.ghost['ce'] = 'x', 1, None
    p = build(0)
    kind, f = expect(GS + '__init__', CString, p, 's', charset=RT.choice(['utf-7', 'x', 'UTF-16LE'], 'charset'))
    RT.prove(kind == 'exc' and isinstance(f, FieldError), 'an unknown charset is refused')
    RT.cover('refused')


# ------------------------------------------------------------------ content
class Txt(Sym):
    """a text, known by how it was made"""
    is_text = True

    def __init__(self, made):
        self.made = made

    def find(self, what, *rest):
        if rest:
            raise Unsupported('find from a position')
        k = RT.ghost.setdefault('find', {})
        key = (self.made, what)
        if key not in k:
            k[key] = RT.int('found_at')
            RT.assume(k[key].e >= -1)
        return k[key]

    def index(self, what, *rest):
        r = self.find(what, *rest)
        if RT.branch(r.e < 0):
            raise ValueError('substring not found')
        return r

    def sym_in(self, what):
        return mkbool(self.find(what).e >= 0)

    def sym_contains(self, what):
        return mkbool(self.find(what).e >= 0)

    def __getitem__(self, s):
        if isinstance(s, slice) and s.start in (None, 0) and s.step is None and s.stop is not None:
            return Txt(('cut', self.made, str(zint(s.stop))))
        raise Unsupported('slice of a text')

    def partition(self, what):
        pos = self.find(what)
        if RT.branch(pos.e >= 0):
            return (Txt(('cut', self.made, str(pos.e))), what, Opaque('rest'))
        return (self, '', '')

    def split(self, what=None, n=-1):
        if what is None:
            raise Unsupported('split')
        pos = self.find(what)
        if RT.branch(pos.e >= 0):
            return [Txt(('cut', self.made, str(pos.e))), Opaque('rest')]
        return [self]

    def strip(self, chars=None):
        return Txt(('strip', self.made, chars))

    def lstrip(self, chars=None):
        return Txt(('lstrip', self.made, chars))

    def rstrip(self, chars=None):
        return Txt(('rstrip', self.made, chars))

    def len_(self):
        return mkint(z3.Int('text_length'))


class Raw(Sym):
    """bytes of the stream, followed by some others"""

    def __init__(self, more, address, n):
        self.more, self.address, self.n = more, address, n

    def len_(self):
        return mkint(zint(self.n) + len(self.more))

    def __add__(self, o):
        if isinstance(o, bytes):
            return Raw(self.more + o, self.address, self.n)
        raise Unsupported('bytes + ?')

    def sym_isinstance(self, ts):
        return bytes in ts

    def decode(self, charset='utf-8', errors='strict'):
        return self.sym_decode(charset, errors)

    def sym_decode(self, charset='utf-8', errors='strict'):
        g = RT.ghost
        RT.prove(errors == 'strict', 'the text is decoded strictly')
        if charset == 'ISO-8859-1':
            return Txt(('decoded', self.more, charset))
        key = (self.more, charset)
        d = g.setdefault('decoding', {})
        if key not in d:
            d[key] = RT.choice(['ok', 'truncated', 'truncated before', 'error'], 'decoding %s %s' % (self.more, charset))
        w = d[key]
        if w == 'ok':
            return Txt(('decoded', self.more, charset))
        e = Err(charset, b'', 0, 1, 'truncated data' if w != 'error' else 'illegal encoding')
        e.end_ = self.len_() if w != 'truncated before' else mkint(zint(self.len_()) - 1)
        raise e

    def snap_state(self):
        return ()


class Err(UnicodeDecodeError):
    @property
    def end(self):
        return self.end_


def value_field():
    from hachoir.field.string_field import GenericString
    g = RT.ghost
    g['endian'] = 'x'
    p = build(0)
    g['phase'] = 'value'
    g['off'], g['n'], g['z'] = RT.input_int('content_offset', 0).e, RT.input_int('content_size', 0).e, RT.input_int('whole_size', 1).e
    g['w'] = 1
    trunc = RT.choice([None, '', '\0', 'end'], 'truncate')
    strip = RT.choice([None, False, True, ' \0', ''], 'strip')
    return lib.obj(GenericString, _parent=p, _name='s', _address=0, _content_offset=mkint(g['off']), _content_size=mkint(g['n']), _size=mkint(8 * g['z']),
                   _truncate=trunc, _strip=strip, _charset='ISO-8859-1')


def b_value():
    from hachoir.field.string_field import GenericString
    g = RT.ghost
    f = value_field()
    kind, r = expect(GS + 'createValue', GenericString.createValue, f)
    RT.cover(kind)
    RT.prove(kind == 'ret', 'the value is computed')
    n, a, off = g['n'], g['abs'], g['off']
    if isinstance(r, str):
        RT.prove(z3.And(n == 0, z3.BoolVal(r == '')), 'the value of an empty string is empty')
        return
    RT.prove(len(g['reads']) == 1, 'the content is read once')
    ra, rn = g['reads'][0]
    RT.prove(z3.And(zint(ra) == a + 8 * off, zint(rn) == n), 'exactly the content is read')
    made = ('decoded', b'', 'x')
    if f._truncate:
        pos = g['find'][made, f._truncate] if (made, f._truncate) in g.get('find', {}) else None
        RT.prove(pos is not None, 'the truncation mark is searched in the whole text')
        if RT.branch(pos.e >= 0):
            made = ('cut', made, str(pos.e))
    if f._strip:
        made = ('strip', made, f._strip if f._strip is not True else None)
    RT.prove(isinstance(r, Txt) and r.made == made, 'the value is the decoded content, truncated, then stripped')


def b_raw():
    from hachoir.field.string_field import GenericString
    g = RT.ghost
    f = value_field()
    kind, r = expect(GS + 'createValue', GenericString.createValue, f, False)
    RT.cover(kind)
    RT.prove(kind == 'ret' and isinstance(r, Raw), 'the raw value is read')
    RT.prove(z3.And(zint(r.address) == g['abs'], zint(r.n) == g['z'], z3.BoolVal(not r.more)), 'the raw value is the whole field')


def m_convert(self, text):
    RT.prove(isinstance(text, Raw) and not text.more, 'the content is decoded')
    return Txt(('decoded', b'', 'x'))


def b_convert():
    from hachoir.field.string_field import GenericString
    g = RT.ghost
    f = value_field()
    cs = f._charset = RT.choice([None, 'ISO-8859-1', 'UTF-8', 'UTF-16-LE', 'UTF-16-BE', 'UTF-32LE', 'ASCII'], 'charset')
    kind, r = expect(GS + '_convertText', GenericString._convertText, f, Raw(b'', mkint(g['abs']), mkint(g['n'])))
    RT.cover(kind)
    RT.prove(kind == 'ret' and isinstance(r, Txt) and r.made[0] == 'decoded', 'the content is decoded')
    more, used = r.made[1:]
    if cs is None:
        cs = 'guessed'
        RT.prove(f._charset == cs, 'the guessed charset is kept')
    d = g.get('decoding', {})
    first = d.get((b'', cs), 'ok')
    if first == 'ok':
        RT.prove(more == b'' and used == cs, 'decoded with the charset of the string')
    elif more:
        RT.prove(more == b'\0' and used == cs == 'UTF-16-LE' and first == 'truncated', 'only the missing half of the last character is added')
    else:
        RT.prove(used == 'ISO-8859-1', 'bytes which are not of the charset are decoded as Latin-1')


def m_guess(text, default=None):
    RT.prove(isinstance(text, Raw) and not text.more, 'the charset of the content is guessed')
    return 'guessed'


CALLS = dict(lib.LOG_CALLS, **{'hachoir.field.field:Field.absolute_address': lambda self: mkint(RT.ghost['abs']),
                               'hachoir.field.field:Field.path': lambda self: '/s',
                               'hachoir.core.i18n:guessBytesCharset': m_guess})
LOOPS = [{GS + '_findSuffix#0': LoopSpec(i, None), GS + '__init__#0': LoopSpec(i, None)} for i in (suffix_inv, suffix_inv_address)]
UNITS = [
    Unit('terminated strings', [GS + '__init__', GS + 'staticSuffixStr', GS + '_getSuffixStr', GS + '_findSuffix', GS + '_readBOM'], b_suffix, calls=CALLS, loops=LOOPS, paths=20000),
    Unit('prefixed strings', [GS + '__init__', GS + '_readBOM'], b_prefix, calls=CALLS, paths=20000),
    Unit('fixed strings', [GS + '__init__', GS + '_readBOM'], b_fixed, calls=CALLS, paths=20000),
    Unit('charsets', [GS + '__init__'], b_charset, calls=CALLS),
    Unit('value', [GS + 'createValue'], b_value, calls=dict(CALLS, **{GS + '_convertText': m_convert})),
    Unit('raw value', [GS + 'createValue'], b_raw, calls=dict(CALLS, **{GS + '_convertText': m_convert})),
    Unit('decoding', [GS + '_convertText'], b_convert, calls=CALLS),
]
BOUNDED = []
