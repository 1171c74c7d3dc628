"""Executable contract of the editable fields: set a value, write, parse what was written."""
import datetime as dt
from io import BytesIO
from exe.common import *

ENC = {'UTF-8': (1, None), 'UTF-16-LE': (2, 'L'), 'UTF-16-BE': (2, 'B'), 'UTF-32LE': (4, 'L'), 'UTF-32BE': (4, 'B'), 'UTF-16': (2, 'BOM'), 'UTF-32': (4, 'BOM')}
BOMS = {(2, 'L'): b'\xff\xfe', (2, 'B'): b'\xfe\xff', (4, 'L'): b'\xff\xfe\0\0', (4, 'B'): b'\0\0\xfe\xff'}
T0 = dt.datetime(1904, 1, 1)
FORMATS = ('C', 'UnixLine', 'fixed', 'Pascal8', 'Pascal16', 'Pascal32')


def edge(rng, bits, signed):
    b = rng.choice([0, 1 << bits, 1 << (bits - 1), 1 << max(bits - 2, 0), rng.randrange(1 << bits)])
    return rng.choice([1, -1] if rng.random() < .5 else [1]) * b + rng.choice([0, 0, -1, 1, -2, rng.randrange(5)])


def cases(rng, tier, hints):
    for size in (8, 16, 24, 32, 40, 48, 64, 128, 9, 12):
        for signed in (0, 1):
            for v in (0, 1, -1, 2**(size - 1) - 1, 2**(size - 1), -2**(size - 1), -2**(size - 1) - 1, 2**size - 1, 2**size):
                for how in 'on':
                    yield dict(k='int', s=size, g=signed, v=v, h=how, e='B', pad=0)
    for size in (32, 64):
        for v in ('0.0', '-1.5', '3.25', '1e39', '-1e39', '3.4028234663852886e38', '3.4028235677973366e38', '1e308', 'inf', '-inf', '0.1', '1e-50', '1e-320', '5', '1' + '0' * 400, '-7'):
            for how in 'oe':
                for e in 'BL':
                    yield dict(k='float', s=size, v=v, h=how, e=e, pad=0)
        for w in ('txt', 'none', 'bytes', 'list'):
            for how in 'oe':
                yield dict(k='float', s=size, v='1.0', h=how, e='B', pad=0, w=w)
    while True:
        k = rng.choice(['int', 'bits', 'char', 'bytes', 'str', 'str', 'str', 'mac'])
        c = dict(k=k, h=rng.choice('oen'), e=rng.choice('BL'), pad=0)
        if k == 'int':
            c['s'] = rng.choice([8, 16, 24, 32, 64, rng.randrange(8, 80), rng.randrange(8, 400)])
            c['g'] = rng.randrange(2)
            c['v'] = edge(rng, c['s'], c['g'])
            c['pad'] = rng.choice([0, 0, 3, 8])
        elif k == 'bits':
            c['s'] = rng.randrange(1, 70)
            c['v'] = edge(rng, c['s'], 0)
            c['pad'] = rng.randrange(9)
        elif k == 'char':
            c['v'] = rng.choice([rng.randrange(256), rng.randrange(0x110000), 255, 256, 127, 128])
            c['pad'] = rng.choice([0, 0, 3])
        elif k == 'bytes':
            c['v'] = rbytes(rng, rng.choice([0, 1, 2, 5, 300])).hex()
        elif k == 'mac':
            s = rng.choice([0, 2**32 - 1, 2**31, rng.randrange(2**32)]) + rng.choice([0, 0, -1, 1])
            c['v'] = s * 10**6 + rng.choice([0, 0, 1, 999999, 500000])
        else:
            c['f'] = rng.choice(FORMATS)
            c['c'] = rng.choice([None, 'ISO-8859-1'] + sorted(ENC))
            n = rng.choice([0, 1, 2, 3, 4, 6, 8, 12, 253, 254, 255, 256, 257, 65533, 65535, 65536] if rng.random() < .2 else [0, 1, 2, 3, 4, 6, 8, 12])
            c['v'] = bytes(rng.choice([0, 10, 65, 66, 1] if rng.random() < .3 else [65, 66, 1, 200]) for _ in range(n)).hex()
            c['b'] = rng.choice('BL')
        if rng.random() < .06:
            c['w'] = rng.choice(['txt', 'float', 'none', 'bytes', 'int', 'list'])
        yield c


WRONG = {'txt': 'xy', 'float': 1.5, 'none': None, 'bytes': b'zz', 'int': 5, 'list': [1]}


def run_case(case):
    import hachoir.field as F
    import hachoir.editor as E
    import hachoir.editor.typed_field as TF
    from hachoir.field import Parser
    from hachoir.field.string_field import GenericString
    from hachoir.stream import StringInputStream, OutputStream
    from hachoir.core.log import log
    log.use_print = False
    k, h, pad, en = case['k'], case['h'], case['pad'], case['e']
    e = endians()[en]
    v = case['v']
    fmt, cs = case.get('f'), case.get('c')
    w, ce = ENC.get(cs, (1, None))
    nul = {'C': 0, 'UnixLine': 10}.get(fmt)
    bom = b''
    if k == 'str':
        be = (case['b'] if h != 'n' else en) if ce == 'BOM' else None
        bom = BOMS[w, be] if be else b''
        order = be or ce or en
        suffix = b'' if nul is None else nul.to_bytes(w, 'big' if order == 'B' else 'little')
        npre = dict(Pascal8=1, Pascal16=2, Pascal32=4).get(fmt, 0)
    if k == 'int':
        size0 = case['s']
    elif k == 'bits':
        size0 = case['s']
    elif k == 'char':
        size0, v = 8, chr(v)
    elif k == 'bytes':
        size0, v = 24, bytes.fromhex(v)
    elif k == 'float':
        import struct
        size0, v = case['s'], int(v) if v.lstrip('-').isdigit() else float(v)
        try:
            packed = struct.pack(('>' if en == 'B' else '<') + {32: 'f', 64: 'd'}[size0], v)
        except (OverflowError, struct.error):
            packed = None
    elif k == 'mac':
        size0 = 32
        v = T0 + dt.timedelta(microseconds=v)
    else:
        v = bytes.fromhex(v)
        text0 = bytes([65] * (4 if w > 1 else 3)) if w == 1 else ('A' * 2).encode({1: 'ascii', 2: 'utf-16-', 4: 'utf-32-'}[w] + ('be' if order == 'B' else 'le'))
        data0 = (len(bom + text0)).to_bytes(npre, 'big' if en == 'B' else 'little') + bom + text0 + suffix if npre else bom + text0 + suffix
        size0 = 8 * len(data0)

    which = sum(repr(sorted(case.items())).encode())

    def make(parent, size, name='f'):
        if k == 'int':
            return F.GenericInteger(parent, name, bool(case['g']), size)
        if k == 'bits':
            kinds = [F.Bits, F.RawBits, F.PaddingBits] + [lambda p, n, s: F.Bit(p, n)] * (size == 1 and size == size0)
            return kinds[which % len(kinds)](parent, name, size)
        if k == 'char':
            return F.Character(parent, name)
        if k == 'bytes':
            return (F.RawBytes, F.Bytes, F.PaddingBytes)[which % 3](parent, name, size // 8)
        if k == 'mac':
            return F.TimestampMac32(parent, name)
        if k == 'float':
            return (F.Float32 if size0 == 32 else F.Float64)(parent, name)
        return GenericString(parent, name, fmt, charset=cs, nbytes=size // 8 if fmt == 'fixed' else None)

    def parser(data, size, present):
        class P(Parser):
            endian = e

            def createFields(self):
                if pad:
                    yield F.Bits(self, 'pad', pad)
                if present:
                    yield make(self, size)
                used = pad + (self['f'].size if present else 0)
                yield F.Bits(self, 'tail', 16 + (-used) % 8)
        return P(StringInputStream(data))
    # the original file
    present = h != 'n'
    used = pad + (size0 if present else 0)
    if k == 'str' and present:
        data = data0 + b'\x5a\xa5'
    else:
        data = rbytes(random.Random(repr(case)), (used + 16 + (-used) % 8) // 8, 0)
    ed = E.createEditor(parser(data, size0, present))
    wrong = case.get('w')
    if wrong:
        v = WRONG[wrong]
        if (k in ('int', 'bits') and wrong == 'int') or (k in ('bytes', 'str') and wrong == 'bytes'):
            return None
    # does the encoding hold the value?
    if wrong:
        ok = False
    elif k == 'int':
        lo, hi = (-(1 << (size0 - 1)), 1 << (size0 - 1)) if case['g'] else (0, 1 << size0)
        ok = lo <= v < hi
    elif k == 'bits':
        ok = 0 <= v < 1 << size0
    elif k == 'char':
        ok = ord(v) < 256
    elif k == 'bytes':
        ok = len(v) > 0
    elif k == 'float':
        ok = packed is not None
    elif k == 'mac':
        v1 = v.replace(microsecond=0)
        ok = T0 <= v1 <= T0 + dt.timedelta(seconds=2**32 - 1)
    else:
        ok = len(bom) + len(v) > 0 if fmt == 'fixed' else True
        if npre:
            ok = len(bom) + len(v) < 256**npre
        if suffix:
            ok = len(v) % w == 0 and not any(v[i:i + w] == suffix for i in range(0, len(v), w))
    what = '%s %r' % (dict(int='EditableInteger', bits='EditableBits', char='EditableCharacter', bytes='EditableBytes', mac='EditableTimestampMac32', float='EditableFloat', str='EditableString')[k],
                      v if not isinstance(v, bytes) or len(v) < 40 else v[:40])
    try:
        if h == 'n':
            if k == 'int':
                f = TF.EditableInteger(ed, 'f', bool(case['g']), size0, v)
            elif k == 'bits':
                f = TF.EditableBits(ed, 'f', size0, v)
            elif k == 'char':
                f = TF.EditableCharacter(ed, 'f', v)
            elif k == 'bytes':
                if v is None:
                    return None
                f = TF.EditableBytes(ed, 'f', v)
            elif k == 'mac':
                f = TF.EditableTimestampMac32(ed, 'f', v)
            else:
                f = TF.EditableString(ed, 'f', fmt, v, charset=cs)
            x = None
        else:
            f = ed['f']
            if h == 'e':
                f.value = {'int': 1, 'bits': 1, 'char': 'a', 'bytes': b'abcd', 'mac': dt.datetime(2000, 1, 1), 'float': 2.5, 'str': 4 * b'a'}[k]
            before = (f.value, f.is_altered, f.size)
            f.value = v
            x = None
    except Exception as exc:
        x = exc
    if x is not None:
        if ok:
            return '%s (%s) refused: %r' % (what, h, x)
        if not isinstance(x, (ValueError, TypeError) if wrong else ValueError):
            return '%s (%s) raised %r' % (what, h, x)
        if h != 'n' and before != (f.value, f.is_altered, f.size):
            return '%s refused, but the field changed' % what
        return None
    if not ok:
        return '%s (%s) accepted' % (what, h)
    if k == 'mac':
        v = v1
    if f.value != v or type(f.value) is not type(v) or not f.is_altered:
        return '%s: the value is %r' % (what, f.value)
    size = {'int': size0, 'float': size0, 'bits': size0, 'char': 8, 'mac': 32}.get(k) or 8 * len(v)
    if k == 'str':
        size = 8 * (npre + len(bom) + len(v) + len(suffix))
    if f.size != size:
        return '%s: size %s instead of %s' % (what, f.size, size)
    # write the field at its place: what precedes, the field, ones
    o = BytesIO()
    out = OutputStream(o)
    if pad:
        out.writeBits(pad, (1 << pad) - 2, e)
    try:
        f.writeInto(out)
    except Exception as exc:
        return '%s: writing raised %r' % (what, exc)
    n = 16 + (-(pad + size)) % 8
    if (out._bit_pos + n) % 8 or (out._bit_pos == 0) != ((pad + size) % 8 == 0):
        return '%s: %d bits pending after the field' % (what, out._bit_pos)
    out.writeBits(n, (1 << n) - 1, e)
    got = o.getvalue()
    if 8 * len(got) != pad + size + n:
        return '%s: %d bytes written' % (what, len(got))
    if k == 'str' and fmt == 'fixed' and size > 8 * 0xffff:
        return None
    p = parser(got, size, True)
    t = p['f']
    if t.size != size:
        return '%s: parsed back with size %s' % (what, t.size)
    if k == 'str':
        back = got[t.content_offset:t.content_offset + t.content_size]
    else:
        back = t.value
    if k == 'float':
        # rounded
        v = struct.unpack(('>' if en == 'B' else '<') + {32: 'f', 64: 'd'}[size0], packed)[0]
    if back != v:
        return '%s: parsed back as %r' % (what, back)
    if (pad and p['pad'].value != (1 << pad) - 2) or p['tail'].value != (1 << n) - 1:
        return '%s: the neighbours changed' % what
    return None
