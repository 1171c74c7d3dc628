"""Executable contract of the string fields: extent and value, against a scan character by character."""
from exe.common import *

CHARSETS = {'UTF-8': (1, None), 'UTF-16-LE': (2, 'L'), 'UTF-16-BE': (2, 'B'), 'UTF-32LE': (4, 'L'), 'UTF-32BE': (4, 'B'),
            'UTF-16': (2, 'BOM'), 'UTF-32': (4, 'BOM'), None: (1, None), 'ASCII': (1, None), 'ISO-8859-1': (1, None),
            'CP037': (1, None), 'WINDOWS-1252': (1, None), 'MacRoman': (1, None)}
PY = {(2, 'L'): 'utf-16-le', (2, 'B'): 'utf-16-be', (4, 'L'): 'utf-32-le', (4, 'B'): 'utf-32-be'}
BOMS = {(2, 'L'): b'\xff\xfe', (2, 'B'): b'\xfe\xff', (4, 'L'): b'\xff\xfe\0\0', (4, 'B'): b'\0\0\xfe\xff'}
FORMATS = ('C', 'UnixLine', 'P1', 'P2', 'P4', 'F')


def cases(rng, tier, hints):
    for cs, (w, e) in CHARSETS.items():
        for fmt in FORMATS:
            for text in ('', 'a', 'abc', '\u0100a\u0100', 'x\u0100\u0a00y\n\0z', ' ab \0\0', '\u0a0a\u000a'):
                for en in 'BL':
                    c = {'B': 'B', 'L': 'L', 'BOM': en}.get(e)
                    try:
                        b = text.encode(PY.get((w, c), cs or 'latin-1'))
                    except Exception:
                        continue
                    if e == 'BOM':
                        b = BOMS[w, c] + b
                    for shift in (0, 3):
                        yield dict(cs=cs, fmt=fmt, data=b.hex(), endian=en, shift=shift, tail=('\0' * 5 + '\n' * 5).encode(PY.get((w, c), 'latin-1')).hex(), trunc=None, strip=None, n=len(b))
    while True:
        cs = rng.choice(list(CHARSETS))
        w, e = CHARSETS[cs]
        n = rng.randrange(0, 30)
        style = rng.randrange(4)
        if style == 0:
            b = bytes(rng.choice((0, 0, 1, 10, 65)) for _ in range(n))
        elif style == 1:
            b = rbytes(rng, n)
        else:
            t = ''.join(rng.choice('\0\n\u0100\u0001\u0a00\u010a ab\xe9\u20ac') for _ in range(n))
            if style == 3:
                t = t.replace('\0', '\u0100').replace('\n', '\u0a0a')
            c = {'B': 'B', 'L': 'L', 'BOM': rng.choice('BL')}.get(e)
            b = t.encode(PY.get((w, c), 'utf-8'))
            if e == 'BOM':
                b = BOMS[w, c] + b
        yield dict(cs=cs, fmt=rng.choice(FORMATS), data=b.hex(), endian=rng.choice('BLBLBLM'), shift=rng.choice((0, 0, 1, 2, 5)),
                   tail=rng.choice((b'', b'\0', b'\0\0\0\0', b'\n\0\0\0\0\n', b'\0\0\0\n')).hex(),
                   trunc=rng.choice((None, None, '\0', 'a', ' b', '')), strip=rng.choice((None, None, True, ' ', '\0 ', 'a', False)),
                   n=rng.choice((len(b), len(b), rng.randrange(0, 40))), nest=rng.random() < .3)


def run_case(case):
    import hachoir.field as F
    from hachoir.field import Parser, RawBytes, FieldError
    from hachoir.stream import StringInputStream, InputStreamError
    cs, fmt = case['cs'], case['fmt']
    w, e = CHARSETS[cs]
    data = s2b(case['data'])
    en = case['endian']
    n = case['n']
    pre = b''
    if fmt[0] == 'P':
        k = int(fmt[1])
        if en == 'M':
            en = 'B'
        n = min(n, 256 ** k - 1)
        pre = n.to_bytes(k, 'big' if en == 'B' else 'little')
    whole = b'#' * case['shift'] + pre + data + s2b(case['tail'])

    class Fields:
        def createFields(self):
            if case['shift']:
                yield RawBytes(self, 'shift', case['shift'])
            kw = dict(charset=cs, truncate=case['trunc'], strip=case['strip'])
            if fmt == 'F':
                yield F.String(self, 's', n, **kw)
            else:
                yield {'C': F.CString, 'UnixLine': F.UnixLine, 'P1': F.PascalString8, 'P2': F.PascalString16, 'P4': F.PascalString32}[fmt](self, 's', **kw)

    class Sub(Fields, F.FieldSet):
        endian = endians()[en]

    class Top(Fields, Parser):
        endian = endians()[en]

    class Outer(Parser):
        endian = endians()['L' if en == 'B' else 'B']

        def createFields(self):
            yield Sub(self, 'sub', size=8 * len(whole))
    if not whole:
        return None
    if case.get('nest'):
        outer = Outer(StringInputStream(whole))
        outer._autofix = False
        top = outer['sub']
    else:
        top = Top(StringInputStream(whole))
        top._autofix = False
    a = case['shift']
    # expected extent
    err = None
    bom, c = 0, e
    start = a + len(pre)
    if e == 'BOM':
        b = whole[start:start + w]
        c = [x for x in 'LB' if BOMS[w, x] == b]
        if not c:
            err = 'BOM'
        else:
            c, bom = c[0], w
    if not err and fmt in ('C', 'UnixLine'):
        ch = {'C': '\0', 'UnixLine': '\n'}[fmt]
        term = ch.encode(PY.get((w, c), 'latin-1'))
        for p in range(a, len(whole) - w + 1, w):
            if whole[p:p + w] == term:
                break
        else:
            err = 'no terminator'
        if not err:
            size, content = p + w - a, (a + bom, p)
    elif not err:
        size, content = len(pre) + n, (start + bom, start + n)
        if n < bom or fmt == 'F' and n < 1 or start + n > len(whole):
            err = 'size'
    try:
        f = F.Field.getField(top, 's', False)
    except (FieldError, InputStreamError) as x:
        if err:
            return None
        return 'refused: %s: %s' % (type(x).__name__, x)
    if err:
        return 'accepted in spite of: %s (size %s)' % (err, f.size)
    if f.size != 8 * size:
        return 'size %s instead of %s' % (f.size, 8 * size)
    if f.address != 8 * a:
        return 'address'
    b = whole[content[0]:content[1]]
    r = f.value
    py = PY.get((w, c))
    tries = [py or cs] if cs else [f.charset]
    try:
        t = b.decode(tries[0])
    except UnicodeDecodeError:
        try:
            if tries[0] != 'utf-16-le':
                raise
            t = (b + b'\0').decode('utf-16-le')
            if len(b) % 2 == 0:
                raise
        except UnicodeDecodeError:
            t = b.decode('latin-1')
    full = t
    if case['trunc'] and case['trunc'] in t:
        t = t[:t.index(case['trunc'])]
    if case['strip']:
        t = t.strip() if case['strip'] is True else t.strip(case['strip'])
    if not b:
        t = ''
    if r != t:
        return 'value %r instead of %r' % (r, t)
    raw = whole[a:a + size]
    if f.createValue(False) != raw:
        return 'raw value'
    return None
