from exe.common import *


def cases(rng, tier, hints):
    def c(n, a, nb, e, signed, style=None, via='str'):
        return dict(k='int', data=b2s(rbytes(rng, n, style)), a=a, n=nb, e=e, s=signed, via=via)
    for h in hints:
        m = h.get('model') or {}
        for rep in range(20):
            n = m.get('n', 0)
            if not isinstance(n, int) or not 0 < n < 200000:
                n = rng.randrange(1, 40)
            a = m.get('address', 0) if isinstance(m.get('address'), int) else 0
            nb = m.get('nbits', 1) if isinstance(m.get('nbits'), int) else 1
            if nb > 4000 or a > 400000:
                continue
            for e in 'BLM':
                for s in (False, True):
                    for dn in (0, 1, 2):
                        yield c(n + dn, a, nb, e, s)
    # exhaustive small grid
    for n in (1, 2, 3, 4):
        for a in range(0, 8 * n + 2):
            for nb in range(1, 8 * n + 10 - a if a < 8 * n + 2 else 2):
                for e in 'BLM':
                    for s in (False, True):
                        yield c(n, a, nb, e, s)
    while True:
        n = rng.choice((1, 2, 3, 5, 8, 9, 10, 16, 17, 33, 64, 200))
        a = rng.randrange(0, 8 * n + 1)
        if rng.random() < .4:
            a -= a % 8
        nb = rng.choice((1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 128, rng.randrange(1, 300)))
        if rng.random() < .3:
            nb = max(1, 8 * n - a + rng.choice((-9, -8, -1, 0, 0, 1)))
        yield c(n, a, nb, rng.choice('BLM'), rng.random() < .5, via=rng.choice(('str', 'io', 'sub', 'field')))
        if rng.random() < .15:
            n = rng.randrange(0, 12) * 2
            yield dict(k='swap', data=b2s(rbytes(rng, n)))
        if rng.random() < .1:
            yield dict(k='align', v=rng.randrange(-50, 5000), al=rng.randrange(1, 70))
        if rng.random() < .15:
            yield dict(k='s2l', data=b2s(rbytes(rng, rng.randrange(0, 40))), e=rng.choice('BLM'))


def run_case(c):
    from hachoir.stream import StringInputStream, InputIOStream, InputSubStream, StreamError
    from hachoir.core.bits import str2long, strswapmid, arrswapmid
    from hachoir.core.tools import alignValue
    E = endians()
    if c['k'] == 'align':
        r = alignValue(c['v'], c['al'])
        exp = -(-c['v'] // c['al']) * c['al']
        return chk(r == exp, 'alignValue(%r, %r) = %r, expected %r' % (c['v'], c['al'], r, exp))
    data = s2b(c['data'])
    if c['k'] == 'swap':
        sw = bytearray(data)
        sw[0::2], sw[1::2] = sw[1::2], sw[0::2]
        if strswapmid(data) != bytes(sw) or bytes(arrswapmid(data)) != bytes(sw):
            return 'strswapmid(%r) = %r' % (data, strswapmid(data))
        return
    if c['k'] == 's2l':
        e = c['e']
        if e == 'M' and len(data) % 2:
            return
        r = str2long(data, E[e])
        exp = ref_bits(data, 0, 8 * len(data), e)
        return chk(r == exp, 'str2long(%r, %s) = %r, expected %r' % (data, e, r, exp))
    a, n, e = c['a'], c['n'], c['e']
    if c['via'] == 'io':
        import io
        st = InputIOStream(io.BytesIO(data), source='x')
    elif c['via'] == 'sub':
        st = InputSubStream(StringInputStream(b'\xa5\x5a' + data), 16)
    else:
        st = StringInputStream(data)
    if e == 'M':
        ok = 16 * ((a + n + 15) // 16) <= 8 * len(data)
    else:
        ok = a + n <= 8 * len(data)
    for rep in range(2):       # reading must not depend on earlier reads
        for what in ('bits', 'int'):
            try:
                if what == 'bits':
                    r = st.readBits(a, n, E[e])
                else:
                    r = st.readInteger(a, c['s'], n, E[e])
            except StreamError as x:
                if ok:
                    return 'read%s(%d, %d, %s) raises %r although the bits are there' % (what, a, n, e, x)
                continue
            if not ok:
                return 'read%s(%d, %d, %s) returns %r past the end of %d bytes' % (what, a, n, e, r, len(data))
            exp = ref_bits(data, a, n, e)
            if what == 'int' and c['s'] and exp >= 1 << (n - 1):
                exp -= 1 << n
            if r != exp or isinstance(r, bool):
                return 'read%s(%d, %d, %s, signed=%s) = %r, expected %r' % (what, a, n, e, c['s'], r, exp)
    if c['via'] == 'field' and ok:
        return via_field(c, st, data, E)


def via_field(c, st, data, E):
    from hachoir.field import Parser, Bits, UInt8, UInt16, UInt24, UInt32, UInt64, Int8, Int16, Int24, Int32, Int64, RawBits, Bit, Character, GenericInteger
    a, n, e = c['a'], c['n'], c['e']

    class P(Parser):
        endian = E[e]

        def validate(self):
            return True

        def createFields(self):
            if a:
                yield RawBits(self, 'skip', a)
            T = {(8, 0): UInt8, (16, 0): UInt16, (24, 0): UInt24, (32, 0): UInt32, (64, 0): UInt64,
                 (8, 1): Int8, (16, 1): Int16, (24, 1): Int24, (32, 1): Int32, (64, 1): Int64}.get((n, int(c['s'])))
            if n == 8 and a % 3 == 1:
                T = Character
            if n == 1 and a % 3:
                T = Bit
            if T:
                yield T(self, 'x')
            elif n >= 8 and a % 2:
                yield GenericInteger(self, 'x', c['s'], n)
            else:
                yield Bits(self, 'x', n)
    P.PARSER_TAGS = {'id': 'x', 'min_size': 1, 'description': 'x'}
    p = P(st)
    exp = ref_bits(data, a, n, e)
    f = p['x']
    if isinstance(f, Character):
        exp = chr(exp)
    elif isinstance(f, Bit):
        exp = bool(exp)
    elif c['s'] and isinstance(f, GenericInteger) and exp >= 1 << (n - 1):
        exp -= 1 << n
    if f.size != n:
        return 'field size %r instead of %r' % (f.size, n)
    if f.value != exp or type(f.value) is not type(exp):
        return 'field at %d of %d bits (%s) = %r, expected %r' % (a, n, e, f.value, exp)
