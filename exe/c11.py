from exe.common import *


def cases(rng, tier, hints):
    for h in hints:
        m = h.get('model') or {}
        v = m.get('value')
        if isinstance(v, int) and 0 <= v < 1 << 5000:
            for d in (0, 1, -1):
                if v + d >= 0:
                    yield dict(k='cb', v=v + d)
                    yield dict(k='raw', v=v + d, s=m.get('size') if isinstance(m.get('size'), int) and m.get('size') < 5000 else 0, e='B')
                    yield dict(k='raw', v=v + d, s=0, e='L')
    yield dict(k='byte')
    for v in range(0, 70000, 7):
        yield dict(k='cb', v=v)
        yield dict(k='sw16', v=v % 65536)
    for b in range(0, 300):
        for d in (-1, 0, 1):
            v = (1 << b) + d
            yield dict(k='cb', v=v)
            for e in 'BL':
                for s in (0, 1, 2, 3, 4, 8, (b + 8) // 8, (b + 8) // 8 + 1):
                    yield dict(k='raw', v=v, s=s, e=e)
    for nb in range(0, 34):
        for e in 'BL':
            for cm in (True, False):
                for v in (0, 1, (1 << nb) - 1, (1 << nb) // 3):
                    if 0 <= v < (1 << nb):
                        yield dict(k='l2b', n=nb, v=v, e=e, c=cm)
    while True:
        b = rng.choice((1, 7, 8, 9, 16, 17, 24, 31, 32, 33, 64, rng.randrange(1, 600)))
        v = rng.getrandbits(b)
        yield dict(k='cb', v=v)
        yield dict(k='sw16', v=rng.getrandbits(16))
        yield dict(k='sw32', v=rng.getrandbits(32))
        yield dict(k='raw', v=v, s=rng.choice((0, 0, (b + 7) // 8, (b + 7) // 8 + rng.randrange(9))), e=rng.choice('BL'))
        yield dict(k='l2b', n=b + rng.randrange(3), v=v, e=rng.choice('BL'), c=rng.random() < .5)
        yield dict(k='s2b', d=b2s(rbytes(rng, rng.randrange(0, 20))), c=rng.random() < .5)
        yield dict(k='mid', d=b2s(rbytes(rng, 2 * rng.randrange(0, 12))))
        yield dict(k='b2l', t=''.join(rng.choice('01 01x.') for _ in range(rng.randrange(0, 40))) + '1', e=rng.choice('BL'))


def run_case(c):
    from hachoir.core import bits as B
    E = endians()
    k = c['k']
    if k == 'byte':
        for n in range(256):
            w = format(n, '08b')
            if B.byte2bin(n) != w or B.byte2bin(n, False) != w[::-1]:
                return 'byte2bin(%d) = %r / %r' % (n, B.byte2bin(n), B.byte2bin(n, False))
        return
    if k == 'sw16':
        r = B.swap16(c['v'])
        return chk(r == int.from_bytes(c['v'].to_bytes(2, 'little'), 'big'), 'swap16(%#x) = %r' % (c['v'], r))
    if k == 'sw32':
        r = B.swap32(c['v'])
        return chk(r == int.from_bytes(c['v'].to_bytes(4, 'little'), 'big'), 'swap32(%#x) = %r' % (c['v'], r))
    if k == 'cb':
        r = B.countBits(c['v'])
        return chk(r == max(1, c['v'].bit_length()), 'countBits(%d) = %r' % (c['v'], r))
    if k == 'raw':
        v, s, e = c['v'], c['s'], c['e']
        if not v and not s:
            return
        r = B.long2raw(v, E[e], s or None)
        n = max(s, (v.bit_length() + 7) // 8)
        if r != v.to_bytes(n, 'big' if e == 'B' else 'little'):
            return 'long2raw(%d, %s, %r) = %r' % (v, e, s or None, r)
        return chk(B.str2long(r, E[e]) == v, 'str2long(long2raw(%d, %s)) = %r' % (v, e, B.str2long(r, E[e])))
    if k == 'l2b':
        n, v, e, cm = c['n'], c['v'], c['e'], c['c']
        if v >> n:
            v &= (1 << n) - 1
        t = ''.join('1' if v >> i & 1 else '0' for i in range(n))
        if e == 'L':
            t = t[::-1]
        g = [t[i:i + 8] for i in range(0, n, 8)]
        if cm:
            g = [x[::-1] for x in g]
        r = B.long2bin(n, v, E[e], cm)
        if r != ' '.join(g):
            return 'long2bin(%d, %d, %s, %s) = %r' % (n, v, e, cm, r)
        # the bits are emitted least significant first in big endian: bin2long reverses that
        if n and not cm:
            if B.bin2long(r, E['L' if e == 'B' else 'B']) != v:
                return 'bin2long(long2bin(%d, %d, %s)) = %r' % (n, v, e, B.bin2long(r, E['L' if e == 'B' else 'B']))
        return
    if k == 's2b':
        d = s2b(c['d'])
        r = B.str2bin(''.join(chr(x) for x in d), c['c'])
        w = ' '.join(format(x, '08b') if c['c'] else format(x, '08b')[::-1] for x in d)
        if r != w:
            return 'str2bin(%r, %s) = %r' % (d, c['c'], r)
        if B.str2hex(d) != d.hex().upper() or B.str2hex(d, glue=' ') != ' '.join('%02X' % x for x in d):
            return 'str2hex(%r) = %r' % (d, B.str2hex(d))
        return chk(B.str2hex(d, prefix='0x') == '0x' + d.hex().upper(), 'str2hex(%r, prefix)' % d)
    if k == 'mid':
        d = s2b(c['d'])
        w = bytearray(d)
        w[0::2], w[1::2] = w[1::2], w[0::2]
        r = B.strswapmid(d)
        return chk(r == bytes(w) and bytes(B.arrswapmid(d)) == r and B.strswapmid(r) == d, 'strswapmid(%r) = %r' % (d, r))
    if k == 'b2l':
        t = [x for x in c['t'] if x in '01']
        if c['e'] == 'L':
            t = t[::-1]
        r = B.bin2long(c['t'], E[c['e']])
        return chk(r == int(''.join(t), 2), 'bin2long(%r, %s) = %r' % (c['t'], c['e'], r))
