import io
import os
import shutil
import tempfile
from exe.common import *

OPS = ('bit', 'bits', 'int', 'bytes', 'cbits', 'cbytes')


def gen(rng, e, n, wide=False):
    """a sequence of writes; byte writes only when no bits are pending"""
    ops, pos = [], 0
    for _ in range(n):
        k = rng.choice(('bit', 'bits', 'bits', 'bits', 'int', 'bytes', 'cbits', 'cbytes', 'align'))
        if k == 'align':
            k, w = 'bits', (-pos) % 8
            if not w:
                continue
            ops.append(['bits', w, rng.getrandbits(w)])
            pos += w
        elif k == 'bit':
            ops.append(['bit', rng.randrange(2)])
            pos += 1
        elif k == 'bits':
            w = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 15, 16, 17, 23, 24, 31, 32, 33, 64, 65, 127, 200))
            if rng.random() < .3:
                w = (-pos) % 8 + rng.choice((0, 0, 8, 16, -1, 1))
            w = max(0, w)
            v = rng.choice((rng.getrandbits(w) if w else 0, (1 << w) - 1, 1 << (w - 1) if w else 0, 1 if w else 0, 0))
            ops.append(['bits', w, v])
            pos += w
        elif k == 'int' and pos % 8 == 0:
            s = rng.choice((1, 1, 2, 3, 4, 5, 7, 8, 9, 16))
            signed = rng.randrange(2)
            if signed:
                v = rng.choice((-1, 0, 1, -(1 << (8 * s - 1)), (1 << (8 * s - 1)) - 1, rng.getrandbits(8 * s) - (1 << (8 * s - 1)), -2))
            else:
                v = rng.choice((0, 1, (1 << (8 * s)) - 1, 1 << (8 * s - 1), rng.getrandbits(8 * s), 255))
            ops.append(['int', s, signed, v])
            pos += 8 * s
        elif k == 'bytes':
            b = rbytes(rng, rng.choice((0, 1, 2, 5, 20)))
            ops.append(['bytes', b2s(b)])
            if pos % 8 == 0:
                pos += 8 * len(b)
        elif k == 'cbits':
            b = rbytes(rng, rng.choice((1, 2, 3, 9, 40, 500) if not wide else (5000, 9000)))
            a = rng.choice((0, 0, 8, rng.randrange(8 * len(b))))
            a = min(a, 8 * len(b) - 1)
            w = rng.choice((1, 8 * len(b) - a, (8 * len(b) - a) // 8 * 8, rng.randrange(1, 8 * len(b) - a + 1)))
            w = max(w, 1)
            ops.append(['cbits', b2s(b), a, w])
            pos += w
        elif k == 'cbytes' and pos % 8 == 0:
            b = rbytes(rng, rng.choice((1, 3, 10) if not wide else (4095, 4096, 4097, 8192, 8193, 12289, 20000)))
            a = rng.randrange(0, min(3, len(b)))
            w = rng.choice((len(b) - a, max(0, len(b) - a - 1), rng.randrange(len(b) - a + 1)))
            if rng.random() < .1:
                w = len(b) - a + rng.randrange(1, 5)        # not there
            ops.append(['cbytes', b2s(b), 8 * a, w])
            if 8 * a + 8 * w <= 8 * len(b):
                pos += 8 * w
            else:
                break
        elif k == 'int':
            ops.append(['intp', 1, 0, 7])      # refused
    return dict(e=e, ops=ops)


def cases(rng, tier, hints):
    for e in 'BL':      # every pending count x every small width
        for p in range(8):
            for w in range(0, 20):
                for v in sorted({0, 1, (1 << w) - 1, (1 << w) // 2, 0x5a5a5 & ((1 << w) - 1), 0x32d1b & ((1 << w) - 1)}):
                    if v < 1 << w or (w == 0 and v == 0):
                        for pv in (0, (1 << p) - 1):
                            yield dict(e=e, ops=[['bits', p, pv], ['bits', w, v], ['bit', 1], ['bits', 9, 0x155]])
        for p in range(9):
            yield dict(e=e, ops=[['bit', (p * 5 >> i) & 1] for i in range(p)] + [['bits', 3, 5], ['bit', 0], ['bit', 1], ['bits', 30, 77777]])
        for s in (1, 2, 3, 4, 8, 9):
            for v in (0, 1, -1, (1 << 8 * s - 1) - 1, -(1 << 8 * s - 1), -(1 << 8 * s - 1) + 1, 100, -100):
                yield dict(e=e, ops=[['int', s, 1, v], ['int', s, 0, v % (1 << 8 * s)], ['bit', 1]])
        for n in (4095, 4096, 4097, 8191, 8192, 8193, 12288, 12290):
            b = b2s(rbytes(rng, n + 2, 2))
            yield dict(e=e, ops=[['cbytes', b, 8, n], ['bits', 8, 1]])
            yield dict(e=e, ops=[['cbits', b, 8, 8 * n], ['bits', 3, 1]])
            yield dict(e=e, ops=[['cbytes', b, 8, n + 2]])
    i = 0
    while True:
        i += 1
        yield gen(rng, rng.choice('BL'), rng.choice((1, 2, 3, 5, 10, 20)), wide=i % 20 == 0)


def emit(bits, e):
    out = bytearray()
    for i in range(0, len(bits) // 8 * 8, 8):
        b = 0
        for j in range(8):
            b |= bits[i + j] << (7 - j if e == 'B' else j)
        out.append(b)
    return bytes(out)


def tobits(v, w, e):
    r = [(v >> i) & 1 for i in range(w)]
    return r[::-1] if e == 'B' else r


def srcbits(data, a, w, e):
    return [(data[j // 8] >> (7 - j % 8 if e == 'B' else j % 8)) & 1 for j in range(a, a + w)]


def run_case(c):
    from hachoir.stream import StringInputStream, StreamError
    from hachoir.stream.output import OutputStream, StringOutputStream
    E = endians()[c['e']]
    e = c['e']
    buf = io.BytesIO()
    out = OutputStream(buf)
    out2 = StringOutputStream()
    tmp = None
    if len(c['ops']) % 8 == 3:
        tmp = tempfile.mkdtemp(prefix='c05')
    try:
        return run_ops(c, E, e, buf, out, out2, tmp)
    finally:
        if tmp:
            shutil.rmtree(tmp)


def run_ops(c, E, e, buf, out, out2, tmp):
    from hachoir.stream import StringInputStream, StreamError, FileOutputStream
    bits, back = [], []
    outs = [out, out2]
    if tmp:
        name = os.path.join(tmp, 'out')
        with open(name, 'wb') as f:
            f.write(b'old content')
        outs.append(FileOutputStream(name))
    for op in c['ops']:
        k = op[0]
        p0 = len(bits)
        add = None
        exc = None
        for o in outs:
            exc = None
            try:
                if k == 'bit':
                    o.writeBit(bool(op[1]), E)
                    add = [op[1]]
                elif k == 'bits':
                    o.writeBits(op[1], op[2], E)
                    add = tobits(op[2], op[1], e)
                    if op[1]:
                        back.append((p0, op[1], False, op[2]))
                elif k in ('int', 'intp'):
                    o.writeInteger(op[3], bool(op[2]), op[1], E)
                    add = tobits(op[3] % (1 << 8 * op[1]), 8 * op[1], e)
                    back.append((p0, 8 * op[1], bool(op[2]), op[3]))
                elif k == 'bytes':
                    o.writeBytes(s2b(op[1]))
                    add = srcbits(s2b(op[1]), 0, 4 * len(op[1]), e)
                elif k == 'cbits':
                    o.copyBitsFrom(StringInputStream(s2b(op[1])), op[2], op[3], E)
                    add = srcbits(s2b(op[1]), op[2], op[3], e)
                elif k == 'cbytes':
                    o.copyBytesFrom(StringInputStream(s2b(op[1])), op[2], op[3])
                    add = srcbits(s2b(op[1]), op[2], 8 * op[3], e)
            except NotImplementedError as x:
                exc = x
                if p0 % 8 == 0 or k not in ('bytes', 'intp'):
                    return '%r refused: %r' % (op, x)
            except StreamError as x:
                exc = x
                if k == 'cbytes' and op[2] // 8 + op[3] > len(op[1]) // 2:
                    return None     # partially copied, by contract
                return '%r raises %r' % (op, x)
        if exc is None:
            if k in ('bytes', 'intp') and p0 % 8 and add:
                return '%r accepted with %d pending bits' % (op, p0 % 8)
            bits += add
        got = buf.getvalue()
        exp = emit(bits, e)
        if got != exp:
            return 'after %r: bytes written are %r, expected %r' % (op if len(str(op)) < 200 else op[0], got[-40:], exp[-40:])
        if exp and exp[:8192]:
            n = min(len(exp), 60000)
            if out2.readBytes(0, n) != exp[:n] or out2.readBytes((len(exp) - 1) * 8, 1) != exp[-1:]:
                return 'StringOutputStream.readBytes differs from the bytes written'
    pad = (-len(bits)) % 8
    if pad:
        for o in outs:
            o.writeBits(pad, 0, E)
        bits += [0] * pad
    data = buf.getvalue()
    if tmp:
        outs[2].close()
        with open(name, 'rb') as f:
            if f.read() != data:
                return 'FileOutputStream writes something else'
    if data != emit(bits, e):
        return 'after padding: %r, expected %r' % (data[-40:], emit(bits, e)[-40:])
    if data:
        st = StringInputStream(data)
        for a, w, s, v in back:
            r = st.readInteger(a, s, w, E)
            if r != v:
                return 'value %r written on %d bits at %d reads back as %r' % (v, w, a, r)
