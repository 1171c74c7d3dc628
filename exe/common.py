"""Helpers for the executable contracts (run on the real code)."""
import random

BIG, LITTLE, MIDDLE = "ABCD", "DCBA", "BADC"


def endians():
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
    return {'B': BIG_ENDIAN, 'L': LITTLE_ENDIAN, 'M': MIDDLE_ENDIAN}


def b2s(b):
    return b.hex()


def s2b(s):
    return bytes.fromhex(s)


def rbytes(rng, n, style=None):
    style = style if style is not None else rng.randrange(5)
    if style == 0:
        return bytes(rng.randrange(256) for _ in range(n))
    if style == 1:
        return bytes(rng.choice((0, 255, 128, 127, 1)) for _ in range(n))
    if style == 2:
        return bytes((i * 37 + 11) & 255 for i in range(n))
    if style == 3:
        return bytes(rng.choice((0, 65, 66)) for _ in range(n))
    return bytes([rng.choice((0, 255))]) * n


def ref_bits(data, addr, n, e):
    """value of bits [addr, addr+n) of data, by definition, bit by bit"""
    if e == 'M':
        sw = bytearray(data)
        if len(sw) % 2:
            sw.append(0)
        sw[0::2], sw[1::2] = sw[1::2], sw[0::2]
        data, e = bytes(sw), 'B'
    v = 0
    if e == 'B':
        for j in range(addr, addr + n):
            v = v * 2 + ((data[j // 8] >> (7 - j % 8)) & 1)
    else:
        for k, j in enumerate(range(addr, addr + n)):
            v += ((data[j // 8] >> (j % 8)) & 1) << k
    return v


def chk(cond, msg):
    if not cond:
        return msg
    return None
