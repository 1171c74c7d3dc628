"""C04: byte-string search finds the first occurrence inside the range.

The needle is an arbitrary non-empty byte string N of m bytes, the stream an
arbitrary content C of S bits obeying the contract of read (C02), whose size is
known or is discovered while reading (pipes). p0 is an arbitrary position and
k0 an arbitrary index of the needle, fixed before the search: whatever is
proved of them is proved for all positions and all indices. occ says that the
needle occurs at p0.
"""
import z3
from pyvc.core import RT, SBytes, LoopSpec, mkint, zint, iv, byte_func, Unsupported, zmax, PathEnd
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.lib import CC

PROP = 'C04'
ST = 'hachoir.stream.input:InputStream.'
N = byte_func('needle')


def zmin(a, b):
    return z3.If(a <= b, a, b)


def stream_class():
    from hachoir.stream.input import InputStream, ReadStreamError

    class AnyStream(InputStream):
        """contract of a stream (C02): content C, S bits"""
        _pyvc_track = True
        _pyvc_name = 'stream'

        def __init__(self, S, known, shifted):
            self.S, self._size, self.shift = S, mkint(S) if known else None, shifted

        def _pyvc_havoc(self, path):
            if path == '_size':
                if self._size is not None or RT.choice([True, False], 'the end is known'):
                    return mkint(self.S)
                return None
            return NotImplemented

        def read(self, address, size):
            a, s = zint(address), zint(size)
            RT.prove(z3.And(a >= 0, a % 8 == 0, s >= 0, s % 8 == 0), 'precondition of read')
            b, cnt = z3.simplify(a / 8), z3.simplify(s / 8)
            if RT.branch(a + s <= self.S):
                if self._size is None and RT.choice([True, False], 'the end is met now'):
                    self._size = mkint(self.S)
                return self.shift, SBytes([('arr', CC.C, b, cnt)]), False
            if self._size is not None:
                raise ReadStreamError(0, 0)
            self._size = mkint(self.S)
            got = RT.int('got')
            RT.assume(z3.And(got.e >= zmax(iv(0), self.S / 8 - b), got.e <= cnt))
            return self.shift, SBytes([('arr', CC.C, b, got.e)]), True
    return AnyStream


def m_find(buf, needle, start=None, end=None):
    """ASSUMED contract of bytes.find: the first index where the needle occurs, -1 if there is none"""
    if start is not None or end is not None:
        raise Unsupported('bytes.find with bounds')
    g = RT.ghost
    if needle is not g['needle']:
        raise Unsupported('bytes.find of something else')
    buf = SBytes.lift(buf)
    m, n = g['m'], buf.q.length()
    f = RT.int('found')
    RT.assume(z3.And(f.e >= -1, f.e + m <= zmax(n, m - 1)))
    if buf.q.term(iv(0)) is None:
        RT.assume(f.e == -1)
        return f
    k0 = g['k0']
    RT.fact(z3.Implies(z3.And(f.e >= 0, 0 <= k0, k0 < m), buf.q.term(z3.simplify(f.e + k0)) == N(k0)))
    # the same index of the buffer as the arbitrary position of the content
    segs = [s for s in buf.q.segs if s[0] == 'arr' and s[1] is CC.C]
    if segs:
        last = segs[-1]
        pos = z3.simplify(g['p0'] - (last[2] + last[3] - n))
        w = RT.int('witness')
        RT.fact(z3.Implies(z3.And(0 <= pos, pos + m <= n, z3.Or(f.e < 0, pos < f.e)),
                           z3.And(0 <= w.e, w.e < m, buf.q.term(z3.simplify(pos + w.e)) != N(w.e))))
        RT.fact(z3.Implies(g['occ'], CC.C(z3.simplify(g['p0'] + w.e)) == N(w.e)))
    return f


RT.models['bytes.find'] = m_find


def setup():
    g = RT.ghost
    m = RT.input_int('needle_length', 1)
    S = RT.input_int('size_in_bits', 1)
    g['m'], g['S'] = m.e, S.e
    g['p0'] = RT.input_int('p0', 0).e
    g['k0'] = RT.input_int('k0', 0).e
    g['occ'] = RT.bool('occurs_at_p0').e
    g['needle'] = SBytes([('arr', N, iv(0), m.e)])
    known = RT.choice([True, False], 'size known')
    shifted = RT.choice([False, True], 'stream inside another one, not byte aligned')
    st = stream_class()(S.e, known, RT.input_int('shift', 1, 7) if shifted else 0)
    RT.roots.append(st)
    s = RT.input_int('start', 0)
    e = RT.input_int('end', 0) if RT.choice([True, False], 'end given') else None
    RT.assume(s.e % 8 == 0)
    g['s0'] = z3.simplify(s.e / 8)
    g['endarg'] = e
    g['E'] = S.e if e is None else z3.simplify(zmin(e.e, S.e))
    return st, s, e, shifted


def b_search():
    from hachoir.stream.input import InputStream
    from hachoir.stream import StreamError
    st, s, e, shifted = setup()
    g = RT.ghost
    m, p0, occ, E = g['m'], g['p0'], g['occ'], g['E']
    kind, r = expect(ST + 'searchBytes', InputStream.searchBytes, st, g['needle'], s, e)
    if kind == 'exc':
        RT.prove(isinstance(r, StreamError), 'searchBytes: only stream errors')
        RT.prove(shifted, 'searchBytes: no error when the stream is byte aligned')
        return
    here = z3.And(occ, g['s0'] <= p0, 8 * (p0 + m) <= E)
    if r is None:
        RT.cover('none')
        RT.prove(z3.Not(here), 'searchBytes: None only if the needle is nowhere in the range')
        return
    RT.cover('found')
    a = zint(r)
    RT.prove(a % 8 == 0, 'searchBytes: a byte address')
    RT.prove(z3.And(g['s0'] <= a / 8, a + 8 * m <= E), 'searchBytes: the occurrence lies inside the range')
    k0 = g['k0']
    RT.prove(z3.Implies(z3.And(0 <= k0, k0 < m), CC.C(z3.simplify(a / 8 + k0)) == N(k0)), 'searchBytes: the needle is there')
    RT.prove(z3.Implies(here, a / 8 <= p0), 'searchBytes: the first occurrence')


def search_inv(L):
    g = RT.ghost
    cur8 = zint(L.start_address)
    cur = cur8 / 8
    buf = SBytes.lift(L.buffer)
    n = buf.q.length()
    m, s0, p0, E = g['m'], g['s0'], g['p0'], g['E']
    j = g.setdefault('j', RT.int('j').e)
    t = buf.q.term(j)
    end, size = L.end_address, zint(L.size)
    known = L.self._size is not None
    out = [('aligned', cur8 % 8 == 0), ('not before the start', cur >= s0),
           ('length of the tail', z3.And(n <= cur - s0, z3.Or(n >= m - 1, cur == s0, z3.And(z3.BoolVal(end is not None), E / 8 <= cur)))),
           ('the tail of what was read', z3.Implies(z3.And(0 <= j, j < n), t == CC.C(z3.simplify(cur - n + j)))
            if t is not None else n == 0),
           ('no occurrence in what was read', z3.Implies(z3.And(s0 <= p0, p0 + m <= cur), z3.Not(g['occ']))),
           ('step', z3.And(size >= 1, z3.Or(size >= m, z3.And(z3.BoolVal(end is not None), E / 8 <= cur)))),
           ('inside the range', z3.Or(cur == s0, cur <= E / 8))]
    if known:
        out.append(('end', zint(end) == E if end is not None else z3.BoolVal(False)))
    elif end is None or g['endarg'] is None:
        out.append(('end', z3.BoolVal(end is None and g['endarg'] is None)))
    else:
        out.append(('end', zint(end) == zint(g['endarg'])))
    return out


def search_havoc(L):
    return {'end_address': RT.int('end') if RT.choice([True, False], 'end known') else None}


def search_after(L):
    cur = zint(L.start_address) / 8
    n = SBytes.lift(L.buffer).q.length()
    L.buffer = SBytes([('arr', CC.C, z3.simplify(cur - n), n)])     # by the invariant, for every index


def b_unaligned():
    from hachoir.stream.input import InputStream, InputStreamError
    st, _, e, shifted = setup()
    s = RT.input_int('unaligned_start', 0)
    RT.assume(s.e % 8 != 0)
    kind, r = expect(ST + 'searchBytes', InputStream.searchBytes, st, RT.ghost['needle'], s, e)
    RT.prove(kind == 'exc' and isinstance(r, InputStreamError), 'searchBytes: an unaligned start is refused')


def m_search(self, needle, start_address=0, end_address=None):
    g = RT.ghost
    RT.prove(needle is g['needle'], 'searchBytesLength searches the needle')
    RT.prove(zint(start_address) == zint(g['start']), 'searchBytesLength searches from the start')
    e = g['endarg']
    RT.prove((end_address is None) == (e is None), 'searchBytesLength searches to the end')
    if e is not None:
        RT.prove(zint(end_address) == zint(e), 'searchBytesLength searches to the end')
    g['asked'] = g.get('asked', 0) + 1
    if RT.choice([True, False], 'found'):
        a = RT.int('address')
        RT.assume(z3.And(a.e >= zint(start_address), a.e % 8 == 0))
        g['answer'] = a
        return a
    g['answer'] = None
    return None


def b_length():
    from hachoir.stream.input import InputStream
    st, s, e, shifted = setup()
    g = RT.ghost
    g['start'] = s
    inc = RT.choice([True, False], 'include_needle')
    kind, r = expect(ST + 'searchBytesLength', InputStream.searchBytesLength, st, g['needle'], inc, s, e)
    RT.prove(kind == 'ret' and 'answer' in g, 'searchBytesLength: no error')
    if g['answer'] is None:
        RT.prove(r is None, 'searchBytesLength: None exactly when there is none')
        return
    RT.prove(r is not None, 'searchBytesLength: None exactly when there is none')
    RT.prove(zint(r) == (zint(g['answer']) - s.e) / 8 + (g['m'] if inc else 0),
             'searchBytesLength: bytes from the start to the occurrence')


CALLS = dict(lib.LOG_CALLS)
LOOPS = {ST + 'searchBytes#0': LoopSpec(
    search_inv, lambda L: zmax(iv(0), RT.ghost['E'] / 8 - zint(L.start_address) / 8), search_havoc, after=search_after)}
UNITS = [
    Unit('searchBytes', [ST + 'searchBytes'], b_search, calls=CALLS, loops=LOOPS),
    Unit('searchBytes, unaligned', [ST + 'searchBytes'], b_unaligned, calls=CALLS, loops=LOOPS),
    Unit('searchBytesLength', [ST + 'searchBytesLength'], b_length, calls=dict(CALLS, **{ST + 'searchBytes': m_search})),
]
BOUNDED = []
