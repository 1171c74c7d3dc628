"""C02: byte reads return exactly the addressed window, on every kind of stream.

Every stream kind implements the same contract of read(address, size):
  either (shift, data, missing false) where data is the window of whole bytes
  of the content that covers the bits [address, address+size) and shift the
  position of the first bit in it, and the window is inside the content;
  or a stream error / missing true, and the window is not inside the content.
The content is the data, the file, the parent's window, the concatenation, the
fragments in order. readBytes and the file view are proved against it.
"""
import z3
from pyvc.core import (RT, Sym, SInt, SBool, SBytes, SList, Seq, LoopSpec, mkint, mkbool, zint, zbool, iv, Unsupported,
                       wrap_int, zmax)
from pyvc.contract import Unit, Lemma, expect
from contracts import lib
from contracts.lib import CC, Content, obj, JoinList, same_bytes

PROP = 'C02'
ST = 'hachoir.stream.input:'
C1 = Content('C1')
CF = Content('CF')      # content of the fragments in order


class PStream:
    """any stream obeying the contract of read; content c, n bytes"""
    _pyvc_track = True
    _pyvc_name = 'parent stream'

    def __init__(self, c, n, size='known'):
        self.c, self.n = c, n
        self.size = mkint(8 * n) if size == 'known' else None
        self._current_size = self.size
        self.source = 'x'

    def askSize(self, client):
        return self.size

    def read(self, address, size):
        return window_read(self, self.c, self.n, address, size, None)


def window_read(self, c, n, address, size, on_eof):
    from hachoir.stream.input import ReadStreamError
    a, s = zint(address), zint(size)
    RT.prove(z3.And(a >= 0, s >= 0), 'precondition of read')
    b, sh = z3.simplify(a / 8), z3.simplify(a % 8)
    cnt = z3.simplify((s + sh + 7) / 8)
    if RT.branch(b + cnt <= n):
        return mkint(sh), SBytes([('arr', c.C, b, cnt)]), False
    if on_eof is not None and on_eof():
        # the end has just been found: what is there, and missing
        got = zmax(n - b, iv(0))
        return mkint(sh), SBytes([('arr', c.C, b, z3.simplify(got))]), True
    if RT.choice([0, 1], 'error style') == 0:
        raise ReadStreamError(0, 0)
    got = RT.int('got')
    RT.assume(z3.And(0 <= got.e, got.e < cnt))
    return mkint(sh), SBytes([('arr', c.C, b, got.e)]), True


def post_read(what, kind, r, a, s, inside, n, elem, off=0):
    """contract of read, to prove: `inside`: the window is there"""
    from hachoir.stream import StreamError
    A = z3.simplify(off + a)
    b, sh = A / 8, A % 8
    cnt = z3.simplify((s + sh + 7) / 8)
    if kind == 'exc':
        RT.cover('refused')
        RT.prove(isinstance(r, StreamError), what + ': only stream errors')
        RT.prove(z3.Not(inside), what + ': only fails when the window is not there')
        return
    RT.prove(isinstance(r, tuple) and len(r) == 3, what + ': returns (shift, data, missing)')
    shift, data, missing = r
    if isinstance(missing, SBool):
        missing = RT.branch(zbool(missing))
    if missing:
        RT.prove(z3.Not(inside), what + ': nothing is missing from a window which is there')
        return
    RT.cover('read')
    RT.prove(inside, what + ': a window which is not entirely there is refused')
    RT.prove(zint(shift) == sh, what + ': shift')
    same_bytes(data, cnt, lambda j: elem(z3.simplify(b + j)), what)


def args(lo=1):
    return RT.input_int('address', 0), RT.input_int('size', lo)


# ------------------------------------------------------------ StringInputStream
def b_string():
    from hachoir.stream.input import StringInputStream
    n = RT.input_int('n', 1)
    a, s = args(0)
    st = obj(StringInputStream, data=SBytes([('arr', CC.C, iv(0), n.e)]), _size=mkint(8 * n.e), _current_size=mkint(8 * n.e))
    kind, r = expect(ST + 'StringInputStream.read', StringInputStream.read, st, a, s)
    if kind == 'ret' and RT.branch(s.e == 0):
        RT.prove(SBytes.lift(r[1]).q.length() <= 1, 'an empty window')
        return
    if RT.branch(s.e == 0):
        return
    post_read('StringInputStream.read', kind, r, a.e, s.e, a.e + s.e <= 8 * n.e, n.e, CC.C)


def b_string_init():
    from hachoir.stream.input import StringInputStream
    from hachoir.stream import StreamError
    n = RT.input_int('n', 0)
    data = SBytes([('arr', CC.C, iv(0), n.e)])
    kind, r = expect(ST + 'StringInputStream.__init__', StringInputStream, data)
    if kind == 'exc':
        RT.prove(isinstance(r, StreamError), 'StringInputStream: stream error')
        RT.prove(n.e == 0, 'StringInputStream: only empty data is refused')
        return
    RT.cover('made')
    RT.prove(n.e >= 1, 'StringInputStream: empty data is refused')
    RT.prove(r.data is data, 'StringInputStream: the content is the data')
    RT.prove(z3.And(zint(r._size) == 8 * n.e, zint(r._current_size) == 8 * n.e), 'StringInputStream: size of the content')


# ------------------------------------------------------------ files and pipes
class FileModel:
    """ASSUMED contract of a binary file object (C03 proves it for InputPipe)"""
    _pyvc_track = True

    def __init__(self, n, stream_of=None):
        self.n, self.pos, self.owner = n, 0, stream_of

    def seek(self, p, whence=0):
        if whence == 2:
            self.pos = mkint(self.n + zint(p))
        elif whence == 0:
            RT.prove(zint(p) >= 0, 'precondition of seek')
            self.pos = p
        else:
            raise Unsupported('seek')

    def tell(self):
        return self.pos

    def read(self, k):
        p, k = zint(self.pos), zint(k)
        RT.prove(k >= 0, 'precondition of read on a file')
        got = z3.simplify(zmax(z3.If(p + k <= self.n, k, self.n - p), iv(0)))
        st = self.owner and self.owner[0]
        if st is not None and st._size is None:
            # a pipe tells the size when it meets the end, at the latest when asked beyond
            if RT.branch(p + k > self.n) or RT.choice([False, True], 'the end is met now'):
                st._size = mkint(8 * self.n)
        self.pos = mkint(p + got)
        return SBytes([('arr', CC.C, p, got)])


def b_io(known):
    def body():
        from hachoir.stream.input import InputIOStream
        n = RT.input_int('n', 1)
        a, s = args(0)
        own = []
        st = obj(InputIOStream, _input=FileModel(n.e, own), _size=mkint(8 * n.e) if known else None, source='x')
        own.append(st)
        kind, r = expect(ST + 'InputIOStream.read', InputIOStream.read, st, a, s)
        if RT.branch(s.e == 0):
            RT.prove(kind == 'ret' and not bool(r[2]), 'an empty window is always there')
            RT.prove(SBytes.lift(r[1]).q.length() == 0, 'an empty window')
            return
        post_read('InputIOStream.read', kind, r, a.e, s.e, a.e + s.e <= 8 * n.e, n.e, CC.C)
    return body


def b_io_init():
    from hachoir.stream.input import InputIOStream
    from hachoir.stream import StreamError
    n = RT.input_int('n', 0)
    f = FileModel(n.e)
    kind, r = expect(ST + 'InputIOStream.__init__', InputIOStream, f)
    if kind == 'exc':
        RT.prove(isinstance(r, StreamError), 'InputIOStream: stream error')
        RT.prove(n.e == 0, 'InputIOStream: only an empty file is refused')
        return
    RT.cover('made')
    RT.prove(r._input is f, 'InputIOStream: the content is the file')
    RT.prove(zint(r._size) == 8 * n.e, 'InputIOStream: size of the file')
    RT.prove(zint(r._current_size) == 8 * n.e, 'InputIOStream: the whole file is there')


# ------------------------------------------------------------ sub-streams
def b_sub():
    from hachoir.stream.input import InputSubStream
    n = RT.input_int('n', 1)
    off = RT.input_int('offset', 0)
    S = RT.input_int('substream_size', 1)
    a, s = args()
    p = PStream(CC, n.e)
    known = RT.choice([True, False], 'size known')
    st = obj(InputSubStream, stream=p, _offset=off, _size=S if known else None, source='x')
    kind, r = expect(ST + 'InputSubStream.read', InputSubStream.read, st, a, s)
    inside = off.e + a.e + s.e <= 8 * n.e
    if known:
        inside = z3.And(inside, a.e + s.e <= S.e)
    post_read('InputSubStream.read', kind, r, a.e, s.e, inside, n.e, CC.C, off.e)


def b_sub_init():
    from hachoir.stream.input import InputSubStream
    n = RT.input_int('n', 1)
    p = PStream(CC, n.e, RT.choice(['known', 'unknown'], 'parent size'))
    off = RT.input_int('offset', 0) if RT.choice([True, False], 'offset given') else None
    S = RT.input_int('size') if RT.choice([True, False], 'size given') else None
    kind, r = expect(ST + 'InputSubStream.__init__', InputSubStream, p, off, S)
    o = iv(0) if off is None else off.e
    want = S.e if S is not None else (8 * n.e - o if p.size is not None else None)
    if kind == 'exc':
        RT.prove(isinstance(r, (ValueError,)), 'InputSubStream: ValueError')
        RT.prove(want <= 0 if want is not None else False, 'InputSubStream: only an empty window is refused')
        return
    RT.cover('made')
    RT.prove(r.stream is p, 'InputSubStream: reads its parent')
    RT.prove(zint(r._offset) == o, 'InputSubStream: offset in the parent')
    if want is None:
        RT.prove(r._size is None, 'InputSubStream: unknown size')
    else:
        RT.prove(want > 0, 'InputSubStream: an empty window is refused')
        RT.prove(zint(r._size) == want, 'InputSubStream: size of the window')


def b_sub_current():
    from hachoir.stream.input import InputSubStream
    cur, off = RT.input_int('parent_current', 0), RT.input_int('offset', 0)
    S = RT.input_int('size', 1) if RT.choice([True, False], 'size known') else None
    p = PStream(CC, iv(1))
    p._current_size = cur
    st = obj(InputSubStream, stream=p, _offset=off, _size=S, source='x')
    r = zint(st._current_size)
    c = zmax(cur.e - off.e, iv(0))
    if S is not None:
        c = z3.If(c < S.e, c, S.e)
    RT.prove(r == c, 'InputSubStream: what is there of the parent')
    RT.prove(zint(st.size) == S.e if S is not None else st.size is None, 'InputSubStream: size')


def b_field_stream():
    import hachoir.stream.input as inp
    n = RT.input_int('n', 1)
    p = PStream(CC, n.e)

    class F:
        parent = None
        stream = p
        size = RT.input_int('size', 1)
        absolute_address = RT.input_int('absolute_address', 0)
        path = '/x'
    f = F()
    if RT.choice([True, False], 'root'):
        kind, r = expect(ST + 'InputFieldStream', inp.InputFieldStream, f)
        RT.prove(r is p, 'InputFieldStream: the stream of the root')
        return
    f.parent = F()
    kind, r = expect(ST + 'InputFieldStream', inp.InputFieldStream, f)
    RT.prove(kind == 'ret', 'InputFieldStream returns')
    RT.prove(r.stream is p and isinstance(r, inp.InputSubStream), 'InputFieldStream: a window of the stream')
    RT.prove(z3.And(zint(r._offset) == f.absolute_address.e, zint(r._size) == f.size.e), 'InputFieldStream: exactly the field')


# ------------------------------------------------------------ concatenation
def b_concat():
    from hachoir.stream.input import ConcatStream
    n0, n1 = RT.input_int('n0', 1), RT.input_int('n1', 1)
    a, s = args()
    p0, p1 = PStream(CC, n0.e), PStream(C1, n1.e)
    known = RT.choice([True, False], 'size known')
    n = n0.e + n1.e
    st = obj(ConcatStream, source='x', _size=mkint(8 * n) if known else None, _ConcatStream__size0=mkint(8 * n0.e),
             _ConcatStream__streams=(p0, p1))
    kind, r = expect(ST + 'ConcatStream.read', ConcatStream.read, st, a, s)
    post_read('ConcatStream.read', kind, r, a.e, s.e, a.e + s.e <= 8 * n, n,
              lambda j: z3.If(j < n0.e, CC.C(j), C1.C(j - n0.e)))


def b_concat_init():
    from hachoir.stream.input import ConcatStream
    n0, n1 = RT.input_int('n0', 1), RT.input_int('n1', 1)
    p0, p1 = PStream(CC, n0.e), PStream(C1, n1.e, RT.choice(['known', 'unknown'], 'second size'))
    p0.checked = True
    p1._current_size = mkint(8 * n1.e)
    kind, r = expect(ST + 'ConcatStream.__init__', ConcatStream, (p0, p1))
    RT.prove(kind == 'ret', 'ConcatStream is made')
    RT.prove(r._ConcatStream__streams[0] is p0 and r._ConcatStream__streams[1] is p1, 'ConcatStream: the streams in order')
    RT.prove(zint(r._ConcatStream__size0) == 8 * n0.e, 'ConcatStream: size of the first stream')
    if p1.size is None:
        RT.prove(r._size is None, 'ConcatStream: unknown size')
    else:
        RT.prove(zint(r._size) == 8 * (n0.e + n1.e), 'ConcatStream: total size')
    RT.prove(zint(r._current_size) == 8 * (n0.e + n1.e), 'ConcatStream: what is there')


# ------------------------------------------------------------ readBytes
def b_readBytes():
    from hachoir.stream.input import InputStream
    from hachoir.stream import StreamError
    n = RT.input_int('n', 1)
    off = RT.input_int('offset', 0)        # bit offset of the stream in its content
    a, k = RT.input_int('address', 0), RT.input_int('nb_bytes', 0)

    class Any(InputStream):
        def read(self, address, size):
            return window_read(self, CC, n.e, mkint(off.e + zint(address)), size, None)
    st = obj(Any, source='x', _size=None)
    kind, r = expect(ST + 'InputStream.readBytes', InputStream.readBytes, st, a, k)
    A = z3.simplify(off.e + a.e)
    if kind == 'exc':
        RT.prove(isinstance(r, StreamError), 'readBytes: only stream errors')
        RT.prove(z3.Or(A % 8 != 0, A + 8 * k.e > 8 * n.e), 'readBytes: only fails when the bytes are not there')
        return
    RT.cover('read')
    RT.prove(A % 8 == 0, 'readBytes: an unaligned window is refused')
    RT.prove(z3.Or(k.e == 0, A / 8 + k.e <= n.e), 'readBytes: a window which is not entirely there is refused')
    same_bytes(r, k.e, lambda j: CC.C(z3.simplify(A / 8 + j)), 'readBytes')


# ------------------------------------------------------------ sizeGe
def b_sizeGe():
    """size and current_size known: tells whether the stream has that many bits"""
    from hachoir.stream.input import InputStream
    n = RT.input_int('n', 1)        # real size in bytes
    size = RT.input_int('asked', 1)
    known = RT.choice([True, False], 'size known')
    st = None

    class Any(InputStream):
        def read(self, address, sz):
            def eof():
                if self._size is None:
                    self._size = mkint(8 * n.e)
                    return True
                return False
            return window_read(self, CC, n.e, address, sz, eof)
    st = obj(Any, source='x', _size=mkint(8 * n.e) if known else None)
    if known:
        st._current_size = st._size
    else:
        cur = RT.input_int('current', 0)
        RT.assume(cur.e <= 8 * n.e)
        st._current_size = cur
    kind, r = expect(ST + 'InputStream.sizeGe', InputStream.sizeGe, st, size)
    RT.prove(kind == 'ret', 'sizeGe returns')
    RT.prove(mkbool(size.e <= 8 * n.e) == bool(r), 'sizeGe: tells whether the stream is that long')


# ------------------------------------------------------------ file view
def mkfile():
    from hachoir.stream.input import FileFromInputStream, InputStream
    n = RT.input_int('n', 1)
    known = RT.choice([True, False], 'size known')
    o = RT.input_int('offset')
    fe = RT.choice([False, True], 'from end')
    own = []

    def notify():
        own[0]._size = mkint(n.e)

    class Any(InputStream):
        _pyvc_track = True

        def read(self, address, size):
            f = own[0]
            if f._size is not None:
                return window_read(self, CC, n.e, address, size, None)

            def eof():
                notify()
                return True
            r = window_read(self, CC, n.e, address, size, eof)
            if f._size is None and RT.choice([False, True], 'the end is met now'):
                notify()
            return r

        def _feed(self, size):
            if RT.branch(zint(size) > 8 * n.e) or RT.choice([False, True], 'the end is met'):
                notify()
                return True
            RT.ghost['fed'] = zint(size)
            self._current_size = RT.int('current')
            RT.assume(z3.And(self._current_size.e >= zint(size), self._current_size.e <= 8 * n.e))
            return False
    st = obj(Any, source='x', _size=None)
    cur = RT.input_int('current', 0)
    RT.assume(cur.e <= 8 * n.e)
    RT.assume(cur.e % 8 == 0)
    st._current_size = cur
    f = obj(FileFromInputStream, stream=st, _offset=o, _from_end=fe, _size=mkint(n.e) if known else None)
    f._pyvc_name = 'file'

    def hav(path):
        if path == '_size':
            return RT.choice([None, mkint(n.e)], 'the end has been met')
        if path == '_offset' and 'o' in RT.ghost:
            return RT.ghost['o']
        return NotImplemented
    f._pyvc_havoc = hav
    own.append(f)
    if not fe:
        RT.assume(o.e >= 0)
    RT.ghost['n'] = n.e
    RT.ghost['P'] = position(f, n.e)
    return f, n.e, own


def position(f, n):
    """the position the file view denotes"""
    if f._from_end:
        return z3.simplify(zmax(zint(f._offset) + n, iv(0)))
    return zint(f._offset)


def b_file_read():
    from hachoir.stream.input import FileFromInputStream
    f, n, own = mkfile()
    P = position(f, n)
    RT.ghost['max'] = z3.simplify(-zint(f._offset))
    size = RT.input_int('count') if RT.choice([True, False], 'count given') else None
    if size is None:
        want = z3.simplify(zmax(n - P, iv(0)))
    else:
        rest = zmax(n - P, iv(0))
        want = z3.simplify(z3.If(z3.Or(size.e < 0, size.e > rest), rest, size.e))
    kind, r = expect(ST + 'FileFromInputStream.read', FileFromInputStream.read, f, size)
    RT.prove(kind == 'ret', 'read on the file view returns')
    RT.cover('read')
    same_bytes(r, want, lambda j: CC.C(z3.simplify(P + j)), 'read on the file view')
    RT.prove(position(f, n) == P + want, 'read on the file view advances by what was read')
    RT.prove(f._from_end or zint(f._offset) >= 0, 'file view stays well-formed')


def b_file_tell():
    from hachoir.stream.input import FileFromInputStream
    f, n, own = mkfile()
    P = position(f, n)
    kind, r = expect(ST + 'FileFromInputStream.tell', FileFromInputStream.tell, f)
    RT.prove(kind == 'ret', 'tell returns')
    RT.prove(zint(r) == P, 'tell: the position')
    RT.prove(position(f, n) == P, 'tell: the position is unchanged')


def b_file_seek():
    from hachoir.stream.input import FileFromInputStream
    f, n, own = mkfile()
    P = position(f, n)
    pos = RT.input_int('pos')
    w = RT.choice([0, 1, 2, 3], 'whence')
    kind, r = expect(ST + 'FileFromInputStream.seek', FileFromInputStream.seek, f, pos, w)
    if kind == 'exc':
        RT.prove(isinstance(r, ValueError), 'seek: only ValueError')
        RT.prove(z3.Or(w == 3, z3.And(w == 0, pos.e < 0)), 'seek: only refuses negative positions and bad whence')
        RT.prove(position(f, n) == P, 'seek: the position is unchanged')
        return
    RT.prove(w != 3, 'seek: bad whence is refused')
    RT.prove(z3.Or(w != 0, pos.e >= 0), 'seek: a negative position is refused')
    base = {0: iv(0), 1: P, 2: n}[w] if w != 3 else iv(0)
    RT.prove(position(f, n) == zmax(base + pos.e, iv(0)), 'seek: the new position')
    RT.prove(f._from_end or zint(f._offset) >= 0, 'file view stays well-formed')


TELL = ST + 'FileFromInputStream.tell#0'
READ = ST + 'FileFromInputStream.read#'


def size_ok(s):
    return z3.BoolVal(True) if s._size is None else zint(s._size) == RT.ghost['n']


def stream_ok(s):
    c = zint(s.stream._current_size)
    return z3.And(c >= 0, c <= 8 * RT.ghost['n'])


def tell_inv(L):
    s = L.self
    return [('size', size_ok(s)), ('what is there', stream_ok(s)),
            ('the position is unchanged', position(s, RT.ghost['n']) == RT.ghost['P'] if s._from_end else z3.BoolVal(True))]


def tell_variant(L):
    s = L.self
    return 8 * RT.ghost['n'] - zint(s.stream._current_size) + (1 if s._size is None else 0)


def remaining(s):
    return RT.ghost['n'] - zint(s._offset) + (1 if s._size is None else 0)


def pair_havoc(L):
    """data: two adjacent chunks of the content which end at the offset"""
    g = RT.ghost
    x, y, o = RT.int('x').e, RT.int('y').e, RT.int('o').e
    RT.assume(z3.And(0 <= x, x <= y, y <= o))
    g['o'] = mkint(o)
    return {'data': (SBytes([('arr', CC.C, x, y - x)]), SBytes([('arr', CC.C, y, o - y)]))}


def pair_inv(L):
    """reading from a position before the (unknown) end: two last chunks"""
    g, s = RT.ghost, L.self
    n, o = g['n'], zint(s._offset)
    data = L.get('data')
    if not (isinstance(data, tuple) and len(data) == 2):
        raise Unsupported('data: a pair expected')
    d0, d1 = SBytes.lift(data[0]), SBytes.lift(data[1])
    y = z3.simplify(o - d1.q.length())
    x = z3.simplify(y - d0.q.length())
    g.setdefault('start', o)
    j = z3.Int('any_index_tail')
    out = [('chunks', z3.And(0 <= x, x <= y, y <= o, o <= n)), ('size', size_ok(s)), ('what is there', stream_ok(s))]
    for nm, d, b in (('previous chunk', d0, x), ('last chunk', d1, y)):
        t = d.q.term(j)
        if t is not None:
            out.append((nm, z3.Implies(z3.And(0 <= j, j < d.q.length()), t == CC.C(z3.simplify(b + j)))))
    out.append(('start', z3.And(g['start'] >= 0, g['start'] <= zmax(n - g['max'], iv(0)))))
    bs = zint(L.get('bs'))
    fresh = z3.And(o == g['start'], x == o, y == o)
    out.append(('enough before', z3.Or(fresh, o - x >= g['max'], x == g['start'])))
    if s._size is None:
        out.append(('chunk', z3.And(bs >= g['max'], bs > 0)))
        out.append(('enough', z3.Or(fresh, o - y >= g['max'])))
    else:
        out.append(('chunk', z3.And(bs == n - o, bs > 0, o - y >= g['max'])))
    return out


def all_inv(L):
    """reading everything from the offset when the size is not known"""
    g, s = RT.ghost, L.self
    n, o, P = g['n'], zint(s._offset), g['P']
    data, size = L.get('data'), zint(L.get('size'))
    if not isinstance(data, JoinList):
        raise Unsupported('data: a list of chunks expected')
    j = z3.Int('any_index_all')
    ln = z3.simplify(o - P)
    out = [('size', size_ok(s)), ('what is there', stream_ok(s)), ('read so far', z3.And(data.total.q.length() == ln, ln >= 0, z3.Or(ln == 0, o <= n))),
           ('chunk', size > 0)]
    if s._size is not None:
        out.append(('last chunk', size <= n - o))
    t = data.total.q.term(j)
    if t is not None:
        out.append(('content', z3.Implies(z3.And(0 <= j, j < ln), t == CC.C(z3.simplify(P + j)))))
    return out


def all_after(L):
    g, s = RT.ghost, L.self
    L.get('data').total = SBytes([('arr', CC.C, g['P'], z3.simplify(zint(s._offset) - g['P']))])


FILE_LOOPS = {TELL: LoopSpec(tell_inv, tell_variant),
              READ + '0': LoopSpec(pair_inv, lambda L: remaining(L.self), havoc=pair_havoc),
              READ + '1': LoopSpec(all_inv, lambda L: zmax(remaining(L.self), iv(0)), after=all_after)}


# ------------------------------------------------------------ fragments
# the chain of fragments 0..N-1: fragment i holds the bits [S(i), S(i)+FS(i)) of the
# content and lies at FA(i) in the parent
I = z3.IntSort()
S_ = z3.Function('S', I, I)
FA_ = z3.Function('FA', I, I)
FS_ = z3.Function('FS', I, I)


def d_frag(i):
    """definition of S; whole, aligned bytes (precondition)"""
    return [S_(iv(0)) == 0, S_(z3.simplify(i + 1)) == S_(i) + FS_(i), FS_(i) >= 0, FS_(i) % 8 == 0, FA_(i) >= 0, FA_(i) % 8 == 0]


L_mono = Lemma('fragments in order', 2, lambda i, d: z3.And(S_(z3.simplify(i + d)) >= S_(i)), induct=1,
               uses=lambda i, d, step=False: d_frag(z3.simplify(i + d)) if step else [])
L_align = Lemma('fragments aligned', 1, lambda i: z3.And(S_(i) % 8 == 0, S_(i) >= 0), induct=0,
                uses=lambda i, step=False: d_frag(i) if step else [S_(iv(0)) == 0])


def know(*idx):
    for i in idx:
        i = z3.simplify(zint(i))
        for f in d_frag(i):
            RT.fact(z3.Implies(i >= 0, f))
        L_align.use(i)
        g = RT.ghost
        J, n = g['J'], g['n']
        # definition of J (the first fragment which is not entirely in the parent) and T (bits there are)
        RT.fact(z3.Implies(z3.And(0 <= i, i < J), FA_(i) + FS_(i) <= 8 * n))
        mono(i, J)
        mono(i + 1, J)


def mono(i, j):
    i, j = z3.simplify(i), z3.simplify(j)
    L_mono.use(i, z3.simplify(j - i))


class FData:
    def __init__(self, i):
        self.absolute_address, self.size = mkint(FA_(i)), mkint(FS_(i))


class FField:
    path = '/f'

    def __init__(self, i):
        self.i = i

    def getData(self):
        if RT.ghost['flavour'] == 'nodata' and RT.branch(self.i == RT.ghost['N']):
            return None
        know(self.i)
        return FData(self.i)

    @property
    def next(self):
        return chain(z3.simplify(self.i + 1))


def chain(k):
    """the field after fragment k-1"""
    if RT.ghost['flavour'] == 'none' and RT.branch(k >= RT.ghost['N']):
        return None
    return FField(k)


class FragList(Sym):
    """fragments already known: the first k of the chain"""
    _pyvc_name = 'fragments'

    def __init__(self, k):
        self.k = k

    def snap_state(self):
        return (self.k,)

    def snap_children(self):
        return []

    def havoc(self):
        self.k = RT.int('nfrag').e

    def len_(self):
        return mkint(self.k)

    def __getitem__(self, i):
        i = zint(i)
        if z3.is_int_value(i) and i.as_long() < 0:
            i = z3.simplify(self.k + i)
        elif not RT.entails(i >= 0) and RT.branch(i < 0):
            i = z3.simplify(self.k + i)
        if not RT.branch(z3.And(i >= 0, i < self.k)):
            raise IndexError('list index out of range')
        know(i)
        return mkint(S_(i)), mkint(FA_(i)), mkint(FS_(i))

    def __iadd__(self, l):
        for a, fa, fs in l:
            RT.prove(z3.And(zint(a) == S_(self.k), zint(fa) == FA_(self.k), zint(fs) == FS_(self.k)),
                     'fragments are recorded in order, with their place')
            self.k = z3.simplify(self.k + 1)
        return self

    def append(self, x):
        self.__iadd__([x])


def mkfrag(simple=False):
    from hachoir.stream.input import FragmentedStream
    g = RT.ghost
    n = RT.input_int('n', 1)
    N, J, k = RT.input_int('N', 1), RT.input_int('J', 0), RT.input_int('k', 1)
    RT.assume(z3.And(J.e <= N.e, k.e <= N.e, k.e - 1 <= J.e))
    g['n'], g['N'], g['J'] = n.e, N.e, J.e
    g['flavour'] = 'none' if simple else RT.choice(['none', 'nodata'], 'end of the chain')
    T = z3.Int('T')
    RT.fact(z3.Implies(J.e < N.e, z3.And(FA_(J.e) + FS_(J.e) > 8 * n.e, T == S_(J.e) + zmax(8 * n.e - FA_(J.e), iv(0)))))
    RT.fact(z3.Implies(J.e == N.e, T == S_(N.e)))
    know(0, J.e, N.e, k.e - 1, k.e)
    size = RT.input_int('declared size', 1) if not simple and RT.choice([False, True], 'size declared') else None
    total = T if size is None else z3.If(size.e < T, size.e, T)
    g['T'], g['total'] = T, total
    cur = RT.input_int('current', 0)
    RT.assume(z3.And(cur.e >= S_(k.e - 1), cur.e <= S_(k.e), cur.e <= total))
    st = obj(FragmentedStream, source='x', _size=size, _current_size=cur, fragments=FragList(k.e), next=chain(k.e),
             stream=FParent(n.e))
    st._pyvc_name = 'fragmented stream'

    def hav(path):
        return chain(st.fragments.k) if path == 'next' else NotImplemented
    st._pyvc_havoc = hav
    if simple:
        # reading goes through the contract of _feed, which knows the total
        g['total'] = total = z3.Int('total')
        RT.fact(z3.And(total <= T, total >= 0))
    elif RT.choice([False, True], 'checked'):
        # the end has been found
        st._size = cur
        RT.assume(cur.e == total)
    g['st'] = st
    return st, total


class FParent(PStream):
    def __init__(self, n):
        PStream.__init__(self, CC, n)

    def sizeGe(self, size, const=False):
        """contract of sizeGe (proved above)"""
        return bool(mkbool(zint(size) <= 8 * self.n))

    def read(self, address, size):
        return window_read(self, CC, self.n, address, size, None)


def frag_state(what, st, total):
    """class invariant"""
    g = RT.ghost
    k = st.fragments.k
    know(k - 1, k)
    RT.prove(z3.And(1 <= k, k <= g['N'], k - 1 <= g['J']), what + ': known fragments')
    cur = zint(st._current_size)
    RT.prove(z3.And(S_(k - 1) <= cur, cur <= S_(k), cur <= total), what + ': what is known to be there is there')
    if st._size is not None:
        RT.prove(z3.Or(zint(st._size) == total, zint(st._size) > cur), what + ': size')
    if st.next is None:
        RT.prove(z3.And(g['flavour'] == 'none', k == g['N']), what + ': no fragment is forgotten')
    else:
        RT.prove(z3.Or(k < g['N'], z3.BoolVal(g['flavour'] == 'nodata')), what + ': no fragment is invented')
        if isinstance(st.next, FField):
            RT.prove(z3.Or(st.next.i == k, cur == total), what + ': next fragment')


def b_feed():
    from hachoir.stream.input import FragmentedStream
    from hachoir.stream import StreamError
    st, total = mkfrag()
    end = RT.input_int('end', 1)
    RT.ghost['end'] = end.e
    kind, r = expect(ST + 'FragmentedStream._feed', FragmentedStream._feed, st, end)
    if kind == 'exc':
        RT.cover('refused')
        RT.prove(isinstance(r, StreamError), '_feed: only stream errors')
        RT.prove(end.e > total, '_feed: only fails past the end')
    elif r:
        RT.cover('missing')
        RT.prove(end.e > total, '_feed: only fails past the end')
        RT.prove(z3.And(zint(st._size) == total, zint(st._current_size) == total), '_feed: finds the end')
    else:
        RT.cover('fed')
        RT.prove(end.e <= total, '_feed: the bits are there')
        RT.prove(zint(st._current_size) >= end.e, '_feed: the bits are known to be there')
    frag_state('_feed', st, total)


FEED = ST + 'FragmentedStream._feed#0'


def feed_inv(L):
    g, s = RT.ghost, L.self
    k = s.fragments.k
    know(k - 1, k)
    out = [('known fragments', z3.And(1 <= k, k <= g['N'], k - 1 <= g['J'])),
           ('current fragment', z3.And(zint(L.a) == S_(k - 1), zint(L.fa) == FA_(k - 1), zint(L.fs) == FS_(k - 1), zint(L.a) < g['end']))]
    if s.next is None:
        out.append(('next', z3.And(z3.BoolVal(g['flavour'] == 'none'), k == g['N'])))
    else:
        out.append(('next', z3.And(s.next.i == k, z3.Or(k < g['N'], z3.BoolVal(g['flavour'] == 'nodata')))))
    return out


def m_feed(self, end):
    """contract of _feed, proved by its unit"""
    from hachoir.stream.input import ReadStreamError
    g, e = RT.ghost, zint(end)
    RT.prove(e > 0, 'precondition of _feed')
    k2 = RT.int('nfrag').e
    RT.assume(z3.And(k2 >= self.fragments.k, k2 <= g['N'], k2 - 1 <= g['J']))
    self.fragments.k = k2
    know(k2 - 1, k2)
    if RT.branch(e <= g['total']):
        self._current_size = RT.int('current')
        RT.assume(z3.And(self._current_size.e >= e, self._current_size.e <= S_(k2), self._current_size.e <= g['total']))
        return False
    if RT.choice([False, True], 'refused'):
        raise ReadStreamError(0, 0)
    self._size = self._current_size = mkint(g['total'])
    RT.assume(z3.And(g['total'] <= S_(k2), S_(k2 - 1) <= g['total']))
    return True


def m_lowerBound(seq, cmp):
    """contract of lowerBound (C12) for the test 'starts at or before the address'"""
    k = seq.k
    i = RT.int('lower').e
    RT.assume(z3.And(0 <= i, i <= k))
    know(i - 1, i)
    if RT.branch(i > 0):
        RT.assume(zbool(cmp(seq[mkint(i - 1)])))
    else:
        RT.assume(z3.Not(zbool(cmp(seq[0]))))
    if RT.branch(i < k):
        RT.assume(z3.Not(zbool(cmp(seq[mkint(i)]))))
    return mkint(i)


def b_fragread():
    from hachoir.stream.input import FragmentedStream
    st, total = mkfrag(True)
    a, s = args()
    g = RT.ghost
    g['a'], g['s'], g['b'] = a.e, s.e, z3.simplify(a.e / 8)
    kind, r = expect(ST + 'FragmentedStream.read', FragmentedStream.read, st, a, s)
    post_read('FragmentedStream.read', kind, r, a.e, s.e, a.e + s.e <= total, None,
              content)


def b_fragread0():
    from hachoir.stream.input import FragmentedStream
    st, total = mkfrag(True)
    kind, r = expect(ST + 'FragmentedStream.read', FragmentedStream.read, st, RT.input_int('address', 0), 0)
    RT.prove(kind == 'ret' and not r[2] and SBytes.lift(r[1]).q.length().eq(iv(0)), 'an empty window is always there')


def content(x):
    """definition of the content at x, in the fragments at hand"""
    for e in RT.ghost.get('frags', ()):
        e = z3.simplify(e)
        RT.fact(z3.Implies(z3.And(0 <= e, S_(e) / 8 <= x, x < S_(z3.simplify(e + 1)) / 8), CF.C(x) == CC.C(z3.simplify(FA_(e) / 8 + x - S_(e) / 8))))
    return CF.C(x)


def fr_inv(L):
    """the next bits to read are at pos, in fragment i-1"""
    g, s = RT.ghost, L.self
    k, i = s.fragments.k, zint(L.i)
    know(i - 1, i, k)
    mono(i, k)
    size = zint(L.size)
    if 'size0' not in g:
        g['size0'] = size        # less than asked when some is missing
    pos = z3.simplify(g['a'] + g['size0'] - size)
    T = g['total']
    out = [('fragment', z3.And(1 <= i, i <= k)),
           ('remaining', z3.And(size > 0, size <= g['size0'], pos + size <= T, pos + size <= S_(k))),
           ('place', z3.And(zint(L.fa) == FA_(i - 1) + pos - S_(i - 1), zint(L.fs) == S_(i) - pos, zint(L.fs) >= 0)),
           ('position', z3.Or(z3.And(pos == g['a'], S_(i - 1) <= pos, pos < S_(i)), z3.And(pos == S_(i - 1), pos > g['a'])))]
    sh = L.s
    first = pos == g['a']
    out.append(('shift', z3.And(first if sh is None else z3.And(z3.Not(first), zint(sh) == g['a'] % 8))))
    d = L.d.total
    ln = z3.simplify(pos / 8 - g['b'])
    out.append(('bytes', z3.If(first, d.q.length() == 0, d.q.length() == ln)))
    j = z3.Int('any_index_frag')
    t = d.q.term(j)
    # definition of the content
    x = z3.simplify(g['b'] + j)
    g['frags'] = (i - 1, i - 2)
    content(x)
    if t is not None:
        out.append(('content', z3.Implies(z3.And(0 <= j, j < d.q.length()), t == CF.C(x))))
    return out


def fr_havoc(L):
    return {'s': None} if RT.choice([True, False], 'first fragment') else {'s': RT.int('s')}


def fr_after(L):
    d = L.d
    d.total = SBytes([('arr', CF.C, RT.ghost['b'], d.total.q.length())])


FRAG_LOOPS = {FEED: LoopSpec(feed_inv, lambda L: RT.ghost['N'] - L.self.fragments.k),
              ST + 'FragmentedStream.read#0': LoopSpec(fr_inv, lambda L: L.self.fragments.k - zint(L.i), havoc=fr_havoc, after=fr_after)}


def b_frag_init():
    from hachoir.stream.input import FragmentedStream
    g = RT.ghost
    n, N, J = RT.input_int('n', 1), RT.input_int('N', 1), RT.input_int('J', 0)
    g['n'], g['N'], g['J'] = n.e, N.e, J.e
    RT.assume(J.e <= N.e)
    know(0, 1)
    f = FField(iv(0))
    g['flavour'] = 'none'
    RT.assume(FS_(iv(0)) > 0)

    class P:
        stream = FParent(n.e)
    f.parent = P
    size = RT.input_int('declared size', 1) if RT.choice([False, True], 'size declared') else None
    if size is not None:
        kind, st = expect(ST + 'FragmentedStream.__init__', FragmentedStream, f, size=size)
    else:
        kind, st = expect(ST + 'FragmentedStream.__init__', FragmentedStream, f)
    RT.prove(kind == 'ret', 'FragmentedStream is made')
    RT.prove(st.stream is P.stream, 'FragmentedStream: reads the stream of the field')
    RT.prove(len(st.fragments) == 1, 'FragmentedStream: one fragment is known')
    a, fa, fs = st.fragments[0]
    RT.prove(z3.And(zint(a) == 0, zint(fa) == FA_(iv(0)), zint(fs) == FS_(iv(0))), 'FragmentedStream: place of the first fragment')
    if st.next is None:
        RT.prove(N.e == 1, 'FragmentedStream: no fragment is forgotten')
        c = FS_(iv(0)) if size is None else z3.If(size.e < FS_(iv(0)), size.e, FS_(iv(0)))
        RT.prove(z3.And(zint(st._size) == c, zint(st._current_size) == c), 'FragmentedStream: size of a single fragment')
    else:
        RT.prove(z3.And(st.next.i == 1, N.e > 1), 'FragmentedStream: next fragment')
        RT.prove(zint(st._current_size) == 0, 'FragmentedStream: nothing is known to be there yet')
        RT.prove(st._size is size, 'FragmentedStream: declared size')


BOUNDED = []
CALLS = dict(lib.LOG_CALLS)


def U(name, qual, body, loops=None, calls=CALLS, **k):
    return Unit(name, [ST + q for q in qual.split()], body, loops=loops or {}, calls=calls, **k)


UNITS = [
    U('StringInputStream.read', 'StringInputStream.read', b_string),
    U('StringInputStream', 'StringInputStream.__init__ InputStream.__init__', b_string_init),
    U('InputIOStream.read', 'InputIOStream.read', b_io(True)),
    U('InputIOStream.read unknown size', 'InputIOStream.read', b_io(False)),
    U('InputIOStream', 'InputIOStream.__init__', b_io_init),
    U('InputSubStream.read', 'InputSubStream.read', b_sub),
    U('InputSubStream', 'InputSubStream.__init__', b_sub_init),
    U('InputSubStream current size', 'InputSubStream.__init__', b_sub_current),
    U('InputFieldStream', 'InputFieldStream', b_field_stream),
    U('ConcatStream.read', 'ConcatStream.read', b_concat),
    U('ConcatStream', 'ConcatStream.__init__', b_concat_init),
    U('readBytes', 'InputStream.readBytes', b_readBytes),
    U('file view tell', 'FileFromInputStream.tell', b_file_tell, FILE_LOOPS),
    U('file view seek', 'FileFromInputStream.seek', b_file_seek, FILE_LOOPS),
    U('file view read', 'FileFromInputStream.read', b_file_read, FILE_LOOPS, symlists={ST + 'FileFromInputStream.read': JoinList}),
    U('FragmentedStream', 'FragmentedStream.__init__', b_frag_init),
    U('FragmentedStream._feed', 'FragmentedStream._feed', b_feed, FRAG_LOOPS),
    U('FragmentedStream.read', 'FragmentedStream.read', b_fragread, FRAG_LOOPS, symlists={ST + 'FragmentedStream.read': JoinList},
      calls=dict(CALLS, **{ST + 'FragmentedStream._feed': m_feed, 'hachoir.core.tools:lowerBound': m_lowerBound})),
    U('FragmentedStream.read empty', 'FragmentedStream.read', b_fragread0),
    U('sizeGe', 'InputStream.sizeGe InputStream._feed', b_sizeGe),
]

from contracts import c02b      # noqa: E402
UNITS += c02b.UNITS
