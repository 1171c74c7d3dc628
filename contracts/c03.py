"""C03: pipe inputs behave like seekable files within the cache.

The content is C, n bytes. Block i of the cache holds the bytes
[i<<16, min((i+1)<<16, n)); blocks 0..len-1 are known, the first `disc` of them
discarded. The ring of non-discarded blocks is given by two arrays nx, pv:

  ring(i), for disc <= i < len:  disc <= nx(i), pv(i) < len
                                 pv(nx(i)) = i, nx(pv(i)) = i
  order: with t(i) the (ghost) time of the last access, injective:
         t(nx(last)) <= t(i) <= t(last)
         i != last: t(i) < t(nx(i)), and no t(j) lies between

proved at arbitrary indexes, and used at the indexes at hand.
"""
import z3
from pyvc.core import RT, Sym, SInt, SBool, SBytes, LoopSpec, mkint, mkbool, zint, zbool, iv, Unsupported, zmax, PathEnd
from pyvc.contract import Unit, Lemma, expect
from contracts import lib
from contracts.lib import CC, obj, JoinList, same_bytes

PROP = 'C03'
P = 'hachoir.stream.input:InputPipe.'
BS = 16
I = z3.IntSort()
AR = z3.ArraySort(I, I)
P0, Q0 = z3.Int('any_block'), z3.Int('any_other_block')


def zmin(a, b):
    return z3.If(a <= b, a, b)


def block_len(i):
    n = RT.ghost['n']
    return z3.simplify(zmax(zmin(iv(1 << BS), n - (i << BS if isinstance(i, int) else i * (1 << BS))), iv(0)))


class Buf(Sym):
    """self.buffers[i], not discarded"""

    def __init__(self, b, i):
        self.b, self.i = b, i

    def __getitem__(self, k):
        b = self.b
        if k == 0:
            return SBytes([('arr', CC.C, z3.simplify(self.i * (1 << BS)), block_len(self.i))])
        if k == 1:
            return mkint(b.nx[self.i])
        if k == 2:
            return mkint(b.pv[self.i])
        raise IndexError('list index out of range')

    def __setitem__(self, k, v):
        b = self.b
        RT.prove(self.i >= b.disc, 'a discarded block is not used')
        if k == 1:
            b.nx = z3.Store(b.nx, self.i, zint(v))
        elif k == 2:
            b.pv = z3.Store(b.pv, self.i, zint(v))
        else:
            raise Unsupported('data of a block is replaced')
        b.ver += 1


class Bufs(Sym):
    _pyvc_name = 'buffers'

    def __init__(self, k, disc):
        self.n, self.disc = k, disc
        self.ver = 0
        self.fresh()

    def fresh(self):
        self.nx = z3.Const(RT.freshname('nx'), AR)
        self.pv = z3.Const(RT.freshname('pv'), AR)
        self.t = z3.Const(RT.freshname('time'), AR)
        self.at = z3.Const(RT.freshname('accessed_at'), AR)
        self.ver += 1

    def snap_state(self):
        return (self.ver, self.n.get_id(), self.disc.get_id())

    def snap_children(self):
        return []

    def havoc(self):
        self.fresh()
        self.n, self.disc = RT.int('len').e, RT.int('disc').e

    def len_(self):
        return mkint(self.n)

    def _ix(self, i):
        i = zint(i)
        if not RT.entails(i >= 0):
            if RT.branch(i < 0):
                i = z3.simplify(self.n + i)
        if not RT.branch(z3.And(i >= 0, i < self.n)):
            raise IndexError('list index out of range')
        return i

    def __getitem__(self, i):
        i = self._ix(i)
        if RT.branch(i < self.disc):
            return None
        know(self, i)
        return Buf(self, i)

    def __setitem__(self, i, v):
        i = self._ix(i)
        if v is not None:
            raise Unsupported('a block is replaced')
        RT.prove(i == self.disc, 'only the first block is discarded')
        RT.prove(z3.Implies(live(self, P0), self.t[i] <= self.t[P0]), 'only the least recently used block is discarded')
        RT.prove(self.n - self.disc > RT.ghost['min'], 'no block is discarded while the minimum number is held')
        self.disc = z3.simplify(i + 1)
        self.ver += 1

    def append(self, b):
        data, nx, pv = b
        d = SBytes.lift(data)
        same_bytes(d, block_len(self.n), lambda j: CC.C(z3.simplify(self.n * (1 << BS) + j)), 'block appended')
        RT.prove(d.q.length() > 0, 'an appended block is not empty')
        self.nx = z3.Store(self.nx, self.n, zint(nx))
        self.pv = z3.Store(self.pv, self.n, zint(pv))
        self.n = z3.simplify(self.n + 1)
        self.ver += 1


    def touch(self, i, last):
        """ghost: block i is accessed now"""
        m = RT.int('now').e
        if last is not None:
            RT.assume(m > self.t[last])
        self.t, self.at = z3.Store(self.t, i, m), z3.Store(self.at, m, i)


def live(b, i):
    return z3.And(b.disc <= i, i < b.n)


def ring(b, i, last):
    """the ring invariant at i"""
    nx, pv, t = b.nx[i], b.pv[i], b.t
    return z3.Implies(live(b, i),
                      z3.And(live(b, nx), live(b, pv), b.pv[nx] == i, b.nx[pv] == i, b.at[t[i]] == i,
                             t[i] <= t[last], t[b.nx[last]] <= t[i], z3.Implies(i != last, t[i] < t[nx])))


def succ(b, i, j, last):
    t = b.t
    return z3.Implies(z3.And(live(b, i), live(b, j), i != last, t[i] < t[j]), t[b.nx[i]] <= t[j])


def know(b, *idx):
    """instances of the assumed invariant (arrays of the last assumed state)"""
    k = RT.ghost.get('known')
    if k is None:
        return
    K, done = k
    for i in idx:
        i = z3.simplify(i)
        if i.get_id() in done:
            continue
        for x in (i, K.nx[i], K.pv[i]):
            RT.fact(ring(K, x, K.last))
        for y in list(done.values()) + [i]:
            RT.fact(succ(K, i, y, K.last))
            RT.fact(succ(K, y, i, K.last))
            RT.fact(succ(K, K.pv[i], y, K.last))
            RT.fact(succ(K, K.pv[y], i, K.last))
        done[i.get_id()] = i


class Frozen:
    pass


def assume_ring(b, last, *idx):
    if last is None:
        RT.ghost['known'] = None
        return
    K = Frozen()
    K.nx, K.pv, K.n, K.disc, K.t, K.at, K.last = b.nx, b.pv, b.n, b.disc, b.t, b.at, zint(last)
    RT.ghost['known'] = (K, {})
    know(b, P0, Q0, K.last, *idx)


def consumed(s):
    """what the state says of the input: (pos, eof known)"""
    b, n = s.buffers, RT.ghost['n']
    if s.size is None:
        return z3.And(zint(s._input.pos) == b.n * (1 << BS), zint(s._input.pos) <= n)
    return z3.And(zint(s.size) == n, zint(s._input.pos) == n, b.n == (n + (1 << BS) - 1) / (1 << BS))


class Input:
    """ASSUMED contract of the underlying input: read(k) gives the next k bytes, or less only at the end"""
    _pyvc_track = True
    _pyvc_name = 'input'

    def __init__(self, pos):
        self.pos, self.met = pos, False

    def read(self, k):
        p, k, n = zint(self.pos), zint(k), RT.ghost['n']
        RT.prove(z3.BoolVal(not self.met), 'the input is not read again after its end')
        RT.prove(k >= 0, 'precondition of read')
        got = z3.simplify(zmin(k, n - p))
        if RT.branch(got < k):
            self.met = True
        self.pos = mkint(p + got)
        return SBytes([('arr', CC.C, p, got)])


def mkpipe(empty=True):
    from hachoir.stream.input import InputPipe
    g = RT.ghost
    n = RT.input_int('n', 0)
    g['n'] = n.e
    mn = RT.input_int('buffer_nb_min', 1)
    g['min'] = mn.e
    first, k = RT.input_int('first', 0), RT.input_int('blocks', 0)
    b = Bufs(k.e, first.e)
    eof = RT.choice([False, True], 'end known')
    inp = Input(mkint(n.e) if eof else mkint(k.e * (1 << BS)))
    inp.met = eof
    told = []

    def set_size(x):
        told.append(x)
    none = empty and RT.choice([False, True], 'no block')
    if none:
        RT.assume(z3.And(k.e == 0, first.e == 0))
    else:
        RT.assume(first.e < k.e)
    last = RT.input_int('last', 0) if not none else None
    p = obj(InputPipe, _input=inp, first=first, buffers=b, address=RT.input_int('address', 0), buffer_nb_min=mn,
            set_size=set_size if RT.choice([True, False], 'size callback') else None, size=mkint(n.e) if eof else None)
    if last is not None:
        p.last = last
        RT.assume(z3.And(first.e <= last.e, last.e < k.e))
    RT.assume(consumed(p))
    assume_ring(b, last)
    p._pyvc_name = 'pipe'

    def hav(path):
        if path == 'last' and RT.ghost.get('any_last'):
            return RT.int('last')
        if path == 'size':
            return RT.choice([None, mkint(n.e)], 'the end has been met')
        if path == 'last':
            return RT.choice([None, RT.int('last')], 'blocks')
        return NotImplemented
    p._pyvc_havoc = hav
    g['p'] = p
    return p, b, n.e, told


def wf_parts(p):
    b = p.buffers
    out = [('first block', z3.And(zint(p.first) == b.disc, b.disc >= 0))]
    if p.last is None:
        out.append(('most recent block', z3.And(b.n == 0, b.disc == 0)))
    else:
        l = zint(p.last)
        out.append(('most recent block', z3.And(b.disc <= l, l < b.n)))
        out.append(('ring of blocks', ring(b, P0, l)))
        out.append(('order of blocks', succ(b, P0, Q0, l)))
    out.append(('input', consumed(p)))
    return out


def prove_wf(what, p):
    for lab, c in wf_parts(p):
        RT.prove(c, '%s keeps the cache well-formed: %s' % (what, lab))


# ------------------------------------------------------------ contracts
def b_append():
    from hachoir.stream.input import InputPipe
    p, b, n, told = mkpipe()
    RT.assume(z3.And(b.n * (1 << BS) < n))
    if p.size is not None:
        return
    data = SBytes([('arr', CC.C, z3.simplify(b.n * (1 << BS)), block_len(b.n))])
    # the input has just been read
    k0 = b.n
    if p.last is not None:
        know(b, b.nx[zint(p.last)])
    p._input.pos = mkint(zmin((k0 + 1) * (1 << BS), n))
    l0 = None if p.last is None else zint(p.last)
    full = RT.branch((k0 + 1) * (1 << BS) <= n)
    if not full:
        p.size = mkint(n)
    kind, r = expect(P + '_append', InputPipe._append, p, data)
    RT.prove(kind == 'ret', '_append returns')
    RT.cover('appended')
    b.touch(k0, l0)
    RT.prove(z3.And(b.n == k0 + 1, zint(p.last) == k0), '_append adds one block, the most recent one')
    prove_wf('_append', p)


def fresh_ring(p, last=True):
    """any well-formed ring on the same blocks"""
    b = p.buffers
    b.fresh()
    if last:
        p.last = RT.int('last')
        RT.assume(z3.And(b.disc <= p.last.e, p.last.e < b.n))
    assume_ring(b, p.last)


def m_append(self, data):
    b = self.buffers
    same_bytes(data, block_len(b.n), lambda j: CC.C(z3.simplify(b.n * (1 << BS) + j)), 'block appended')
    RT.prove(SBytes.lift(data).q.length() > 0, 'an appended block is not empty')
    b.n = z3.simplify(b.n + 1)
    self.last = mkint(b.n - 1)
    fresh_ring(self, False)


def get_post(p, index, first0, n0):
    b = p.buffers
    RT.prove(z3.And(b.n == n0, b.disc == first0), '_get neither adds nor discards blocks')


def b_get():
    from hachoir.stream.input import InputPipe
    from hachoir.stream import StreamError
    p, b, n, told = mkpipe()
    index = RT.input_int('index', 0)
    if p.last is not None:
        know(b, index.e)
    n0, f0, l0 = b.n, b.disc, p.last
    kind, r = expect(P + '_get', InputPipe._get, p, index)
    RT.prove(z3.And(b.n == n0, b.disc == f0), '_get neither adds nor discards blocks')
    if kind == 'exc':
        RT.cover('discarded')
        RT.prove(isinstance(r, StreamError), '_get: only stream errors')
        RT.prove(index.e < f0, '_get: only fails for a discarded block')
    else:
        RT.prove(index.e >= f0, '_get: a discarded block is an error')
        if RT.branch(index.e < n0):
            RT.cover('got')
            RT.prove(zint(p.last) == index.e, '_get: the block is the most recent one')
            b.touch(index.e, zint(l0))
            same_bytes(r, block_len(index.e), lambda j: CC.C(z3.simplify(index.e * (1 << BS) + j)), '_get')
        else:
            RT.prove(SBytes.lift(r).q.length() == 0, '_get: nothing after the last block')
    prove_wf('_get', p)


def m_get(self, index):
    from hachoir.stream.input import InputStreamError
    b = self.buffers
    i = zint(index)
    RT.prove(i >= 0, 'precondition of _get')
    if RT.branch(i >= b.n):
        return SBytes([])
    if RT.branch(i < b.disc):
        raise InputStreamError('discarded')
    self.last = mkint(i)
    fresh_ring(self, False)
    return SBytes([('arr', CC.C, z3.simplify(i * (1 << BS)), block_len(i))])


def b_flush():
    from hachoir.stream.input import InputPipe
    p, b, n, told = mkpipe()
    RT.ghost['any_last'] = True
    n0, f0, l0 = b.n, b.disc, p.last
    kind, r = expect(P + '_flush', InputPipe._flush, p)
    RT.prove(kind == 'ret', '_flush returns')
    RT.cover('flushed')
    RT.prove(b.n == n0, '_flush does not add blocks')
    RT.prove(z3.And(b.disc >= f0, z3.Or(b.disc == f0, b.n - b.disc >= RT.ghost['min'])), '_flush discards no block while the minimum is held')
    RT.prove(p.last is l0 or zint(p.last) == zint(l0), '_flush keeps the most recent block')
    prove_wf('_flush', p)


def flush_inv(L):
    s, b = L.self, L.self.buffers
    if 'n0' not in RT.ghost:
        RT.ghost.update(n0=b.n, f0=b.disc, l0=s.last)
    g = RT.ghost
    out = wf_parts(s)
    out.append(('blocks', z3.And(b.n == g['n0'], b.disc >= g['f0'], z3.Or(b.disc == g['f0'], b.n - b.disc >= g['min']))))
    if s.last is not None:
        out.append(('last', zint(s.last) == zint(g['l0'])))
    return out


def flush_after(L):
    s = L.self
    assume_ring(s.buffers, s.last, zint(s.first), zint(s.first) + 1)


def m_flush(self):
    b = self.buffers
    d = RT.int('disc').e
    RT.assume(z3.And(d >= b.disc, z3.Or(d == b.disc, b.n - d >= RT.ghost['min'])))
    if self.last is not None:
        b.disc = d
        self.first = mkint(d)
        l = self.last
        RT.assume(d <= zint(l))
        fresh_ring(self, False)


def b_read():
    from hachoir.stream.input import InputPipe
    from hachoir.stream import StreamError
    p, b, n, told = mkpipe()
    size = RT.input_int('size', 0)
    a = zint(p.address)
    first0, known0 = b.disc, p.size is not None
    RT.ghost['n0blocks'] = b.n
    kind, r = expect(P + 'read', InputPipe.read, p, size)
    if kind == 'exc':
        RT.cover('discarded')
        RT.prove(isinstance(r, StreamError), 'read: only stream errors')
        RT.prove(a / (1 << BS) < first0, 'read: only fails for a discarded block')
        RT.prove(zint(p.address) == a, 'read: the position is unchanged after an error')
    else:
        RT.cover('read')
        got = z3.simplify(zmax(zmin(size.e, n - a), iv(0)))
        same_bytes(r, got, lambda j: CC.C(z3.simplify(a + j)), 'read')
        RT.prove(zint(p.address) == a + got, 'read: advances by what was read')
    if p.set_size is not None:
        RT.prove(len(told) == (p.size is not None and not known0), 'the size is told once, when the end is met')
        if told:
            RT.prove(zint(told[0]) == n, 'the size told is the size of the content')
    RT.prove(z3.Or(z3.BoolVal(p.size is not None), a + size.e <= n), 'the size is known after reading past the end')
    prove_wf('read', p)


def read_inv(L):
    s, b, g = L.self, L.self.buffers, RT.ghost
    out = wf_parts(s)
    i = zint(L._idx)
    if s.size is None:
        out.append(('blocks', b.n == g['n0blocks'] + i))
        out.append(('no end yet', z3.BoolVal(not s._input.met)))
    else:
        out.append(('end', z3.And(z3.BoolVal(g['p'].size is not None and s._input.met), i == 0, b.n == g['n0blocks'])))
    out.append(('discarded', b.disc == g.setdefault('f0', b.disc)))
    return out


def read_after(L):
    s = L.self
    assume_ring(s.buffers, s.last)


def read_havoc(L):
    return {}


def c_join(it, f, kind):
    """rule for b''.join(self._get(i) for i in range(lo, hi)): every element is the block of its index"""
    p = RT.ghost['p']
    b = p.buffers
    if not hasattr(it, 'a') or it.step != 1:
        return NotImplemented
    lo, hi = zint(it.a), zint(it.b)
    if not RT.branch(lo < hi):
        return JoinList()
    if RT.choice([True, False], 'any element of the join'):
        k = RT.int('k')
        RT.assume(z3.And(lo <= k.e, k.e < hi, z3.Or(k.e == lo, lo >= b.disc)))
        if p.last is not None:
            fresh_ring(p)
        nb, d = b.n, b.disc
        els = list(f([k]))
        RT.prove(len(els) == 1, 'one element for each block')
        ln = z3.If(k.e < b.n, block_len(k.e), iv(0))
        same_bytes(els[0], z3.simplify(ln), lambda j: CC.C(z3.simplify(k.e * (1 << BS) + j)), 'element of the join')
        RT.prove(z3.And(b.n == nb, b.disc == d, zint(p.first) == d), 'blocks are neither added nor discarded meanwhile')
        raise PathEnd()
    # every element was computed without an error
    RT.assume(z3.Or(lo >= b.disc))
    if p.last is not None:
        fresh_ring(p)
    jl = JoinList()
    end = zmin(zmin(hi * (1 << BS), b.n * (1 << BS)), RT.ghost['n'])
    start = lo * (1 << BS)
    jl.total = SBytes([('arr', CC.C, z3.simplify(start), z3.simplify(zmax(end - start, iv(0))))])
    return jl


def join_pre(L):
    b = L.self.buffers
    RT.ghost['join'] = (b.n, b.disc)


def join_inv(L):
    """the same in a loop: the blocks up to the index are joined"""
    s, b, g = L.self, L.self.buffers, RT.ghost
    it = L._it
    if not hasattr(it, 'a') or it.step != 1:
        raise Unsupported('blocks in order expected')
    chunks = [v for v in L._d.values() if isinstance(v, JoinList)]
    if len(chunks) != 1:
        raise Unsupported('one list of blocks expected')
    lo, i = zint(it.a), zint(L._idx)
    out = wf_parts(s)
    out.append(('blocks', z3.And(b.n == g['join'][0], b.disc == g['join'][1], zint(s.first) == b.disc)))
    out.append(('not discarded', z3.Or(i == 0, lo >= b.disc)))
    start, end = lo * (1 << BS), zmin(zmin((lo + i) * (1 << BS), b.n * (1 << BS)), g['n'])
    t = chunks[0].total.q
    out.append(('length', t.length() == zmax(end - start, iv(0))))
    j = z3.Int('any_index_join')
    e = t.term(j)
    if e is not None:
        out.append(('content', z3.Implies(z3.And(0 <= j, j < t.length()), e == CC.C(z3.simplify(start + j)))))
    return out


def join_after(L):
    s = L.self
    assume_ring(s.buffers, s.last)
    c = [v for v in L._d.values() if isinstance(v, JoinList)][0]
    c.total = SBytes([('arr', CC.C, z3.simplify(zint(L._it.a) * (1 << BS)), c.total.q.length())])


def b_init():
    from hachoir.stream.input import InputPipe
    RT.ghost['n'] = RT.input_int('n', 0).e
    i = Input(0)
    kind, p = expect(P + '__init__', InputPipe, i, None)
    RT.prove(kind == 'ret' and p._input is i and p.last is None and p.size is None and p.buffers == [], 'InputPipe starts with no block')
    RT.prove(p.first == 0 and p.address == 0 and p.current_size == 0, 'InputPipe starts at the beginning')


def b_seek():
    from hachoir.stream.input import InputPipe
    p, b, n, told = mkpipe()
    a = RT.input_int('to', 0)
    kind, r = expect(P + 'seek', InputPipe.seek, p, a)
    RT.prove(kind == 'ret' and zint(p.address) == a.e, 'seek: the new position')
    RT.prove(zint(p.current_size) == b.n * (1 << BS), 'current_size: the blocks known')
    prove_wf('seek', p)


CALLS = dict(lib.LOG_CALLS)
RC = dict(CALLS, **{P + '_append': m_append, P + '_get': m_get, P + '_flush': m_flush})
JOIN = LoopSpec(join_inv, None, pre=join_pre, after=join_after)
LOOPS = {P + '_flush#0': LoopSpec(flush_inv, lambda L: L.self.buffers.n - L.self.buffers.disc, after=flush_after),
         P + 'read#0': LoopSpec(read_inv, None, after=read_after), P + 'read#1': JOIN}
UNITS = [
    Unit('InputPipe', [P + '__init__'], b_init, calls=CALLS),
    Unit('InputPipe.seek', [P + 'seek'], b_seek, calls=CALLS),
    Unit('InputPipe._append', [P + '_append'], b_append, calls=CALLS),
    Unit('InputPipe._get', [P + '_get'], b_get, calls=CALLS),
    Unit('InputPipe._flush', [P + '_flush'], b_flush, calls=CALLS, loops=LOOPS),
    Unit('InputPipe.read', [P + 'read'], b_read, calls=RC, loops=LOOPS, comps={P + 'read@0': c_join}, symlists={P + 'read': JoinList}),
]
BOUNDED = []
