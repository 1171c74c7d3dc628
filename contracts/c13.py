"""C13: gap computation, and seekable field sets cover every bit exactly once.

The list of blocks is arbitrary: n blocks (S(i), L(i)), i the index in the
order of sorted() (ASSUMED contract of sorted: the same blocks, by increasing
key). x is an arbitrary position, fixed beforehand; cov(k) says that one of the
first k blocks covers x. The gaps are proved correct at x, so at every position.
"""
import z3
from pyvc.core import RT, LoopSpec, SInt, SBool, Sym, mkint, zint, zbool, iv, Unsupported, PathEnd, UNBOUND
from pyvc.contract import Unit, Lemma, expect
from contracts import lib
from contracts.lib import obj

PROP = 'C13'
SK = 'hachoir.field.seekable_field_set:'
I = z3.IntSort()
S = z3.Function('block_start', I, I)
L_ = z3.Function('block_length', I, I)
COV = z3.Function('covered_by_first', I, I, z3.BoolSort())


def covers(i, x):
    return z3.And(S(i) <= x, x < S(i) + L_(i))


def d_cov(x, k):
    """definition of COV at 0 and k+1"""
    return [z3.Not(COV(x, iv(0))), z3.Implies(k >= 0, COV(x, z3.simplify(k + 1)) == z3.Or(COV(x, k), covers(k, x)))]


# what sorted() gives: S(i) <= S(i+1)
def d_sorted(i):
    return [S(i) <= S(z3.simplify(i + 1))]


l_sorted = Lemma('C13:sorted', 2, lambda k, d: S(k) <= S(z3.simplify(k + d)), induct=1,
                 uses=lambda k, d, step=False: d_sorted(z3.simplify(k + d)) if step else [])
l_later = Lemma('C13:later blocks', 3,
                lambda x, k, d: z3.Implies(z3.And(COV(x, z3.simplify(k + d)), z3.Not(COV(x, k))), S(k) <= x),
                pre=lambda x, k, d: k >= 0, induct=2,
                uses=lambda x, k, d, step=False: d_cov(x, z3.simplify(k + d)) + [l_sorted.inst(k, d)] if step else [])
l_kept = Lemma('C13:covered stays covered', 3,
               lambda x, k, d: z3.Implies(COV(x, k), COV(x, z3.simplify(k + d))), pre=lambda x, k, d: k >= 0, induct=2,
               uses=lambda x, k, d, step=False: d_cov(x, z3.simplify(k + d)) if step else [])


class Blocks(Sym):
    """list of n blocks"""
    _pyvc_name = 'blocks'

    def __init__(self, n, order):
        self.n, self.order = n, order

    def snap_state(self):
        return self.order

    def snap_children(self):
        return []

    def len_(self):
        return mkint(self.n)

    def __bool__(self):
        return RT.branch(self.n > 0)

    def sym_list(self):
        return Blocks(self.n, self.order)

    def copy(self):
        return Blocks(self.n, self.order)

    def sym_item(self, i):
        if not self.order:
            raise Unsupported('blocks taken in the order of the caller')
        i = zint(i)
        return (mkint(S(i)), mkint(L_(i)))

    def sort(self, key=None, reverse=False):
        if self is RT.ghost['arg']:
            RT.prove(False, 'getgaps does not change the list of the caller')
        check_key(key, reverse)
        self.order = True


def check_key(key, reverse):
    if reverse:
        raise Unsupported('reverse order')
    if key is not None:
        a, b = RT.int('a'), RT.int('b')
        r = key((a, b))
        if isinstance(r, tuple):
            r = r[0]
        if not isinstance(r, SInt) or not z3.eq(r.e, a.e):
            raise Unsupported('key of sorted')


def m_sorted(it, k):
    if not isinstance(it, Blocks):
        raise Unsupported('sorted')
    check_key(k.get('key'), k.get('reverse'))
    return Blocks(it.n, True)


class Emitted:
    """ghost: what the gaps emitted so far say of x"""
    _pyvc_track = True
    _pyvc_name = 'emitted'

    def __init__(self, last):
        self.has_x, self.last = SBool(z3.BoolVal(False)), last


def b_gaps():
    from hachoir.field.seekable_field_set import getgaps
    g = RT.ghost
    s0, ln, n = RT.input_int('start'), RT.input_int('length'), RT.input_int('n_blocks', 0)
    x = RT.input_int('x').e
    end = z3.simplify(s0.e + ln.e)
    em = Emitted(mkint(s0.e - 1))
    bl = Blocks(n.e, False)
    g.update(s0=s0.e, end=end, n=n.e, x=x, em=em, arg=bl)
    RT.roots.extend([em])
    for f in d_cov(x, iv(0)):
        RT.fact(f)
    free = z3.Not(COV(x, n.e))
    kind, gen = expect(SK + 'getgaps', getgaps, s0, ln, bl)
    RT.prove(kind == 'ret', 'getgaps: no error')
    it = iter(gen)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        a, l = v
        a, l = zint(a), zint(l)
        RT.cover('gap')
        RT.prove(l > 0, 'getgaps: no gap is empty')
        RT.prove(z3.And(s0.e <= a, a + l <= end), 'getgaps: the gap lies inside the range')
        RT.prove(a > zint(em.last), 'getgaps: gaps are increasing and not adjacent (maximal)')
        inside = z3.And(a <= x, x < a + l)
        k = g.get('k')
        if k is not None:
            l_later.use(x, k, z3.simplify(n.e - k))
            for f in d_cov(x, k):
                RT.fact(f)
        RT.prove(z3.Implies(inside, free), 'getgaps: no position of a gap is covered')
        em.has_x = SBool(z3.Or(zbool(em.has_x), inside))
        em.last = mkint(a + l)
    RT.cover('end')
    k = g.get('k')
    if k is not None:
        l_later.use(x, k, z3.simplify(n.e - k))
    RT.prove(zbool(em.has_x) == z3.And(s0.e <= x, x < end, free), 'getgaps: every position covered by no block is in a gap')


def gaps_inv(L):
    g = RT.ghost
    x, s0, end, em, n = g['x'], g['s0'], g['end'], g['em'], g['n']
    k, cur = zint(L._idx), zint(L.start)
    g['k'] = z3.simplify(k)
    for f in d_cov(x, k) + d_cov(x, z3.simplify(k - 1)):
        RT.fact(f)
    l_kept.use(x, k, z3.simplify(n - k))
    return [('from the start', cur >= s0),
            ('blocks met end before', z3.Implies(COV(x, k), x < cur)),
            ('gaps before', z3.And(zint(em.last) < cur, z3.Or(cur == s0, z3.BoolVal(True)))),
            ('emitted', zbool(em.has_x) == z3.And(s0 <= x, x < cur, x < end, z3.Not(COV(x, n))))]


def gaps_after(L):
    g = RT.ghost
    k = zint(L._idx)
    g['k'] = z3.simplify(k)
    for f in d_sorted(k) + d_cov(g['x'], k):
        RT.fact(f)
    l_kept.use(g['x'], z3.simplify(k + 1), z3.simplify(g['n'] - k - 1))
    l_later.use(g['x'], z3.simplify(k), z3.simplify(g['n'] - k))
    RT.fact(z3.Implies(k + 1 <= g['n'], l_later.inst(g['x'], z3.simplify(k + 1), z3.simplify(g['n'] - k - 1))))


# ------------------------------------------------------------ seekable field sets
# n fields (A(i), Z(i)) relative to the set; x an arbitrary position of the set,
# PC(n): one of the first n fields covers x; i0 an arbitrary field
A = z3.Function('field_address', I, I)
Z = z3.Function('field_size', I, I)
PC = z3.Function('x_covered_by_fields', I, z3.BoolSort())
GA = z3.Function('gap_start', I, I)
GL = z3.Function('gap_length', I, I)
FS = 'hachoir.field.'


class PField(Sym):
    """a parsed field"""

    def __init__(self, i, off):
        self.i = i
        RT.fact(z3.And(A(i) >= 0, Z(i) >= 0))
        self.address = self._address = mkint(A(i))
        self.size = self._size = mkint(Z(i))
        self.absolute_address = mkint(off + A(i))
        self.path = self.name = self._name = lib.Opaque('name')

    def havoc_value(self):
        return UNBOUND


class Filler(Sym):
    def __init__(self, address, size):
        self.address = self._address = address
        self.size = self._size = size
        self.absolute_address = mkint(RT.ghost['off'] + zint(address))
        self.path = self.name = self._name = lib.Opaque('name')

    def havoc_value(self):
        return UNBOUND


class FieldList(Sym):
    """fields appended one after the other: how many, and how many of them cover x"""

    def __init__(self, name, n=None):
        self._pyvc_name = name
        self.added, self.cover_x, self.n = iv(0), iv(0), n

    def snap_state(self):
        return (str(self.added), str(self.cover_x), str(self.n))

    def snap_children(self):
        return []

    def havoc(self):
        self.added, self.cover_x = RT.int('added').e, RT.int('cover_x').e
        if self.n is not None:
            self.n = RT.int('n').e

    def put(self, f):
        x = RT.ghost['x']
        a, z = zint(f.address), zint(f.size)
        self.added = z3.simplify(self.added + 1)
        self.cover_x = z3.simplify(self.cover_x + z3.If(z3.And(a <= x, x < a + z), 1, 0))

    def append(self, *a):
        self.put(a[-1])

    def __bool__(self):
        return RT.branch(self.len_().e > 0) if not isinstance(self.len_(), int) else self.len_() > 0

    def len_(self):
        return mkint(self.added if self.n is None else self.n + self.added)

    # the dictionary of fields (contract: C07)
    @property
    def values(self):
        return self

    def __getitem__(self, i):
        RT.prove(self.added == 0, 'only parsed fields are looked up')
        i = zint(i)
        if RT.branch(z3.And(i < 0, i + self.n >= 0)):
            i = z3.simplify(i + self.n)
        elif not RT.branch(z3.And(i >= 0, i < self.n)):
            raise IndexError('list index out of range')
        return PField(i, RT.ghost['off'])

    def __delitem__(self, i):
        RT.prove(self.added == 0, 'only parsed fields are deleted')
        i = zint(i)
        if not RT.branch(z3.And(i < self.n, i >= -self.n)):
            raise IndexError('list index out of range')
        if not RT.entails(z3.Or(i == self.n - 1, i == -1)):
            raise Unsupported('deletion of another field than the last one')
        self.n = z3.simplify(self.n - 1)

    def sym_item(self, i):
        return PField(zint(i), RT.ghost['off'])


class Mapped(Sym):
    """[f(field) for field in the parsed fields]"""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def len_(self):
        return mkint(self.n)

    def __bool__(self):
        return RT.branch(self.n > 0)

    def sym_item(self, i):
        return self.elem(zint(i))


def c_map(it, f, kind):
    if isinstance(it, FieldList):
        RT.prove(it.added == 0, 'the blocks are the parsed fields')
        return Mapped(it.n, lambda i: list(f([PField(i, RT.ghost['off'])]))[0])
    if isinstance(it, Mapped):
        return Mapped(it.n, lambda i: list(f([it.elem(i)]))[0])
    return NotImplemented


def m_max(args, less, k):
    """ASSUMED contract of max() of a sequence"""
    if less or not isinstance(args, Mapped):
        raise Unsupported('min/max')
    if not RT.branch(args.n > 0):
        if 'default' in k:
            return k['default']
        raise ValueError('max() iterable argument is empty')
    m, i0, w = RT.int('max'), RT.ghost['i0'], RT.int('arg_max').e
    RT.assume(z3.And(0 <= w, w < args.n, m.e == zint(args.elem(w))))
    RT.fact(z3.Implies(z3.And(0 <= i0, i0 < args.n), m.e >= zint(args.elem(i0))))
    return m


class Gaps(Sym):
    """contract of getgaps, proved above, at the position x"""

    def __init__(self, start, length, blocks):
        g = RT.ghost
        RT.prove(isinstance(blocks, Mapped), 'the gaps of the parsed fields')
        n = blocks.n
        g['covered'] = PC(n)
        i = RT.int('any_field').e
        RT.assume(z3.And(0 <= i, i < n))
        a, l = blocks.elem(i)
        RT.prove(z3.And(zint(a) == g['off'] + A(i), zint(l) == Z(i)), 'the blocks are the ranges of the parsed fields')
        raise PathEnd()


class Parent:
    pass


class GapList(Sym):
    _pyvc_name = 'gaps'

    def __init__(self, start, length, blocks):
        g = RT.ghost
        self.start, self.end = zint(start), z3.simplify(zint(start) + zint(length))
        self.m, self.ix = RT.int('n_gaps').e, RT.int('gap_of_x').e
        RT.assume(self.m >= 0)
        self.y = z3.simplify(g['off'] + g['x'])
        self.free = z3.Not(PC(blocks.n))
        g['n'] = blocks.n
        inside = z3.And(self.start <= self.y, self.y < self.end)
        RT.fact(z3.And(inside, self.free) == z3.And(0 <= self.ix, self.ix < self.m))
        g['gaps'] = self

    def len_(self):
        return mkint(self.m)

    def sym_item(self, i):
        i = zint(i)
        RT.fact(z3.And(GL(i) > 0, self.start <= GA(i), GA(i) + GL(i) <= self.end))
        has = z3.And(GA(i) <= self.y, self.y < GA(i) + GL(i))
        RT.fact(has == z3.And(i == self.ix, self.free, self.start <= self.y, self.y < self.end))
        return (mkint(GA(i)), mkint(GL(i)))


def m_getgaps(start, length, blocks):
    RT.prove(isinstance(blocks, Mapped), 'the gaps of the parsed fields')
    if RT.choice([True, False], 'any block'):
        return Gaps(start, length, blocks)
    return GapList(start, length, blocks)


def m_raw(parent, size, name='raw[]', description=None):
    """contract of createRawField: a field at the next address of its parent"""
    g = RT.ghost
    RT.prove(parent is g['self'], 'createRawField in this set')
    RT.prove(zint(size) > 0, 'createRawField: size > 0')
    return Filler(parent._current_size, size)


def m_unique(self, field):
    pass


def b_stop():
    from hachoir.field.seekable_field_set import RootSeekableFieldSet, SeekableFieldSet
    g = RT.ghost
    n, off, cur = RT.input_int('n_fields', 0), RT.input_int('absolute_address', 0), RT.input_int('position', 0)
    g['off'], g['x'], g['i0'] = off.e, RT.input_int('x', 0).e, RT.input_int('i0', 0).e
    known = RT.choice([True, False], 'size known')
    root = RT.choice([True, False], 'root') if known else False
    fl = FieldList('fields', n.e)
    size = RT.input_int('size', 1) if known else None
    if not known:
        # the current size is the end of the last field, or a seek position
        pass
    s = obj(RootSeekableFieldSet if root else SeekableFieldSet, _fields=fl, _size=size, _current_size=cur,
            _parent=None if root else Parent(), _field_generator=lib.Opaque('generator'), _name='n', _address=0)
    g['self'], g['fields'] = s, fl
    kind, r = expect(SK + 'RootSeekableFieldSet._stopFeeding', RootSeekableFieldSet._stopFeeding, s)
    RT.prove(kind == 'ret', '_stopFeeding: never fails')
    RT.cover('end')
    x, i0, end = g['x'], g['i0'], zint(s._size)
    RT.prove(s._field_generator is None, '_stopFeeding: parsing is over')
    if known:
        RT.prove(end >= size.e, '_stopFeeding: the size is kept, or grown to the last field')
    RT.prove(z3.Implies(i0 < fl.n, A(i0) + Z(i0) <= end), '_stopFeeding: the size covers every field kept')
    RT.prove(z3.Implies(fl.cover_x > 0, z3.Not(PC(fl.n))), '_stopFeeding: fillers overlap no parsed field')
    RT.prove(z3.Implies(z3.And(0 <= x, x < end, z3.Not(PC(fl.n))), fl.cover_x == 1), '_stopFeeding: every bit is covered, once by the fillers')
    RT.prove(z3.Implies(x >= end, fl.cover_x == 0), '_stopFeeding: fillers lie inside the set')
    RT.prove(zint(s._current_size) == end, '_stopFeeding: the position is the end')
    RT.prove(isinstance(r, FieldList) and r is not fl, '_stopFeeding: returns the new fields')
    RT.prove(z3.And(r.added == fl.added, r.cover_x == fl.cover_x), '_stopFeeding: returns every new field')


def del_inv(L):
    f, g = RT.ghost['fields'], RT.ghost
    return [('fields', z3.And(f.n >= 0, f.added == 0, f.cover_x == 0))]


def fill_inv(L):
    g = RT.ghost
    f, s, gaps = g['fields'], L.self, g['gaps']
    k = zint(L._idx)
    new = [o for o in L._d.values() if isinstance(o, FieldList) and o is not f]
    out = [('one filler for each gap', z3.And(f.added == k, f.n == g['n'])),
           ('x', f.cover_x == z3.If(z3.And(0 <= gaps.ix, gaps.ix < k), 1, 0))]
    for o in new:
        out.append(('returned', z3.And(o.added == f.added, o.cover_x == f.cover_x)))
    return out


CALLS = dict(lib.LOG_CALLS)
LOOPS = {SK + 'getgaps#0': LoopSpec(gaps_inv, None, after=gaps_after)}
FIX = SK + 'RootSeekableFieldSet._fixLastField'
FIXLOOPS = {FIX + '#0': LoopSpec(del_inv, lambda L: RT.ghost['fields'].n), FIX + '#1': LoopSpec(fill_inv, None)}
SCALLS = dict(CALLS, **{SK + 'getgaps': m_getgaps, FS + 'helper:createRawField': m_raw,
                        FS + 'basic_field_set:BasicFieldSet.setUniqueFieldName': m_unique,
                        FS + 'field:Field.absolute_address': lambda self: mkint(RT.ghost['off'])})
UNITS = [
    Unit('getgaps', [SK + 'getgaps'], b_gaps, calls=CALLS, loops=LOOPS, models={'sorted': m_sorted}),
    Unit('seekable set, end of parsing', [SK + 'RootSeekableFieldSet.' + f for f in ('_stopFeeding', '_fixLastField', 'seekBit')], b_stop,
         calls=SCALLS, loops=FIXLOOPS, models={'min/max': m_max}, comps={FIX + '@%d' % i: c_map for i in range(4)},
         symlists={FIX: lambda: FieldList('new fields'), FIX + ':text': lib.TextList}),
]
BOUNDED = []
