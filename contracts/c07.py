"""C07: hachoir.core.dict.Dict behaves like an ordered list of (key, value) pairs.

Representation invariant, for every key q and every position p:
  q is absent from _index, or 0 <= _index[q] < n and _key_list[_index[q]] == q
  0 <= p < n  =>  _index[_key_list[p]] == p
and _key_list, _value_list have the same length n.
Keys and values are arbitrary (only equality of keys is used). The state before
the operation is arbitrary subject to the invariant; the postcondition compares
the lists with the specification and re-establishes the invariant at an
arbitrary key and an arbitrary position.
"""
import z3
from pyvc.core import RT, Sym, SInt, SBool, SList, Seq, LoopSpec, mkint, mkbool, zint, iv, Unsupported, PathEnd
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.lib import obj

PROP = 'C07'
D = 'hachoir.core.dict:Dict.'
I = z3.IntSort()


class SMap:
    """symbolic dict key -> int: fn(key) is the value, -1 when absent"""
    _pyvc_name = 'dict'

    def __init__(self, fn):
        self.fn = fn
        self.nkeys_changed = 0

    # frame conditions
    def snap_state(self):
        return self.fn

    def snap_children(self):
        return []

    def havoc(self):
        self.fn = z3.Function(RT.freshname('map'), I, I)

    def _key(self, k):
        if not isinstance(k, (SInt, int)) or isinstance(k, bool):
            raise Unsupported('key of an unknown type')
        return zint(k)

    def has(self, k):
        return RT.branch(self.fn(self._key(k)) >= 0)

    def get(self, k, d=None):
        return mkint(self.fn(self._key(k))) if self.has(k) else d

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        return mkint(self.fn(self._key(k)))

    def __contains__(self, k):
        return self.has(k)

    def sym_contains(self, k):
        return self.has(k)

    def __setitem__(self, k, v):
        e, x, old = self._key(k), zint(v), self.fn
        if not RT.entails(old(e) >= 0):
            self.nkeys_changed += 1
        self.fn = lambda q: z3.simplify(z3.If(q == e, x, old(q)))

    def __delitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        e, old = self._key(k), self.fn
        self.nkeys_changed += 1
        self.fn = lambda q: z3.simplify(z3.If(q == e, iv(-1), old(q)))

    def pop(self, k, *d):
        if not self.has(k):
            if d:
                return d[0]
            raise KeyError(k)
        v = self[k]
        del self[k]
        return v

    def items(self):
        return SItems(self, lambda m, k: (SInt(k), mkint(m.fn(k))))

    def keys(self):
        return SItems(self, lambda m, k: SInt(k))

    def values(self):
        return SItems(self, lambda m, k: mkint(m.fn(k)))


class SItems(Sym):
    """iteration over the keys present now, each exactly once, in an arbitrary order"""

    def __init__(self, m, mk):
        self.m, self.mk = m, mk
        self.at = z3.Function(RT.freshname('key_at'), I, I)
        self.pos = z3.Function(RT.freshname('pos_of'), I, I)
        self.n = RT.int('nkeys')
        RT.assume(self.n.e >= 0)
        self.fn0 = m.fn
        self.changes = m.nkeys_changed
        for q in RT.ghost['keys']:
            self.know(q)

    def know(self, q):
        p = self.pos(q)
        RT.assume(z3.Implies(self.fn0(q) >= 0, z3.And(0 <= p, p < self.n.e, self.at(p) == q)))
        RT.assume(z3.Implies(self.fn0(q) < 0, p == -1))

    def len_(self):
        return self.n

    def sym_item(self, i):
        if self.m.nkeys_changed != self.changes:
            raise RuntimeError('dictionary changed size during iteration')
        i = zint(i)
        k = self.at(i)
        RT.assume(z3.And(self.fn0(k) >= 0, self.pos(k) == i))
        RT.ghost['iter_key'] = k
        instances(k)
        return self.mk(self.m, k)


IX, KL, VL = z3.Function('index', I, I), z3.Function('key', I, I), z3.Function('value', I, I)
q0, p0 = z3.Int('some_key'), z3.Int('some_position')


def ri_key(q):
    n = RT.ghost['n']
    RT.assume(z3.And(IX(q) >= -1, IX(q) < n, z3.Implies(IX(q) >= 0, KL(IX(q)) == q)))


def ri_pos(i):
    RT.assume(z3.Implies(z3.And(0 <= i, i < RT.ghost['n']), IX(KL(i)) == i))


def instances(q):
    ri_key(q)
    for d in (-1, 0, 1):
        ri_pos(z3.simplify(IX(q) + d))


def setup(*keys):
    from hachoir.core.dict import Dict
    n = RT.input_int('n', 0)
    RT.ghost['n'] = n.e
    m = SMap(lambda q: IX(q))
    kl, vl = SList([('arr', KL, iv(0), n.e)]), SList([('arr', VL, iv(0), n.e)])
    d = obj(Dict, _index=m, _key_list=kl, _value_list=vl)
    ks = [q0] + [k.e for k in keys]
    RT.ghost['keys'] = ks
    for i in (-1, 0, 1):
        ri_pos(p0 + i)
        ri_key(KL(p0 + i))
        ks.append(KL(p0 + i))
    for q in ks[:1 + len(keys)]:
        instances(q)
    RT.values['index'] = lambda ev: [ev(KL(iv(j))) for j in range(min(8, ev(n.e)))]
    return d, m, n.e


def interest(i):
    """instances around a position the specification mentions"""
    for d in (-1, 0, 1):
        ri_pos(z3.simplify(i + d))
        RT.ghost['keys'].append(KL(z3.simplify(i + d)))
        ri_key(KL(z3.simplify(i + d)))


def spec_list(f, n):
    return SList([('arr', f, iv(0), n)])


def check(d, keys, values, what):
    m = d._index
    ok = isinstance(m, SMap) and isinstance(d._key_list, SList) and isinstance(d._value_list, SList)
    if not ok:
        raise Unsupported('representation')
    n = keys.q.length()
    for got, want, nm in ((d._key_list, keys, 'keys'), (d._value_list, values, 'values')):
        RT.prove(got.q.length() == n, '%s: number of %s' % (what, nm))
        RT.prove(z3.Implies(z3.And(0 <= p0, p0 < n), got.q.term(p0) == want.q.term(p0)), '%s: %s in order' % (what, nm))
    f = m.fn
    RT.prove(z3.Or(f(q0) == -1, z3.And(0 <= f(q0), f(q0) < n)), what + ': positions are valid')
    RT.prove(z3.Implies(f(q0) >= 0, keys.q.term(f(q0)) == q0), what + ': a key is found at its position')
    RT.prove(z3.Implies(z3.And(0 <= p0, p0 < n), f(keys.q.term(p0)) == p0), what + ': every key of the list has its position')


def unchanged(d, n, what):
    check(d, spec_list(KL, n), spec_list(VL, n), what)
    RT.prove(d._index.fn(q0) == IX(q0), what + ': index unchanged')


def call(name, *a):
    from hachoir.core.dict import Dict
    return expect(D + name, getattr(Dict, name), *a)


def b_append():
    from hachoir.core.dict import UniqKeyError
    k, v = RT.input_int('key'), RT.input_int('val')
    d, m, n = setup(k)
    kind, r = call('append', d, k, v)
    if kind == 'exc':
        RT.cover('refused')
        RT.prove(isinstance(r, UniqKeyError), 'append: refused with UniqKeyError')
        RT.prove(IX(k.e) >= 0, 'append: only an existing key is refused')
        unchanged(d, n, 'append refused')
        return
    RT.cover('accepted')
    RT.prove(IX(k.e) == -1, 'append: a duplicate key is refused')
    ks, vs = spec_list(KL, n), spec_list(VL, n)
    ks.append(k)
    vs.append(v)
    check(d, ks, vs, 'append')


def b_insert():
    from hachoir.core.dict import UniqKeyError
    k, v = RT.input_int('key'), RT.input_int('val')
    i = RT.input_int('position')
    d, m, n = setup(k)
    at = z3.simplify(z3.If(i.e < 0, i.e + n, i.e))
    interest(at)
    RT.ghost.update(at=at, by=1)
    kind, r = call('insert', d, i, k, v)
    bad = z3.Or(at < 0, at > n)
    if kind == 'exc':
        RT.cover('refused')
        RT.prove(isinstance(r, (UniqKeyError, IndexError)), 'insert: refused with UniqKeyError or IndexError')
        RT.prove(z3.Or(IX(k.e) >= 0, bad), 'insert: only duplicate keys and bad indexes are refused')
        unchanged(d, n, 'insert refused')
        return
    RT.cover('accepted')
    RT.prove(z3.Not(bad), 'insert: a bad index is refused')
    RT.prove(IX(k.e) == -1, 'insert: a duplicate key is refused')
    ks, vs = spec_list(KL, n), spec_list(VL, n)
    ks.insert(mkint(at), k)
    vs.insert(mkint(at), v)
    check(d, ks, vs, 'insert')


def b_delitem():
    i = RT.input_int('position')
    d, m, n = setup()
    at = z3.simplify(z3.If(i.e < 0, i.e + n, i.e))
    interest(at)
    RT.ghost.update(at=at + 1, by=-1, dead=at)
    kind, r = call('__delitem__', d, i)
    bad = z3.Or(at < 0, at >= n)
    if kind == 'exc':
        RT.cover('refused')
        RT.prove(isinstance(r, IndexError), '__delitem__: refused with IndexError')
        RT.prove(bad, '__delitem__: only bad indexes are refused')
        unchanged(d, n, '__delitem__ refused')
        return
    RT.cover('accepted')
    RT.prove(z3.Not(bad), '__delitem__: a bad index is refused')
    ks, vs = spec_list(KL, n), spec_list(VL, n)
    del ks[mkint(at)]
    del vs[mkint(at)]
    check(d, ks, vs, '__delitem__')


def b_replace():
    from hachoir.core.dict import UniqKeyError
    k, k2, v = RT.input_int('oldkey'), RT.input_int('newkey'), RT.input_int('val')
    d, m, n = setup(k, k2)
    interest(IX(k.e))
    kind, r = call('replace', d, k, k2, v)
    dup = z3.And(k.e != k2.e, IX(k2.e) >= 0)
    if kind == 'exc':
        RT.cover('refused')
        RT.prove(isinstance(r, (KeyError, UniqKeyError)), 'replace: refused with KeyError or UniqKeyError')
        RT.prove(z3.Or(IX(k.e) == -1, dup), 'replace: only unknown and duplicate keys are refused')
        unchanged(d, n, 'replace refused')
        return
    RT.cover('accepted')
    RT.prove(IX(k.e) >= 0, 'replace: an unknown key is refused')
    RT.prove(z3.Not(dup), 'replace: a duplicate key is refused')
    ks, vs = spec_list(KL, n), spec_list(VL, n)
    ks[mkint(IX(k.e))] = k2
    vs[mkint(IX(k.e))] = v
    check(d, ks, vs, 'replace')


def b_setitem():
    k, v = RT.input_int('key'), RT.input_int('val')
    d, m, n = setup(k)
    interest(IX(k.e))
    kind, r = call('__setitem__', d, k, v)
    if kind == 'exc':
        RT.cover('refused')
        RT.prove(isinstance(r, KeyError), '__setitem__: refused with KeyError')
        RT.prove(IX(k.e) == -1, '__setitem__: only an unknown key is refused')
        unchanged(d, n, '__setitem__ refused')
        return
    RT.cover('accepted')
    RT.prove(IX(k.e) >= 0, '__setitem__: an unknown key is refused')
    ks, vs = spec_list(KL, n), spec_list(VL, n)
    vs[mkint(IX(k.e))] = v
    check(d, ks, vs, '__setitem__')


def b_read():
    k = RT.input_int('key')
    d, m, n = setup(k)
    what = RT.choice(['index', '__getitem__', '__contains__', '__len__', 'values', '__iter__', 'itervalues', 'iterkeys'], 'op')
    from hachoir.core.dict import Dict
    if what == 'values':
        r = d.values
        RT.prove(r is d._value_list, 'values: the list of values')
        return unchanged(d, n, what)
    kind, r = call(what, d, *([k] if what in ('index', '__getitem__', '__contains__') else []))
    present = IX(k.e) >= 0
    if what == 'index':
        RT.prove(kind == 'ret', 'index returns')
        if r is None:
            RT.prove(z3.Not(present), 'index: None only for an unknown key')
        else:
            RT.prove(z3.And(0 <= zint(r), zint(r) < n, KL(zint(r)) == k.e), 'index: position of the key')
    elif what == '__getitem__':
        if kind == 'exc':
            RT.prove(isinstance(r, KeyError), '__getitem__: KeyError')
            RT.prove(z3.Not(present), '__getitem__: raises only for an unknown key')
        else:
            RT.prove(z3.And(present, zint(r) == VL(IX(k.e))), '__getitem__: value of the key')
    elif what == '__contains__':
        RT.prove(kind == 'ret' and isinstance(r, (bool, SBool)), '__contains__ returns')
        RT.prove(mkbool(present) == r, '__contains__: tells whether the key is present')
    elif what == '__len__':
        RT.prove(kind == 'ret', '__len__ returns')
        RT.prove(zint(r) == n, '__len__: number of pairs')
    else:
        RT.prove(kind == 'ret' and isinstance(r, SIter) and r.l is (d._key_list if what == 'iterkeys' else d._value_list),
                 what + ': iterates over the list from the start')
    unchanged(d, n, what)


class SIter:
    def __init__(self, l):
        self.l = l


def b_items():
    """one arbitrary step of the generator"""
    d, m, n = setup()
    RT.ghost['done'] = 0
    from hachoir.core.dict import Dict
    g = Dict.items(d)
    try:
        k, v = next(g)
    except StopIteration:
        RT.prove(RT.ghost['at_idx'] >= n, 'items: ends only at the end')
        return unchanged(d, n, 'items')
    RT.cover('yielded')
    i = RT.ghost['at_idx']
    RT.prove(z3.And(0 <= i, i < n, zint(k) == KL(i), zint(v) == VL(i)), 'items: yields the pair at each position in turn')
    unchanged(d, n, 'items')
    try:
        next(g)
    except StopIteration:
        RT.prove(z3.BoolVal(False), 'items: yields one pair per position')
    else:
        RT.prove(z3.BoolVal(False), 'items: yields one pair per position')


def items_inv(L):
    RT.ghost['at_idx'] = zint(L._idx)
    return [('progress', zint(L._idx) >= 0)]


# ---- loops over the index: the keys visited so far have been shifted
def seen_of(L, q):
    """q was present and has already been visited"""
    it = L._it
    return z3.And(it.fn0(q) >= 0, it.pos(q) < zint(L._idx))


def shifted(L):
    g, it = RT.ghost, L._it
    return lambda q: z3.simplify(z3.If(z3.And(seen_of(L, q), it.fn0(q) >= g['at']), it.fn0(q) + g['by'], it.fn0(q)))


def qs(L):
    ks = [q0] + ([RT.ghost['iter_key']] if 'iter_key' in RT.ghost else [])
    return ks


def shift_inv(L):
    f, m = shifted(L), L.self._index
    if not isinstance(L._it, SItems) or not isinstance(m, SMap):
        raise Unsupported('iteration over the index expected')
    q = q0
    return [('visited positions are shifted', m.fn(q) == f(q))]


def shift_after(L):
    L.self._index.fn = shifted(L)


def search_inv(L):
    m = L.self._index
    f0, dead = L._it.fn0, RT.ghost['dead']
    q = KL(dead)
    return [('not found yet', z3.Not(seen_of(L, q))), ('unchanged', m.fn(q0) == f0(q0))]


def search_after(L):
    L.self._index.fn = L._it.fn0


class Pairs(Sym):
    """an arbitrary sequence of (key, value)"""

    def __init__(self):
        self.n = RT.input_int('pairs', 0)
        self.k, self.v = z3.Function('pair_key', I, I), z3.Function('pair_value', I, I)

    def len_(self):
        return self.n

    def bool_(self):
        return mkbool(self.n.e > 0)

    def sym_item(self, i):
        i = z3.simplify(zint(i))
        return (SInt(self.k(i)), SInt(self.v(i)))


def c_append(self, key, value):
    """contract of append, counted: pair number _count is refused or becomes the last one"""
    from hachoir.core.dict import UniqKeyError
    i, g = zint(self._count), RT.ghost
    RT.prove(z3.And(i < g['pairs'].n.e, zint(key) == g['pairs'].k(i), zint(value) == g['pairs'].v(i)), '__init__: appends the pairs in order')
    if RT.choice([False, True], 'duplicate'):
        g['refused'] = UniqKeyError('duplicate')
        raise g['refused']
    self._count = mkint(z3.simplify(i + 1))


def b_init():
    from hachoir.core.dict import Dict
    d, d2 = obj(Dict, _count=0), obj(Dict, _count=0)
    how = RT.choice(['none', 'no argument', 'pairs'], 'values')
    pairs = Pairs() if how == 'pairs' else None
    RT.ghost['pairs'] = pairs
    if how != 'pairs':
        expect(D + '__init__', Dict.__init__, d2)
    kind, r = expect(D + '__init__', Dict.__init__, d, *(() if how == 'no argument' else (pairs,)))
    if kind == 'exc':
        RT.prove(r is RT.ghost.get('refused'), '__init__: refused only as append refuses')
        return
    RT.prove('refused' not in RT.ghost, '__init__: a duplicate key is refused')
    RT.cover(how)
    RT.prove(zint(d._count) == (pairs.n.e if pairs else 0), '__init__: every pair is appended')
    # the containers append works on: empty at first, and of this dictionary
    RT.prove(all(type(d.__dict__.get(a)) is t and not d.__dict__[a] for a, t in (('_index', dict), ('_key_list', list), ('_value_list', list))),
             '__init__: starts empty')
    RT.prove(d._key_list is not d._value_list, '__init__: separate lists')
    if how != 'pairs':
        RT.prove(all(d.__dict__[a] is not d2.__dict__[a] for a in ('_index', '_key_list', '_value_list')), '__init__: nothing is shared between dictionaries')


def init_inv(L):
    return [('pairs so far', zint(L.self._count) == zint(L._idx))]


SHIFT = LoopSpec(shift_inv, after=shift_after)
CALLS = dict(lib.LOG_CALLS)


def U(name, op, body, loops=None):
    return Unit(name, [D + op] if isinstance(op, str) else [D + x for x in op], body, loops=loops or {}, calls=CALLS)


from pyvc import hooks
SList.sym_iter = lambda self: SIter(self)

UNITS = [
    U('append', 'append', b_append),
    U('insert', 'insert', b_insert, {D + 'insert#0': SHIFT}),
    U('__delitem__', '__delitem__', b_delitem, {D + '__delitem__#0': LoopSpec(search_inv, after=search_after),
                                                D + '__delitem__#1': SHIFT}),
    U('replace', 'replace', b_replace),
    U('__setitem__', '__setitem__', b_setitem),
    U('reading', ['index', '__getitem__', '__contains__', '__len__', '__iter__', 'itervalues', 'iterkeys'], b_read),
    Unit('a new dictionary', [D + '__init__'], b_init, loops={D + '__init__#0': LoopSpec(init_inv)}, calls=dict(CALLS, **{D + 'append': c_append})),
    U('items', 'items', b_items, {D + 'items#0': LoopSpec(items_inv)}),
]
ASSUMPTIONS = ['dict: lookup, assignment, deletion, and iteration over all keys exactly once in some order while the set of keys is unchanged']
