"""C10: an edited field set writes the unedited fields verbatim and each edit in its place.

The edited set is arbitrary: n original fields (i = 0..n-1, contiguous), any of
them deleted (DEL) and any number of new fields (NI(i), possibly none) inserted
before each of them and at the end (i = n). The fields which the set yields are
numbered: original i comes after CNT(i) + NI(i) others, CNT(i) counting the
fields yielded for the originals before i. Iteration is proved to yield exactly
that sequence; writing, sizes and addresses are proved against any sequence
(WS(k): size of its item k, POS(k): the sum of the sizes before k). What is
written of one field is its own contract (C22 for edited fields; the unedited
field and set below), the bits of a copy are those of C05.
"""
import z3
from pyvc.core import RT, LoopSpec, SInt, SBool, Sym, Opaque, mkint, mkbool, zint, zbool, iv, Unsupported, PathEnd, UNBOUND
from pyvc.contract import Unit, Lemma, expect, run_target
from contracts import lib
from contracts.c16 import patched

PROP = 'C10'
EF = 'hachoir.editor.fieldset:'
FF = 'hachoir.editor.field:'
I, B = z3.IntSort(), z3.BoolSort()
DEL = z3.Function('deleted', I, B)
NI = z3.Function('inserted_before', I, I)
HAS = z3.Function('has_insertions', I, B)
CNT = z3.Function('yielded_before', I, I)
DC = z3.Function('deleted_before', I, I)
IC = z3.Function('inserted_up_to', I, I)
WS = z3.Function('size_of_item', I, I)
WN = z3.Function('name_of_item', I, I)
POS = z3.Function('position_of_item', I, I)
NMI = z3.Function('name_of_inserted', I, I, I)
NN = z3.Function('name_of_new', I, I)
ARR = z3.Function('is_array_name', I, B)
CACHED = z3.Function('cached', I, B)
ALT = z3.Function('is_altered', I, B)
KG = z3.Function('key_of_group', I, I)
GN = z3.Function('fields_of_groups', I, I)
PA = z3.Function('ancestor_address', I, I)
PS = z3.Function('ancestors_sum', I, I)
OFF = z3.Function('original_offset', I, I)
SZ = z3.Function('original_size', I, I)


def d_cnt(i):
    j = z3.simplify(i + 1)
    return [CNT(iv(0)) == 0, DC(iv(0)) == 0, IC(iv(0)) == 0, NI(i) >= 0, z3.Implies(z3.Not(HAS(i)), NI(i) == 0),
            z3.Implies(i >= 0, z3.And(CNT(j) == CNT(i) + NI(i) + z3.If(DEL(i), 0, 1),
                                      DC(j) == DC(i) + z3.If(DEL(i), 1, 0), IC(j) == IC(i) + NI(i)))]


def d_pos(k):
    return [POS(iv(0)) == 0, WS(k) >= 0, z3.Implies(k >= 0, POS(z3.simplify(k + 1)) == POS(k) + WS(k))]


l_len = Lemma('C10:length of the set', 1, lambda n: CNT(n) == n - DC(n) + IC(n), induct=0,
              uses=lambda n, step=False: d_cnt(n) if step else d_cnt(iv(0)))
# nothing edited: the items are the original fields, contiguous in the original data
l_same = Lemma('C10:unedited fields stay in place', 1,
               lambda k: POS(k) == OFF(k) - OFF(iv(0)), induct=0,
               uses=lambda k, step=False: d_pos(k) + [WS(k) == SZ(k), OFF(z3.simplify(k + 1)) == OFF(k) + SZ(k)] if step else d_pos(iv(0)))


def fact(fs):
    for f in fs:
        RT.fact(f)


class Name(Sym):
    """a field name, by number: 0..n-1 are the names of the original fields"""
    is_text = True
    __hash__ = None

    def __init__(self, code):
        self.code = code if not isinstance(code, int) else iv(code)

    def __eq__(self, o):
        if isinstance(o, Name):
            return mkbool(self.code == o.code)
        if o is None:
            return False
        raise Unsupported('comparison of a name')

    def __ne__(self, o):
        if isinstance(o, Name):
            return mkbool(self.code != o.code)
        return True

    def __bool__(self):
        return True

    def sym_contains(self, x):
        if x == '/':
            return False
        raise Unsupported('in name')

    def endswith(self, x):
        if x == '[]':
            if RT.ghost.get('noarray'):
                return False
            return mkbool(ARR(self.code))
        raise Unsupported('endswith')

    def partition(self, sep):
        if sep == '/':
            return (self, '', '')
        raise Unsupported('partition')

    def split(self, sep):
        raise Unsupported('split of a name')

    def havoc_value(self):
        return Name(RT.int('name').e)

    def snap_state(self):
        return str(self.code)

    def snap_children(self):
        return []

    def same_as(self, o):
        return isinstance(o, Name) and z3.eq(self.code, o.code)


class PathName(Sym):
    """a/b"""
    is_text = True

    def __init__(self, head, rest):
        self.head, self.rest = head, rest

    def sym_contains(self, x):
        if x == '/':
            return True
        raise Unsupported('in path')

    def partition(self, sep):
        if sep == '/':
            return (self.head, '/', self.rest)
        raise Unsupported('partition')

    def split(self, sep, maxsplit=-1):
        if sep == '/':
            return [self.head, self.rest]
        raise Unsupported('split')


class Mapped(Sym):
    """[f(x) for x in a sequence]"""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def len_(self):
        return mkint(self.n)

    def __bool__(self):
        return RT.branch(self.n > 0)

    def sym_item(self, i):
        return self.elem(zint(i))

    def sym_list(self):
        return self

    def havoc_value(self):
        return self

    def sym_set(self):
        """ASSUMED contract of set(): as many members as items exactly when the items differ"""
        g = RT.ghost
        m, d = RT.int('members'), RT.input_int('are distinct', 0, 1)
        a, b, n = g['t0'], g['t1'], self.n
        RT.assume(z3.And(m.e >= 0, m.e <= n))
        if RT.branch(d.e == 1):
            RT.assume(m.e == n)
            fact([z3.Implies(z3.And(0 <= a, a < b, b < n), self.elem(a).code != self.elem(b).code)])
            g['distinct'] = True
        else:
            RT.assume(m.e < n)
            x, y = RT.int('twin').e, RT.int('twin').e
            RT.assume(z3.And(0 <= x, x < y, y < n, self.elem(x).code == self.elem(y).code))
            g['distinct'] = False
        return Members(m.e, self)

    def sym_contains(self, x):
        """ASSUMED contract of `in` for a list: some item is equal"""
        g = RT.ghost
        t0, n = g['t0'], self.n
        b = RT.input_int('in list', 0, 1)
        if RT.branch(b.e == 1):
            w = RT.int('where').e
            RT.assume(z3.And(0 <= w, w < n, self.elem(w).code == x.code))
            return True
        fact([z3.Implies(z3.And(0 <= t0, t0 < n), self.elem(t0).code != x.code)])
        return False

    def count(self, x):
        return RT.int('count')

    def index(self, x):
        """ASSUMED contract of list.index: the first equal item, or ValueError"""
        g = RT.ghost
        at, n = g['at'], self.n
        b = RT.input_int('is in list', 0, 1)
        if RT.branch(b.e == 1):
            p = RT.int('index')
            RT.assume(z3.And(0 <= p.e, p.e < n, self.elem(p.e).code == x.code))
            known(self.elem(p.e).code)
            return mkint(p.e)
        known(self.elem(at).code)
        fact([z3.Implies(z3.And(0 <= at, at < n), self.elem(at).code != x.code)])
        raise ValueError('not in list')

    def sym_any(self):
        """ASSUMED contract of any(): true exactly when some item is"""
        b = RT.input_int('some item', 0, 1)
        if RT.branch(b.e == 1):
            w = RT.int('true item').e
            RT.assume(z3.And(0 <= w, w < self.n, zbool(self.elem(w))))
            return True
        a = RT.ghost['any0']
        fact([z3.Implies(z3.And(0 <= a, a < self.n), z3.Not(zbool(self.elem(a))))])
        return False


class Members(Sym):
    def __init__(self, m, of):
        self.m, self.of = m, of

    def len_(self):
        return mkint(self.m)

    def sym_contains(self, x):
        return self.of.sym_contains(x)

    def sym_item(self, i):
        # some order; only used for the message of an error
        return Name(RT.int('member').e)


def c_map(it, f, kind):
    if kind not in ('gen', 'list', 'GeneratorExp', 'ListComp') and not isinstance(it, Sym) and not hasattr(it, 'sym_item'):
        return NotImplemented
    if isinstance(it, Members):
        return Opaque('names')
    if isinstance(it, Mapped):
        return Mapped(it.n, lambda i: one(f, it.elem(i)))
    if hasattr(it, 'sym_item') and hasattr(it, 'count_'):
        return Mapped(it.count_(), lambda i: one(f, it.sym_item(i)))
    return NotImplemented


def one(f, x):
    l = list(f([x]))
    if len(l) != 1:
        raise Unsupported('filter in a comprehension')
    return l[0]


COMPS = {EF + 'EditableFieldSet.%s@%d' % (f, i): c_map
         for f in ('_isAltered', '__len__', '_getSize', '_insert', '_getFieldAddress', 'writeInto', '__iter__', 'reset', '__delitem__')
         for i in range(5)}
COMPS.update({EF + 'NewFieldSet.%s@%d' % (f, i): c_map for f in ('__len__', '__iter__', '_getSize') for i in range(3)})


class InputField(Sym):
    """a field of the original set"""

    def __init__(self, code):
        self.code = code
        self.name = self._name = Name(code)
        self.index = mkint(code)
        self.size = mkint(SZ(code))
        self.absolute_address = mkint(RT.ghost['addr'] + OFF(code))
        self.is_field_set = RT.ghost.get('isset', False)

    def havoc_value(self):
        return UNBOUND


class Input(Sym):
    """the original set (contract: C06, C07)"""

    def __init__(self, n):
        self.n = n
        g = RT.ghost
        self.stream, self.endian, self.path, self.name = Opaque('stream'), Opaque('endian'), Opaque('path'), Opaque('name')
        self.description = Opaque('description')
        self.absolute_address = mkint(g['addr'])
        self.size = mkint(OFF(n))
        self.resets = 0
        self.struct_format = Opaque('format')

    def count_(self):
        return self.n

    def len_(self):
        return mkint(self.n)

    def __bool__(self):
        return RT.branch(self.n > 0)

    def sym_item(self, i):
        return InputField(zint(i))

    def sym_contains(self, name):
        if not isinstance(name, Name):
            raise Unsupported('in input')
        return RT.branch(z3.And(0 <= name.code, name.code < self.n))

    def __getitem__(self, key):
        from hachoir.field import MissingField
        code = key.code if isinstance(key, Name) else zint(key)
        if not RT.branch(z3.And(0 <= code, code < self.n)):
            raise MissingField(None, key)
        return InputField(code)

    def setUniqueFieldName(self, field):
        return None

    def reset(self):
        self.resets += 1


class InsField(Sym):
    """inserted field j of group k"""

    def __init__(self, k, j):
        self.k, self.j = k, j
        self.name = self._name = Name(NMI(k, j))
        self.rank = CNT(k) + j

    def havoc_value(self):
        return UNBOUND


class NewField(Sym):
    def __init__(self, t):
        self.t = t
        self.name = self._name = Name(NN(t))

    def havoc_value(self):
        return UNBOUND


class OwnField(Sym):
    """what self[name] gives: the editable field of an original field"""

    def __init__(self, i):
        self.i = i
        self.name = Name(i)
        self.rank = CNT(i) + NI(i)

    def havoc_value(self):
        return UNBOUND


class NewFields(Sym):
    """*new_fields"""

    def __init__(self, m):
        self.n = m

    def count_(self):
        return self.n

    def len_(self):
        return mkint(self.n)

    def __bool__(self):
        return RT.branch(self.n > 0)

    def sym_item(self, i):
        return NewField(zint(i))

    def sym_reversed(self):
        return Reversed(self)

    def sym_list(self):
        return self


class Reversed(Sym):
    def __init__(self, of):
        self.of = of

    def sym_reversed(self):
        return self.of

    def sym_list(self):
        return self


class Deq(Sym):
    """deque: segments of the fields of a group before, and of the new fields"""
    _pyvc_name = 'deque'

    def __init__(self, k=None):
        # k: the group; a new deque is empty
        self.k = k
        self.segs = [] if k is None else [('old', iv(0), NI(k))]
        self.removed = None
        if k is not None:
            RT.fact(NI(k) >= 0)

    def havoc_value(self):
        return UNBOUND

    def snap_state(self):
        return (str(self.segs), str(self.removed))

    def snap_children(self):
        return []

    def total(self):
        e = iv(0)
        for s, lo, hi in self.segs:
            e = e + hi - lo
        return z3.simplify(e)

    def count_(self):
        return self.total()

    def len_(self):
        return mkint(self.total() - (1 if self.removed is not None else 0))

    def __bool__(self):
        e = self.len_()
        return e > 0 if isinstance(e, int) else RT.branch(e.e > 0)

    def sym_item(self, j):
        if len(self.segs) != 1 or self.segs[0][0] != 'old':
            raise Unsupported('item of a changed deque')
        return InsField(self.k, zint(j))

    def sym_iter(self):
        return self

    def new(self, x):
        if isinstance(x, NewFields):
            return ('new', iv(0), x.n)
        if isinstance(x, NewField):
            return ('new', x.t, z3.simplify(x.t + 1))
        raise Unsupported('added to a deque')

    def extend(self, x):
        if isinstance(x, Reversed):
            self.segs = self.segs + [('reversed', iv(0), x.of.n)]
        else:
            self.segs = self.segs + [self.new(x)]

    def extendleft(self, x):
        if isinstance(x, Reversed):
            self.segs = [self.new(x.of)] + self.segs
        else:
            self.segs = [('reversed', iv(0), x.n)] + self.segs

    def cut(self, p):
        """segments before and after position p"""
        a, b = [], list(self.segs)
        p = z3.simplify(p)
        while b:
            s, lo, hi = b[0]
            if RT.entails(p == 0):
                break
            if RT.branch(p >= hi - lo):
                a.append(b.pop(0))
                p = z3.simplify(p - (hi - lo))
            elif RT.branch(p > 0):
                m = z3.simplify(lo + p)
                a.append((s, lo, m))
                b[0] = (s, m, hi)
                p = iv(0)
            else:
                break
        return a, b

    def rotate(self, n):
        """ASSUMED contract of deque.rotate, for at most the length"""
        n, t = zint(n), self.total()
        if not RT.entails(z3.And(-t <= n, n <= t)):
            raise Unsupported('rotation by more than the length')
        if RT.entails(n <= 0):
            a, b = self.cut(-n)
        elif RT.entails(n >= 0):
            a, b = self.cut(t - n)
        else:
            raise Unsupported('rotation')
        self.segs = b + a

    def insert(self, pos, x):
        p = zint(pos)
        if not RT.entails(z3.And(0 <= p, p <= self.total())):
            raise Unsupported('insertion at a negative index')
        a, b = self.cut(p)
        self.segs = a + [self.new(x)] + b

    def remove(self, x):
        if not isinstance(x, InsField) or self.removed is not None:
            raise Unsupported('remove')
        RT.prove(x.k == self.k, 'a field is removed from its own group')
        self.removed = x.j


class GroupItem(Sym):
    pass


class Inserted(Sym):
    """dictionary of the inserted fields: the groups"""
    _pyvc_name = 'inserted'

    def __init__(self, n):
        self.n = n
        self.G = RT.int('n_groups').e
        RT.assume(self.G >= 0)
        self.touched = []      # (index, deque): groups handed out or installed
        self.installed = None
        self.dropped = None

    def snap_state(self):
        return (len(self.touched), self.installed is None, str(self.dropped))

    def snap_children(self):
        return []

    def __bool__(self):
        return RT.branch(self.G > 0)

    def len_(self):
        return mkint(self.G)

    def idx(self, key):
        if key is None:
            return self.n
        if isinstance(key, Name):
            if RT.branch(z3.And(0 <= key.code, key.code < self.n)):
                return key.code
            return None
        raise Unsupported('key of the inserted fields')

    def sym_contains(self, key):
        i = self.idx(key)
        if i is None:
            return False
        fact([z3.Implies(z3.Not(HAS(i)), NI(i) == 0), z3.Implies(HAS(i), self.G > 0)])
        return RT.branch(HAS(i))

    def group(self, i):
        for j, d in self.touched:
            if z3.eq(z3.simplify(j), z3.simplify(i)) or RT.entails(j == i):
                return d
        d = Deq(i)
        self.touched.append((i, d))
        return d

    def __getitem__(self, key):
        if not self.sym_contains(key):
            raise KeyError('group')
        return self.group(self.idx(key))

    def get(self, key, default=None):
        return self.group(self.idx(key)) if self.sym_contains(key) else default

    def setdefault(self, key, d):
        if self.sym_contains(key):
            return self.group(self.idx(key))
        self[key] = d
        return d

    def __setitem__(self, key, d):
        i = self.idx(key)
        if i is None:
            raise Unsupported('group of another name')
        if isinstance(d, NewFields):
            x = Deq()
            x.extend(d)
            d = x
        if not isinstance(d, Deq):
            raise Unsupported('group')
        # a group which exists is lost
        if RT.branch(z3.And(HAS(i), NI(i) > 0)):
            RT.prove(False, 'no inserted field is lost')
        self.touched.append((i, d))

    def key(self, g):
        k = KG(g)
        fact([z3.And(0 <= k, k <= self.n), HAS(k), NI(k) >= 0])
        if RT.branch(k == self.n):
            return None
        return Name(k)

    def values(self):
        return Mapped(self.G, lambda g: self.enum(g))

    def enum(self, g):
        fact([z3.And(0 <= KG(g), KG(g) <= self.n), HAS(KG(g)), NI(KG(g)) >= 0])
        return self.group(KG(g))

    def items(self):
        return Mapped(self.G, lambda g: (self.key(g), self.enum(g)))

    def pop(self, key, *a):
        d = self[key]
        self.dropped = d
        return d

    def __delitem__(self, key):
        self.dropped = self[key]


class Deleted(Sym):
    """set of the names of the deleted fields"""
    _pyvc_name = 'deleted'

    def __init__(self, n):
        self.n, self.added = n, []

    def snap_state(self):
        return len(self.added)

    def snap_children(self):
        return []

    def __bool__(self):
        return RT.branch(DC(self.n) > 0)

    def len_(self):
        return mkint(DC(self.n))

    def sym_contains(self, name):
        # only names of original fields are added
        RT.fact(z3.Implies(DEL(name.code), z3.And(0 <= name.code, name.code < self.n)))
        return RT.branch(DEL(name.code))

    def add(self, name):
        self.added.append(name)


class Cache(Sym):
    """editable fields made so far"""
    _pyvc_name = 'cache'

    def __init__(self, n):
        self.n = n
        self.m = RT.int('n_cached').e
        RT.assume(self.m >= 0)
        self.made, self.dropped = [], []

    def snap_state(self):
        return (len(self.made), len(self.dropped))

    def snap_children(self):
        return []

    def havoc(self):
        pass

    def sym_contains(self, name):
        for k, v in self.made:
            if RT.entails(k.code == name.code):
                return True
        RT.fact(z3.Implies(CACHED(name.code), z3.And(0 <= name.code, name.code < self.n, z3.Not(DEL(name.code)))))
        return RT.branch(CACHED(name.code))

    def __getitem__(self, name):
        for k, v in self.made:
            if RT.entails(k.code == name.code):
                return v
        if not self.sym_contains(name):
            raise KeyError('cache')
        return OwnField(name.code)

    def get(self, name, default=None):
        return self[name] if self.sym_contains(name) else default

    def __setitem__(self, name, v):
        self.made.append((name, v))

    def __delitem__(self, name):
        if isinstance(name, CacheKey):
            RT.prove(z3.Not(ALT(name.code)), 'an edited field is not forgotten')
            return
        if not self.sym_contains(name):
            raise KeyError('cache')
        self.dropped.append(name)

    def clear(self):
        c = RT.int('any_cached').e
        RT.prove(z3.Implies(z3.And(0 <= c, c < self.m), z3.Not(ALT(c))), 'an edited field is not forgotten')

    def pop(self, name, *a):
        if isinstance(name, CacheKey):
            del self[name]
            return
        if not self.sym_contains(name):
            if a:
                return a[0]
            raise KeyError('cache')
        self.dropped.append(name)

    def entry(self, c):
        f = OwnField(c)
        f.is_altered = mkbool(ALT(c))
        return f

    def values(self):
        return Mapped(self.m, self.entry)

    def items(self):
        return Mapped(self.m, lambda c: (CacheKey(c), self.entry(c)))

    def keys(self):
        raise Unsupported('keys')


class CacheKey(Name):
    pass


class Item(Sym):
    """item k of the sequence of the fields of the set"""

    def __init__(self, k):
        fact(d_pos(k))
        self.k = k
        self.size = mkint(WS(k))
        self.name = Name(WN(k))
        self.is_altered = mkbool(ALT(k))

    def havoc_value(self):
        return UNBOUND

    def writeInto(self, out):
        g = RT.ghost
        g['out'].item(self.k, out)


class Out(Sym):
    """output: the number of items written, and the copies"""
    _pyvc_track = True
    _pyvc_name = 'output'

    def __init__(self):
        self.written = mkint(iv(0))
        self.copies = []

    def snap_state(self):
        return len(self.copies)

    def snap_children(self):
        return []

    def item(self, k, out):
        RT.prove(out is self, 'the fields are written into the output')
        RT.prove(k == zint(self.written), 'the fields are written once each, in their order')
        self.written = mkint(zint(self.written) + 1)

    def copyBitsFrom(self, stream, address, size, endian):
        self.copies.append(('bits', stream, address, size, endian))

    def copyBytesFrom(self, stream, address, nbytes):
        self.copies.append(('bytes', stream, address, nbytes, None))

    def writeBytes(self, data):
        self.copies.append(('raw', data))

    def havoc(self):
        self.written = RT.int('written')


def one_copy(out, inp, addr, size):
    """the output got the bits [addr, addr+size) of the original stream"""
    ok = len(out.copies) == 1 and out.copies[0][0] in ('bits', 'bytes')
    RT.prove(ok, 'one copy')
    if not ok:
        return
    kind, s, a, n, e = out.copies[0]
    RT.prove(s is inp.stream, 'copy from the original stream')
    if kind == 'bits':
        RT.prove(e is inp.endian, 'in the byte order of the set')
        RT.prove(z3.And(zint(a) == addr, zint(n) == size), 'exactly the original bits')
    else:
        RT.prove(z3.And(zint(a) == addr, 8 * zint(n) == size), 'exactly the original bits')


class Weak:
    """ASSUMED contract of weakref.proxy: stands for the object"""
    @staticmethod
    def proxy(x):
        return x


def setup(input_none=False):
    g = RT.ghost
    n = iv(0) if input_none else RT.input_int('n_fields', 0).e
    g['n'] = n
    g['addr'] = RT.input_int('address', 0).e
    fact([OFF(iv(0)) == 0])
    inp = None if input_none else Input(n)
    return n, inp


def probe(cls, seq=False, **more):
    """a subclass whose iteration has the contract of __iter__"""
    d = dict(more)
    if seq:
        d['sym_item'] = lambda self, i: Item(zint(i))
        d['count_'] = lambda self: RT.ghost['T']
        d['len_'] = lambda self: mkint(RT.ghost['T'])
    return type('Edited', (cls,), d)


def edited(cls=None, inp=None, n=None, seq=False, **more):
    import hachoir.editor.fieldset as M
    cls = cls or M.EditableFieldSet
    o = lib.obj(probe(cls, seq, **more))
    o.__dict__.update(_parent=None, input=inp, _fields=Cache(n), _deleted=Deleted(n), _inserted=Inserted(n))
    if seq:
        RT.ghost['T'] = RT.input_int('n_items', 0).e
        fact(d_pos(iv(0)))
    return o


def flag(b):
    return property(lambda self: mkbool(b))


# ------------------------------------------------------------ writing
def b_write(new):
    def body():
        import hachoir.editor.fieldset as M
        g = RT.ghost
        n, inp = setup(new)
        alt = RT.input_int('altered', 0, 1)
        more = {} if new else dict(is_altered=flag(alt.e == 1))
        o = edited(M.NewFieldSet if new else M.EditableFieldSet, inp, n, seq=True, **more)
        out = g['out'] = Out()
        RT.roots.append(out)
        cls = M.EditableFieldSet
        kind, r = expect(EF + 'EditableFieldSet.writeInto', cls.writeInto, o, out)
        RT.prove(kind == 'ret', 'writeInto: no error')
        if out.copies:
            RT.cover('copied')
            RT.prove(z3.BoolVal(False) if new else alt.e == 0, 'only an unedited set is copied')
            one_copy(out, inp, g['addr'], OFF(n))
            RT.prove(zint(out.written) == 0, 'a copied set is not written again')
        else:
            RT.cover('written')
            RT.prove(zint(out.written) == g['T'], 'every field is written')
    return body


def write_inv(L):
    g = RT.ghost
    k = zint(L._idx)
    fact(d_pos(k))
    return [('written so far', zint(g['out'].written) == k)]


def b_copy_field():
    """an unedited field"""
    from hachoir.editor.field import FakeField
    import hachoir.editor.fieldset as M
    g = RT.ghost
    n, inp = setup()
    i = RT.input_int('i', 0).e
    RT.assume(i < n)
    p = edited(M.EditableFieldSet, inp, n)
    f = lib.obj(FakeField, _parent=p, _name=Name(i))
    out = g['out'] = Out()
    kind, s = expect(FF + 'FakeField._getSize', lambda: f.size)
    RT.prove(kind == 'ret', 'size: no error')
    RT.prove(zint(s) == SZ(i), 'the size of an unedited field is the original one')
    kind, r = expect(FF + 'FakeField.writeInto', FakeField.writeInto, f, out)
    RT.prove(kind == 'ret', 'writeInto: no error')
    RT.cover('copied')
    one_copy(out, inp, g['addr'] + OFF(i), SZ(i))
    kind, a = expect(FF + 'FakeField._isAltered', lambda: f.is_altered)
    RT.prove(kind == 'ret' and not a, 'it is not altered')


# ------------------------------------------------------------ iteration
class Counter(Sym):
    _pyvc_track = True
    _pyvc_name = 'yielded'

    def __init__(self):
        self.k = mkint(iv(0))


def b_iter(new):
    def body():
        import hachoir.editor.fieldset as M
        g = RT.ghost
        n, inp = setup(new)
        o = edited(M.NewFieldSet if new else M.EditableFieldSet, inp, n)
        c = g['yielded'] = Counter()
        RT.roots.append(c)
        fact(d_cnt(iv(0)) + d_cnt(n))
        cls = M.NewFieldSet if new else M.EditableFieldSet
        with patched(M, weakref=Weak):
            kind, gen = expect(EF + cls.__name__ + '.__iter__', cls.__iter__, o)
            RT.prove(kind == 'ret', '__iter__: no error')
            if isinstance(gen, Deq):
                # iter() of the group at the end
                RT.prove(gen.k is not None and z3.simplify(gen.k == n), 'the fields inserted at the end')
                RT.cover('end')
                return
            it = iter(gen)
            while True:
                try:
                    v = next(it)
                except StopIteration:
                    break
                RT.cover('field')
                if not isinstance(v, (InsField, OwnField)):
                    RT.prove(False, 'fields of the set are yielded')
                    return
                if isinstance(v, OwnField):
                    RT.prove(z3.And(0 <= v.i, v.i < n, z3.Not(DEL(v.i))), 'a deleted field is not yielded')
                else:
                    RT.prove(z3.And(0 <= v.k, v.k <= n, 0 <= v.j, v.j < NI(v.k)), 'an inserted field')
                RT.prove(v.rank == zint(c.k), 'each field of the set once, in order')
                c.k = mkint(zint(c.k) + 1)
        RT.cover('end')
        RT.prove(zint(c.k) == CNT(n) + NI(n), 'every field of the set is yielded')
    return body


def iter_inv(L):
    k = zint(L._idx)
    fact(d_cnt(k))
    return [('yielded so far', zint(RT.ghost['yielded'].k) == CNT(k))]


def ins_inv(L):
    """inside a group"""
    it = L._it
    k = zint(L._idx)
    if not isinstance(it, Deq):
        return [('group', z3.BoolVal(False))]
    fact(d_cnt(it.k))
    return [('yielded so far', zint(RT.ghost['yielded'].k) == CNT(it.k) + k)]


def c_getitem(self, key):
    from hachoir.field import MissingField
    n = RT.ghost['n']
    if not isinstance(key, Name):
        raise Unsupported('item')
    RT.fact(z3.Implies(DEL(key.code), z3.And(0 <= key.code, key.code < n)))
    if not RT.branch(z3.And(0 <= key.code, key.code < n, z3.Not(DEL(key.code)))):
        raise MissingField(None, key)
    return OwnField(key.code)


# ------------------------------------------------------------ sizes and addresses
def m_sum(it, start):
    g = RT.ghost
    if not isinstance(it, Mapped):
        raise Unsupported('sum')
    k = RT.int('any item').e
    RT.assume(z3.And(0 <= k, k < it.n)) if False else None
    kind = g['sumkind']
    r = RT.int('sum')
    a = RT.int('any_item').e
    e = zint(it.elem(a))
    if kind == 'sizes':
        fact(d_pos(a))
        RT.prove(it.n == g['T'], 'the sum is over the fields of the set')
        RT.prove(e == WS(a), 'the sum is of their sizes')
        return mkint(POS(g['T']) + zint(start))
    # number of the inserted fields: those of the groups
    RT.prove(it.n == g['G'], 'the sum is over the groups')
    RT.prove(e == NI(KG(a)), 'the sum is of the lengths')
    return mkint(IC(g['n']) + NI(g['n']) + zint(start))


def b_size():
    import hachoir.editor.fieldset as M
    g = RT.ghost
    n, inp = setup()
    alt = RT.input_int('altered', 0, 1)
    o = edited(M.EditableFieldSet, inp, n, seq=True, is_altered=flag(alt.e == 1))
    g['sumkind'] = 'sizes'
    kind, s = expect(EF + 'EditableFieldSet._getSize', M.EditableFieldSet._getSize, o)
    RT.prove(kind == 'ret', 'size: no error')
    # the contract of is_altered: an unedited set has the original fields only
    l_same.use(n)
    RT.prove(z3.Implies(alt.e == 1, zint(s) == POS(g['T'])), 'the size is the number of bits written')
    RT.prove(z3.Implies(alt.e == 0, z3.Or(zint(s) == OFF(n), zint(s) == POS(g['T']))), 'the size of an unedited set is the original one')
    RT.cover('size')


def size_inv(L):
    """a loop adding sizes, should there be one"""
    k = zint(L._idx)
    fact(d_pos(k))
    v = [x for x in L._mod if isinstance(L.get(x), (int, SInt)) and not isinstance(L.get(x), bool)]
    return [('sum so far', z3.Or([zint(L.get(x)) == POS(k) for x in v] or [z3.BoolVal(False)]))]


def b_len():
    import hachoir.editor.fieldset as M
    g = RT.ghost
    n, inp = setup()
    o = edited(M.EditableFieldSet, inp, n)
    g['sumkind'], g['G'] = 'lengths', o._inserted.G
    fact(d_cnt(n))
    l_len.use(n)
    kind, s = expect(EF + 'EditableFieldSet.__len__', M.EditableFieldSet.__len__, o)
    RT.prove(kind == 'ret', 'len: no error')
    RT.prove(zint(s) == CNT(n) + NI(n), 'the length is the number of fields yielded')
    RT.cover('len')


def b_newlen():
    import hachoir.editor.fieldset as M
    g = RT.ghost
    n, inp = setup(True)
    o = edited(M.NewFieldSet, inp, n)
    g['sumkind'], g['G'] = 'lengths', o._inserted.G
    fact(d_cnt(n))
    kind, s = expect(EF + 'NewFieldSet.__len__', M.NewFieldSet.__len__, o)
    RT.prove(kind == 'ret', 'len: no error')
    RT.prove(zint(s) == CNT(n) + NI(n), 'the length is the number of fields yielded')
    kind, a = expect(EF + 'NewFieldSet.is_altered', lambda: o.is_altered)
    RT.prove(kind == 'ret' and a is True, 'a new set is written field by field')
    RT.cover('len')


def b_address(present):
    def body():
        import hachoir.editor.fieldset as M
        from hachoir.field import MissingField
        g = RT.ghost
        n, inp = setup()
        o = edited(M.EditableFieldSet, inp, n, seq=True)
        key = Name(RT.input_int('key').e)
        T = g['T']
        k0 = RT.input_int('k0').e
        g['k0'], g['key'] = k0, key.code
        if present:
            RT.assume(z3.And(0 <= k0, k0 < T, WN(k0) == key.code))
        g['present'] = present
        kind, r = expect(EF + 'EditableFieldSet._getFieldAddress', M.EditableFieldSet._getFieldAddress, o, key)
        if present:
            RT.prove(kind == 'ret', 'address: no error')
            RT.cover('found')
            RT.prove(zint(r) == POS(k0), 'the address is where the field is written')
        else:
            RT.cover('missing')
            RT.prove(kind == 'exc' and isinstance(r, MissingField), 'no address for a field which is not there')
    return body


def address_inv(L):
    g = RT.ghost
    k = zint(L._idx)
    fact(d_pos(k))
    T, k0 = g['T'], g['k0']
    # the names of a set differ
    fact([z3.Implies(z3.And(0 <= k, k < T, WN(k) == g['key']), k == k0 if g['present'] else z3.BoolVal(False))])
    r = size_inv(L)
    return r + ([('not yet', k <= k0)] if g['present'] else [])


class Ancestor(Sym):
    def __init__(self, d):
        self.d = d
        fact([PS(iv(0)) == 0, z3.Implies(d >= 0, PS(z3.simplify(d + 1)) == PS(d) + PA(d))])
        self.address = mkint(PA(d))

    def __bool__(self):
        # the length: a parent has at least this field
        return True

    @property
    def parent(self):
        g = RT.ghost
        return Ancestor(z3.simplify(self.d + 1)) if RT.branch(self.d + 1 < g['depth']) else None
    _parent = parent

    def havoc_value(self):
        return UNBOUND


def b_absolute():
    import hachoir.editor.fieldset as M
    g = RT.ghost
    n, inp = setup()
    own = RT.input_int('own address', 0)
    g['depth'] = RT.input_int('depth', 0).e
    o = edited(M.EditableFieldSet, inp, n, address=property(lambda self: own))
    fact([PS(iv(0)) == 0])
    g['own'] = own.e
    o._parent = Ancestor(iv(0)) if RT.branch(g['depth'] > 0) else None
    kind, r = expect(EF + 'EditableFieldSet._getAbsoluteAddress', M.EditableFieldSet._getAbsoluteAddress, o)
    RT.prove(kind == 'ret', 'absolute address: no error')
    RT.cover('absolute')
    RT.prove(zint(r) == own.e + PS(g['depth']), 'the absolute address is the sum of the addresses of the parents')


def abs_havoc(L):
    g = RT.ghost
    d = RT.int('level').e
    RT.assume(z3.And(0 <= d, d <= g['depth']))
    g['d'] = d
    fact([PS(iv(0)) == 0, z3.Implies(d >= 0, PS(z3.simplify(d + 1)) == PS(d) + PA(d))])
    return dict(current=Ancestor(d) if RT.branch(d < g['depth']) else None, address=RT.int('address'))


def abs_inv(L):
    g = RT.ghost
    c = L.current
    d = c.d if isinstance(c, Ancestor) else g['depth']
    return [('sum so far', zint(L.address) == g['own'] + PS(d)), ('level', d <= g['depth'])]


# ------------------------------------------------------------ alteration
def b_altered():
    import hachoir.editor.fieldset as M
    g = RT.ghost
    n, inp = setup()
    o = edited(M.EditableFieldSet, inp, n)
    a = g['any0'] = RT.input_int('any cached field', 0).e
    m = o._fields.m
    kind, r = expect(EF + 'EditableFieldSet._isAltered', M.EditableFieldSet._isAltered, o)
    RT.prove(kind == 'ret', 'is_altered: no error')
    if r:
        RT.cover('altered')
    else:
        RT.cover('unaltered')
        RT.prove(z3.Not(z3.And(a < m, ALT(a))), 'a set with an edited field is altered')
        RT.prove(o._inserted.G == 0, 'a set with an inserted field is altered')
        RT.prove(DC(n) <= 0, 'a set with a deleted field is altered')


def alt_inv(L):
    g = RT.ghost
    k = zint(L._idx)
    return [('none so far', z3.Implies(g['any0'] < k, z3.Not(ALT(g['any0']))))]


def b_unaltered():
    """nothing edited: not altered, so copied verbatim"""
    import hachoir.editor.fieldset as M
    g = RT.ghost
    n, inp = setup()
    o = edited(M.EditableFieldSet, inp, n)
    g['any0'] = iv(0)
    RT.assume(z3.And(o._inserted.G == 0, DC(n) == 0))
    q = z3.Int('q')
    RT.assume(z3.ForAll([q], z3.Not(ALT(q)), patterns=[ALT(q)]))
    kind, r = expect(EF + 'EditableFieldSet._isAltered', M.EditableFieldSet._isAltered, o)
    RT.prove(kind == 'ret', 'is_altered: no error')
    RT.prove(not r, 'an unedited set is not altered')
    RT.cover('unaltered')


# ------------------------------------------------------------ lookup
class Made(Sym):
    def __init__(self, kind, parent, field):
        self.kind, self.parent, self.field = kind, parent, field


def b_getitem():
    import hachoir.editor.fieldset as M
    from hachoir.field import MissingField
    g = RT.ghost
    new = RT.branch(RT.input_int('new set', 0, 1).e == 1)
    n, inp = setup(new)
    g['isset'] = RT.branch(RT.input_int('is a set', 0, 1).e == 1)
    o = edited(M.EditableFieldSet, inp, n)
    key = Name(RT.input_int('key').e)
    c = o._fields
    there = z3.And(0 <= key.code, key.code < n, z3.Not(DEL(key.code)))
    with patched(M, weakref=Weak, createEditableField=lambda p, f: Made('field', p, f), createEditableFieldSet=lambda p, f: Made('set', p, f)):
        kind, r = expect(EF + 'EditableFieldSet.__getitem__', M.EditableFieldSet.__getitem__, o, key)
    RT.prove(not o._deleted.added and not o._inserted.touched and not c.dropped, 'a lookup edits nothing')
    if kind == 'exc':
        RT.cover('missing')
        RT.prove(isinstance(r, MissingField), 'a field which is not there: MissingField')
        RT.prove(z3.Not(there), 'a field which is there is found')
        RT.prove(not c.made, 'nothing is made')
        return
    RT.prove(there, 'only a field which is there is found')
    if isinstance(r, Made):
        RT.cover('made')
        RT.prove(len(c.made) == 1 and c.made[0][1] is r, 'the editable field is kept')
        RT.prove(z3.And(c.made[0][0].code == key.code, r.field.code == key.code), 'it is the field of that name')
        RT.prove(z3.Not(CACHED(key.code)), 'an edited field is not made again')
        RT.prove(r.parent is o and r.kind == ('set' if g['isset'] else 'field'), 'an editable field of its kind, in this set')
    else:
        RT.cover('cached')
        RT.prove(isinstance(r, OwnField) and not c.made, 'the same editable field is returned')
        RT.prove(r.i == key.code, 'it is the field of that name')


def b_path():
    """a/b is b of a"""
    import hachoir.editor.fieldset as M
    g = RT.ghost
    n, inp = setup()
    o = edited(M.EditableFieldSet, inp, n)
    head, rest = Name(RT.input_int('head').e), Name(RT.input_int('rest').e)
    got = []

    class Sub(Sym):
        def __getitem__(self, k):
            got.append(('get', k))
            return 'leaf'

        def __delitem__(self, k):
            got.append(('del', k))
    sub = Sub()

    def item(self, key):
        if isinstance(key, PathName):
            return run_target(EF + 'EditableFieldSet.__getitem__', M.EditableFieldSet.__getitem__, self, key)
        got.append(('first', key))
        return sub
    p = PathName(head, rest)
    delete = RT.branch(RT.input_int('delete', 0, 1).e == 1)
    o.__class__.__getitem__ = item
    if delete:
        kind, r = expect(EF + 'EditableFieldSet.__delitem__', M.EditableFieldSet.__delitem__, o, p)
    else:
        kind, r = expect(EF + 'EditableFieldSet.__getitem__', M.EditableFieldSet.__getitem__, o, p)
    RT.prove(kind == 'ret', 'path: no error')
    RT.prove(len(got) == 2 and got[0][0] == 'first' and got[0][1] is head and got[1][1] is rest
             and got[1][0] == ('del' if delete else 'get'), 'the name is looked up in the set of the first part')
    RT.prove(delete or r == 'leaf', 'the field of the path')
    RT.prove(not o._deleted.added and not o._inserted.touched, 'nothing else is edited')
    RT.cover('path')


# ------------------------------------------------------------ deletion
def b_delete():
    import hachoir.editor.fieldset as M
    from hachoir.field import MissingField
    g = RT.ghost
    new = RT.branch(RT.input_int('new set', 0, 1).e == 1)
    n, inp = setup(new)
    o = edited(M.EditableFieldSet, inp, n)
    key = Name(RT.input_int('key').e)
    ins, G = o._inserted, o._inserted.G
    # the inserted field of that name, if any: item `at` of group g0
    there = z3.And(0 <= key.code, key.code < n, z3.Not(DEL(key.code)))
    has = RT.branch(RT.input_int('is inserted', 0, 1).e == 1)
    g0, at = RT.input_int('group', 0).e, RT.input_int('at', 0).e
    g.update(has=has, g0=g0, at=at, key=key.code, G=G)
    if has:
        RT.assume(z3.And(g0 < G, at < NI(KG(g0)), NMI(KG(g0), at) == key.code))
        # the names of a set differ
        RT.assume(z3.Not(there))
    kind, r = expect(EF + 'EditableFieldSet.__delitem__', M.EditableFieldSet.__delitem__, o, key)
    removed = [(i, d) for i, d in ins.touched if d.removed is not None]
    if kind == 'exc':
        RT.cover('missing')
        RT.prove(isinstance(r, MissingField), 'a field which is not there: MissingField')
        RT.prove(z3.Not(there), 'an original field is deleted')
        RT.prove(not has, 'an inserted field is deleted')
        RT.prove(not o._deleted.added and not removed and not o._fields.dropped and ins.dropped is None, 'a refused deletion changes nothing')
    elif o._deleted.added:
        RT.cover('original')
        RT.prove(there, 'only an original field is marked')
        RT.prove(len(o._deleted.added) == 1 and not removed and ins.dropped is None, 'one field is deleted')
        RT.prove(o._deleted.added[0].code == key.code, 'it is the field of that name')
        RT.prove(z3.Or(z3.Not(CACHED(key.code)), z3.BoolVal(len(o._fields.dropped) == 1)), 'its edits are forgotten')
    else:
        RT.cover('inserted')
        RT.prove(has, 'only a field which is there is deleted')
        if has:
            RT.prove(len(removed) == 1, 'one field is deleted')
            i, d = removed[0]
            RT.prove(z3.And(i == KG(g0), d.removed == at), 'it is the field of that name')
            RT.prove(z3.BoolVal(ins.dropped is d) == (NI(i) == 1), 'a group is dropped exactly when it is empty')
            RT.prove(not o._fields.dropped, 'no edit is forgotten')
    # the deleted names are the names of original fields
    for x in o._deleted.added:
        RT.prove(z3.And(0 <= x.code, x.code < n), 'a deleted name is an original name')


def unique(gi, j):
    """the names of the inserted fields differ"""
    g = RT.ghost
    k = KG(gi)
    c = NMI(k, j) == g['key']
    here = z3.And(0 <= gi, gi < g['G'], 0 <= j, j < NI(k), c)
    fact([z3.Implies(here, z3.And(gi == g['g0'], j == g['at']) if g['has'] else z3.BoolVal(False))])


def known(c):
    """the same, given the name of an inserted field"""
    if c.decl().eq(NMI) and c.arg(0).decl().eq(KG):
        unique(c.arg(0).arg(0), c.arg(1))


def dgroups_inv(L):
    g = RT.ghost
    k = zint(L._idx)
    return [('not met', k <= g['g0'] if g['has'] else z3.BoolVal(True))]


def dfields_inv(L):
    g = RT.ghost
    it, k = L._it, zint(L._idx)
    g['cur'] = it
    for x in (k, g['at']):
        for gi in group_of(it):
            unique(gi, x)
    # the field searched is not before
    return [('not met', z3.Implies(it.k == KG(g['g0']), k <= g['at']) if g['has'] else z3.BoolVal(True))]


def group_of(d):
    """the index of the group of a deque: KG(index)"""
    k = d.k
    return [k.arg(0)] if k.decl().eq(KG) else []


# ------------------------------------------------------------ insertion
def b_insert(case):
    def body():
        import hachoir.editor.fieldset as M
        from hachoir.field import MissingField
        from hachoir.core.dict import UniqKeyError
        g = RT.ghost
        new = case == 'new set'
        # a new set does not choose names
        g['noarray'] = new
        n, inp = setup(new)
        o = edited(M.NewFieldSet if new else M.EditableFieldSet, inp, n)
        ins, G = o._inserted, o._inserted.G
        m = RT.input_int('n_new', 0).e
        fields = NewFields(m)
        nxt = RT.branch(RT.input_int('after', 0, 1).e == 1)
        t0, t1 = RT.input_int('t0', 0).e, RT.input_int('t1', 0).e
        RT.assume(z3.And(t0 < t1, t1 < m)) if False else None
        g.update(t0=t0, t1=t1, G=G, m=m, distinct=None)
        # any inserted field: the names of the new fields differ from it
        g['ga'], g['ja'] = RT.input_int('any group', 0).e, RT.input_int('any inserted', 0).e
        RT.assume(z3.And(g['ga'] < G, g['ja'] < NI(KG(g['ga'])))) if False else None
        if case == 'end':
            key, has, nxt = None, False, True
        else:
            key = Name(RT.input_int('key').e)
            has = RT.branch(RT.input_int('is inserted', 0, 1).e == 1)
        g0, at = RT.input_int('group', 0).e, RT.input_int('at', 0).e
        g.update(has=has, g0=g0, at=at, key=key.code if key else iv(-1))
        there = z3.And(0 <= key.code, key.code < n, z3.Not(DEL(key.code))) if key else z3.BoolVal(False)
        if has:
            RT.assume(z3.And(g0 < G, at < NI(KG(g0)), NMI(KG(g0), at) == key.code, z3.Not(there)))
            unique(g0, at)
        with patched(M, deque=lambda *a: mk_deque(*a)):
            kind, r = expect(EF + 'EditableFieldSet._insert', M.EditableFieldSet._insert, o, key, fields, nxt)
        changed = [(i, d) for i, d in ins.touched if [s[0] for s in d.segs] != (['old'] if d.k is not None else [])]
        RT.prove(not o._deleted.added and not o._fields.made and not o._fields.dropped and ins.dropped is None, 'an insertion edits nothing else')
        if kind == 'exc':
            RT.prove(isinstance(r, (MissingField, UniqKeyError)), 'an insertion is refused with MissingField or UniqKeyError')
            RT.prove(not changed, 'a refused insertion changes nothing')
            if isinstance(r, MissingField):
                RT.cover('missing')
                RT.prove(z3.And(z3.Not(there), z3.BoolVal(not has and key is not None)), 'a field which is there is found')
            else:
                RT.cover('duplicate')
            return
        RT.cover('inserted')
        # the names still differ
        RT.prove(z3.Implies(z3.And(0 <= t0, t0 < t1, t1 < m), NN(t0) != NN(t1)), 'the new names differ')
        RT.prove(z3.Implies(z3.And(t0 < m, 0 <= NN(t0), NN(t0) < n), DEL(NN(t0))), 'a new name is not the one of an original field')
        ga, ja = g['ga'], g['ja']
        RT.prove(z3.Implies(z3.And(t0 < m, ga < G, ja < NI(KG(ga))), NN(t0) != NMI(KG(ga), ja)), 'a new name is not the one of an inserted field')
        changed = [(i, d) for i, d in changed if any(s[0] == 'new' or s[0] == 'reversed' for s in d.segs)] or changed
        RT.prove(len(changed) <= 1, 'one place is changed')
        if len(changed) != 1:
            RT.prove(m == 0, 'the fields are inserted')
            return
        i, d = changed[0]
        segs = [s for s in d.segs]
        # old[0:p] new old[p:]
        p, seen = iv(0), False
        pos = None
        okay = []
        for s, lo, hi in segs:
            if s == 'old':
                okay.append(z3.Or(lo == p, lo == hi))
                p = z3.If(lo == hi, p, hi)
            elif s == 'new' and not seen:
                seen, pos = True, p
                okay.append(z3.And(lo == 0, hi == m))
            else:
                okay.append(z3.Or(hi - lo == 0, z3.And(hi - lo <= 1, m == 1)))
                if pos is None:
                    seen, pos = True, p
        RT.prove(z3.And(okay), 'the new fields are together, in their order, and the others keep their order')
        have = NI(d.k) if d.k is not None else z3.If(HAS(i), NI(i), 0)
        RT.prove(p == have, 'no inserted field is lost')
        if key is None:
            RT.cover('end')
            RT.prove(z3.And(i == n, pos == have), 'inserted at the end')
        elif has:
            RT.cover('near an inserted field')
            RT.prove(i == KG(g0), 'inserted between the same original fields')
            RT.prove(pos > at if nxt else pos <= at, 'inserted on the right side of the field')
        else:
            RT.cover('near an original field')
            RT.prove(z3.Or(there, z3.And(0 <= key.code, key.code < n)), 'only near a field which is there')
            RT.prove(z3.Implies(there, i == (key.code + 1 if nxt else key.code)), 'inserted next to the field')
    return body


def mk_deque(*a):
    d = Deq()
    if a:
        d.extend(a[0])
    return d


def i_names(L):
    """the array names"""
    return []


def i_input(L):
    """new names against the original names"""
    g = RT.ghost
    k = zint(L._idx)
    t0, n = g['t0'], g['n']
    return [('new so far', z3.Implies(z3.And(t0 < k, 0 <= NN(t0), NN(t0) < n), DEL(NN(t0))))]


def i_groups(L):
    g = RT.ghost
    k = zint(L._idx)
    ga, ja, t0 = g['ga'], g['ja'], g['t0']
    return [('new so far', z3.Implies(z3.And(ga < k, t0 < g['m'], ja < NI(KG(ga))), NN(t0) != NMI(KG(ga), ja)))]


def i_fields(L):
    g = RT.ghost
    it, k = L._it, zint(L._idx)
    ga, ja, t0 = g['ga'], g['ja'], g['t0']
    return [('new so far', z3.Implies(z3.And(it.k == KG(ga), ja < k, t0 < g['m'], ja < NI(KG(ga))), NN(t0) != NMI(KG(ga), ja)))]


def i_search(L):
    g = RT.ghost
    k = zint(L._idx)
    return [('not met', k <= g['g0'] if g['has'] else z3.BoolVal(True))]


# ------------------------------------------------------------ floats, reset, wrappers
class Struct:
    """ASSUMED contract of struct.pack: the bytes of the value in the format"""
    error = ValueError

    @staticmethod
    def pack(fmt, v):
        RT.trusted.add('struct.pack')
        return ('packed', fmt, v)


def b_float():
    import hachoir.editor.fieldset as M
    g = RT.ghost
    n, inp = setup()
    o = edited(M.EditableFloat, inp, n)
    g['any0'] = iv(0)
    v = Opaque('value')
    sel = RT.branch(RT.input_int('has a value', 0, 1).e == 1)
    calls = []

    def base(name, r):
        def f(self, *a):
            calls.append((name,) + a)
            return r
        return f
    size = RT.input_int('size of the parts', 0)
    parts = RT.input_int('parts altered', 0, 1)
    out = Out()

    class Base:
        _isAltered = base('altered', mkbool(parts.e == 1))
        _getSize = base('size', size)
        writeInto = base('write', None)
    if sel:
        with patched(M, struct=Struct):
            kind, r = expect(EF + 'EditableFloat._setValue', M.EditableFloat._setValue, o, v)
        RT.prove(kind == 'ret', 'a value is set')
    with patched(M, EditableFieldSet=Base, struct=Struct):
        kind, a = expect(EF + 'EditableFloat._isAltered', lambda: o.is_altered)
        RT.prove(kind == 'ret', 'is_altered: no error')
        RT.prove(bool(a) if sel else z3.BoolVal(bool(a)) == (parts.e == 1), 'altered when set, or when a part is')
        kind, s = expect(EF + 'EditableFloat._getSize', lambda: o.size)
        RT.prove(kind == 'ret', 'size: no error')
        RT.prove(zint(s) == (OFF(n) if sel else size.e), 'the size is the number of bits written')
        calls.clear()
        kind, r = expect(EF + 'EditableFloat.writeInto', M.EditableFloat.writeInto, o, out)
        RT.prove(kind == 'ret', 'writeInto: no error')
    if sel:
        RT.cover('value')
        RT.prove(not calls and len(out.copies) == 1 and out.copies[0][0] == 'raw', 'the value is written')
        if len(out.copies) == 1:
            RT.prove(out.copies[0][1] == ('packed', inp.struct_format, v), 'in the format of the field')
        kind, x = expect(EF + 'EditableFloat._getValue', lambda: o.value)
        RT.prove(kind == 'ret' and x is v, 'the value of the field')
    else:
        RT.cover('parts')
        RT.prove(not out.copies and len(calls) == 1 and calls[0][0] == 'write' and calls[0][1] is out, 'its parts are written')


def b_reset():
    import hachoir.editor.fieldset as M
    n, inp = setup()
    o = edited(M.EditableFieldSet, inp, n)
    kind, r = expect(EF + 'EditableFieldSet.reset', M.EditableFieldSet.reset, o)
    RT.prove(kind == 'ret', 'reset: no error')
    RT.prove(o.input is inp and not o._deleted.added and not o._inserted.touched and not o._fields.made, 'a reset keeps the edits')
    RT.cover('reset')


def b_inserts():
    import hachoir.editor.fieldset as M
    n, inp = setup()
    got = []
    o = edited(M.EditableFieldSet, inp, n, _insert=lambda self, key, fields, next: got.append((key, fields, next)))
    k, a, b = Name(RT.input_int('key').e), NewField(iv(0)), NewField(iv(1))
    for f, key, nxt in (('insertBefore', k, False), ('insertAfter', k, True), ('insert', None, True)):
        got.clear()
        args = (a, b) if key is None else (key, a, b)
        kind, r = expect(EF + 'EditableFieldSet.' + f, getattr(M.EditableFieldSet, f), o, *args)
        RT.prove(kind == 'ret' and len(got) == 1, f + ': one insertion')
        if len(got) == 1:
            RT.prove(got[0][0] is key and list(got[0][1]) == [a, b] and bool(got[0][2]) == nxt, f + ': these fields, at this place')
    RT.cover('inserts')


INS_LOOPS = {EF + 'EditableFieldSet._insert#0': LoopSpec(i_names, modifies=()),
             EF + 'EditableFieldSet._insert#1': LoopSpec(i_input),
             EF + 'EditableFieldSet._insert#2': LoopSpec(i_groups),
             EF + 'EditableFieldSet._insert#3': LoopSpec(i_fields),
             EF + 'EditableFieldSet._insert#4': LoopSpec(i_search)}


def U(name, qual, body, loops=None, calls=None, models=None, **k):
    return Unit(name, [q if ':' in q else EF + q for q in qual.split()], body, loops=loops or {}, calls=dict(lib.LOG_CALLS, **(calls or {})),
                comps=COMPS, models=models or {}, **k)


S = 'EditableFieldSet.'
WL = {EF + S + 'writeInto#0': LoopSpec(write_inv)}
AL = {EF + S + '_getFieldAddress#0': LoopSpec(address_inv)}
IL = {EF + S + '__iter__#0': LoopSpec(iter_inv), EF + S + '__iter__#1': LoopSpec(ins_inv), EF + S + '__iter__#2': LoopSpec(ins_inv)}
UNITS = [
    U('writeInto', S + 'writeInto', b_write(False), WL),
    U('writeInto, new set', S + 'writeInto', b_write(True), WL),
    U('unedited field', FF + 'FakeField.writeInto ' + FF + 'FakeField._getSize ' + FF + 'FakeField._isAltered ' + S + '_getFieldInputAddress', b_copy_field),
    U('__iter__', S + '__iter__', b_iter(False), IL, calls={EF + S + '__getitem__': c_getitem}),
    U('__iter__, new set', 'NewFieldSet.__iter__', b_iter(True)),
    U('size', S + '_getSize', b_size, {EF + S + '_getSize#0': LoopSpec(size_inv)}, models={'sum': m_sum}),
    U('__len__', S + '__len__', b_len, models={'sum': m_sum}),
    U('__len__, new set', 'NewFieldSet.__len__', b_newlen, models={'sum': m_sum}),
    U('address', S + '_getFieldAddress', b_address(True), AL),
    U('address, missing', S + '_getFieldAddress', b_address(False), AL),
    U('absolute address', S + '_getAbsoluteAddress', b_absolute,
      {EF + S + '_getAbsoluteAddress#0': LoopSpec(abs_inv, havoc=abs_havoc)}),
    U('is_altered', S + '_isAltered', b_altered, {EF + S + '_isAltered#0': LoopSpec(alt_inv)}),
    U('is_altered, unedited', S + '_isAltered', b_unaltered, {EF + S + '_isAltered#0': LoopSpec(alt_inv)}),
    U('__getitem__', S + '__getitem__', b_getitem),
    U('path', S + '__getitem__ ' + S + '_getItemByPath ' + S + '__delitem__', b_path),
    U('__delitem__', S + '__delitem__', b_delete,
      {EF + S + '__delitem__#0': LoopSpec(dgroups_inv), EF + S + '__delitem__#1': LoopSpec(dfields_inv)}),
    U('float', 'EditableFloat.writeInto EditableFloat._write EditableFloat._getSize EditableFloat._isAltered EditableFloat._setValue EditableFloat._getValue', b_float),
    U('reset', S + 'reset', b_reset, {EF + S + 'reset#0': LoopSpec(lambda L: [])}),
    U('insertBefore, insertAfter, insert', S + 'insertBefore ' + S + 'insertAfter ' + S + 'insert', b_inserts),
] + [U('_insert ' + c, S + '_insert', b_insert(c), INS_LOOPS, models={'str.join': lambda *a: Opaque('names')}) for c in ('end', 'near', 'new set')]
