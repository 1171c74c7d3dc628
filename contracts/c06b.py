"""C06, the parts the sets are made of: the empty set (base case of the invariant), the
filler fields which reach an address, the numbered names, and the sets of fixed shape
(StaticFieldSet, GenericVector), whose declared size is the one of the fields they create.
"""
import z3
from pyvc.core import RT, LoopSpec, SInt, Sym, Opaque, mkint, mkbool, zint, iv, Unsupported
from pyvc.contract import Unit, expect
from contracts.lib import obj
from contracts import lib
from contracts.c07 import SMap

GF = 'hachoir.field.generic_field_set:GenericFieldSet.'
BF = 'hachoir.field.basic_field_set:BasicFieldSet.'
HP = 'hachoir.field.helper:'
SF = 'hachoir.field.static_field_set:StaticFieldSet.'
VF = 'hachoir.field.vector:GenericVector.'
FF = 'hachoir.field.field:Field.'
I = z3.IntSort()


class Key(Sym):
    """a name without its brackets: an arbitrary text, or the name it comes from"""
    is_text = True

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        if isinstance(o, Numbered):
            return FullName(self, o.n)
        if isinstance(o, str) and o[:1] == '[' and o[-1:] == ']' and o[1:-1].isdigit():
            return FullName(self, iv(int(o[1:-1])))
        raise Unsupported('name')

    def sym_isinstance(self, ts):
        return str in ts or object in ts


class RawName(Sym):
    """<key>[]"""
    is_text = True

    def __init__(self, e):
        self.key = Key(e)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step is None and k.stop == -2:
            return self.key
        raise Unsupported('part of a name')

    def endswith(self, s):
        if s == '[]':
            return True
        raise Unsupported('endswith')


class Numbered:
    def __init__(self, n):
        self.n = n


class FullName(Sym):
    is_text = True

    def __init__(self, key, n):
        self.key, self.n = key, n


class Counts(SMap):
    _pyvc_name = 'numbers'

    def _key(self, k):
        if not isinstance(k, Key):
            raise Unsupported('key of an unknown type')
        return k.e


def m_num(fmt, a):
    a = a if isinstance(a, tuple) else (a,)
    if fmt in ('[%u]', '[%d]', '[%s]', '[%i]') and len(a) == 1 and isinstance(a[0], (SInt, int)):
        return Numbered(zint(a[0]))
    if fmt in ('%s[%u]', '%s[%d]', '%s[%s]') and len(a) == 2 and isinstance(a[0], Key):
        return FullName(a[0], zint(a[1]))
    return Opaque('text')


class Named(Sym):
    pass


def b_unique():
    from hachoir.field import GenericFieldSet
    f = z3.Function('last_number', I, I)
    k, q = RT.int('key').e, RT.int('some_key').e
    for x in (k, q):
        RT.fact(f(x) >= -1)
    m = Counts(lambda x: f(x))
    s = obj(GenericFieldSet, _field_array_count=m, _name='n', _address=0, _size=None)
    fld = obj(Named, _name=RawName(k))
    kind, r = expect(BF + 'setUniqueFieldName', GenericFieldSet.setUniqueFieldName, s, fld)
    RT.cover(kind)
    nm = fld._name
    RT.prove(kind == 'ret' and isinstance(nm, FullName), 'setUniqueFieldName: the field is named')
    RT.prove(nm.key.e == k, 'setUniqueFieldName: the name without its brackets is kept')
    RT.prove(nm.n == f(k) + 1, 'setUniqueFieldName: the first number which was never given (from 0, each once)')
    RT.prove(s._field_array_count is m, 'setUniqueFieldName: numbers')
    RT.prove(m.fn(q) == z3.If(q == k, f(k) + 1, f(q)), 'setUniqueFieldName: the last number given for each name')


# -------------------------------------------------------------- an empty set
def parent(cur):
    from hachoir.field import GenericFieldSet
    from hachoir.core.endian import BIG_ENDIAN
    root = obj(GenericFieldSet, _name='root', _address=0, _parent=None, _size=None, _current_size=0)
    root.root = root
    return obj(GenericFieldSet, _name='parent', _address=0, _parent=root, root=root, _size=None, _current_size=mkint(cur),
               endian=BIG_ENDIAN, stream=STREAM())


def STREAM():
    from hachoir.stream import StringInputStream
    if 'stream' not in RT.ghost:
        RT.ghost['stream'] = obj(StringInputStream)
    return RT.ghost['stream']


def b_init():
    from hachoir.field import GenericFieldSet, ParserError
    from hachoir.core.endian import LITTLE_ENDIAN
    g = RT.ghost
    cur = RT.input_int('parent_size', 0).e
    top = RT.choice([True, False], 'root')
    p = None if top else parent(cur)
    fixed = RT.choice(['none', 'int'], 'static size')
    static = RT.input_int('static_size', 1) if fixed == 'int' else None
    own = RT.choice([True, False], 'size given')
    size = RT.input_int('size') if own else None

    class MySet(GenericFieldSet):
        static_size = static
        endian = LITTLE_ENDIAN

        def createFields(self):
            g['made'] = g.get('made', 0) + 1
            return g['gen']
    g['gen'] = Opaque('generator')
    s = obj(MySet)
    kind, r = expect(GF + '__init__', MySet.__init__, s, p, 'n', STREAM(), None, size)
    RT.cover(kind)
    want = size if own else static
    if kind == 'exc':
        RT.prove(type(r) is ParserError and want is not None and RT.entails(zint(want) <= 0), 'a set is refused only when its size is not positive')
        return
    if want is None:
        RT.prove(s._size is None, 'a new set has no size yet')
    else:
        RT.prove(s._size is not None and zint(s._size) == zint(want), 'a new set has the size given, else the one of its class')
        RT.prove(zint(want) > 0, 'a set has a positive size')
    RT.prove(zint(s._address) == (iv(0) if top else cur), 'a new set starts where the previous field of its parent ends')
    RT.prove(zint(s._current_size) == 0, 'a new set is empty')
    RT.prove(len(s._fields._key_list) == 0 and len(s._fields._value_list) == 0 and len(s._fields._index) == 0, 'a new set has no field')
    RT.prove(s._field_generator is g['gen'], 'the fields of a new set are created by its parser')
    RT.prove(len(s._field_array_count) == 0, 'a new set numbers its fields from 0')
    RT.prove(s._parent is p and s.root is (s if top else p.root), 'a new set knows its parent and root')


def b_reset():
    from hachoir.field import GenericFieldSet
    g = RT.ghost

    class MySet(GenericFieldSet):
        def createFields(self):
            return g['gen']
    g['gen'] = Opaque('generator')
    size = RT.choice([True, False], 'size known')
    size = RT.input_int('size', 1) if size else None
    a = RT.input_int('address', 0)
    s = obj(MySet, _fields=Opaque('fields'), _current_size=RT.input_int('current_size', 0), _size=size, _address=a, _name='n',
            _field_array_count={'raw': 5}, _array_cache={'raw': Opaque('array')}, _field_generator=None)
    kind, r = expect(GF + 'reset', MySet.reset, s)
    RT.cover(kind)
    RT.prove(kind == 'ret', 'reset: no error')
    RT.prove(len(s._fields._key_list) == 0 and len(s._fields._value_list) == 0, 'reset: no field left')
    RT.prove(zint(s._current_size) == 0, 'reset: empty')
    RT.prove(s._field_generator is g['gen'], 'reset: the parser starts again')
    RT.prove(len(s._field_array_count) == 0 and len(s._array_cache) == 0, 'reset: the fields are numbered from 0 again')
    RT.prove(s._size is size and s._address is a and s._name == 'n', 'reset: the size, address and name are kept')


# --------------------------------------------------------------- filler fields
def filler(name):
    def m(par, nbits, name='raw[]' if 'Raw' in name else 'padding[]', description=None, _fn=name):
        RT.prove(par is RT.ghost['self'], 'seekBit: a field of this set')
        return ('filler', _fn, zint(nbits), name, description)
    return m


def b_seek():
    from hachoir.field import GenericFieldSet, ParserError
    cur = RT.input_int('current_size', 0).e
    base = RT.input_int('parent_address', 0).e
    own = RT.input_int('address_in_parent', 0).e
    rootset = obj(GenericFieldSet, _name='root', _address=mkint(base), _parent=None)
    s = obj(GenericFieldSet, _name='n', _address=mkint(own), _parent=rootset, _current_size=mkint(cur), _size=None)
    RT.ghost['self'] = s
    rel, null = RT.choice([True, False], 'relative'), RT.choice([True, False], 'null')
    to = RT.input_int('target').e
    byte = RT.choice([False, True], 'bytes')
    fn = 'seekByte' if byte else 'seekBit'
    desc = RT.choice([None, 'text'], 'description')
    style = RT.choice(['keywords', 'defaults'], 'call')
    if style == 'defaults':
        RT.assume(z3.BoolVal(rel and not null and desc is None))
        kind, r = expect(GF + fn, getattr(GenericFieldSet, fn), s, mkint(to))
        name = 'padding[]'
    else:
        name = 'pad'
        kind, r = expect(GF + fn, getattr(GenericFieldSet, fn), s, mkint(to), name, desc, rel, null)
    RT.cover(kind)
    want = (to * 8 if byte else to) - (iv(0) if rel else base + own) - cur
    if kind == 'exc':
        RT.prove(type(r) is ParserError, 'seekBit: a parser error')
        RT.prove(want < 0, 'seekBit: refused only to go back')
        return
    RT.prove(want >= 0, 'seekBit: going back is refused')
    if r is None:
        RT.prove(want == 0, 'seekBit: nothing to add only when there already')
        return
    ok = isinstance(r, tuple) and r[0] == 'filler'
    RT.prove(ok, 'seekBit: a filler field')
    RT.prove(r[1] == ('createNullField' if null else 'createPaddingField'), 'seekBit: of the kind asked for')
    RT.prove(z3.And(r[2] > 0, r[2] == want), 'seekBit: the filler ends at the address asked for')
    RT.prove(r[3] == name and r[4] == desc, 'seekBit: with the name asked for')
    RT.prove(zint(s._current_size) == cur, 'seekBit: the set is not changed')


def c_pattern(self):
    """contract of checkPattern: tells whether the padding is as expected, with an
    error when it cannot be read (as for bytes at no byte address); changes nothing. Not needed without a pattern."""
    from hachoir.stream.input import ReadStreamError
    if self.pattern is None:
        return False
    k = RT.choice(['as expected', 'other', 'unreadable'], 'padding')
    if k == 'unreadable':
        RT.ghost['unreadable'] = ReadStreamError.__new__(ReadStreamError)
        raise RT.ghost['unreadable']
    return k == 'as expected'


def b_filler():
    import hachoir.field.helper as H
    from hachoir.field import FieldError, RawBytes, RawBits, PaddingBytes, PaddingBits, NullBytes, NullBits
    fn, by, bi = RT.choice([('createRawField', RawBytes, RawBits), ('createPaddingField', PaddingBytes, PaddingBits),
                            ('createNullField', NullBytes, NullBits)], 'kind')
    p = parent(RT.input_int('parent_size', 0).e)
    n = RT.input_int('size')
    kind, r = expect(HP + fn, getattr(H, fn), p, n, 'a', 'text')
    RT.cover(kind)
    if kind == 'exc':
        if r is RT.ghost.get('unreadable'):
            RT.prove(fn == 'createNullField', fn + ': does not read the data')
            return
        RT.prove(type(r) is FieldError, fn + ': a field error')
        RT.prove(z3.Or(n.e <= 0, n.e > 8 * 2 ** 64), fn + ': refused only for an impossible size')
        return
    RT.prove(n.e > 0, fn + ': not for an empty range')
    RT.prove(type(r) in (by, bi), fn + ': a field of this kind')
    RT.prove((n.e % 8 == 0) if type(r) is by else (n.e % 8 != 0), fn + ': bytes when possible')
    RT.prove(zint(r._size) == n.e, fn + ': of the size asked for')
    RT.prove(zint(r._address) == zint(p._current_size), fn + ': at the next address of the set')
    RT.prove(r._name == 'a' and r._parent is p, fn + ': in this set')


def b_orphan():
    import hachoir.field.helper as H
    from hachoir.field import GenericFieldSet
    cur, at = RT.input_int('current_size', 0), RT.input_int('address', 0)
    s = obj(GenericFieldSet, _name='n', _address=0, _parent=None, _size=None, _current_size=cur)
    fails = RT.choice([False, True], 'the field fails')
    err = ValueError('field')
    made = []

    def cls(par, *a, **kw):
        made.append((par, par._current_size, a, kw))
        if fails:
            raise err
        return 'field'
    kind, r = expect(HP + 'createOrphanField', H.createOrphanField, s, at, cls, 'n', 5, description='d')
    RT.cover(kind)
    RT.prove((kind, r) == (('exc', err) if fails else ('ret', 'field')), 'createOrphanField: the field, or its error')
    RT.prove(len(made) == 1 and made[0][0] is s and made[0][2] == ('n', 5) and made[0][3] == {'description': 'd'}, 'createOrphanField: the field asked for')
    RT.prove(zint(made[0][1]) == at.e, 'createOrphanField: at the address asked for')
    RT.prove(zint(s._current_size) == cur.e, 'createOrphanField: the set is not changed')


# ------------------------------------------------------------- fixed shapes
SZ = z3.Function('item_size', I, I)
SUM = z3.Function('sum_of_item_sizes', I, I)


def sums(j):
    RT.fact(z3.And(SUM(iv(0)) == 0, z3.Implies(j >= 0, SUM(z3.simplify(j + 1)) == SUM(j) + SZ(j))))


class Items(Sym):
    """the format of a static set: n items, each (class, arguments..., {keywords}?)"""

    def __init__(self, n):
        self.n = n

    def len_(self):
        return mkint(self.n)

    def __bool__(self):
        return RT.branch(self.n > 0)

    def sym_item(self, i):
        return item(zint(i))


class ItemClass(Sym):
    def __init__(self, i, args, kw):
        self.i, self.args, self.kw = i, args, kw
        self.__name__ = 'Item'
        self.how = RT.choice(['int', 'callable'], 'static size of the item')
        RT.fact(SZ(i) >= 0)

    @property
    def static_size(self):
        return mkint(SZ(self.i)) if self.how == 'int' else self.compute

    def compute(self, *a, **kw):
        RT.prove(a == self.args and kw == self.kw, 'static size: of the arguments of the item')
        return mkint(SZ(self.i))

    def __call__(self, par, *a, **kw):
        RT.prove(par is RT.ghost['self'], 'createFields: a field of this set')
        RT.prove(a == self.args and kw == self.kw, 'createFields: the arguments of the item')
        return ('field', self.i)


def item(i):
    shape = RT.choice([((1,), {}), (('a',), {'k': 2}), (('a', 3), {}), (('a', 3), {'k': 2})], 'shape of the item')
    args, kw = shape
    c = ItemClass(i, args, kw)
    return (c,) + args + ((kw,) if kw else ())


class Sizes(Sym):
    def __init__(self, l, f):
        self.l, self.f = l, f

    def sym_item(self, i):
        return list(self.f([item(zint(i))]))[0]


def c_sizes(it, f, kind):
    if isinstance(it, Items):
        return Sizes(it, f)
    return NotImplemented


def m_sum(it, start=0):
    if not isinstance(it, Sizes):
        raise Unsupported('sum')
    i = RT.int('any_item').e
    RT.prove(zint(it.sym_item(i)) == SZ(i), 'static size: the size of each item')
    return mkint(zint(start) + SUM(it.l.n))


def m_callable(x):
    return True if getattr(x, '__func__', None) is ItemClass.compute else NotImplemented


def sclass(n):
    from hachoir.field import StaticFieldSet

    class MySet(StaticFieldSet):
        format = Items(n)
    return MySet


def b_static_size():
    n = RT.input_int('n_items', 0).e
    cls = sclass(n)
    # also called with the arguments of an item, when no set was created yet
    args = RT.choice([(), ('name',), ('name', 3)], 'arguments')
    from hachoir.field import StaticFieldSet
    kind, r = expect(SF + '_computeStaticSize', StaticFieldSet._computeStaticSize.__func__, cls, *args)
    RT.cover(kind)
    RT.prove(kind == 'ret', 'static size: no error')
    RT.prove(zint(r) == SUM(n), 'static size: the sum of the sizes of the items')


def b_item_size():
    from hachoir.field import StaticFieldSet, ParserError
    dyn = RT.choice([False, True], 'item without a static size')
    if dyn:
        class C:
            static_size = None
        kind, r = expect(SF + '_computeItemSize', StaticFieldSet._computeItemSize, (C, 'a'))
        RT.prove(kind == 'exc' and type(r) is ParserError, 'static size: an item without a static size is refused')
        return
    kind, r = expect(SF + '_computeItemSize', StaticFieldSet._computeItemSize, item(RT.int('any_item').e))
    RT.cover(kind)
    RT.prove(kind == 'ret', 'static size: no error')


class Made:
    _pyvc_track = True
    _pyvc_name = 'made'

    def __init__(self):
        self.k = mkint(iv(0))


def drain(gen, name, n, good):
    g = RT.ghost
    m = g['mk']
    it = iter(gen)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        RT.cover('field')
        good(v, zint(m.k))
        m.k = mkint(zint(m.k) + 1)
    RT.cover('end')
    RT.prove(zint(m.k) == n, name + ': every field is created')


def made_inv(L):
    return [('created so far', zint(RT.ghost['mk'].k) == zint(L._idx))]


def mk():
    RT.ghost['mk'] = Made()
    RT.roots.append(RT.ghost['mk'])


def b_static_fields():
    n = RT.input_int('n_items', 0).e
    cls = sclass(n)
    s = object.__new__(cls)
    RT.roots.append(s)
    s.__dict__.update(_name='n', _address=0, _size=None)
    RT.ghost['self'] = s
    mk()
    kind, gen = expect(SF + 'createFields', cls.createFields, s)
    RT.prove(kind == 'ret', 'createFields: no error')

    def good(v, k):
        RT.prove(isinstance(v, tuple) and v[0] == 'field', 'createFields: the fields of the items')
        RT.prove(v[1] == k, 'createFields: one field for each item, in order')
    drain(gen, 'createFields', n, good)


def b_static_new():
    """static_size is the size of the fields of this very class, whatever class was used before"""
    n = RT.input_int('n_items', 0).e
    cls = sclass(n)
    before = RT.choice(['never', 'by this class', 'by its base class'], 'static size computed')
    if before == 'by this class':
        cls._class, cls.static_size = cls.__name__, mkint(SUM(n))
    elif before == 'by its base class':
        base = cls

        class Sub(base):
            format = Items(RT.input_int('n_items_sub', 0).e)
        base._class, base.static_size = base.__name__, mkint(SUM(n))
        cls, n = Sub, Sub.format.n
    kind, r = expect(SF + '__new__', cls.__new__, cls, Opaque('parent'), 'name')
    RT.cover(kind)
    RT.prove(kind == 'ret' and type(r) is cls, 'static size: an object of the class')
    RT.prove(zint(cls.static_size) == SUM(n), 'static size: the one of the fields of this class')


def b_static_asked():
    """the size told by a class of which no object was made yet, after its base class was used"""
    n = RT.input_int('n_items', 0).e
    base = sclass(n)
    first = RT.choice([False, True], 'base class used before the class is made')
    same = RT.choice([False, True], 'same name')

    def use():
        base._class, base.static_size = base.__name__, mkint(SUM(n))
    if first:
        use()
    m = RT.input_int('n_items_sub', 0).e
    cls = type(base)(base.__name__ if same else 'Sub', (base,), {'format': Items(m)})
    if not first:
        use()
    kind, r = expect(SF + '_computeStaticSize', lambda: cls.static_size() if callable(cls.static_size) else cls.static_size)
    RT.cover(kind)
    RT.prove(kind == 'ret', 'static size: no error')
    if kind == 'ret':
        RT.prove(zint(r) == SUM(m), 'static size: not the one of the base class')
    kind, r = expect(SF + '__new__', cls.__new__, cls, Opaque('parent'), 'name')
    RT.prove(kind == 'ret' and type(r) is cls, 'static size: an object of the class')
    RT.prove(zint(cls.static_size) == SUM(m), 'static size: the one of the fields of this class')


def vec(nb, size):
    g = RT.ghost
    from hachoir.field import Field, GenericVector

    class Item(Field):
        static_size = size

        def __new__(cls, *a):
            RT.prove(len(a) == 2 and a[0] is g['self'] and a[1] == 'thing[]', 'createFields: items of this vector, numbered')
            return ('item',)
    return Item, GenericVector


def b_vector():
    from hachoir.field import ParserError, FieldSet
    g = RT.ghost
    nb, size = RT.input_int('number'), RT.input_int('item_size', 1)
    Item, V = vec(nb, size)
    v = g['self'] = obj(V)
    p = parent(RT.input_int('parent_size', 0).e)
    v.endian = p.endian
    kind, r = expect(VF + '__init__', V.__init__, v, p, 'v', nb, Item, 'thing', 'text')
    RT.cover(kind)
    if kind == 'exc':
        RT.prove(type(r) is ParserError and RT.entails(nb.e <= 0), 'vector: refused only when empty')
        return
    RT.prove(z3.And(nb.e > 0, zint(v._size) == zint(nb * size)), 'vector: its size is the one of its items')
    RT.prove(zint(v._address) == zint(p._current_size), 'vector: at the next address of the set')
    RT.prove(zint(V.__len__(v)) == nb.e, 'vector: its length')
    mk()
    kind, gen = expect(VF + 'createFields', V.createFields, v)
    RT.prove(kind == 'ret', 'createFields: no error')
    drain(gen, 'vector', nb.e, lambda x, k: RT.prove(x == ('item',), 'vector: items'))


CALLS = dict(lib.LOG_CALLS, **{FF + 'path': lambda self: Opaque('path')})
UNITS = [
    Unit('numbering names', [BF + 'setUniqueFieldName'], b_unique, calls=CALLS, models={'str.mod': m_num}),
    Unit('a new set', [GF + '__init__', BF + '__init__'], b_init, calls=CALLS),
    Unit('starting again', [GF + 'reset', BF + 'reset'], b_reset, calls=CALLS),
    Unit('reaching an address', [GF + 'seekBit', GF + 'seekByte'], b_seek,
         calls=dict(CALLS, **{HP + k: filler(k) for k in ('createPaddingField', 'createNullField')})),
    Unit('filler fields', [HP + k for k in ('createRawField', 'createPaddingField', 'createNullField')], b_filler,
         calls=dict(CALLS, **{'hachoir.field.padding:Padding%s.checkPattern' % k: c_pattern for k in ('Bits', 'Bytes')})),
    Unit('a field out of the set', [HP + 'createOrphanField'], b_orphan, calls=CALLS),
    Unit('static size', [SF + '_computeStaticSize', SF + '_computeItemSize'], b_static_size, calls=CALLS, models={'sum': m_sum},
         comps={SF + '_computeStaticSize@%d' % i: c_sizes for i in range(2)}),
    Unit('static size of an item', [SF + '_computeItemSize'], b_item_size, calls=CALLS),
    Unit('static size of a class', [SF + '__new__'], b_static_new, calls=CALLS, models={'sum': m_sum},
         comps={SF + '_computeStaticSize@%d' % i: c_sizes for i in range(2)}),
    Unit('static size asked for', [SF + '__new__', SF + '_computeStaticSize'], b_static_asked, calls=CALLS, models={'sum': m_sum},
         comps={SF + '_computeStaticSize@%d' % i: c_sizes for i in range(2)}),
    Unit('fields of a static set', [SF + 'createFields'], b_static_fields, calls=CALLS, loops={SF + 'createFields#0': LoopSpec(made_inv)}),
    Unit('vector', [VF + '__init__', VF + '__len__', VF + 'createFields'], b_vector, calls=CALLS, loops={VF + 'createFields#0': LoopSpec(made_inv)}),
]
PROP = 'C06'
