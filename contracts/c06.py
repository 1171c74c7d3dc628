"""C06: the fields of a field set tile it.

The fields before a call are arbitrary: n fields, the i-th at A(i) of size
Z(i) >= 0, and they tile: A(0) = 0, A(i+1) = A(i) + Z(i). The fields a function
adds (or cuts) are explicit objects after those. Tiling afterwards: the first
added field is at A(n), each one starts where the previous one ends, and the
current size is the end of the last one.
"""
import z3
from pyvc.core import RT, LoopSpec, SInt, SBool, Sym, Opaque, mkint, mkbool, zint, zbool, iv, Unsupported, PathEnd, UNBOUND
from pyvc.contract import Unit, Lemma, expect
from contracts import lib
from contracts.lib import obj

PROP = 'C06'
GF = 'hachoir.field.generic_field_set:GenericFieldSet.'
BF = 'hachoir.field.basic_field_set:BasicFieldSet.'
HP = 'hachoir.field.helper:'
I = z3.IntSort()
A = z3.Function('field_address', I, I)
Z = z3.Function('field_size', I, I)


def d_tile(i):
    return [A(iv(0)) == 0, Z(i) >= 0, A(i) >= 0, z3.Implies(i >= 0, A(z3.simplify(i + 1)) == A(i) + Z(i))]


def tile(*ix):
    for i in ix:
        for f in d_tile(z3.simplify(i)):
            RT.fact(f)


class NameM(Sym):
    is_text = True

    def __init__(self, what='name', numbered=None):
        self.what, self.numbered = what, numbered

    def endswith(self, s):
        if s != '[]':
            raise Unsupported('endswith')
        return RT.choice([True, False], 'numbered name') if self.numbered is None else self.numbered

    def __add__(self, o):
        if o == '[]':
            return NameM('name', True)
        return Opaque('text')

    def __radd__(self, o):
        return Opaque('text')

    def __getitem__(self, k):
        return Opaque('text')

    def havoc_value(self):
        return NameM('name')


class TField(Sym):
    """a field of the set: at address a, of size z"""
    is_text = False

    def __init__(self, a, z, name=None, pos=None, isset=None):
        self.a0, self.z0, self.pos = a, z, pos
        self._address = mkint(a)
        self._size = mkint(z)
        self._name = name or NameM()
        self.is_field_set = RT.choice([True, False], 'is a field set') if isset is None else isset
        self.path = Opaque('path')

    address = property(lambda self: self._address)
    size = property(lambda self: self._size)
    name = property(lambda self: self._name)

    def __bool__(self):
        return True

    def havoc_value(self):
        return UNBOUND

    def snap_state(self):
        return (str(self._address.e if isinstance(self._address, SInt) else self._address), str(zint(self._size)))

    def snap_children(self):
        return []

    def _truncate(self, size):
        """contract (this property, for the child)"""
        RT.prove(self.is_field_set is True, '_truncate: of a field set')
        RT.prove(z3.And(zint(size) > 0, zint(size) < zint(self._size)), '_truncate: to a smaller, positive size')
        self._size = size

    def sym_isinstance(self, ts):
        from hachoir.field import Field
        return any(t is Field or t is object for t in ts)


class FieldD(Sym):
    """the ordered dictionary of fields (contract: C07)"""
    _pyvc_name = 'fields'

    def __init__(self, n):
        self.n, self.lits = n, []
        tile(n, n - 1)

    def snap_state(self):
        self.fold()
        return (str(self.n), tuple(map(id, self.lits)))

    def snap_children(self):
        return list(self.lits)

    def havoc(self):
        if self.lits:
            raise Unsupported('loop over added fields')
        k = RT.int('n').e
        RT.assume(k >= 0)
        self.n = k
        tile(k, k - 1)

    def fold(self):
        """forget a field which was only looked at"""
        if self.lits and self.lits[0].pos is not None:
            f = self.lits[0]
            if RT.entails(z3.And(zint(f._address) == f.a0, zint(f._size) == f.z0)):
                self.lits.pop(0)
                self.n = z3.simplify(f.pos + 1)

    def len_(self):
        return mkint(self.n + len(self.lits))

    def __len__(self):
        raise Unsupported('len')

    def __bool__(self):
        return RT.branch(self.n + len(self.lits) > 0)

    @property
    def values(self):
        return self

    def last(self, i, what):
        e = zint(i)
        if isinstance(i, int) and i == -1 or RT.entails(e == self.n + len(self.lits) - 1):
            if not self.lits:
                if not RT.branch(self.n > 0):
                    raise IndexError('list index out of range')
                self.n = z3.simplify(self.n - 1)
                tile(self.n, self.n - 1)
                self.lits.append(TField(A(self.n), Z(self.n), pos=self.n))
            return
        raise Unsupported(what + ' of another field than the last one')

    def __getitem__(self, i):
        if isinstance(i, NameM):
            for f in self.lits:
                if f._name is i:
                    return f
            raise Unsupported('lookup')
        self.last(i, 'lookup')
        return self.lits[-1]

    def __delitem__(self, i):
        self.last(i, 'deletion')
        self.lits.pop()

    def append(self, key, f):
        from hachoir.core.dict import UniqKeyError
        RT.prove(key is f._name, 'append: the key is the name of the field')
        g = RT.ghost
        if g.get('dups') and RT.choice([False, True], 'duplicate'):
            raise UniqKeyError('duplicate')
        self.lits.append(f)

    def tiles(self, cur, what):
        """obligations: the fields tile, and cur is their end"""
        self.fold()
        at = A(self.n)
        tile(self.n, self.n - 1)
        for f in self.lits:
            RT.prove(zint(f._address) == at, what + ': each field starts where the previous one ends')
            RT.prove(zint(f._size) >= 0, what + ': no negative size')
            at = z3.simplify(at + zint(f._size))
        RT.prove(zint(cur) == at, what + ': the current size is the end of the last field')
        RT.prove(self.n >= 0, what + ': fields')
        return at


def m_raw(parent, size, name='raw[]', description=None):
    """contract of createRawField/createPaddingField: a field of this size at the
    next address of the set"""
    from hachoir.field import FieldError
    RT.prove(parent is RT.ghost['self'], 'createRawField: in this set')
    RT.prove(zint(size) > 0, 'createRawField: positive size')
    return TField(zint(parent._current_size), zint(size), name=NameM(name, False), isset=False)


def m_unique(self, f):
    """contract of setUniqueFieldName: another name, the key followed by a number"""
    f._name = NameM('numbered', False)


class Par(Sym):
    """parent of the set"""

    def __bool__(self):
        return True


def fset(n, size, **kw):
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    fd = FieldD(n)
    s = obj(GenericFieldSet, _fields=fd, _size=size, _current_size=mkint(A(n)), _field_generator=Opaque('generator'), _name='n', _address=0,
            _field_array_count={}, **kw)
    s._GenericFieldSet__is_feeding = False
    g.update(self=s, fd=fd)
    return s, fd


# ----------------------------------------------------------------- _addField
class SizeError(Exception):
    pass


def newfield():
    from hachoir.field import Field
    g = RT.ghost

    class NewField(Field):
        _pyvc_name = 'new field'

        @property
        def size(self):
            if self.__dict__.get('_size') is None:
                if RT.choice(['known', 'error'], 'size') == 'error' and not g['stopped']:
                    g['error'] = SizeError('size')
                    raise g['error']
                z = RT.int('field_size')
                RT.assume(z.e >= 0)
                self._size = z
            return self._size

        path = property(lambda self: Opaque('path'))
        display = property(lambda self: Opaque('text'))

        @property
        def current_length(self):
            k = RT.int('child_fields')
            RT.assume(k.e >= 0)
            return k

        @property
        def eof(self):
            return RT.bool('eof')

        def _stopFeeding(self):
            RT.prove(self.is_field_set, '_stopFeeding: of a field set')
            g['stopped'] = True
            z = RT.int('field_size')
            RT.assume(z.e >= 0)
            self._size = z

        def _truncate(self, size):
            RT.prove(self.is_field_set, '_truncate: of a field set')
            RT.prove(z3.And(zint(size) > 0, zint(size) < zint(self._size)), '_truncate: to a smaller, positive size')
            self._size = size
        pos = None
    f = NewField.__new__(NewField)
    f._name, f._address, f._size, f._parent = NameM(), RT.int('wrong_address'), None, g['self']
    f.is_field_set = RT.choice([True, False], 'is a field set')
    RT.roots.append(f)
    return f


def c_checkSize(self, size, strict):
    """contract of _checkSize (below): room left after size bits; None when unknown"""
    g = RT.ghost
    RT.prove(self is g['self'] and strict is False, '_addField: asks for the room in this set')
    if g['limit'] is None:
        return None
    return mkint(g['limit'] - zint(size))


def b_add():
    from hachoir.field import GenericFieldSet, ParserError
    g = RT.ghost
    n = RT.input_int('n_fields', 0).e
    kind_size = RT.choice(['own', 'outer', 'unknown'], 'limit')
    lim = None if kind_size == 'unknown' else RT.input_int('limit').e
    s, fd = fset(n, mkint(lim) if kind_size == 'own' else None, root=Root())
    g['limit'], g['dups'], g['stopped'], g['error'] = lim, True, False, None
    cur0 = A(n)
    if kind_size == 'own':
        RT.assume(z3.And(lim > 0, cur0 <= lim))
    f = newfield() if RT.choice([True, False], 'a field') else NotAField()
    kind, r = expect(GF + '_addField', GenericFieldSet._addField, s, f)
    RT.cover(kind)
    fd.tiles(s._current_size, '_addField')
    RT.prove(s._GenericFieldSet__is_feeding is False, '_addField: the set can be fed again afterwards')
    added = len(fd.lits)
    stop = kind == 'exc' and type(r) is StopIteration
    if kind == 'exc' and not stop:
        RT.prove(type(r) is ParserError or r is g['error'], '_addField: a parser error, or the error of the field')
        RT.prove(added == 0, '_addField: a refused field is not added')
    if kind == 'ret':
        RT.prove(added == 1, '_addField: the field is added')
    if added:
        RT.prove(added == 1 and fd.lits[0] is f, '_addField: this field only is added')
        RT.prove(zint(f._address) == cur0, '_addField: the field starts at the end of the previous one')
        if lim is not None:
            RT.prove(zint(s._current_size) <= lim, '_addField: the field ends inside the set')
        if f.is_field_set:
            RT.prove(zint(f._size) > 0, '_addField: no empty field set')
    if s._size is not None:
        RT.prove(zint(s._size) >= zint(s._current_size), '_addField: the size covers the fields')
        if kind_size == 'own':
            RT.prove(zint(s._size) == lim, '_addField: a known size is kept')


class NotAField(Sym):
    pos = None
    path = name = _name = 'x'

    def snap_state(self):
        return ()

    def snap_children(self):
        return []


class Root(Sym):
    @property
    def autofix(self):
        if 'autofix' not in RT.ghost:
            RT.ghost['autofix'] = RT.choice([True, False], 'autofix')
        return RT.ghost['autofix']

    def __bool__(self):
        return True


# ----------------------------------------------------------------- _truncate
def b_trunc():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    n = RT.input_int('n_fields', 0).e
    size = RT.input_int('size', 1)
    known = RT.choice([True, False], 'size known')
    s, fd = fset(n, RT.input_int('old_size', 1) if known else None, root=Root())
    RT.assume(A(n) >= 0)
    if known:
        RT.assume(z3.And(zint(s._size) >= A(n), size.e < zint(s._size)))
    cut = RT.branch(size.e < A(n))
    gen = s._field_generator
    kind, r = expect(GF + '_truncate', GenericFieldSet._truncate, s, size)
    RT.prove(kind == 'ret', '_truncate: no error')
    RT.cover('cut' if cut else 'later')
    end = fd.tiles(s._current_size, '_truncate')
    RT.prove(zint(s._size) == size.e, '_truncate: the size asked for')
    if cut:
        RT.prove(end == size.e, '_truncate: the fields cover exactly the new size')
        RT.prove(s._field_generator is None, '_truncate: parsing is over')
    else:
        RT.prove(end == A(n), '_truncate: no field is changed')
        if s._field_generator is None:
            RT.prove(end == size.e, '_truncate: parsing is over only when the fields cover the size')
        else:
            RT.prove(s._field_generator is gen, '_truncate: parsing goes on')
            RT.prove(end != size.e, '_truncate: parsing is over when the fields cover the size')


def trunc_inv(L):
    fd = RT.ghost['fd']
    fd.fold()
    sz = zint(L.size)
    tile(fd.n, fd.n - 1)
    return [('fields left', z3.And(fd.n >= 1, sz <= A(fd.n))), ('no new field', z3.BoolVal(not fd.lits))]


# --------------------------------------------------------- end of parsing
def b_fixlast():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    n = RT.input_int('n_fields', 0).e
    size = RT.input_int('size', 0)
    s, fd = fset(n, size, root=Root())
    kind, r = expect(GF + '_fixLastField', GenericFieldSet._fixLastField, s)
    RT.prove(kind == 'ret', '_fixLastField: no error')
    RT.cover('end')
    end = fd.tiles(s._current_size, '_fixLastField')
    RT.prove(zint(s._size) == size.e, '_fixLastField: the size is kept')
    RT.prove(end == size.e, '_fixLastField: the fields cover exactly the size')
    RT.prove(s._field_generator is None, '_fixLastField: parsing is over')
    if fd.lits:
        RT.prove(r is fd.lits[-1] and len(fd.lits) == 1, '_fixLastField: returns the new field')
    else:
        RT.prove(r is None, '_fixLastField: no new field')
    RT.prove(z3.Implies(A(n) <= size.e, fd.n == n), '_fixLastField: no field is deleted unless they are too large')


def fixlast_inv(L):
    fd, s, g = RT.ghost['fd'], L.self, RT.ghost
    fd.fold()
    n0 = g.setdefault('n0', fd.n)
    tile(fd.n, fd.n - 1)
    return [('tiles', z3.And(zint(s._current_size) == A(fd.n), fd.n >= 0, z3.BoolVal(not fd.lits))),
            ('deletes only when too large', z3.Implies(A(n0) <= zint(s._size), fd.n == n0))]


def b_stop():
    from hachoir.field import GenericFieldSet, ParserError
    g = RT.ghost
    n = RT.input_int('n_fields', 0).e
    known, parent = RT.choice([True, False], 'size known'), RT.choice([True, False], 'has a parent')
    s, fd = fset(n, RT.input_int('size', 0) if known else None, root=Root(), _parent=Par() if parent else None)
    kind, r = expect(GF + '_stopFeeding', GenericFieldSet._stopFeeding, s)
    RT.cover('%s %s %s' % (kind, known, parent))
    end = fd.tiles(s._current_size, '_stopFeeding')
    if kind == 'exc':
        RT.prove(type(r) is ParserError, '_stopFeeding: a parser error')
        RT.prove(known, '_stopFeeding: refused only for a wrong size')
        RT.prove(end != zint(s._size), '_stopFeeding: refused only for a wrong size')
        return
    RT.prove(s._field_generator is None, '_stopFeeding: parsing is over')
    if known or parent:
        RT.prove(s._size is not None, '_stopFeeding: the size is known')
        RT.prove(zint(s._size) == end, '_stopFeeding: the fields cover exactly the size')
    RT.prove(r is None or r is fd.lits[-1], '_stopFeeding: returns the new field')
    RT.prove((r is None) == (not fd.lits), '_stopFeeding: returns the new field')


def b_feederr():
    from hachoir.field import GenericFieldSet
    n = RT.input_int('n_fields', 0).e
    known = RT.choice([True, False], 'size known')
    s, fd = fset(n, RT.input_int('size', 0) if known else None, root=Root())
    kind, r = expect(GF + '_fixFeedError', GenericFieldSet._fixFeedError, s, ValueError('broken'))
    RT.prove(kind == 'ret', '_fixFeedError: no error')
    end = fd.tiles(s._current_size, '_fixFeedError')
    RT.cover('end')
    if r is False:
        RT.prove(z3.And(fd.n == n, z3.BoolVal(not fd.lits)), '_fixFeedError: nothing is changed when it cannot be repaired')
    else:
        RT.prove(s._field_generator is None, '_fixFeedError: parsing is over')
        RT.prove(zint(s._size) == end, '_fixFeedError: the fields cover exactly the size')


# ---------------------------------------------------------------- room left
KN = z3.Function('size_known', I, z3.BoolSort())
SZ = z3.Function('size_of_ancestor', I, I)
AD = z3.Function('address_of_ancestor', I, I)
OFF = z3.Function('sum_of_addresses', I, I)


class OptInt(SInt):
    def __init__(self, e, k):
        SInt.__init__(self, e)
        self.k = k

    def same_as(self, o):
        if o is None:
            return mkbool(z3.Not(KN(self.k)))
        return mkbool(self.e == zint(o))


class Anc(Sym):
    """k-th ancestor (0: the set itself)"""

    def __init__(self, k):
        self.k = z3.simplify(k)
        for f in (OFF(iv(0)) == 0, OFF(z3.simplify(self.k + 1)) == OFF(self.k) + AD(self.k)):
            RT.fact(f)

    @property
    def _size(self):
        g = RT.ghost
        if RT.entails(self.k == g['depth'] - 1) and g['asked']:
            return mkint(g['found'])
        return OptInt(SZ(self.k), self.k)

    _address = property(lambda self: mkint(AD(self.k)))

    @property
    def _parent(self):
        return Anc(self.k + 1) if RT.branch(self.k + 1 < RT.ghost['depth']) else None

    def same_as(self, o):
        if isinstance(o, Anc):
            return mkbool(self.k == o.k)
        return False

    def __bool__(self):
        return True

    def snap_state(self):
        return ()

    def snap_children(self):
        return []

    def havoc_value(self):
        k = RT.int('ancestor')
        RT.assume(z3.And(k.e >= 0, k.e < RT.ghost['depth']))
        return Anc(k.e)


class St(Sym):
    """the stream of the set"""
    size = None

    def sizeGe(self, n):
        g = RT.ghost
        RT.prove(not g['asked'], 'sizeGe once')
        g['asked'] = True
        g['arg'] = zint(n)
        if RT.choice([True, False], 'enough data'):
            g['enough'] = True
            return True
        # the end of the stream was met: the size of the root is set
        g['enough'] = False
        g['found'] = RT.int('stream_size').e
        RT.assume(z3.And(g['found'] >= 0, g['found'] < g['arg']))
        return False


def b_room():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    d = g['depth'] = RT.input_int('depth', 1).e
    g['asked'], g['enough'] = False, None
    s = Anc(iv(0))
    s.stream = St()
    size, strict = RT.input_int('size'), RT.choice([True, False], 'strict')
    kind, r = expect(GF + '_checkSize', GenericFieldSet._checkSize, s, size, strict)
    RT.prove(kind == 'ret', '_checkSize: no error')
    k = g['level']
    RT.cover('end')
    # ancestors 0 .. k-1 have no size of their own; k is the first one, or the root
    if g['asked']:
        RT.prove(strict, '_checkSize: reads the stream only when asked to')
        RT.prove(z3.And(z3.Not(KN(k)), k == d - 1, g['arg'] == size.e + OFF(k)), '_checkSize: asks the stream for the end of the range')
        if g['enough']:
            RT.prove(zint(r) == 0, '_checkSize: enough data')
        else:
            RT.prove(zint(r) == g['found'] - (size.e + OFF(k)), '_checkSize: the room left in the stream')
    elif r is None:
        RT.prove(z3.And(z3.Not(KN(k)), k == d - 1), '_checkSize: unknown only when no ancestor has a size')
    else:
        RT.prove(KN(k), '_checkSize: the first ancestor with a size')
        RT.prove(zint(r) == SZ(k) - (size.e + OFF(k)), '_checkSize: the room left in the first ancestor with a size')


def room_inv(L):
    g = RT.ghost
    f = [v for nm, v in L._d.items() if isinstance(v, Anc) and nm != 'self']
    if len(f) != 1:
        raise Unsupported('_checkSize: another loop')
    k = g['level'] = f[0].k
    j = g.setdefault('any_level', RT.int('any_level').e)
    return [('ancestor', z3.And(k >= 0, k < g['depth'])), ('range in the ancestor', zint(L.size) == zint(L._old.size) + OFF(k)),
            ('ancestors without a size', z3.Implies(z3.And(0 <= j, j < k), z3.Not(KN(j))))]


# ------------------------------------------------------------- parsing everything
class GenF(Sym):
    """an arbitrary parser"""
    gi_running = False

    def __next__(self):
        from hachoir.field import ParserError
        g = RT.ghost
        w = RT.choice(['field', 'stop', 'error'], 'next')
        if w == 'field':
            return Fresh()
        if w == 'stop':
            raise StopIteration()
        g['err'] = ParserError('broken')
        raise g['err']

    def __iter__(self):
        return self

    def __bool__(self):
        return True


class Fresh(Sym):
    is_field_set = False

    def havoc_value(self):
        return UNBOUND


class Count(Sym):
    """the fields, for the iteration: how many"""
    _pyvc_name = 'fields'

    def __init__(self, n):
        self.n = n

    def snap_state(self):
        return str(self.n)

    def snap_children(self):
        return []

    def havoc(self):
        n = RT.int('n').e
        RT.assume(n >= 0)
        self.n = n

    def len_(self):
        return mkint(self.n)

    def __len__(self):
        raise Unsupported('len')

    @property
    def values(self):
        return ValuesOf(self.n, iv(0))


class ValuesOf(Sym):
    def __init__(self, n, lo):
        self.n, self.lo = n, lo

    def len_(self):
        return mkint(z3.If(self.n > self.lo, self.n - self.lo, 0))

    def sym_item(self, i):
        return Pos(z3.simplify(self.lo + zint(i)))

    def __getitem__(self, s):
        if isinstance(s, slice) and s.stop is None and s.step is None:
            lo = zint(s.start)
            RT.prove(z3.And(lo >= 0, lo <= self.n), 'the fields not given yet')
            return ValuesOf(self.n, lo)
        i = zint(s)
        if not RT.branch(z3.And(i >= 0, i < self.n)):
            raise IndexError('list index out of range')
        return Pos(i)


class Pos(Sym):
    def __init__(self, i):
        self.i = i

    def havoc_value(self):
        return UNBOUND


class Given:
    _pyvc_track = True
    _pyvc_name = 'fields given'

    def __init__(self):
        self.k = mkint(iv(0))


def p_add(self, f):
    """contract of _addField"""
    g = RT.ghost
    RT.prove(isinstance(f, Fresh), '_addField: a field of the parser')
    w = RT.choice(['add', 'add and stop', 'stop', 'error'], 'add')
    if w in ('add', 'add and stop'):
        g['fd'].n = z3.simplify(g['fd'].n + 1)
    if w in ('stop', 'add and stop'):
        raise StopIteration()
    if w == 'error':
        g['err'] = SizeError('size')
        raise g['err']


class NewList(Sym):
    def __init__(self, n):
        self.n = n

    def len_(self):
        return mkint(self.n)

    def sym_item(self, i):
        return Pos(z3.simplify(self.base + zint(i)))

    def sym_isinstance(self, ts):
        return False


class NewOne(Sym):
    def __init__(self, i):
        self.i = i

    def sym_isinstance(self, ts):
        from hachoir.field import Field
        return any(t is Field for t in ts)


def added_fields(self):
    """fields added at the end of parsing: none, one, or a list (seekable sets)"""
    g = RT.ghost
    w = RT.choice(['none', 'one', 'list'], 'new fields')
    self._field_generator = None
    n = g['fd'].n
    if w == 'none':
        return None
    if w == 'one':
        g['fd'].n = z3.simplify(n + 1)
        return NewOne(n)
    k = RT.int('n_new').e
    RT.assume(k >= 0)
    g['fd'].n = z3.simplify(n + k)
    l = NewList(k)
    l.base = n
    return l


def p_stop(self):
    g = RT.ghost
    g['stops'] += 1
    if RT.choice([False, True], 'refused'):
        from hachoir.field import ParserError
        g['err'] = ParserError('size')
        g['refused'] = True
        raise g['err']
    return added_fields(self)


def p_fix(self, e):
    g = RT.ghost
    RT.prove(e is g['err'] or g.get('refused') is True, 'the error is handled')
    if RT.choice([False, True], 'repaired'):
        g['repaired'] = True
        return added_fields(self)
    g['repaired'] = False
    return False


def fresh_set():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    fd = Count(RT.input_int('n_fields', 0).e)
    over = RT.choice([False, True], 'parsing is over')
    s = obj(GenericFieldSet, _fields=fd, _field_generator=None if over else GenF(), _name='n', _size=None, _address=0)
    s._GenericFieldSet__is_feeding = False
    g.update(self=s, fd=fd, err=None, repaired=None, stops=0)
    return s, fd, over


def b_iter():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    s, fd, over = fresh_set()
    giv = g['giv'] = Given()
    RT.roots.append(giv)
    kind, gen = expect(GF + '__iter__', GenericFieldSet.__iter__, s)
    RT.prove(kind == 'ret', '__iter__: no error')
    it = iter(gen)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        except Exception as e:
            RT.prove(e is g['err'], '__iter__: the error of the parser')
            RT.prove(g['repaired'] is False or g.get('refused'), '__iter__: an error which could not be repaired')
            return
        RT.cover('field')
        RT.prove(isinstance(v, (Pos, NewOne)), '__iter__: yields fields')
        RT.prove(z3.And(v.i == zint(giv.k), v.i < fd.n), '__iter__: every field once, in order')
        giv.k = mkint(zint(giv.k) + 1)
        if s._field_generator is not None and g['repaired'] is None and g['stops'] == 0:
            # the consumer may have more fields read in the meantime
            n = RT.int('n_more').e
            RT.assume(n >= fd.n)
            fd.n = n
    RT.cover('end')
    RT.prove(zint(giv.k) == fd.n, '__iter__: no field is left out')
    RT.prove(s._field_generator is None, '__iter__: ends with the parsing')


def iter_inv0(L):
    g = RT.ghost
    return [('given so far', z3.And(zint(L.done) == zint(g['giv'].k), zint(L.done) <= g['fd'].n, zint(L.done) >= 0))]


def iter_inv1(L):
    g = RT.ghost
    it = L._it
    return [('given so far', z3.And(zint(L.done) == zint(g['giv'].k), zint(L.done) == it.lo + zint(L._idx), it.n <= g['fd'].n, it.lo >= 0))]


def iter_inv2(L):
    g = RT.ghost
    it = L._it
    return [('given so far', z3.And(zint(g['giv'].k) == it.lo + zint(L._idx), it.n == g['fd'].n, it.lo >= 0)),
            ('over', z3.BoolVal(L.self._field_generator is None))]


def b_feedall():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    s, fd, over = fresh_set()
    n0 = g['n0'] = fd.n
    kind, r = expect(GF + '_feedAll', GenericFieldSet._feedAll, s)
    RT.cover(kind)
    if kind == 'exc':
        RT.prove(r is g['err'] and (g['repaired'] is False or g.get('refused') is True), '_feedAll: only an error which could not be repaired')
        return
    RT.prove(s._field_generator is None, '_feedAll: parsing is over')
    RT.prove(fd.n >= n0, '_feedAll: keeps the fields')


def feedall_inv(L):
    g = RT.ghost
    return [('parsing', z3.And(g['fd'].n >= g['n0'], z3.BoolVal(g['stops'] == 0)))]


def b_more():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    s, fd, over = fresh_set()
    n0 = g['n0'] = fd.n
    k = RT.input_int('number', 0)
    kind, r = expect(GF + 'readMoreFields', GenericFieldSet.readMoreFields, s, k)
    RT.cover(kind)
    if kind == 'exc':
        RT.prove(r is g['err'] and (g['repaired'] is False or g.get('refused') is True), 'readMoreFields: only an error which could not be repaired')
        return
    RT.prove(zint(r) == fd.n - n0, 'readMoreFields: the number of new fields')
    if s._field_generator is not None:
        RT.prove(zint(r) == k.e, 'readMoreFields: as many fields as asked for, unless parsing is over')


def more_inv(L):
    g = RT.ghost
    return [('one field each', z3.And(g['fd'].n == g['n0'] + zint(L._idx), z3.BoolVal(g['stops'] == 0)))]


# ------------------------------------------------------------------ replacing
NZ = z3.Function('new_size', I, I)
NS = z3.Function('sum_of_new_sizes', I, I)
INUSE = z3.Function('new_name_in_use', I, z3.BoolSort())     # by another field than the replaced one
SAME = z3.Function('new_name_is_the_old_name', I, z3.BoolSort())
DUP = z3.Function('new_name_given_before', I, z3.BoolSort())


def d_ns(j):
    return [NS(iv(0)) == 0, NZ(j) >= 0, z3.Implies(j >= 0, NS(z3.simplify(j + 1)) == NS(j) + NZ(j))]


def sums(*js):
    for j in js:
        for f in d_ns(z3.simplify(j)):
            RT.fact(f)


class NF(Sym):
    """j-th new field"""
    is_field_set = False

    def __init__(self, j):
        self.__dict__.update(j=z3.simplify(j), _size=mkint(NZ(j)), _name=NName(self, True), moved=False)
        sums(j, j - 1)

    size = property(lambda self: self._size)
    name = property(lambda self: self._name)

    @property
    def address(self):
        if not self.moved:
            RT.prove(self.j < RT.ghost['placed'].k.e if isinstance(RT.ghost['placed'].k, SInt) else self.j < RT.ghost['placed'].k,
                     'the address of a new field is read after it was set')
        return mkint(RT.ghost['at'] + NS(self.j))

    _address = address

    def __setattr__(self, n, v):
        if n in ('_address', 'address'):
            RT.prove(zint(v) == RT.ghost['at'] + NS(self.j), 'each new field starts where the previous one ends')
            self.__dict__['moved'] = True
            return
        self.__dict__[n] = v

    def havoc_value(self):
        return UNBOUND

    def __bool__(self):
        return True

    def snap_state(self):
        return ()

    def snap_children(self):
        return []


class NName(Sym):
    is_text = True

    def __init__(self, f, raw=False):
        self.f, self.raw = f, raw

    def endswith(self, s):
        return RT.choice([True, False], 'numbered name') if self.raw else False

    def same_as(self, o):
        return o is self

    def __eq__(self, o):
        if o is RT.ghost['name']:
            # INUSE: the name is the one of another field than the replaced one
            RT.fact(z3.Not(z3.And(SAME(self.f.j), INUSE(self.f.j))))
            return mkbool(SAME(self.f.j))
        raise Unsupported('name comparison')

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self == o)))
    __hash__ = None


class OldName(Sym):
    is_text = True

    def __eq__(self, o):
        if isinstance(o, NName):
            return o == self
        return o is self

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self == o)))
    __hash__ = None


class NameSet(Sym):
    """set of the names of the new fields checked so far"""
    _pyvc_name = 'names'

    def snap_state(self):
        return ()

    def snap_children(self):
        return []

    def sym_contains(self, nm):
        return mkbool(DUP(nm.f.j))

    def add(self, nm):
        pass


class NewFields(Sym):
    def __init__(self, m, lo=None):
        self.m, self.lo = m, lo if lo is not None else iv(0)

    def len_(self):
        return mkint(self.m - self.lo)

    def sym_item(self, i):
        return NF(z3.simplify(self.lo + zint(i)))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step is None and i.stop is None:
            return NewFields(self.m, z3.simplify(self.lo + zint(i.start or 0)))
        e = zint(i)
        RT.prove(z3.And(e >= 0, e < self.m - self.lo), 'a new field')
        return NF(z3.simplify(self.lo + e))

    def __bool__(self):
        return RT.branch(self.m - self.lo > 0)

    def sym_list(self):
        return self


class Placed:
    _pyvc_track = True
    _pyvc_name = 'placed'

    def __init__(self):
        self.k = mkint(iv(0))


class RDict(Sym):
    """the ordered dictionary (contract: C07), for the replacement of the field at position p"""

    def sym_contains(self, nm):
        g = RT.ghost
        if nm is g['name']:
            g['exists'] = RT.choice([True, False], 'name exists')
            return g['exists']
        # the old field is still there
        return mkbool(z3.Or(SAME(nm.f.j), INUSE(nm.f.j)))

    def __getitem__(self, nm):
        RT.prove(nm is RT.ghost['name'], 'the replaced field')
        return RT.ghost['old']

    def ok(self, f, key):
        g = RT.ghost
        RT.prove(isinstance(f, NF) and isinstance(key, NName) and key is f._name, 'a new field is stored under its name')
        j = f.j
        RT.prove(f.moved, 'a new field gets its address')
        # the check of the names was proved for an arbitrary new field
        RT.prove(z3.Implies(g['j0'] == j, z3.Not(z3.Or(INUSE(j), DUP(j)))), 'the names of the new fields are free')
        RT.fact(z3.Not(z3.Or(INUSE(j), DUP(j))))
        return j

    def replace(self, old, key, f):
        g = RT.ghost
        RT.prove(old is g['name'], 'the field is replaced')
        j = self.ok(f, key)
        RT.prove(z3.And(j == 0, zint(g['placed'].k) == 0), 'the first new field takes the place of the old one')
        g['placed'].k = mkint(zint(g['placed'].k) + 1)

    def index(self, nm):
        g = RT.ghost
        if nm is g['name'] and zint(g['placed'].k) is not None and RT.entails(zint(g['placed'].k) == 0):
            return mkint(g['p'])
        RT.prove(z3.And(zint(nm.f.j) < zint(g['placed'].k)), 'position of a field of the set')
        return mkint(g['p'] + nm.f.j)

    def insert(self, i, key, f):
        g = RT.ghost
        j = self.ok(f, key)
        RT.prove(z3.And(j == zint(g['placed'].k), zint(i) == g['p'] + j), 'the new fields follow each other')
        g['placed'].k = mkint(zint(g['placed'].k) + 1)

    def snap_state(self):
        return ()

    def snap_children(self):
        return []


class SumOf(Sym):
    pass


class MappedNew(Sym):
    def __init__(self, l, f):
        self.l, self.f = l, f

    def sym_item(self, i):
        return self.elem(zint(i))

    def elem(self, i):
        return list(self.f([NF(z3.simplify(self.l.lo + i))]))[0]


def c_mapnew(it, f, kind):
    if isinstance(it, NewFields):
        return MappedNew(it, f)
    return NotImplemented


def m_sumnew(it, start=0):
    if isinstance(it, MappedNew) and z3.eq(it.l.lo, iv(0)):
        i = RT.int('any_new').e
        v = it.elem(i)
        RT.prove(zint(v) == NZ(i), 'the sum of the sizes of the new fields')
        return mkint(zint(start) + NS(it.l.m))
    raise Unsupported('sum')


def m_newset():
    return NameSet()


def u_rename(self, f):
    f._name = NName(f)


l_ns = Lemma('C06:sums increase', 2, lambda i, d: NS(i) <= NS(z3.simplify(i + d)), pre=lambda i, d: i >= 0, induct=1,
             uses=lambda i, d, step=False: d_ns(z3.simplify(i + d)) if step else [])


def b_replace():
    from hachoir.field import GenericFieldSet, ParserError
    g = RT.ghost
    m = g['m'] = RT.input_int('n_new', 1).e
    g['p'], g['at'] = RT.input_int('position', 0).e, RT.input_int('address', 0).e
    z = RT.input_int('size', 0).e
    g['j0'] = RT.int('any_new').e
    g['placed'] = Placed()
    RT.roots.append(g['placed'])
    nm = g['name'] = OldName()
    g['old'] = TField(g['at'], z, name=nm, isset=False)
    s = obj(GenericFieldSet, _fields=RDict(), _size=None, _name='n', _address=0)
    kind, r = expect(GF + 'replaceField', GenericFieldSet.replaceField, s, nm, NewFields(m))
    RT.cover(kind)
    if kind == 'exc':
        RT.prove(type(r) is ParserError, 'replaceField: refused with a parser error')
        RT.prove(zint(g['placed'].k) == 0, 'replaceField: a refused replacement changes nothing')
        return
    RT.prove(zint(g['placed'].k) == m, 'replaceField: every new field is placed')
    RT.prove(NS(m) == z, 'replaceField: the new fields cover exactly the old one')


def rep_names_inv(L):
    g = RT.ghost
    i, j0 = zint(L._idx), g['j0']
    it = L._it
    if z3.is_int_value(it.lo) and it.lo.as_long() == 0 and RT.entails(zint(g['placed'].k) == 0):
        return [('names checked', z3.Implies(z3.And(0 <= j0, j0 < i), z3.Not(z3.Or(INUSE(j0), DUP(j0))))),
                ('nothing placed', zint(g['placed'].k) == 0)]
    return rep_place_inv(L)


def rep_place_inv(L):
    g = RT.ghost
    i = z3.simplify(L._it.lo + zint(L._idx))
    sums(i, i - 1)
    return [('placed in order', z3.And(zint(g['placed'].k) == i, zint(L.index) == g['p'] + i, zint(L.address) == g['at'] + NS(i)))]


class Written(Sym):
    """list of fields which replaces one"""
    _pyvc_name = 'replace'

    def __init__(self):
        self.end = None
        self.n = iv(0)

    def snap_state(self):
        return (str(self.end), str(self.n))

    def snap_children(self):
        return []

    def havoc(self):
        self.end, self.n = RT.int('end').e, RT.int('n').e

    def now(self):
        return RT.ghost['old'].a0 if self.end is None else self.end

    def append(self, f):
        if isinstance(f, NF):
            RT.prove(f.moved, 'a written field gets its address')
            RT.prove(f.j == RT.ghost['next'].k.e if isinstance(RT.ghost['next'].k, SInt) else f.j == RT.ghost['next'].k, 'the written fields in order')
            a = RT.ghost['at'] + NS(f.j)
            RT.ghost['next'].k = mkint(zint(RT.ghost['next'].k) + 1)
        else:
            a = zint(f._address)
        RT.prove(a == self.now(), 'writeFieldsIn: each field starts where the previous one ends')
        self.end = z3.simplify(a + zint(f.size))
        self.n = z3.simplify(self.n + 1)


def c_replaceField(self, name, l):
    g = RT.ghost
    o = g['old']
    RT.prove(name is o._name, 'writeFieldsIn: the field is replaced')
    RT.prove(isinstance(l, Written), 'writeFieldsIn: by the list of fields')
    RT.prove(l.now() == o.a0 + o.z0, 'writeFieldsIn: the fields cover exactly the old one')
    RT.prove(zint(g['next'].k) == g['m'], 'writeFieldsIn: every field is written')
    g['done'] = True


def b_write():
    from hachoir.field import GenericFieldSet, ParserError
    g = RT.ghost
    m = g['m'] = RT.input_int('n_new', 0).e
    oa, oz = RT.input_int('old_address', 0).e, RT.input_int('old_size', 0).e
    g['at'] = RT.input_int('address', 0).e
    g['done'] = False
    g['next'] = Placed()
    g['placed'] = g['next']
    RT.roots.append(g['next'])
    g['name'] = OldName()
    g['old'] = TField(oa, oz, name=g['name'], isset=False)
    s = obj(GenericFieldSet, _fields=RDict(), _size=None, _name='n', _address=0, _current_size=RT.input_int('current_size', 0))
    g['self'] = s
    # the range written lies inside the old field
    RT.assume(z3.And(g['at'] >= oa))
    fits = z3.And(g['at'] + NS(m) <= oa + oz)
    kind, r = expect(GF + 'writeFieldsIn', GenericFieldSet.writeFieldsIn, s, g['old'], mkint(g['at']), NewFields(m))
    RT.cover(kind)
    if kind == 'exc':
        RT.prove(z3.Not(fits), 'writeFieldsIn: refused only when the fields do not fit')
        RT.prove(not g['done'], 'writeFieldsIn: nothing is changed when refused')
        return
    RT.prove(g['done'], 'writeFieldsIn: the field is replaced')


def write_inv(L):
    g = RT.ghost
    i = zint(L._idx)
    sums(i, i - 1)
    l = L._d.get('replace') or [v for v in L._d.values() if isinstance(v, Written)][0]
    return [('address', zint(L.address) == g['at'] + NS(i)), ('covered so far', l.now() == g['at'] + NS(i)), ('written', zint(g['next'].k) == i)]


FF = 'hachoir.field.field:Field.'


def c_lookup(self, name):
    g = RT.ghost
    RT.prove(name is g['name'] and g['exists'] is True, 'lookup of the replaced field')
    return g['old']


CALLS = dict(lib.LOG_CALLS, **{FF + 'path': lambda self: Opaque('path')})
OPS = dict(CALLS, **{HP + 'createRawField': m_raw, HP + 'createPaddingField': m_raw, BF + 'setUniqueFieldName': m_unique,
                     BF + 'raiseEvent': lambda self, *a: None, 'hachoir.core.tools:makeUnicode': lambda t: Opaque('text')})
ADD = dict(OPS, **{GF + '_checkSize': c_checkSize})
FIXL = {GF + '_fixLastField#0': LoopSpec(fixlast_inv, lambda L: RT.ghost['fd'].n)}
MSG = {GF + '_fixLastField:text': lib.TextList}
PARSE = dict(OPS, **{GF + '_addField': p_add, GF + '_stopFeeding': p_stop, GF + '_fixFeedError': p_fix})
ANYINV = LoopSpec(lambda L: [('not added yet', z3.BoolVal(not RT.ghost['fd'].lits))], None)
UNITS = [
    Unit('adding a field', [GF + '_addField', GF + '_fixFieldSize'], b_add, calls=ADD, loops={GF + '_addField#0': ANYINV}),
    Unit('truncation', [GF + '_truncate'], b_trunc, calls=OPS, loops={GF + '_truncate#0': LoopSpec(trunc_inv, lambda L: RT.ghost['fd'].n)}),
    Unit('repair at the end', [GF + '_fixLastField', GF + '_deleteField'], b_fixlast, calls=OPS, loops=FIXL, symlists=MSG),
    Unit('end of parsing', [GF + '_stopFeeding'], b_stop, calls=OPS, loops=FIXL, symlists=MSG),
    Unit('parsing error', [GF + '_fixFeedError'], b_feederr, calls=OPS, loops=FIXL, symlists=MSG),
    Unit('room left', [GF + '_checkSize'], b_room, calls=CALLS,
         loops={GF + '_checkSize#0': LoopSpec(room_inv, lambda L: RT.ghost['depth'] - RT.ghost['level'],
                                              havoc=lambda L: {nm: v.havoc_value() for nm, v in L._d.items() if isinstance(v, Anc) and nm != 'self'})}),
    Unit('parsing everything', [GF + '_feedAll'], b_feedall, calls=PARSE, loops={GF + '_feedAll#0': LoopSpec(feedall_inv, None)}),
    Unit('parsing more', [GF + 'readMoreFields'], b_more, calls=PARSE, loops={GF + 'readMoreFields#0': LoopSpec(more_inv, None)}),
    Unit('iteration', [GF + '__iter__'], b_iter, calls=PARSE,
         loops={GF + '__iter__#0': LoopSpec(iter_inv0, None), GF + '__iter__#1': LoopSpec(iter_inv1, None), GF + '__iter__#2': LoopSpec(iter_inv2, None)}),
    Unit('replacing a field', [GF + 'replaceField'], b_replace, calls=dict(OPS, **{BF + 'setUniqueFieldName': u_rename, FF + '__getitem__': c_lookup}),
         loops={GF + 'replaceField#0': LoopSpec(rep_names_inv, None), GF + 'replaceField#1': LoopSpec(rep_place_inv, None)},
         comps={GF + 'replaceField@%d' % i: c_mapnew for i in range(3)}, models={'sum': m_sumnew, 'newset': m_newset}),
    Unit('writing fields in a field', [GF + 'writeFieldsIn'], b_write, calls=dict(OPS, **{GF + 'replaceField': c_replaceField}),
         loops={GF + 'writeFieldsIn#0': LoopSpec(write_inv, None)}, symlists={GF + 'writeFieldsIn': Written},
         comps={GF + 'writeFieldsIn@%d' % i: c_mapnew for i in range(3)}, models={'sum': m_sumnew}),
]
from contracts import c06b
UNITS += c06b.UNITS
BOUNDED = []
