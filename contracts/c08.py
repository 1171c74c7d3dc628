"""C08: addresses and paths of fields identify them; lookups.

A chain of ancestors of any depth: node 0 is the field, node n-1 the root
(parent None, "node n"). ADR(k), the relative address, and the name of node k
are arbitrary. Results of lookups are nodes of an arbitrary tree, given by
numbers: -1 is None.
"""
import z3
from pyvc.core import RT, LoopSpec, SInt, SBool, Sym, Opaque, SList, Seq, mkint, mkbool, zint, zbool, iv, Unsupported, PathEnd, UNBOUND
from pyvc.contract import Unit, Lemma, expect, run_target
from contracts import lib
from contracts.lib import obj

PROP = 'C08'
FF = 'hachoir.field.field:Field.'
GF = 'hachoir.field.generic_field_set:GenericFieldSet.'
FA = 'hachoir.field.fake_array:FakeArray.'
I = z3.IntSort()
ADR = z3.Function('relative_address', I, I)
SUM = z3.Function('sum_of_addresses', I, I)     # of the nodes 0 .. k-1


def d_sum(k):
    return [SUM(iv(0)) == 0, z3.Implies(k >= 0, SUM(z3.simplify(k + 1)) == SUM(k) + ADR(k))]


class Name(Sym):
    """the name of node k; -1: the empty text"""
    is_text = True

    def __init__(self, k):
        self.k = k


class Node(Sym):
    """the k-th ancestor; None when k = depth"""
    _pyvc_name = 'node'
    is_field_set = True

    def __init__(self, k):
        self.__dict__['k'] = z3.simplify(zint(k))

    def same_as(self, o):
        d = RT.ghost['depth']
        if o is None:
            return mkbool(self.k >= d)
        if isinstance(o, Node):
            return mkbool(z3.Or(self.k == o.k, z3.And(self.k >= d, o.k >= d)))
        if o is RT.ghost['self']:
            return mkbool(self.k == 0)
        return False

    def __eq__(self, o):
        return self.same_as(o)

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self.same_as(o))))
    __hash__ = None

    def __bool__(self):
        return RT.branch(self.k < RT.ghost['depth'])

    def snap_state(self):
        return ()

    def snap_children(self):
        return []

    def havoc_value(self):
        return any_node()

    def there(self, n):
        if not RT.branch(self.k < RT.ghost['depth']):
            raise AttributeError("'NoneType' object has no attribute %r" % n)

    def __getattr__(self, n):
        if n in ('_address', 'address'):
            self.there(n)
            for f in d_sum(self.k):
                RT.fact(f)
            a = zint(RT.ghost['self']._address)
            return mkint(z3.If(self.k == 0, a, ADR(self.k)))
        if n in ('_parent', 'parent'):
            self.there(n)
            return Node(self.k + 1)
        if n in ('_name', 'name'):
            self.there(n)
            return Name(z3.If(self.k == 0, RT.ghost.get('first', iv(0)), self.k))
        if n == 'root':
            self.there(n)
            return Node(RT.ghost['depth'] - 1)
        if n.startswith('__') or n in ('sym_item', 'len_', 'sym_contains', 'sym_list', '_pyvc_track', '_pyvc_havoc', 'in_str',
                                       'sym_isinstance', 'havoc'):
            raise AttributeError(n)
        from hachoir.field import Field
        v = getattr(Field, n)
        self.there(n)
        if isinstance(v, property):
            return v.fget(self)
        return v.__get__(self) if hasattr(v, '__get__') else v


def any_node():
    k = RT.int('node')
    RT.assume(k.e >= 0)
    return Node(k)


def ix(o):
    """index of a node-like value"""
    if o is None:
        return RT.ghost['depth']
    if isinstance(o, Node):
        return o.k
    if o is RT.ghost['self']:
        return iv(0)
    raise Unsupported('not a node')


def chain(cls=None, **kw):
    from hachoir.field import Field
    n = RT.input_int('depth', 1).e
    RT.ghost['depth'] = n
    s = obj(cls or Field, _address=mkint(ADR(iv(0))), _name=Name(iv(0)), _size=None, **kw)
    RT.ghost['self'] = s
    if RT.branch(n == 1):
        s._parent = None
    else:
        s._parent = Node(1)
    for f in d_sum(iv(0)):
        RT.fact(f)
    return s, n


def nodes_in(L, also=()):
    return [nm for nm, v in L._d.items() if isinstance(v, Node)]


def walk_havoc(L):
    s = RT.ghost['self']
    return {nm: any_node() for nm, v in L._d.items() if nm != 'self' and (isinstance(v, Node) or v is s or v is None)}


def b_abs():
    from hachoir.field import Field
    s, n = chain()
    if RT.choice([True, False], 'read before'):
        # reading it while the field had another address changes nothing
        s._address = RT.int('address_before')
        run_target(FF + 'absolute_address', Field.absolute_address.fget, s)
        s._address = mkint(ADR(iv(0)))
    kind, r = expect(FF + 'absolute_address', Field.absolute_address.fget, s)
    RT.cover('end')
    RT.prove(kind == 'ret', 'absolute_address: no error')
    RT.prove(zint(r) == SUM(n), 'absolute_address: the sum of the relative addresses up to the root')


def abs_inv(L):
    ns = [v for nm, v in L._d.items() if isinstance(v, Node) or v is RT.ghost['self'] and nm != 'self' or nm == 'current' and v is None]
    ints = [v for v in L._d.values() if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
    if len(ns) != 1 or len(ints) != 1:
        raise Unsupported('absolute_address: another loop')
    k = ix(ns[0])
    for f in d_sum(k):
        RT.fact(f)
    return [('node', z3.And(k >= 0, k <= RT.ghost['depth'])), ('sum so far', zint(ints[0]) == z3.If(k >= 1, SUM(k) - ADR(iv(0)) + zint(RT.ghost['self']._address), 0))]


# ------------------------------------------------------------------ path
class PathText(Sym):
    """sep.join(parts)"""
    is_text = True

    def __init__(self, q):
        self.q = q

    def __radd__(self, o):
        if o == '/':
            return PathText(Seq([('lit', (iv(-1),))], w_name, u_name).cat(self.q))
        raise Unsupported('text + path')


def w_name(t):
    return Name(t)


def u_name(v):
    if isinstance(v, Name):
        return v.k
    if v == '':
        return iv(-1)
    raise Unsupported('another text in the path')


def names_list():
    l = SList(Seq([], w_name, u_name), w_name, u_name)
    l._pyvc_name = 'names'
    return l


class RevNames(Sym):
    def __init__(self, l):
        self.q = l.q


def m_join(sep, l):
    if sep != '/':
        raise Unsupported('join with another separator')
    from pyvc.hooks import SRev
    if isinstance(l, SRev):
        return PathText(RevNames(l.x))
    if not isinstance(l, Sym):
        return PathText(Seq([('lit', tuple(u_name(x) for x in l))], w_name, u_name))
    if isinstance(l, SList):
        return PathText(l.q)
    raise Unsupported('join')


def path_inv(L):
    ns = [v for nm, v in L._d.items() if nm != 'self' and (isinstance(v, Node) or v is RT.ghost['self'])]
    ls = [v for v in L._d.values() if isinstance(v, SList)]
    if len(ns) != 1 or len(ls) != 1:
        raise Unsupported('path: another loop')
    k, q = ix(ns[0]), ls[0].q
    j = RT.ghost.setdefault('any_j', z3.Int('any_component'))
    n = RT.ghost['depth']
    out = [('node', z3.And(k >= 0, k <= n)), ('one name for each node', q.length() == k)]
    if q.segs:
        t = q.term(j)
        if t is not None:
            out.append(('names', z3.Implies(z3.And(0 <= j, j < k), t == z3.If(j == 0, RT.ghost['first'], j))))
    return out


def b_path():
    """an arbitrary component is fixed beforehand"""
    from hachoir.field import Field
    s, n = chain()
    j = RT.ghost['any_j'] = RT.input_int('component', 0).e
    if RT.choice([True, False], 'read before'):
        # reading it while the field had another name changes nothing
        s._name = Name(iv(-2))
        RT.ghost['first'] = iv(-2)
        run_target(FF + 'path', Field.path.fget, s)
        s._name = Name(iv(0))
    RT.ghost['first'] = iv(0)
    kind, r = expect(FF + 'path', Field.path.fget, s)
    RT.cover('end')
    RT.prove(kind == 'ret', 'path: no error')
    if isinstance(r, str):
        RT.prove(z3.And(n == 1, z3.BoolVal(r == '/')), 'path: / for the root only')
        return
    RT.prove(n > 1, 'path: the root is /')
    if not isinstance(r, PathText):
        raise Unsupported('path of type %s' % type(r).__name__)
    rev = isinstance(r.q, RevNames)
    q = r.q.q if rev else r.q
    RT.prove(q.length() == n, 'path: one component for each node')
    # the j-th node is named by component n-1-j, and the root by the empty text
    t = q.term(j) if rev else q.term(z3.simplify(n - 1 - j))
    RT.prove(z3.Implies(j < n, t == z3.If(j == n - 1, iv(-1), j)),
             'path: component n-1-j is the name of node j, the first one the empty text')


# ----------------------------------------------------------------- lookup
STEP = z3.Function('lookup_of_part', I, I, I)      # node, index of the part -> node or -1
FOLD = z3.Function('lookup_of_parts', I, I)


def d_fold(i):
    return [z3.Implies(i >= 0, FOLD(z3.simplify(i + 1)) == STEP(FOLD(i), i))]


class Ref(Sym):
    """a field of the tree, or None (-1)"""
    _pyvc_name = 'ref'

    def __init__(self, e):
        self.e = z3.simplify(zint(e))

    def same_as(self, o):
        if o is None:
            return mkbool(self.e < 0)
        if isinstance(o, Ref):
            return mkbool(self.e == o.e)
        if o is RT.ghost['self']:
            return mkbool(self.e == RT.ghost['id'])
        return False

    def __bool__(self):
        return RT.branch(self.e >= 0)

    def snap_state(self):
        return ()

    def snap_children(self):
        return []

    def havoc_value(self):
        return Ref(RT.int('ref'))

    def _getField(self, part, const):
        return c_step(self, part, const)

    @property
    def root(self):
        return Ref(RT.ghost['root'])


def rid(o):
    if o is None:
        return iv(-1)
    if isinstance(o, Ref):
        return o.e
    if o is RT.ghost['self']:
        return RT.ghost['id']
    raise Unsupported('not a field')


def c_step(cur, part, const):
    """contract of _getField (proved below), as a function of the node and the part"""
    g = RT.ghost
    RT.prove(isinstance(part, Part), 'getField looks up the parts of the path')
    RT.prove(const is g['const'], 'getField passes const on')
    if isinstance(cur, Ref):
        RT.prove(cur.e >= 0, 'getField: looks up in a field')
    return Ref(STEP(rid(cur), part.i))


class Part(Sym):
    is_text = True

    def __init__(self, i):
        self.i = i

    def havoc_value(self):
        return UNBOUND


class Parts(Sym):
    def __init__(self, n):
        self.n = n

    def len_(self):
        return mkint(self.n)

    def sym_item(self, i):
        return Part(z3.simplify(zint(i)))


class Key(Sym):
    """a path; lead: starts with a slash. The parts are those after the slash."""
    is_text = True

    def __init__(self, lead, whole=True):
        self.lead, self.whole = lead, whole

    def __bool__(self):
        return True

    def len_(self):
        k = RT.int('key_length')
        RT.assume(k.e >= (2 if self.lead else 1))
        return k

    def __getitem__(self, i):
        if self.lead and i == 0:
            return '/'
        if i == 0:
            return NoSlash()
        if self.lead and isinstance(i, slice) and i.start == 1 and i.stop is None and i.step is None:
            return Key(False)
        if isinstance(i, slice) and i.start in (None, 0) and i.stop == 1 and i.step is None:
            return '/' if self.lead else NoSlash()
        raise Unsupported('key[...]')

    def startswith(self, c):
        if c != '/':
            raise Unsupported('startswith')
        return self.lead

    def __eq__(self, o):
        if o in ('', '/'):
            return False
        raise Unsupported('key == text')

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def split(self, sep=None, maxsplit=-1):
        if sep != '/' or maxsplit != -1:
            raise Unsupported('split')
        if self.lead:
            raise Unsupported('split of a path with its leading slash')
        return Parts(RT.ghost['n'])


class NoSlash(Sym):
    is_text = True

    def __eq__(self, o):
        if o == '/':
            return False
        raise Unsupported('first character of the key')

    def __ne__(self, o):
        return not self == o
    __hash__ = None


def b_get():
    from hachoir.field import Field, MissingField
    g = RT.ghost
    has_parent = RT.choice([True, False], 'has a parent')
    me = RT.input_int('me', 0).e
    s = obj(Field, _address=0, _name='n', _size=None, _parent=None)
    g.update(self=s, id=me)
    g['root'] = RT.input_int('root', 0).e if has_parent else me
    if has_parent:
        s._parent = Ref(RT.input_int('parent', 0))
    n = g['n'] = RT.input_int('n_parts', 1).e
    g['const'] = const = RT.choice([True, False], 'const')
    shape = RT.choice(['', '/', 'abs', 'rel'], 'key')
    key = shape if shape in ('', '/') else Key(shape == 'abs')
    start = g['root'] if shape in ('/', 'abs') else me
    g['start'] = start
    RT.fact(FOLD(iv(0)) == start)
    g['at'] = None
    kind, r = expect(FF + 'getField', Field.getField, s, key, const)
    if shape == '':
        RT.prove(kind == 'exc' and type(r) is KeyError, 'getField: the empty key is refused')
        return
    if shape == '/':
        RT.prove(kind == 'ret', 'getField: / is the root')
        RT.prove(rid(r) == start, 'getField: / is the root')
        return
    RT.cover(kind)
    if kind == 'ret':
        RT.prove(z3.And(rid(r) == FOLD(n), FOLD(n) >= 0), 'getField: the field found by following every part in order')
        RT.prove(g['seen'] == n, 'getField: every part is looked up')
    else:
        RT.prove(type(r) is MissingField, 'getField: raises MissingField')
        i = r.key.i
        for f in d_fold(i):
            RT.fact(f)
        RT.prove(z3.And(0 <= i, i < n, FOLD(z3.simplify(i + 1)) < 0), 'getField: MissingField only when a part is not found')
        RT.prove(rid(r.field) == FOLD(i), 'getField: MissingField tells where')


def get_inv(L):
    g = RT.ghost
    i = g['seen'] = zint(L._idx)
    for f in d_fold(i) + d_fold(z3.simplify(i - 1)):
        RT.fact(f)
    RT.fact(z3.Implies(i <= 0, FOLD(iv(0)) == g['start']))
    cur = get_cur(L)
    return [('the field found so far', z3.And(rid(L._d[cur]) == FOLD(i), FOLD(i) >= 0))]


def get_cur(L):
    c = [nm for nm, v in L._d.items() if nm != 'self' and (isinstance(v, Ref) or v is RT.ghost['self'])]
    if 'current' in c:
        return 'current'
    if len(c) == 1:
        return c[0]
    raise Unsupported('getField: another loop')


def get_havoc(L):
    return {get_cur(L): Ref(RT.int('found'))}


# ---------------------------------------------------------- dots, and names
class Rest(Sym):
    is_text = True

    def __bool__(self):
        return True


class Dots(Sym):
    """a text of d dots (alone=True), or a text with another character"""
    is_text = True

    def __init__(self, d, dots):
        self.d, self.dots = d, dots

    def strip(self, c=None):
        if c != '.':
            raise Unsupported('strip')
        return '' if self.dots else Rest()

    lstrip = rstrip = strip

    def len_(self):
        return mkint(self.d)

    def count(self, c):
        if c != '.' or not self.dots:
            raise Unsupported('count')
        return mkint(self.d)

    def __bool__(self):
        return RT.branch(self.d > 0)


def b_dots():
    from hachoir.field import Field
    s, n = chain()
    d = RT.input_int('dots', 0).e
    const = RT.choice([True, False], 'const')
    kind, r = expect(FF + '_getField', Field._getField, s, Dots(d, True), const)
    RT.cover('end')
    RT.prove(kind == 'ret', '_getField: no error')
    want = z3.If(d == 0, 0, d - 1)
    if r is s:
        RT.prove(want == 0, '_getField: d dots are the (d-1)-th ancestor')
    elif r is None:
        RT.prove(want >= n, '_getField: None only beyond the root')
    else:
        RT.prove(z3.Or(ix(r) == want, z3.And(ix(r) >= n, want >= n)), '_getField: d dots are the (d-1)-th ancestor')


def b_nodots():
    from hachoir.field import Field
    s, n = chain()
    kind, r = expect(FF + '_getField', Field._getField, s, Dots(RT.input_int('length', 1).e, False), RT.choice([True, False], 'const'))
    RT.prove(kind == 'ret' and r is None, '_getField: a plain field has no named fields')


def dots_inv(L):
    ns = [v for nm, v in L._d.items() if nm != 'self' and (isinstance(v, Node) or v is RT.ghost['self'])]
    if len(ns) != 1:
        raise Unsupported('_getField: another loop')
    k, i = ix(ns[0]), zint(L._idx)
    return [('ancestor', z3.And(k == i, k < RT.ghost['depth']))]


# -------------------------------------------------------- field sets
class Found(Sym):
    """what a contract returned"""

    def __init__(self, what):
        self.what = what

    def __bool__(self):
        return True


class FieldsOf(Sym):
    """the dictionary of fields (contract: C07), for the name looked up"""
    _pyvc_name = 'fields'

    def __init__(self, name, present):
        self.name, self.present = name, present

    def snap_state(self):
        return str(self.present)

    def snap_children(self):
        return []

    def havoc(self):
        self.present = RT.bool('present').e

    def sym_contains(self, nm):
        RT.prove(nm is self.name, 'the name asked for is looked up')
        return mkbool(self.present)

    def __contains__(self, nm):
        return RT.branch(zbool(self.sym_contains(nm)))

    def __getitem__(self, nm):
        RT.prove(nm is self.name, 'the name asked for is looked up')
        if not RT.branch(self.present):
            raise KeyError(nm)
        return Named()


class Named(Found):
    """the field with the name asked for"""

    def __init__(self):
        self.what = 'named'
        self.name = self._name = RT.ghost['name']


def b_getset():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    name = g['name'] = Dots(RT.input_int('length', 1).e, False)
    present = RT.bool('present').e
    gen = RT.choice([True, False], 'parsing')
    const = RT.choice([True, False], 'const')
    dots = g['dots'] = RT.choice(['none', 'ancestor'], 'dots')
    anc = g['anc'] = Found('ancestor')
    fed = g['fed'] = []
    s = obj(GenericFieldSet, _fields=FieldsOf(name, present), _field_generator=Found('generator') if gen else None, _parent=None, _name='n',
            _size=None, _address=0)
    kind, r = expect(GF + '_getField', GenericFieldSet._getField, s, name, const)
    RT.prove(kind == 'ret', '_getField: no error')
    RT.prove(not (const and fed), '_getField: const does not parse')
    RT.cover('end')
    if dots == 'ancestor':
        RT.prove(r is anc, '_getField: dots are the ancestor')
        return
    if r is None:
        RT.prove(z3.Not(present), '_getField: None only when no field has this name')
        RT.prove(const or not gen or bool(fed), '_getField: None only when the rest was parsed')
    elif isinstance(r, Named):
        RT.prove(present, '_getField: the field with this name')
    else:
        RT.prove(r is g.get('fed_result'), '_getField: the field found by parsing')
        RT.prove(z3.Not(present), '_getField: parses only for a name not known yet')


def c_field_getField(self, name, const=True):
    g = RT.ghost
    RT.prove(name is g['name'], '_getField passes the name on')
    return g['anc'] if g['dots'] == 'ancestor' else None


def c_feedUntil(self, name):
    g = RT.ghost
    RT.prove(name is g['name'], '_getField passes the name on')
    g['fed'].append(1)
    r = g['fed_result'] = RT.choice([None, Found('fed')], 'fed')
    return r


class Values(Sym):
    """the fields in order"""

    def __init__(self, n):
        self.n = n

    def len_(self):
        return mkint(self.n)

    def __getitem__(self, i):
        i = zint(i)
        if not RT.branch(z3.And(i >= -self.n, i < self.n)):
            raise IndexError('list index out of range')
        return Item(z3.simplify(z3.If(i >= 0, i, i + self.n)))


A = z3.Function('address_of', I, I)
Z = z3.Function('size_of', I, I)


class Item(Sym):
    def __init__(self, i):
        self.i = i
        self.address = self._address = mkint(A(i))
        self.size = self._size = mkint(Z(i))

    def __bool__(self):
        return True


class FieldDict(Sym):
    def __init__(self, n):
        self.n = n

    @property
    def values(self):
        return Values(self.n)

    def len_(self):
        return mkint(self.n)

    def snap_state(self):
        return str(self.n)

    def snap_children(self):
        return []


def b_getint():
    from hachoir.field import GenericFieldSet, MissingField
    g = RT.ghost
    key = RT.input_int('key')
    const = RT.choice([True, False], 'const')
    fd = g['fd'] = FieldDict(RT.input_int('n', 0).e)
    s = obj(GenericFieldSet, _fields=fd, _field_generator=Found('generator'), _parent=None, _name='n', _size=None, _address=0)
    g['fed'] = None
    kind, r = expect(GF + 'getField', GenericFieldSet.getField, s, key, const)
    RT.cover(kind)
    if const:
        RT.prove(g['fed'] is None, 'getField(int): const does not parse')
    if kind == 'exc':
        RT.prove(isinstance(r, KeyError), 'getField(int): refused with KeyError')
        RT.prove(z3.Or(key.e < 0, key.e >= fd.n), 'getField(int): refused only for a missing position')
        if RT.branch(key.e >= 0):
            RT.prove(type(r) is MissingField, 'getField(int): MissingField')
            if not const:
                RT.prove(g['fed'] is not None and g['fed'] >= key.e + 1, 'getField(int): missing only after reading enough fields')
    else:
        RT.prove(z3.And(key.e >= 0, key.e < fd.n, r.i == key.e), 'getField(int): the field at this position')


def c_readFirst(self, number):
    g = RT.ghost
    g['fed'] = zint(number)
    n = RT.int('n_after')
    RT.assume(n.e >= g['fd'].n)
    g['fd'].n = n.e
    return RT.int('added')


def b_contains():
    from hachoir.field import Field, MissingField, ParserError
    g = RT.ghost
    s, n = chain()
    g['key'] = Opaque('key')
    kind, r = expect(FF + '__contains__', Field.__contains__, s, g['key'])
    out = g['out']
    RT.cover(str(out))
    if out == 'field':
        RT.prove(kind == 'ret' and r is True, '__contains__: True for an existing field')
    elif out == 'missing':
        RT.prove(kind == 'ret' and r is False, '__contains__: False for a missing field')
    kind, r = expect(FF + '__getitem__', Field.__getitem__, s, g['key'])
    if g['out'] == 'field':
        RT.prove(kind == 'ret' and r is g['res'], '__getitem__: the field')
    else:
        RT.prove(kind == 'exc' and r is g['res'], '__getitem__: the error')


def c_getField(self, key, const=True):
    from hachoir.field import MissingField
    g = RT.ghost
    RT.prove(key is g['key'] and const is False, 'looks the key up, parsing when needed')
    g['out'] = RT.choice(['field', 'missing'], 'lookup')
    if g['out'] == 'field':
        g['res'] = Found('field')
        return g['res']
    g['res'] = MissingField(Opaque('field'), Opaque('key'))
    raise g['res']


# ---------------------------------------------------------------- parsing until
class PField(Sym):
    """a field yielded by the parser; it has the name asked for when hit"""

    def __init__(self):
        self.hit = RT.bool('hit').e

    def __bool__(self):
        return True

    @property
    def name(self):
        return PName(self)
    _name = name

    def havoc_value(self):
        return UNBOUND


class PName(Sym):
    is_text = True

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        if o is not RT.ghost['name']:
            raise Unsupported('another name')
        return mkbool(self.f.hit)

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self == o)))
    __hash__ = None


class Gen:
    """an arbitrary parser"""
    gi_running = False

    def __iter__(self):
        return self

    def __next__(self):
        from hachoir.field import ParserError
        g = RT.ghost
        RT.prove(not g['over'], 'the parser is not used after its end')
        w = RT.choice(['field', 'stop', 'error'], 'next')
        if w == 'field':
            return PField()
        g['over'] = True
        if w == 'stop':
            raise StopIteration()
        g['err'] = ParserError('broken')
        raise g['err']


def c_addField(self, f):
    """contract of _addField: adds the field (possibly under another name), or raises"""
    from hachoir.field import ParserError
    g = RT.ghost
    RT.prove(isinstance(f, PField), '_addField: a field of the parser')
    w = RT.choice(['add', 'add and stop', 'stop', 'error'], 'add')
    if w in ('add', 'add and stop'):
        f.hit = RT.bool('hit').e        # renamed
        g['fields'].present = z3.simplify(z3.Or(g['fields'].present, f.hit))
    if w in ('stop', 'add and stop'):
        raise StopIteration()
    if w == 'error':
        g['err'] = ParserError('too large')
        raise g['err']


def c_stop(self):
    g = RT.ghost
    g['fields'].present = RT.bool('present').e
    g['done'] = True
    self._field_generator = None
    g['repaired'] = RT.choice([None, Found('raw')], 'new field')
    return g['repaired']


def c_fixerr(self, e):
    g = RT.ghost
    RT.prove(e is g['err'], 'the error of the parser is handled')
    w = RT.choice([False, None, Found('raw')], 'fix')
    if w is not False:
        g['fields'].present = RT.bool('present').e
        g['done'] = True
        self._field_generator = None
    g['fixed'] = w
    return w


def b_feed():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    name = g['name'] = Opaque('name')
    f = g['fields'] = FieldsOf(name, RT.bool('present').e)
    RT.assume(z3.Not(f.present))
    g.update(over=False, done=False, err=None, fixed=0)
    running = RT.choice([False, 'feeding', 'generator'], 'running')
    s = obj(GenericFieldSet, _fields=f, _field_generator=Gen(), _parent=None, _name='n', _size=None, _address=0,
            _GenericFieldSet__is_feeding=running == 'feeding')
    if running == 'generator':
        s._field_generator.gi_running = True
    kind, r = expect(GF + '_feedUntil', GenericFieldSet._feedUntil, s, name)
    RT.cover('%s %s' % (kind, running))
    if kind == 'exc':
        RT.prove(r is g['err'] and g['fixed'] is False, '_feedUntil: raises only an error which could not be repaired')
        return
    if running:
        RT.prove(r is None, '_feedUntil: nothing while the parser is running')
        return
    RT.prove(g['fixed'] is not False, '_feedUntil: an error which could not be repaired is raised')
    if r is None:
        RT.prove(z3.Not(f.present), '_feedUntil: None only when no field has this name')
        RT.prove(g['done'], '_feedUntil: None only after the end of parsing')
    else:
        RT.prove(f.present, '_feedUntil: a field of the set')
        RT.prove(isinstance(r, Named) or isinstance(r, PField), '_feedUntil: a field')
        if isinstance(r, PField):
            RT.prove(r.hit, '_feedUntil: the field with this name')


def feed_inv(L):
    return [('not found yet', z3.Not(RT.ghost['fields'].present)), ('parsing', z3.BoolVal(not RT.ghost['over']))]


# ---------------------------------------------------------------- by address
def l_tile(i):
    return [A(iv(0)) == 0, Z(i) >= 0, z3.Implies(i >= 0, A(z3.simplify(i + 1)) == A(i) + Z(i))]


l_mono = Lemma('C08:addresses increase', 2, lambda i, d: A(i) <= A(z3.simplify(i + d)), pre=lambda i, d: i >= 0, induct=1,
               uses=lambda i, d, step=False: l_tile(z3.simplify(i + d)) if step else [])


def c_lowerBound(values, less):
    """contract of lowerBound (C12): the first position where less() fails, when
    less() holds up to some position and not afterwards"""
    g = RT.ghost
    RT.prove(isinstance(values, Values), 'searches the fields')
    n = values.n
    # less() is monotone: arbitrary positions i <= j
    i, d = RT.int('i').e, RT.int('d').e
    if RT.choice([True, False], 'monotone'):
        RT.assume(z3.And(i >= 0, d > 0, i + d < n))
        for f in l_tile(i) + l_tile(z3.simplify(i + d)):
            RT.fact(f)
        l_mono.use(z3.simplify(i + 1), z3.simplify(d - 1))
        a, b = zbool(less(Item(i))), zbool(less(Item(z3.simplify(i + d))))
        RT.prove(z3.Implies(b, a), 'lowerBound: the test is monotone')
        raise PathEnd()
    w = RT.int('bound').e
    RT.assume(z3.And(0 <= w, w <= n))
    for f in l_tile(w) + l_tile(z3.simplify(w - 1)) + l_tile(n):
        RT.fact(f)
    p = z3.simplify(w - 1)
    RT.fact(z3.Implies(w > 0, zbool(less(Item(p)))))
    RT.fact(z3.Implies(w < n, z3.Not(zbool(less(Item(w))))))
    return mkint(w)


def b_byaddr():
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    a = RT.input_int('address', 0)
    fd = g['fd'] = FieldDict(RT.input_int('n', 0).e)
    gen = RT.choice([True, False], 'parsing')
    feed = RT.choice([True, False], 'feed')
    s = obj(GenericFieldSet, _fields=fd, _field_generator=Found('generator') if gen else None, _parent=None, _name='n', _size=None, _address=0,
            _current_size=mkint(A(fd.n)))
    g['all'] = False
    for f in l_tile(fd.n):
        RT.fact(f)
    kind, r = expect(GF + 'getFieldByAddress', GenericFieldSet.getFieldByAddress, s, a, feed)
    RT.prove(kind == 'ret', 'getFieldByAddress: no error')
    RT.prove(g['all'] == (gen and feed), 'getFieldByAddress: parses the whole set when asked to')
    total = A(fd.n)
    RT.cover('end')
    if r is None:
        RT.prove(a.e >= total, 'getFieldByAddress: None only after the last field')
    else:
        RT.prove(z3.And(0 <= r.i, r.i < fd.n, A(r.i) <= a.e, a.e < A(r.i) + Z(r.i)), 'getFieldByAddress: the field which covers the address')


def c_feedAll(self):
    g = RT.ghost
    n = RT.int('n_all').e
    RT.assume(n >= 0)
    g['fd'].n = n
    for f in l_tile(n):
        RT.fact(f)
    self._current_size = mkint(A(n))
    self._field_generator = None
    g['all'] = True


def c_index(self, name):
    raise Unsupported('index')


class NameIndex(Sym):
    def index(self, nm):
        RT.prove(nm is RT.ghost['name'], 'getFieldIndex: the position of the name of the field')
        return RT.ghost['pos']


def b_index():
    from hachoir.field import GenericFieldSet, Field
    g = RT.ghost
    g['name'], g['pos'] = Opaque('name'), RT.input_int('pos', 0)
    p = obj(GenericFieldSet, _fields=NameIndex(), _parent=None)
    f = obj(Field, _parent=p, _name=g['name'])
    kind, r = expect(FF + 'index', Field.index.fget, f)
    RT.prove(kind == 'ret' and r is g['pos'], 'index: the position in the parent')
    kind, r = expect(FF + 'index', Field.index.fget, p)
    RT.prove(kind == 'ret' and r is None, 'index: None for the root')


# ----------------------------------------------------------------- arrays
PRES = z3.Function('item_exists', I, z3.BoolSort())


class Fmt(Sym):
    is_text = True

    def __mod__(self, i):
        if isinstance(i, tuple):
            i, = i
        return ItemName(zint(i))


class ArrName(Sym):
    is_text = True

    def havoc_value(self):
        return self


class ItemName(Sym):
    is_text = True

    def __init__(self, i):
        self.i = i


class AField(Sym):
    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return True

    def havoc_value(self):
        return UNBOUND


class ASet(Sym):
    """the field set: contract of fieldset[name]"""

    def __getitem__(self, nm):
        from hachoir.field import MissingField
        if not isinstance(nm, ItemName):
            raise Unsupported('array lookup')
        if RT.branch(PRES(nm.i)):
            return AField(nm.i)
        raise MissingField(Opaque('set'), nm)

    def getField(self, nm, const=True):
        if const:
            raise Unsupported('const lookup')
        return self[nm]

    def __contains__(self, nm):
        return RT.branch(PRES(nm.i))

    sym_contains = __contains__


def m_strmod(a, b):
    if a in ('%s[%u]', '%s[%d]', '%s[%i]') and isinstance(b, tuple) and isinstance(b[0], ArrName):
        return ItemName(zint(b[1]))
    if a == '%s[%%u]' and isinstance(b, ArrName):
        return Fmt()
    return Opaque('formatted')


def arr():
    from hachoir.field.fake_array import FakeArray
    n = ArrName()
    a = obj(FakeArray, fieldset=ASet(), name=n)
    a._format = Fmt()
    return FakeArray, a


def b_arr():
    from hachoir.field import MissingField
    FakeArray, a = arr()
    j = RT.ghost['j'] = RT.input_int('j', 0).e
    op = RT.choice(['len', 'get', 'in', 'bool'], 'op')
    RT.cover(op)
    if op == 'len':
        kind, r = expect(FA + '__len__', FakeArray.__len__, a)
        RT.prove(kind == 'ret', 'array length: no error')
        r = zint(r)
        RT.prove(z3.And(r >= 0, z3.Not(PRES(r))), 'array length: the item after the last one does not exist')
        RT.prove(z3.Implies(j < r, PRES(j)), 'array length: every item before exists')
        return
    i = RT.input_int('index', 0)
    if op == 'get':
        kind, r = expect(FA + '__getitem__', FakeArray.__getitem__, a, i)
        if kind == 'ret':
            RT.prove(z3.And(PRES(i.e), r.i == i.e), 'array[i]: the field name[i]')
        else:
            RT.prove(type(r) is MissingField, 'array[i]: MissingField')
            RT.prove(z3.Not(PRES(i.e)), 'array[i]: missing only when there is no such field')
    elif op == 'in':
        kind, r = expect(FA + '__contains__', FakeArray.__contains__, a, i)
        RT.prove(kind == 'ret', 'i in array: no error')
        RT.prove(zbool(r) == PRES(i.e), 'i in array: the item exists')
    else:
        kind, r = expect(FA + '__bool__', FakeArray.__bool__, a)
        RT.prove(kind == 'ret', 'bool(array): no error')
        RT.prove(zbool(r) == PRES(iv(0)), 'bool(array): there is a first item')


def b_arr_iter():
    FakeArray, a = arr()
    g = RT.ghost
    j = g['j'] = RT.input_int('j', 0).e
    g['next'] = Cnt()
    RT.roots.append(g['next'])
    kind, gen = expect(FA + '__iter__', FakeArray.__iter__, a)
    RT.prove(kind == 'ret', 'iter(array): no error')
    it = iter(gen)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        RT.cover('item')
        RT.prove(z3.And(v.i == zint(g['next'].k), PRES(v.i)), 'iter(array): the items in order')
        g['next'].k = mkint(zint(g['next'].k) + 1)
    RT.cover('end')
    k = zint(g['next'].k)
    RT.prove(z3.And(k >= 0, z3.Not(PRES(k))), 'iter(array): stops at the first missing item')
    RT.prove(z3.Implies(j < k, PRES(j)), 'iter(array): every item before exists')


class Cnt:
    _pyvc_track = True
    _pyvc_name = 'items given'

    def __init__(self):
        self.k = mkint(iv(0))


def len_inv(L):
    k, j = zint(L._idx), RT.ghost['j']
    return [('items before exist', z3.Implies(j < k, PRES(j)))]


def iter_inv(L):
    k, j, c = zint(L._idx), RT.ghost['j'], zint(RT.ghost['next'].k)
    return [('items before exist', z3.Implies(j < k, PRES(j))), ('given so far', c == k)]


class SlashName(Sym):
    """array name: set path (pre) + '/' + ArrName, or ArrName alone"""
    is_text = True

    def __init__(self, pre):
        self.pre, self.pos = pre, RT.input_int('pos', 1 if pre else -1).e
        if not pre:
            RT.fact(self.pos == -1)

    def rfind(self, c):
        if c != '/':
            raise Unsupported('rfind')
        return mkint(self.pos) if self.pre else -1

    def rpartition(self, c):
        if c != '/':
            raise Unsupported('rpartition')
        return (self.pre, '/', RT.ghost['arrname']) if self.pre else ('', '', self)

    def rsplit(self, c, n):
        if c != '/' or n != 1:
            raise Unsupported('rsplit')
        return [self.pre, RT.ghost['arrname']] if self.pre else [self]

    def sym_contains(self, c):
        if c != '/':
            raise Unsupported('in name')
        return bool(self.pre)

    def __getitem__(self, s):
        if isinstance(s, slice) and s.step is None:
            if s.start in (None, 0) and s.stop is not None and RT.entails(zint(s.stop) == self.pos):
                return self.pre
            if s.stop is None and s.start is not None and RT.entails(zint(s.start) == self.pos + 1):
                return RT.ghost['arrname'] if self.pre else self
        raise Unsupported('part of the array name')


class PathSet(Sym):
    def __init__(self, pre, target):
        self.pre, self.target = pre, target

    def __getitem__(self, k):
        RT.prove(k is self.pre, 'array: the set is looked up by the path before the last slash')
        return self.target


def b_arr_init():
    from hachoir.field.fake_array import FakeArray
    g = RT.ghost
    g['arrname'] = ArrName()
    slash = RT.choice([True, False], 'slash')
    pre, target = Rest(), ASet()
    nm = SlashName(pre if slash else None)
    if not slash:
        nm = g['arrname'] = PlainName()
    base = PathSet(pre, target) if slash else ASet()
    a = obj(FakeArray)
    kind, r = expect(FA + '__init__', FakeArray.__init__, a, base, nm)
    RT.prove(kind == 'ret', 'array: no error')
    RT.cover('end')
    RT.prove(a.fieldset is (target if slash else base), 'array: the set')
    RT.prove(a.name is g['arrname'], 'array: the name of the items')


class PlainName(ArrName):
    def rfind(self, c):
        return -1

    def rpartition(self, c):
        return ('', '', self)

    def rsplit(self, c, n):
        return [self]

    def sym_contains(self, c):
        return False


# -------------------------------------------------------------- the path leads back
CH = z3.Function('child_of', I, I, I)       # result of looking up the name of node k in node m
RES = z3.Function('resolved', I, I)         # after j components, from the root (node n-1)
l_back = Lemma('C08:the path leads back to the field', 2,
               lambda n, j: z3.Implies(j <= n - 1, RES(j) == n - 1 - j), pre=lambda n, j: n >= 1, induct=1,
               uses=lambda n, j, step=False: [
                   # definition of the lookup (getField): component j+1 is the name of node n-2-j (path);
                   RES(z3.simplify(j + 1)) == CH(RES(j), z3.simplify(n - 2 - j)),
                   # looking the name of a field up in its parent gives it (C07: one field for a name)
                   CH(z3.simplify(n - 1 - j), z3.simplify(n - 2 - j)) == n - 2 - j] if step else [RES(iv(0)) == n - 1])

CALLS = dict(lib.LOG_CALLS)
GET = dict(CALLS, **{FF + '_getField': c_step})
FEED = dict(CALLS, **{GF + '_addField': c_addField, GF + '_stopFeeding': c_stop, GF + '_fixFeedError': c_fixerr})
UNITS = [
    Unit('absolute address', [FF + 'absolute_address'], b_abs, calls=CALLS,
         loops={FF + 'absolute_address#0': LoopSpec(abs_inv, lambda L: RT.ghost['depth'] - max_ix(L), havoc=walk_havoc)}),
    Unit('path', [FF + 'path'], b_path, calls=CALLS, symlists={FF + 'path': names_list},
         models={'str.join': m_join},
         loops={FF + 'path#0': LoopSpec(path_inv, None, havoc=walk_havoc)}),
    Unit('getField', [FF + 'getField'], b_get, calls=GET, loops={FF + 'getField#0': LoopSpec(get_inv, None, havoc=get_havoc)}),
    Unit('dots', [FF + '_getField'], b_dots, calls=CALLS, loops={FF + '_getField#0': LoopSpec(dots_inv, None, havoc=walk_havoc)}),
    Unit('no dots', [FF + '_getField'], b_nodots, calls=CALLS),
    Unit('field set lookup', [GF + '_getField'], b_getset, calls=dict(CALLS, **{FF + '_getField': c_field_getField, GF + '_feedUntil': c_feedUntil})),
    Unit('lookup by position', [GF + 'getField'], b_getint, calls=dict(CALLS, **{'hachoir.field.basic_field_set:BasicFieldSet.readFirstFields': c_readFirst})),
    Unit('contains', [FF + '__contains__', FF + '__getitem__'], b_contains, calls=dict(CALLS, **{FF + 'getField': c_getField})),
    Unit('parsing until a name', [GF + '_feedUntil'], b_feed, calls=FEED, loops={GF + '_feedUntil#0': LoopSpec(feed_inv, None)}),
    Unit('lookup by address', [GF + 'getFieldByAddress'], b_byaddr,
         calls=dict(CALLS, **{GF + '_feedAll': c_feedAll, 'hachoir.core.tools:lowerBound': c_lowerBound})),
    Unit('index', [FF + 'index', GF + 'getFieldIndex'], b_index, calls=CALLS),
    Unit('arrays', [FA + f for f in ('__len__', '__getitem__', '__contains__', '__bool__')], b_arr, calls=CALLS, models={'str.mod': m_strmod},
         loops={FA + '__len__#0': LoopSpec(len_inv, None)}),
    Unit('array iteration', [FA + '__iter__'], b_arr_iter, calls=CALLS, models={'str.mod': m_strmod},
         loops={FA + '__iter__#0': LoopSpec(iter_inv, None)}),
    Unit('array name', [FA + '__init__'], b_arr_init, calls=CALLS, models={'str.mod': m_strmod}),
]


def max_ix(L):
    ns = [ix(v) for nm, v in L._d.items() if isinstance(v, Node)]
    return ns[0] if ns else iv(0)


BOUNDED = []
