"""Runtime hooks called by the instrumented code (see instr.py)."""
import builtins as bi
import functools
import types
import z3
from .core import (RT, Sym, SInt, SBool, SBytes, SList, SRange, Opaque, Unsupported, PathEnd, LoopCtl,
                   mkint, mkbool, mknot, zint, zbool, is_sym, iv, concrete_bytes, UNBOUND)

NATIVE_SEQ = (str, bytes, bytearray, list, tuple, dict, set, frozenset, range)


def deep_sym(x, d=0):
    if isinstance(x, Sym):
        return True
    if type(x) in (list, tuple, set, frozenset) and d < 3:
        return any(deep_sym(y, d + 1) for y in x)
    if type(x) is dict and d < 3:
        return any(deep_sym(y, d + 1) for y in x.values())
    return False


class V:
    def fn(self, qual):
        def deco(f):
            @functools.wraps(f)
            def w(*a, **k):
                if RT.active:
                    if RT.dead:
                        raise PathEnd()
                    h = RT.contracts.get(qual)
                    if h is not None and RT.enter != qual:
                        RT.applied.add(qual)
                        return h(*a, **k)
                    RT.enter = None if RT.enter == qual else RT.enter
                    RT.called.add(qual)
                return f(*a, **k)
            w.__wrapped__ = f
            w._pyvc_qual = qual
            return w
        return deco

    def loop(self, lid, kind, it=None):
        return LoopCtl(lid, kind, it)

    def comp(self, cid, kind, it, f):
        if RT.active:
            h = RT.comps.get(cid)
            if h is not None:
                r = h(it, f, kind)
                if r is not NotImplemented:
                    return r
        return f(it)

    def lst(self, qual):
        if RT.active and qual in RT.symlists:
            mk = RT.symlists[qual]
            return mk() if mk else SList([])
        return []

    def lstr(self, qual, l):
        if RT.active and qual + ':text' in RT.symlists:
            return RT.symlists[qual + ':text']()
        return l

    def lstl(self, qual, l):
        if RT.active and qual + ':list' in RT.symlists:
            return RT.symlists[qual + ':list'](l)
        return l

    def guard(self):
        if RT.dead:
            raise PathEnd()

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, _Meta) or isinstance(b, _Meta):
            return REAL.get(a, a) is REAL.get(b, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if hasattr(a, 'same_as'):
                return a.same_as(b)
            if hasattr(b, 'same_as'):
                return b.same_as(a)
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return mkbool(zbool(a) == zbool(b))
            if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) \
                    and not isinstance(b, bool):
                return mkbool(zint(a) == zint(b))
        return False

    def in_(self, a, b):
        if hasattr(b, 'sym_contains'):
            return b.sym_contains(a)
        if RT.active and type(b) in (list, tuple) and (deep_sym(a) or deep_sym(b)):
            for x in b:
                r = (x == a) if isinstance(x, Sym) else (a == x)
                if r is NotImplemented:
                    r = False
                if r:
                    return True
            return False
        if RT.active and type(b) in (set, frozenset, dict) and deep_sym(a):
            return self.in_(a, list(b))
        if RT.active and isinstance(b, str) and isinstance(a, Sym):
            if hasattr(a, 'in_str'):
                return a.in_str(b)
            raise Unsupported('symbolic text in str')
        if isinstance(b, (SBytes,)) or (isinstance(b, bytes) and isinstance(a, Sym)):
            return RT.model('bytes.contains', a, b)
        if isinstance(b, SList):
            h = RT.models.get('slist.contains')
            if h:
                return h(a, b)
            raise Unsupported('in SList')
        return a in b

    def mod(self, a, b):
        if isinstance(a, str):
            if deep_sym(b):
                h = RT.dyn_models.get('str.mod') or RT.models.get('str.mod')
                if h:
                    return h(a, b)
                return Opaque('formatted')
            return a % b
        if isinstance(a, Opaque):
            return Opaque('formatted')
        return a % b

    def fstr(self, parts):
        if any(isinstance(p, tuple) and deep_sym(p[0]) for p in parts):
            if RT.models.get('str.join.parts') and all(isinstance(p, str) or p[1] in (-1, 115) and not p[2] for p in parts):
                return RT.model('str.join.parts', '', [p if isinstance(p, str) else s_str(p[0]) for p in parts])
            return Opaque('formatted')
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec))
        return ''.join(out)

    def _ixc(self, o, i):
        """does indexing native container o by i need lifting?"""
        if isinstance(i, slice):
            return any(isinstance(x, Sym) for x in (i.start, i.stop, i.step))
        return isinstance(i, Sym)

    def getitem(self, o, i):
        if RT.active and type(o) in (bytes, bytearray, list, tuple) and self._ixc(o, i):
            if type(o) in (bytes, bytearray):
                return SBytes.lift(o)[i]
            return self.native_getitem(o, i)
        if RT.active and type(o) is str and self._ixc(o, i):
            h = RT.models.get('str.getitem')
            if h:
                return h(o, i)
            raise Unsupported('str[symbolic]')
        if RT.active and type(o) is dict and isinstance(i, Sym):
            for k in o:
                if bool(i == k):
                    return o[k]
            raise KeyError(i)
        return o[i]

    def native_getitem(self, o, i):
        n = len(o)
        if isinstance(i, slice):
            from .core import norm_slice
            if i.step not in (None, 1):
                raise Unsupported('slice step')
            lo, hi = norm_slice(i, iv(n))
            for a in range(n + 1):
                if RT.branch(lo == a):
                    for b in range(n + 1):
                        if RT.branch(hi == b):
                            return o[a:b]
            raise PathEnd()
        e = zint(i)
        for k in range(n):
            if RT.branch(z3.Or(e == k, e == k - n)):
                return o[k]
        raise IndexError('index out of range')

    def setitem(self, v, o, i):
        if RT.active and type(o) is list and self._ixc(o, i):
            if isinstance(i, slice):
                raise Unsupported('slice assignment with symbolic bounds')
            e = zint(i)
            n = len(o)
            for k in range(n):
                if RT.branch(z3.Or(e == k, e == k - n)):
                    o[k] = v
                    return
            raise IndexError('list assignment index out of range')
        if RT.active and type(o) is dict and isinstance(i, Sym):
            raise Unsupported('dict[symbolic key] = v')
        o[i] = v

    def delitem(self, o, i):
        if RT.active and type(o) in (list, dict) and self._ixc(o, i):
            raise Unsupported('del native[symbolic]')
        del o[i]

    def meth(self, o, name):
        if RT.active:
            if type(o) in (bytes, str, list, dict, set, bytearray):
                m = getattr(o, name)

                def call(*a, **k):
                    if any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()) or \
                            any(isinstance(x, types.GeneratorType) or hasattr(x, 'sym_item') for x in a):
                        return self.native_method(o, name, m, a, k)
                    return m(*a, **k)
                return call
            if isinstance(o, type) and o in (int, bytes) and name == 'from_bytes':
                return _from_bytes
        return getattr(o, name)

    def native_method(self, o, name, m, a, k):
        if type(o) is list:
            if name in ('append', 'insert') and not (name == 'insert' and isinstance(a[0], Sym)):
                return m(*a)
            if name == 'extend':
                if isinstance(a[0], (SList,)):
                    raise Unsupported('list.extend(symbolic list)')
                return m(list(a[0]))
        if type(o) is dict and name in ('get', 'setdefault', 'pop') and not isinstance(a[0], Sym):
            return m(*a, **k)
        if name == 'join':
            if isinstance(a[0], types.GeneratorType) or type(a[0]) in (list, tuple):
                parts = list(a[0])
                if not any(isinstance(p, Sym) for p in parts):
                    return m(parts)
                if isinstance(o, bytes):
                    r = None
                    for p in parts:
                        r = p if r is None else r + o + p
                    return b'' if r is None else r
                if RT.models.get('str.join.parts'):
                    return RT.model('str.join.parts', o, parts)
                return Opaque('join')
            return RT.model(type(o).__name__ + '.join', o, a[0])
        if type(o) is str and name == 'format':
            return Opaque('format')
        if type(o) in (bytes,) and name in ('find', 'startswith', 'endswith', 'index', 'decode', 'count'):
            return RT.model('bytes.' + name, SBytes.lift(o), *a)
        if isinstance(o, (bytes, str)):
            return RT.model(type(o).__name__ + '.' + name, o, *a, **k)
        if type(o) is dict and name == 'get':
            for kk in o:
                if bool(a[0] == kk):
                    return o[kk]
            return a[1] if len(a) > 1 else None
        if any(isinstance(x, types.GeneratorType) for x in a) and not any(deep_sym(x) for x in a):
            return m(*a, **k)
        raise Unsupported('%s.%s with symbolic arguments' % (type(o).__name__, name))


_V = V()
RT.enter = None
RT.comps = {}
RT.symlists = {}


def _from_bytes(data, byteorder='big', *, signed=False):
    if isinstance(data, SBytes) or (type(data) in (list, tuple) and is_sym(data)):
        return RT.model('int.from_bytes', data, byteorder, signed)
    return int.from_bytes(data, byteorder, signed=signed)


# ------------------------------------------------------------- builtins
def s_len(x):
    if RT.active:
        if hasattr(type(x), 'len_'):
            return x.len_()
        if type(x).__module__.startswith('hachoir.') and hasattr(type(x), '__len__'):
            return type(x).__len__(x)
    return bi.len(x)


class _Meta(type):
    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return bi.hash(cls._real)

    def __instancecheck__(cls, o):
        return bi.isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        return bi.issubclass(o, cls._real)


def s_range(*a):
    if RT.active and any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return SRange(0, a[0], 1)
        if len(a) == 2:
            return SRange(a[0], a[1], 1)
        st = a[2]
        if isinstance(st, Sym):
            raise Unsupported('symbolic range step')
        return SRange(a[0], a[1], st)
    return bi.range(*a)


def s_isinstance(o, t):
    if RT.active and isinstance(o, Sym):
        ts = t if type(t) is tuple else (t,)
        flat = []
        for x in ts:
            flat.extend(x if type(x) is tuple else [x])
        if hasattr(o, 'sym_isinstance'):
            return o.sym_isinstance(flat)
        for x in flat:
            if x in (int, s_int) and bi.isinstance(o, (SInt, SBool)):
                return True
            if x in (bool, s_bool) and bi.isinstance(o, SBool):
                return True
            if x in (bytes, s_bytes) and bi.isinstance(o, SBytes):
                return True
            if x in (list, s_list) and bi.isinstance(o, SList):
                return True
            if x in (str, s_str) and (bi.isinstance(o, Opaque) or getattr(o, 'is_text', False)):
                return True
            if x is object:
                return True
        return False
    if type(t) is tuple:
        return bi.isinstance(o, tuple(REAL.get(x, x) if not bi.isinstance(x, tuple) else x for x in t))
    return bi.isinstance(o, REAL.get(t, t))


def s_issubclass(o, t):
    if type(t) is tuple:
        return bi.issubclass(REAL.get(o, o), tuple(REAL.get(x, x) for x in t))
    return bi.issubclass(REAL.get(o, o), REAL.get(t, t))


class s_int(int, metaclass=_Meta):
    _real = int

    def __new__(cls, *a, **k):
        if RT.active and a:
            x = a[0]
            if bi.isinstance(x, SInt):
                return x
            if bi.isinstance(x, SBool):
                return mkint(zint(x))
            if bi.isinstance(x, Sym):
                return RT.model('int', *a)
        return bi.int(*a, **k)

    @staticmethod
    def from_bytes(*a, **k):
        return _from_bytes(*a, **k)


class s_bool(metaclass=_Meta):
    _real = bool

    def __new__(cls, x=False):
        if RT.active and bi.isinstance(x, SBool):
            return x
        if RT.active and bi.isinstance(x, SInt):
            return mkbool(x.e != 0)
        return bi.bool(x)


def _byteval(v):
    if bi.isinstance(v, Sym):
        e = zint(v)
        if not RT.entails(z3.And(e >= 0, e <= 255)):
            if not RT.branch(z3.And(e >= 0, e <= 255)):
                raise ValueError('bytes must be in range(0, 256)')
        return v
    if not bi.isinstance(v, int):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if not 0 <= v <= 255:
        raise ValueError('bytes must be in range(0, 256)')
    return v


class s_bytes(metaclass=_Meta):
    _real = bytes

    def __new__(cls, *a, **k):
        if RT.active and a:
            x = a[0]
            if bi.isinstance(x, SBytes):
                return x
            if bi.isinstance(x, SList):
                h = RT.models.get('bytes(SList)')
                if h:
                    return h(x)
                # every element must be a byte
                q = x.q
                for s in q.segs:
                    if s[0] == 'arr':
                        i = z3.Int(RT.freshname('k'))
                        t = s[1](s[2] + i)
                        if not RT.entails(z3.Implies(z3.And(0 <= i, i < s[3]), z3.And(t >= 0, t <= 255))):
                            raise Unsupported('bytes(list) with unknown values')
                    else:
                        for v in s[1]:
                            _byteval(v)
                return concrete_bytes(SBytes(q.segs))
            if bi.isinstance(x, SRev):
                return s_bytes(x.rev())
            if bi.isinstance(x, SInt):
                raise Unsupported('bytes(symbolic int)')
            if type(x) in (list, tuple) or hasattr(x, '__next__'):
                vals = [_byteval(v) for v in x]
                return concrete_bytes(SBytes([('lit', bi.tuple(vals))]))
        return bi.bytes(*a, **k)

    fromhex = bytes.fromhex
    maketrans = bytes.maketrans
    join = bytes.join


class s_str(metaclass=_Meta):
    _real = str

    def __new__(cls, *a, **k):
        if RT.active and a and bi.isinstance(a[0], Sym):
            if (len(a) > 1 or k) and hasattr(a[0], 'sym_decode'):
                return a[0].sym_decode(*a[1:], **k)
            if hasattr(a[0], 'sym_str'):
                return a[0].sym_str()
            if getattr(a[0], 'is_text', False):
                return a[0]
            if bi.isinstance(a[0], Opaque):
                return a[0]
            return Opaque('str')
        return bi.str(*a, **k)

    join = str.join
    maketrans = str.maketrans


class s_list(metaclass=_Meta):
    _real = list

    def __new__(cls, *a):
        if RT.active and a:
            if bi.isinstance(a[0], SList):
                return a[0].copy()
            if bi.isinstance(a[0], SBytes):
                return SList(a[0].q.segs)
            if hasattr(a[0], 'sym_list'):
                return a[0].sym_list()
        return bi.list(*a)


class s_tuple(metaclass=_Meta):
    _real = tuple

    def __new__(cls, *a):
        if RT.active and a and bi.isinstance(a[0], (SList,)):
            return a[0].copy()
        if RT.active and a and hasattr(a[0], 'sym_tuple'):
            return a[0].sym_tuple()
        return bi.tuple(*a)


def _minmax(args, k, less):
    if len(args) == 1:
        args = args[0]
        if bi.isinstance(args, SList) or hasattr(args, 'sym_item'):
            return RT.model('min/max', args, less, k)
        args = bi.list(args)
    if is_sym(bi.list(args)) and not k:
        r = None
        for x in args:
            if r is None:
                r = x
                continue
            if bi.isinstance(x, (SInt, int)) and bi.isinstance(r, (SInt, int)):
                a, b = zint(x), zint(r)
                r = mkint(z3.If(a < b if less else a > b, a, b))
            elif hasattr(x, 'sym_minmax'):
                r = x.sym_minmax(r, less)
            elif hasattr(r, 'sym_minmax'):
                r = r.sym_minmax(x, less)
            else:
                raise Unsupported('min/max')
        if r is None:
            raise ValueError('min() arg is an empty sequence')
        return r
    return (bi.min if less else bi.max)(*( (args,) ), **k)


def s_min(*a, **k):
    if RT.active:
        return _minmax(a, k, True)
    return bi.min(*a, **k)


def s_max(*a, **k):
    if RT.active:
        return _minmax(a, k, False)
    return bi.max(*a, **k)


def s_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return (a // b, a % b)
    return bi.divmod(a, b)


def s_abs(a):
    return a.__abs__() if isinstance(a, Sym) else bi.abs(a)


class SRev(Sym):
    def __init__(self, x):
        self.x = x

    def rev(self):
        return RT.model('reversed', self.x)

    def __iter__(self):
        return iter(self.rev())


def s_reversed(x):
    if RT.active and hasattr(x, 'sym_reversed'):
        return x.sym_reversed()
    if RT.active and isinstance(x, (SList, SBytes, SRange)):
        if isinstance(x, SRange):
            n = x.len_()
            return SRange(x.item(n - 1), x.item(-1), -x.step)
        if all(s[0] == 'lit' for s in x.q.segs):
            return bi.reversed(bi.list(x))
        return SRev(x)
    return bi.reversed(x)


def s_sum(it, start=0):
    if RT.active:
        if isinstance(it, SList) or hasattr(it, 'sym_item'):
            return RT.model('sum', it, start)
        r = start
        for x in it:
            r = r + x
        return r
    return bi.sum(it, start)


def s_sorted(it, **k):
    if RT.active:
        m = type(it)
        if getattr(m, '__module__', '').startswith('hachoir.') and hasattr(m, '__iter__'):
            x = it.__iter__()
            if hasattr(x, 'sym_item'):
                return RT.model('sorted', x, k)
            it = x
        if isinstance(it, SList) or deep_sym(it) or hasattr(it, 'sym_item'):
            return RT.model('sorted', it, k)
    return bi.sorted(it, **k)


def s_enumerate(it, start=0):
    if RT.active and (bi.isinstance(it, SList) or hasattr(it, 'sym_item')) and RT.models.get('enumerate'):
        return RT.model('enumerate', it, start)
    return bi.enumerate(it, start)


def s_any(it):
    if RT.active and hasattr(it, 'sym_any'):
        return it.sym_any()
    for x in it:
        if x:
            return True
    return False


def s_all(it):
    if RT.active and hasattr(it, 'sym_all'):
        return it.sym_all()
    for x in it:
        if not x:
            return False
    return True


def s_iter(x, *a):
    if RT.active and hasattr(x, 'sym_iter'):
        return x.sym_iter()
    return bi.iter(x, *a)


def s_ord(x):
    if isinstance(x, Sym):
        if hasattr(x, 'ord_'):
            return x.ord_()
        return RT.model('ord', x)
    return bi.ord(x)


def s_chr(x):
    if isinstance(x, Sym):
        return RT.model('chr', x)
    return bi.chr(x)


def s_float(*a):
    if a and isinstance(a[0], Sym):
        return RT.model('float', *a)
    return bi.float(*a)


def s_repr(x):
    if isinstance(x, Sym):
        if hasattr(x, 'sym_repr'):
            return x.sym_repr()
        return Opaque('repr')
    return bi.repr(x)


def s_hash(x):
    if isinstance(x, Sym):
        raise Unsupported('hash')
    return bi.hash(x)


def s_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        if isinstance(a[0], SInt):
            return int
        if isinstance(a[0], SBytes):
            return bytes
        if isinstance(a[0], SBool):
            return bool
        raise Unsupported('type()')
    return bi.type(*a)


def s_id(x):
    if hasattr(x, 'sym_id'):
        return x.sym_id()
    return bi.id(x)


def s_callable(x):
    return bi.callable(x)


class s_float_t(metaclass=_Meta):
    _real = float

    def __new__(cls, *a):
        return s_float(*a)


class s_set_t(metaclass=_Meta):
    _real = set

    def __new__(cls, *a):
        if not a and RT.active and RT.models.get('newset') is not None:
            return RT.models['newset']()
        if a and RT.active and hasattr(a[0], 'sym_set'):
            return a[0].sym_set()
        return set(*a)


REAL = {s_set_t: set, s_int: int, s_bytes: bytes, s_str: str, s_list: list, s_tuple: tuple, s_bool: bool, s_float_t: float}

BUILTINS = dict(len=s_len, range=s_range, isinstance=s_isinstance, issubclass=s_issubclass, int=s_int,
                bytes=s_bytes, str=s_str, list=s_list, tuple=s_tuple, min=s_min, max=s_max, divmod=s_divmod,
                abs=s_abs, reversed=s_reversed, sum=s_sum, sorted=s_sorted, any=s_any, all=s_all, iter=s_iter,
                ord=s_ord, chr=s_chr, enumerate=s_enumerate, float=s_float_t, repr=s_repr, bool=s_bool, id=s_id,
                set=s_set_t)
# `type` is left native: it is used as a metaclass/base in class statements.
