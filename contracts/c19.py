"""C19: metadata items are filtered, deduplicated and ordered deterministically.

Values are abstract: which are texts, which are empty, equality, "starts with"
(a partial order whose lower sets are chains), what normalization makes of
them, the answers of the filter and of the type are arbitrary. The stored
values are an arbitrary sequence; two positions are fixed beforehand.
"""
import datetime
import z3
from pyvc.core import RT, LoopSpec, SInt, SBool, SList, Seq, Sym, Opaque, mkint, mkbool, zint, zbool, iv, Unsupported, PathEnd
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.lib import obj
from contracts.c16 import patched

PROP = 'C19'
DM = 'hachoir.metadata.metadata_item:Data.'
FM = 'hachoir.metadata.filter:'
MM = 'hachoir.metadata.metadata:'
I, B = z3.IntSort(), z3.BoolSort()

# ---------------------------------------------------------------- values

STR = z3.Function('is_text', I, B)
EMPTY = z3.Function('is_empty', I, B)
TYPED = z3.Function('has_the_type', I, B)
PASS = z3.Function('passes_the_filter', I, B)
STARTS = z3.Function('starts_with', I, I, B)         # a starts with b
NORM = z3.Function('stripped', I, I)
NL = z3.Function('newlines_normalized', I, I)
LEN = z3.Function('length', I, I)
CUT = z3.Function('cut', I, I)
DECODED = z3.Function('decoded', I, I)
V = z3.Function('stored_value', I, I)
w1, w2 = z3.Ints('some_position another_position')


def t(ts, x):
    return any(y is x or getattr(y, '_real', None) is x for y in ts)


class Typ:
    """a type which is not the one of texts"""


class Val(Sym):
    """a value which is not None"""
    __hash__ = None

    def __init__(self, e, byt=False):
        self.e, self.byt = z3.simplify(e), byt

    def sym_isinstance(self, ts):
        if self.byt:
            return t(ts, bytes)
        if t(ts, Typ):
            if t(ts, str):
                return RT.branch(z3.Or(TYPED(self.e), STR(self.e)))
            return RT.branch(TYPED(self.e))
        if t(ts, str):
            return RT.branch(STR(self.e))
        return False

    def sym_decode(self, encoding, errors='strict'):
        RT.prove(self.byt and encoding.lower().replace('-', '').replace('_', '') in ('latin1', 'iso88591'), 'bytes are decoded one to one')
        return decode(self)

    decode = sym_decode

    def __bool__(self):
        return RT.branch(z3.Not(EMPTY(self.e)))

    def __eq__(self, o):
        return mkbool(self.e == o.e) if isinstance(o, Val) else False

    def __ne__(self, o):
        return mkbool(self.e != o.e) if isinstance(o, Val) else True

    def _text(self):
        RT.prove(STR(self.e), 'a value which is not a text is not used as a text')

    def len_(self):
        self._text()
        RT.assume(LEN(self.e) >= 0)
        return mkint(LEN(self.e))

    def __getitem__(self, k):
        self._text()
        if not isinstance(k, slice) or k.start is not None or k.step is not None:
            raise Unsupported('slice')
        RT.prove(z3.And(zint(k.stop) == MAXLEN, LEN(self.e) > MAXLEN), 'only texts which are too long are cut')
        return Cut(self.e)

    def startswith(self, o):
        self._text()
        o._text()
        # STARTS is transitive, and the beginnings of a text are a chain
        k, v = (o.e, self.e) if o.e.decl().eq(V) else (self.e, o.e)
        if not k.decl().eq(V):
            raise Unsupported('startswith')
        RT.assume(z3.And(*[z3.And(z3.Implies(z3.And(STARTS(w, v), STARTS(v, k)), STARTS(w, k)),
                                  z3.Implies(z3.And(STARTS(v, w), STARTS(v, k)), z3.Or(STARTS(w, k), STARTS(k, w))))
                           for w in (V(w1), V(w2))]))
        return RT.branch(STARTS(self.e, o.e))


MAXLEN = z3.Int('MAX_STR_LENGTH')


class Cut(Sym):
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        RT.prove(isinstance(o, str) and o != '', 'a text which was cut is marked')
        return Val(CUT(self.e))


class Item(Sym):
    """a stored value: position (or None for a new one)"""
    __hash__ = None

    def __init__(self, e, text=None):
        self.e, self.text = z3.simplify(e), text

    @property
    def value(self):
        return Val(self.e)


def stored(n):
    def wrap(e):
        return Item(e)

    def unwrap(x):
        if not isinstance(x, Item):
            raise Unsupported('stored value')
        return x.e
    return SList(Seq([('arr', V, iv(0), n)], wrap, unwrap), wrap, unwrap)


def inv1(i, n, at=V):
    """what is stored was accepted"""
    g = RT.ghost
    c = [z3.Not(z3.And(STR(at(i)), EMPTY(at(i))))]
    if g['filter']:
        c.append(PASS(at(i)))
    if g['type'] is not None:
        c.append(z3.Or(TYPED(at(i)), STR(at(i))) if str in g['type'] else TYPED(at(i)))
    return z3.Implies(z3.And(0 <= i, i < n), z3.And(*c))


def inv2(i, j, n, at=V):
    """stored values are different, no stored text starts with another one"""
    return z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j),
                      z3.And(at(i) != at(j), z3.Implies(z3.And(STR(at(i)), STR(at(j))), z3.Not(STARTS(at(i), at(j))))))


def use_inv(ixs, n):
    RT.assume(z3.And(*[inv1(i, n) for i in ixs] + [inv2(i, j, n) for i in ixs for j in ixs if i is not j]))


def c_normalizeString(text):
    RT.prove(isinstance(text, Val) and not text.byt, 'normalizeString of a text')
    text._text()
    RT.assume(STR(NORM(text.e)))
    return Val(NORM(text.e))


def c_normalizeNewline(text):
    text._text()
    RT.assume(z3.And(STR(NL(text.e)), z3.Implies(z3.Not(EMPTY(text.e)), z3.Not(EMPTY(NL(text.e))))))
    return Val(NL(text.e))


def c_contains(self, value):
    """contract of __contains__: unit below"""
    g = RT.ghost
    RT.prove(self is g['s'], '__contains__: object')
    n = g['n']
    if RT.branch(z3.Int('value_is_stored') == 1):
        k = g['at'] = RT.int('at').e
        RT.assume(z3.And(0 <= k, k < n, V(k) == value.e))
        return True
    for k in (w1, w2):
        RT.assume(z3.Implies(z3.And(0 <= k, k < n), V(k) != value.e))
    g['new'] = value.e
    return False


def decode(v):
    RT.assume(STR(DECODED(v.e)))
    return Val(DECODED(v.e))


class Broken(Exception):
    pass


class Meta:
    def warning(self, *a):
        pass


def add_inv(L):
    g = RT.ghost
    n, i, v = g['n'], zint(L._idx), g['final']
    c = [('unchanged', z3.BoolVal(g['s'].values is g['list']) if g['list'].q is g['q'] else z3.BoolVal(False))]
    if v is not None:
        for k in (w1, w2):
            c.append(('no earlier value is the beginning of it', z3.Implies(z3.And(0 <= k, k < i, k < n, STR(V(k))), z3.And(z3.Not(STARTS(v, V(k))), z3.Not(STARTS(V(k), v))))))
    return c


class Enum(Sym):
    """enumerate(values)"""
    __hash__ = None

    def __init__(self, l):
        self.l = l

    def len_(self):
        return self.l.len_()

    def sym_item(self, i):
        g = RT.ghost
        k = zint(i)
        use_inv([k, w1, w2], g['n'])
        g['k'] = k
        return i, Item(V(k))


def b_add(conv, ty, result=None):
    def body():
        from hachoir.metadata import metadata_item as M
        g = RT.ghost
        n = g['n'] = RT.input_int('stored', 0).e
        RT.assume(MAXLEN >= 0)
        g['type'] = ty
        # combinations: the text, the conversion and the filter are looked at apart where they cannot interact
        form = RT.choice(['value', 'pair', 'three', 'none', 'none pair'] if result not in ('none', 'exc') else ['value', 'pair'], 'form')
        byt = RT.choice([True, False], 'bytes') if form == 'value' or (form == 'pair' and not conv) else False
        g['filter'] = RT.choice([True, False], 'filter') if form == 'value' and result not in ('none', 'exc') else form == 'pair'
        v0 = Val(RT.input_int('value').e, byt)
        text0 = RT.choice([None, '', 'some text'], 'text') if form == 'pair' and not byt else 'some text' if form == 'pair' else None
        arg = dict(value=v0, pair=(v0, text0), three=(v0, text0, 1)).get(form) if form not in ('none', 'none pair') else (None if form == 'none' else (None, 'x'))
        meta = Meta()
        key = 'key'
        cv = Val(RT.int('converted').e)
        ctext = RT.choice([None, 'converted text'], 'text of the conversion') if result == 'pair' else None

        def conversion(m, k, v):
            RT.prove(m is meta and k == key and v is v0, 'conversion: arguments')
            if result == 'exc':
                raise Broken()
            return {'value': cv, 'pair': (cv, ctext), 'none': None}[result]

        def filt(v):
            RT.prove(isinstance(v, Val), 'the filter gets the value')
            return RT.branch(PASS(v.e))
        s = g['s'] = obj(M.Data, key=key, metadata=meta, type=ty, filter=filt if g['filter'] else None, conversion=conversion if conv else None,
                         values=stored(n), text_handler=None, priority=100, description='d')
        s._pyvc_name = 'data'
        g['list'] = s.values
        g['q'] = s.values.q
        use_inv([w1, w2], n)
        g['final'], g['at'], g['k'], g['new'] = None, None, None, None
        # reference: the value which may be stored
        e, text, skip = v0.e, text0, None
        if form in ('none', 'none pair'):
            skip = z3.BoolVal(True)
        else:
            skip = z3.BoolVal(False)
            if conv:
                if result in ('none', 'exc'):
                    skip = z3.BoolVal(True)
                else:
                    e = cv.e
                    text = (text or ctext) if result == 'pair' else text
            elif byt:
                e = DECODED(e)
                RT.assume(STR(e))
            isb = byt and not conv
            st = z3.BoolVal(True) if isb else STR(e)
            RT.assume(z3.Implies(st, STR(NORM(e))))
            e1 = z3.If(st, NORM(e), e)
            skip = z3.Or(skip, z3.And(st, EMPTY(NORM(e))))
            if ty is not None:
                ok = TYPED(e1)
                if str in ty:
                    ok = z3.Or(ok, STR(e1)) if Typ in ty else STR(e1)
                skip = z3.Or(skip, z3.Not(ok))
            RT.assume(z3.Implies(st, z3.And(STR(NL(e1)), z3.Implies(z3.Not(EMPTY(e1)), z3.Not(EMPTY(NL(e1)))))))
            # a text which is cut is not empty; types do not depend on the text
            e2 = NL(e1)
            RT.assume(z3.Implies(st, z3.And(STR(CUT(e2)), z3.Not(EMPTY(CUT(e2))), LEN(e2) >= 0)))
            fin = z3.simplify(z3.If(st, z3.If(z3.And(MAXLEN > 0, LEN(e2) > MAXLEN), CUT(e2), e2), e))
            for x in (e1, e2, CUT(e2)):
                RT.assume(TYPED(x) == TYPED(e))
            g['final'] = fin
        with patched(M, normalizeString=c_normalizeString, normalizeNewline=c_normalizeNewline, config=Conf()):
            kind, r = expect(DM + 'add', M.Data.add, s, arg)
        if form == 'three':
            RT.prove(kind == 'exc' and type(r) is ValueError, 'a tuple is a value and its text')
            RT.prove(s.values.q is g['q'], 'nothing is stored')
            return
        RT.prove(kind == 'ret', 'add: no error')
        RT.prove(s.values is g['list'], 'the list of values')
        q = s.values.q
        n2 = q.length()
        segs = q.segs
        RT.prove(z3.Or(n2 == n, n2 == n + 1), 'at most one value is stored')
        if q is g['q']:
            RT.cover('nothing stored')
            # dropped: refused, equal to a stored value, or the beginning of one
            fin = g['final']
            reasons = [skip]
            if fin is not None:
                if g['at'] is not None:
                    reasons.append(z3.And(0 <= g['at'], g['at'] < n, V(g['at']) == fin))
                if g['filter']:
                    reasons.append(z3.Not(PASS(fin)))
                if g['k'] is not None:
                    k = g['k']
                    reasons.append(z3.And(0 <= k, k < n, STR(fin), STR(V(k)), STARTS(V(k), fin)))
            RT.prove(z3.Or(*reasons), 'a value is dropped only if it is refused, or already stored')
            return
        fin = g['final']
        RT.prove(z3.Not(skip), 'an empty value, or one of a wrong type, is not stored')
        if g['filter']:
            RT.prove(PASS(fin), 'a value which the filter refuses is not stored')
        new = lambda k: q.term(k)
        pos = z3.simplify(g['k']) if g['k'] is not None and RT.entails(n2 == n) else n
        RT.prove(new(pos) == fin, 'the value is stored')
        for k in (w1, w2):
            RT.prove(z3.Implies(z3.And(0 <= k, k < n, k != pos), new(k) == V(k)), 'the other values are kept')
        if RT.entails(n2 == n):
            RT.cover('replaced')
            RT.prove(z3.And(STR(fin), STR(V(pos)), STARTS(fin, V(pos))), 'only the beginning of the new text is replaced')
        else:
            RT.cover('added')
        at = lambda k: z3.If(k == pos, fin, V(k))
        RT.prove(inv1(w1, n2, at), 'stored values were accepted')
        RT.prove(z3.Implies(w1 != w2, inv2(w1, w2, n2, at)), 'stored values are different')
        it = [x for sg in segs if sg[0] == 'lit' for x in sg[1]]
        RT.prove(z3.BoolVal(g.get('made') == 1), 'one item is made')
        RT.prove(g['made text'] == text, 'the text of the value')
    return body


class Conf:
    RAW_OUTPUT = False

    @property
    def MAX_STR_LENGTH(self):
        return mkint(MAXLEN)


def cc_createItem(self, value, text=None):
    g = RT.ghost
    g['made'] = g.get('made', 0) + 1
    g['made text'] = text
    RT.prove(isinstance(value, Val), '_createItem: value')
    RT.prove(value.e == g['final'], 'the normalized value is stored')
    return Item(value.e)


def b_contains():
    from hachoir.metadata import metadata_item as M
    n = RT.input_int('stored', 0).e
    v = Val(RT.input_int('value').e)
    s = obj(M.Data, values=stored(n))
    RT.ghost['v'] = v
    kind, r = expect(DM + '__contains__', M.Data.__contains__, s, v)
    RT.prove(kind == 'ret', '__contains__: no error')
    if r is True:
        RT.cover('stored')
        k = RT.ghost['k']
        RT.prove(z3.And(0 <= k, k < n, V(k) == v.e), 'the value is stored')
    else:
        RT.prove(r is False, 'a boolean')
        RT.cover('not stored')
        RT.prove(z3.Implies(z3.And(0 <= w1, w1 < n), V(w1) != v.e), 'the value is not stored')


def ct_inv(L):
    g = RT.ghost
    i = zint(L._idx)
    g['k'] = i
    return [('not yet', z3.Implies(z3.And(0 <= w1, w1 < i), V(w1) != g['v'].e))]


def b_create():
    from hachoir.metadata import metadata_item as M
    handler = RT.choice([None, 'ok'], 'text handler')
    v = Val(RT.input_int('value').e)
    text = RT.choice([None, '', 'text'], 'text')
    log = []

    def h(x):
        log.append('handler')
        RT.prove(x is v, 'the value is given to the handler')
        return 'handled'

    def uni(x):
        log.append('unicode')
        RT.prove(x is v, 'the value')
        return 'unicode'
    s = obj(M.Data, text_handler=h if handler else None)
    with patched(M, makeUnicode=uni):
        kind, r = expect(DM + '_createItem', M.Data._createItem, s, v, text)
    RT.prove(kind == 'ret' and r.value is v, 'the value')
    if text is not None:
        RT.prove(r.text == text and not log, 'the text which was given')
    elif isinstance(r.text, Val):
        RT.prove(z3.And(r.text.e == v.e, STR(v.e)), 'a text is its own text')
    else:
        RT.prove(z3.Not(STR(v.e)), 'a text is its own text')
        RT.prove(r.text == ('handled' if handler else 'unicode'), 'text of a value')


def b_data():
    from hachoir.metadata import metadata_item as M
    p1, p2 = RT.input_int('priority', 100, 999), RT.input_int('other', 100, 999)
    a, b = [object.__new__(M.Data) for _ in 'ab']
    ty = RT.choice([None, str, (int, float), [int]], 'type')
    f, h, c = object(), object(), object()
    kind, r = expect(DM + '__init__', M.Data.__init__, a, 'k', p1, 'text', h, ty, f, c)
    RT.prove(kind == 'ret', '__init__: no error')
    RT.prove(a.values == [] and a.key == 'k' and a.description == 'text' and a.filter is f and a.text_handler is h and a.conversion is c, 'an empty entry')
    RT.prove(a.type == (ty if ty is None or isinstance(ty, (tuple, list)) else (ty,)), 'types')
    RT.prove(zint(a.priority) == p1.e, 'priority')
    M.Data.__init__(b, 'l', p2, 'text2')
    RT.prove(zbool(a < b) == (p1.e < p2.e), 'entries are ordered by priority')


# ---------------------------------------------------------------- filters

class Num(Sym):
    """a number, or NaN"""
    __hash__ = None

    def __init__(self, e, nan):
        self.e, self.nan = e, nan

    def _c(self, o, f):
        return False if self.nan else mkbool(f(self.e, zint(o)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self is o and not self.nan if isinstance(o, Num) else self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return True if self.nan else self._c(o, lambda a, b: a != b)

    def sym_isinstance(self, ts):
        return RT.ghost['in types'] and (t(ts, float) or t(ts, int))


def b_filter():
    from hachoir.metadata import filter as M
    g = RT.ghost
    lo = None if RT.choice([True, False], 'no minimum') else RT.input_int('min')
    hi = None if RT.choice([True, False], 'no maximum') else RT.input_int('max')
    intypes = g['in types'] = RT.choice([True, False], 'the value is a number')
    nan = RT.choice([True, False], 'NaN')
    v = Num(RT.input_int('value').e, nan)
    f = object.__new__(M.NumberFilter)
    kind, r = expect(FM + 'NumberFilter.__init__', M.NumberFilter.__init__, f, lo, hi)
    RT.prove(kind == 'ret', 'NumberFilter: no error')
    kind, r = expect(FM + 'Filter.__call__', M.Filter.__call__, f, v)
    RT.prove(kind == 'ret', 'filter: no error')
    ok = z3.BoolVal(True)
    if intypes:
        if nan:
            ok = z3.BoolVal(lo is None and hi is None)
        else:
            ok = z3.And(*([] if lo is None else [v.e >= lo.e]) + ([] if hi is None else [v.e <= hi.e]) + [z3.BoolVal(True)])
    RT.prove(isinstance(r, (bool, SBool)) and zbool(r) == ok, 'exactly the values of the range are accepted')


def micro(d):
    b = datetime.datetime(1, 1, 1)
    if isinstance(d, datetime.datetime):
        x = d.replace(tzinfo=None) - b - (d.utcoffset() or datetime.timedelta(0))
    else:
        x = datetime.datetime(d.year, d.month, d.day) - b
    return (x.days * 86400 + x.seconds) * 10**6 + x.microseconds


class Dt(Sym):
    """a date (at midnight), or a time with or without time zone"""
    __hash__ = None

    def __init__(self, e, kind):
        self.e, self.kind = e, kind

    @property
    def tzinfo(self):
        if self.kind == 'date':
            raise AttributeError('tzinfo')
        return object() if self.kind == 'aware' else None

    def _c(self, o, f):
        k = 'date' if not isinstance(o, datetime.datetime) else 'aware' if o.tzinfo is not None else 'naive'
        if k != self.kind:
            raise TypeError("can't compare %s and %s" % (self.kind, k))
        return mkbool(f(self.e, iv(micro(o))))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def sym_isinstance(self, ts):
        if self.kind == 'other':
            return False
        return t(ts, datetime.date) or self.kind != 'date' and t(ts, datetime.datetime)


def b_dfilter():
    from hachoir.metadata import filter as M
    kind = RT.choice(['date', 'naive', 'aware', 'other'], 'kind')
    v = Dt(RT.input_int('microseconds', 0).e, kind)
    if kind == 'date':
        RT.assume(v.e % 86400000000 == 0)
    f = object.__new__(M.DatetimeFilter)
    k, r = expect(FM + 'DatetimeFilter.__init__', M.DatetimeFilter.__init__, f)
    RT.prove(k == 'ret', 'DatetimeFilter: no error')
    k, r = expect(FM + 'DatetimeFilter.__call__', M.DatetimeFilter.__call__, f, v)
    RT.prove(k == 'ret', 'filter: no error')
    lo, hi = micro(datetime.date(M.MIN_YEAR, 1, 1)), micro(datetime.date(M.MAX_YEAR, 12, 31))
    RT.prove(zbool(r) == (z3.BoolVal(True) if kind == 'other' else z3.And(v.e >= lo, v.e <= hi)), 'exactly the dates of the range are accepted')


# ---------------------------------------------------------------- export

N = z3.Int('n_entries')
PR = z3.Function('priority_in_order', I, I)          # of the entries, sorted
SRC = z3.Function('position_in_order', I, I)
NV = z3.Function('n_values', I, I)
e1, j1, e2, j2 = z3.Ints('some_entry some_value another_entry another_value')


class Tok(Sym):
    __hash__ = None

    """a text of an entry or of one of its values"""

    def __init__(self, what, d, j=None):
        self.what, self.d, self.j = what, d, j


class Entry(Sym):
    """an entry, by its place in the sorted list"""
    __hash__ = None

    def __init__(self, i):
        self.i = z3.simplify(i)
        RT.assume(NV(self.i) >= 0)

    @property
    def priority(self):
        return mkint(PR(self.i))

    @property
    def values(self):
        return EValues(self.i)

    @property
    def description(self):
        return Tok('description', self.i)

    @property
    def key(self):
        return Tok('key', self.i)

    def len_(self):
        return mkint(NV(self.i))

    def sym_item(self, j):
        return EItem(self.i, zint(j))

    def __getitem__(self, j):
        return EItem(self.i, zint(j))

    def __bool__(self):
        return RT.branch(NV(self.i) > 0)

    def __lt__(self, o):
        return mkbool(PR(self.i) < PR(o.i))


class EValues(Sym):
    __hash__ = None

    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return RT.branch(NV(self.i) > 0)

    def len_(self):
        return mkint(NV(self.i))

    def sym_item(self, j):
        return EItem(self.i, zint(j))


class EItem:
    def __init__(self, i, j):
        self.text, self.value = Tok('text', i, j), Tok('value', i, j)


class Unsorted(Sym):
    """the entries in any order"""
    __hash__ = None

    def len_(self):
        return mkint(N)

    def sym_iter(self):
        return self

    def sym_item(self, i):
        k = SRC(zint(i))
        RT.assume(z3.And(0 <= k, k < N))
        return Entry(k)

    def sym_list(self):
        return self


class DataDict(Sym):
    __hash__ = None

    def values(self):
        return Unsorted()


class Sorted(Unsorted):
    def sym_item(self, i):
        i = zint(i)
        for a, b in ((i, e1), (e1, i), (i, e2), (e2, i), (e1, e2), (e2, e1)):
            RT.assume(z3.Implies(z3.And(0 <= a, a <= b, b < N), PR(a) <= PR(b)))
        return Entry(i)


def m_sorted(it, k):
    """ASSUMED contract of sorted: the elements, in the order of their keys"""
    if not isinstance(it, Unsorted):
        raise Unsupported('sorted')
    RT.prove(set(k) <= {'key'}, 'sorted: smallest priority first')
    x, y = Entry(RT.int('x').e), Entry(RT.int('y').e)
    if k.get('key') is not None:
        f = k['key']
        a, b = f(x), f(y)
        RT.prove(zbool(a < b) == (PR(x.i) < PR(y.i)), 'entries are sorted by priority')
    return Sorted()


class Line:
    def __init__(self, title, value, prefix):
        self.title, self.value, self.prefix = title, value, prefix


def m_mod(f, a):
    if isinstance(a, tuple) and f == '%s%s: %s' and len(a) == 3:
        return Line(a[1], a[2], a[0])
    return 'formatted'


class Lines(Sym):
    """lines which were written: number, and place of the ones of two values"""
    __hash__ = None
    _pyvc_name = 'lines'

    def __init__(self, first=None, n=iv(0), p=iv(-1), q=iv(-1)):
        self.first, self.n, self.p, self.q = first, n, p, q

    def snap_state(self):
        return (self.n.sexpr(), self.p.sexpr(), self.q.sexpr())

    def snap_children(self):
        return []

    def havoc(self):
        self.n, self.p, self.q = RT.int('n_lines').e, RT.int('line').e, RT.int('other_line').e
        RT.assume(z3.And(self.n >= 1, -1 <= self.p, self.p < self.n, -1 <= self.q, self.q < self.n))

    def havoc_value(self):
        r = Lines(self.first)
        r.havoc()
        return r

    def append(self, l):
        g = RT.ghost
        if isinstance(l, str) and self.first is None and RT.entails(self.n == 0):
            self.first, self.n = l, iv(1)
            return
        RT.prove(isinstance(l, Line), 'a line for a value')
        RT.prove(isinstance(l.title, Tok) and isinstance(l.value, Tok), 'name and text of a value')
        RT.prove(l.prefix == g['prefix'], 'line prefix')
        RT.prove(l.title.what == ('description' if g['human'] else 'key'), 'the name of the entry')
        RT.prove(l.value.what == ('text' if g['human'] else 'unicode'), 'the text of the value')
        RT.prove(l.title.d == l.value.d, 'name and value of the same entry')
        RT.prove(PR(l.title.d) <= g['limit'], 'entries of a lower priority are left out')
        d, j = l.value.d, l.value.j
        for a, b, x in ((e1, j1, 'p'), (e2, j2, 'q')):
            RT.prove(z3.Implies(z3.And(d == a, j == b), getattr(self, x) == -1), 'a value is written once')
        self.p = z3.simplify(z3.If(z3.And(d == e1, j == j1), self.n, self.p))
        self.q = z3.simplify(z3.If(z3.And(d == e2, j == j2), self.n, self.q))
        self.n = z3.simplify(self.n + 1)

    def len_(self):
        return mkint(self.n)


def mk_lines(l):
    if len(l) != 1:
        raise Unsupported('lines')
    return Lines(l[0], iv(1))


def lines(L):
    x = [v for v in L._d.values() if isinstance(v, Lines)]
    if len({id(v) for v in x}) != 1:
        raise Unsupported('lines')
    return x[0]


def before(a, b, c, d):
    return z3.Or(a < c, z3.And(a == c, b < d))


def here(e, j):
    return z3.And(0 <= e, e < N, 0 <= j, j < NV(e))


def ex_inv(L, i, j=None):
    """entries before i, values before j of entry i"""
    g = RT.ghost
    l = lines(L)
    r = [('lines', z3.And(l.n >= 1, l.p >= -1, l.p < l.n, l.q >= -1, l.q < l.n))]
    for a, b, p in ((e1, j1, l.p), (e2, j2, l.q)):
        done = z3.And(here(a, b), PR(a) <= g['limit'], a < i if j is None else z3.Or(a < i, z3.And(a == i, b < j)))
        r.append(('written', (p >= 0) == done))
        r.append(('after the title', p != 0))
    r.append(('order', z3.Implies(z3.And(l.p >= 0, l.q >= 0), (l.p < l.q) == before(e1, j1, e2, j2))))
    if j is None:
        r.append(('limit', z3.BoolVal(True)))
    return r


def ex_inv1(L):
    return ex_inv(L, zint(L._idx)) + [('nothing was written', z3.Or(lines(L).n > 1, z3.And(lines(L).p == -1, lines(L).q == -1)))]


def ex_inv2(L):
    it = L._it
    return ex_inv(L, it.i, zint(L._idx))


def ex_after2(L):
    for a in (e1, e2):
        for x, y in ((L._it.i, a), (a, L._it.i)):
            RT.assume(z3.Implies(z3.And(0 <= x, x <= y, y < N), PR(x) <= PR(y)))


def b_export():
    from hachoir.metadata import metadata as M
    g = RT.ghost
    RT.assume(N >= 0)
    prio = None if RT.choice([True, False], 'no priority') else RT.input_int('priority')
    g['human'] = human = RT.choice([True, False], 'human')
    g['prefix'] = prefix = '- '
    title = RT.choice([None, '', 'T'], 'title')
    g['limit'] = iv(999) if prio is None else z3.If(prio.e < 100, 100, z3.If(prio.e > 999, 999, prio.e))
    for x in (e1, e2):
        RT.assume(z3.And(PR(x) >= 100, PR(x) <= 999))
    RT.assume(z3.Or(e1 != e2, j1 != j2))
    s = object.__new__(M.Metadata)
    object.__setattr__(s, '_Metadata__data', DataDict())
    object.__setattr__(s, 'header', 'Header')
    RT.assume(z3.Implies(z3.And(0 <= e1, e1 < N, 0 <= e2, e2 < N, e1 <= e2), PR(e1) <= PR(e2)))

    def uni(v):
        RT.prove(isinstance(v, Tok) and v.what == 'value', 'makeUnicode of a value')
        return Tok('unicode', v.d, v.j)
    with patched(M, makeUnicode=uni):
        kind, r = expect(MM + 'Metadata.exportPlaintext', M.Metadata.exportPlaintext, s, prio, human, prefix, title)
    RT.prove(kind == 'ret', 'exportPlaintext: no error')
    wanted = lambda a, b: z3.And(here(a, b), PR(a) <= g['limit'])
    if r is None:
        RT.cover('empty')
        RT.prove(z3.Not(wanted(e1, j1)), 'nothing only if there is no value of this priority')
        return
    RT.cover('lines')
    RT.prove(isinstance(r, Lines) and r.first == (title or 'Header') + ':' and RT.entails(r.n >= 1), 'the title comes first')
    RT.prove((r.p >= 1) == wanted(e1, j1), 'every value up to this priority is written, once')
    RT.prove(z3.Implies(z3.And(r.p >= 0, r.q >= 0), (r.p < r.q) == before(e1, j1, e2, j2)), 'lines in the order of the priorities, then of the values')


# ---------------------------------------------------------------- metadata of several parts

NG = z3.Int('n_groups')
gw1, gw2 = z3.Ints('some_group another_group')
HASG = z3.Function('group_has_lines', I, B)
LINES = z3.Function('n_lines_of_group', I, I)


class Part(Sym):
    """the lines of one group (-1: common)"""
    __hash__ = None

    def __init__(self, i):
        self.i = i
        RT.assume(LINES(i) >= 2)

    def __bool__(self):
        return True

    def len_(self):
        return mkint(LINES(self.i))


class Parts(Sym):
    """parts which were written: number of lines, places of the common part and of two groups"""
    __hash__ = None
    _pyvc_name = 'parts'

    def __init__(self):
        self.n, self.c, self.p, self.q = iv(0), iv(-1), iv(-1), iv(-1)

    def snap_state(self):
        return tuple(x.sexpr() for x in (self.n, self.c, self.p, self.q))

    def snap_children(self):
        return []

    def havoc(self):
        self.n, self.c, self.p, self.q = [RT.int(x).e for x in ('n_lines', 'common', 'group', 'other_group')]

    def havoc_value(self):
        r = Parts()
        r.havoc()
        return r

    def extend(self, o):
        if not isinstance(o, Part):
            raise Unsupported('part')
        for x, i in (('c', iv(-1)), ('p', gw1), ('q', gw2)):
            RT.prove(z3.Implies(o.i == i, getattr(self, x) == -1), 'a part is written once')
            setattr(self, x, z3.simplify(z3.If(o.i == i, self.n, getattr(self, x))))
        self.n = z3.simplify(self.n + LINES(o.i))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def len_(self):
        return mkint(self.n)

    def __bool__(self):
        return RT.branch(self.n > 0)


class Group:
    def __init__(self, i):
        self.i = i

    def exportPlaintext(self, priority=None, human=True, line_prefix='- ', title=None):
        g = RT.ghost
        RT.prove(priority is g['prio'] and human is g['human'] and line_prefix == g['prefix'], 'options of the export')
        RT.prove(title is None if human else isinstance(title, GKey) and RT.entails(title.i == self.i), 'title of a group')
        return Part(self.i) if RT.branch(HASG(self.i)) else None


class GKey:
    def __init__(self, i):
        self.i = i


class Groups(Sym):
    __hash__ = None

    def items(self):
        return self

    def len_(self):
        return mkint(NG)

    def sym_item(self, i):
        return GKey(zint(i)), Group(zint(i))

    def sym_iter(self):
        return self


def c_export(self, priority=None, human=True, line_prefix='- ', title=None):
    """contract of Metadata.exportPlaintext: unit above"""
    g = RT.ghost
    RT.prove(self is g['s'] and priority is g['prio'] and human is g['human'] and line_prefix == g['prefix'] and title is None, 'options of the export')
    if not g['common']:
        return None
    p = Parts()
    p.extend(Part(iv(-1)))
    return p


def mp_inv(L):
    g = RT.ghost
    i = zint(L._idx)
    x = [v for v in L._d.values() if isinstance(v, Parts)]
    if len({id(v) for v in x}) != 1:
        raise Unsupported('parts')
    l = x[0]
    r = [('lines', z3.And(l.n >= 0, l.c < l.n, l.p < l.n, l.q < l.n, l.c >= -1, l.p >= -1, l.q >= -1)),
         ('common', l.c == (0 if g['common'] else -1))]
    if g['common']:
        r.append(('common first', z3.And(l.n > 0, l.p != 0, l.q != 0)))
    for a, p in ((gw1, l.p), (gw2, l.q)):
        r.append(('written', (p >= 0) == z3.And(0 <= a, a < i, HASG(a))))
    r.append(('order', z3.Implies(z3.And(l.p >= 0, l.q >= 0), (l.p < l.q) == (gw1 < gw2))))
    return r


def b_multi():
    from hachoir.metadata import metadata as M
    g = RT.ghost
    RT.assume(z3.And(NG >= 0, gw1 != gw2, gw1 >= 0, gw2 >= 0))
    g['prio'] = RT.choice([None, 300], 'priority')
    g['human'] = RT.choice([True, False], 'human')
    g['prefix'] = '* '
    g['common'] = RT.choice([True, False], 'common values')
    s = g['s'] = object.__new__(M.MultipleMetadata)
    object.__setattr__(s, '_MultipleMetadata__groups', Groups())
    kind, r = expect(MM + 'MultipleMetadata.exportPlaintext', M.MultipleMetadata.exportPlaintext, s, g['prio'], g['human'], '* ')
    RT.prove(kind == 'ret', 'exportPlaintext: no error')
    if r is None:
        RT.cover('empty')
        RT.prove(z3.And(z3.BoolVal(not g['common']), z3.Not(z3.And(gw1 < NG, HASG(gw1)))), 'nothing only if there are no values')
    else:
        RT.cover('lines')
        RT.prove(isinstance(r, Parts), 'lines')
        RT.prove(r.c == (0 if g['common'] else -1), 'the common values come first')
        RT.prove((r.p >= 0) == z3.And(gw1 < NG, HASG(gw1)), 'every group is written, once')
        RT.prove(z3.Implies(z3.And(r.p >= 0, r.q >= 0), (r.p < r.q) == (gw1 < gw2)), 'groups in their order')


def b_set():
    from hachoir.metadata import metadata as M
    known = RT.choice([True, False], 'known')
    log = []

    class D:
        def __init__(self, k):
            self.key, self.metadata = k, None

        def add(self, v):
            log.append((self, v))
    d, o = D('title'), D('other')
    s = object.__new__(M.Metadata)
    object.__setattr__(s, '_Metadata__data', {})
    for x in (d, o):
        k, r = expect(MM + 'Metadata.register', M.Metadata.register, s, x)
        RT.prove(k == 'ret' and x.metadata is s, 'register')
    k, r = expect(MM + 'Metadata.register', M.Metadata.register, s, D('title'))
    RT.prove(k == 'exc' and type(r) is AssertionError, 'an entry is registered once')
    v = object()
    kind, r = expect(MM + 'Metadata.__setattr__', M.Metadata.__setattr__, s, 'title' if known else 'nothing', v)
    if known:
        RT.prove(kind == 'ret' and log == [(d, v)], 'the value is added to its entry')
    else:
        RT.prove(kind == 'exc' and type(r) is KeyError and log == [], 'an unknown entry')
    RT.prove(list(s) == [d, o], 'all the entries')


CALLS = dict(lib.LOG_CALLS)
AC = dict(CALLS, **{DM + '__contains__': c_contains, DM + '_createItem': cc_createItem})
UNITS = [
    Unit('stored values', [DM + '__contains__'], b_contains, loops={DM + '__contains__#0': LoopSpec(ct_inv)}),
    Unit('text of a value', [DM + '_createItem'], b_create),
    Unit('an entry', [DM + '__init__', DM + '__lt__'], b_data),
    Unit('range of numbers', [FM + 'NumberFilter.__init__', FM + 'Filter.__call__'], b_filter),
    Unit('range of dates', [FM + 'DatetimeFilter.__init__', FM + 'DatetimeFilter.__call__'], b_dfilter),
    Unit('export', [MM + 'Metadata.exportPlaintext'], b_export, calls=CALLS, models={'sorted': m_sorted, 'str.mod': m_mod},
         symlists={MM + 'Metadata.exportPlaintext': Lines, MM + 'Metadata.exportPlaintext:list': mk_lines},
         loops={MM + 'Metadata.exportPlaintext#0': LoopSpec(ex_inv1), MM + 'Metadata.exportPlaintext#1': LoopSpec(ex_inv2, after=ex_after2)}),
    Unit('export of several parts', [MM + 'MultipleMetadata.exportPlaintext'], b_multi, calls=dict(CALLS, **{MM + 'Metadata.exportPlaintext': c_export}),
         symlists={MM + 'MultipleMetadata.exportPlaintext': Parts}, loops={MM + 'MultipleMetadata.exportPlaintext#0': LoopSpec(mp_inv)}),
    Unit('setting a value', [MM + 'Metadata.__setattr__', MM + 'Metadata.register', MM + 'Metadata.__iter__'], b_set, calls=CALLS),
]
for ty, nm in ((None, 'any type'), ((str,), 'text'), ((Typ,), 'another type'), ((str, Typ), 'text or another type')):
    for conv in (False, True):
        if conv and ty is None:
            continue
        for res in ('value', 'pair', 'none', 'exc') if conv else (None,):
            UNITS.append(Unit('adding a value%s: %s' % (' (conversion: %s)' % res if conv else '', nm), [DM + 'add'], b_add(conv, ty, res), calls=AC,
                              loops={DM + 'add#0': LoopSpec(add_inv)}, models={'enumerate': lambda l, s: Enum(l)}, paths=20000))
UNITS.sort(key=lambda u: 0 if 'pair)' in u.name else 1 if u.name.startswith('adding') else 2)     # the long ones first
BOUNDED = []
