"""C20: parser selection returns only validated parsers.

The candidates are an arbitrary sequence of parser classes: which of them
validate the stream, which can be built without validation, how they fail and
which were requested without validation are arbitrary functions of the
position; one position is fixed beforehand and all the obligations are about
this one. A list of parsers is observed through two parsers P and Q of the
registry, fixed beforehand: its length and their positions (-1: absent).
"""
import z3
from pyvc.core import RT, LoopSpec, SInt, SBool, Sym, Opaque, mkint, mkbool, zint, zbool, iv, Unsupported, PathEnd
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.lib import obj
from contracts.c16 import patched
from contracts.c18 import cell, TDict

PROP = 'C20'
QP = 'hachoir.parser.guess:QueryParser.'
GM = 'hachoir.parser.guess:'
PL_ = 'hachoir.parser.parser_list:ParserList.'
HP = 'hachoir.parser.parser:'
I, B = z3.IntSort(), z3.BoolSort()


# ---------------------------------------------------------------- trying the candidates

OK = z3.Function('validates', I, B)
BUILD = z3.Function('can_be_built', I, B)
VERR = z3.Function('fails_with_ValidateError', I, B)
FORCED = z3.Function('requested_without_validation', I, B)


def good(i):
    return z3.If(FORCED(i), BUILD(i), OK(i))


class BrokenCandidate(Exception):
    pass


class Par:
    """a parser object"""

    def __init__(self, i, validated, how):
        self.i, self.validated, self.how = i, validated, how

    @property
    def __class__(self):
        return Cand(self.i)


class Cand(Sym):
    """a parser class, at one position"""
    __name__ = 'candidate'

    def __init__(self, i):
        self.i = z3.simplify(i)

    def __eq__(self, o):
        return mkbool(self.i == o.i) if isinstance(o, Cand) else False

    def __ne__(self, o):
        return mkbool(self.i != o.i) if isinstance(o, Cand) else True
    __hash__ = None

    def same_as(self, o):
        return self == o

    def snap_state(self):
        return 0

    def snap_children(self):
        return []

    def __call__(self, stream, **k):
        from hachoir.parser import ValidateError
        g = RT.ghost
        RT.prove(stream is g['stream'], 'the parser is built for the stream')
        RT.prove(set(k) <= {'validate'}, 'arguments of the parser')
        validate = k.get('validate', False)
        if not g['fallback stage'] and 'validate' not in k:
            RT.prove(z3.And(zbool(g['use_fallback']), self.i == 0), 'a parser is used without asking for a validation only for a fallback')
            g['fallback stage'] = True
            g['last'] = Par(self.i, False, 'fallback')
            return g['last']
        t = g['tries']
        RT.prove(self.i == t.e, 'candidates are tried in order, each of them once')
        t.k = mkint(t.e + 1)
        RT.prove(zbool(validate) == z3.Not(FORCED(self.i)), 'only a parser which was requested skips the validation')
        if RT.branch(good(self.i)):
            g['last'] = Par(self.i, mkbool(z3.Not(FORCED(self.i))), 'found')
            return g['last']
        if RT.branch(VERR(self.i)):
            raise ValidateError('no')
        raise RT.choice([BrokenCandidate, KeyError, MemoryError, RecursionError], 'error of a candidate')('broken')


class Cands(Sym):
    """the candidates"""
    _pyvc_name = 'candidates'

    def __init__(self, n):
        self.n = n

    def snap_state(self):
        return 0

    def snap_children(self):
        return []

    def len_(self):
        return mkint(self.n)

    def sym_item(self, i):
        return Cand(zint(i))

    def sym_contains(self, c):
        if isinstance(c, Cand):
            return RT.branch(z3.And(c.i >= 0, c.i < self.n))
        return False


class ForcedSet(Sym):
    _pyvc_name = 'forced'

    def snap_state(self):
        return 0

    def snap_children(self):
        return []

    def sym_contains(self, c):
        return RT.branch(FORCED(c.i))


class Stream:
    _pyvc_track = True
    _pyvc_name = 'stream'


W = z3.Int('some_candidate')


def verr0():
    g = RT.ghost
    return z3.And(z3.BoolVal(bool(g['fallback'])), z3.BoolVal(bool(g['single'])), VERR(iv(0)), z3.Not(good(iv(0))))


def do_inv(L):
    g = RT.ghost
    i, n = zint(L._idx), g['n']
    fb, fl = L.get('fb'), L.get('fallback')
    r = [('tries', g['tries'].e == i),
         ('earlier candidates failed', z3.Implies(z3.And(0 <= W, W < i), z3.Not(good(W)))),
         ('no parser found yet', z3.BoolVal(g['last'] is None and '_cached_parser' not in g['stream'].__dict__))]
    if fl is not None:
        r.append(('fallback is for the first candidate', zbool(fl) == z3.And(i == 0, z3.BoolVal(bool(g['fallback'])))))
    if fb is not None:
        r.append(('fallback', z3.And(fb.i == 0, i > 0, verr0()) if isinstance(fb, Cand) else z3.BoolVal(False)))
    else:
        r.append(('no fallback', z3.Or(i == 0, z3.Not(verr0()))))
    return r


def do_havoc(L):
    from hachoir.parser import guess as M
    d = {}
    for nm, v in L._d.items():
        if v is None or isinstance(v, Cand):
            if nm == 'fb':
                d[nm] = None if RT.choice([True, False], 'no fallback yet') else Cand(iv(0))
        elif v is M.warning or v is M.info:
            d[nm] = v
    return d


def quiet(*a, **k):
    pass


def quiet2(*a, **k):
    pass


def b_doparse():
    from hachoir.parser import guess as M
    g = RT.ghost
    n = g['n'] = RT.input_int('candidates', 0).e
    fbk = g['fallback'] = RT.choice([True, False], 'fallback asked for')
    single = g['single'] = RT.choice([True, False, None], 'one candidate for the first tag')
    usefb = g['use_fallback'] = RT.choice([True, False], 'use_fallback')
    args = RT.choice([None, {}, {'x': object(), 'y': object()}], 'arguments')
    other = None if RT.choice([True, False], 'no other candidates') else Cand(RT.input_int('other', 0).e)
    st = g['stream'] = Stream()
    g['last'], g['fallback stage'] = None, False
    cell('tries', iv(0))
    s = obj(M.QueryParser, parsers=Cands(n), forced=ForcedSet(), use_fallback=usefb, parser_args=args, other=other, fallback=single)
    s._pyvc_name = 'query'
    with patched(M, warning=quiet, info=quiet2):
        kind, r = expect(QP + 'doparse', M.QueryParser.doparse, s, st, fbk)
    RT.prove(kind == 'ret', 'doparse: an error of a candidate is contained')
    RT.prove(r is g['last'], 'the parser which was found')
    t = g['tries'].e
    RT.prove(z3.And(t >= 0, t <= n), 'number of candidates tried')
    if g['last'] is None or r.how == 'fallback':
        RT.prove(t == n, 'nothing is found once all the candidates were tried')
        RT.prove(z3.Implies(z3.And(0 <= W, W < n), z3.Not(good(W))), 'all the candidates failed')
        RT.prove('_cached_parser' not in st.__dict__, 'no parser is remembered')
    if g['last'] is None:
        RT.cover('nothing found')
        RT.prove(z3.Not(z3.And(z3.BoolVal(usefb), n > 0, verr0())), 'the fallback is used if it was requested')
    elif r.how == 'fallback':
        RT.cover('fallback')
        RT.prove(z3.And(z3.BoolVal(usefb), verr0(), n > 0), 'fallback: only when requested, the only candidate for the first tag')
    else:
        RT.cover('found')
        RT.prove(z3.And(r.i == t - 1, good(r.i)), 'the parser is valid, or was requested')
        RT.prove(z3.Implies(z3.And(0 <= W, W < r.i), z3.Not(good(W))), 'it is the first one')
        for k, v in (args or {}).items():
            RT.prove(r.__dict__.get(k) is v, 'the arguments are given to the parser')
        ref = st.__dict__.get('_cached_parser')
        if ref is not None:
            RT.prove(ref() is r, 'the parser which is remembered')
            RT.prove(z3.Not(FORCED(r.i)), 'only a parser which was validated is remembered')


# ---------------------------------------------------------------- the parser found before

def c_doparse(self, stream, fallback=True):
    """contract of doparse: unit above"""
    g = RT.ghost
    RT.prove(self is g['self'] and stream is g['stream'] and fallback == g['fallback'], 'doparse: arguments')
    g['calls'] += 1
    return g['result']


def b_parse():
    from hachoir.parser import guess as M
    g = RT.ghost
    n = g['n'] = RT.input_int('candidates', 0).e
    st = g['stream'] = Stream()
    state = RT.choice(['none', 'dead', 'alive'], 'parser found before')
    cached = Par(RT.input_int('cached').e, True, 'cached')
    if state != 'none':
        st._cached_parser = lambda: cached if state == 'alive' else None
    before = st.__dict__.get('_cached_parser')
    fb = g['fallback'] = RT.choice([True, False], 'fallback')
    s = g['self'] = obj(M.QueryParser, parsers=Cands(n))
    g['calls'] = 0
    g['result'] = RT.choice([None, Par(iv(0), True, 'found')], 'result')
    kind, r = expect(QP + 'parse', M.QueryParser.parse, s, st, fb)
    RT.prove(kind == 'ret', 'parse: no error')
    use = z3.And(z3.BoolVal(state == 'alive'), cached.i >= 0, cached.i < n)
    if g['calls']:
        RT.cover('search')
        RT.prove(g['calls'] == 1 and r is g['result'], 'the parser found by doparse')
        RT.prove(z3.Not(use), 'the parser found before is used again if it is a candidate')
    else:
        RT.cover('found before')
        RT.prove(use, 'a parser which is not a candidate is not used')
        RT.prove(r is cached, 'the parser found before')
    RT.prove(st.__dict__.get('_cached_parser') is before, 'parse remembers nothing by itself')


# ---------------------------------------------------------------- which candidates, and in which order

class K(Sym):
    """a parser class: 0 is P, 1 is Q, 2 one named by a class tag, the others are >= 3"""
    __hash__ = None

    def __init__(self, i):
        self.i = z3.simplify(zint(i))

    def __eq__(self, o):
        return mkbool(self.i == o.i) if isinstance(o, K) else False

    def __ne__(self, o):
        return mkbool(self.i != o.i) if isinstance(o, K) else True

    def same_as(self, o):
        return self == o

    def __call__(self, *a):
        raise Unsupported('a parser is built')


def elem(k, p, q):
    """the element at k of a list where P is at p and Q at q"""
    if RT.branch(k == p):
        return K(0)
    if RT.branch(k == q):
        return K(1)
    o = RT.int('parser').e
    RT.assume(o >= 2)
    return K(o)


class PL(Sym):
    """a list of parsers, where P and Q are at most once"""
    __hash__ = None

    def __init__(self, n=iv(0), p=iv(-1), q=iv(-1)):
        self.n, self.p, self.q = [z3.simplify(x) for x in (n, p, q)]

    def wf(self):
        n, p, q = self.n, self.p, self.q
        return z3.And(n >= 0, -1 <= p, p < n, -1 <= q, q < n, z3.Or(p != q, p == -1), n >= z3.If(p >= 0, 1, 0) + z3.If(q >= 0, 1, 0))

    @staticmethod
    def fresh(nm='list'):
        r = PL(RT.int(nm + '_len').e, RT.int(nm + '_P').e, RT.int(nm + '_Q').e)
        RT.assume(r.wf())
        return r

    @staticmethod
    def named(nm, *a):
        r = PL(*a)
        r._pyvc_name = nm
        return r

    def snap_state(self):
        return (self.n.sexpr(), self.p.sexpr(), self.q.sexpr())

    def snap_children(self):
        return []

    def havoc(self):
        f = PL.fresh()
        self.n, self.p, self.q = f.n, f.p, f.q

    def havoc_value(self):
        return PL.fresh()

    @staticmethod
    def of(o):
        if isinstance(o, PL):
            return o
        if isinstance(o, (list, tuple)) and all(isinstance(x, K) for x in o):
            r = PL()
            for x in o:
                r.append(x)
            return r
        raise Unsupported('list of parsers %r' % type(o))

    def len_(self):
        return mkint(self.n)

    def sym_item(self, i):
        return elem(zint(i), self.p, self.q)

    def sym_list(self):
        return PL(self.n, self.p, self.q)

    copy = sym_list

    def __bool__(self):
        return RT.branch(self.n > 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if (k.start, k.stop, k.step) == (None, None, None):
                return self.sym_list()
            raise Unsupported('slice')
        k = zint(k)
        RT.prove(z3.And(-self.n <= k, k < self.n), 'index in the list')
        return elem(z3.If(k < 0, k + self.n, k), self.p, self.q)

    def sym_contains(self, x):
        if not isinstance(x, K):
            raise Unsupported('in')
        if RT.branch(x.i == 0):
            return RT.branch(self.p >= 0)
        if RT.branch(x.i == 1):
            return RT.branch(self.q >= 0)
        return RT.branch(RT.int('there').e == 1)

    def cat(self, o):
        o = PL.of(o)

        def pos(a, b, nm):
            RT.prove(z3.Or(a < 0, b < 0), 'a parser is a candidate once')
            return z3.If(a >= 0, a, z3.If(b >= 0, self.n + b, -1))
        return PL(self.n + o.n, pos(self.p, o.p, 'P'), pos(self.q, o.q, 'Q'))

    def __add__(self, o):
        return self.cat(o)

    def __radd__(self, o):
        return PL.of(o).cat(self)

    def extend(self, o):
        c = self.cat(o)
        self.n, self.p, self.q = c.n, c.p, c.q

    def __iadd__(self, o):
        self.extend(o)
        return self

    def append(self, x):
        i = x.i
        self.extend(PL(iv(1), z3.If(i == 0, 0, -1), z3.If(i == 1, 0, -1)))

    def clear(self):
        self.n, self.p, self.q = iv(0), iv(-1), iv(-1)

    def remove(self, x):
        i = x.i
        RT.prove(z3.Implies(i == 0, self.p >= 0), 'a parser which is removed is in the list')
        RT.prove(z3.Implies(i == 1, self.q >= 0), 'a parser which is removed is in the list')
        RT.assume(self.n >= 1)
        f = PL(self.n - 1, RT.int('P').e, RT.int('Q').e)

        def pos(mine, old, new, other):
            return z3.If(z3.Or(i == mine, old < 0), new == -1,
                         z3.If(z3.And(i == 1 - mine, other >= 0), new == z3.If(other < old, old - 1, old), z3.And(new >= 0, z3.Or(new == old, new == old - 1))))
        RT.assume(z3.And(f.wf(), pos(0, self.p, f.p, self.q), pos(1, self.q, f.q, self.p),
                         z3.Implies(z3.And(f.p >= 0, f.q >= 0), (f.p < f.q) == (self.p < self.q))))
        self.n, self.p, self.q = f.n, f.p, f.q


def before(l):
    return z3.And(l.p >= 0, l.q >= 0, l.p < l.q)


def both(l):
    return z3.And(l.p >= 0, l.q >= 0)


# -- one tag

NB = z3.Int('n_values')
BP = z3.Function('P_in_bucket', I, I)
BQ = z3.Function('Q_in_bucket', I, I)
BN = z3.Function('bucket_size', I, I)


class Bucket(Sym):
    """the parsers of one value of a tag"""
    __hash__ = None

    def __init__(self, k):
        self.k = k
        RT.assume(PL(BN(k), BP(k), BQ(k)).wf())

    def len_(self):
        return mkint(BN(self.k))

    def sym_item(self, j):
        return elem(zint(j), BP(self.k), BQ(self.k))

    def __bool__(self):
        return RT.branch(BN(self.k) > 0)


class Buckets(Sym):
    """the lists of parsers for all the values of a tag"""
    __hash__ = None

    def len_(self):
        return mkint(NB)

    def sym_iter(self):
        return self

    def sym_item(self, k):
        return Bucket(zint(k))

    def sym_list(self):
        return self


class ByName(Sym):
    __hash__ = None

    def values(self):
        return Buckets()

    def __bool__(self):
        return RT.branch(NB > 0)

    def get(self, v, default=None):
        RT.prove(v is RT.ghost['value'], 'the value of the tag')
        return Bucket(iv(0)) if RT.ghost['known'] else default

    def sym_contains(self, v):
        RT.prove(v is RT.ghost['value'], 'the value of the tag')
        return RT.ghost['known']

    def __getitem__(self, v):
        if self.sym_contains(v):
            return Bucket(iv(0))
        raise KeyError(v)


class ByTag(Sym):
    __hash__ = None

    def get(self, key, default=None):
        RT.prove(key == RT.ghost['key'], 'the name of the tag')
        return ByName() if RT.ghost['known name'] else default

    def sym_contains(self, key):
        RT.prove(key == RT.ghost['key'], 'the name of the tag')
        return RT.ghost['known name']


class Db(Sym):
    __hash__ = None

    def __init__(self, reg=None):
        self.reg = reg
        self.bytag = ByTag()

    def sym_list(self):
        return self.reg.sym_list()

    def sym_set(self):
        f = PL.fresh('set')
        RT.assume(z3.And(f.n == self.reg.n, (f.p >= 0) == (self.reg.p >= 0), (f.q >= 0) == (self.reg.q >= 0)))
        return f

    def sym_iter(self):
        return self.reg.sym_list()


def c_translate(self, name, value):
    """contract of translate: unit below"""
    g = RT.ghost
    if g['kind'] == 'filename':
        RT.prove(name == 'filename' and value is g['raw'], 'the tag which is translated')
        return 'file_ext', g['value']
    return name, value


def matches(x):
    """the tag selects P (0) or Q (1)"""
    g = RT.ghost
    k = g['kind']
    if k == 'callable':
        return z3.Bool('chosen_%d' % x)
    if k in ('none', 'class', 'args') or not g['known name']:
        return z3.BoolVal(False)
    if g['value'] is None:
        fb = (FP, FQ)[x]
        return z3.And(fb >= 0, fb < NB)
    return (BP, BQ)[x](iv(0)) >= 0 if g['known'] else z3.BoolVal(False)


FP, FQ = z3.Ints('first_value_of_P first_value_of_Q')


def b_tag():
    from hachoir.parser import guess as M
    g = RT.ghost
    kind = g['kind'] = RT.choice(['none', 'callable', 'class', 'args', 'value', 'filename', 'any'], 'tag')
    g['key'] = RT.choice(['id', 'category', 'file_ext'], 'name') if kind in ('value', 'any') else 'file_ext'
    g['known name'] = RT.choice([True, False], 'a known tag') if kind in ('value', 'filename', 'any') else False
    g['known'] = RT.choice([True, False], 'a known value') if kind in ('value', 'filename') else False
    value = g['value'] = None if kind == 'any' else 'some value'
    g['raw'] = 'some file name'
    RT.assume(NB >= 0)
    for f, b in ((FP, BP), (FQ, BQ)):
        k = z3.Int('k')
        if kind == 'any':
            RT.assume(z3.And(f >= -1, f < NB, z3.Implies(f >= 0, b(f) >= 0)))
    rest = PL.named('remaining', RT.input_int('remaining', 0).e, RT.input_int('P_remaining', -1).e, RT.input_int('Q_remaining', -1).e)
    RT.assume(rest.wf())
    g['rest'] = PL(rest.n, rest.p, rest.q)
    fo = PL.fresh('forced')
    fo._pyvc_name = 'forced'
    g['forced'] = PL(fo.n, fo.p, fo.q)
    # invariant of __init__: a parser which is forced was taken out of the remaining ones
    RT.assume(z3.And(z3.Or(rest.p < 0, fo.p < 0), z3.Or(rest.q < 0, fo.q < 0)))
    chosen = [mkbool(z3.Bool('chosen_0')), mkbool(z3.Bool('chosen_1'))]

    def call(p):
        if RT.branch(p.i == 0):
            return chosen[0]
        if RT.branch(p.i == 1):
            return chosen[1]
        return RT.choice([True, False], 'another parser')
    targs = {'x': 1}
    tag = dict(none=None, callable=call, args=('args', targs), value=(g['key'], value), filename=('filename', g['raw']), any=(g['key'], None)).get(kind) if kind != 'class' else ('class', K(2))
    s = obj(M.QueryParser, parsers=rest, forced=fo, parser_args=None, db=Db(), validate=True, use_fallback=False)
    s._pyvc_name = 'query'
    g['s'] = s
    kd, r = expect(QP + '_getByTag', M.QueryParser._getByTag, s, tag)
    RT.prove(kd == 'ret', '_getByTag: no error')
    RT.cover(kind)
    l, rem, frc = PL.of(r), PL.of(s.parsers), PL.of(s.forced)
    r0 = g['rest']
    for x, a, b, c, nm in ((0, r0.p, (l.p, rem.p, frc.p), g['forced'].p, 'P'), (1, r0.q, (l.q, rem.q, frc.q), g['forced'].q, 'Q')):
        m = matches(x)
        RT.prove((b[0] >= 0) == z3.And(a >= 0, m), 'the parsers of the tag which remain are the next candidates')
        RT.prove((b[1] >= 0) == (z3.And(a >= 0, z3.Not(m)) if kind != 'none' else z3.BoolVal(False)), 'the other parsers remain')
        f = z3.And(a >= 0, m) if kind == 'value' and g['key'] == 'id' else z3.BoolVal(False)
        RT.prove((b[2] >= 0) == z3.Or(c >= 0, f), 'only parsers chosen by their identifier skip the validation')
    RT.prove(z3.Implies(both(rem), before(rem) == before(r0)), 'the other parsers stay in the same order')
    if kind == 'callable':
        RT.prove(z3.Implies(both(l), before(l) == before(r0)), 'candidates in the order of the list')
    elif kind in ('value', 'filename') and g['known'] and g['known name']:
        RT.prove(z3.Implies(both(l), before(l) == (BP(iv(0)) < BQ(iv(0)))), 'candidates in the order of the lookup by tag')
    elif kind == 'class':
        RT.prove(z3.And(l.n == 1, frc.n == g['forced'].n + 1, rem.n == r0.n), 'a parser named by a class tag')
        RT.prove(type(r) is list and r[0].i == 2 if type(r) is list else False, 'this class is a candidate')
    elif kind in ('none', 'args'):
        RT.prove(l.n == 0, 'no candidate for this tag')
        if kind == 'none':
            RT.prove(rem.n == 0, 'nothing else is a candidate')
    RT.prove(s.parser_args is (targs if kind == 'args' else None), 'arguments of the parser')


def done(x, k, j=None):
    """P (or Q) was met before bucket k (and position j of it)"""
    g = RT.ghost
    if g['value'] is None:
        f, b = (FP, BP) if x == 0 else (FQ, BQ)
        r = z3.And(f >= 0, f < k)
        if j is not None:
            r = z3.Or(r, z3.And(b(k) >= 0, b(k) < j))
        return r
    b = (BP, BQ)[x](iv(0))
    return z3.And(b >= 0, b < j) if j is not None else z3.And(b >= 0, k > 0)


def tag_inv(L, k, j=None):
    g = RT.ghost
    r0, rem, l = g['rest'], PL.of(g['s'].parsers), L.get('parsers')
    fo, fo0 = PL.of(g['s'].forced), g['forced']
    if not isinstance(l, PL):
        raise Unsupported('candidates of a tag')
    r = [('lists', z3.And(l.wf(), rem.wf())), ('forced', z3.And(fo.n == fo0.n, fo.p == fo0.p, fo.q == fo0.q)),
         ('order of the rest', z3.Implies(both(rem), before(rem) == before(r0)))]
    for x, a, lp, rp, nm in ((0, r0.p, l.p, rem.p, 'P'), (1, r0.q, l.q, rem.q, 'Q')):
        d = done(x, k, j)
        r.append(('candidates %s' % nm, (lp >= 0) == z3.And(a >= 0, d)))
        r.append(('rest %s' % nm, (rp >= 0) == z3.And(a >= 0, z3.Not(d))))
    if g['value'] is not None:
        r.append(('order', z3.Implies(both(l), before(l) == (BP(iv(0)) < BQ(iv(0))))))
    return r


def out_after(L):
    """the first value of P: no value before it has P"""
    k = zint(L._idx)
    for f, b in ((FP, BP), (FQ, BQ)):
        RT.assume(z3.Implies(z3.Or(f < 0, k < f), b(k) < 0))


def bk_inv(L):
    k = L._it.k
    return tag_inv(L, k, zint(L._idx))


def cb_inv(L):
    """callable: taking the chosen ones out of the remaining ones"""
    g = RT.ghost
    r0, rem, l, i = g['rest'], PL.of(g['s'].parsers), L._it, zint(L._idx)
    r = [('lists', z3.And(rem.wf())), ('order', z3.Implies(both(rem), before(rem) == before(r0)))]
    for x, a, lp, rp in ((0, r0.p, l.p, rem.p), (1, r0.q, l.q, rem.q)):
        r.append(('rest %d' % x, (rp >= 0) == z3.And(a >= 0, z3.Not(z3.And(lp >= 0, lp < i)))))
    return r


def c_filter(it, f, kind):
    """filtering a list of parsers, element by element"""
    if not isinstance(it, PL):
        return NotImplemented

    def one(x, pos):
        if not RT.branch(pos >= 0):
            return False
        r = f([K(x)])
        if r == []:
            return False
        RT.prove(len(r) == 1 and isinstance(r[0], K) and z3.is_true(z3.simplify(r[0].i == x)), 'a filter keeps the parsers')
        return True
    ip, iq = one(0, it.p), one(1, it.q)
    o = RT.int('parser').e
    RT.assume(o >= 2)
    f([K(o)])
    r = PL.fresh('filtered')
    RT.assume(z3.And(r.n <= it.n, (r.p >= 0) == z3.BoolVal(ip), (r.q >= 0) == z3.BoolVal(iq), z3.Implies(both(r), before(r) == before(it))))
    return r


# -- all the tags

GP, GQ, GN = z3.Ints('tag_of_P tag_of_Q none_tag')   # the first tag which selects P; the first None (>= n: no such tag)
SAME = z3.Bool('P_before_Q_for_their_tag')


class Tags(Sym):
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def len_(self):
        return mkint(self.n)

    def sym_item(self, i):
        return Tag(zint(i))


class Tag(Sym):
    __hash__ = None

    def __init__(self, i):
        self.i = i


def c_getByTag(self, tag):
    """contract of _getByTag: unit above"""
    g = RT.ghost
    RT.prove(self is g['s'] and isinstance(tag, Tag), '_getByTag: arguments')
    i = tag.i
    rest = PL.of(self.parsers)
    if RT.branch(i == GN):
        rest.clear()
        l = PL()
    else:
        l, rem = PL.fresh('tag'), PL.fresh('rest')
        RT.assume(z3.And(rem.n <= rest.n, z3.Implies(both(rem), before(rem) == before(rest)), z3.Implies(both(l), before(l) == SAME)))
        for a, b, c, gx in ((rest.p, l.p, rem.p, GP), (rest.q, l.q, rem.q, GQ)):
            RT.assume(z3.And((b >= 0) == z3.And(a >= 0, i == gx), (c >= 0) == z3.And(a >= 0, i != gx)))
        rest.n, rest.p, rest.q = rem.n, rem.p, rem.q
    if g['len0'] is None:
        if RT.branch(i == 0):
            RT.assume(l.n == z3.Int('candidates_of_the_first_tag'))
    return l


def stop():
    """number of tags which count for P"""
    return GN


def init_inv(L):
    g = RT.ghost
    i = zint(L._idx)
    reg, s, l = g['reg'], g['s'], PL.of(L.parsers)
    rem = PL.of(s.parsers)
    r = [('lists', z3.And(l.wf(), rem.wf())), ('cleared', z3.Implies(GN < i, rem.n == 0)),
         ('order of the rest', z3.Implies(both(rem), before(rem) == before(reg)))]
    for x, lp, rp, a, gx in ((0, l.p, rem.p, reg.p, GP), (1, l.q, rem.q, reg.q, GQ)):
        r.append(('chosen %d' % x, (lp >= 0) == z3.And(gx < i, gx < GN)))
        r.append(('rest %d' % x, (rp >= 0) == z3.And(gx >= i, GN >= i)))
    r.append(('order', z3.Implies(both(l), before(l) == z3.If(GP == GQ, SAME, GP < GQ))))
    fb = s.__dict__.get('fallback')
    f1 = z3.Int('candidates_of_the_first_tag') == 1
    r.append(('fallback', (i == 0) if fb is None else z3.And(i > 0, zbool(fb) == f1)))
    r.append(('first tag', z3.Implies(i == 0, l.n == 0)))
    return r


def q_havoc(path):
    if path == 'fallback':
        return None if RT.choice([True, False], 'first tag') else mkbool(RT.int('fallback').e == 1)
    return NotImplemented


def b_init():
    from hachoir.parser import guess as M
    g = RT.ghost
    n = RT.input_int('tags', 0).e
    reg = g['reg'] = PL(RT.input_int('registry', 2).e, RT.input_int('P', 0).e, RT.input_int('Q', 0).e)
    RT.assume(reg.wf())
    for x in (GP, GQ, GN):
        RT.assume(z3.And(x >= 0, x <= n))
    RT.assume(z3.And(z3.Or(GN == n, z3.And(GN != GP, GN != GQ))))
    g['len0'] = None
    db = Db(reg)

    class Inst:
        @staticmethod
        def getInstance():
            return db
    s = g['s'] = obj(M.QueryParser)
    s._pyvc_name = 'query'
    s._pyvc_havoc = q_havoc
    with patched(M, HachoirParserList=Inst):
        kind, r = expect(QP + '__init__', M.QueryParser.__init__, s, Tags(n))
    RT.prove(kind == 'ret', '__init__: no error')
    l = PL.of(s.parsers)
    RT.cover('done')
    for lp, gx in ((l.p, GP), (l.q, GQ)):
        chosen = z3.And(gx < n, gx < GN)
        RT.prove((lp >= 0) == z3.Or(chosen, GN == n), 'the candidates: the parsers of the tags, then the others unless there is a None tag')
    gp, gq = z3.If(GP < GN, GP, n), z3.If(GQ < GN, GQ, n)
    RT.prove(z3.Implies(both(l), before(l) == z3.If(gp != gq, gp < gq, z3.If(gp < n, SAME, before(reg)))),
             'candidates in the order of the tags, then in the order of the registry')
    RT.prove(s.use_fallback is False, 'no fallback unless it is requested')
    fb = s.__dict__.get('fallback')
    RT.prove(z3.BoolVal(True) if fb is None else z3.Implies(zbool(fb), z3.And(n > 0, z3.Int('candidates_of_the_first_tag') == 1)), 'fallback only for the only candidate of the first tag')
    ot = s.__dict__.get('other')
    if ot is not None:
        RT.prove(z3.Implies(z3.And(GN == n, GP == n, z3.Or(GQ < n, before(reg)), ot.i == 1), z3.BoolVal(False)), 'the first of the other candidates')


def b_translate_name():
    """bounded: texts are concrete"""
    from hachoir.parser import guess as M
    import os
    name = RT.choice(['a.JPG', 'dir.x/a', '', 'dir/a.tar.GZ', '.bashrc', 'a.', '../x.y/UP.Png'], 'file name')
    s = obj(M.QueryParser)
    kind, r = expect(QP + 'translate', M.QueryParser.translate, s, 'filename', name)
    base = name.rsplit('/', 1)[-1]
    RT.prove(kind == 'ret' and r == ('file_ext', base.rsplit('.', 1)[-1].lower() if '.' in base else ''), 'extension of the file name')
    key, val = RT.choice(['id', 'mime', 'other'], 'name'), object()
    kind, r = expect(QP + 'translate', M.QueryParser.translate, s, key, val)
    RT.prove(kind == 'ret' and r == (key, val), 'other tags are kept')


# ---------------------------------------------------------------- guessParser, createParser

def b_guess():
    from hachoir.parser import guess as M
    tags, st, res = object(), Stream(), RT.choice([None, object()], 'result')
    st.tags = tags
    made = []

    class Query:
        def __init__(self, t):
            made.append(t)

        def parse(self, stream, *a, **k):
            made.append(stream)
            RT.prove(not a and not k, 'parse: arguments')
            return res
    with patched(M, QueryParser=Query):
        kind, r = expect(GM + 'guessParser', M.guessParser, st)
    RT.prove(kind == 'ret' and len(made) == 2 and made[0] is tags and made[1] is st, 'the tags of the stream are used')
    RT.prove(r is res, 'the parser which was found')


def b_create():
    from hachoir.parser import guess as M
    g = RT.ghost
    closed = []

    class St:
        def close(self):
            closed.append(1)
    st = St()
    g['result'] = res = RT.choice([None, object()], 'result')
    g['stream'] = st
    fn, rn = object(), RT.choice([None, 'real'], 'real name')
    tags = RT.choice([None, [], [('id', 'x')]], 'tags')
    made = []

    def make(*a, **k):
        made.append((a, k))
        return st
    with patched(M, FileInputStream=make):
        kind, r = expect(GM + 'createParser', M.createParser, fn, rn, tags)
    RT.prove(kind == 'ret' and len(made) == 1, 'one stream is opened')
    a, k = made[0]
    names = dict(zip(('filename', 'real_filename'), a), **k)
    RT.prove(names.get('filename') is fn and names.get('real_filename') is rn and list(names.get('tags') or []) == (tags or []), 'the stream of this file')
    RT.prove(r is res, 'the parser of the stream, or None')
    RT.prove(len(closed) == (res is None), 'a stream without parser is closed')


def c_guess(stream):
    RT.prove(stream is RT.ghost['stream'], 'guessParser: the stream')
    return RT.ghost['result']


# ---------------------------------------------------------------- validation

def b_validate():
    from hachoir.parser import parser as M
    g = RT.ghost
    mode = RT.choice([None, False, True], 'validate')
    size, enough = RT.input_int('min_size', 1), RT.choice([True, False], 'the stream is long enough')
    res = RT.choice([True, False, None, 'a reason', '', 1, 0, 'exc'], 'result of validate()')
    asked, log = [], []

    class Broken(Exception):
        pass

    class Cls(M.HachoirParser):
        @classmethod
        def getParserTags(cls):
            return {'min_size': size}

        def validate(self):
            log.append(1)
            if res == 'exc':
                raise Broken()
            return res

    class St:
        def sizeGe(self, n):
            RT.prove(zint(n) == size.e, 'minimum size')
            asked.append(1)
            return enough
    st = St()
    s = object.__new__(Cls)
    kind, r = expect(HP + 'HachoirParser.__init__', M.HachoirParser.__init__, s, st, **({} if mode is None else {'validate': mode}))
    if mode:
        ok = enough and res is True
        RT.prove((kind == 'ret') == ok, 'a parser is built only if the stream is long enough and valid')
        RT.prove(len(asked) == 1 and len(log) == enough, 'size and content are checked once')
        if kind == 'exc':
            RT.prove(type(r) is (Broken if enough and res == 'exc' else M.ValidateError), 'the parser is refused')
    else:
        RT.prove(kind == 'ret' and not log, 'no validation unless it is asked for')
    RT.cover(kind)


def b_parser():
    from hachoir.parser import parser as M
    g = RT.ghost
    log = []
    st, s = object(), object.__new__(M.Parser)
    k = RT.choice([{}, {'validate': True}, {'validate': False}], 'arguments')
    fails = RT.choice([True, False], 'fails')

    class Broken(Exception):
        pass

    def gen(self, stream, *a, **kk):
        log.append(('generic', self is s and stream is st and not a and not kk))

    def val(self, stream, *a, **kk):
        log.append(('validation', self is s and stream is st and not a and kk == k))
        if fails:
            raise Broken()
    with patched(M.GenericParser, __init__=gen), patched(M.HachoirParser, __init__=val):
        kind, r = expect(HP + 'Parser.__init__', M.Parser.__init__, s, st, **k)
    RT.prove((kind == 'exc' and type(r) is Broken) if fails else kind == 'ret', 'a parser which is refused is not built')
    RT.prove(log == [('generic', True), ('validation', True)], 'every parser is validated, once its fields can be read')


# ---------------------------------------------------------------- registry

TKIND = z3.Function('kind_of_tag', I, I)             # 0: not indexed, 1: invalid, 2: indexed
NVAL = z3.Function('n_values_of_tag', I, I)
wt, wv = z3.Ints('some_tag some_value')
NT = z3.Int('n_tags')


class TagName(Sym):
    __hash__ = None

    def __init__(self, i):
        self.i = z3.simplify(i)


class TagVal(TagName):
    pass


class Value(Sym):
    """value j of tag i; the values of a tuple may be equal"""
    __hash__ = None

    def __init__(self, i, j):
        self.i, self.j = i, j


class Values(Sym):
    """the tuple of values of a tag"""
    __hash__ = None

    def __init__(self, i):
        self.i = i
        RT.assume(NVAL(i) >= 0)

    def len_(self):
        return mkint(NVAL(self.i))

    def sym_item(self, j):
        return Value(self.i, zint(j))

    def sym_isinstance(self, ts):
        return any(t is tuple or getattr(t, '_real', None) is tuple for t in ts)


class TagDict(Sym):
    """the tags of a parser"""
    __hash__ = None

    def items(self):
        return TagItems()


class TagItems(Sym):
    __hash__ = None

    def len_(self):
        return mkint(NT)

    def sym_item(self, i):
        i = zint(i)
        return (TagName(i), TagVal(i))

    def sym_list(self):
        return self


class TagList(Sym):
    """list of translated tags: how often the tag wt is in it, and at which place"""
    __hash__ = None
    _pyvc_name = 'translated tags'

    def __init__(self):
        self.n, self.pos, self.many = iv(0), iv(-1), z3.BoolVal(False)

    def snap_state(self):
        return (self.n.sexpr(), self.pos.sexpr())

    def snap_children(self):
        return []

    def havoc(self):
        f = self.havoc_value()
        self.n, self.pos = f.n, f.pos

    def havoc_value(self):
        f = TagList()
        f.n, f.pos = RT.int('n_translated').e, RT.int('pos').e
        RT.assume(z3.And(f.n >= 0, f.pos >= -1, f.pos < f.n))
        return f

    def append(self, t):
        if not (isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], TagName) and isinstance(t[1], Values)):
            raise Unsupported('tag')
        i = t[0].i
        RT.prove(t[1].i == i, 'name and values of a tag')
        RT.prove(z3.Implies(i == wt, self.pos == -1), 'a tag is indexed once')
        self.pos = z3.simplify(z3.If(i == wt, self.n, self.pos))
        self.n = z3.simplify(self.n + 1)

    def len_(self):
        return mkint(self.n)

    def sym_item(self, k):
        if RT.branch(zint(k) == self.pos):
            return (TagName(wt), Values(wt))
        o = RT.int('tag').e
        RT.assume(o != wt)
        return (TagName(o), Values(o))


class RegName(Sym):
    """the lookup table of one tag"""
    __hash__ = None

    def __init__(self, i):
        self.i = i

    def _bucket(self, v):
        RT.prove(isinstance(v, Value) and RT.entails(v.i == self.i), 'a value is added to the table of its tag')
        return RegBucket(v)

    def setdefault(self, v, d=None):
        RT.prove(type(d) is list and d == [] or isinstance(d, TagList) and z3.is_true(z3.simplify(d.n == 0)), 'a new value has no parsers')
        return self._bucket(v)

    def sym_contains(self, v):
        return RT.branch(RT.int('known').e == 1)

    def __getitem__(self, v):
        return self._bucket(v)

    def __setitem__(self, v, l):
        RT.prove(False, 'the parsers of a value are kept')


class RegBucket:
    def __init__(self, v):
        self.v = v

    def append(self, parser):
        g = RT.ghost
        RT.prove(parser is g['parser'], 'the parser is added')
        RT.prove(g['listed'].e == 1, 'only a parser of the list is indexed')
        if RT.branch(z3.And(self.v.i == wt, self.v.j == wv)):
            g['indexed'].k = mkint(g['indexed'].e + 1)


class RegTags(Sym):
    __hash__ = None

    def setdefault(self, name, d=None):
        RT.prove(type(d) is dict and not d, 'a new tag has no values')
        return RegName(name.i)

    def __getitem__(self, name):
        return RegName(name.i)

    def __setitem__(self, name, d):
        RT.prove(False, 'the values of a tag are kept')

    def sym_contains(self, name):
        return RT.branch(RT.int('known').e == 1)


class RegList(Sym):
    __hash__ = None

    def append(self, parser):
        g = RT.ghost
        RT.prove(parser is g['parser'], 'the parser is added')
        g['listed'].k = mkint(g['listed'].e + 1)

    def sym_contains(self, p):
        return RT.branch(RT.int('known').e == 1)


def c_valid(self, parser, tags):
    g = RT.ghost
    RT.prove(parser is g['parser'] and tags is g['tags'], 'validParser: arguments')
    g['validated'] = True
    return g['err']


def c_regtranslate(self, name, value):
    """contract of ParserList.translate: unit below"""
    if not (isinstance(name, TagName) and isinstance(value, TagVal)):
        raise Unsupported('translate')
    RT.prove(name.i == value.i, 'translate: name and value of the same tag')
    i = name.i
    if RT.branch(TKIND(i) == 0):
        return True
    if RT.branch(TKIND(i) == 1):
        RT.ghost['bad'] = i
        return 'Invalid tag'
    return name, Values(i)


def add_inv1(L):
    g = RT.ghost
    i = zint(L._idx)
    t = [v for v in L._d.values() if isinstance(v, TagList)]
    if len(t) != 1:
        raise Unsupported('locals of add')
    t = t[0]
    return [('nothing is added yet', z3.And(g['listed'].e == 0, g['indexed'].e == 0)),
            ('tags are valid', z3.Implies(z3.And(0 <= wt, wt < i), TKIND(wt) != 1)),
            ('translated', z3.And(t.n >= 0, t.pos >= -1, t.pos < t.n, (t.pos >= 0) == z3.And(0 <= wt, wt < i, TKIND(wt) == 2)))]


def add_inv2(L):
    g = RT.ghost
    i, t = zint(L._idx), L._it
    inside = z3.And(0 <= wv, wv < NVAL(wt))
    return [('listed', g['listed'].e == 1),
            ('indexed', g['indexed'].e == z3.If(z3.And(t.pos >= 0, t.pos < i, inside), 1, 0))]


def add_inv3(L):
    g = RT.ghost
    j, v = zint(L._idx), L._it
    here = z3.And(v.i == wt, 0 <= wv, wv < NVAL(wt), wv < j)
    return [('listed', g['listed'].e == 1), ('indexed', g['indexed'].e == g['base'] + z3.If(here, 1, 0))]


def add_pre3(L):
    RT.ghost['base'] = RT.ghost['indexed'].e


def b_add():
    from hachoir.parser import parser_list as M
    g = RT.ghost
    RT.assume(NT >= 0)
    i = z3.Int('i')
    RT.assume(z3.And(TKIND(wt) >= 0, TKIND(wt) <= 2))
    g['tags'] = TagDict()
    g['err'] = RT.choice(['', 'No identifier'], 'validParser')
    g['validated'] = False

    class Cls:
        @classmethod
        def getParserTags(cls):
            return g['tags']
    g['parser'] = Cls
    cell('listed', iv(0))
    cell('indexed', iv(0))
    s = obj(M.ParserList, parser_list=RegList(), bytag=RegTags())
    kind, r = expect(PL_ + 'add', M.ParserList.add, s, Cls)
    RT.prove(kind == 'ret', 'add: no error')
    RT.prove(g['validated'], 'the tags are checked')
    n, x = g['listed'].e, g['indexed'].e
    RT.prove(z3.Or(n == 0, n == 1), 'a parser is added once')
    here = z3.And(0 <= wt, wt < NT, 0 <= wv, wv < NVAL(wt))
    if RT.branch(n == 1):
        RT.cover('added')
        RT.prove(g['err'] == '', 'an invalid parser is refused')
        RT.prove(z3.Implies(z3.And(0 <= wt, wt < NT), TKIND(wt) != 1), 'a parser with an invalid tag is refused')
        RT.prove(z3.Implies(z3.And(here, TKIND(wt) == 2), x == 1), 'every value of every tag finds the parser, once')
        RT.prove(z3.Implies(z3.Not(z3.And(here, TKIND(wt) == 2)), x == 0), 'nothing else finds the parser')
    else:
        RT.cover('refused')
        RT.prove(x == 0, 'a parser which is refused is not found by any tag')
        if g['err'] == '':
            RT.prove(z3.BoolVal(g.get('bad') is not None), 'only an invalid parser is refused')


def b_regtranslate():
    from hachoir.parser import parser_list as M
    g = RT.ghost
    name = RT.choice(['magic', 'min_size', 'description', 'category', 'id', 'file_ext', 'anything'], 'tag')
    matches_ = RT.choice([True, False], 'the identifier is well formed')

    class NoHash:
        __hash__ = None
    marker = object()
    num = RT.input_int('number') if name == 'min_size' else 5
    vals = dict(text='archive', other='some text', empty='', num=num, none=None, tup=('a', marker), lst=['a', marker], bad=('a', NoHash()), badlist=['a', []], dic={'a': 1}, unhash=NoHash())
    vk = RT.choice(sorted(vals), 'value')
    v = vals[vk]
    used = type('Used', (), {})
    tables = {'id': TDict({}), 'category': TDict({})}
    dup = RT.choice([True, False], 'identifier is used') if name == 'id' else False

    class Ids:
        def get(self, k, d=None):
            RT.prove(k is v, 'the identifier')
            return [used] if dup else d

        def __contains__(self, k):
            return dup

        def __getitem__(self, k):
            if not dup:
                raise KeyError(k)
            return [used]

    class Rx:
        def match(self, t):
            RT.prove(t is v, 'the identifier')
            return marker if matches_ else None
        fullmatch = search = match
    s = obj(M.ParserList, bytag={'id': Ids(), 'category': {}}, ID_REGEX=Rx())
    kind, r = expect(PL_ + 'translate', M.ParserList.translate, s, name, v)
    RT.prove(kind == 'ret', 'translate: no error')
    if name == 'magic':
        RT.prove(r is True, 'signatures are not indexed')
        return
    if name == 'min_size':
        ok = num.e > 0 if vk == 'num' else z3.BoolVal(False)
        if r is True:
            RT.prove(ok, 'minimum size is a number > 0')
        elif isinstance(r, str):
            RT.prove(z3.Not(ok), 'only a bad minimum size is refused')
        else:
            RT.prove((zbool(r) == ok) if isinstance(r, SBool) else False, 'minimum size')
        return
    if name == 'description':
        RT.prove(r is True if vk in ('text', 'other') else type(r) is str, 'a description is a text')
        return
    ok = vk not in ('bad', 'badlist', 'dic', 'unhash')
    if name == 'category':
        ok = vk == 'text'
    elif name == 'id':
        ok = vk in ('text', 'other', 'empty') and matches_ and not dup
    if ok:
        RT.prove(type(r) is tuple and len(r) == 2 and r[0] == name and type(r[1]) is tuple, 'values of a tag')
        want = tuple(v) if isinstance(v, (tuple, list)) else (v,)
        RT.prove(len(r[1]) == len(want) and all(a is b for a, b in zip(r[1], want)), 'the values of the tag')
    else:
        RT.prove(type(r) is str, 'an invalid value is refused')
    RT.cover('indexed' if ok else 'refused')


TEXT = z3.Function('is_a_text', I, B)
NM = z3.Int('n_mime')
wm = z3.Int('some_mime')


class Mime(Sym):
    __hash__ = None

    def __init__(self, i):
        self.i = i

    def sym_isinstance(self, ts):
        return RT.branch(TEXT(self.i)) if any(t is str or getattr(t, '_real', None) is str for t in ts) else False


class Mimes(Sym):
    __hash__ = None

    def len_(self):
        return mkint(NM)

    def sym_item(self, i):
        return Mime(zint(i))

    def sym_isinstance(self, ts):
        return any(t is tuple or getattr(t, '_real', None) is tuple for t in ts)


def b_valid():
    from hachoir.parser import parser_list as M
    RT.assume(NM >= 0)
    t = {}
    ok = True
    for k in ('id', 'description'):
        if RT.choice([True, False], k):
            t[k] = object()
        else:
            ok = False
    fe = RT.choice(['absent', 'tuple', 'list', 'text', 'none'], 'file_ext')
    if fe != 'absent':
        t['file_ext'] = dict(tuple=('a',), list=['a'], text='abc', none=None)[fe]
    ok = ok and fe in ('absent', 'tuple', 'list')
    mi = RT.choice(['absent', 'tuple', 'list', 'text'], 'mime')
    if mi != 'absent':
        t['mime'] = Mimes() if mi == 'tuple' else ['a'] if mi == 'list' else 'a/b'
    ok = ok and mi in ('absent', 'tuple')
    kind, r = expect(PL_ + 'validParser', M.ParserList.validParser, obj(M.ParserList), object(), t)
    RT.prove(kind == 'ret', 'validParser: no error')
    if isinstance(r, str) and r == '':
        RT.cover('valid')
        RT.prove(ok, 'an invalid parser is refused')
        if mi == 'tuple':
            RT.prove(z3.Implies(z3.And(0 <= wm, wm < NM), TEXT(wm)), 'MIME types are texts')
    else:
        RT.cover('refused')
        RT.prove(isinstance(r, (str, Opaque)) and (not ok or mi == 'tuple'), 'only an invalid parser is refused')


CALLS = dict(lib.LOG_CALLS)
G_ = QP + '_getByTag'
UNITS = [
    Unit('trying the candidates', [QP + 'doparse'], b_doparse, calls=CALLS, loops={QP + 'doparse#0': LoopSpec(do_inv, havoc=do_havoc)}),
    Unit('parser found before', [QP + 'parse'], b_parse, calls=dict(CALLS, **{QP + 'doparse': c_doparse})),
    Unit('candidates of a tag', [G_], b_tag, paths=8000, calls=dict(CALLS, **{QP + 'translate': c_translate}), comps={G_ + '@0': c_filter}, symlists={G_: lambda: PL.named('chosen')},
         loops={G_ + '#0': LoopSpec(cb_inv), G_ + '#1': LoopSpec(lambda L: tag_inv(L, zint(L._idx)), after=out_after), G_ + '#2': LoopSpec(bk_inv)}),
    Unit('candidates', [QP + '__init__'], b_init, calls=dict(CALLS, **{G_: c_getByTag}), symlists={QP + '__init__': lambda: PL.named('new')}, loops={QP + '__init__#0': LoopSpec(init_inv)}),
    Unit('extension of a file', [QP + 'translate'], b_translate_name),
    Unit('guessParser', [GM + 'guessParser'], b_guess, calls=CALLS),
    Unit('createParser', [GM + 'createParser'], b_create, calls=dict(CALLS, **{GM + 'guessParser': c_guess})),
    Unit('validation', [HP + 'HachoirParser.__init__'], b_validate, calls=CALLS, models={'str.mod': lambda a, b: 'formatted text'}),
    Unit('every parser', [HP + 'Parser.__init__'], b_parser),
    Unit('registry', [PL_ + 'add'], b_add, calls=dict(CALLS, **{PL_ + 'validParser': c_valid, PL_ + 'translate': c_regtranslate}), symlists={PL_ + 'add': TagList},
         loops={PL_ + 'add#0': LoopSpec(add_inv1), PL_ + 'add#1': LoopSpec(add_inv2), PL_ + 'add#2': LoopSpec(add_inv3, pre=add_pre3)}),
    Unit('tags of a parser', [PL_ + 'translate'], b_regtranslate),
    Unit('validity of the tags', [PL_ + 'validParser'], b_valid, loops={PL_ + 'validParser#0': LoopSpec(
        lambda L: [('texts', z3.Implies(z3.And(0 <= wm, wm < zint(L._idx)), TEXT(wm)))])}),
]
BOUNDED = []
