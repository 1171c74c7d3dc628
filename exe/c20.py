"""Executable contract of the selection of a parser and of the list of parsers."""
from exe.common import *
import copy

CASE_TIMEOUT = 30
OUT = ('ok', 'false', 'text', 'none', 'one', 'raise', 'verr', 'init', 'small', 'nomin', 'short', 'fits', 'memory', 'deep')
CATS = ('archive', 'audio', 'misc')
EXTS = ('aa', 'bb', 'cc')


def cases(rng, tier, hints):
    def P(i, v='ok', ext='aa', cat='misc'):
        return dict(id='id%d' % i, v=v, ext=[ext], cat=cat)
    for v in OUT:
        for w in OUT:
            for tags in ([], [['id', 'id0']], [['id', 'id0'], None], [['file_ext', 'aa'], None], [['class', 0]], [['class', 1], None], [['id', 'zzz']], [['id', None]],
                         [['filename', 'x/y.AA']], [['category', 'misc'], None], [None], [['args', {'x': 1}]], [['call', 'id1']], [['call', 'id1'], None]):
                yield dict(k='guess', p=[P(0, v), P(1, w)], q=[dict(tags=tags, fb=rng.choice((0, 0, 1)))])
    for tags in ([['id', 'id0'], None], [['class', 0], None], [['id', 'id0']]):
        # a parser which was forced, then a usual search
        yield dict(k='guess', p=[P(0, 'false'), P(1)], q=[dict(tags=tags, fb=0), dict(tags=[], fb=0)])
        yield dict(k='guess', p=[P(1), P(0, 'false')], q=[dict(tags=[], fb=0), dict(tags=tags, fb=0), dict(tags=[], fb=1)])
    for first in range(2):
        for v in ('ok', 'false'):
            # a parser derived from another one, chosen before or after it
            yield dict(k='guess', p=[P(0, v), dict(P(1), base=0)], q=[dict(tags=[['call', 'id%d' % first], None], fb=0), dict(tags=[['call', 'id%d' % (1 - first)], None], fb=0), dict(tags=[], fb=0)])
    yield dict(k='guess', p=[P(i, 'false') for i in range(9)] + [P(9), P(10), P(11)], q=[dict(tags=[], fb=0)])
    for bad in range(24):
        yield dict(k='add', t=[0, bad, 1, bad, 2])
        yield dict(k='add', t=[bad, bad])
    yield dict(k='real')
    while True:
        if rng.random() < .8:
            n = rng.randrange(1, 8)
            ps = [P(i, rng.choice(OUT), rng.choice(EXTS), rng.choice(CATS)) for i in range(n)]
            rng.shuffle(ps)
            if rng.random() < .3:
                for i in range(1, n):
                    if rng.random() < .5 and ps[i]['v'] != 'nomin':       # the size would be inherited
                        ps[i]['base'] = rng.randrange(i)    # a parser derived from another one
            q = []
            for _ in range(rng.randrange(1, 4)):
                tags = [rng.choice([None, ['id', 'id%d' % rng.randrange(n + 1)], ['id', None], ['file_ext', rng.choice(EXTS)], ['file_ext', None], ['category', rng.choice(CATS)],
                                    ['class', rng.randrange(n)], ['args', {'x': 1, 'y': 2}], ['filename', 'f.' + rng.choice(EXTS).upper()], ['call', 'id%d' % rng.randrange(n)], ['nothing', 'x']])
                        for _ in range(rng.randrange(0, 4))]
                q.append(dict(tags=tags, fb=rng.choice((0, 0, 1)), arg=rng.choice((0, 1))))
            yield dict(k='guess', p=ps, q=q)
        else:
            yield dict(k='add', t=[rng.randrange(30) for _ in range(rng.randrange(1, 12))])


def build(case):
    from hachoir.parser import Parser, ValidateError
    from hachoir.core.endian import BIG_ENDIAN
    tried = []

    def make(i, d):
        v = d['v']

        class Cls(made[d['base']] if d.get('base') is not None else Parser):
            endian = BIG_ENDIAN
            PARSER_TAGS = {'id': d['id'], 'description': 'd', 'file_ext': tuple(d['ext']), 'category': d['cat'],
                           'min_size': dict(small=8000, short=129, fits=128).get(v, 8)}
            if v == 'nomin':
                del PARSER_TAGS['min_size']
            index = i

            def __init__(self, stream, **k):
                tried.append((i, k.get('validate', False)))
                if v == 'init':
                    raise KeyError('init')
                Parser.__init__(self, stream, **k)

            def validate(self):
                if v == 'raise':
                    raise ZeroDivisionError('validate')
                if v == 'memory':
                    raise MemoryError('validate')
                if v == 'deep':
                    raise RecursionError('validate')
                if v == 'verr':
                    raise ValidateError('validate')
                return dict(ok=True, false=False, text='not this', none=None, one=1).get(v, True)

            def createFields(self):
                return
                yield
        Cls.__name__ = d['id']
        return Cls
    made = []
    for i, d in enumerate(case['p']):
        made.append(make(i, d))
    return made, tried


def run_guess(case):
    import hachoir.parser.guess as G
    from hachoir.parser import ParserList
    from hachoir.stream import StringInputStream
    classes, tried = build(case)
    db = ParserList()
    for c in classes:
        db.add(c)
    if list(db) != classes:
        return 'parsers of the list: %r' % list(db)
    v = [d['v'] for d in case['p']]
    valid = [x in ('ok', 'fits') for x in v]
    # without validation only the constructor can fail
    builds = [x != 'init' for x in v]

    class Inst:
        @staticmethod
        def getInstance():
            return db
    old, G.HachoirParserList = G.HachoirParserList, Inst
    stream = StringInputStream(b'0123456789abcdef')
    keep = []
    cached = None
    try:
        for q in case['q']:
            # reference: candidates in order
            tags, rest, cand, forced, args, single = [], list(range(len(classes))), [], set(), None, None
            for t in q['tags']:
                if t is None:
                    tags.append(None)
                elif t[0] == 'class':
                    tags.append(('class', classes[t[1]]))
                elif t[0] == 'call':
                    tags.append(lambda p, want=t[1]: p.PARSER_TAGS['id'] == want)
                else:
                    tags.append(tuple(t))
            for t in q['tags']:
                if not rest:
                    break
                if t is None:
                    new, rest = [], []
                elif t[0] == 'class':
                    new = [t[1]]
                    forced.add(t[1])
                elif t[0] == 'args':
                    new, args = [], t[1]
                else:
                    key, val = t
                    if key == 'filename':
                        key, val = 'file_ext', val.split('.')[-1].lower()

                    def has(i):
                        d = case['p'][i]
                        have = dict(id=[d['id']], file_ext=d['ext'], category=[d['cat']], call=[d['id']]).get(key, [])
                        return bool(have) if val is None else val in have
                    new = [i for i in rest if has(i)]
                    if val is None and key != 'call':
                        # by value of the tag, in the order the values were first used
                        order = []
                        for d in case['p']:
                            for e in dict(id=[d['id']], file_ext=d['ext'], category=[d['cat']]).get(key, []):
                                if e not in order:
                                    order.append(e)
                        new = [i for e in order for i in new if e in dict(id=[case['p'][i]['id']], file_ext=case['p'][i]['ext'], category=[case['p'][i]['cat']])[key]]
                    rest = [i for i in rest if i not in new]
                    if key == 'id' and val is not None:
                        forced |= set(new)
                cand += new
                if single is None:
                    single = len(cand) == 1
            cand += rest
            qp = G.QueryParser(tags)
            if [p.index for p in qp] != cand:
                return 'candidates %r instead of %r for %r' % ([p.index for p in qp], cand, q['tags'])
            qp.use_fallback = bool(q['fb'])
            del tried[:]
            r = qp.parse(stream) if q.get('arg', 1) else qp.parse(stream, fallback=False)
            keep.append(r)
            if cached is not None and cached in cand:
                if r is None or r.index != cached or not valid[r.index]:
                    return 'a parser was found before: %r' % r
                continue
            want, log, fb = None, [], None
            for n, i in enumerate(cand):
                f = i in forced
                log.append((i, not f))
                if builds[i] if f else valid[i]:
                    want = i
                    break
                if n == 0 and not f and v[i] in ('false', 'text', 'none', 'one', 'verr', 'small', 'short') and single and q.get('arg', 1):
                    fb = i
            if want is None and fb is not None and q['fb']:
                want = fb
                log.append((fb, False))
            if tried != log:
                return 'candidates tried (index, validated): %r instead of %r' % (tried, log)
            if (r.index if r is not None else None) != want:
                return 'parser %r instead of number %r' % (r, want)
            if want is not None:
                if args and log[-1][1:] != (False,) and any(getattr(r, k, None) != x for k, x in args.items()):
                    return 'arguments of the parser'
                if log[-1][1]:
                    cached = want
    finally:
        G.HachoirParserList = old
    return None


class Unhash:
    __hash__ = None


def bad_tags(n):
    """(tags, accepted if the id is new)"""
    good = dict(id='ident%d' % n, description='d', category='misc', min_size=8, file_ext=('e%d' % (n % 3), 'x'), mime=('a/b',), magic=((b'a', 0),))
    t = dict(good)
    ok = True
    n %= 24
    if n >= 6:
        ok = False
    if n == 6:
        del t['id']
    elif n == 7:
        del t['description']
    elif n == 8:
        t['file_ext'] = 'abc'
    elif n == 9:
        t['mime'] = ['a']
    elif n == 10:
        t['mime'] = (1, 2)
    elif n == 11:
        t['mime'] = ((1, 2),)
    elif n == 12:
        t['min_size'] = 'x'
    elif n == 13:
        t['min_size'] = 0
    elif n == 14:
        t['min_size'] = -8
    elif n == 15:
        t['description'] = ''
    elif n == 16:
        t['description'] = 3
    elif n == 17:
        t['category'] = 'nothing'
    elif n == 18:
        t['id'] = 'Bad id'
    elif n == 19:
        t['file_ext'] = ([],)
    elif n == 20:
        t['other'] = {}
    elif n == 21:
        t['other'] = ('a', Unhash())
    elif n == 22:
        t['id'] = 5
    elif n == 23:
        t['category'] = ['misc']
    elif n == 1:
        t['file_ext'] = ['u', 'v']
    elif n == 2:
        del t['mime'], t['file_ext'], t['category']
    return t, ok


def run_add(case):
    from hachoir.parser import ParserList
    db = ParserList()
    have = {}
    for n in case['t']:
        tags, ok = bad_tags(n)
        ok = ok and not any(h[0]['id'] == tags['id'] for h in have.values())

        class Cls:
            @classmethod
            def getParserTags(cls, tags=tags):
                return dict(tags)
        before = (list(db), copy_tags(db))
        try:
            db.add(Cls)
        except Exception as e:
            return 'adding a parser with tags %r: %s: %s' % (tags, type(e).__name__, e)
        if ok:
            have[Cls] = (tags, list(db))
        after = (list(db), copy_tags(db))
        if not ok and after != before:
            return 'a parser with tags %r is refused but changes the list' % tags
        if list(db) != list(have):
            return 'parsers of the list after adding tags %r' % tags
        want = {'id': {}, 'category': {}}
        for c, (t, _) in have.items():
            for name, val in t.items():
                if name in ('magic', 'min_size', 'description'):
                    continue
                for x in (val if isinstance(val, (tuple, list)) else (val,)):
                    want.setdefault(name, {}).setdefault(x, []).append(c)
        if copy_tags(db) != want:
            return 'lookup by tag after adding %r' % tags
    return None


def copy_tags(db):
    return {k: {x: list(l) for x, l in d.items()} for k, d in db.bytag.items()}


def run_real(case):
    """the parsers of hachoir"""
    from hachoir.parser import HachoirParserList, QueryParser
    db = HachoirParserList.getInstance()
    ps = list(db)
    if len(set(ps)) != len(ps) or len({p.getParserTags()['id'] for p in ps}) != len(ps):
        return 'parsers or identifiers are not unique'
    if list(QueryParser([])) != ps:
        return 'candidates are not in the order of the list'
    for p in ps:
        if db.bytag['id'].get(p.getParserTags()['id']) != [p]:
            return 'lookup of %s' % p
        q = list(QueryParser([('id', p.getParserTags()['id']), None]))
        if q != [p]:
            return 'candidates for the identifier of %s: %r' % (p, q)
    return None


def run_case(case):
    try:
        return dict(guess=run_guess, add=run_add, real=run_real)[case['k']](case)
    except Exception as e:
        import traceback
        return '%s: %s: %s' % (type(e).__name__, e, traceback.format_exc()[-300:].replace('\n', ' '))
