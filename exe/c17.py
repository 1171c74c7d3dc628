"""Executable contract of the regex algebra: what the objects mean (their
class and attributes), what Python makes of their text, and their lengths."""
from exe.common import *
import itertools
import re

CASE_TIMEOUT = 30
ALPHABETS = ('abc', 'ab]', 'a-c', '^-]', 'a\n.', 'a\\[', '+*a', '(|)', 'a b', 'az{', '?$a', '\xe9a0', 'aAb', ',-+')


def base(rng, al):
    k = rng.random()
    c = lambda: rng.choice(al)
    if k < .4:
        return ['s', ''.join(c() for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3))))]
    if k < .65:
        return ['r', [[x, x] if rng.random() < .6 else [min(x, y), max(x, y)] for x, y in ((c(), c()) for _ in range(rng.randrange(1, 4)))], int(rng.random() < .2)]
    if k < .8:
        return [rng.choice(('dot', 'start', 'end', 'word', 'empty'))]
    n = rng.randrange(3)
    return ['rep', rng.randrange(50), n, rng.choice((None, max(n, 1) + rng.randrange(3)))]


def cases(rng, tier, hints):
    for a in ('', 'a', 'b', 'ab', 'ac', 'abc', 'abd', 'ba'):
        for b in ('', 'a', 'b', 'ab', 'ac', 'abc', 'abd', 'ba'):
            yield dict(al='abc', b=[['s', a], ['s', b]], o=[['|', 0, 1], ['&', 0, 1], ['|', 2, 3], ['&', 2, 0], ['|', 2, 1]])
    R = [[['a', 'a']], [['b', 'b']], [['a', 'b']], [['a', 'c']], [['b', 'c']], [['a', 'a'], ['c', 'c']], [['c', 'c']]]
    for a in R:
        for b in R:
            for x in (0, 1):
                for y in (0, 1):
                    yield dict(al='abc', b=[['r', a, x], ['r', b, y]], o=[['|', 0, 1], ['&', 0, 1], ['|', 2, 0]])
    for i in range(256):
        yield dict(al=chr(i) + '-a', b=[['s', chr(i)], ['r', [[chr(i), chr(i)]], 0], ['r', [[chr(i), chr(i)]], 1]], o=[['|', 0, 1], ['&', 0, 2], ['&', 1, 0]])
    yield from ranges(rng)
    # texts and classes as they are read by Python
    for t in ('a{2}b', '{2}', 'a{,3}', 'x{1,2}y', 'a|b', '(?:a)', '[a-c]', '[^a]', 'a?b*c+', '^a$', '\\d\\b', 'a.b', '\\', ']', '}{', '#a b', '\u2603*', '(?i)a', '\n\t', '~&&--'):
        yield dict(k='text', t=t)
    for w in (0, 1, 2, 3, 10, 255, 256, 257, 258, 511, 513, 1025, 4097, 65535, 65536, 65537):
        for lo in (0, 32, 45, 0x100, 0x3000):
            for x in (0, 1):
                yield dict(k='span', r=[[lo, lo + w]], x=x)
                yield dict(k='span', r=[[lo, lo + w], [lo + w + 2, lo + w + 2]], x=x)
    for rs in itertools.permutations((93, 45, 94, 92, 91, 109), 3):
        for x in (0, 1):
            yield dict(k='span', r=[[c, c] for c in rs], x=x)
            yield dict(k='span', r=[[rs[0], rs[0]], [48, 57], [rs[1], rs[1]]], x=x)
    for lo in range(4):
        for hi in (None, 0, 1, 2, 3, 5):
            for what in ('a', 'ab', '[', '.', '?'):
                yield dict(k='times', lo=lo, hi=hi, t=what)
    yield from families()
    while True:
        al = rng.choice(ALPHABETS)
        n = rng.randrange(2, 6)
        b = [base(rng, al) for _ in range(n)]
        o = []
        for i in range(rng.randrange(1, 7)):
            m = n + len(o)
            late = lambda: rng.randrange(m) if rng.random() < .5 else m - 1 - rng.randrange(min(3, m))
            k = rng.random()
            if k < .45:
                o.append(['|', late(), late()])
            elif k < .85:
                o.append(['&', late(), late()])
            elif k < .93:
                o.append([rng.choice(('and', 'or', 'and', 'or', 'rawor', 'rawand'))] + [late() for _ in range(rng.randrange(1, 4))])
            else:
                x = rng.randrange(3)
                o.append(['rep', late(), x, rng.choice((None, max(x, 1) + rng.randrange(3)))])
        yield dict(al=al, b=b, o=o)
        if rng.random() < .1:
            yield from ranges(rng, 5)


def families():
    # sequences which have a beginning or an end in common
    seqs = [(h, m, t) for h in 'ab' for m in (['dot'], ['r', [['a', 'b']], 0]) for t in ('', 'a', 'b', 'aa', 'ab', 'bb')]
    for x in seqs:
        for y in seqs:
            b = [['s', x[0]], x[1], ['s', x[2]], ['s', y[0]], y[1], ['s', y[2]]]
            yield dict(al='abc', b=b, o=[['and', 0, 1, 2], ['and', 3, 4, 5], ['|', 6, 7]])
    # alternatives put together by hand, then one more
    atoms = [['s', 'a'], ['s', 'b'], ['s', 'bc'], ['dot'], ['r', [['a', 'b']], 0], ['empty'], ['r', [['a', 'a'], ['c', 'c']], 0]]
    for x in itertools.permutations(range(len(atoms)), 3):
        for y in range(len(atoms)):
            yield dict(al='abc', b=atoms, o=[['rawor'] + list(x), ['|', 7, y], ['|', y, 7]])


def ranges(rng, n=200):
    for i in range(n):
        yield dict(k='range', r=[sorted((rng.randrange(20), rng.randrange(20))) if rng.random() < .7 else [rng.randrange(20)] * 2 for _ in range(rng.randrange(1, 8))])


# ---------------------------------------------------------------- meaning of an object

def compose(a, b):
    d = {}
    for i, j in b:
        d.setdefault(i, []).append(j)
    return frozenset((i, k) for i, j in a for k in d.get(j, ()))


_memo = {}


def den(r, w):
    """the pairs (start, end) which r matches in w"""
    k = (id(r), w)
    if k not in _memo:
        _memo[k] = (r, _den(r, w))
    return _memo[k][1]


def _den(r, w):
    import hachoir.regex.regex as M
    n = len(w)
    c = type(r)
    eps = frozenset((i, i) for i in range(n + 1))
    word = lambda ch: ch.isalnum() or ch == '_'
    if c is M.RegexEmpty:
        return eps
    if c is M.RegexStart:
        return frozenset({(0, 0)})
    if c is M.RegexEnd:
        return frozenset([(n, n)] + ([(n - 1, n - 1)] if w[-1:] == '\n' else []))
    if c is M.RegexWord:
        return frozenset((i, i) for i in range(n + 1) if (i > 0 and word(w[i - 1])) != (i < n and word(w[i])))
    if c is M.RegexDot:
        return frozenset((i, i + 1) for i in range(n))
    if c is M.RegexString:
        return frozenset((i, i + len(r.text)) for i in range(n + 1 - len(r.text)) if w[i:i + len(r.text)] == r.text)
    if c is M.RegexRange:
        return frozenset((i, i + 1) for i in range(n) if any(x.cmin <= ord(w[i]) <= x.cmax for x in r.ranges) != bool(r.exclude))
    if c is M.RegexAnd:
        x = eps
        for it in r.content:
            x = compose(x, den(it, w))
        return x
    if c is M.RegexOr:
        return frozenset().union(*[den(it, w) for it in r.content])
    if c is M.RegexRepeat:
        d = den(r.regex, w)
        x, k = eps, 0
        while k < r.min:
            x, k = compose(x, d), k + 1
        out = set(x)
        while r.max is None or k < r.max:
            x, k = compose(x, d), k + 1
            if r.max is None and x <= out:
                break
            out |= x
        return frozenset(out)
    raise TypeError(c)


def build(b, al):
    import hachoir.regex.regex as M
    k = b[0]
    if k == 's':
        return M.createString(b[1])
    if k == 'r':
        return M.RegexRange([M.RegexRangeItem(ord(x), ord(y)) for x, y in b[1]], bool(b[2]))
    if k == 'rep':
        x = al[b[1] % len(al)]
        y = [M.RegexString(x), M.RegexString(x + al[0]), M.createRange(x, al[-1]), M.RegexOr((M.RegexString(x + al[0]), M.RegexString(al[1]))), M.RegexDot()][b[1] % 5]
        return repeat(y, b[2], b[3])
    return dict(dot=M.RegexDot, start=M.RegexStart, end=M.RegexEnd, word=M.RegexWord, empty=M.RegexEmpty)[k]()


def repeat(x, n, m):
    """the object means what its attributes say (simplifications of repetitions are not part of the contract)"""
    import hachoir.regex.regex as M
    try:
        return M.RegexRepeat(x, n, m)
    except ValueError:
        return M.RegexRepeat(x, 2, 3, optimize=False)


def struct(r):
    import hachoir.regex.regex as M
    c = type(r).__name__
    if isinstance(r, M.RegexRepeat):
        return (c, struct(r.regex), r.min, r.max)
    if hasattr(r, 'content'):
        return (c, tuple(map(struct, r.content)))
    if hasattr(r, 'ranges'):
        return (c, tuple((x.cmin, x.cmax) for x in r.ranges), r.exclude)
    return (c, getattr(r, 'text', None))


def subjects(al, big):
    for n in range(5 if not big else 4):
        for w in itertools.product(al, repeat=n):
            yield ''.join(w)
    yield 'q'
    yield al[0] + 'Q' + al[1]


def nullable_repeat(r):
    """repetition of something which can be empty: Python stops after an empty
    round, and an anchor repeated is not accepted"""
    import hachoir.regex.regex as M
    if isinstance(r, M.RegexRepeat):
        return r.regex.minLength() == 0 or nullable_repeat(r.regex)
    return any(map(nullable_repeat, getattr(r, 'content', ())))


def run_case(case):
    import hachoir.regex.regex as M
    _memo.clear()
    if case.get('k') == 'text':
        r, t = M.createString(case['t']), case['t']
        for x in (True, False):
            p = r.compile(python=x)
            if not p.fullmatch(t):
                return 'the text %s of %r does not match it' % (r, t)
            for i in range(len(t)):
                for u in (t[:i] + t[i + 1:], t[:i] + t[i] + t[i:], t[:i] + 'z' + t[i + 1:]):
                    if p.fullmatch(u) and u != t:
                        return 'the text %s of %r matches %r' % (r, t, u)
        return None
    if case.get('k') == 'span':
        e = M.RegexRange([M.RegexRangeItem(a, b) for a, b in case['r']], bool(case['x']))
        pts = {c + d for a, b in case['r'] for c in (a, b, (a + b) // 2) for d in (-2, -1, 0, 1, 2) if c + d >= 0} | {45, 93, 94, 92, 44, 46, 48, 52, 57, 58}
        for x in (True, False):
            p = e.compile(python=x)
            for q in sorted(pts):
                if bool(p.fullmatch(chr(q))) == (any(a <= q <= b for a, b in case['r']) == bool(case['x'])):
                    return 'the class %r of %r: wrong about the character %d' % (str(e), case['r'], q)
        return None
    if case.get('k') == 'times':
        t, lo, hi = case['t'], case['lo'], case['hi']
        if hi is not None and (hi < max(lo, 1) or lo == hi == 1):
            return None
        r = M.createString(t)
        e = M.RegexRepeat(r, lo, hi)
        for x in (True, False):
            p = e.compile(python=x)
            for n in range(9):
                if bool(p.fullmatch(t * n)) != (e.min <= n and (e.max is None or n <= e.max)) and e.regex.__class__ == r.__class__:
                    return '%s (%r from %s to %s times) is wrong about %d times' % (e, t, e.min, e.max, n)
        return None
    if case.get('k') == 'range':
        want = {c for a, b in case['r'] for c in range(a, b + 1)}
        r = M.RegexRange([M.RegexRangeItem(a, b) for a, b in case['r']])
        got = {c for x in r.ranges for c in range(x.cmin, x.cmax + 1)}
        if got != want or any(x.cmax < x.cmin for x in r.ranges):
            return 'ranges %r: %r' % (case['r'], r.ranges)
        e = M.RegexRange([M.RegexRangeItem(a + 40, b + 40) for a, b in case['r']])
        for x in (True, False):
            p = e.compile(python=x)
            bad = [c for c in range(128) if bool(p.fullmatch(chr(c))) != (c - 40 in want)]
            if bad:
                return 'range %s matches %r wrongly' % (e, chr(bad[0]))
        return None
    al = case['al']
    rs = [build(b, al) for b in case['b']]
    ws = list(dict.fromkeys(subjects(sorted(set(al)) or 'a', len(rs) > 4) if len(set(al)) > 1 else subjects(al, False)))
    before = []
    for r in rs:
        before.append((struct(r), str(r)))
    for op in case['o']:
        args = [rs[i] for i in op[1:]] if op[0] != 'rep' else [rs[op[1]]]
        if sum(len(str(a)) for a in args) > 300:
            break
        if op[0] == '|':
            r = args[0] | args[1]
        elif op[0] == '&':
            r = args[0] & args[1] if len(rs) % 2 else args[0] + args[1]
        elif op[0] == 'and':
            r = M.RegexAnd.join(args)
        elif op[0] == 'or':
            r = M.RegexOr.join(args)
        elif op[0] in ('rawor', 'rawand'):
            if len(args) < 2:
                break
            r = M.RegexOr(args, optimize=False) if op[0] == 'rawor' else M.RegexAnd(args)
        else:
            r = repeat(args[0], op[2], op[3])
        for w in ws:
            ds = [den(a, w) for a in args]
            if op[0] in ('|', 'or', 'rawor'):
                want = frozenset().union(*ds)
            elif op[0] in ('&', 'and', 'rawand'):
                want = ds[0]
                for d in ds[1:]:
                    want = compose(want, d)
            else:
                break
            if den(r, w) != want:
                return '%s of %s gives %r: %s in %r instead of %s' % (op[0], ', '.join(map(repr, args)), r, sorted(den(r, w)), w, sorted(want))
        rs.append(r)
        before.append((struct(r), str(r)))
        for x, (s, t) in zip(rs, before):
            if struct(x) != s:
                return '%s of %s modifies %s: %r' % (op[0], ', '.join(map(repr, args)), t, x)
    for r in rs:
        for x in rs:
            if r == x and any(den(r, w) != den(x, w) for w in ws):
                return '%r == %r' % (r, x)
        lo, hi = r.minLength(), r.maxLength()
        for w in ws:
            for i, j in den(r, w):
                if j - i < lo or hi is not None and j - i > hi:
                    return '%r matches %r: lengths %s..%s' % (r, w[i:j], lo, hi)
        for python in (False, True):
            try:
                p = r.compile(python=python)
            except re.error as e:
                return '%s is not a regular expression: %s' % (r, e)
            if nullable_repeat(r):
                continue
            for w in ws:
                if bool(p.fullmatch(w)) != ((0, len(w)) in den(r, w)):
                    return '%s (%s) %s %r' % (r.__str__(python=python), struct(r), 'matches' if p.fullmatch(w) else 'does not match', w)
    return None


def key(case, msg):
    """the known finding: the union of two complemented classes"""
    import hachoir.regex.regex as M
    C = M.RegexRange
    a, b = C._match, C._or_
    both = lambda x, y: type(y) is C and x.exclude and y.exclude
    C._match = lambda x, y: None if both(x, y) else a(x, y)
    C._or_ = lambda x, y, rev: None if both(x, y) else b(x, y, rev)
    try:
        if run_case(case) is None:
            return 'union of complemented classes'
    except Exception:
        pass
    finally:
        C._match, C._or_ = a, b
    return msg[:80]
