"""Executable contract of pattern matching and of the search for embedded files."""
from exe.common import *
import contextlib
import io
import os
import tempfile

CASE_TIMEOUT = 60
ALPHABETS = ['ab', 'abc', 'a.*\\', '[]^-', '\n\0\xff ', '{}()|', 'a-$', '+?b', '+,-./', ''.join(map(chr, range(256)))]


def texts_data(rng, al):
    texts = [''.join(rng.choice(al) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(1, 6))]
    data = ''.join(rng.choice([rng.choice(al), rng.choice(texts)]) for _ in range(rng.randint(0, 14)))
    return texts, data


def scan(rng, slice_, n, magics, places, filler=0, start=0, size=None):
    """places: (position, index of the magic)"""
    data = bytearray([filler]) * n
    for p, k in places:
        m = s2b(magics[k]['m'])
        data[p:p + len(m)] = m
    return dict(k='scan', slice=slice_, data=b2s(bytes(data[:n])), magics=magics, start=start, size=size)


def magic(m, off=0, cs=None, skip=False, ok=True):
    return dict(m=b2s(m), off=off, cs=cs, skip=skip, ok=ok)


def cases(rng, tier, hints):
    for al in ('\\*', '^-', '[a', ']-^\\', '+,-.', '\n.'):
        for r in (list(al), list(al)[::-1], list(al) + ['a', 'b']):
            yield dict(k='pm', texts=r, rx=[], data=al + 'ab' + al[::-1] + al)
    yield dict(k='pm', texts=['a', 'ab', 'a', 'ab', 'b'], rx=[], data='abaab')
    yield dict(k='pm', texts=['xx'], rx=['a[0-9]', 'a[0-9]b'], data='a1 a1b xx a2ba2')
    yield dict(k='pm', texts=[], rx=['BM.{4}x'], data='BM\n\n\n\nxBM....x')
    yield dict(k='pm', texts=[], rx=[], data='abc')
    yield dict(k='real')
    one = [magic(b'MAG!')]
    for p in range(0, 30):
        yield scan(rng, 8, 32, one, [(p, 0)])
    two = [magic(b'\x01MAG', 3), magic(b'END', 0, ok=False)]
    for p in range(0, 26):
        yield scan(rng, 8, 40, two, [(p, 0), (p + 5, 1), (p + 9, 0)], start=rng.choice((0, 0, 3)), size=rng.choice((None, None, 20, 33, 100)))
    for p in range(0, 12):
        for cs in (0, 8, 31, 32, 40, 64, 65, 100, 128, 400):
            yield scan(rng, 8, 50, [magic(b'SKIP', 0, cs, True), magic(b'XY', rng.choice((0, 1)))],
                       [(p, 0)] + [(q, 1) for q in range(p + 4, 48, 3)])
    # which files are stored
    yield dict(k='names', n=10050)
    for st in (0, 3, 8, 17):
        for size in (None, 20):
            for f in (st, st + 2):
                for cs in (320, 40, 8 * (st + 20), 320 - 8 * st):
                    yield dict(scan(rng, 8, 40, [magic(b'MAG!', 0, cs)], [(f, 0)], start=st, size=size), out=1)
    # the usual size of a slice
    for p in (65536 - 5, 65536 - 3, 65536 - 1, 65536):
        yield scan(rng, None, 70000, one, [(p, 0)])
    yield scan(rng, None, 70000, one, [(66000, 0)], start=1001)
    while True:
        r = rng.random()
        if r < .5:
            al = rng.choice(ALPHABETS)
            texts, data = texts_data(rng, al)
            yield dict(k='pm', texts=texts, rx=[], data=data)
        else:
            n = rng.randrange(1, 120)
            first = rng.sample(range(1, 256), 4)
            ms = [magic(bytes([first[i]]) + bytes(rng.randrange(256) for _ in range(rng.randrange(0, 9))), rng.choice((0, 0, 1, 5, 100)),
                        rng.choice((None, None, 0, 8 * rng.randrange(40), rng.randrange(300))), rng.random() < .5, rng.random() < .8)
                  for i in range(rng.randrange(1, 5))]
            places, q = [], rng.randrange(8)
            if rng.random() < .2:
                ms.append(dict(ms[0], off=2))       # two parsers with the same signature
            while q < n:
                k = rng.randrange(len(ms))
                places.append((q, k))
                q += len(ms[k]['m']) // 2 + rng.choice((0, 0, 1, 3, 10))
            yield scan(rng, rng.choice((1, 3, 8, 9, 16, 64)), n, ms, places, start=rng.choice((0, 0, 0, rng.randrange(n + 2))),
                       size=rng.choice((None, None, rng.randrange(n + 5))))


def run_pm(case):
    import re
    from hachoir.regex import PatternMatching
    texts, data = case['texts'], case['data']
    p = PatternMatching()
    for i, t in enumerate(texts):
        p.addString(t, i)
    for i, r in enumerate(case['rx']):
        p.addRegex(r, len(texts) + i)
    # searching twice, and after one more pattern, gives the same
    got = [(a, b, it.user) for a, b, it in p.search(data)]
    if [(a, b, it.user) for a, b, it in p.search(data)] != got:
        return 'searching again gives something else'
    rx = [re.compile(r, re.S) for r in case['rx']]

    def starts(i):
        return any(data.startswith(t, i) for t in texts) or any(r.match(data, i) for r in rx)
    pos = 0
    for a, b, u in got:
        nxt = [i for i in range(pos, len(data)) if starts(i)]
        if not nxt or nxt[0] != a:
            return 'search %r in %r: match reported at %d instead of %s (regex %s)' % (texts + case['rx'], data, a, nxt[:1], p)
        s = data[a:b]
        if u < len(texts):
            if texts[u] != s or texts.index(s) != u:
                return 'search %r: %r reported with the tag of %r' % (texts, s, texts[u])
        elif s in texts or not rx[u - len(texts)].fullmatch(s):
            return 'search %r: %r reported with the tag of %r' % (case['rx'], s, case['rx'][u - len(texts)])
        pos = b
    if any(starts(i) for i in range(pos, len(data))):
        return 'search %r in %r: a match is missing after %d (regex %s)' % (texts + case['rx'], data, pos, p)
    # one more pattern
    extra = chr(0x2603)
    p.addString(extra, 'extra')
    if [(a, b, it.user) for a, b, it in p.search(extra + data)] != [(0, 1, 'extra')] + [(a + 1, b + 1, u) for a, b, u in got]:
        return 'a pattern added after a search: %r' % texts
    return None


def run_scan(case):
    from hachoir.stream import StringInputStream
    from hachoir.parser import ValidateError
    import hachoir.subfile.pattern as PM
    from hachoir.subfile.search import SearchSubfile
    data = s2b(case['data'])
    guesses = []

    def make(i, m):
        class Fake:
            PARSER_TAGS = {'id': 'fake%d' % i, 'magic': ((s2b(m['m']), 8 * m['off']),), 'description': 'fake'}
            index = i
            filename_suffix = None
            description = 'fake'

            @classmethod
            def getParserTags(cls):
                return dict(cls.PARSER_TAGS, **({'subfile': 'skip'} if m['skip'] else {}))

            def __init__(self, stream, validate=False):
                guesses.append((8 * len(data) - stream.size, i))
                if not validate:
                    raise AssertionError('not validated')
                if not m['ok']:
                    raise ValidateError('no')
                self.content_size = m['cs']
        return Fake
    ms = case['magics']
    classes = [make(i, m) for i, m in enumerate(ms)]
    old, PM.QueryParser = PM.QueryParser, lambda tags: classes
    found = []

    class Search(SearchSubfile):
        def processParser(self, offset, parser):
            found.append((offset, parser.index))
            if out:
                SearchSubfile.processParser(self, offset, parser)
    out = case.get('out', len(data) % 2)
    from hachoir.core import config
    config.quiet = True
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), tempfile.TemporaryDirectory() as tmp:
            s = Search(StringInputStream(data), case['start'], case['size'])
            s.verbose = False
            if case['slice']:
                s.slice_size = 8 * case['slice']
            if out:
                s.setOutput(os.path.join(tmp, 'out'))
            ok = s.main()
            stored = []
            if out and os.path.isdir(tmp + '/out'):
                for n in sorted(os.listdir(tmp + '/out')):
                    with open(tmp + '/out/' + n, 'rb') as f:
                        stored.append(f.read())
    finally:
        PM.QueryParser = old
    if not ok:
        return 'the search failed'
    # reference: every occurrence, in order
    lo, hi = case['start'], len(data)
    if case['size'] is not None:
        hi = min(hi, lo + case['size'])
    texts = [s2b(m['m']) for m in ms]
    occ = sorted((p, i) for i, t in enumerate(texts) for p in range(lo, hi - len(t) + 1) if data[p:p + len(t)] == t)
    for (p, i), (q, j) in zip(occ, occ[1:]):
        if p + len(texts[i]) > q and (p, texts[i]) != (q, texts[j]):
            return None         # overlapping occurrences: which ones are reported is not said
    want, yes, nxt = [], [], 0
    for p, i in occ:
        f = 8 * (p - ms[i]['off'])
        if f < 0 or (nxt and f < nxt):
            continue
        want.append((f, i))
        if ms[i]['ok']:
            yes.append((f, i))
            if ms[i]['skip'] and ms[i]['cs'] is not None:
                nxt = -(-(f + ms[i]['cs']) // 8) * 8
    if guesses != want:
        return 'files tried (bit position, parser): %r instead of %r' % (guesses, want)
    if found != yes:
        return 'files found (bit position, parser): %r instead of %r' % (found, yes)
    if out:
        files = [(f // 8, ms[i]['cs']) for f, i in yes if ms[i]['cs'] and not (f == 0 and ms[i]['cs'] == 8 * hi)]
        if len(files) != len(stored):
            return '%d files are stored instead of %d: %r' % (len(stored), len(files), files)
        if all(8 * f + cs <= 8 * len(data) for f, cs in files) and sorted(stored) != sorted(data[f:f + cs // 8] for f, cs in files):
            return 'the files %r are stored as %r' % (files, stored)
    if s.current_offset != 8 * max(lo, hi):
        return 'the search stops at %s' % s.current_offset
    return None


def run_real(case):
    """signatures of the parsers of hachoir, at every place around the border of a slice"""
    import re
    from hachoir.subfile.pattern import HachoirPatternMatching
    from hachoir.parser import QueryParser
    from hachoir.stream import StringInputStream
    from hachoir.subfile.search import SearchSubfile
    h = HachoirPatternMatching()
    sigs = [(m, o, p) for p in QueryParser([]) for m, o in p.getParserTags().get('magic', ())]
    texts = [m for m, o, p in sigs]
    rx = [re.compile(r, re.S) for p in QueryParser([]) for r, o in p.getParserTags().get('magic_regex', ())]
    for m, o, p in sigs:
        data = b'\x01\x02\x03' + m + b'\x01'
        over = [t for t in texts for q in range(len(data)) if data.startswith(t, q) and t != m]
        if over or any(r.search(data) for r in rx):
            continue
        got = list(h.search(data))
        if sorted(got, key=str) != sorted([(q, 24 - d) for t, d, q in sigs if t == m], key=str):
            return 'signature %r of %s: %r' % (m, p.__name__, got)
    s = SearchSubfile(StringInputStream(b'abcdefgh'))
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        if s.main() is not True:
            return 'search without a choice of parsers'
    return None


def run_names(case):
    from hachoir.subfile.output import Output
    o, seen = Output('nowhere'), set()
    for i in range(case['n']):
        n = o.createFilename(('.jpg', None, '.png')[i % 3])
        n = n.split('.')[0]
        if n in seen:
            return 'the name %r is given again, to file %d' % (n, i)
        seen.add(n)


def run_case(case):
    try:
        return dict(pm=run_pm, scan=run_scan, real=run_real, names=run_names)[case['k']](case)
    except Exception as e:
        import traceback
        return '%s: %s: %s' % (type(e).__name__, e, traceback.format_exc()[-300:].replace('\n', ' '))
