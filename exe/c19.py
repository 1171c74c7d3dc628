"""Executable contract of metadata entries: adding values, filters, export."""
from exe.common import *
import datetime as DT
import math

CASE_TIMEOUT = 30
TEXTS = ('', 'a', 'ab', 'abc', 'b', ' ab ', 'ab\n', '\0', 'a\r\nb', 'a\nb', 'x' * 299, 'x' * 300, 'x' * 301, 'x' * 400, 'x' * 400 + 'y', 'é', '\t\v')
NUMS = (0, 1, -1, 5, 999, 1000, 1001, 20000, 20001, 1.5, 0.5, float('inf'), float('-inf'), float('nan'), True, False, 10**30)
ENTRIES = ('title', 'width', 'compr_rate', 'nb_page', 'duration', 'creation_date', 'version', 'comment', 'track_number', 'language', 'latitude', 'mime_type', 'frame_rate')


def val(rng):
    k = rng.random()
    if k < .45:
        return ['t', rng.choice(TEXTS)]
    if k < .5:
        return ['b', rng.choice(TEXTS[:10])]
    if k < .7:
        return ['n', rng.choice(NUMS)]
    if k < .78:
        return ['td', rng.choice((0, 1, 999, 1000, 10**9, 365 * 86400 * 10**6, 365 * 86400 * 10**6 + 1, -5))]
    if k < .9:
        return ['d', rng.choice(('date', 'naive', 'utc', 'tz')), rng.choice((1, 1849, 1850, 2000, 2030, 2031, 9999)), rng.choice((1, 12)), rng.choice((1, 31)), rng.choice((0, 23))]
    if k < .95:
        return ['x', rng.choice(('2004-01-02', '2004', '1700', '2/10', '12', 'fre', 'zzz'))]
    return rng.choice((['none'], ['pair', ['t', rng.choice(TEXTS)], rng.choice(TEXTS)], ['pair', ['n', rng.choice(NUMS)], 'txt'], ['three'], ['obj']))


def cases(rng, tier, hints):
    for t in TEXTS:
        for u in TEXTS:
            yield dict(k='add', e='title', v=[['t', t], ['t', u], ['t', t]])
    for e in ENTRIES:
        for n in NUMS:
            yield dict(k='add', e=e, v=[['n', n], ['n', n]])
    for kind in ('date', 'naive', 'utc', 'tz'):
        for y in (1, 1849, 1850, 2030, 2031, 9999):
            for m, d in ((1, 1), (12, 31), (12, 30)):
                for h in (0, 23):
                    yield dict(k='add', e='creation_date', v=[['d', kind, y, m, d, h]])
    for us in (0, 999, 1000, 1001, 365 * 86400 * 10**6 - 1, 365 * 86400 * 10**6, 365 * 86400 * 10**6 + 1):
        yield dict(k='add', e='duration', v=[['td', us]])
    for n in (10, 20, 40, 70, 300):
        yield dict(k='raw', f=None, t=None, v=list(range(n)) * 2)
        yield dict(k='raw', f=None, t=None, v=['%d.' % i for i in range(n)] * 2)
    yield dict(k='all', p=None, pr=None)
    for i in range(20):
        yield dict(k='all', p=rng.randrange(100, 1000), pr=rng.choice((None, [rng.randrange(100, 1000) for _ in range(60)])))
    while True:
        if rng.random() < .25:
            al = rng.choice(('ab', 'abc'))
            yield dict(k='raw', f=rng.choice((None, 'short', 'long', 'a', 'small')), t=rng.choice((None, 'str', 'int', 'both')),
                       v=[rng.choice((rng.randrange(6), ''.join(rng.choice(al) for _ in range(rng.randrange(5))))) for _ in range(rng.randrange(1, 12))])
        elif rng.random() < .1:
            yield dict(k='all', p=rng.choice((None, rng.randrange(50, 1100))), pr=rng.choice((None, [rng.randrange(100, 1000) for _ in range(60)], [rng.randrange(100, 103) for _ in range(60)])))
        elif rng.random() < .6:
            yield dict(k='add', e=rng.choice(ENTRIES), v=[val(rng) for _ in range(rng.randrange(1, 8))])
        else:
            yield dict(k='export', v=[[rng.choice(ENTRIES), val(rng)] for _ in range(rng.randrange(0, 12))],
                       g=[[rng.choice(['g[]', 'a', 'b', 'c']), [[rng.choice(ENTRIES), val(rng)] for _ in range(rng.randrange(0, 3))]] for _ in range(rng.randrange(0, 4))],
                       p=rng.choice((None, 0, 100, 150, 201, 300, 500, 902, 999, 5000)), h=rng.choice((0, 1)), title=rng.choice((None, 'T')))


def make(v):
    if v[0] == 't' or v[0] == 'x':
        return v[1]
    if v[0] == 'b':
        return v[1].encode('latin-1')
    if v[0] == 'n':
        return v[1]
    if v[0] == 'td':
        return DT.timedelta(microseconds=v[1])
    if v[0] == 'd':
        _, kind, y, m, d, h = v
        if kind == 'date':
            return DT.date(y, m, d)
        tz = dict(naive=None, utc=DT.timezone.utc, tz=DT.timezone(DT.timedelta(hours=5)))[kind]
        return DT.datetime(y, m, d, h, 0, 0, tzinfo=tz)
    if v[0] == 'none':
        return None
    if v[0] == 'pair':
        return (make(v[1]), v[2])
    if v[0] == 'three':
        return (1, 2, 3)
    return ()


LIMITS = dict(width=(1, 20000), compr_rate=(.001, 1000.0), nb_page=(1, 20000), track_number=(1, 999), frame_rate=(1, 150))
TYPES = dict(title=str, width=int, compr_rate=(int, float), duration=DT.timedelta, creation_date=(DT.date,), comment=str, track_number=int, latitude=float, mime_type=str, frame_rate=(int, float))


def accept(e, v):
    """the filter of the entry accepts v"""
    if e in LIMITS and isinstance(v, (int, float)):
        return LIMITS[e][0] <= v <= LIMITS[e][1]
    if e == 'duration':
        return DT.timedelta(milliseconds=1) <= v <= DT.timedelta(days=365)
    if e == 'creation_date':
        if isinstance(v, DT.datetime):
            if v.tzinfo is not None:
                off = v.utcoffset()
                t = (v.replace(tzinfo=None) - DT.datetime(1, 1, 1)) - off
            else:
                t = v - DT.datetime(1, 1, 1)
            return DT.datetime(1850, 1, 1) - DT.datetime(1, 1, 1) <= t <= DT.datetime(2030, 12, 31) - DT.datetime(1, 1, 1)
        return DT.date(1850, 1, 1) <= v <= DT.date(2030, 12, 31)
    return True


def ref_add(meta, l, e, value):
    """reference: the list of values after value is added"""
    from hachoir.metadata.register import Data
    from hachoir.metadata import config
    d = meta.getItems(e)
    text = None
    if isinstance(value, tuple):
        if len(value) != 2:
            raise ValueError
        value, text = value
    if value is None:
        return
    if d.conversion:
        try:
            new = d.conversion(meta, e, value)
        except Exception:
            return
        if new is None:
            return
        if isinstance(new, tuple):
            value, text = new[0], text or new[1]
        else:
            value = new
    elif isinstance(value, bytes):
        value = value.decode('latin-1')
    if isinstance(value, str):
        value = value.strip(' \t\v\n\r\0')
        if not value:
            return
    if e in TYPES and not isinstance(value, TYPES[e]):
        return
    if isinstance(value, str):
        value = value.replace('\r\n', '\n').replace('\r', '\n')
        if len(value) > 300:
            value = value[:300] + '(...)'
    if any(value == x for x, t in l) or not accept(e, value):
        return
    if isinstance(value, str):
        for i, (x, t) in enumerate(l):
            if isinstance(x, str):
                if value.startswith(x):
                    l[i] = (value, text)
                    return
                if x.startswith(value):
                    return
    l.append((value, text))


def same(a, b):
    return type(a) is type(b) and (a == b or a != a and b != b)


FILTERS = dict(short=lambda v: isinstance(v, int) or len(v) < 3, long=lambda v: isinstance(v, int) or len(v) >= 2,
               a=lambda v: isinstance(v, int) or v[:2] != 'ab', small=lambda v: not isinstance(v, int) or v < 3)


class Quiet:
    def warning(self, *a):
        pass


def run_raw(case):
    from hachoir.metadata.metadata_item import Data
    ty = {None: None, 'str': str, 'int': int, 'both': (int, str)}[case['t']]
    f = FILTERS.get(case['f'])
    d = Data('key', 100, 'Key', type=ty, filter=f)
    d.metadata = Quiet()
    l = []
    for v in case['v']:
        d.add(v)
        if v != '' and (ty is None or isinstance(v, ty)) and v not in l and (f is None or f(v)):
            for i, x in enumerate(l):
                if isinstance(v, str) and isinstance(x, str):
                    if v.startswith(x):
                        l[i] = v
                        break
                    if x.startswith(v):
                        break
            else:
                l.append(v)
        if [x.value for x in d.values] != l:
            return 'after adding %r: %r instead of %r' % (v, [x.value for x in d.values], l)
    if any((x in d) != (x in l) for x in ('a', 'ab', 0, 1, 5, 250, '1.', '299.')):
        return '__contains__'
    return None


def run_all(case):
    from hachoir.metadata.metadata import RootMetadata
    m = RootMetadata()
    ds = list(m)
    for i, d in enumerate(ds):
        if case['pr']:
            d.priority = case['pr'][i % len(case['pr'])]
        d.type = d.filter = d.conversion = None
        d.add('text of %s' % d.key)
        if i % 3 == 0:
            d.add('another text')
        if i % 7 == 6:
            del d.values[:]
    p = 999 if case['p'] is None else min(max(case['p'], 100), 999)
    for human in (False, True):
        want = ['- %s: %s' % (d.description if human else d.key, x.text) for pr in range(100, p + 1) for d in ds if d.priority == pr for x in d.values]
        got = m.exportPlaintext(priority=case['p'], human=human)
        if (got or [0])[1:] != want:
            return 'exportPlaintext(%r): %r instead of %r' % (case['p'], got, want)
    return None


def run_case(case):
    if case['k'] in ('raw', 'all'):
        import hachoir.core.config as config
        config.quiet = True
        return run_raw(case) if case['k'] == 'raw' else run_all(case)
    import hachoir.core.config as config
    from hachoir.metadata.metadata import RootMetadata, MultipleMetadata, Metadata
    from hachoir.core.tools import makeUnicode
    config.quiet = True
    if case['k'] == 'add':
        m, r, l = RootMetadata(), RootMetadata(), []
        e = case['e']
        d = m.getItems(e)
        for v in case['v']:
            v = make(v)
            try:
                ref_add(r, l, e, v)
                want = 'ok'
            except ValueError:
                want = 'ValueError'
            try:
                setattr(m, e, v)
                got = 'ok'
            except Exception as x:
                got = type(x).__name__
            if got != want:
                return 'adding %r to %s: %s' % (v, e, got)
            if len(d) != len(l) or not all(same(x.value, y) for x, (y, t) in zip(d, l)):
                return '%s after adding %r: %r instead of %r' % (e, v, [x.value for x in d], [y for y, t in l])
            for x, (y, t) in zip(d, l):
                want = t if t is not None else y if isinstance(y, str) else d.text_handler(y) if d.text_handler else makeUnicode(y)
                if x.text != want or not isinstance(x.text, str):
                    return 'text of %r in %s: %r instead of %r' % (y, e, x.text, want)
            if m.getValues(e) != [x.value for x in d] and all(x.value == x.value for x in d):
                return 'getValues'
        return None
    m = MultipleMetadata()

    def fill(m, vs):
        for e, v in vs:
            try:
                setattr(m, e, make(v))
            except ValueError:
                pass
    fill(m, case['v'])
    groups = []
    used = {}
    for key, vs in case['g']:
        g = Metadata(m)
        fill(g, vs)
        if key in used and not key.endswith('[]'):
            continue
        if not g:
            if m.addGroup(key, g):
                return 'an empty group is added'
            continue
        used[key] = used.get(key, 0) + 1
        if not m.addGroup(key, g, 'Header %d' % len(groups)):
            return 'group %s is not added' % key
        groups.append((key[:-2] + '[%u]' % used[key] if key.endswith('[]') else key, g, 'Header %d' % len(groups)))

    def lines(m, title, p, human):
        p = 999 if p is None else min(max(p, 100), 999)
        r = ['%s:' % title]
        ds = [d for d in m]
        for pr in sorted({d.priority for d in ds}):
            for d in ds:
                if d.priority == pr <= p:
                    for x in d.values:
                        r.append('- %s: %s' % (d.description if human else d.key, x.text if human else makeUnicode(x.value)))
        return r if len(r) > 1 else []
    p, h = case['p'], case['h']
    want = lines(m, 'Common', p, h)
    for key, g, header in groups:
        want += lines(g, header if h else key, p, h)
    got = m.exportPlaintext(priority=p, human=bool(h))
    if got != (want or None):
        return 'exportPlaintext(priority=%r, human=%r): %r instead of %r' % (p, h, got, want)
    t = case['title']
    if Metadata.exportPlaintext(m, p, bool(h), '- ', t) != (lines(m, t or 'Common', p, h) or None):
        return 'exportPlaintext with a title'
    if bool(m) != bool(any(len(d) for d in m) or groups):
        return 'truth value'
    return None
