"""Executable contract: value, display, raw display and description are computed once and never raise."""
import os
from exe.common import *

CASE_TIMEOUT = 30
ATTRS = ('value', 'display', 'raw_display', 'description')
CREATE = dict(value='createValue', display='createDisplay', raw_display='createRawDisplay', description='createDescription')
ERRORS = ('ValueError', 'AttributeError', 'KeyError', 'IndexError', 'TypeError', 'AssertionError', 'StopIteration', 'RuntimeError',
          'UnicodeDecodeError', 'ParserError', 'MissingField', 'InputStreamError', 'Own', 'OSError', 'MemoryError', 'RecursionError',
          'NotImplementedError', 'OverflowError', 'ZeroDivisionError', 'InputStreamError')
WHAT = ('text', 'text', 'bytes', 'none', 'object', 'false', 'empty', 'default', 'others')
FILES = []


def files():
    if not FILES:
        d = os.path.join(os.environ.get('PYVC_REPO', '/repo'), 'tests', 'files')
        FILES.extend(sorted(f for f in os.listdir(d) if os.path.getsize(os.path.join(d, f)) < 60000))
    return FILES


def cases(rng, tier, hints):
    for kind in ('field', 'set', 'parser'):
        for a in ATTRS:
            for w in WHAT + ERRORS:
                for pre in ([], [x for x in ATTRS if x != a]):
                    yield dict(kind=kind, what={a: w}, reads=pre + [a, a] + pre + [a])
    for first in (True, False):
        for nxt in ('field', 'function', None):
            for reads in (['value', 'display'], ['display', 'value'], ['raw_display', 'value'], ['value', 'value']):
                yield dict(kind='links', first=first, next=nxt, reads=reads)
    k = 0
    fs = files()
    while True:
        k += 1
        if k % 60 == 0 and fs:
            yield dict(kind='file', name=rng.choice(fs), seed=rng.randrange(1 << 30), edits=rng.choice((0, 3, 30)), n=150)
        yield dict(kind=rng.choice(('field', 'set', 'parser')),
                   what={a: rng.choice(WHAT + ERRORS) for a in ATTRS if rng.random() < .7},
                   given=rng.random() < .1, reads=[rng.choice(ATTRS) for _ in range(rng.randrange(1, 12))])


def error(name):
    import hachoir.field as F
    from hachoir.stream import InputStreamError
    from hachoir.field import ParserError, MissingField

    class Own(Exception):
        pass
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('ascii', b'\xff', 0, 1, 'bad')
    if name == 'MissingField':
        class P:
            path = '/p'
        return MissingField(P(), 'x')
    c = {'Own': Own, 'ParserError': ParserError, 'InputStreamError': InputStreamError}.get(name)
    if c is None:
        import builtins
        c = getattr(builtins, name)
    return c('text')


class Watch:
    def __init__(self):
        from hachoir.core.log import log
        self.log, self.n = log, 0
        self.old = log.on_new_message
        log.on_new_message = self.one

    def one(self, level, *a):
        if level == self.log.LOG_ERROR:
            self.n += 1

    def close(self):
        self.log.on_new_message = self.old


def run_case(case):
    w = Watch()
    try:
        return globals()['run_' + {'field': 'made', 'set': 'made', 'parser': 'made'}.get(case['kind'], case['kind'])](case, w)
    finally:
        w.close()


def run_made(case, w):
    from hachoir.field import Field, FieldSet, Bits, Parser as GP
    from hachoir.parser import Parser
    from hachoir.stream import StringInputStream
    from hachoir.core.endian import BIG_ENDIAN

    class Top(Parser):
        PARSER_TAGS = {'id': 'x', 'category': 'misc', 'min_size': 0, 'description': 'the format'}
        endian = BIG_ENDIAN

        def validate(self):
            return True

        def createFields(self):
            yield Bits(self, 'a', 8)

    class Sub(FieldSet):
        def createFields(self):
            yield Bits(self, 'b', 8)
    top = Top(StringInputStream(b'abcd'))
    given = 'given' if case.get('given') else None
    kind = case['kind']
    if kind == 'parser':
        f = top
        if given:
            f._description = given
    elif kind == 'set':
        f = Sub(top, 'sub', description=given, size=8)
    else:
        f = Field(top, 'f', 8, given)
    calls = dict.fromkeys(ATTRS, 0)
    made = {}
    what = case['what']
    failed = set()

    busy = set()

    def creator(a, original):
        def create():
            calls[a] += 1
            k = what.get(a, 'default')
            if k in ERRORS:
                failed.add(a)
                raise error(k)
            if k == 'default':
                try:
                    v = original()
                except Exception:
                    failed.add(a)
                    raise
            elif k == 'others':
                busy.add(a)
                for b in ATTRS:
                    if b not in busy:
                        getattr(f, b)
                busy.discard(a)
                v = 'others'
            else:
                v = {'text': 'caf\xe9 \u20ac\n\0', 'bytes': b'\xff\0', 'none': None, 'object': [1], 'false': 0, 'empty': ''}[k]
            made[a] = v
            return v
        return create
    for a in ATTRS:
        setattr(f, CREATE[a], creator(a, getattr(f, CREATE[a])))
    # a computation which reads itself has no meaning
    nested = sum(what.get(a) in ('others',) for a in ATTRS) > 1 or ('others' in what.values() and 'default' in [what.get(a, 'default') for a in ATTRS])
    if what.get('value', 'default') == 'others' and any(what.get(a, 'default') == 'default' for a in ('display', 'raw_display')):
        return None
    if sum(what.get(a) == 'others' for a in ATTRS) > 1:
        return None
    seen = {}
    for a in case['reads']:
        before, n0 = w.n, calls[a]
        try:
            r = getattr(f, a)
        except Exception as e:
            return '%s: reading the %s raised %s: %s' % (kind, a, type(e).__name__, e)
        if calls[a] > 1:
            return '%s: the %s (%s) was computed %d times' % (kind, a, what.get(a, 'default'), calls[a])
        if a in seen:
            if seen[a] is not r:
                return '%s: two reads of the %s gave %r and %r' % (kind, a, seen[a], r)
            continue
        seen[a] = r
        if a == 'description' and given:
            if r is not given:
                return '%s: given description read as %r' % (kind, r)
            continue
        if a in failed:
            want = None if a == 'value' else '' if kind != 'parser' or a != 'description' else 'the format'
            if r != want:
                return '%s: failed %s is %r' % (kind, a, r)
            if calls[a] > n0 and w.n == before:
                return '%s: failed %s was not logged' % (kind, a)
        elif a != 'description':
            if r is not made[a]:
                return '%s: %s is %r instead of %r' % (kind, a, r, made[a])
        elif made[a] is not None and not isinstance(made[a], str) and r is not made[a]:
            return '%s: description is %r instead of %r' % (kind, r, made[a])
        elif isinstance(made[a], str) and made[a].isprintable() and made[a].isascii() and r != made[a]:
            return '%s: description is %r instead of %r' % (kind, r, made[a])
    return None


def run_links(case, w):
    from hachoir.field import Fragment, Parser, Bytes
    from hachoir.stream import StringInputStream
    from hachoir.core.endian import BIG_ENDIAN

    class Top(Parser):
        endian = BIG_ENDIAN

        def createFields(self):
            first = Fragment(self, 'one', size=16)
            two = Fragment(self, 'two', size=16)
            three = Fragment(self, 'three', size=16)
            first.setLinks(None, two)
            two.setLinks(first if case['first'] else None, {'field': three, 'function': lambda: three, None: None}[case['next']])
            three.setLinks(first)
            yield first
            yield two
            yield three
    top = Top(StringInputStream(b'abcdef'))
    list(top)
    two = top['two']
    names = [f.name for f in two]
    want = (['first'] if case['first'] else []) + (['next'] if case['next'] else []) + ['data']
    if names != want:
        return 'fragment fields %r instead of %r' % (names, want)
    for nm, target in (('first', top['one']), ('next', top['three'])):
        if nm not in names:
            continue
        link = two[nm]
        n0 = w.n
        for a in case['reads']:
            r = getattr(link, a)
            t = {'value': target, 'display': target.path}.get(a)
            if t is not None and r is not t and r != t:
                return 'link %s: %s is %r instead of %r' % (nm, a, r, t)
        if w.n != n0:
            return 'link %s: %d errors logged' % (nm, w.n - n0)
    return None


def run_file(case, w):
    import random
    import itertools
    from hachoir.stream import StringInputStream
    from hachoir.parser import guessParser
    d = os.path.join(os.environ.get('PYVC_REPO', '/repo'), 'tests', 'files', case['name'])
    data = open(d, 'rb').read()
    rng = random.Random(case['seed'])
    try:
        p = guessParser(StringInputStream(data))
        if p is None:
            return None
        if case['edits']:
            b = bytearray(data)
            for _ in range(case['edits']):
                b[rng.randrange(min(len(b), 2000))] = rng.choice((0, 1, 255, 128, rng.randrange(256)))
            p = type(p)(StringInputStream(bytes(b)))
    except Exception:
        return None
    todo = [p]
    n = 0
    while todo and n < case['n']:
        s = todo.pop(rng.randrange(len(todo)))
        try:
            fields = list(itertools.islice(iter(s), 40))
        except Exception:
            fields = []
        for f in [s] + fields:
            n += 1
            calls = {}
            for a in ATTRS:
                calls[a] = 0

                def wrap(orig, a=a):
                    def create(*x, **k):
                        if not x and not k:
                            calls[a] += 1
                        return orig(*x, **k)
                    return create
                try:
                    setattr(f, CREATE[a], wrap(getattr(f, CREATE[a])))
                except Exception:
                    pass
            seen = {}
            order = list(ATTRS) * 2
            rng.shuffle(order)
            for a in order:
                try:
                    r = getattr(f, a)
                except Exception as e:
                    return '%s, %s: reading the %s raised %s: %s' % (case['name'], f.path, a, type(e).__name__, e)
                if a in seen and seen[a] is not r:
                    return '%s, %s: two reads of the %s gave %r and %r' % (case['name'], f.path, a, seen[a], r)
                seen[a] = r
                if calls[a] > 1:
                    return '%s, %s: the %s was computed %d times' % (case['name'], f.path, a, calls[a])
            if f.is_field_set and f is not s:
                todo.append(f)
    return None
