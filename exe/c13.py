"""Executable contract of gaps and seekable field sets."""
from exe.common import *

CASE_TIMEOUT = 20


def cases(rng, tier, hints):
    small = []
    for s in range(-1, 5):
        for l in range(0, 4):
            small.append([s, l])
    for h in hints:
        m = h.get('model') or {}
        try:
            s0, ln, x = int(m.get('start', 0)), int(m.get('length', 1)), int(m.get('x', 0))
            if abs(s0) < 10 ** 6 and abs(ln) < 10 ** 4:
                for d in range(-2, 3):
                    for l in (0, 1, 2, ln, ln + 1):
                        yield dict(k='gaps', s=s0, n=ln, b=[[x + d, l], [s0 + ln - 1, 2]])
        except (TypeError, ValueError):
            pass
    for a in small:
        yield dict(k='gaps', s=0, n=4, b=[a])
        for b in small:
            yield dict(k='gaps', s=0, n=4, b=[a, b])
    sizes = (0, 1, 5, 8, 16)
    for a in (0, 1, 8, 80, 95, 96, 97, 1000):
        for n in sizes + (None,):
            yield dict(k='seek', size=96, ops=[[a, n]], child=None)
            for b in (0, 4, 8, 88, 96, 200):
                for m in (8, 3, None):
                    yield dict(k='seek', size=96, ops=[[a, n], [b, m]], child=rng.choice((None, None, 'size', 'nosize', 'deep')))
    yield dict(k='seek', size=96, ops=[], child=None)
    yield dict(k='seek', size=96, ops=[], child='size')
    while True:
        if rng.random() < .5:
            s0, n = rng.randrange(-3, 12), rng.randrange(0, 30)
            b = [[s0 + rng.randrange(-5, n + 6), rng.choice((0, 1, 1, 2, 3, 5, rng.randrange(n + 8)))] for _ in range(rng.randrange(0, 9))]
            yield dict(k='gaps', s=s0, n=n, b=b)
        else:
            size = 8 * rng.randrange(1, 20)
            ops = [[rng.choice((None, rng.randrange(size + 3), rng.randrange(size // 8) * 8, rng.randrange(4 * size))) if rng.random() < .9 else size,
                    rng.choice((None, 0, 1, 3, 8, 8, 16, rng.randrange(size)))] for _ in range(rng.randrange(0, 8))]
            yield dict(k='seek', size=size, ops=ops, child=rng.choice((None, None, 'size', 'nosize', 'deep')), err=rng.choice((0, 0, 0, 1)))


def classes():
    from hachoir.field import RootSeekableFieldSet, SeekableFieldSet, Bits, FieldSet, Parser, ParserError
    from hachoir.core.endian import BIG_ENDIAN

    def fields(self):
        for a, n in self.ops:
            if a is not None:
                self.seekBit(a)
            if n is not None:
                yield Bits(self, 'f[]', n)
        if self.err:
            raise ParserError('broken')

    class Root(RootSeekableFieldSet):
        endian = BIG_ENDIAN
        autofix = True

        def __init__(self, stream, ops, err):
            self.ops, self.err = ops, err
            RootSeekableFieldSet.__init__(self, None, 'root', stream, None, stream.askSize(self))
        createFields = fields

    class Child(SeekableFieldSet):
        def __init__(self, parent, name, ops, err, size):
            self.ops, self.err = ops, err
            SeekableFieldSet.__init__(self, parent, name, size=size)
        createFields = fields

    class Par(Parser):
        endian = BIG_ENDIAN
        autofix = True

        def __init__(self, stream, ops, err, size):
            self.a = (ops, err, size)
            Parser.__init__(self, stream)

        def createFields(self):
            yield Bits(self, 'before', 5)
            yield Child(self, 'child', *self.a)

    class Mid(FieldSet):
        def createFields(self):
            yield Bits(self, 'pre', 11)
            yield Child(self, 'child', *self.parent.a)

    class Top(Par):
        def createFields(self):
            yield Bits(self, 'before', 5)
            yield Mid(self, 'mid')
    return Root, Par, Top


def run_case(c):
    if c['k'] == 'gaps':
        from hachoir.field.seekable_field_set import getgaps
        b = [tuple(x) for x in c['b']]
        keep = list(b)
        r = list(getgaps(c['s'], c['n'], b))
        what = 'getgaps(%r, %r, %r) = %r' % (c['s'], c['n'], b, r)
        if b != keep:
            return what + ' changes the list'
        free = [x for x in range(c['s'], c['s'] + c['n']) if not any(s <= x < s + l for s, l in b)]
        exp = []
        for x in free:
            if exp and exp[-1][0] + exp[-1][1] == x:
                exp[-1][1] += 1
            else:
                exp.append([x, 1])
        exp = [tuple(e) for e in exp]
        return chk(r == exp, what + ', expected %r' % exp)
    from hachoir.stream import StringInputStream
    from hachoir.field import FieldError
    Root, Par, Top = classes()
    n = c['size'] // 8
    err = bool(c.get('err'))
    if c['child'] is None:
        fs = Root(StringInputStream(b'x' * n), c['ops'], err)
        top, size = fs, c['size']
    else:
        total = n + 5 + max([0] + [(a or 0) // 8 for a, _ in c['ops']])
        mk = Top if c['child'] == 'deep' else Par
        top = mk(StringInputStream(b'x' * total), c['ops'], err, c['size'] if c['child'] != 'nosize' else None)
        try:
            fs = top['mid/child' if c['child'] == 'deep' else 'child']
        except FieldError:
            # a set without size is refused, and an error of an unsized set is not repaired
            if c['child'] == 'nosize':
                return None
            raise
        size = c['size'] if c['child'] != 'nosize' else None
    if size is None and err:
        return None
    what = 'seekable set %s (%s), operations %r%s' % (c['size'], c['child'] or 'root', c['ops'], ', then an error' if err else '')
    seen = []
    try:
        for f in fs:
            seen.append(f)
    except Exception as e:
        if isinstance(e, FieldError) and size is None:
            return None
        return '%s: %s: %s' % (what, type(e).__name__, e)
    fl = list(fs)
    if [f.name for f in fl] != [f.name for f in seen] or len(set(f.name for f in fl)) != len(fl):
        return '%s: fields %r seen as %r' % (what, [f.name for f in fl], [f.name for f in seen])
    end = fs.size
    if size is not None and end != size:
        return '%s: size %r' % (what, end)
    real = [f for f in fl if f.name.startswith('f[')]
    fill = [f for f in fl if not f.name.startswith('f[')]
    lay = [(f.name, f.address, f.size) for f in fl]
    cov = [0] * end
    for f in fl:
        if f.address < 0 or f.address + f.size > end:
            return '%s: field %s outside of the set of size %s: %r' % (what, f.name, end, lay)
        if f.absolute_address != fs.absolute_address + f.address:
            return '%s: absolute address of %s' % (what, f.name)
    for f in real:
        for x in range(f.address, f.address + f.size):
            cov[x] |= 1
    for f in fill:
        if f.size <= 0:
            return '%s: empty filler %r' % (what, lay)
        for x in range(f.address, f.address + f.size):
            if cov[x]:
                return '%s: filler %s overlaps at %s: %r' % (what, f.name, x, lay)
            cov[x] |= 2
    if not all(cov):
        return '%s: bit %s is not covered: %r' % (what, cov.index(0), lay)
    # fields which fit are kept: the first one does
    pos, exp = 0, []
    if size is not None:
        for a, k in c['ops']:
            if a is not None:
                pos = a
            if k is None:
                continue
            if pos + k > size:
                break
            exp.append((pos, k))
            pos += k
        got = [(f.address, f.size) for f in real]
        if got != exp:
            return '%s: parsed fields %r, expected %r' % (what, got, exp)
    return None
