"""Executable contract of addresses, paths and lookups of fields: a tree is
expanded completely; a fresh tree of the same data is then asked in any order."""
from exe.common import *

CASE_TIMEOUT = 20
NAMES = ('a', 'b', 'item[]', 'x[]', 'a[]', 'item[1]', 'sub', 'raw[]', 'c.d', 'item', '.h', 'padding[]', 'x')


def gen_set(rng, depth, bits):
    out = []
    for _ in range(rng.randrange(0 if depth else 1, 7)):
        nm = rng.choice(NAMES)
        r = rng.random()
        if depth < 3 and r < .35:
            out.append([nm, 's', rng.choice((None, None, 8 * rng.randrange(1, 6), rng.randrange(1, 40))), gen_set(rng, depth + 1, bits)])
        elif r < .95:
            out.append([nm, 'b', rng.choice((1, 4, 8, 8, 16, rng.randrange(1, 64)))])
        else:
            out.append([nm, 'e'])
    return out


def paths(spec, pre):
    """plausible paths"""
    out, cnt = [pre or '/'], {}
    for it in spec:
        nm = it[0]
        if nm.endswith('[]'):
            i = cnt.get(nm, 0)
            cnt[nm] = i + 1
            nm = nm[:-2] + '[%d]' % i
        p = pre + '/' + nm
        if it[1] == 's':
            out += paths(it[3], p)
        out.append(p)
    return out


def cases(rng, tier, hints):
    B = lambda n, z=8: [n, 'b', z]
    fixed = [
        (64, [B('a'), B('item[]'), ['s', 's', None, [B('x'), ['t', 's', None, [B('y', 3), B('item[]', 5), B('item[]')]]]], B('item[]'), B('z')], True),
        (40, [B('item[]', 16), B('item[]', 16), B('item[]', 16)], True),
        (40, [['s', 's', 24, [B('a', 16), B('b', 16)]], B('item[]')], True),
        (80, [['s', 's', 24, [B('a', 16)]], ['l', 's', None, [B('a'), ['m', 's', 16, [['n', 's', None, [B('k', 9)]]]]]]], True),
    ]
    for bits, spec, fix in fixed:
        ps = paths(spec, '') + ['/raw[0]', '/s/raw[0]', '/l/m/raw[0]']
        for p in ps:
            for q in ps:
                yield dict(bits=bits, spec=spec, fix=fix, ops=[['get', p], ['rel', p, q], ['dots', p, 3]])
            yield dict(bits=bits, spec=spec, fix=fix, ops=[['get', p], ['abs', p]])
        for a in range(0, bits + 2, 1):
            yield dict(bits=bits, spec=spec, fix=fix, ops=[['addr', '/', a]])
        for o in ('len', 'iter', 'in', 'bool', 'int'):
            for i in (-1, 0, 1, 2, 3):
                yield dict(bits=bits, spec=spec, fix=fix, ops=[['arr', '/', 'item', 'get', max(i, 0)], ['arr', '/', 'item', o, i], ['arr', '/', 'item', 'len', 0]])
                yield dict(bits=bits, spec=spec, fix=fix, ops=[['arr', '/', 's/t/item', o, i], ['arr', '/', 's/t/item', 'len', i]])
                yield dict(bits=bits, spec=spec, fix=fix, ops=[['int', '/', i], ['arr', '/s', 'raw', o, 0], ['arr', '/', 'raw', 'len', 0]])
    while True:
        bits = 8 * rng.randrange(1, 24)
        spec = gen_set(rng, 0, bits)
        ps = paths(spec, '')
        ps += [p + '/' + x for p in rng.sample(ps, min(3, len(ps))) for x in ('raw[0]', 'item[0]', 'nope', 'x[1]', 'raw[]', 'a')]
        ops = []
        for _ in range(rng.randrange(1, 9)):
            p, q = rng.choice(ps), rng.choice(ps)
            o = rng.choice(('get', 'get', 'rel', 'rel', 'dots', 'addr', 'addr', 'arr', 'arr', 'arr', 'int', 'more', 'abs', 'has', 'size', 'alen'))
            if o in ('get', 'abs', 'size', 'alen'):
                ops.append([o, p])
            elif o in ('rel', 'has'):
                ops.append([o, p, q])
            elif o == 'dots':
                ops.append([o, p, rng.randrange(1, 6)])
            elif o == 'addr':
                ops.append([o, p, rng.randrange(bits + 9)])
            elif o == 'arr':
                ops.append([o, p, rng.choice(('item', 'x', 'a', 'raw', 'nope', 'sub/x', './x', '../x', 'c.d')), rng.choice(('len', 'iter', 'in', 'get', 'bool')), rng.randrange(6)])
            elif o in ('int', 'more'):
                ops.append([o, p, rng.randrange(-1, 8)])
        yield dict(bits=bits, spec=spec, fix=rng.random() < .7, ops=ops)


def make(case):
    from hachoir.field import FieldSet, Parser, Bits, ParserError
    from hachoir.stream import StringInputStream
    from hachoir.core.endian import BIG_ENDIAN

    def fields(self, spec):
        for it in spec:
            if it[1] == 'b':
                f = Bits(self, it[0], it[2])
                f.path, f.absolute_address      # reading them early changes nothing
                yield f
            elif it[1] == 'e':
                raise ParserError('broken')
            else:
                yield S(self, it[0], it[3], it[2])

    class S(FieldSet):
        def __init__(self, parent, name, spec, size):
            FieldSet.__init__(self, parent, name, size=size)
            self.spec = spec

        def createFields(self):
            yield from fields(self, self.spec)

    class P(Parser):
        endian = BIG_ENDIAN
        autofix = case['fix']

        def createFields(self):
            return fields(self, case['spec'])
    n = case['bits'] // 8
    return P(StringInputStream(bytes((i * 41 + 7) & 255 for i in range(n))))


class Ref:
    """expanded field"""

    def __init__(self, f, parent):
        self.name, self.parent, self.addr, self.size = f._name, parent, f._address, None
        self.kids = []
        self.set = f.is_field_set
        if self.set:
            for g in f:
                self.kids.append(Ref(g, self))
        self.size = f.size

    def path(self):
        if self.parent is None:
            return '/'
        p = self.parent.path()
        return p + self.name if p == '/' else p + '/' + self.name

    def abs(self):
        return self.addr + (self.parent.abs() if self.parent else 0)

    def child(self, nm):
        for k in self.kids:
            if k.name == nm:
                return k
        return None

    def find(self, key):
        cur = self
        if key.startswith('/'):
            while cur.parent:
                cur = cur.parent
            key = key[1:]
            if not key:
                return cur
        for part in key.split('/'):
            if not part.strip('.'):
                for _ in range(len(part) - 1):
                    cur = cur.parent
                    if cur is None:
                        return None
            else:
                cur = cur.child(part)
                if cur is None:
                    return None
        return cur

    def all(self):
        out = [self]
        for k in self.kids:
            out += k.all()
        return out


def desc(f):
    return (f.path, f.absolute_address)


def same(got, ref, what):
    if ref is None:
        return '%s returned %s, not an error' % (what, got.path)
    e = (ref.path(), ref.abs())
    if desc(got) != e:
        return '%s: %r instead of %r' % (what, desc(got), e)
    if got._address != ref.addr:
        return '%s: address %r instead of %r' % (what, got._address, ref.addr)
    return None


def run_case(case):
    from hachoir.field import MissingField, FieldError
    try:
        ref = Ref(make(case), None)
    except Exception as e:
        if type(e).__name__ in ('ParserError',):
            return None         # the data is refused
        raise
    root = make(case)

    def look(base, key, exp, what):
        try:
            g = base[key]
        except MissingField:
            if exp is not None:
                raise Bad('%s: MissingField, but %s exists' % (what, exp.path()))
            return None
        m = same(g, exp, what)
        if m:
            raise Bad(m)
        if base[key] is not g:
            raise Bad('%s: another object the second time' % what)
        if root[g.path] is not g:
            raise Bad('%s: the path %s does not lead back to the field' % (what, g.path))
        return g
    try:
        for op in case['ops']:
            o = op[0]
            r = ref.find(op[1])
            if o in ('get', 'abs'):
                look(root, op[1], r, 'root[%r]' % op[1])
                continue
            try:
                base = root[op[1]]
            except MissingField:
                if r is not None:
                    return 'root[%r] is missing' % op[1]
                continue
            m = same(base, r, 'root[%r]' % op[1])
            if m:
                return m
            if o == 'rel':
                p, k = r, 0
                tgt = op[2]
                while p is not None:
                    pp = p.path().rstrip('/') + '/'
                    if tgt.startswith(pp) and len(tgt) > len(pp):
                        break
                    p, k = p.parent, k + 1
                if p is not None:
                    key = '/'.join(['..'] * k + [tgt[len(p.path().rstrip('/')) + 1:]])
                    look(base, key, r.find(key), '%s[%r]' % (r.path(), key))
                key = '.' * (k + 1) + '/' + 'nope'
                look(base, key, None, '%s[%r]' % (r.path(), key))
            elif o == 'has':
                got = op[2] in base
                if got != (r.find(op[2]) is not None):
                    return '%r in %s is %r' % (op[2], r.path(), got)
            elif o == 'dots':
                look(base, '.' * op[2], r.find('.' * op[2]), '%s[%r]' % (r.path(), '.' * op[2]))
            elif not r.set:
                continue
            elif o == 'addr':
                exp = [k for k in r.kids if k.addr <= op[2] < k.addr + k.size]
                g = base.getFieldByAddress(op[2])
                if (g is None) != (not exp):
                    return '%s.getFieldByAddress(%d): %s' % (r.path(), op[2], g and g.path)
                if g is not None and same(g, exp[0], ''):
                    return same(g, exp[0], '%s.getFieldByAddress(%d)' % (r.path(), op[2]))
            elif o == 'int':
                try:
                    g = base[op[2]]
                except MissingField:
                    if 0 <= op[2] < len(r.kids):
                        return '%s[%d] is missing' % (r.path(), op[2])
                    continue
                except KeyError:
                    if op[2] >= 0:
                        return '%s[%d]: KeyError' % (r.path(), op[2])
                    continue
                if not 0 <= op[2] < len(r.kids):
                    return '%s[%d] exists' % (r.path(), op[2])
                m = same(g, r.kids[op[2]], '%s[%d]' % (r.path(), op[2]))
                if m:
                    return m
                if g.index != op[2]:
                    return '%s: index %r instead of %d' % (g.path, g.index, op[2])
            elif o == 'more':
                base.readMoreFields(max(0, op[2]))
            elif o == 'size':
                if base.size != r.size:
                    return '%s: size %r instead of %r' % (r.path(), base.size, r.size)
            elif o == 'alen':
                if len(base) != len(r.kids):
                    return '%s: %d fields instead of %d' % (r.path(), len(base), len(r.kids))
            elif o == 'arr':
                pre, _, nm = op[2].rpartition('/')
                rs = r.find(pre) if pre else r
                try:
                    a = base.array(op[2])
                except MissingField:
                    if rs is not None:
                        return '%s.array(%r): MissingField' % (r.path(), op[2])
                    continue
                if rs is None:
                    return '%s.array(%r) exists' % (r.path(), op[2])
                exp = []
                while rs.child('%s[%d]' % (nm, len(exp))):
                    exp.append(rs.child('%s[%d]' % (nm, len(exp))))
                w = '%s.array(%r)' % (r.path(), op[2])
                if op[3] == 'len' and len(a) != len(exp):
                    return '%s: length %d instead of %d' % (w, len(a), len(exp))
                if op[3] == 'bool' and bool(a) != bool(exp):
                    return '%s: bool' % w
                if op[3] == 'in' and (op[4] in a) != (rs.child('%s[%d]' % (nm, op[4])) is not None):
                    return '%s: %d in array is %r' % (w, op[4], op[4] in a)
                if op[3] == 'get':
                    e = rs.child('%s[%d]' % (nm, op[4]))
                    try:
                        m = same(a[op[4]], e, '%s[%d]' % (w, op[4]))
                        if m:
                            return m
                    except MissingField:
                        if e is not None:
                            return '%s[%d] is missing' % (w, op[4])
                if op[3] == 'iter':
                    got = [desc(x) for x in a]
                    if got != [(x.path(), x.abs()) for x in exp]:
                        return '%s: iterates over %r instead of %r' % (w, got, [x.path() for x in exp])
        # every field of the tree after these operations
        for x in ref.all():
            p = x.path()
            look(root, p, x, 'root[%r] afterwards' % p)
    except Bad as e:
        return str(e)
    return None


class Bad(Exception):
    pass
