"""Executable contract of the tiling of field sets: after every operation the
fields of every set met so far tile it."""
from exe.common import *
from exe.c08 import gen_set, NAMES
from exe.c06b import part_cases, random_part, run_part

CASE_TIMEOUT = 20


def cases(rng, tier, hints):
    B = lambda n, z=8: [n, 'b', z]
    for fix in (True, False):
        for pipe in (False, True):
            for z in range(1, 30):
                yield dict(bits=24, pipe=pipe, fix=fix, ops=[], spec=[B('a'), B('b', z), B('c', 30 - z)])
                yield dict(bits=24, pipe=pipe, fix=fix, ops=[], spec=[B('a'), ['s', 's', None, [B('b', z), B('c', 9)]], B('c', 30 - z)])
                yield dict(bits=24, pipe=pipe, fix=fix, ops=[], spec=[B('a'), ['s', 's', z, [B('b', 5), B('c', 5)]], B('c', 30 - z)])
                yield dict(bits=24, pipe=pipe, fix=fix, ops=[], spec=[['s', 's', None, [B('p', 2), ['t', 's', None, [B('b', 5), ['u', 's', None, [B('c', z), B('d', 3)]], B('e', 4)]]]], B('c', 3)])
                yield dict(bits=40, pipe=pipe, fix=fix, ops=[['replace', '/', 1, [['x[]', 3], ['y', z], ['x[]', 5]]], ['write', '/', 2, 1, [['q', z]]]], spec=[B('a'), B('b', z + 8), B('c', 20)])
            yield dict(bits=24, pipe=pipe, fix=fix, ops=[], spec=[B('a'), ['s', 's', None, []], B('c')])
            yield dict(bits=24, pipe=pipe, fix=fix, ops=[], spec=[B('a'), ['z', 'z', 0], B('c')])
    nm2 = NAMES + ('new', 'new[]')
    for i, c in enumerate(part_cases(rng, tier != 'quick')):
        if i > 400:
            break
        yield c
    while True:
        yield random_part(rng)
        bits = 8 * rng.randrange(1, 24)
        spec = gen_set(rng, rng.choice((0, 1, 2, 3, 3)), bits)
        for it in spec:
            if it[1] == 'b' and rng.random() < .1:
                it[1:] = ['w', it[2], rng.randrange(-8, 64)]       # a field with a wrong address
            elif it[1] == 'b' and rng.random() < .06:
                it[1:] = ['z', 0]
            elif it[1] == 'b' and rng.random() < .04:
                it[1:] = ['x', 0]                                  # not a field
            elif it[1] == 'b' and rng.random() < .06:
                it[1:] = ['f', it[2]]                              # a field whose size cannot be computed
        ops = []
        for _ in range(rng.randrange(0, 6)):
            o = rng.choice(('more', 'more', 'iter', 'get', 'replace', 'replace', 'write', 'len', 'size', 'in'))
            set_ = rng.choice(('/', '/', rng.choice(NAMES[:-2] + ('item[0]', 'x[0]'))))
            if o == 'more' or o == 'iter':
                ops.append([o, set_, rng.randrange(0, 5)])
            elif o == 'get' or o == 'in':
                ops.append([o, set_, rng.choice(NAMES)])
            elif o in ('len', 'size'):
                ops.append([o, set_])
            elif o == 'replace':
                ops.append([o, set_, rng.randrange(6), [[rng.choice(nm2), rng.choice((1, 3, 8, None, None))] for _ in range(rng.randrange(1, 4))]])
            else:
                ops.append([o, set_, rng.randrange(6), rng.choice((0, 0, 1, 3, 8)), [[rng.choice(nm2), rng.choice((1, 2, 3, 8))] for _ in range(rng.randrange(1, 3))]])
        yield dict(bits=bits, spec=spec, fix=rng.random() < .7, pipe=rng.random() < .25, ops=ops)


class Broken(Exception):
    pass


def make(case):
    from hachoir.field import FieldSet, Parser, Bits, Bytes, ParserError, Field
    from hachoir.stream import StringInputStream, InputIOStream
    from hachoir.core.endian import BIG_ENDIAN
    import io

    class Zero(Field):
        def __init__(self, parent, name):
            Field.__init__(self, parent, name, 0)

    class NoSize(Field):
        size = property(lambda self: 1 // 0)

    def fields(self, spec):
        for it in spec:
            if it[1] == 'b':
                yield Bits(self, it[0], it[2])
            elif it[1] == 'w':
                f = Bits(self, it[0], it[2])
                f._address = it[3]
                yield f
            elif it[1] == 'z':
                yield Zero(self, it[0])
            elif it[1] == 'f':
                yield NoSize(self, it[0])
            elif it[1] == 'x':
                yield it[0]
            elif it[1] == 'e':
                raise ParserError('broken')
            else:
                yield S(self, it[0], it[3], it[2])

    class S(FieldSet):
        def __init__(self, parent, name, spec, size):
            FieldSet.__init__(self, parent, name, size=size)
            self.spec = spec
            SETS.append(self)

        def createFields(self):
            yield from fields(self, self.spec)

    class P(Parser):
        endian = BIG_ENDIAN
        autofix = case['fix']

        def createFields(self):
            yield from fields(self, case['spec'])
    n = case['bits'] // 8
    data = bytes((i * 41 + 7) & 255 for i in range(n))

    class Pipe(io.RawIOBase):
        def __init__(self):
            self.b = io.BytesIO(data)

        def read(self, n=-1):
            return self.b.read(n)

        def readable(self):
            return True

        def seekable(self):
            return False

        def seek(self, *a):
            raise OSError(29, "no seek")
    SETS = []
    st = InputIOStream(Pipe()) if case['pipe'] else StringInputStream(data)
    st._keep = st
    r = P(st)
    SETS.append(r)
    return r, SETS, Bits


def tiling(s, end, what):
    """message, or None: the fields of s tile it"""
    pos, names = 0, set()
    w = '%s, set %s' % (what, s.path)
    vals = s._fields.values
    for f in vals:
        if f._address != pos:
            return '%s: field %s at %r instead of %d' % (w, f._name, f._address, pos)
        z = f.size
        if z is None or z < 0:
            return '%s: field %s has size %r' % (w, f._name, z)
        pos += z
        if f._name in names:
            return '%s: two fields called %s' % (w, f._name)
        names.add(f._name)
        if s._fields[f._name] is not f:
            return '%s: the name %s is not the key of the field' % (w, f._name)
        if f._parent is not s:
            return '%s: parent of %s' % (w, f._name)
    if s._current_size != pos:
        return '%s: current size %r, the fields cover %d' % (w, s._current_size, pos)
    if s.done:
        if s._size is not None and s._size != pos:
            return '%s: size %r, the fields cover %d' % (w, s._size, pos)
        if s._size is None and s._parent is not None:
            return '%s: parsed, but the size is unknown' % w
    elif s._size is not None and pos > s._size:
        return '%s: the fields cover %d of %d bits' % (w, pos, s._size)
    return None


def run_case(case):
    from hachoir.field import FieldError
    if 'part' in case:
        return run_part(case)
    root, sets, Bits = make(case)

    def check(what):
        live = [root]
        k = 0
        while k < len(live):
            s = live[k]
            k += 1
            m = tiling(s, None, what)
            if m:
                raise Bad(m)
            live += [f for f in s._fields.values if f.is_field_set]

    def attempt(what, f):
        try:
            r = f()
        except FieldError as e:
            r = e
        except ZeroDivisionError as e:      # the broken field of the case
            r = e
        check(what)
        return r
    try:
        for op in case['ops'] + [['end', '/']]:
            w = repr(op)
            s = root
            if op[1] != '/':
                s = attempt(w, lambda: root[op[1]])
                if isinstance(s, Exception) or not s.is_field_set:
                    continue
            o = op[0]
            if o == 'more':
                attempt(w, lambda: s.readMoreFields(op[2]))
            elif o == 'iter':
                it = iter(s)
                got = []
                for _ in range(op[2]):
                    f = attempt(w, lambda: next(it, None))
                    if f is None or isinstance(f, Exception):
                        break
                    got.append(f)
                # the end of a pipe, when it is met, cuts the fields
                if not case['pipe'] and any(a is not b for a, b in zip(got, s._fields.values)):
                    return '%s: iteration out of order' % w
            elif o == 'get':
                attempt(w, lambda: s[op[2]])
            elif o == 'in':
                attempt(w, lambda: op[2] in s)
            elif o == 'len':
                attempt(w, lambda: len(s))
            elif o == 'size':
                attempt(w, lambda: s.size)
            elif o in ('replace', 'write'):
                vals = s._fields.values
                if op[2] >= len(vals):
                    continue
                old = vals[op[2]]
                before = [(f, f._address, f._name) for f in vals]
                rest = old.size
                new = []
                for nm, z in op[-1]:
                    if z is None:
                        z = rest if nm == op[-1][-1][0] else max(1, rest // 2)
                    if z <= 0:
                        z = 1
                    if o == 'replace':
                        z = min(z, rest) if rest > 0 else z
                    new.append(Bits(s, nm, z))
                    rest -= z
                if o == 'replace':
                    if rest > 0:
                        new.append(Bits(s, 'rest[]', rest))
                    r = attempt(w, lambda: s.replaceField(old._name, new))
                else:
                    if op[3] + sum(f.size for f in new) > old.size:
                        continue
                    a = old._address + op[3]
                    r = attempt(w, lambda: s.writeFieldsIn(old, a, new))
                    if not isinstance(r, Exception):
                        for f in new:
                            if f._address != a:
                                return '%s: written at %d instead of %d' % (w, f._address, a)
                            a += f.size
                after = [(f, f._address, f._name) for f in s._fields.values]
                if isinstance(r, Exception):
                    if [x[0] for x in after] != [x[0] for x in before]:
                        return '%s: refused (%s), but the set changed: %r' % (w, r, [x[1:] for x in after])
                    used = [x[2] for x in before if x[0] is not old] + [f._name for f in new if not f._name.endswith('[]')]
                    fits = sum(f.size for f in new) == old.size if o == 'replace' else True
                    if fits and len(set(used)) == len(used):
                        return '%s: refused (%s)' % (w, r)
                else:
                    k = len(after) - len(before)
                    if [x[0] for x in after[:op[2]]] != [x[0] for x in before[:op[2]]] or [x[0] for x in after[op[2] + 1 + k:]] != [x[0] for x in before[op[2] + 1:]]:
                        return '%s: other fields were changed' % w
                    mid = [x[0] for x in after[op[2]:op[2] + 1 + k]]
                    if o == 'replace' and (len(mid) != len(new) or any(a is not b for a, b in zip(mid, new))):
                        return '%s: not replaced by the given fields' % w
                    if any(not any(f is g for g in mid) for f in new):
                        return '%s: a field is missing' % w
            elif o == 'end':
                def all_():
                    for f in s:
                        check('while iterating')
                        if f.is_field_set:
                            len(f)
                r = attempt(w, all_)
                size = case['bits']
                if case['pipe'] and isinstance(r, Exception):
                    continue
                if not isinstance(r, Exception):
                    if not root.done:
                        return 'iterated, but not parsed to the end'
                    if not case['pipe'] and root._size != size and root._current_size != root._size:
                        return 'the root covers %r of %d bits' % (root._current_size, size)
                    if not case['pipe'] and root._current_size != size:
                        return 'the root covers %r of %d bits' % (root._current_size, size)
    except Bad as e:
        return str(e)
    return None


class Bad(Exception):
    pass
