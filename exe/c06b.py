"""executable contracts of the parts of field sets (contracts/c06b.py)"""
KEYS = ('raw[]', 'x[]', 'x', 'padding[]', 'y[]', 'x[][]')


def part_cases(rng, full):
    for null in (False, True):
        for rel in (False, True):
            for byte in (False, True):
                for ahead in (-9, -8, -1, 0, 1, 7, 8, 9, 16, 40):
                    yield dict(part='seek', lead=24, ops=[[9, ahead, rel, null, byte], [3, ahead + 5, rel, null, False]])
    for shape in ([[1, []]], [[2, []], [3, [5]]], [[4, []], [1, []]], [[5, []], [3, [1]], [5, []]], [[4, []], [5, []]], [[3, [7]], [6, [2]], [1, ['text']]]):
        yield dict(part='static', items=shape, sub=None, again=True)
        yield dict(part='static', items=shape, sub=[[1, []], [3, [9]]], again=True)
        yield dict(part='static', items=[[1, []]], sub=shape, again=False)
        yield dict(part='static', items=[[4, []]], sub=shape, again=True, same=True)
    for nb in (-1, 0, 1, 2, 5, 11):
        for item in (1, 2, 4, 5):
            yield dict(part='vector', nb=nb, item=item, lead=rng.randrange(0, 20))
    yield dict(part='names', names=['x[]', 'y[]', 'x[]', 'x[]', 'raw[]', 'y[]'], reset=True)
    for at in (0, 5, 8, 64):
        for fail in (False, True):
            yield dict(part='orphan', at=at, fail=fail, lead=13)
    while True:
        yield random_part(rng)


def random_part(rng):
    k = rng.choice(('seek', 'static', 'vector', 'names', 'size'))
    if k == 'seek':
        return dict(part=k, lead=rng.randrange(0, 64), ops=[[rng.randrange(0, 20), rng.randrange(-10, 80), rng.random() < .6, rng.random() < .5, rng.random() < .4]
                                                             for _ in range(rng.randrange(1, 5))])
    if k == 'static':
        def shape():
            out = []
            for _ in range(rng.randrange(1, 6)):
                c = rng.choice((1, 2, 3, 4, 5, 6))
                out.append([c, [rng.randrange(1, 40)] if c in (3, 6) else []] if rng.random() < .8 else [c, ([rng.randrange(1, 40)] if c in (3, 6) else []) + ['text']])
            return out
        return dict(part=k, items=shape(), sub=shape() if rng.random() < .5 else None, again=rng.random() < .5, same=rng.random() < .2)
    if k == 'vector':
        return dict(part=k, nb=rng.randrange(-1, 20), item=rng.choice((1, 2, 4, 5)), lead=rng.randrange(0, 40))
    if k == 'size':
        return dict(part=k, size=rng.choice((None, rng.randrange(-3, 50))), static=rng.choice((None, rng.randrange(1, 50))), lead=rng.randrange(0, 20))
    return dict(part='names', names=[rng.choice(KEYS[:5]) if rng.random() < .9 else 'n%d' % i for i in range(rng.randrange(1, 12))], reset=rng.random() < .5)


def run_part(case):
    from hachoir.field import (Parser, FieldSet, Bits, UInt8, UInt16, RawBytes, StaticFieldSet, GenericVector, ParserError, PaddingBits, PaddingBytes,
                               NullBits, NullBytes, createOrphanField, Field)
    from hachoir.stream import StringInputStream
    from hachoir.core.endian import BIG_ENDIAN
    data = bytes(i * 37 & 255 for i in range(400))
    k = case['part']

    def root(fields):
        class P(Parser):
            endian = BIG_ENDIAN

            def createFields(self):
                yield from fields(self)
        p = P(StringInputStream(data))
        return p
    if k == 'seek':
        msgs = []

        class S(FieldSet):
            def createFields(self):
                for n, ahead, rel, null, byte in case['ops']:
                    if n:
                        yield Bits(self, 'b[]', n)
                    cur = self.current_size
                    to = cur + ahead
                    arg = to if rel else to + self.absolute_address
                    if byte:
                        arg = arg // 8 if arg >= 0 else -(-arg // 8)
                        to = arg * 8 - (0 if rel else self.absolute_address)
                    if null and (to - cur) % 8 == 0 and (self.absolute_address + cur) % 8:
                        null = False        # null bytes are checked, they have to be readable
                    try:
                        f = (self.seekByte if byte else self.seekBit)(arg, 'pad[]', relative=rel, null=null)
                    except ParserError:
                        if to >= cur:
                            msgs.append('seek to %s from %s is refused' % (to, cur))
                        continue
                    if to < cur:
                        msgs.append('seek back to %s from %s is accepted' % (to, cur))
                    elif to == cur:
                        if f is not None:
                            msgs.append('seek to where it is gives a field')
                    elif f is None:
                        msgs.append('seek to %s from %s gives nothing' % (to, cur))
                    else:
                        kinds = (NullBits, NullBytes) if null else (PaddingBits, PaddingBytes)
                        if not isinstance(f, kinds):
                            msgs.append('seek gives a %s' % type(f).__name__)
                        yield f
                        if f.address != cur or f.size != to - cur or self.current_size != to:
                            msgs.append('the filler of a seek to %s from %s is at %s, of %s bits' % (to, cur, f.address, f.size))
                yield Bits(self, 'end', 1)

        def fields(s):
            if case['lead']:
                yield Bits(s, 'lead', case['lead'])
            yield S(s, 's')
        list(root(fields)['s'])
        return msgs[0] if msgs else None
    if k == 'size':
        lead = case['lead']

        class T(FieldSet):
            static_size = case['static']

            def createFields(self):
                yield Bits(self, 'a', 1)

        def fields(s):
            if lead:
                yield Bits(s, 'lead', lead)
            try:
                t = T(s, 't', size=case['size'])
            except ParserError:
                s.refused = True
                yield Bits(s, 'a', 1)
                return
            s.got = (t._size, t.address, t._current_size, len(t._fields))
            yield t
        p = root(fields)
        list(p)
        want = case['size'] if case['size'] is not None else case['static']
        if want is not None and want <= 0:
            return None if getattr(p, 'refused', False) else 'a set of %s bits is accepted' % want
        if getattr(p, 'refused', False):
            return 'a set of %s bits is refused' % want
        if p.got != (want, lead, 0, 0):
            return 'a new set of size %s after %s bits: size, address, current size, fields = %s' % (want, lead, p.got)
        return None

    class In(StaticFieldSet):
        format = ((UInt8, 'a'), (Bits, 'b', 3), (Bits, 'c', 2))

    class In2(In):
        format = ((UInt8, 'a'), (Bits, 'd', 11))
    if case.get('same'):
        In2.__name__ = 'In'
    C = {1: UInt8, 2: UInt16, 3: Bits, 4: In, 5: In2, 6: RawBytes}
    W = {1: 8, 2: 16, 4: 13, 5: 19}

    def width(c, a):
        return a[0] if c == 3 else a[0] * 8 if c == 6 else W[c]

    def fmt(items):
        out = []
        for i, (c, a) in enumerate(items):
            pos = [x for x in a if not isinstance(x, str)]
            t = (C[c], 'f%d' % i) + tuple(pos)
            if 'text' in a:
                t += ({'description': 'text'},)
            out.append(t)
        return tuple(out)
    if k == 'static':
        class S1(StaticFieldSet):
            format = fmt(case['items'])

        class S2(S1):
            format = fmt(case['sub'] or case['items'])
        if case.get('same'):
            S2.__name__ = 'S1'
        want1 = sum(width(c, a) for c, a in case['items'])
        want2 = sum(width(c, a) for c, a in case['sub'] or case['items'])

        def fields(s):
            yield S1(s, 's1')
            yield S2(s, 's2')
            if case['again']:
                yield S1(s, 's1b')
        p = root(fields)
        for f in p:
            if not f.is_field_set:
                continue
            want, items = (want2, case['sub'] or case['items']) if f.name == 's2' else (want1, case['items'])
            if f.size != want or f.static_size != want:
                return 'the size of the static set %s is %s, of %s bits declared, its fields have %s' % (f.name, f.size, f.static_size, want)
            got = [(x.name, type(x), x.size) for x in f]
            exp = [('f%d' % i, C[c], width(c, a)) for i, (c, a) in enumerate(items)]
            if got != exp:
                return 'the static set %s has the fields %s instead of %s' % (f.name, got, exp)
            for x, (c, a) in zip(f, items):
                if ('text' in a) != (x.description == 'text'):
                    return 'the description of %s is %r' % (x.path, x.description)
        return None
    if k == 'vector':
        item = C[case['item']]
        w = W[case['item']]
        if item is In:
            In.static_size = 13
            In._class = 'In'
        if item is In2:
            In2.static_size = 19
            In2._class = In2.__name__

        def fields(s):
            if case['lead']:
                yield Bits(s, 'lead', case['lead'])
            try:
                v = GenericVector(s, 'v', case['nb'], item, 'it')
            except ParserError:
                s.refused = True
                yield Bits(s, 'a', 1)
                return
            yield v
        p = root(fields)
        list(p)
        if case['nb'] <= 0:
            return None if getattr(p, 'refused', False) else 'a vector of %s items is accepted' % case['nb']
        if getattr(p, 'refused', False):
            return 'a vector of %s items is refused' % case['nb']
        v = p['v']
        got = [(f.name, f.address, f.size) for f in v]
        exp = [('it[%d]' % i, i * w, w) for i in range(case['nb'])]
        if got != exp or v.size != w * case['nb'] or len(v) != case['nb'] or v.address != case['lead']:
            return 'a vector of %s items of %s bits has size %s, length %s, items %s' % (case['nb'], w, v.size, len(v), got)
        return None
    if k == 'names':
        def fields(s):
            for n in case['names']:
                yield Bits(s, n, 3)
        p = root(fields)

        def look():
            cnt, exp = {}, []
            for n in case['names']:
                if n.endswith('[]'):
                    exp.append('%s[%d]' % (n[:-2], cnt.get(n, 0)))
                    cnt[n] = cnt.get(n, 0) + 1
                else:
                    exp.append(n)
            if len(set(exp)) < len(exp):
                return None
            got = [(f.name, f.address) for f in p][:len(exp)]
            want = [(n, 3 * i) for i, n in enumerate(exp)]
            return None if got == want else 'the fields %s are named %s' % (case['names'], got)
        m = look()
        if m or not case['reset']:
            return m
        size = p.size
        p.reset()
        if p._current_size or len(p._fields):
            return 'reset keeps fields'
        m = look()
        return m and 'after reset: ' + m or (None if p.size == size else 'reset changes the size')
    if k == 'orphan':
        def fields(s):
            yield Bits(s, 'a', case['lead'])
            yield Bits(s, 'b', 3)
        p = root(fields)
        p.readFirstFields(1)
        try:
            f = createOrphanField(p, case['at'], Bits, 'o', -1 if case['fail'] else 4)
            if f.address != case['at'] or f.size != 4:
                return 'the orphan field is at %s, of %s bits' % (f.address, f.size)
        except Exception:
            if not case['fail']:
                return 'orphan field refused'
        if p._current_size != case['lead'] or [x.address for x in p][:2] != [0, case['lead']]:
            return 'createOrphanField moves the next field of the set'
        return None
