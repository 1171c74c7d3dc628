from exe.common import *

OPS = ('append', 'insert', 'replace', 'set', 'del')


def cases(rng, tier, hints):
    def op(n):
        k = rng.choice(OPS + ('append', 'insert'))
        key = rng.randrange(n)
        if k == 'insert':
            return [k, rng.randrange(-n, n + 1), key, rng.randrange(1000)]
        if k == 'replace':
            return [k, key, rng.randrange(n), rng.randrange(1000)]
        if k == 'del':
            return [k, rng.randrange(-n, n)]
        return [k, key, rng.randrange(1000)]
    # every single operation on every dictionary of up to five pairs
    for n in range(6):
        init = [['append', k, 100 + k] for k in range(n)]
        for i in range(-n - 2, n + 3):
            yield dict(ops=init + [['insert', i, 50, 1], ['append', 51, 2]])
            yield dict(ops=init + [['insert', i, 0, 1], ['append', 51, 2]])
            yield dict(ops=init + [['del', i], ['append', 52, 3]])
            for j in range(-n - 1, n + 2):
                yield dict(ops=init + [['insert', i, 50, 1], ['del', j], ['insert', j, 60, 2]])
                yield dict(ops=init + [['del', i], ['del', j], ['insert', i, 60, 2]])
        for a in range(n + 1):
            for b in range(n + 2):
                yield dict(ops=init + [['replace', a, b, 7], ['set', b, 8], ['append', a, 9], ['del', 0]])
        yield dict(ops=init, ctor=1)
    while True:
        n = rng.choice((3, 6, 10, 30))
        yield dict(ops=[op(n) for _ in range(rng.choice((3, 10, 30, 80)))], ctor=rng.randrange(2))


def run_case(c):
    from hachoir.core.dict import Dict, UniqKeyError
    ref = []
    ops = c['ops']
    d = Dict()
    if c.get('ctor'):
        seen = set()
        k = 0
        while k < len(ops) and ops[k][0] == 'append' and ops[k][1] not in seen:
            seen.add(ops[k][1])
            k += 1
        ref = [(str(o[1]), o[2]) for o in ops[:k]]
        d = Dict(ref)
        ref = list(ref)
        ops = ops[k:]
    for o in [None] + ops:
        if o is not None:
            k = o[0]
            keys = [x for x, _ in ref]
            new, exc = list(ref), None
            if k == 'append':
                key = str(o[1])
                if key in keys:
                    exc = UniqKeyError
                else:
                    new.append((key, o[2]))
                f = lambda: d.append(key, o[2])
            elif k == 'insert':
                key = str(o[2])
                if key in keys:
                    exc = (UniqKeyError, IndexError) if not -len(ref) <= o[1] <= len(ref) else UniqKeyError
                elif not -len(ref) <= o[1] <= len(ref):
                    exc = IndexError
                else:
                    new.insert(o[1], (key, o[3]))
                f = lambda: d.insert(o[1], key, o[3])
            elif k == 'replace':
                a, b = str(o[1]), str(o[2])
                if a not in keys:
                    exc = (KeyError, UniqKeyError) if b in keys else KeyError
                elif a != b and b in keys:
                    exc = UniqKeyError
                else:
                    new[keys.index(a)] = (b, o[3])
                f = lambda: d.replace(a, b, o[3])
            elif k == 'set':
                key = str(o[1])
                if key not in keys:
                    exc = KeyError
                else:
                    new[keys.index(key)] = (key, o[2])

                def f():
                    d[key] = o[2]
            else:
                if not -len(ref) <= o[1] < len(ref):
                    exc = IndexError
                else:
                    del new[o[1]]

                def f():
                    del d[o[1]]
            try:
                f()
                if exc:
                    return '%r accepted on %r' % (o, ref)
                ref = new
            except (UniqKeyError, KeyError, IndexError) as e:
                if not exc or not isinstance(e, exc):
                    return '%r raises %r on %r' % (o, e, ref)
        m = compare(d, ref)
        if m:
            return 'after %r: %s, the list is %r' % (o, m, ref)


def compare(d, ref):
    keys, values = [k for k, _ in ref], [v for _, v in ref]
    if len(d) != len(ref):
        return 'len %d' % len(d)
    if list(d.items()) != ref:
        return 'items %r' % list(d.items())
    if list(d) != values or list(d.values) != values or list(d.itervalues()) != values:
        return 'values %r' % list(d)
    if list(d.iterkeys()) != keys:
        return 'keys %r' % list(d.iterkeys())
    for n, (k, v) in enumerate(ref):
        if k not in d or d[k] != v or d.index(k) != n:
            return 'key %r: index %r' % (k, d.index(k))
    for k in range(70):
        k = str(k)
        if k not in keys:
            if k in d or d.index(k) is not None:
                return 'absent key %r: index %r' % (k, d.index(k))
            try:
                d[k]
                return 'absent key %r found' % k
            except KeyError:
                pass
