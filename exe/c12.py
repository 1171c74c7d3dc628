from exe.common import *


def cases(rng, tier, hints):
    for n in range(0, 40):
        for K in range(0, n + 1):
            yield dict(k='lb', n=n, K=K)
            for w in (0, 1, 2, 5):
                if K + w <= n:
                    yield dict(k='bs', n=n, K1=K, K2=K + w, m=1)
                    yield dict(k='bs', n=n, K1=K, K2=K + w, m=1000)
    for v in range(-20, 200):
        for al in range(1, 40):
            yield dict(k='al', v=v, al=al)
    while True:
        n = rng.randrange(0, 3000)
        K = rng.randrange(0, n + 1)
        yield dict(k='lb', n=n, K=K)
        K2 = rng.randrange(K, n + 1)
        yield dict(k='bs', n=n, K1=K, K2=min(K2, K + rng.randrange(4)), m=rng.choice((1, 7)))
        yield dict(k='al', v=rng.randrange(-10**6, 1 << 70), al=rng.randrange(1, 1 << rng.randrange(1, 40)))


def run_case(c):
    from hachoir.core.tools import lowerBound, binarySearch, alignValue, paddingSize
    if c['k'] == 'lb':
        seq = list(range(c['n']))
        r = lowerBound(seq, lambda x: x < c['K'])
        return chk(r == c['K'] and type(r) is int, 'lowerBound over %d elements with boundary %d returned %r' % (c['n'], c['K'], r))
    if c['k'] == 'bs':
        K1, K2 = c['K1'], c['K2']
        seq = list(range(c['n']))
        r = binarySearch(seq, lambda i: c['m'] * ((K1 - i) if i < K1 else (K2 - 1 - i if i >= K2 else 0)))
        if K1 == K2:
            return chk(r is None, 'binarySearch found %r where nothing matches (n=%d, K=%d)' % (r, c['n'], K1))
        return chk(r is not None and K1 <= r < K2, 'binarySearch(n=%d) returned %r, matches are [%d,%d)' % (c['n'], r, K1, K2))
    v, al = c['v'], c['al']
    e = -(-v // al) * al
    if alignValue(v, al) != e:
        return 'alignValue(%d,%d)=%r expected %d' % (v, al, alignValue(v, al), e)
    if paddingSize(v, al) != e - v:
        return 'paddingSize(%d,%d)=%r expected %d' % (v, al, paddingSize(v, al), e - v)
