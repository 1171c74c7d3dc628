"""Executable contract of byte reads, on every kind of stream."""
import io
from exe.common import *
from exe.c02b import part_cases, random_part, run_part

CASE_TIMEOUT = 20


class Pipe:
    def __init__(self, b):
        self.b = io.BytesIO(b)

    def read(self, n):
        return self.b.read(n)

    def close(self):
        pass


def bits(b):
    return ''.join(format(x, '08b') for x in b)


class D:
    def __init__(self, a, s):
        self.absolute_address, self.size = a, s


class F:
    path = '/f'

    def __init__(self, stream, a, s, nxt, last=False):
        self.stream, self.parent, self.next, self.last = stream, self, nxt, last
        self.data = None if last else D(a, s)

    def getData(self):
        return self.data


def build(n):
    """(stream, bits of the content, shift of its first bit)"""
    from hachoir.stream import input as inp
    t = n['t']
    if t == 'string':
        d = s2b(n['d'])
        return inp.StringInputStream(d), bits(d), 0
    if t == 'io':
        d = s2b(n['d'])
        return inp.InputIOStream(io.BytesIO(d), source='io'), bits(d), 0
    if t == 'pipe':
        d = s2b(n['d']) * n.get('rep', 1)
        return inp.InputIOStream(Pipe(d), source='pipe'), bits(d), 0
    if t == 'sub':
        st, b, sh = build(n['p'])
        o = n['o']
        r = inp.InputSubStream(st, o, n['s'], source='sub')
        return r, (b[o:] if n['s'] is None else b[o:o + n['s']]), (sh + o) % 8
    if t == 'field':
        st, b, sh = build(n['p'])

        class P:
            parent = None
            stream = st
        f = P()
        f.parent, f.absolute_address, f.size, f.path = P(), n['o'], n['s'], '/x'
        return inp.InputFieldStream(f), b[n['o']:n['o'] + n['s']], (sh + n['o']) % 8
    if t == 'cat':
        a, x, sh = build(n['a'])
        b, y, _ = build(n['b'])
        return inp.ConcatStream((a, b), source='cat'), x + y, 0
    if t == 'frag':
        st, b, sh = build(n['p'])
        fr = n['f']
        nxt = F(st, 0, 0, None, True) if n.get('end') else None
        for a, s in reversed(fr):
            nxt = F(st, a, s, nxt)
        out = ''
        for a, s in fr:
            out += b[a:a + s]
            if a + s > len(b):
                break
        if n['s'] is not None:
            out = out[:n['s']]
            return inp.FragmentedStream(nxt, size=n['s']), out, 0
        return inp.FragmentedStream(nxt), out, 0
    raise ValueError(t)


def lenof(n):
    """bits in the content, without building"""
    t = n['t']
    if t in ('string', 'io', 'pipe'):
        return 4 * len(n['d']) * n.get('rep', 1)
    if t in ('sub', 'field'):
        m = max(0, lenof(n['p']) - n['o'])
        return m if n['s'] is None else min(m, n['s'])
    if t == 'cat':
        return lenof(n['a']) + lenof(n['b'])
    b = lenof(n['p'])
    tot = 0
    for a, s in n['f']:
        tot += max(0, min(s, b - a))
        if a + s > b:
            break
    return tot if n['s'] is None else min(tot, n['s'])


def leaf(rng, big=False):
    d = bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 3, 5, 8, 16, 40, 64))))
    t = rng.choice(('string', 'string', 'io', 'pipe'))
    n = dict(t=t, d=d.hex())
    if t == 'pipe' and big:
        n['rep'] = rng.choice((200, 3000, 4096, 5000))
    return n


def node(rng, depth=2, aligned=False, checked=False, pipes=True):
    k = rng.choice(('leaf', 'sub', 'field', 'cat', 'frag', 'frag')) if depth else 'leaf'
    if k == 'leaf' or k == 'field' and checked:
        n = leaf(rng)
        if n['t'] == 'pipe' and (checked or not pipes):
            n['t'] = 'io'
        return n
    if k in ('sub', 'field'):
        p = node(rng, depth - 1, aligned, checked)
        L = lenof(p)
        if L < 16:
            return p
        o = rng.choice((0, 8, 16, rng.randrange(L))) % L
        if aligned:
            o -= o % 8
        s = rng.choice((8, L - o, rng.randrange(1, L - o + 1), L - o + 8 if not checked else L - o))
        if aligned:
            s = max(8, s // 8 * 8)
        if k == 'sub' and rng.random() < .3 and not checked:
            s = None
        elif checked:
            s = min(s, L - o)
        if k == 'field':
            s = min(s, L - o)
        return dict(t=k, p=p, o=o, s=s)
    if k == 'cat':
        a = leaf(rng)
        a['t'] = rng.choice(('string', 'io'))
        b = leaf(rng)
        if checked and b['t'] == 'pipe':
            b['t'] = 'io'
        return dict(t='cat', a=a, b=b)
    p = leaf(rng)
    if p['t'] == 'pipe' and (checked or rng.random() < .5):
        p['t'] = 'string'
    L = lenof(p)
    if rng.random() < .3 and L > 16 and not checked:
        p = dict(t='sub', p=p, o=8, s=L - 8 if rng.random() < .5 else None)
        L -= 8
    fr = []
    for _ in range(rng.choice((1, 2, 3, 5, 9))):
        a = rng.randrange(L // 8)
        s = rng.choice((1, 1, 2, 3, 5, rng.randrange(1, L // 8 - a + 1)))
        if fr and rng.random() < .15:
            s = 0
        if rng.random() > .1:
            s = min(s, L // 8 - a)
        fr.append([8 * a, 8 * s])
    if fr[0][1] == 0:
        fr[0][1] = 8
    if len(fr) == 1 or checked:
        fr = [[a, min(s, L - a)] for a, s in fr]
    n = dict(t='frag', p=p, f=fr, s=None, end=rng.randrange(2))
    if n['end'] and len(fr) == 1 and checked:
        n['end'] = 0
    T = lenof(n)
    if T > 8 and rng.random() < .4:
        n['s'] = rng.choice((T, T - 8, rng.randrange(1, T)))
        if aligned:
            n['s'] = max(8, n['s'] // 8 * 8)
    return n


def ops(rng, L, k):
    out = []
    for _ in range(k):
        r = rng.random()
        a = rng.choice((0, 8, rng.randrange(L + 1), rng.randrange(L + 1), max(0, L - rng.randrange(20)), L + rng.randrange(12)))
        if r < .55:
            s = rng.choice((1, 2, 7, 8, 9, 16, 17, 33, max(1, L - a), max(1, L - a + 1), max(1, L - a - 1), rng.randrange(1, L + 2),
                            max(1, L - a) + rng.randrange(70)))
            if rng.random() < .1:
                s = 0
            out.append(['read', a, s])
        elif r < .75:
            out.append(['bytes', 8 * (a // 8) if rng.random() < .9 else a, rng.choice((0, 1, 2, 5, max(0, (L - a)) // 8, max(0, L - a) // 8 + 1, rng.randrange(L // 8 + 2)))])
        elif r < .9:
            out.append(['ge', rng.choice((1, 8, L - 1, L, L + 1, L + 8, rng.randrange(1, L + 9)))])
        else:
            out.append(['size'])
    return [o for o in out if o[0] != 'ge' or o[1] > 0]


def fops(rng, n, k):
    out = []
    for _ in range(k):
        r = rng.random()
        if r < .4:
            out.append(['seek', rng.choice((0, 1, n, n - 1, n + 3, rng.randrange(n + 1))), 0])
        elif r < .5:
            out.append(['seek', rng.choice((0, 1, -1, -3, -n, 2, -n - 5)), 1])
        elif r < .65:
            out.append(['seek', rng.choice((0, -1, -3, -n, -n - 2, -(n // 2), 4)), 2])
        elif r < .7:
            out.append(['seek', -1, 0])
        elif r < .8:
            out.append(['tell'])
        else:
            pass
        out.append(['fread', rng.choice((None, -1, 0, 1, 2, 3, 7, n, n + 1, n // 2, 70000))])
        if rng.random() < .2:
            out.append(['tell'])
    return out


def cases(rng, tier, hints):
    yield from part_cases()
    d = bytes(range(1, 14)).hex()
    base = [dict(t=t, d=d) for t in ('string', 'io', 'pipe')]
    base += [dict(t='sub', p=dict(t=t, d=d), o=o, s=s) for t in ('string', 'pipe') for o in (0, 3, 16) for s in (8, 21, 64, None, 200)]
    base += [dict(t='field', p=dict(t='string', d=d), o=o, s=s) for o in (0, 3, 16) for s in (8, 21, 64)]
    base += [dict(t='cat', a=dict(t='string', d=d), b=dict(t=t, d='a1b2c3d4')) for t in ('string', 'pipe')]
    base += [dict(t='frag', p=dict(t=t, d=d), f=f, s=s, end=e) for t in ('string', 'pipe') for e in (0, 1) for s in (None, 20)
             for f in ([[16, 32]], [[40, 16], [0, 8]], [[8, 8], [8, 8], [64, 24], [0, 16]], [[8, 8], [0, 0], [16, 16]], [[0, 16], [80, 48], [8, 8]])]
    for n in base:
        L = lenof(n)
        for a in range(0, L + 10, 1 if L < 50 else 5):
            yield dict(k=n['t'], n=n, ops=[['read', a, s] for s in (0, 1, 3, 8, 9, 17, 40)])
            yield dict(k=n['t'], n=n, ops=[['read', a, max(1, L - a)], ['read', a, max(1, L - a) + 1], ['size']])
            yield dict(k=n['t'], n=n, ops=[['read', a, max(1, L - a) + 8]])
        for s in range(1, L + 10):
            yield dict(k=n['t'], n=n, ops=[['ge', s], ['size']])
        for a in range(0, L + 16, 8):
            yield dict(k=n['t'], n=n, ops=[['bytes', a, s] for s in (0, 1, 2, 5, 13)])
    for t in ('string', 'io', 'pipe'):
        for rep in ((1, 6000) if t == 'pipe' else (1,)):
            n = dict(t=t, d=d, rep=rep)
            N = 13 * rep
            for p in ([0, 0], [N - 2, 0], [N + 5, 0], [-1, 2], [-N, 2], [-N - 1, 2], [0, 2], [-5, 2], [3, 2], [-N + 1, 2]):
                for r in (None, -1, 0, 1, 4, N, N + 1):
                    yield dict(k='file', n=n, fops=[['seek'] + p, ['fread', r], ['tell'], ['fread', 2], ['tell']])
                    yield dict(k='file', n=n, fops=[['fread', 1], ['seek'] + p, ['tell'], ['fread', r], ['seek', -2, 1], ['fread', 1], ['tell']])
                    yield dict(k='file', n=n, fops=[['seek'] + p, ['fread', r], ['fread', r], ['fread', None]])
    while True:
        if rng.random() < .12:
            yield random_part(rng)
        elif rng.random() < .3:
            n = node(rng, rng.choice((0, 1, 2)), aligned=True) if rng.random() < .7 else leaf(rng, True)
            L = lenof(n)
            if L % 8 or not L or overdeclared(n):
                continue
            yield dict(k='file', n=n, fops=fops(rng, L // 8, rng.randrange(1, 7)))
        else:
            n = node(rng, rng.choice((0, 1, 1, 2, 2)))
            L = lenof(n)
            if L:
                yield dict(k=n['t'], n=n, ops=ops(rng, L, rng.randrange(1, 7)))


def run_case(c):
    if c['k'] in ('open', 'decompressed', 'field stream', 'told', 'fragments', 'links'):
        return run_part(c)
    from hachoir.stream import StreamError
    st, B, sh = build(c['n'])
    L = len(B)
    if 'fops' in c:
        return run_file(st, c['fops'], bytes(int(B[i:i + 8], 2) for i in range(0, L, 8)))
    known = None
    for op in c['ops']:
        k = op[0]
        if k == 'read':
            a, s = op[1:]
            try:
                r = st.read(a, s)
            except StreamError as e:
                r = e
            inside = a + s <= L
            if isinstance(r, Exception) or r[2]:
                if inside:
                    return 'read(%d, %d) fails inside the %d bits of the stream: %r' % (a, s, L, r)
                continue
            if not inside and s:
                return 'read(%d, %d) gives %r past the %d bits of the stream' % (a, s, r, L)
            if not s:
                if len(r[1]) > 1:
                    return 'read(%d, 0) gives %r' % (a, r)
                continue
            shift, data, m = r
            if shift != (sh + a) % 8 or len(data) != (shift + s + 7) // 8:
                return 'read(%d, %d) gives %r: wrong window' % (a, s, r)
            if bits(data)[shift:shift + s] != B[a:a + s]:
                return 'read(%d, %d) gives %r, expected bits %s' % (a, s, r, B[a:a + s])
        elif k == 'bytes':
            a, n = op[1:]
            try:
                r = st.readBytes(a, n)
            except StreamError as e:
                r = e
            ok = a + 8 * n <= L and (sh + a) % 8 == 0
            if isinstance(r, Exception):
                if ok:
                    return 'readBytes(%d, %d) fails: %r' % (a, n, r)
            elif n and not ok:
                return 'readBytes(%d, %d) gives %r past the end or unaligned' % (a, n, r)
            elif bits(r) != B[a:a + 8 * n]:
                return 'readBytes(%d, %d) gives %r' % (a, n, r)
        elif k == 'ge':
            want = op[1] <= L
            if overdeclared(c['n']):
                continue
            r = st.sizeGe(op[1])
            if bool(r) != want:
                return 'sizeGe(%d) is %r for a stream of %d bits' % (op[1], r, L)
        elif k == 'size':
            if overdeclared(c['n']):
                continue
            if st.size is not None and st.size != L and not (c['n']['t'] == 'frag' and c['n']['s'] is not None and st.size > L):
                return 'size is %r for a stream of %d bits' % (st.size, L)
            if known is not None and st.size != known:
                return 'size changes from %r to %r' % (known, st.size)
            if st.size == L:
                known = L


def overdeclared(n):
    """a sub-stream declared longer than what its parent holds"""
    if n['t'] in ('sub', 'field'):
        return (n['s'] is not None and lenof(n) != n['s']) or overdeclared(n['p'])
    if n['t'] == 'frag':
        return overdeclared(n['p'])
    if n['t'] == 'cat':
        return overdeclared(n['a']) or overdeclared(n['b'])
    return False


def run_file(st, fops, data):
    f = st.file()
    ref = io.BytesIO(data)
    for op in fops:
        if op[0] == 'seek':
            neg = op[2] == 0 and op[1] < 0
            try:
                f.seek(op[1], op[2])
                if neg:
                    return 'seek(%d) is accepted' % op[1]
            except ValueError as e:
                if not neg:
                    return 'seek(%r) refused: %r' % (op[1:], e)
                continue
            if op[2] == 1:
                ref.seek(max(0, ref.tell() + op[1]))
            elif op[2] == 2:
                ref.seek(max(0, len(data) + op[1]))
            else:
                ref.seek(op[1])
        elif op[0] == 'tell':
            if f.tell() != ref.tell():
                return 'tell() is %r, expected %r' % (f.tell(), ref.tell())
        else:
            r = f.read() if op[1] is None else f.read(op[1])
            e = ref.read() if op[1] is None else ref.read(op[1])
            if r != e:
                return 'read(%r) on the file view gives %d bytes %r, expected %d bytes %r' % (op[1], len(r), r[:20], len(e), e[:20])
