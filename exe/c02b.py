"""Executable contract of the ways streams are made: a file or a part of it, the stream of a
field, decompressed streams, views of a stream whose size is found later."""
import bz2
import io
import os
import random
import tempfile
import zlib
from exe.common import *


def part_cases():
    d = bytes(range(20, 60)).hex()
    for how in ('path', 'object', 'bytesio'):
        for o in (None, 0, 1, 7, 39):
            for s in (None, 0, 1, 5, 40):
                if (o or 0) + (s or 0) <= 40 and not (o and s == 0):
                    yield dict(k='open', d=d, how=how, o=o, s=s)
    for alg in ('bz2', 'deflate', 'wbits', 'gunzip', 'fake'):
        for n in (0, 1, 30, 500, 6000, 70000):
            for known in (0, 1):
                for reads in ([1 << 20], [1, 2, 3, 500, 10, 1 << 20], [0, 512, 512, 1 << 20], [n or 1, 1, 1]):
                    yield dict(k='decompressed', alg=alg, n=n, seed=n, known=known, reads=reads)
    for w in ('bz2', 'gz', 'zlib field', 'named'):
        for n in (10, 3000, 100000):
            yield dict(k='field stream', w=w, n=n, seed=n)
    for w in ('group', 'chain'):
        for z in ([3], [1, 2], [4, 1, 1, 7], [5, 5, 5]):
            yield dict(k='fragments', w=w, z=z, order=list(range(len(z)))[::-1])
            yield dict(k='fragments', w=w, z=z, order=list(range(len(z))))
    for z in ([3], [0, 3], [3, 0, 2], [3, 0], [0], [1, 0, 0, 4]):
        yield dict(k='links', z=z)
    for n in (1, 3, 30, 70000):
        for o in (0, 8, 13):
            for s in (None, 8, 5, 8 * n, 8 * n + 40):
                yield dict(k='told', n=n, o=o, s=s, m=3)


def random_part(rng):
    r = rng.random()
    if r < .3:
        n = rng.choice((1, 2, 9, 40))
        o = rng.choice((None, 0, rng.randrange(n)))
        s = rng.choice((None, 0, rng.randrange(1, n - (o or 0) + 1)))
        if o and not s:
            s = None
        return dict(k='open', d=bytes(rng.randrange(256) for _ in range(n)).hex(), how=rng.choice(('path', 'object', 'bytesio')), o=o, s=s)
    n = rng.choice((0, 1, 100, 511, 512, 513, 5000, rng.randrange(90000)))
    if r < .8:
        return dict(k='decompressed', alg=rng.choice(('bz2', 'deflate', 'wbits', 'gunzip', 'fake', 'fake')), n=n, seed=rng.randrange(10 ** 6), known=rng.randrange(2),
                    reads=[rng.choice((0, 1, 7, 100, 512, 513, rng.randrange(1, 3000))) for _ in range(rng.randrange(1, 9))] + [1 << 20])
    if r < .9:
        return dict(k='field stream', w=rng.choice(('bz2', 'gz', 'zlib field', 'named')), n=n or 1, seed=rng.randrange(10 ** 6))
    if r < .95:
        z = [rng.randrange(1, 9) for _ in range(rng.randrange(1, 7))]
        return dict(k='fragments', w=rng.choice(('group', 'chain')), z=z, order=rng.sample(range(len(z)), len(z)))
    return dict(k='told', n=n or 1, o=rng.randrange(40) % (8 * (n or 1)), s=rng.choice((None, rng.randrange(1, 8 * n + 9))), m=rng.randrange(1, 5))


def content(c):
    r = random.Random(c['seed'])
    words = [bytes(r.randrange(256) for _ in range(r.randrange(1, 30))) for _ in range(20)]
    out = b''
    while len(out) < c['n']:
        out += r.choice(words) * r.choice((1, 1, 2)) if c['seed'] % 2 else bytes(r.randrange(256) for _ in range(64))
    return out[:c['n']]


class Fake:
    """a decompressor which gives its output in its own order: each byte b of the data
    stands for b % 4 bytes; keeps what is not asked for"""

    def __init__(self, stream):
        self.out = b''

    def __call__(self, size, data=None):
        if data:
            self.out += b''.join(bytes([b]) * (b % 4) for b in data)
        r, self.out = self.out[:size], self.out[size:]
        return r


class Pipe:
    def __init__(self, b):
        self.b = io.BytesIO(b)

    def read(self, n):
        return self.b.read(n)


def run_part(c):
    return {'open': run_open, 'decompressed': run_dec, 'field stream': run_field, 'told': run_told, 'fragments': run_fragments, 'links': run_links}[c['k']](c)


def run_open(c):
    from hachoir.stream import FileInputStream, StreamError
    d = s2b(c['d'])
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, 'x')
        with open(p, 'wb') as f:
            f.write(d)
        args = {}
        if c['o'] is not None:
            args['offset'] = c['o']
        if c['s'] is not None:
            args['size'] = c['s']
        f = p if c['how'] == 'path' else open(p, 'rb') if c['how'] == 'object' else io.BytesIO(d)
        st = FileInputStream(f, tags=[('class', int)], **args)
        try:
            o = c['o'] or 0
            e = d[o:o + c['s']] if c['s'] else d[o:]
            if ('class', int) not in list(st.tags):
                return 'FileInputStream forgets the tags it is given'
            if c['how'] != 'bytesio' and st.source != 'file:' + p and not (o or c['s']):
                return 'the source of the stream of %r is %r' % (p, st.source)
            if st.size is not None and st.size != 8 * len(e):
                return 'offset %r, size %r of %d bytes: a stream of %r bits' % (c['o'], c['s'], len(d), st.size)
            if st.readBytes(0, len(e)) != e:
                return 'offset %r, size %r of %r: reads %r' % (c['o'], c['s'], d, st.readBytes(0, len(e)))
            try:
                more = st.readBytes(0, len(e) + 1)
            except StreamError:
                more = e
            if more != e:
                return 'offset %r, size %r of %r: reads %r' % (c['o'], c['s'], d, more)
        finally:
            st.close()
            if c['how'] != 'bytesio':
                getattr(f, 'close', bool)()
    try:
        FileInputStream(p)
        return 'a file which does not exist is opened'
    except StreamError:
        pass


def compress(alg, data):
    if alg == 'bz2':
        return bz2.compress(data)
    if alg == 'wbits':
        o = zlib.compressobj(6, zlib.DEFLATED, -zlib.MAX_WBITS)
        return o.compress(data) + o.flush()
    return zlib.compress(data)


def decompressor(alg):
    if alg == 'bz2':
        from hachoir.parser.archive.bzip2_parser import Bunzip2 as D
    elif alg == 'deflate':
        from hachoir.parser.common.deflate import DeflateStream as D
    elif alg == 'wbits':
        from hachoir.parser.common.deflate import DeflateStreamWbits as D
    elif alg == 'gunzip':
        from hachoir.parser.image.png import Gunzip as D
    else:
        D = Fake
    return D


def run_dec(c):
    from hachoir.field.sub_file import CompressedStream
    from hachoir.stream import StringInputStream, InputIOStream
    data = content(c)
    if c['alg'] == 'fake':
        raw, e = data, b''.join(bytes([b]) * (b % 4) for b in data)
    else:
        raw, e = compress(c['alg'], data), data
    if not raw:
        return
    st = StringInputStream(raw) if c['known'] else InputIOStream(Pipe(raw), source='pipe')
    s = CompressedStream(st, decompressor(c['alg']))
    at = 0
    for n in c['reads']:
        r = s.read(n)
        if r != e[at:at + n]:
            return '%s: read(%d) of the decompressed stream at %d gives %d bytes %r instead of %d bytes %r' % (c['alg'], n, at, len(r), r[:20], len(e[at:at + n]), e[at:at + n][:20])
        at += len(r)


def run_field(c):
    import gzip
    from hachoir.field import Bytes, CompressedField, SubFile
    from hachoir.parser import Parser
    from hachoir.parser.archive.bzip2_parser import Bzip2Parser
    from hachoir.parser.archive.gzip_parser import GzipParser
    from hachoir.parser.common.deflate import Deflate
    from hachoir.core.endian import BIG_ENDIAN
    from hachoir.stream import StringInputStream
    data = content(c)
    if c['w'] in ('bz2', 'gz'):
        raw = bz2.compress(data) if c['w'] == 'bz2' else gzip.compress(data)
        p = (Bzip2Parser if c['w'] == 'bz2' else GzipParser)(StringInputStream(raw))
        f = p['file']
    else:
        raw = zlib.compress(data)
        k = len(raw)

        class P(Parser):
            endian = BIG_ENDIAN
            PARSER_TAGS = {'id': 'p'}

            def createFields(self):
                yield Bytes(self, 'before', 3)
                if c['w'] == 'named':
                    yield SubFile(self, 'f', k, filename='n\u00e4me', parser=P, mime_type='a/b')
                else:
                    yield Deflate(Bytes(self, 'f', k), False)
                yield Bytes(self, 'after', 2)
        p = P(StringInputStream(b'xyz' + raw + b'zz'))
        f = p['f']
    st = f.getSubIStream()
    if f.getSubIStream() is not st:
        return 'the stream of the field is made again while it is used'
    e = data
    if c['w'] == 'named':
        e = raw
        want = {('id', 'p'), ('mime', 'a/b'), ('filename', 'n\u00e4me')}
        if set(st.tags) != want:
            return 'the tags of the stream are %r' % (list(st.tags),)
    got = b''
    a = 0
    fo = st.file()
    for n in (0, 1, 5, 1000, -1):
        r = fo.read(n)
        got += r
    if got != e:
        return '%s: the stream of the field gives %d bytes %r instead of %d bytes %r' % (c['w'], len(got), got[:20], len(e), e[:20])
    if st.size != 8 * len(e):
        return '%s: the stream of the field has %r bits instead of %d' % (c['w'], st.size, 8 * len(e))


def run_told(c):
    """views of a stream whose size is not known yet: the size they tell once it is"""
    from hachoir.stream import InputIOStream, InputSubStream
    data = bytes(c['n'])
    st = InputIOStream(Pipe(data), source='pipe')
    L = 8 * c['n']
    views = []
    for i in range(c['m']):
        o = min(c['o'] + 8 * i, L - 1)
        views.append((o, InputSubStream(st, o, c['s'])))
    views[0] = None
    st.read(0, L + 8) if False else st.sizeGe(L + 1)
    if st.size != L:
        return 'the size of the stream is %r instead of %d' % (st.size, L)
    for v in views[1:]:
        e = L - v[0] if c['s'] is None else min(c['s'], L - v[0])
        if v[1].size != e:
            return 'the view at %d of %r bits of a stream of %d bits tells the size %r instead of %d' % (v[0], c['s'], L, v[1].size, e)


def run_fragments(c):
    """pieces of a file: the order of a group is the one of its fields, of a chain the one of its links"""
    from hachoir.field import Bytes, Fragment, CustomFragment
    from hachoir.field.fragment import FragmentGroup
    from hachoir.parser import Parser
    from hachoir.core.endian import BIG_ENDIAN
    from hachoir.stream import StringInputStream
    z, order = c['z'], c['order']
    data = bytes(i * 7 & 255 for i in range(sum(z)))
    start = [sum(z[:i]) for i in range(len(z))]
    group = FragmentGroup(None)

    class Piece(Fragment):
        def __init__(self, parent, name, i):
            Fragment.__init__(self, parent, name, size=8 * z[i])
            self.i = i
            k = order.index(i)
            top = parent
            self.setLinks(None if k == 0 else top['p%d' % order[0]] if order[0] < i else top, None if k + 1 == len(order) else lambda: top['p%d' % order[k + 1]])
            if k:
                self._first = None
                self._feedLinks = lambda: self

    class P(Parser):
        endian = BIG_ENDIAN
        PARSER_TAGS = {'id': 'p'}

        def createFields(self):
            for i, n in enumerate(z):
                if c['w'] == 'group':
                    yield CustomFragment(self, 'p%d' % i, 8 * n, None, group=group)
                else:
                    yield Piece(self, 'p%d' % i, i)
    p = P(StringInputStream(data))
    list(p)
    if c['w'] == 'group':
        e, f = data, p['p%d' % order[0]]
    else:
        e, f = b''.join(data[start[i]:start[i] + z[i]] for i in order), p['p%d' % order[0]]
    got = f.getSubIStream().file().read()
    if got != e:
        return '%s: the stream of the pieces %r is %r instead of %r' % (c['w'], z, got, e)


def run_links(c):
    """the sizes of the pieces of a chain, in which some have no data"""
    from hachoir.field.link import Fragments

    class Piece:
        def __init__(self, size, next):
            self.size, self.next = size, next

        def getData(self):
            return self if self.size else None
    p = None
    for n in c['z'][::-1]:
        p = Piece(n, p)
    got = list(Fragments(p))
    if got != [n or None for n in c['z']]:
        return 'pieces of %r: the sizes are %r' % (c['z'], got)
