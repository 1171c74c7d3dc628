"""C02, the ways streams are made: opening a file (or a part of it), the stream of a field,
decompressed streams; and how the size found at the end of the data is told to the views.
"""
import z3
from pyvc.core import RT, Sym, SInt, SBytes, LoopSpec, mkint, mkbool, zint, iv, Unsupported, zmax, Opaque
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.lib import CC, Content, obj, JoinList, same_bytes
from contracts.c16 import patched

ST = 'hachoir.stream.input:'
IH = 'hachoir.stream.input_helper:'
FF = 'hachoir.field.field:Field.'
SU = 'hachoir.field.sub_file:'
OUT = Content('OUT')     # the decompressed content


# ------------------------------------------------------------- opening a file
class File:
    name = 'file name'


def b_open():
    import hachoir.stream.input_helper as H
    from hachoir.stream import InputStreamError
    g = RT.ghost
    how = RT.choice(['path', 'file', 'anonymous file'], 'filename')
    f = 'a path' if how == 'path' else File() if how == 'file' else object()
    real = RT.choice([None, 'real name'], 'real_filename')
    args = {}
    for nm in ('offset', 'size'):
        k = RT.choice(['absent', 'given'] if nm == 'offset' else ['absent', 'none', 'given'], nm)
        if k != 'absent':
            args[nm] = None if k == 'none' else RT.input_int(nm, 0)
    tags = RT.choice([None, ('x', 'y')], 'tags')
    if tags:
        args['tags'] = [tags]
    fails = how == 'path' and RT.choice([False, True], 'the file cannot be opened')
    opened, ios, subs = [], [], []

    def m_open(name, mode='r'):
        opened.append((name, mode))
        if fails:
            raise IOError('no such file')
        return g.setdefault('opened', object())

    def m_io(inp, **kw):
        ios.append((inp, kw))
        return ('io', len(ios))

    def m_sub(stream, offset, size=None, **kw):
        subs.append((stream, offset, size, kw))
        return ('sub', len(subs))
    with patched(H, InputIOStream=m_io, InputSubStream=m_sub):
        H.open = m_open
        try:
            kind, r = expect(IH + 'FileInputStream', H.FileInputStream, f, real, **args)
        finally:
            del H.open
    RT.cover(kind)
    RT.prove(opened == ([((real or f), 'rb')] if how == 'path' else []), 'the file asked for is opened, for reading')
    if kind == 'exc':
        RT.prove(fails and type(r) is InputStreamError, 'a stream error, when the file cannot be opened')
        return
    RT.prove(not fails, 'the failure is told')
    name = f if how == 'path' else 'file name' if how == 'file' else ''
    RT.prove(len(ios) == 1 and ios[0][0] is (g['opened'] if how == 'path' else f), 'the stream of this file')
    kw = ios[0][1]
    RT.prove(kw.get('source') == 'file:' + name, 'the source of the stream')
    RT.prove(tags is None or tags in kw.get('tags', ()), 'the tags are kept')
    off = args.get('offset', mkint(iv(0)))
    size = args.get('size')
    whole = z3.And(zint(off) == 0, z3.BoolVal(True) if size is None else zint(size) == 0)
    if not subs:
        RT.prove(whole, 'a part of the file is not the file')
        RT.prove(r == ('io', 1), 'the stream of the file')
        RT.prove(('filename', name) in kw.get('tags', ()), 'the name of the file is a tag')
        return
    RT.prove(r == ('sub', 1) and len(subs) == 1 and subs[0][0] == ('io', 1), 'a part of the stream of the file')
    RT.prove(zint(subs[0][1]) == 8 * zint(off), 'the part begins at the offset asked for, in bytes')
    if subs[0][2] is None:
        RT.prove(z3.BoolVal(True) if size is None else zint(size) == 0, 'the part has the size asked for')
    else:
        RT.prove(size is not None, 'up to the end when no size is asked for')
        RT.prove(zint(subs[0][2]) == 8 * zint(size), 'the part has the size asked for, in bytes')
    RT.prove(tags is None or tags in subs[0][3].get('tags', ()), 'the tags are kept')


# ------------------------------------------------------ the size, once it is known
class Clients(Sym):
    """weak references of the views which asked for the size; some are dead"""
    _pyvc_name = 'clients'

    def __init__(self, n):
        self.n, self.added = n, []

    def snap_state(self):
        return (str(self.n), len(self.added))

    def snap_children(self):
        return []

    def len_(self):
        return mkint(self.n + len(self.added))

    def __bool__(self):
        return RT.branch(self.n + len(self.added) > 0)

    def append(self, x):
        self.added.append(x)

    def sym_item(self, i):
        alive = RT.choice([True, False], 'the view is still used')
        t = RT.ghost['told']
        if not alive:
            t.k = mkint(zint(t.k) + 1)      # nothing to tell
        c = Client(zint(i)) if alive else None
        return lambda: c


class Client(Sym):
    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return True

    def _setSize(self, size):
        t = RT.ghost['told']
        RT.prove(zint(t.k) == self.i, '_setSize: every view is told, once')
        RT.prove(zint(size) == RT.ghost['cur'], '_setSize: the size which was found')
        t.k = mkint(zint(t.k) + 1)


class Told:
    _pyvc_track = True
    _pyvc_name = 'told'

    def __init__(self):
        self.k = mkint(iv(0))


def b_setsize():
    from hachoir.stream.input import InputStream, NullStreamError
    g = RT.ghost
    cur = RT.input_int('current_size', 0).e
    known = RT.choice([False, True], 'size announced')
    size = RT.input_int('size', 0) if known else None
    if known:
        RT.assume(size.e >= cur)
    asked = RT.choice([False, True], 'views')
    n = RT.input_int('n_views', 1).e if asked else iv(0)
    g['told'], g['cur'] = Told(), cur
    RT.roots.append(g['told'])
    s = obj(InputStream, _size=size, _current_size=mkint(cur), source='x')
    if asked:
        s._set_size = Clients(n)
    kind, r = expect(ST + 'InputStream._setSize', InputStream._setSize, s, None)
    RT.cover(kind)
    RT.prove(zint(s._size) == cur, '_setSize: the size is the one of the data')
    if kind == 'exc':
        RT.prove(type(r) is NullStreamError, '_setSize: an error only for an empty stream')
        RT.prove(cur == 0, '_setSize: an error only for an empty stream')
        return
    changed = RT.branch(size.e != cur) if known else True
    if changed:
        RT.prove(cur > 0, '_setSize: an empty stream is an error')
        RT.prove(zint(g['told'].k) == n, '_setSize: every view is told')
        RT.prove('_set_size' not in s.__dict__, '_setSize: the views are told only once')
    else:
        RT.prove(zint(g['told'].k) == 0, '_setSize: nothing to tell')


def setsize_inv(L):
    return [('told so far', zint(RT.ghost['told'].k) == zint(L._idx))]


def b_asksize():
    from hachoir.stream.input import InputStream
    g = RT.ghost
    cur = RT.input_int('current_size', 0).e
    known = RT.choice([False, True], 'size announced')
    size = RT.input_int('size', 0) if known else None
    s = obj(InputStream, _size=size, _current_size=mkint(cur), source='x')
    had = RT.choice([False, True], 'views')
    if had:
        s._set_size = [lambda: None]

    class View:
        pass
    v = g['v'] = View()
    kind, r = expect(ST + 'InputStream.askSize', InputStream.askSize, s, v)
    RT.cover(kind)
    RT.prove(kind == 'ret' and r is size, 'askSize: the size, None when it is not known')
    l = s._set_size
    got = l is not None and len(l) == had + 1 and l[-1]() is v
    if known and RT.branch(size.e == cur):
        RT.prove(l is None or len(l) == had, 'askSize: nothing more to tell')
    else:
        RT.prove(got, 'askSize: the view will be told')


# ------------------------------------------------------ the stream of a field
def b_substream():
    from weakref import ref
    from hachoir.field import Field
    g = RT.ghost

    class Stream:
        pass
    state = RT.choice(['none', 'used', 'forgotten'], 'stream made before')
    old, new = Stream(), Stream()
    made = []

    class F(Field):
        def _createInputStream(self, **a):
            made.append(a)
            return new
    f = obj(F, _name='f')
    if state == 'used':
        f._sub_istream = ref(old)
    elif state == 'forgotten':
        f._sub_istream = lambda: None
    kind, r = expect(FF + 'getSubIStream', F.getSubIStream, f)
    RT.cover(kind)
    RT.prove(kind == 'ret', 'getSubIStream: no error')
    if state == 'used':
        RT.prove(r is old and not made, 'getSubIStream: the stream in use')
    else:
        RT.prove(r is new and made == [{}], 'getSubIStream: the stream of the field')
        RT.prove(f._sub_istream() is new, 'getSubIStream: is used again')
    g['keep'] = (old, new)


def b_setsub():
    from hachoir.field import Field
    calls = []

    class F(Field):
        def _createInputStream(self, **a):
            calls.append(('first', self, a))
            return 'first'
    f = obj(F, _name='f')

    def second(cis, **a):
        calls.append(('second', a))
        return ('second', cis(source='s', **a))

    def third(cis, **a):
        calls.append(('third', a))
        return ('third', cis(tags=['t']))
    kind, r = expect(FF + 'setSubIStream', F.setSubIStream, f, second)
    RT.prove(kind == 'ret', 'setSubIStream: no error')
    two = RT.choice([False, True], 'chained')
    if two:
        kind, r = expect(FF + 'setSubIStream', F.setSubIStream, f, third)
        got = f._createInputStream(x=1)
        RT.prove(got == ('third', ('second', 'first')), 'setSubIStream: each function is given the previous one')
        RT.prove(calls == [('third', {'x': 1}), ('second', {'tags': ['t']}), ('first', f, {'source': 's', 'tags': ['t']})], 'setSubIStream: the arguments')
    else:
        got = f._createInputStream(x=1)
        RT.prove(got == ('second', 'first') and calls == [('second', {'x': 1}), ('first', f, {'source': 's', 'x': 1})], 'setSubIStream: the function is given the previous one')
    RT.cover('set')


def b_subfile():
    import hachoir.field.sub_file as S
    from hachoir.field import GenericFieldSet
    p = obj(GenericFieldSet, _name='set', _address=0, _parent=None, _size=None, _current_size=RT.input_int('parent_size', 0))
    n = RT.input_int('length', 1)
    RT.assume(n.e <= 2 ** 64)

    class Cls:
        pass

    class Prs:
        PARSER_TAGS = {'id': 'the id'}
    fname = RT.choice([None, 'name'], 'filename')
    prs = RT.choice([None, Prs], 'parser')
    cls = RT.choice([None, Cls], 'parser class')
    mime = RT.choice([None, 'a/b'], 'mime type')
    kind, f = expect(SU + 'SubFile.__init__', S.SubFile, p, 'f', n, 'text', prs, fname, mime, cls)
    RT.prove(kind == 'ret', 'SubFile: no error')
    RT.prove(zint(f._size) == 8 * n.e, 'SubFile: of the size asked for')
    RT.prove(zint(f._address) == zint(p._current_size), 'SubFile: at the next address')
    seen = []

    def base(**a):
        seen.append(a)
        return 'stream'
    f2 = obj(S.SubFile)
    own = f._createInputStream
    # the stream is the one of the field itself, with the tags added
    g = RT.ghost
    g['seen'] = seen
    r = own(tags=[('x', 'y')])
    RT.cover('stream')
    RT.prove(r == ('stream of', f), 'SubFile: the stream of the field')
    tags = list(g['tags'])
    exp = [('x', 'y')]
    for c, t in ((cls, ('class', cls)), (prs, ('id', 'the id')), (mime, ('mime', mime)), (fname, ('filename', fname))):
        if c is not None:
            exp.append(t)
    RT.prove(tags[0] == ('x', 'y') and set(tags) == set(exp) and len(tags) == len(exp), 'SubFile: the tags of the stream')


def m_cis(self, **a):
    RT.ghost['tags'] = a.get('tags', [])
    return ('stream of', self)


def b_compfield():
    """the stream of a field which is said to be compressed: the decompression of the field's own stream"""
    import hachoir.field.sub_file as S
    from hachoir.field import Field

    class Top:
        source = 'top'

    class F(Field):
        def _createInputStream(self, **a):
            own.append(a)
            st = Top()
            st.tags = [('filename', 'f')]
            st.source = 'own'
            got.append(st)
            return st
    own, got, made, ios = [], [], [], []
    child = RT.choice([True, False], 'field of a set')
    f = obj(F, _name='f', _parent=obj(F, _name='p', _parent=None, _address=mkint(iv(0))) if child else None, _address=mkint(iv(0)))
    top = f.stream = Top()

    def decomp(stream):
        made.append(stream)
        return 'decompressor'

    def m_io(inp, **a):
        ios.append((inp, a))
        return 'the stream'
    kind, r = expect(SU + 'CompressedField', S.CompressedField, f, decomp)
    RT.prove(kind == 'ret' and r is f, 'CompressedField: the field')
    RT.prove(not own and not made, 'CompressedField: nothing is read before')
    args = {}
    src = RT.choice([None, 'a source'], 'source')
    if src:
        args['source'] = src
    tags = RT.choice([None, ('x', 'y')], 'tags')
    if tags:
        args['tags'] = [tags]
    with patched(S, InputIOStream=m_io):
        kind, r = expect(SU + 'CompressedField', lambda: f._createInputStream(**args))
    RT.cover(kind)
    RT.prove(kind == 'ret' and r == 'the stream', 'CompressedField: the stream of the field')
    if kind != 'ret':
        return
    RT.prove(len(ios) == 1 and type(ios[0][0]) is S.CompressedStream, 'CompressedField: a decompressed stream')
    c = ios[0][0]
    want = got[0] if child and got else top
    RT.prove(c.stream is want and made == [want] and c.decompressor == 'decompressor', 'CompressedField: of the data of the field')
    RT.prove(c.offset == 0 and len(c._buffer) == 0, 'CompressedField: from its beginning')
    RT.prove(len(own) == (1 if child else 0), 'CompressedField: the own stream of the field, once')
    kw = ios[0][1]
    exp = ([tags] if tags else []) + ([('filename', 'f')] if child else [])
    RT.prove(list(kw.get('tags', [])) == exp, 'CompressedField: the tags of the stream')
    RT.prove(isinstance(kw.get('source'), str) and (src is None or kw['source'] == src), 'CompressedField: the source of the stream')


def b_rawbytes():
    """the value of a field of bytes is the bytes of the stream which it covers"""
    import hachoir.field as H
    from hachoir.field import GenericFieldSet
    g = RT.ghost
    reads = []

    class St:
        def readBytes(self, address, n):
            reads.append((address, n))
            return g.setdefault('bytes', object())
    cls = RT.choice([H.RawBytes, H.Bytes], 'class')
    pa = RT.input_int('parent_address', 0)
    p = obj(GenericFieldSet, _name='set', _address=pa, _parent=None, _size=None, _current_size=RT.input_int('parent_size', 0), stream=St())
    n = RT.input_int('length')
    kind, f = expect('hachoir.field.byte_field:RawBytes.__init__', cls, p, 'f', n, 'text')
    RT.cover(kind)
    if kind == 'exc':
        RT.prove(type(f) is H.FieldError, 'RawBytes: an empty field is an error')
        RT.prove(z3.Or(n.e <= 0, n.e > 2 ** 64), 'RawBytes: only a wrong length is an error')
        return
    RT.prove(z3.And(n.e > 0, n.e <= 2 ** 64), 'RawBytes: a length which is wrong is refused')
    RT.prove(zint(f._size) == 8 * n.e, 'RawBytes: the size in bits')
    RT.prove(zint(f._address) == zint(p._current_size), 'RawBytes: at the next address')
    if RT.choice([False, True], 'displayed before'):
        f._display = b'begin'
    kind, r = expect('hachoir.field.byte_field:RawBytes.createValue', f.createValue)
    RT.prove(kind == 'ret' and r is g.get('bytes'), 'RawBytes: the value is what is read')
    RT.prove(len(reads) == 1, 'RawBytes: read once')
    RT.prove(z3.And(zint(reads[0][0]) == pa.e + zint(p._current_size), zint(reads[0][1]) == n.e), 'RawBytes: its own bytes')


# ------------------------------------------------------------------- fragments
PF = z3.Function('fragment_start', z3.IntSort(), z3.IntSort())     # bytes before the fragment i
SZF = z3.Function('fragment_size', z3.IntSort(), z3.IntSort())
HASF = z3.Function('fragment_has_data', z3.IntSort(), z3.BoolSort())


class Group(Sym):
    """the items of a group of fragments: n of them, the i-th holds the bytes PF(i) to PF(i + 1)"""
    _pyvc_name = 'fragments'

    def __init__(self, n):
        self.n = n

    def len_(self):
        return mkint(self.n)

    def sym_item(self, i):
        i = zint(i)
        RT.assume(z3.And(PF(i + 1) >= PF(i), PF(i) >= 0))

        class Raw:
            value = SBytes([('arr', OUT.C, z3.simplify(PF(i)), z3.simplify(PF(i + 1) - PF(i)))])

        class Item:
            def __getitem__(self, name):
                RT.prove(name == 'rawdata', 'fragments: the data of the fragment')
                return Raw
        return Item()


def group_chunks(L):
    c = [v for v in L._d.values() if isinstance(v, JoinList)]
    if len(c) != 1:
        raise Unsupported('one list of chunks expected')
    return c[0]


def group_inv(L):
    t = group_chunks(L).total.q
    i = zint(L._idx)
    j = z3.Int('any_index_group')
    out = [('length so far', t.length() == PF(i))]
    if t.term(j) is not None:
        out.append(('content so far', z3.Implies(z3.And(0 <= j, j < t.length()), t.term(j) == OUT.C(j))))
    return out


def group_after(L):
    c = group_chunks(L)
    c.total = SBytes([('arr', OUT.C, iv(0), c.total.q.length())])


def b_group():
    import hachoir.field.fragment as H
    n = RT.input_int('n_fragments', 0).e
    RT.assume(PF(0) == 0)
    parser = RT.choice([None, 'parser'], 'parser')
    gr = H.FragmentGroup(parser)
    gr.items = Group(n)
    made = []

    def m_string(data, source=None, **a):
        made.append((data, a))
        return 'stream'
    with patched(H, StringInputStream=m_string):
        kind, r = expect('hachoir.field.fragment:FragmentGroup.createInputStream', gr.createInputStream)
    RT.cover(kind)
    RT.prove(kind == 'ret' and r == 'stream' and len(made) == 1, 'fragments: the stream of the group')
    if not made:
        return
    same_bytes(made[0][0], PF(n), lambda j: OUT.C(j), 'fragments: in order, all of them')
    tags = dict(made[0][1].get('tags', ()))
    RT.prove(tags.get('args') is gr.args and tags.get('class') == parser, 'fragments: the tags of the stream')


class Frag(Sym):
    """the i-th of a chain of n fragments"""
    def __init__(self, i, n):
        self.i, self.n = i, n

    def getData(self):
        if not RT.branch(HASF(self.i)):
            return None

        class D:
            size = mkint(SZF(self.i))

            def __bool__(self):
                return True
        return D()

    @property
    def next(self):
        if RT.branch(self.i + 1 >= self.n):
            return None
        return Frag(z3.simplify(self.i + 1), self.n)


class Seen:
    _pyvc_track = True
    _pyvc_name = 'seen'

    def __init__(self):
        self.k = mkint(iv(0))
        self.cur = 0


def frag_name(L):
    """the local which walks through the chain"""
    g = RT.ghost
    if 'frag_name' not in g:
        c = [k for k, v in L._d.items() if isinstance(v, Frag) or v is None and k != 'self']
        if len(c) != 1:
            raise Unsupported('one fragment expected')
        g['frag_name'] = c[0]
    return g['frag_name']


def frag_havoc(L):
    n = RT.ghost['n_frag']
    i = RT.int('current')
    RT.assume(z3.And(i.e >= 0, i.e <= n))
    return {frag_name(L): None if RT.branch(i.e >= n) else Frag(i.e, n)}


def frag_inv(L):
    g = RT.ghost
    f = L.get(frag_name(L))
    k = zint(g['seen'].k)
    if f is None:
        return [('every fragment was given', k == g['n_frag'])]
    return [('the next fragment', k == f.i), ('a fragment of the chain', z3.And(f.i >= 0, f.i < g['n_frag']))]


def b_fragiter():
    from hachoir.field.link import Fragments
    g = RT.ghost
    n = g['n_frag'] = RT.input_int('n_fragments', 0).e
    g['seen'] = Seen()
    RT.roots.append(g['seen'])
    first = None if RT.branch(n == 0) else Frag(iv(0), n)
    m = g['seen']
    it = iter(Fragments(first))
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        RT.cover('fragment')
        k = zint(m.k)
        if v is None:
            RT.prove(z3.Not(HASF(k)), 'Fragments: no size only for a fragment without data')
        else:
            RT.prove(z3.And(HASF(k), zint(v) == SZF(k)), 'Fragments: the size of each fragment, in order')
        m.k = mkint(k + 1)
    RT.cover('end')
    RT.prove(zint(m.k) == n, 'Fragments: every fragment')


def b_fragstream():
    """the stream of the first fragment is the whole chain, the one of another field set its own content"""
    import hachoir.field.link as L
    from hachoir.field import Fragment, MissingField
    LK = 'hachoir.field.link:Fragment.'
    other = obj(Fragment, _name='other', _parent=None)
    f = obj(Fragment, _name='f', _parent=None)
    how = RT.choice(['first', 'other first', 'no data'], 'fragment')
    data, nxt = object(), object()
    missing = RT.choice([False, True], 'data missing')
    if how != 'no data':
        def gd():
            if missing:
                raise MissingField(f, 'data')
            return data
        f._getData = gd
    step = RT.choice([False, True], 'next given as a function')
    kind, r = expect(LK + 'setLinks', f.setLinks, other if how == 'other first' else None, (lambda: nxt) if step else nxt)
    RT.prove(kind == 'ret' and r is f, 'setLinks: the fragment itself')
    RT.prove(f.first is (other if how == 'other first' else f), 'setLinks: the first fragment')
    RT.prove(f.next is nxt and f.next is nxt, 'setLinks: the next fragment')
    made = []

    def m_stream(first, **a):
        made.append((first, a))
        return 'chain'
    with patched(L, FragmentedStream=m_stream):
        kind, r = expect(LK + '_createInputStream', f._createInputStream, source='s')
    RT.cover('stream')
    if how == 'first':
        RT.prove(r == 'chain' and len(made) == 1 and made[0][0] is f, 'fragments: the stream of the chain')
        pk = made[0][1].get('packets')
        RT.prove(type(pk) is L.Fragments and pk.first is f, 'fragments: the fragments of the chain')
        RT.prove(made[0][1].get('source') == 's', 'fragments: the arguments of the stream')
    else:
        RT.prove(not made and r == ('stream of', f), 'fragments: the stream of the field set')
    if how != 'no data':
        kind, r = expect(LK + 'getData', f.getData)
        RT.prove(kind == 'ret' and r is (None if missing else data), 'fragments: the data of the fragment, None if there is none')


# --------------------------------------------------------- decompressed streams
class Dec:
    """a decompressor, by contract: given the compressed data in order (all of it: nothing
    is skipped nor given twice), the results of its calls are the decompressed content in order"""
    _pyvc_track = True
    _pyvc_name = 'decompressor'

    def __init__(self, pos):
        self.pos = mkint(pos)
        self.fed = mkint(iv(0))
        self.rest = mkint(iv(0))

    def __call__(self, size, data=None):
        g = RT.ghost
        RT.prove(zint(size) > 0, 'decompression: a size is asked for')
        if data is not None:
            RT.prove(zint(self.rest) > 0, 'decompression: more data only once the output of the previous one was given')
            d = SBytes.lift(data).q
            j = z3.Int(RT.freshname('any_byte'))
            if d.term(j) is not None:
                RT.prove(z3.Implies(z3.And(0 <= j, j < d.length()), d.term(j) == CC.C(z3.simplify(zint(self.fed) + j))),
                         'decompression: the compressed data in order')
            self.fed = mkint(z3.simplify(zint(self.fed) + d.length()))
        k = RT.int('output')
        RT.assume(k.e >= 0)
        a = zint(self.pos)
        self.pos = mkint(z3.simplify(a + k.e))
        self.rest = mkint(z3.simplify(zint(size) - k.e))
        return SBytes([('arr', OUT.C, z3.simplify(a), k.e)])


class Source:
    """the compressed data, n bytes"""
    _pyvc_track = True
    _pyvc_name = 'compressed data'

    def __init__(self, n, known):
        self.n = n
        self.size = mkint(8 * n) if known else None

    def snap_state(self):
        return self.size is None

    def snap_children(self):
        return []

    def havoc(self):
        if self.size is None and RT.choice([False, True], 'size known'):
            self.size = mkint(8 * self.n)

    def read(self, address, size):
        from hachoir.stream.input import ReadStreamError
        a, s = zint(address), zint(size)
        RT.prove(z3.And(a >= 0, s > 0), 'precondition of read')
        RT.prove(z3.And(a % 8 == 0, s % 8 == 0), 'decompression: reads whole bytes')
        b, cnt = z3.simplify(a / 8), z3.simplify(s / 8)
        if RT.branch(b + cnt <= self.n):
            return mkint(iv(0)), SBytes([('arr', CC.C, b, cnt)]), False
        if RT.choice([0, 1], 'end') == 0:
            RT.ghost['eof'] = ReadStreamError(0, 0)
            raise RT.ghost['eof']
        self.size = mkint(8 * self.n)
        return mkint(iv(0)), SBytes([('arr', CC.C, b, z3.simplify(zmax(self.n - b, iv(0))))]), True


def b_comp():
    from hachoir.field.sub_file import CompressedStream
    g = RT.ghost
    known = RT.choice([True, False], 'size known')
    n = RT.input_int('n', 1).e
    src = Source(n, known)
    off = RT.input_int('offset', 0).e
    RT.assume(off <= n)
    pos, kept = g['pos'], g['kept'] = RT.input_int('position', 0).e, RT.input_int('kept', 0).e
    dec = Dec(z3.simplify(pos + kept))
    dec.fed = mkint(off)
    s = obj(CompressedStream, stream=src, decompressor=dec, offset=mkint(8 * off), _buffer=SBytes([('arr', OUT.C, pos, kept)]))
    size = g['size'] = RT.input_int('size', 0).e
    for o in (src, dec):
        RT.roots.append(o)
    g.update(src=src, dec=dec)
    kind, r = expect(SU + 'CompressedStream.read', CompressedStream.read, s, mkint(size))
    RT.cover(kind)
    if kind == 'exc':
        RT.prove(r is g.get('eof'), 'CompressedStream.read: only an error of the compressed data')
        return
    got = SBytes.lift(r).q.length()
    RT.prove(z3.And(got >= 0, got <= size), 'CompressedStream.read: not more than asked for')
    same_bytes(r, got, lambda j: OUT.C(z3.simplify(pos + j)), 'CompressedStream.read')
    if not RT.entails(got == size):
        RT.prove(z3.Implies(got < size, z3.And(z3.BoolVal(src.size is not None), zint(s.offset) == 8 * n)), 'CompressedStream.read: fewer bytes only at the end of the data')
    RT.prove(z3.And(zint(s.offset) == 8 * zint(dec.fed), zint(s.offset) <= 8 * n), 'CompressedStream.read: the next compressed data')
    left = z3.simplify(zint(dec.pos) - pos - got)
    same_bytes(s._buffer, left, lambda j: OUT.C(z3.simplify(pos + got + j)), 'CompressedStream: what is left is kept for the next read')


def chunks(L):
    c = [v for v in L._d.values() if isinstance(v, JoinList)]
    if len(c) != 1:
        raise Unsupported('one list of blocks expected')
    return c[0]


def comp_state(L):
    g = RT.ghost
    dec = g['dec']
    d = SBytes.lift(L.get('d')).q
    return dec, d, zint(L.size)


def comp_inv(L):
    g = RT.ghost
    dec, d, size = comp_state(L)
    t = chunks(L).total.q
    extra = z3.If(size < 0, -size, iv(0))
    j = z3.Int('any_index_comp')
    out = [('size', z3.And(t.length() + size + extra == g['size'], t.length() >= 0)),
           ('given so far', t.length() + extra == zint(dec.pos) - g['pos']),
           ('rest of the last block', z3.Implies(size < 0, d.length() + size >= 0)),
           ('compressed data', z3.And(zint(L.self.offset) == 8 * zint(dec.fed), zint(dec.fed) <= g['src'].n, zint(dec.fed) >= 0)),
           ('still asked for', zint(dec.rest) == size),
           ('last block', zint(dec.pos) - d.length() >= g['pos']),
           ('known size', z3.BoolVal(True) if g['src'].size is None else zint(g['src'].size) == 8 * g['src'].n)]
    if t.term(j) is not None:
        out.append(('content', z3.Implies(z3.And(0 <= j, j < t.length()), t.term(j) == OUT.C(z3.simplify(g['pos'] + j)))))
    if d.term(j) is not None:
        out.append(('content of the last block', z3.Implies(z3.And(0 <= j, j < d.length()), d.term(j) == OUT.C(z3.simplify(zint(dec.pos) - d.length() + j)))))
    return out


def comp_after(L):
    """the bytes which the invariant describes at an arbitrary index"""
    g = RT.ghost
    c, d = chunks(L), L.get('d')
    c.total = SBytes([('arr', OUT.C, g['pos'], c.total.q.length())])
    if isinstance(d, SBytes):
        n = d.q.length()
        d.q = SBytes([('arr', OUT.C, z3.simplify(zint(g['dec'].pos) - n), n)]).q


class Zlib:
    """zlib.decompressobj, bz2.BZ2Decompressor, by contract: given all the data in order, the
    results are the decompressed content in order; with a limit, the data which was not used
    is kept in unconsumed_tail (only when the limit is reached) and has to be given again"""
    _pyvc_track = True
    _pyvc_name = 'zlib object'

    def __init__(self, used, tail, pos, bz2=False):
        self.used, self.tail, self.pos, self.bz2 = mkint(used), mkint(tail), mkint(pos), bz2
        self.n = 0

    @property
    def unconsumed_tail(self):
        return SBytes([('arr', CC.C, zint(self.used), zint(self.tail))])

    def decompress(self, data, limit=None):
        if not isinstance(data, (bytes, SBytes)):
            raise TypeError('a bytes-like object is required')
        self.n += 1
        d = SBytes.lift(data).q
        if self.bz2:
            RT.prove(limit is None, 'decompression: no limit')
            if RT.choice([False, True], 'after the end'):
                RT.ghost['end'] = True
                raise EOFError('End of stream already reached')
        else:
            RT.prove(limit is not None and zint(limit) == RT.ghost['size'], 'decompression: limited to the size asked for')
        RT.prove(d.length() == zint(self.tail) + RT.ghost['new'], 'decompression: all the data which was not used yet')
        j = z3.Int(RT.freshname('any_byte'))
        if d.term(j) is not None:
            RT.prove(z3.Implies(z3.And(0 <= j, j < d.length()), d.term(j) == CC.C(z3.simplify(zint(self.used) + j))), 'decompression: the data in order')
        k = RT.int('output')
        RT.assume(k.e >= 0)
        a = zint(self.pos)
        self.pos = mkint(z3.simplify(a + k.e))
        RT.ghost['out'] = k.e
        return SBytes([('arr', OUT.C, z3.simplify(a), k.e)])


def b_dec(which):
    def body():
        import importlib
        mod, name = which.split(':')
        cls = getattr(importlib.import_module(mod), name)
        g = RT.ghost
        used, tail, pos = RT.input_int('used', 0).e, RT.input_int('kept', 0).e, RT.input_int('position', 0).e
        size = g['size'] = RT.input_int('size', 1).e
        more = RT.choice([False, True], 'more data')
        new = g['new'] = RT.input_int('n_data', 0).e if more else iv(0)
        bz2 = name == 'Bunzip2'
        if more or bz2:
            RT.assume(tail == 0)        # contract of the decompressors, see Dec
        z = Zlib(used, tail, pos, bz2)
        s = obj(cls, **{'bzip2' if bz2 else 'gzip': z})
        kind, r = expect(which + '.__call__', cls.__call__, s, mkint(size), *([SBytes([('arr', CC.C, z3.simplify(used + tail), new)])] if more else []))
        RT.cover(kind)
        RT.prove(kind == 'ret', 'decompression: no error')
        if kind == 'exc':
            return
        if g.get('end'):
            RT.prove(isinstance(r, (bytes, SBytes)), 'decompression: bytes')
            RT.prove(SBytes.lift(r).q.length() == 0, 'decompression: nothing after the end')
            return
        RT.prove(z.n == 1, 'decompression: the data is given once')
        if 'out' not in g:
            return
        same_bytes(r, g['out'], lambda j: OUT.C(z3.simplify(pos + j)), 'decompression')
    return body


DEC = ('hachoir.parser.common.deflate:DeflateStream', 'hachoir.parser.image.png:Gunzip', 'hachoir.parser.archive.bzip2_parser:Bunzip2')
SRC_CALLS = dict(lib.LOG_CALLS)
UNITS = [
    Unit('opening a file', [IH + 'FileInputStream'], b_open, calls=SRC_CALLS),
    Unit('telling the size', [ST + 'InputStream._setSize'], b_setsize, calls=SRC_CALLS, loops={ST + 'InputStream._setSize#0': LoopSpec(setsize_inv)}),
    Unit('asking for the size', [ST + 'InputStream.askSize'], b_asksize, calls=SRC_CALLS),
    Unit('stream of a field', [FF + 'getSubIStream'], b_substream, calls=SRC_CALLS),
    Unit('other stream of a field', [FF + 'setSubIStream'], b_setsub, calls=SRC_CALLS),
    Unit('file in a file', [SU + 'SubFile.__init__'], b_subfile, calls=dict(SRC_CALLS, **{FF + '_createInputStream': m_cis})),
    Unit('group of fragments', ['hachoir.field.fragment:FragmentGroup.createInputStream', 'hachoir.field.fragment:FragmentGroup.__init__'], b_group, calls=SRC_CALLS,
         loops={'hachoir.field.fragment:FragmentGroup.createInputStream#0': LoopSpec(group_inv, after=group_after)},
         symlists={'hachoir.field.fragment:FragmentGroup.createInputStream': JoinList}),
    Unit('chain of fragments', ['hachoir.field.link:Fragments.__iter__'], b_fragiter, calls=SRC_CALLS,
         loops={'hachoir.field.link:Fragments.__iter__#0': LoopSpec(frag_inv, lambda L: RT.ghost['n_frag'] - zint(RT.ghost['seen'].k), havoc=frag_havoc)}),
    Unit('stream of a fragment', ['hachoir.field.link:Fragment.' + q for q in ('setLinks', '_createInputStream', 'getData', '_feedLinks', '_getNext')], b_fragstream,
         calls=dict(SRC_CALLS, **{FF + '_createInputStream': m_cis})),
    Unit('compressed field', [SU + 'CompressedField', SU + 'CompressedStream.__init__'], b_compfield, calls=SRC_CALLS),
    Unit('bytes field', ['hachoir.field.byte_field:RawBytes.__init__', 'hachoir.field.byte_field:RawBytes.createValue'], b_rawbytes, calls=SRC_CALLS),
    Unit('decompressed stream', [SU + 'CompressedStream.read'], b_comp, calls=SRC_CALLS,
         loops={SU + 'CompressedStream.read#0': LoopSpec(comp_inv, None, after=comp_after)}, symlists={SU + 'CompressedStream.read:list': lambda *a: mkchunks(*a)}),
]
UNITS += [Unit(q.split(':')[1], [q + '.__call__'], b_dec(q), calls=SRC_CALLS) for q in DEC]
PROP = 'C02'


def mkchunks(*a):
    c = JoinList()
    for x in (a[0] if a and isinstance(a[0], (list, tuple)) else a):
        c.append(x)
    return c
