"""Executable contract of the editor: random field sets, random edits, against a tree of (name, bits)."""
from io import BytesIO
import struct
from exe.common import *

CASE_TIMEOUT = 20


def cases(rng, tier, hints):
    n = 0
    while True:
        n += 1
        yield dict(s=rng.randrange(1 << 40), e=rng.choice('BL'), m=rng.choice(['bit', 'byte', 'byte']),
                   sub=rng.randrange(3) == 0, ops=rng.choice([0, 1, 1, 2, 3, 4, 6, 10]))


class N(object):
    """reference node: a leaf has bits, a set has children"""

    def __init__(self, kind, name, bits=None, kids=None, **kw):
        self.kind, self.name, self.bits, self.kids = kind, name, bits, kids
        self.new = self.touched = False
        self.value = None
        self.gone = []
        self.__dict__.update(kw)

    def all(self):
        return self.bits if self.kids is None else ''.join(k.all() for k in self.kids)

    def dirty(self):
        return self.new or self.touched or any(k.dirty() for k in self.kids or ())


def num(v, n, e):
    s = format(v % (1 << n), '0%db' % n) if n else ''
    return s if e == 'B' else s[::-1]


def bts(b, e):
    return ''.join(num(x, 8, e) for x in b)


def raw(bits, e):
    bits += '0' * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8] if e == 'B' else bits[i:i + 8][::-1], 2) for i in range(0, len(bits), 8))


def layout(rng, depth, e, bit, addr, top=False):
    """random children of a set starting at an address"""
    kids, used, narr = [], 0, {}
    for i in range(rng.choice([1, 2, 3, 3, 4, 6]) if not top else rng.choice([2, 3, 4, 6, 8])):
        here = addr + used
        k = rng.choice(['int', 'int', 'bits', 'raw', 'bytes', 'str', 'float', 'set', 'set', 'unix', 'char', 'pstr', 'mac'])
        if k in ('set',) and depth == 0:
            k = 'int'
        if rng.random() < .35:
            base = rng.choice(['item', 'x'])
            name = '%s[%d]' % (base, narr.setdefault(base, 0))
            narr[base] += 1
            ask = base + '[]'
        else:
            name = ask = 'f%d' % i
        r = rng.getrandbits
        if k in ('bytes', 'str', 'pstr', 'float', 'char', 'unix', 'mac', 'int') and here % 8:
            k = 'bits'
        if k == 'int':
            n = rng.choice([8, 16, 24, 32, 64, 40])
            sg = rng.randrange(2)
            nd = N('int', name, num(r(n), n, e), size=n, signed=sg)
        elif k == 'bits':
            n = rng.randrange(1, 20) if bit else 8 * rng.randrange(1, 4)
            nd = N('bits', name, num(r(n), n, e), size=n)
        elif k == 'raw':
            n = rng.choice([3, 17, 255, 256, 257, 300, 800]) if bit else 8 * rng.choice([1, 2, 33, 40, 100])
            nd = N('raw', name, num(r(n), n, e), size=n)
        elif k == 'bytes':
            n = rng.choice([1, 2, 3, 5, 40])
            if rng.random() < .02:
                n = rng.choice([4095, 4096, 4097, 9000])
            nd = N('bytes', name, bts(rbytes(rng, n), e), size=8 * n)
        elif k == 'str':
            t = bytes(rng.choice(b'abcd') for _ in range(rng.randrange(5)))
            nd = N('str', name, bts(t + b'\0', e))
        elif k == 'pstr':
            t = bytes(rng.randrange(256) for _ in range(rng.randrange(5)))
            nd = N('pstr', name, bts(bytes([len(t)]) + t, e))
        elif k == 'char':
            nd = N('char', name, num(r(8), 8, e), size=8)
        elif k in ('unix', 'mac'):
            nd = N(k, name, num(r(31), 32, e), size=32)
        elif k == 'float':
            w = rng.choice([32, 64])
            nd = N('float', name, num(r(w), w, e), size=w)
        else:
            nd = N('set', name, None, layout(rng, depth - 1, e, bit, here), kinds=rng.randrange(2))
        nd.ask = ask
        kids.append(nd)
        used += len(nd.all())
    return kids


def run_case(case):
    import hachoir.field as F
    import hachoir.editor as E
    from hachoir.editor import (createEditor, NewFieldSet, EditableInteger, EditableBits, EditableBytes,
                                EditableString)
    from hachoir.editor.typed_field import EditableCharacter
    from hachoir.core.dict import UniqKeyError
    from hachoir.field import Parser, FieldSet, MissingField
    from hachoir.stream import StringInputStream, OutputStream
    from hachoir.core.log import log
    log.use_print = False
    rng = random.Random(case['s'])
    en = case['e']
    e = endians()[en]
    bit = case['m'] == 'bit'
    lead = rng.choice([0, 0, 8, 16, 3, 11] if bit else [0, 0, 8, 16]) if case['sub'] else 0
    tree = N('set', '/', None, layout(rng, 3, en, bit, lead, True))
    odd = -len(tree.all()) % 8
    if not case['sub'] and odd:
        tree.kids.append(N('bits', 'odd', num(rng.getrandbits(8), odd, en), size=odd))
        tree.kids[-1].ask = 'odd'
    tail = num(rng.getrandbits(24), 16 + (-lead - len(tree.all())) % 8, en)
    data = raw(num(rng.getrandbits(20), lead, en) + tree.all() + (tail if case['sub'] else ''), en)

    def make(parent, nd):
        k, nm = nd.kind, nd.ask
        if k == 'int':
            return F.GenericInteger(parent, nm, bool(nd.signed), nd.size)
        if k == 'bits':
            return F.Bit(parent, nm) if nd.size == 1 and nd.name != nd.ask else F.Bits(parent, nm, nd.size)
        if k == 'raw':
            return F.RawBits(parent, nm, nd.size)
        if k == 'bytes':
            return F.RawBytes(parent, nm, nd.size // 8)
        if k == 'str':
            return F.CString(parent, nm)
        if k == 'pstr':
            return F.PascalString8(parent, nm)
        if k == 'char':
            return F.Character(parent, nm)
        if k == 'unix':
            return F.TimestampUnix32(parent, nm)
        if k == 'mac':
            return F.TimestampMac32(parent, nm)
        if k == 'float':
            return (F.Float32 if nd.size == 32 else F.Float64)(parent, nm)
        kids = nd.kids

        class S(FieldSet):
            def createFields(self):
                for c in kids:
                    yield make(self, c)
        return S(parent, nm, size=len(nd.all()) if nd.kinds else None)

    tree.ask, tree.kinds = 'top', 0
    kids0 = tree.kids
    # the layout is what was parsed, edits change only the reference
    import copy
    spec = copy.deepcopy(tree)

    class P(Parser):
        endian = e

        def createFields(self):
            if case['sub']:
                if lead:
                    yield F.RawBits(self, 'lead', lead)
                yield make(self, spec)
                yield F.RawBits(self, 'tail', len(tail))
            else:
                for c in spec.kids:
                    yield make(self, c)
    p = P(StringInputStream(data), )
    ed = createEditor(p['top'] if case['sub'] else p)
    if rng.random() < .5:
        [f for f in (p['top'] if case['sub'] else p)]
    orig = tree.all()
    # a float is a set of bits
    def floats(nd):
        if nd.kind == 'float':
            try:
                sub = p['/top' + nd.path if case['sub'] else nd.path]
            except Exception:
                raise
            pos, out = 0, []
            for f in sub:
                out.append(N('bits' if f.__class__ is F.Bit else 'fake', f.name, nd.bits[pos:pos + f.size], size=f.size))
                pos += f.size
            nd.parts = out
    def walk(nd, path):
        nd.path = path
        if nd.kids is not None:
            for c in nd.kids:
                walk(c, path + '/' + c.name)
        floats(nd)
    walk(tree, '')

    def fbits(nd):
        return nd.bits

    handles = {}        # id(node) -> editor object for inserted sets

    def editor_of(path):
        obj = ed
        for nd in path[1:]:
            obj = handles[id(nd)] if id(nd) in handles else obj[nd.name]
        return obj

    def sets(nd, path=()):
        path = path + (nd,)
        yield path
        for c in nd.kids or ():
            if c.kids is not None:
                yield from sets(c, path)

    def out():
        b = BytesIO()
        o = OutputStream(b)
        ed.writeInto(o)
        n = len(tree.all())
        if n % 8:
            o.writeBits(8 - n % 8, 0, e)
        return b.getvalue()

    def verify(what):
        exp = raw(tree.all(), en)
        got = out()
        if got != exp:
            return '%s: written %s..., expected %s...' % (what, got[:40].hex(), exp[:40].hex())
        for path in sets(tree):
            nd, obj = path[-1], editor_of(path)
            nm = '%s: set %s' % (what, '/'.join(x.name for x in path[1:]) or '/')
            if obj.size != len(nd.all()):
                return '%s: size %r, expected %d' % (nm, obj.size, len(nd.all()))
            if len(obj) != len(nd.kids):
                return '%s: length %r, expected %d' % (nm, len(obj), len(nd.kids))
            fields = list(obj)
            names = [f.name for f in fields]
            if names != [k.name for k in nd.kids]:
                return '%s: fields %r, expected %r' % (nm, names, [k.name for k in nd.kids])
            if not nd.dirty() and obj.is_altered:
                return '%s: altered without an edit' % nm
            if nd.dirty() and not obj.is_altered:
                return '%s: edited and not altered' % nm
            pos = 0
            for k, f in zip(nd.kids, fields):
                n = len(k.all())
                if f.size != n:
                    return '%s: size of %s is %r, expected %d' % (nm, k.name, f.size, n)
                if f.address != pos:
                    return '%s: address of %s is %r, expected %d' % (nm, k.name, f.address, pos)
                if f.is_altered != k.dirty():
                    return '%s: is_altered of %s is %r' % (nm, k.name, f.is_altered)
                if not k.new:
                    if obj[k.name].address != pos or k.name not in obj:
                        return '%s: %s by name' % (nm, k.name)
                if k.kind != 'float' and k.kids is None and k.value is not None and f.value != k.value:
                    return '%s: value of %s is %r, expected %r' % (nm, k.name, f.value, k.value)
                if k.kids is not None:
                    a, full = obj, 0
                    for up, x in zip(path, path[1:] + (k,)):
                        full += sum(len(s.all()) for s in up.kids[:up.kids.index(x)])
                    if f.absolute_address != full:
                        return '%s: absolute address of %s is %r, expected %d' % (nm, k.name, f.absolute_address, full)
                pos += n
        return None

    def value_for(nd):
        """(python value, bits) of a new value of a leaf"""
        k = nd.kind
        r = rng.getrandbits
        if k == 'int':
            v = rng.choice([0, 1, (1 << nd.size) - 1, 1 << (nd.size - 1), r(nd.size)])
            b = num(v, nd.size, en)
            if nd.signed and v >> (nd.size - 1):
                v -= 1 << nd.size
            return v, b
        if k in ('bits', 'raw'):
            v = rng.choice([0, (1 << nd.size) - 1, r(nd.size)])
            return v, num(v, nd.size, en)
        if k == 'bytes':
            v = rbytes(rng, rng.choice([1, 2, nd.size // 8, nd.size // 8 + 1]))
            return v, bts(v, en)
        if k == 'str':
            v = bytes(rng.choice(b'xyz') for _ in range(rng.randrange(6)))
            return v, bts(v + b'\0', en)
        if k == 'pstr':
            v = rbytes(rng, rng.choice([0, 1, 7, 255]))
            return v, bts(bytes([len(v)]) + v, en)
        if k == 'char':
            v = r(8)
            return chr(v), num(v, 8, en)
        if k == 'mac':
            import datetime
            s = r(32)
            return datetime.datetime(1904, 1, 1) + datetime.timedelta(seconds=s), num(s, 32, en)
        if k == 'float':
            v = rng.choice([0.0, 1.5, -2.25, 1e10, 3.0])
            return v, bts(struct.pack(('>' if en == 'B' else '<') + ('f' if nd.size == 32 else 'd'), v), en)
        return None, None

    def new_leaf(parent, name):
        k = rng.choice(['int', 'bits', 'char', 'set'] + ([] if bit else ['bytes', 'str', 'pstr']))
        if k == 'set':
            nd = N('set', name, None, [])
            f = NewFieldSet(parent, name)
            for i in range(rng.randrange(3)):
                c, g = new_leaf(f, 'n%d' % i)
                f.insert(g)
                nd.kids.append(c)
            nd.new = True
            nd.handle = f
            return nd, f
        n = rng.choice([8, 16, 32, 24]) if k == 'int' else 8 if k == 'char' else rng.randrange(1, 20) if bit else 8 * rng.randrange(1, 4)
        nd = N(k, name, size=n, signed=rng.randrange(2))
        nd.new = True
        v, nd.bits = value_for(nd)
        nd.value = v
        if k == 'int':
            f = EditableInteger(parent, name, bool(nd.signed), n, v)
        elif k == 'bits':
            f = EditableBits(parent, name, n, v)
        elif k == 'char':
            f = EditableCharacter(parent, name, v)
        elif k == 'bytes':
            f = EditableBytes(parent, name, v)
        else:
            f = EditableString(parent, name, 'C' if k == 'str' else 'Pascal8', v)
        return nd, f

    def adopt(nd, f):
        if nd.kids is not None:
            handles[id(nd)] = nd.handle
            for c in nd.kids:
                if c.kids is not None:
                    adopt(c, c.handle)

    m = verify('before the edits')
    if m:
        return m
    if out() != raw(orig, en):
        return 'unedited output differs'
    serial = 0
    for step in range(case['ops']):
        allsets = list(sets(tree))
        path = rng.choice(allsets)
        nd, obj = path[-1], editor_of(path)
        act = rng.choice(['set', 'set', 'before', 'after', 'end', 'del', 'del', 'bad', 'reset', 'part'])
        what = 'step %d %s in %s' % (step, act, '/'.join(x.name for x in path[1:]) or '/')
        olds = [k for k in nd.kids if not k.new]
        if act == 'set':
            c = [k for k in olds if k.kids is None and k.kind not in ('unix', 'fake')]
            if bit:
                # bytes are written at byte addresses only
                c = [k for k in c if k.kind in ('int', 'bits', 'char', 'raw', 'mac')]
            if not c:
                continue
            k = rng.choice(c)
            if k.kind == 'float' and any(x.touched for x in k.parts):
                continue
            what += ' ' + k.name
            v, b = value_for(k)
            if rng.random() < .3 and len(path) > 1 and not any(x.new for x in path):
                ed['/'.join(x.name for x in path[1:]) + '/' + k.name].value = v
            else:
                obj[k.name].value = v
            k.bits, k.touched, k.value = b, True, v
        elif act == 'part':
            c = [k for k in olds if k.kind == 'float' and not k.touched]
            if not c:
                continue
            k = rng.choice(c)
            x = rng.choice([x for x in k.parts if x.kind == 'bits'])
            v = rng.randrange(1 << x.size)
            obj[k.name][x.name].value = v
            x.bits, x.touched = num(v, x.size, en), True
            k.bits, k.touched = ''.join(y.bits for y in k.parts), True
            k.parts = [N('x', '', touched=True)]
        elif act in ('before', 'after', 'end'):
            new = []
            for i in range(rng.choice([1, 1, 2, 3])):
                serial += 1
                # sometimes the name of a deleted field or of an array item
                name = 'new%d' % serial
                if nd.gone and rng.random() < .4:
                    name = nd.gone.pop()
                elif not nd.new and rng.random() < .2:
                    name = rng.choice(['item[]', 'x[]', 'other[]'])
                new.append(new_leaf(obj, name))
            if act == 'end':
                put, to = obj.insert, ()
                k, lo, hi = None, len(nd.kids), len(nd.kids)
            else:
                if not nd.kids:
                    continue
                k = rng.choice(nd.kids)
                what += ' ' + k.name
                put, to = (obj.insertBefore if act == 'before' else obj.insertAfter), (k.name,)
                # anywhere between the same original fields, on the right side
                lo = hi = nd.kids.index(k) + (act == 'after')
                if act == 'before':
                    while lo and nd.kids[lo - 1].new:
                        lo -= 1
                else:
                    while hi < len(nd.kids) and nd.kids[hi].new:
                        hi += 1
            try:
                put(*to, *[f for n_, f in new])
            except UniqKeyError:
                if not any(n_.name.endswith('[]') for n_, f in new):
                    raise
                # the chosen name is already used: refused
                m = verify(what)
                if m:
                    return m
                continue
            for n_, f in new:
                # the name of a new item of an array is chosen by the set
                if n_.name.endswith('[]'):
                    if f.name in [x.name for x in nd.kids] or f.name.rpartition('[')[0] != n_.name[:-2] or not f.name[len(n_.name) - 1:-1].isdigit():
                        return '%s: new item named %s' % (what, f.name)
                    n_.name = f.name
            got = [f.name for f in obj]
            at = got.index(new[0][0].name) if new[0][0].name in got else -1
            if not lo <= at <= hi:
                return '%s: the new fields are at %d of %r, expected %d..%d' % (what, at, got, lo, hi)
            nd.kids[at:at] = [n_ for n_, f in new]
            for n_, f in new:
                adopt(n_, f)
        elif act == 'del':
            if not nd.kids:
                continue
            k = rng.choice(nd.kids)
            what += ' ' + k.name
            if rng.random() < .3 and len(path) > 1 and not any(x.new for x in path):
                del ed['/'.join(x.name for x in path[1:]) + '/' + k.name]
            else:
                del obj[k.name]
            nd.kids.remove(k)
            if not k.new:
                nd.touched = True
                nd.gone.append(k.name)
        elif act == 'reset':
            if any(x.new for x in path):
                continue
            obj.reset()
        else:
            # refused edits change nothing
            bad = rng.randrange(4)
            try:
                if bad == 0:
                    del obj['nothing']
                elif bad == 1:
                    obj.insertAfter('nothing', EditableBits(obj, 'zz', 8, 1))
                elif bad == 2 and nd.kids:
                    k = rng.choice(nd.kids)
                    obj.insert(EditableBits(obj, k.name, 8, 1))
                elif bad == 3:
                    c = [k for k in olds if k.kind == 'int']
                    if not c:
                        continue
                    obj[rng.choice(c).name].value = 1 << 70
                else:
                    continue
            except (MissingField, UniqKeyError, ValueError):
                pass
            else:
                return '%s: case %d is accepted' % (what, bad)
        m = verify(what)
        if m:
            return m
    return None
