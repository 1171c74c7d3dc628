"""C17: the text of an expression means the same to the re module.

The text of a part is an opaque text of which one thing is known, the contract
of its class: what it means, and whether it is one unit for a quantifier. The
text of a repetition, a sequence or an alternative is then read with the
grammar of the re module; characters and classes are read by the re module.
"""
import re
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre
import z3
from pyvc.core import RT, SInt, Sym, mkint, zint, iv, Unsupported
from pyvc.contract import Unit, expect
from contracts.lib import obj
from contracts.c16 import patched
from contracts.c17 import RX, module, Txt

# classes whose text is one unit for a quantifier (proved below); a text of one character is one too
ATOMS = ('RegexDot', 'RegexRange', 'RegexOr')
OTHERS = ('RegexEmpty', 'RegexWord', 'RegexStart', 'RegexEnd', 'RegexString', 'RegexAnd', 'RegexRepeat')


class T(Sym):
    """a text: pieces of characters, numbers, parts"""
    is_text = True
    _pyvc_name = 'text'

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif p != '':
                self.parts.append(p)

    @staticmethod
    def of(x):
        if isinstance(x, T):
            return x.parts
        if isinstance(x, str):
            return [x]
        if isinstance(x, (int, SInt)) and not isinstance(x, bool):
            return [('int', x)]
        raise Unsupported('text of %r' % type(x).__name__)

    def sym_str(self):
        return self

    def __str__(self):
        raise Unsupported('a text used as a plain one')

    def __add__(self, o):
        return T(self.parts + T.of(o))

    def __radd__(self, o):
        return T(T.of(o) + self.parts)


def m_mod(fmt, args):
    a = list(args) if isinstance(args, tuple) else [args]
    if not any(isinstance(x, Sym) for x in a):
        return NotImplemented
    out = []
    for i, p in enumerate(re.split(r'(%[sudi%])', fmt)):
        if i % 2 == 0:
            out.append(p)
        elif p == '%%':
            out.append('%')
        else:
            out += T.of(a.pop(0))
    if a or '%' in ''.join(p for p in re.split(r'%[sudi%]', fmt)):
        raise Unsupported('format %r' % fmt)
    return T(out)


def m_parts(sep, parts):
    out = []
    for i, p in enumerate(parts):
        out += ([sep] if i and sep else []) + T.of(p)
    return T(out)


class Child(Sym):
    """a part of an expression: its class, and its text"""
    _pyvc_name = 'expression'

    def __init__(self, cls, tag, **k):
        self.__dict__.update(k, cls=cls, tag=tag)

    @property
    def __class__(self):
        return self.cls

    def sym_isinstance(self, ts):
        return any(isinstance(t, type) and issubclass(self.cls, t) for t in ts)

    def sym_str(self):
        return T([self.tag])

    def __str__(self, **kw):
        return T([self.tag])

    def _str(self, **kw):
        return T([self.tag])


def get(name, f, *a, **k):
    kind, r = expect(RX + name, f, *a, **k)
    RT.prove(kind == 'ret', name + ': no error' + ('' if kind == 'ret' else ' (%s: %s)' % (type(r).__name__, r)))
    if kind != 'ret':
        RT.kill()
    return r


def quantifier(parts):
    """(min, max) of the text of a quantifier; max is 'none' without a limit, or None if it is no quantifier"""
    s = ''.join(p if isinstance(p, str) else '0' if p[0] == 'int' else '\0' for p in parts)
    if s in ('?', '*', '+'):
        return {'?': (0, 1), '*': (0, 'none'), '+': (1, 'none')}[s]
    m = re.fullmatch(r'\{(\d*)(,?)(\d*)\}', s)
    if not m or not (m[1] or m[3]):
        return None
    # which of the numbers are symbols
    flat = []
    for p in parts:
        flat += list(p) if isinstance(p, str) else [p]
    flat = flat[1:-1]
    if ',' in flat:
        i = flat.index(',')
        a, b = flat[:i], flat[i + 1:]
    else:
        a = b = flat

    def num(l, none):
        return none if not l else int(''.join(l)) if all(isinstance(x, str) for x in l) else l[0][1] if len(l) == 1 else none
    return num(a, 0), num(b, 'none')


def b_repeat():
    M = module()
    cls = RT.choice(list(ATOMS + OTHERS), 'class of the part')
    text = Txt.fresh('text', 1) if cls == 'RegexString' else None
    child = Child(getattr(M, cls), ('part',), **({'text': text} if text is not None else {}))
    lo = RT.input_int('min', 0)
    if RT.choice([True, False], 'limited'):
        hi = RT.input_int('max', 0)
        RT.assume(lo.e <= hi.e)
    else:
        hi = None
    r = obj(M.RegexRepeat, regex=child, min=lo, max=hi)
    python = RT.choice([{}, {'python': False}, {'python': True}], 'python')
    t = get('RegexRepeat._str', M.RegexRepeat._str, r, **python)
    ok = isinstance(t, T) and len([p for p in t.parts if p == ('part',)]) == 1
    RT.prove(ok, 'repetition: the text of the part, once')
    if not ok:
        return
    i = t.parts.index(('part',))
    before, after = t.parts[:i], t.parts[i + 1:]
    if before:
        ok = before in (['('], ['(?:']) and after and isinstance(after[0], str) and after[0][:1] == ')'
        RT.prove(ok, 'repetition: the part, or the part between parentheses')
        if not ok:
            return
        after = T([after[0][1:]] + after[1:]).parts
    elif cls == 'RegexString':
        RT.prove(zint(text.len_()) == 1, 'repetition: a text of several characters is repeated as a whole')
    else:
        RT.prove(cls in ATOMS, 'repetition: what is not one unit is put between parentheses')
    q = quantifier(after)
    RT.prove(q is not None, 'repetition: the text ends with a quantifier')
    if q is None:
        return
    RT.cover('repetition')
    RT.prove(zint(q[0]) == lo.e, 'repetition: the smallest number')
    if hi is None:
        RT.prove(isinstance(q[1], str), 'repetition: no greatest number')
    else:
        RT.prove(not isinstance(q[1], str) and zint(q[1]) == hi.e, 'repetition: the greatest number')


class Parts(Sym):
    """the parts of a sequence or an alternative, of any number"""
    _pyvc_name = 'parts'

    def len_(self):
        return RT.input_int('number of parts', 1)

    def sym_item(self, i):
        return Child(module().RegexString, ('item',))


class Joined(Sym):
    def __init__(self, parts):
        self.of = parts


def c_texts(it, f, kind):
    if isinstance(it, Parts):
        r = list(f([it.sym_item(iv(0))]))
        if len(r) != 1:
            raise Unsupported('a filter')
        r = r[0]
        RT.prove(isinstance(r, T) and r.parts == [('item',)], 'the text of each part, as it is')
        return Joined(it)
    if isinstance(it, Ranges):
        r = list(f([it.sym_item(iv(0))]))
        if len(r) != 1:
            raise Unsupported('a filter')
        r = r[0]
        RT.prove(isinstance(r, T) and r.parts == [('range',)], 'the text of each range, as it is')
        return Content()
    return NotImplemented


def m_join(sep, l):
    if isinstance(l, Joined):
        return T([('join', sep)])
    if isinstance(l, Content):
        if sep != '':
            RT.prove(False, 'class: nothing between the ranges')
        return T([('content', frozenset(l.removed))])
    raise Unsupported('str.join')


def b_seq(name):
    def body():
        M = module()
        x = obj(getattr(M, name), content=Parts())
        python = RT.choice([{}, {'python': False}, {'python': True}], 'python')
        t = get(name + '._str', getattr(M, name)._str, x, **python)
        RT.prove(isinstance(t, T), name + ': a text made of the parts')
        if isinstance(t, T):
            RT.cover('text')
            if name == 'RegexAnd':
                # the text of a part is never an alternative without parentheses (below)
                RT.prove(t.parts == [('join', '')] or t.parts == ['(?:', ('join', ''), ')'] or t.parts == ['(', ('join', ''), ')'], 'sequence: the parts one after the other')
            else:
                RT.prove(t.parts in (['(', ('join', '|'), ')'], ['(?:', ('join', '|'), ')']), 'alternative: the parts between bars and parentheses')
    return body


# ---------------------------------------------------------------- characters, classes

def literal(text, c):
    """text stands for the character c in an expression"""
    return text == c and c not in '^$.|?*+()[]{}\\' or len(text) == 2 and text[0] == '\\' and text[1] == c and not c.isalnum() and c < '\x80'


def b_escape():
    M = module()
    seen = []

    class Re:
        def __getattr__(self, n):
            return getattr(re, n)

        def sub(self, pattern, repl, text, *a, **k):
            seen.append(pattern)
            return re.sub(pattern, repl, text, *a, **k)
    chars = [chr(i) for i in range(0x110000)]
    with patched(M, re=Re()):
        kind, whole = expect(RX + 'escapeRegex', M.escapeRegex, ''.join(chars))
        bad = [c for c in chars[:0x500] + ['\u2028', '\ud800', '\udfff', '\U0010ffff'] if not literal(M.escapeRegex(c), c)]
    RT.prove(kind == 'ret', 'escapeRegex: no error')
    RT.prove(not bad, 'escapeRegex: a character stands for itself (%r)' % bad[:3])
    # the text of several characters: each its own text
    i, ok = 0, True
    for c in chars:
        n = 2 if whole[i:i + 1] == '\\' else 1
        ok = ok and literal(whole[i:i + n], c)
        i += n
    RT.prove(ok and i == len(whole), 'escapeRegex: the texts of the characters one after the other')
    RT.cover('escape')
    for p in seen:
        # replaced one by one, whatever stands around
        tree = sre.parse(p)
        flat = repr(list(tree)) + repr(getattr(tree, 'data', ''))
        RT.prove(tuple(tree.getwidth()) == (1, 1) and not re.search(r'\bAT\b|ASSERT', flat), 'escapeRegex: each character on its own')
    if not seen:
        # bounded: every pair of special and other characters
        al = '^$.|?*+()[]{}\\-a0 \n\xe9'
        RT.prove(all(M.escapeRegex(a + b + c) == M.escapeRegex(a) + M.escapeRegex(b) + M.escapeRegex(c) for a in al for b in al for c in al), 'escapeRegex: each character on its own')


def b_string():
    M = module()
    x = Txt.fresh('text', 1)
    asked = []

    def esc(t):
        asked.append(t)
        return T([('escaped',)])
    with patched(M, escapeRegex=esc):
        t = get('RegexString._str', M.RegexString._str, obj(M.RegexString, text=x))
    RT.prove(len(asked) == 1 and asked[0] is x and isinstance(t, T) and t.parts == [('escaped',)], 'the text of a text')
    RT.cover('text')


def b_leaf():
    """what the re module makes of the texts without parts"""
    M = module()
    for name, want in (('RegexEmpty', ''), ('RegexWord', r'\b'), ('RegexStart', '^'), ('RegexEnd', '$'), ('RegexDot', '.')):
        t = get(name + '._str', getattr(M, name)._str, obj(getattr(M, name)))
        RT.prove(isinstance(t, str) and repr(list(sre.parse(t))) == repr(list(sre.parse(want))), name + ': its text')
    RT.cover('texts')


def b_range_item():
    M = module()
    lo, hi = RT.input_int('cmin', 0, 0x10ffff), RT.input_int('cmax', 0, 0x10ffff)
    RT.assume(lo.e <= hi.e)
    x = obj(M.RegexRangeItem, cmin=lo, cmax=hi)
    t = get('RegexRangeItem.__str__', M.RegexRangeItem.__str__, x)
    RT.prove(isinstance(t, T), 'range: its text')
    if not isinstance(t, T):
        return
    p = t.parts
    code = [q[1] for q in p if not isinstance(q, str)]
    s = ''.join(q if isinstance(q, str) else 'c' for q in p)
    RT.prove(s in ('c', 'cc', 'c-c'), 'range: a character, two, or two with a dash')
    RT.cover(s)
    k = RT.input_int('character', 0).e
    a = [zint(v) for v in code]
    if s == 'c-c':
        inside = z3.And(a[0] <= k, k <= a[1])
        RT.prove(a[0] <= a[1], 'range: in order')
    else:
        inside = z3.Or([k == v for v in a])
    RT.prove(inside == z3.And(lo.e <= k, k <= hi.e), 'range: exactly its characters')


def c_escape(code):
    return T([('char', code)])


def b_range_escape():
    M = module()
    ok = True
    bad = None
    f = M.RegexRangeItem._escape
    for i in range(0x110000):
        c, t = chr(i), f(i)
        if not (t == c and c not in '\\^]-[' or t == c and c == '[' or len(t) == 2 and t[0] == '\\' and t[1] == c and not c.isalnum() and i < 128):
            ok, bad = False, i
    RT.prove(ok, 'a character of a class stands for itself (%r)' % bad)
    RT.cover('characters')


class Ranges(Sym):
    _pyvc_name = 'ranges'

    def len_(self):
        return RT.input_int('number of ranges', 1)

    def sym_item(self, i):
        return Child(module().RegexRangeItem, ('range',))


class Content(Sym):
    """the texts of the ranges: which are there is not known"""
    is_list = True
    _pyvc_name = 'texts'

    def __init__(self):
        self.removed, self.known = [], {}

    def sym_contains(self, x):
        if not isinstance(x, str):
            raise Unsupported('in')
        if x not in self.known:
            self.known[x] = RT.choice([True, False], 'there is %r' % x)
        return self.known[x]

    __contains__ = sym_contains

    def remove(self, x):
        RT.prove(self.sym_contains(x), 'class: only what is there is removed')
        self.removed.append(x)

    def copy(self):
        r = Content()
        r.removed, r.known = list(self.removed), self.known
        return r


def b_range():
    M = module()
    exclude = RT.choice([False, True], 'exclude')
    x = obj(M.RegexRange, ranges=Ranges(), exclude=exclude)
    python = RT.choice([{}, {'python': True}], 'python')
    t = get('RegexRange._str', M.RegexRange._str, x, **python)
    ok = isinstance(t, T) and len([p for p in t.parts if not isinstance(p, str)]) == 1
    RT.prove(ok, 'class: the texts of its ranges')
    if not ok:
        return
    RT.cover('class')
    # what was removed is given otherwise; read with several ranges in its place
    removed = [p for p in t.parts if not isinstance(p, str)][0][1]
    gone = set()
    for k in removed:
        RT.prove(len(k) == 2 and k[0] == '\\' or len(k) == 1, 'class: single characters are removed')
        gone.add(k[-1])
    for texts in (['k'], ['k-p'], ['kl'], ['\\^', 'k-p'], ['k-p', '\\^'], ['+-/', 'k'], ['k', '+-/'], *([[]] if removed else [])):
        s = ''.join(p if isinstance(p, str) else ''.join(texts) for p in t.parts)
        try:
            r = re.compile(s, re.S)
            rep = [c for c in map(chr, range(256)) if r.fullmatch(c)]
            two = r.fullmatch('kk') or r.fullmatch('') or sre.parse(s).getwidth()[1] != 1
        except re.error:
            rep, two = None, True
        m = set()
        for q in texts:
            m |= {'k': {'k'}, 'k-p': set('klmnop'), 'kl': set('kl'), '\\^': {'^'}, '+-/': set('+,-./')}[q]
        want = [c for c in map(chr, range(256)) if (c in m | gone) != exclude]
        RT.prove(rep == want and not two, 'class: the text %r means its characters' % s)


def b_cache():
    """the text is computed again for each way of writing it, and kept"""
    M = module()
    x = obj(M.RegexAnd)
    made = []

    def _str(**kw):
        made.append(kw.get('python', False))
        return 'text %s' % kw.get('python', False)
    x.__dict__['_str'] = _str
    for py in (False, True, False, True):
        kw = RT.choice([{}, {'python': False}], 'how') if not py else {'python': True}
        t = get('Regex.__str__', M.Regex.__str__, x, **kw)
        RT.prove(t == 'text %s' % py, 'the text is the one which is asked for')
    RT.cover('texts')


COMPS = lambda *n: {RX + k + '@%d' % i: c_texts for k in n for i in range(3)}
MODELS = {'str.mod': m_mod, 'str.join': m_join, 'str.join.parts': m_parts}
UNITS = [
    Unit('text of a repetition', [RX + 'RegexRepeat._str'], b_repeat, models=MODELS),
    Unit('text of a sequence', [RX + 'RegexAnd._str'], b_seq('RegexAnd'), models=MODELS, comps=COMPS('RegexAnd._str')),
    Unit('text of an alternative', [RX + 'RegexOr._str'], b_seq('RegexOr'), models=MODELS, comps=COMPS('RegexOr._str')),
    Unit('escaped characters', [RX + 'escapeRegex'], b_escape),
    Unit('text of a text', [RX + 'RegexString._str'], b_string),
    Unit('texts without parts', [RX + k + '._str' for k in ('RegexEmpty', 'RegexWord', 'RegexStart', 'RegexEnd', 'RegexDot')], b_leaf),
    Unit('text of a range', [RX + 'RegexRangeItem.__str__'], b_range_item, models=MODELS, calls={RX + 'RegexRangeItem._escape': c_escape}),
    Unit('characters of a class text', [RX + 'RegexRangeItem._escape'], b_range_escape),
    Unit('text of a class', [RX + 'RegexRange._str'], b_range, models=MODELS, comps=COMPS('RegexRange._str')),
    Unit('text kept', [RX + 'Regex.__str__'], b_cache),
]
