"""C09: value, display, raw display and description of a field are computed at most once and never raise.

create*() is arbitrary code: it returns any object or raises any ordinary
error (an exception of a class the code under contract cannot know), and may
itself read the other three attributes. The state of a field for these
attributes is which of them were read before, so the unit reads an arbitrary
attribute, possibly with other reads before it, in between and after it.

Every class which replaces one of the four getters is found by importing the
whole package (in a separate process, not instrumented), and each getter found
is run as a unit; a getter on an instance of the smallest class it serves.
"""
import subprocess
import sys
import os
import json
import importlib
from pyvc.core import RT
from pyvc.contract import Unit, expect
from contracts import lib

PROP = 'C09'
ATTRS = ('value', 'display', 'raw_display', 'description')
CREATE = dict(value='createValue', display='createDisplay', raw_display='createRawDisplay', description='createDescription')
REPO = os.environ.get('PYVC_REPO', '/repo')

SCAN = r'''
import sys, os, pkgutil, importlib, json
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
sys.argv = ['x']
out = os.fdopen(os.dup(1), 'w')
d = os.open(os.devnull, os.O_RDWR)
os.dup2(d, 0), os.dup2(d, 1), os.dup2(d, 2)
import hachoir
from hachoir.field import Field
for m in pkgutil.walk_packages(hachoir.__path__, 'hachoir.'):
    if m.name.endswith('.__main__') or '.qt' in m.name or '.gtk' in m.name or '.wx' in m.name:
        continue
    try:
        importlib.import_module(m.name)
    except BaseException:
        pass
seen, todo = {Field}, [Field]
while todo:
    for c in todo.pop().__subclasses__():
        if c not in seen:
            seen.add(c)
            todo.append(c)
res = {}
for c in seen:
    for a in %r:
        for k in c.__mro__:
            if a in k.__dict__:
                break
        key = '%%s|%%s|%%s' %% (k.__module__, k.__qualname__, a)
        old = res.get(key)
        new = (len(c.__mro__), c.__module__, c.__qualname__)
        if old is None or new < old[:3]:
            res[key] = new + (0,)
n = len(seen)
json.dump([n, sorted([k.split('|'), list(v[1:3])] for k, v in res.items())], out)
''' % (ATTRS,)

_found = []


def found():
    """[(owner module, owner class, attribute), (module, class)]"""
    if not _found:
        r = subprocess.run([sys.executable, '-c', SCAN, REPO], capture_output=True, text=True, timeout=120)
        n, l = json.loads(r.stdout)
        _found.extend([n, l])
    return _found


class AnyError(Exception):
    """an ordinary error of a class unknown to the code"""


class AnyAttributeError(AttributeError):
    pass


def resolve(mod, name):
    o = importlib.import_module(mod)
    for p in name.split('.'):
        o = getattr(o, p)
    return o


def m_printable(*a, **k):
    g = RT.ghost
    if RT.choice([False, True], 'the description cannot be made printable'):
        g['failed'].add('description')
        raise AnyError('text')
    t = ''.join(['printable ', str(len(g['texts']))])
    g['texts'].append(t)
    return t


def m_log(log, level, text, ctxt=None):
    if level == log.LOG_ERROR:
        RT.ghost['logged'] += 1


LOG = {'hachoir.core.log:Log.newMessage': m_log}


def make(c, description):
    """a field of class c as its constructor leaves it, and an arbitrary parent"""
    from hachoir.field import Field
    p = lib.obj(Field, nextFieldAddress=lambda: 0, _parent=None, _name='p', _address=0)
    f = lib.obj(c)
    Field.__init__(f, p, 'f', 8, description)
    return f


def driver(attr, owner):
    def body():
        g = RT.ghost
        l = [x for x in found()[1] if x[0] == owner]
        if not l:
            # nothing uses this getter any more
            return
        c = resolve(*l[0][1])
        given = 'given' if attr == 'description' and RT.choice([False, True], 'description given') else None
        f = make(c, given)
        g['failed'], g['texts'], g['logged'] = set(), [], 0
        calls = dict.fromkeys(ATTRS, 0)
        results = {}
        what = RT.choice(['text', 'none', 'object', 'error', 'attribute error', 'reads others'], 'computation of ' + attr)
        others = [a for a in ATTRS if a != attr]

        def creator(a):
            def create():
                calls[a] += 1
                w = what if a == attr else 'text'
                if w == 'reads others':
                    for b in others:
                        getattr(f, b)
                    w = 'text'
                if w == 'error':
                    raise AnyError('text')
                if w == 'attribute error':
                    raise AnyAttributeError('text')
                r = {'text': ''.join(['text of ', a]), 'none': None, 'object': object()}[w]
                results[a] = r
                return r
            return create
        for a in ATTRS:
            setattr(f, CREATE[a], creator(a))

        def read(a):
            before = g['logged']
            kind, r = expect('%s:%s.%s' % (owner[0], owner[1], a) if a == attr else None, getattr, f, a)
            RT.prove(kind == 'ret', '%s: reading never raises' % a)
            return r, g['logged'] - before
        between = RT.choice([None] + others, 'read before')
        if between:
            read(between)
        n0 = calls[attr]
        r1, logged = read(attr)
        if given:
            RT.prove(r1 is given and not calls[attr], 'a given description is reported as it is')
        elif what in ('error', 'attribute error') or attr in g['failed']:
            want = [None] if attr == 'value' else ['']
            if attr == 'description' and hasattr(c, 'PARSER_TAGS'):
                want = [c.PARSER_TAGS['description']]
            RT.prove(any(r1 is w or (w is not None and r1 == w) for w in want), '%s: a failed computation yields nothing' % attr)
            RT.prove(logged >= 1, '%s: a failed computation is logged' % attr)
        elif attr != 'description':
            RT.prove(r1 is results[attr], '%s: the computed object is returned' % attr)
        elif what in ('text', 'reads others'):
            RT.prove(g['texts'] and r1 is g['texts'][-1], 'description: the computed text, made printable')
        elif what == 'object':
            RT.prove(r1 is results[attr], 'description: the computed object is returned')
        RT.prove(calls[attr] <= 1, '%s: computed at most once' % attr)
        for b in others:
            read(b)
        n1 = calls[attr]
        r2, again = read(attr)
        RT.prove(r2 is r1, '%s: every later read returns the same object' % attr)
        RT.prove(calls[attr] == n1 and n1 <= 1, '%s: computed at most once' % attr)
        if what == 'error' and not given:
            RT.cover('error')
        RT.cover('read')
    return body


def b_found():
    """every getter of the four attributes that some class uses is one of those verified"""
    n, l = found()
    RT.prove(n >= 100, 'the field classes of the package are found')
    for (mod, cls, a), rep in l:
        RT.prove((mod, cls, a) in OWNERS, 'the getter %s of %s.%s is verified' % (a, mod, cls))
    RT.cover('found')


def b_default():
    """what Field itself offers as computation of the display"""
    from hachoir.field import Field
    g = RT.ghost
    g['failed'], g['texts'], g['logged'] = set(), [], 0
    f = make(Field, None)
    raises = RT.choice([False, True], 'the value cannot be computed')

    def create():
        g['n'] = g.get('n', 0) + 1
        if raises:
            raise AnyError('text')
        return 'some text'
    f.createValue = create
    a = RT.choice(['display', 'raw_display'], 'which')
    kind, r = expect(None, getattr, f, a)
    RT.prove(kind == 'ret', 'the default display never raises')
    if raises:
        RT.prove(r == 'None', 'the default display of a field without value')
    elif a == 'display':
        RT.prove(r == 'some text', 'the default display is the text of the value')
    else:
        RT.prove(g['texts'] and r is g['texts'][-1] or r == '', 'the default raw display is the printable text of the value')
    kind, r = expect(None, getattr, f, 'value')
    RT.prove(g['n'] == 1, 'the displays share one computation of the value')
    kind, r = expect('hachoir.field.field:Field.hasValue', f.hasValue)
    RT.prove(kind == 'ret' and r is (not raises), 'hasValue() tells whether there is a value')
    RT.cover('error' if raises else 'ok')


def b_links():
    """links between the fragments of a file: the value is the fragment, without computing itself through the display"""
    from hachoir.field import Fragment, Field
    g = RT.ghost
    g['failed'], g['texts'], g['logged'] = set(), [], 0
    first_known, has_next = RT.choice([True, False], 'first known'), RT.choice(['field', 'function', None], 'next')
    p = lib.obj(Field, nextFieldAddress=lambda: 0, _parent=None, _name='p', _address=0)
    other = lib.obj(Fragment, _name='o', _parent=p, _address=0)
    nxt = lib.obj(Fragment, _name='n', _parent=p, _address=0)
    me = lib.obj(Fragment, _name='m', _parent=p, _address=0, _current_size=0)
    if first_known:
        other._first = other
        me.setLinks(other, {'field': nxt, 'function': lambda: nxt, None: None}[has_next])
    else:
        me.setLinks(None, None)
        has_next = None
        nxt = None
    data = object()
    l = list(me._createFields(iter([data])))
    want = ([('first', other)] if first_known else []) + ([('next', nxt)] if has_next else [])
    RT.prove(len(l) == len(want) + 1 and l[-1] is data, 'links: the fields of a fragment')
    for link, (name, target) in zip(l, want):
        for a in RT.choice([('value', 'display'), ('display', 'value')], 'order'):
            kind, r = expect(None, getattr, link, a)
            RT.prove(kind == 'ret' and (r is target if a == 'value' else r == '/' + target._name), 'links: the %s of the link to the %s fragment' % (a, name))
    RT.prove(g['logged'] == 0, 'links: no error')
    RT.cover('links')


class Out:
    def __init__(self):
        self.text = []

    def write(self, t):
        self.text.append(t)

    def flush(self):
        pass


def b_log():
    """an error is always reported, once, whatever the configuration"""
    import hachoir.core.config as config
    from hachoir.core.log import Log
    import hachoir.core.log as mod
    from hachoir.field import Field
    log = Log()
    old = (config.quiet, config.verbose, config.debug, sys.stderr, mod.log)
    out = Out()
    got = []
    try:
        mod.log = log
        config.debug = False
        config.quiet, config.verbose = RT.choice([False, True], 'quiet'), RT.choice([False, True], 'verbose')
        log.use_print, log.use_buffer = RT.choice([True, False], 'print'), RT.choice([False, True], 'buffer')
        log.on_new_message = lambda level, prefix, text, ctxt: got.append((level, text, ctxt))
        sys.stderr = out
        f = make(Field, None)
        kind, r = expect('hachoir.core.log:Logger.error', f.error, 'the message')
    finally:
        config.quiet, config.verbose, config.debug, sys.stderr, mod.log = old
    RT.prove(kind == 'ret', 'error: never raises')
    RT.prove(len(got) == 1 and got[0][0] == Log.LOG_ERROR and got[0][1] == 'the message' and got[0][2] is f, 'error: reported once')
    if log.use_print:
        RT.prove(len(out.text) == 1 and 'the message' in out.text[0], 'error: printed')
    RT.cover('logged')


FM, PM = 'hachoir.field.field', 'hachoir.parser.parser'
OWNERS = [(FM, 'Field', a) for a in ATTRS] + [(PM, 'HachoirParser', 'description')]
CALLS = dict(LOG, **{'hachoir.core.tools:makePrintable': m_printable, 'hachoir.core.tools:makeUnicode': m_printable})
UNITS = [Unit('%s of %s' % (a, c), ['%s:%s.%s' % (m, c, a)], driver(a, [m, c, a]), calls=CALLS) for m, c, a in OWNERS]
UNITS += [
    Unit('getters', [], b_found),
    Unit('default computations', ['hachoir.field.field:Field.createDisplay', 'hachoir.field.field:Field.createRawDisplay', 'hachoir.field.field:Field.hasValue'], b_default, calls=CALLS),
    Unit('links of fragments', ['hachoir.field.link:Link.createValue', 'hachoir.field.link:Link.createDisplay', 'hachoir.field.link:Fragment._createFields', 'hachoir.field.link:Fragment._getNext'], b_links, calls=CALLS),
    Unit('error log', ['hachoir.core.log:Log.newMessage', 'hachoir.core.log:Logger.error'], b_log),
]
BOUNDED = []
