"""C18, the files which are found: which ones are stored, and where their bytes come from.
"""
import errno
import z3
from pyvc.core import RT, Sym, mkint, zint, iv, Unsupported
from pyvc.contract import Unit, expect
from contracts import lib
from contracts.lib import obj
from contracts.c16 import patched

SS = 'hachoir.subfile.search:SearchSubfile.'
OO = 'hachoir.subfile.output:Output.'


class Name(Sym):
    """a text made of a number; different numbers give different texts"""
    def __init__(self, fmt, n, ext=''):
        self.fmt, self.n, self.ext = fmt, n, ext

    def __add__(self, o):
        return Name(self.fmt, self.n, self.ext + o)

    def __bool__(self):
        return True


def m_mod(fmt, args):
    a = args if isinstance(args, tuple) else (args,)
    syms = [x for x in a if isinstance(x, Sym)]
    if not syms:
        return NotImplemented
    if len(a) == 1 and hasattr(syms[0], 'e'):
        return Name(fmt, syms[0])
    return Text('text')


class Text(Sym):
    """a message"""
    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return self

    __radd__ = __add__

    def __bool__(self):
        return True

    def __str__(self):
        return 'message'


def b_name():
    from hachoir.subfile.output import Output
    k = RT.input_int('file_id', 1)
    o = obj(Output, directory='dir', mkdir=False, file_id=k)
    ext = RT.choice([None, '', '.ext'], 'extension')
    kind, r = expect(OO + 'createFilename', Output.createFilename, o, *([ext] if ext is not None else []))
    RT.cover(kind)
    RT.prove(kind == 'ret' and isinstance(r, Name), 'file name: made of the number')
    if kind == 'exc' or not isinstance(r, Name):
        return
    t = [r.fmt % i for i in (0, 1, 2, 9, 10, 99, 100, 1234, 9999, 10000, 12345, 123450)]
    RT.prove(len(set(t)) == len(t), 'file name: different for different numbers')
    RT.prove(z3.And(zint(r.n) == k.e, zint(o.file_id) == k.e + 1), 'file name: a new number each time')
    RT.prove(r.ext == (ext or ''), 'file name: the extension')


def b_write():
    import hachoir.subfile.output as M
    from hachoir.stream import StreamError
    made = RT.choice([False, True], 'directory made before')
    how = RT.choice(['new', 'exists', 'refused'], 'directory')
    fails = RT.choice([False, True], 'copy fails')
    off, size = RT.input_int('offset', 0), RT.input_int('size', 1)
    dirs, outs, copies = [], [], []

    def m_mkdir(d):
        dirs.append(d)
        if how == 'exists':
            raise OSError(errno.EEXIST, 'exists')
        if how == 'refused':
            raise OSError(errno.EACCES, 'refused')
    stream = object()

    class Out:
        def copyBytesFrom(self, s, a, n):
            copies.append((s, a, n))
            if fails:
                raise StreamError('no')

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def m_out(name, *a):
        outs.append(name)
        return Out()
    o = obj(M.Output, directory='dir', mkdir=made, file_id=2)
    with patched(M, mkdir=m_mkdir, FileOutputStream=m_out):
        kind, r = expect(OO + 'writeFile', M.Output.writeFile, o, 'name', stream, off, size)
    RT.cover(kind)
    if kind == 'exc':
        RT.prove(not made and how == 'refused' and isinstance(r, OSError) and not outs, 'stored file: an error only if its directory cannot be made')
        return
    RT.prove(made or how != 'refused', 'stored file: the directory cannot be made')
    RT.prove(dirs == ([] if made else ['dir']) and o.mkdir, 'stored file: its directory is made once')
    RT.prove(outs == ['dir/name'] and r == 'dir/name', 'stored file: its place')
    RT.prove(len(copies) == 1 and copies[0][0] is stream, 'stored file: its bytes come from the stream')
    RT.prove(z3.And(zint(copies[0][1]) == off.e, 8 * zint(copies[0][2]) <= size.e, 8 * zint(copies[0][2]) > size.e - 8), 'stored file: the bytes of the file which was found')


def b_process():
    from hachoir.subfile import search as M
    sized = RT.choice([True, False], 'size known')
    cs = RT.input_int('content_size', 0) if sized else None
    off, total = RT.input_int('offset', 0), RT.input_int('stream_size', 1)
    made, written, asked = [], [], []

    class Par:
        content_size = cs
        description = 'description'
        filename_suffix = '.x'

    class Out:
        def createFilename(self, ext=None):
            made.append(ext)
            return 'name'

        def writeFile(self, name, stream, a, n):
            written.append((name, stream, a, n))
            return 'dir/name'
    out = RT.choice([True, False], 'output')
    filt = RT.choice([None, True, False], 'filter')
    st, par = object(), Par()

    def flt(p):
        asked.append(p)
        return filt
    s = obj(M.SearchSubfile, stream=st, output=Out() if out else None, filter=None if filt is None else flt, size=total, next_progress=0,
            start_offset=RT.input_int('start_offset', 0))
    with patched(M, time=lambda: 1.0, humanFilesize=lambda n: 'size'):
        M.print = lambda *a, **k: None
        try:
            kind, r = expect(SS + 'processParser', M.SearchSubfile.processParser, s, off, par)
        finally:
            del M.print
    RT.cover(kind)
    RT.prove(kind == 'ret', 'processParser: no error')
    if kind == 'exc':
        return
    RT.prove(all(p is par for p in asked), 'processParser: the filter is asked about this parser')
    if written:
        RT.prove(out and sized and filt is not False and len(written) == 1 and made == ['.x'], 'processParser: one file, of its kind')
        RT.prove(written[0][0] == 'name' and written[0][1] is st, 'processParser: from the stream')
        RT.prove(z3.And(zint(written[0][2]) == off.e, zint(written[0][3]) == cs.e, cs.e > 0), 'processParser: the bytes of the file which was found')
        RT.prove(z3.Not(z3.And(off.e == 0, cs.e == total.e)), 'processParser: the whole file is not copied')
    elif out and sized and filt is not False:
        RT.prove(z3.Or(cs.e == 0, z3.And(off.e == 0, cs.e == total.e), cs.e / 8 >= M.FILE_MAX_SIZE), 'processParser: a file which is found is stored')


CALLS = dict(lib.LOG_CALLS)
UNITS = [
    Unit('names of stored files', [OO + 'createFilename'], b_name, models={'str.mod': m_mod}),
    Unit('storing a file', [OO + 'writeFile', OO + 'createDirectory'], b_write, calls=CALLS),
    Unit('which files are stored', [SS + 'processParser'], b_process, calls=CALLS, models={'str.mod': m_mod}),
]
