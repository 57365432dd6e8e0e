"""Files: a virtual file system (it.env['fs']: path -> Text or any other object), paths, open files, downloads.

The content of a text file is a string whose abstract parts have known widths (fixed.py)."""

import posixpath

from . import fixed as F
from . import interp as I
from . import symstr
from .arrays import PyExc
from .interp import CONSTS, EXT_TYPES, GenVal, model
from .m_builtins import EXT_MODULES
from .terms import AnalysisGap, Loc
from .values import Builtin, ExtVal, Obj, SymStr


class Fs:
    def __init__(self, files=None, dirs=(), dialects=None):
        self.files = dict(files or {})      # path -> str / SymStr / Obj
        self.dirs = set(dirs) | {'.', '/'}
        for p in self.files:
            self.dirs.add(posixpath.dirname(p) or '.')
        self.log = []                       # (operation, path)

    def exists(self, p):
        return p in self.files or p in self.dirs or any(d.startswith(p.rstrip('/') + '/') for d in self.dirs)


def fs_of(it):
    fs = it.env.get('fs')
    if fs is None:
        raise AnalysisGap('a file is used')
    return fs


def path_text(it, p):
    if isinstance(p, PathObj):
        return p.path
    if isinstance(p, str):
        return posixpath.normpath(p) if p else p
    raise AnalysisGap(f'path given as {it.tname(p)}')


class PathObj(Obj):
    tname = 'PosixPath'

    def __init__(self, path):
        self.path = posixpath.normpath(path)

    def __eq__(self, o):
        return isinstance(o, PathObj) and o.path == self.path

    def __hash__(self):
        return hash(('path', self.path))

    def str(self, it):
        return self.path

    def format(self, it, spec):
        return format(self.path, spec)

    def compare(self, it, op, o):
        same = isinstance(o, PathObj) and o.path == self.path
        if op in ('==', '!='):
            return same == (op == '==')
        return {'<': self.path < o.path, '<=': self.path <= o.path, '>': self.path > o.path, '>=': self.path >= o.path}[op]

    def binop(self, it, op, o, rev):
        if op != '/':
            raise PyExc(TypeError, f'unsupported operand type(s) for {op}')
        a, b = path_text(it, self), path_text(it, o)
        return PathObj(posixpath.join(b, a) if rev else posixpath.join(a, b))

    def m_joinpath(self, it, *a):
        return PathObj(posixpath.join(self.path, *[path_text(it, x) for x in a]))

    def p_parent(self, it):
        return PathObj(posixpath.dirname(self.path) or '.')

    def p_name(self, it):
        return posixpath.basename(self.path)

    def p_stem(self, it):
        return posixpath.splitext(posixpath.basename(self.path))[0]

    def p_suffix(self, it):
        return posixpath.splitext(self.path)[1]

    def m_with_suffix(self, it, s):
        return PathObj(posixpath.splitext(self.path)[0] + s)

    def m_with_name(self, it, s):
        return PathObj(posixpath.join(posixpath.dirname(self.path), s))

    def m_as_posix(self, it):
        return self.path

    m___fspath__ = m_as_posix

    def m_expanduser(self, it):
        return self

    m_resolve = lambda self, it, *a, **k: self     # noqa: E731
    m_absolute = m_expanduser

    def m_exists(self, it):
        return fs_of(it).exists(self.path)

    def m_is_file(self, it):
        return self.path in fs_of(it).files

    def m_is_dir(self, it):
        return fs_of(it).exists(self.path) and self.path not in fs_of(it).files

    def m_mkdir(self, it, mode=0o777, parents=False, exist_ok=False):
        fs = fs_of(it)
        if fs.exists(self.path):
            if not exist_ok or self.path in fs.files:
                raise PyExc(FileExistsError, self.path)
            return None
        up = posixpath.dirname(self.path) or '.'
        if not parents and not fs.exists(up):
            raise PyExc(FileNotFoundError, self.path)
        fs.dirs.add(self.path)
        return None

    def m_unlink(self, it, missing_ok=False):
        remove(it, self.path, missing_ok)

    def m_rename(self, it, target):
        rename(it, self, target)
        return PathObj(path_text(it, target))

    m_replace = m_rename

    def m_open(self, it, mode='r', *a, **k):
        return open_file(it, self, mode)

    def m_read_text(self, it, *a, **k):
        f = open_file(it, self, 'r')
        r = f.m_read(it)
        f.m_close(it)
        return r

    def m_write_text(self, it, data, *a, **k):
        f = open_file(it, self, 'w')
        f.m_write(it, data)
        f.m_close(it)
        return F.is_fixed(data) and len(F.chars(data))

    def m_glob(self, it, *a):
        raise AnalysisGap('Path.glob')

    m_iterdir = m_rglob = m_stat = m_glob


def remove(it, p, missing_ok=False):
    fs = fs_of(it)
    if p not in fs.files:
        if missing_ok:
            return
        raise PyExc(FileNotFoundError, p)
    fs.log.append(('unlink', p))
    del fs.files[p]


def rename(it, a, b):
    fs = fs_of(it)
    a, b = path_text(it, a), path_text(it, b)
    if a not in fs.files:
        raise PyExc(FileNotFoundError, a)
    fs.files[b] = fs.files.pop(a)
    fs.log.append(('write', b))


for _n in ('Path', 'PurePath', 'PosixPath', 'PurePosixPath'):
    I.MODELS['pathlib.' + _n] = lambda it, *a: PathObj(posixpath.join(*[path_text(it, x) for x in a] or ['.']))
    EXT_TYPES['pathlib.' + _n] = lambda it, v: isinstance(v, PathObj)
I.MODELS['pathlib.Path.cwd'] = lambda it: PathObj('.')
EXT_TYPES['os.PathLike'] = lambda it, v: isinstance(v, PathObj)

I.MODELS['os.path.join'] = lambda it, *a: posixpath.join(*[path_text(it, x) for x in a])
I.MODELS['os.path.exists'] = lambda it, p: fs_of(it).exists(path_text(it, p))
I.MODELS['os.path.isfile'] = lambda it, p: path_text(it, p) in fs_of(it).files
I.MODELS['os.path.isdir'] = lambda it, p: PathObj(path_text(it, p)).m_is_dir(it)
I.MODELS['os.path.dirname'] = lambda it, p: posixpath.dirname(path_text(it, p))
I.MODELS['os.path.basename'] = lambda it, p: posixpath.basename(path_text(it, p))
I.MODELS['os.path.abspath'] = lambda it, p: path_text(it, p)
I.MODELS['os.path.splitext'] = lambda it, p: posixpath.splitext(path_text(it, p))
I.MODELS['os.fspath'] = path_text
I.MODELS['os.remove'] = lambda it, p: remove(it, path_text(it, p))
I.MODELS['os.unlink'] = I.MODELS['os.remove']
I.MODELS['os.replace'] = rename
I.MODELS['os.rename'] = rename
I.MODELS['os.makedirs'] = lambda it, p, mode=0o777, exist_ok=False: PathObj(path_text(it, p)).m_mkdir(it, parents=True, exist_ok=exist_ok)
I.MODELS['os.mkdir'] = lambda it, p, mode=0o777: PathObj(path_text(it, p)).m_mkdir(it)


# ---------------------------------------------------------------------------
# open files

class FileObj(Obj):
    tname = 'TextIOWrapper'

    def __init__(self, path, mode, lines):
        self.path, self.mode = path, mode
        self.queue = lines          # the lines not read yet
        self.closed = False
        self.loc = Loc.cur

    def _use(self, mode):
        if self.closed:
            raise PyExc(ValueError, 'I/O operation on closed file.')
        if mode == 'r' and 'r' not in self.mode and '+' not in self.mode:
            raise PyExc(OSError, 'not readable')
        if mode == 'w' and self.mode[0] == 'r' and '+' not in self.mode:
            raise PyExc(OSError, 'not writable')

    def stream(self, it):
        self._use('r')
        return GenVal.over(self.queue)

    def iterate(self, it):
        return self.stream(it).take()

    def m___enter__(self, it):
        self._use(None)
        return self

    def m___exit__(self, it, *a):
        self.closed = True
        return None

    def m_close(self, it):
        self.closed = True

    def p_closed(self, it):
        return self.closed

    def p_name(self, it):
        return self.path

    def m_flush(self, it):
        return None

    def m_read(self, it, n=-1):
        self._use('r')
        if n not in (-1, None):
            # a file may be longer than any number of characters
            return self.queue.pop(0) if self.queue else ''
        return symstr.join(GenVal.over(self.queue).take())

    def m_readlines(self, it, hint=-1):
        self._use('r')
        if hint not in (-1, None, 0):
            # a file may be longer than any number of characters
            return [self.queue.pop(0)] if self.queue else []
        return self.iterate(it)

    def m_readline(self, it, size=-1):
        self._use('r')
        return self.queue.pop(0) if self.queue else ''

    def m___next__(self, it):
        self._use('r')
        if not self.queue:
            raise PyExc(StopIteration, '')
        return self.queue.pop(0)

    def m_write(self, it, s):
        self._use('w')
        fs = fs_of(it)
        fs.files[self.path] = symstr.join([fs.files.get(self.path, ''), s])
        return None

    def m_writelines(self, it, xs):
        for x in it.to_list(xs):
            self.m_write(it, x)

    def m_seek(self, it, n, whence=0):
        self._use(None)
        if n != 0 or whence != 0:
            raise AnalysisGap('seek')
        self.queue[:] = lines_of(fs_of(it).files[self.path])
        return 0

    def m_tell(self, it):
        raise AnalysisGap('tell')


def lines_of(text):
    if not isinstance(text, (str, SymStr)):
        raise PyExc(UnicodeDecodeError, 'not a text file')
    return F.splitlines(text, True) if text != '' else []


def open_file(it, path, mode='r'):
    fs = fs_of(it)
    p = path_text(it, path)
    m = mode.replace('t', '')
    if 'b' in m:
        raise AnalysisGap('a binary file')
    fs.log.append((m[0], p))
    if m[0] == 'r':
        if p not in fs.files:
            raise PyExc(FileNotFoundError, f'No such file or directory: {p}')
        f = FileObj(p, m, lines_of(fs.files[p]))
    elif m[0] in 'wax':
        if not fs.exists(posixpath.dirname(p) or '.'):
            raise PyExc(FileNotFoundError, f'No such file or directory: {p}')
        if m[0] == 'x' and p in fs.files:
            raise PyExc(FileExistsError, p)
        if m[0] != 'a' or p not in fs.files:
            fs.files[p] = ''
        f = FileObj(p, m, [])
    else:
        raise PyExc(ValueError, f'invalid mode: {mode!r}')
    it.opened.append(f)
    return f


I.MODELS['io.open'] = lambda it, path, mode='r', *a, **k: open_file(it, path, mode)


@model('io.StringIO')
def _stringio(it, text=''):
    return FileObj('<string>', 'r', lines_of(text))


class Closing(Obj):
    def __init__(self, v):
        self.v = v

    def m___enter__(self, it):
        return self.v

    def m___exit__(self, it, *a):
        it.call(it.getattr(self.v, 'close'), [])


I.MODELS['contextlib.closing'] = lambda it, v: Closing(v)


# ---------------------------------------------------------------------------
# downloads: it.env['download'] gives the text served for a url

class Pool(Obj):
    tname = 'PoolManager'

    def m_request(self, it, method, url, *a, **k):
        return Response(it, url)

    m_urlopen = m_request

    def m_clear(self, it):
        return None

    def m___enter__(self, it):
        return self

    def m___exit__(self, it, *a):
        return None


class Response(Obj):
    tname = 'HTTPResponse'

    def __init__(self, it, url):
        h = it.env.get('download')
        if h is None:
            raise AnalysisGap('a download')
        self.body = h(it, url)

    def p_data(self, it):
        return self.body

    p_text = p_data
    p_content = p_data

    def m_read(self, it, *a):
        return self.body

    def p_status(self, it):
        return 200

    p_status_code = p_status
    p_ok = lambda self, it: True     # noqa: E731

    def m_raise_for_status(self, it):
        return None

    def m_release_conn(self, it):
        return None

    m_close = m_release_conn
    m___exit__ = lambda self, it, *a: None     # noqa: E731

    def m___enter__(self, it):
        return self


EXT_MODULES.add('urllib3')
I.MODELS['urllib3.PoolManager'] = lambda it, *a, **k: Pool()
I.MODELS['urllib3.request'] = lambda it, method, url, *a, **k: Response(it, url)
I.MODELS['urllib.request.urlopen'] = lambda it, url, *a, **k: Response(it, url)
I.MODELS['requests.get'] = lambda it, url, *a, **k: Response(it, url)
