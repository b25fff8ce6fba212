"""Stand-ins for the file system, pickle and the user cache directory, and a loader for the functions of
data/encounter/__init__.py that runs them against the stand-ins.

The functions are taken from the current source (module level calls that read game resources are left out, the
bodies of the cached loaders are replaced by a recorded computation, everything else is executed as it is).  Every
operation on the file system is one step; a step may be the one at which the run is interrupted.

    kind 0  the process is killed: nothing runs any more, of unflushed data an arbitrary prefix is in the file
    kind 1  KeyboardInterrupt is raised from the step, the code may clean up
    kind 2  the operation fails with OSError (no space left), the code may clean up

Used by both the symbolic engine and the replay on the real code; step numbers, prefix lengths and kinds may be
symbolic values, truth tests on which fork the path."""
import ast
import errno
import io
import os as _os
import pathlib as _pathlib
import pickle as _pickle
import sys
import threading
import types

sys.path.append(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), ".."))
from vlib.ctx import CTX, MergeAbort, Unsupported, EngineError  # noqa: E402

REPO = _os.environ.get("VERIF_REPO", "/repo")
MOD = "numba_pokemon_prngs.data.encounter"
TOTAL = 8      # bytes of a complete pickle in the model: lengths 0, 1..7 and 8 are nothing, a part, all of it
CACHE = "/cache/numba_pokemon_prngs"


class Killed(BaseException):
    """the process is gone"""


class Bytes:
    """the first n of the TOTAL bytes that represent value"""

    def __init__(self, value, n):
        self.value, self.n = value, n

    def __bool__(self):
        return bool(self.n > 0)

    def __len__(self):
        return int(self.n)

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            if len(o) == 0:
                return not self
            return False
        return isinstance(o, Bytes) and o.value is self.value and bool(self.n == o.n)

    __hash__ = None


class Node:
    """an inode: what a reader sees now, and what the open handle still buffers"""

    def __init__(self):
        self.value, self.n = None, 0
        self.pending = None


class Disk:
    """shared by all processes"""

    def __init__(self):
        self.files = {}
        self.dirs = {"/", "/cache", "/tmp"}


class Proc:
    """one run of the program: its view of the disk and the point at which it is interrupted"""

    pids = 100

    def __init__(self, disk, at=None, kind=0, keep=TOTAL, pid=None, sched=None):
        if CTX.journals:
            raise MergeAbort("a run in a merged arm")
        self.disk, self.at, self.kind, self.keep, self.sched = disk, at, kind, keep, sched
        if pid is None:
            Proc.pids += 1
            pid = Proc.pids
        self.pid = pid
        self.n = 0
        self.dead = False
        self.handles = {}
        self.computed = 0

    def step(self, commit=None):
        """one operation; `commit` is what an operation that fails half way leaves behind"""
        if self.dead:
            raise Killed()
        if self.sched is not None:
            self.sched.step()
        self.n += 1
        if self.at is None or not self.at == self.n - 1:
            return
        self.at = None
        if self.kind == 0:
            self.dead = True
            for h in list(self.handles.values()):
                h.lose(self.keep)
            if commit:
                commit(self.keep)
            raise Killed()
        if commit:
            commit(self.keep)
        if self.kind == 1:
            raise KeyboardInterrupt()
        raise OSError(errno.ENOSPC, "No space left on device")

    # ---- files
    def path(self, p):
        if hasattr(p, "__fspath__"):
            p = p.__fspath__()
        if not isinstance(p, str):
            raise Unsupported(f"fsmodel: path {type(p).__name__}")
        return _os.path.normpath(p)

    def open(self, name, mode="r", *a, **k):
        if isinstance(name, int):
            return self.handles[name]
        self.step()
        p = self.path(name)
        if "b" not in mode:
            raise Unsupported("fsmodel: text mode")
        d = self.disk.files
        if _os.path.dirname(p) not in self.disk.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        if "x" in mode:
            if p in d:
                raise FileExistsError(errno.EEXIST, "File exists", p)
            d[p] = Node()
        elif "w" in mode:
            if p not in d:
                d[p] = Node()
            d[p].value, d[p].n = None, 0
        elif "a" in mode:
            raise Unsupported("fsmodel: append")
        elif p not in d:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        h = Handle(self, d[p], p, mode)
        self.handles[h.fd] = h
        return h

    def remove(self, p, *a, **k):
        self.step()
        p = self.path(p)
        if p not in self.disk.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        del self.disk.files[p]

    def replace(self, a, b, *_, **k):
        self.step()
        a, b = self.path(a), self.path(b)
        if a not in self.disk.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        self.disk.files[b] = self.disk.files.pop(a)

    def exists(self, p):
        self.step()
        p = self.path(p)
        return p in self.disk.files or p in self.disk.dirs

    def isfile(self, p):
        self.step()
        return self.path(p) in self.disk.files

    def isdir(self, p):
        self.step()
        return self.path(p) in self.disk.dirs

    def getsize(self, p):
        self.step()
        p = self.path(p)
        if p not in self.disk.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        return self.disk.files[p].n

    def makedirs(self, p, mode=0o777, exist_ok=False):
        self.step()
        p = self.path(p)
        if p in self.disk.dirs:
            if not exist_ok:
                raise FileExistsError(errno.EEXIST, "File exists", p)
            return
        while p not in self.disk.dirs:
            self.disk.dirs.add(p)
            p = _os.path.dirname(p)

    # ---- the modules a run sees
    def modules(self):
        proc = self

        class OsPath(types.ModuleType):
            exists = staticmethod(self.exists)
            lexists = exists
            isfile = staticmethod(self.isfile)
            isdir = staticmethod(self.isdir)
            getsize = staticmethod(self.getsize)

            def __getattr__(s, n):
                if n in ("join", "dirname", "basename", "splitext", "split", "normpath", "sep", "isabs", "abspath"):
                    return getattr(_os.path, n)
                raise Unsupported(f"fsmodel: os.path.{n}")

        path = OsPath("os.path")

        class Stat:
            def __init__(s, n):
                s.st_size = n

        class Os(types.ModuleType):
            replace = staticmethod(self.replace)
            rename = staticmethod(self.replace)
            remove = staticmethod(self.remove)
            unlink = staticmethod(self.remove)
            makedirs = staticmethod(self.makedirs)
            getpid = staticmethod(lambda: proc.pid)
            fsync = staticmethod(lambda fd: proc.step())
            stat = staticmethod(lambda p: Stat(proc.getsize(p)))
            fdopen = staticmethod(lambda fd, *a, **k: proc.handles[fd])
            close = staticmethod(lambda fd: proc.handles[fd].close())
            write = staticmethod(lambda fd, b: proc.handles[fd].write(b))
            environ = {}

            def __getattr__(s, n):
                if n in ("sep", "name", "linesep", "fspath", "PathLike", "error"):
                    return getattr(_os, n)
                raise Unsupported(f"fsmodel: os.{n}")

        os_ = Os("os")
        os_.path = path

        class Path(_pathlib.PurePosixPath):
            def exists(s):
                return proc.exists(s)

            def is_file(s):
                return proc.isfile(s)

            def is_dir(s):
                return proc.isdir(s)

            def mkdir(s, mode=0o777, parents=False, exist_ok=False):
                proc.makedirs(s, exist_ok=exist_ok)

            def open(s, mode="r", *a, **k):
                return proc.open(s, mode)

            def read_bytes(s):
                with proc.open(s, "rb") as f:
                    return f.read()

            def write_bytes(s, data):
                with proc.open(s, "wb") as f:
                    return f.write(data)

            def replace(s, t):
                proc.replace(s, t)
                return Path(t)

            rename = replace

            def unlink(s, missing_ok=False):
                try:
                    proc.remove(s)
                except FileNotFoundError:
                    if not missing_ok:
                        raise

            def stat(s):
                return Stat(proc.getsize(s))

        pathlib_ = types.ModuleType("pathlib")
        pathlib_.Path = Path
        pathlib_.PurePath = pathlib_.PurePosixPath = _pathlib.PurePosixPath

        pk = types.ModuleType("pickle")
        pk.UnpicklingError, pk.PickleError, pk.PicklingError = (_pickle.UnpicklingError, _pickle.PickleError,
                                                                _pickle.PicklingError)
        pk.HIGHEST_PROTOCOL, pk.DEFAULT_PROTOCOL = 5, 4

        def dumps(v, *a, **k):
            return Bytes(v, TOTAL)

        def loads(b, *a, **k):
            if not isinstance(b, Bytes):
                raise TypeError("a bytes-like object is required")
            if bool(b.n == 0):
                raise EOFError("Ran out of input")
            if not b.n == TOTAL:
                raise _pickle.UnpicklingError("pickle data was truncated")
            return b.value
        pk.dumps, pk.loads = dumps, loads
        pk.dump = lambda v, f, *a, **k: f.write(Bytes(v, TOTAL)) and None
        pk.load = lambda f, *a, **k: loads(f.read())

        tf = types.ModuleType("tempfile")

        def temp(suffix=None, prefix=None, dir=None):
            proc.temps = getattr(proc, "temps", 0) + 1
            return proc.open(f"{dir or '/tmp'}/{prefix or 'tmp'}{proc.pid}x{proc.temps}{suffix or ''}", "xb")
        tf.mkstemp = lambda suffix=None, prefix=None, dir=None, text=False: (
            lambda h: (h.fd, h.name))(temp(suffix, prefix, dir))

        def named(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None,
                  delete=True, **k):
            if delete:
                raise Unsupported("fsmodel: self-deleting temporary file")
            return temp(suffix, prefix, dir)
        tf.NamedTemporaryFile = named
        tf.gettempdir = lambda: "/tmp"

        sh = types.ModuleType("shutil")
        sh.move = lambda a, b, *_, **k: proc.replace(a, b)

        pd = types.ModuleType("platformdirs")
        pd.user_cache_dir = lambda *a, **k: CACHE
        pd.user_cache_path = lambda *a, **k: Path(CACHE)

        iom = types.ModuleType("io")
        iom.open = self.open
        iom.BytesIO = io.BytesIO
        return {"os": os_, "os.path": path, "pathlib": pathlib_, "pickle": pk, "tempfile": tf, "shutil": sh,
                "platformdirs": pd, "io": iom}


class Handle:
    fds = 1000

    def __init__(self, proc, node, name, mode):
        Handle.fds += 1
        self.fd, self.proc, self.node, self.name, self.mode = Handle.fds, proc, node, name, mode
        self.closed = False
        self.buf = None

    def fileno(self):
        return self.fd

    def read(self, n=-1):
        self.proc.step()
        if n is not None and not isinstance(n, int) or n is not None and n >= 0:
            raise Unsupported("fsmodel: partial read")
        if self.node.value is None:
            return Bytes(None, 0)
        return Bytes(self.node.value, self.node.n)

    def write(self, b):
        if isinstance(b, Bytes):
            v = b.value
        else:
            raise Unsupported("fsmodel: other bytes")
        if self.buf is not None:
            raise Unsupported("fsmodel: second write")

        def part(keep):
            self.node.value, self.node.n = v, keep
        self.proc.step(part)
        self.buf = v
        # what another process sees before the data is flushed
        part(self.proc.keep)
        return b.n

    def flush(self):
        if self.buf is None:
            return
        v, self.buf = self.buf, None
        self.proc.step(lambda keep: (setattr(self.node, "value", v), setattr(self.node, "n", keep)))
        self.node.value, self.node.n = v, TOTAL

    def lose(self, keep):
        """the process died with data in its buffer"""
        if self.buf is not None:
            self.node.value, self.node.n = self.buf, keep
            self.buf = None

    def truncate(self, n=0):
        self.proc.step()
        self.node.value, self.node.n, self.buf = None, 0, None

    def seek(self, *a):
        self.proc.step()

    def close(self):
        if self.closed or self.proc.dead:
            return
        self.closed = True
        try:
            self.flush()
        finally:
            self.proc.handles.pop(self.fd, None)
        self.proc.step()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


# ------------------------------------------------------------------ the code
_CODE = {}


def _uses(node, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(node))


def source(bodies=False):
    """[(what, ast of one statement)] of the module; with `bodies` the loaders keep their bodies"""
    path = _os.path.join(REPO, *MOD.split("."), "__init__.py")
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read(), path)
    heavy = {"pkg_resources"}
    for s in tree.body:
        if isinstance(s, ast.ImportFrom) and s.module and "fbs" in s.module:
            heavy |= {a.asname or a.name for a in s.names}
    cached = []
    out = []
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            if any(isinstance(d, ast.Call) and not _uses(ast.Module(d.args, []), heavy) for d in s.decorator_list):
                cached.append(s.name)
                heavy.add(s.name)
                if bodies:
                    out.append(s)
                    continue
                a = s.args
                names = [x.arg for x in a.posonlyargs + a.args]
                s.body = [ast.Return(ast.Call(ast.Name("__compute__", ast.Load()),
                                              [ast.Constant(s.name)] + [ast.Name(n, ast.Load()) for n in names], []))]
                s.returns = None
            out.append(s)
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.ClassDef)):
            out.append(s)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)) and not _uses(s, set(cached) if bodies else heavy):
            out.append(s)
    return path, out, cached


def compiled(symbolic, bodies=False):
    key = bool(symbolic), bool(bodies)
    if key not in _CODE:
        path, stmts, cached = source(bodies)
        codes = []
        for s in stmts:
            m = ast.Module([s], [])
            if symbolic:
                from vlib import instrument as I
                rw = I.Rewriter(MOD, path)
                m.body = rw.body(m.body)
            ast.fix_missing_locations(m)
            codes.append((isinstance(s, (ast.FunctionDef, ast.ImportFrom, ast.Import)), compile(m, path, "exec")))
        _CODE[key] = codes, cached
    return _CODE[key]


def cached_names():
    return source()[2]


def load(bi, proc, compute, symbolic, resources=None):
    """the module's functions as this process has them; with `resources` (name -> document) the loaders compute their
    tables from these documents instead of calling `compute`"""
    if isinstance(bi, types.ModuleType):
        bi = vars(bi)
    codes, cached = compiled(symbolic, resources is not None)
    mods = proc.modules()
    fbs = {}
    if resources is not None:
        mods.update(resource_modules(resources))
        fbs = mods.pop("fbs")
    base = bi["__import__"]

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if fbs and "fbs" in name.split("."):
            return fbs
        if not level and name in mods:
            return mods[name] if fromlist or "." not in name else mods[name.split(".")[0]]
        return base(name, globals, locals, fromlist, level)
    g = {"__name__": MOD, "__package__": MOD, "__builtins__": {**bi, "__import__": imp, "open": proc.open},
         "__path__": [_os.path.join(REPO, *MOD.split("."))]}

    def comp(name, *args):
        proc.step()
        proc.computed += 1
        return compute(g, name, *args)
    g["__compute__"] = comp
    if symbolic:
        from vlib import instrument as I
        g.update({"__rt__": I.RT, "__merge__": I.merge_values,
                  "__armerr__": (Exception, I.MergeAbort, I.Infeasible)})
    for needed, c in codes:
        if needed:
            exec(c, g)
        else:
            try:
                exec(c, g)
            except Exception:  # noqa: BLE001 - a constant the stand-ins cannot provide; using it fails visibly
                pass
    return g


class Resource:
    """an open resource, its text or its bytes: all stand for the document"""

    def __init__(self, doc):
        self.doc = doc

    def read(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    close = __exit__


class Anchor:
    """importlib.resources.files(...) and what joinpath makes of it"""

    def __init__(self, get, name=""):
        self.get, self.name = get, name

    def joinpath(self, *n):
        return Anchor(self.get, n[-1].rsplit("/", 1)[-1])

    __truediv__ = joinpath

    def open(self, *a, **k):
        return self.get(None, self.name)

    read_text = read_bytes = open


def resource_modules(docs):
    """stand-ins for importlib.resources, json and the FlatBuffer record classes: reading a resource, parsing JSON
    and decoding records all give the document itself"""
    def get(package, name, *a, **k):
        if name not in docs:
            raise FileNotFoundError(errno.ENOENT, "No such resource", name)
        return Resource(docs[name])
    res = types.ModuleType("importlib.resources")
    res.open_text = res.open_binary = res.read_text = res.read_binary = get
    res.files = lambda package: Anchor(get)
    il = types.ModuleType("importlib")
    il.resources = res

    js = types.ModuleType("json")
    js.load = js.loads = lambda f, **k: f.doc

    class Fbs(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return lambda blob, *a: blob.doc
    return {"importlib": il, "importlib.resources": res, "json": js, "fbs": Fbs("fbs")}


# ------------------------------------------------------------------ histories
def run(bi, symbolic, disk, compute, work, at=None, kind=0, keep=TOTAL, sched=None, pid=None):
    """one run of the program: ('ok', result, computed) or ('cut', None, computed)"""
    p = Proc(disk, at, kind, keep, pid, sched)
    try:
        g = load(bi, p, compute, symbolic)
        r = work(g)
        return "ok", r, p.computed
    except (Killed, KeyboardInterrupt):
        return "cut", None, p.computed
    except OSError as e:
        if e.errno == errno.ENOSPC:
            return "cut", None, p.computed
        raise


class Sched:
    """two runs interleaved step by step: control changes hands before each global step listed in `at`"""

    def __init__(self, at):
        self.at = at
        self.n = 0
        self.cur = 0
        self.cv = threading.Condition()
        self.done = [False, False]
        self.abort = False
        self.ids = {}

    def step(self):
        me = self.ids[threading.get_ident()]
        if self.abort:
            raise Killed()
        self.n += 1
        k = self.n - 1
        for a in self.at:
            if a == k:
                self._hand(me)
                break

    def _hand(self, me):
        with self.cv:
            if self.done[1 - me]:
                return
            self.cur = 1 - me
            self.cv.notify_all()
            while self.cur != me and not self.abort:
                self.cv.wait()
        if self.abort:
            raise Killed()

    def both(self, f, g):
        res = [None, None]
        err = []

        def body(i, fn):
            with self.cv:
                self.ids[threading.get_ident()] = i
                while self.cur != i:
                    self.cv.wait()
            try:
                if not self.abort:
                    res[i] = fn()
            except BaseException as e:  # noqa: BLE001
                if not isinstance(e, Killed) or not self.abort:
                    err.append(e)
                self.abort = True
            with self.cv:
                self.done[i] = True
                self.cur = 1 - i
                self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(i, fn)) for i, fn in enumerate((f, g))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if err:
            e = next((e for e in err if isinstance(e, EngineError)), err[0])
            raise e
        return res


def symbolic(np):
    from vlib import symnp
    return np is symnp.MODULE
