"""Driver of the code under test: imports /repo, runs conversions inside a scratch directory, observes outputs."""
import contextlib
import io
import json
import logging
import os
import resource
import shutil
import signal
import stat
import sys
import tempfile
import threading

from . import gen
from .model import Violation

REPO = gen.REPO
FORMATS = ("JSON", "JSON-B", "MARGO", "JARGO")


class Hang(BaseException):
    """the code under test burnt the CPU budget of one case"""


# ---------------------------------------------------------------- containment: nothing outside the scratch tree is ever written
class _Guard:
    def __init__(self):
        self.on = False
        self.root = None
        self.blocked = []
        self.fault = None  # callable(event, path): may raise OSError to simulate a failing file system

    def _path(self, p, dir_fd=None):
        if isinstance(p, int):
            return None
        p = os.fsdecode(p)
        if not os.path.isabs(p):
            if isinstance(dir_fd, int) and dir_fd >= 0:
                p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
            else:
                p = os.path.join(os.getcwd(), p)
        return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))

    def _inside(self, p):
        p = os.path.normpath(p)
        return p == self.root or p.startswith(self.root + os.sep) or p == "/dev/null"

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or path is None:
                return
            w = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if mode and any(c in mode for c in "wax+"):
                w = True
            if w:
                p = self._path(path)
                self._need(event, p)
                if self.fault:
                    self.fault("create", p)
            elif self.fault:
                self.fault("open", self._path(path))
        elif event in ("os.remove", "os.rmdir"):
            p = self._path(args[0], args[1])
            self._need(event, p)
            if self.fault:
                self.fault("remove", p)
        elif event == "os.mkdir":
            p = self._path(args[0], args[2])
            self._need(event, p)
            if self.fault:
                self.fault("mkdir", p)
        elif event in ("os.rename", "os.link"):
            self._need(event, self._path(args[0], args[2]))
            self._need(event, self._path(args[1], args[3]))
        elif event == "os.symlink":
            self._need(event, self._path(args[1], args[2]))
        elif event in ("shutil.rmtree",):
            self._need(event, self._path(args[0], args[1] if len(args) > 1 else None))
        elif event in ("shutil.copyfile", "shutil.move", "shutil.copymode", "shutil.copystat", "shutil.copytree"):
            self._need(event, self._path(args[1]))
            if event == "shutil.move":
                self._need(event, self._path(args[0]))
        elif event in ("os.truncate", "os.chmod", "os.chown", "os.utime", "shutil.chown", "os.setxattr", "os.removexattr"):
            if not isinstance(args[0], int):
                self._need(event, self._path(args[0]))
        elif event in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "pty.spawn", "os.kill", "os.killpg", "socket.connect", "socket.bind"):
            self.blocked.append((event, repr(args[:2])[:200]))
            raise PermissionError(f"blocked by the test harness: {event}")

    def _need(self, event, p):
        if p is not None and not self._inside(p):
            self.blocked.append((event, p))
            raise PermissionError(f"blocked by the test harness: {event} {p}")


GUARD = _Guard()
_installed = False
mods = {}


class Scratch:
    """scratch tree of one worker process"""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="verif-", dir=base))
        with open(os.path.join(self.root, ".pid"), "w") as f:
            f.write(str(os.getpid()))
        self.n = 0

    def new(self):
        self.n += 1
        d = os.path.join(self.root, f"c{self.n}")
        os.mkdir(d)
        return d

    def drop(self, d):
        assert os.path.realpath(d).startswith(self.root + os.sep)
        for p, ds, _ in os.walk(d):
            for x in ds:
                q = os.path.join(p, x)
                if not os.path.islink(q) and not os.access(q, os.W_OK | os.X_OK):
                    os.chmod(q, 0o700)
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


SCRATCH = None


def setup():
    """import the code under test (once per process)"""
    global _installed, SCRATCH
    if mods:
        return
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    SCRATCH = Scratch()
    sys.addaudithook(GUARD.hook)
    GUARD.root = SCRATCH.root
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.chdir(SCRATCH.root)
    logging.raiseExceptions = False
    sys.pycache_prefix = "/nonexistent"  # never read stale byte code of the tree under test
    with quiet():
        import importlib

        for name in ("controls", "converter_top", "decoder_top", "printer_top", "logger", "run_conversion", "gnss_types", "printers", "sub_decoders", "utilities"):
            mods[name] = importlib.import_module(name)
    for name, m in mods.items():
        f = os.path.realpath(m.__file__)
        assert f.startswith(os.path.realpath(REPO) + os.sep), (name, f)


class Captured:
    out = ""
    err = ""
    exit = None


@contextlib.contextmanager
def quiet():
    """capture stdout and stderr"""
    c = Captured()
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        try:
            yield c
        finally:
            c.out, c.err = o.getvalue(), e.getvalue()


CPU_LIMIT = 40.0


@contextlib.contextmanager
def guarded(limit=CPU_LIMIT):
    """containment + CPU watchdog around calls into the code under test"""
    def onalarm(signum, frame):
        raise Hang(f"more than {limit} s of CPU time in one case")

    use = threading.current_thread() is threading.main_thread()
    if use:
        old = signal.signal(signal.SIGPROF, onalarm)
        signal.setitimer(signal.ITIMER_PROF, limit)
    GUARD.on = True
    try:
        yield
    finally:
        GUARD.on = False
        GUARD.fault = None
        if use:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
        reset_logger()
    if GUARD.blocked:
        b, GUARD.blocked = GUARD.blocked, []
        raise Violation(f"attempt to touch something outside the working area: {b[0][0]} {os.path.basename(str(b[0][1]))}")


def reset_logger():
    lg = mods["logger"].LOGGER_CF
    try:
        lg.deinit()
    except Exception:
        pass
    for h in list(logging.getLogger("RTCMDEC").handlers):
        logging.getLogger("RTCMDEC").removeHandler(h)
    lg.ready = False


@contextlib.contextmanager
def no_raise(what=""):
    """exceptions escaping from the code under test are violations"""
    try:
        yield
    except (Violation, Hang):
        raise
    except (Exception, SystemExit, KeyboardInterrupt) as ex:
        GUARD.on = False
        raise Violation(f"{what}raised {type(ex).__name__}: {ex}") from ex


# ---------------------------------------------------------------- converters
def boxed(ctl=None):
    """controls object made from an ini file"""
    d = SCRATCH.new()
    p = os.path.join(d, "c.ini")
    with open(p, "w") as f:
        f.write(gen.ini_text(ctl or {}))
    with quiet(), no_raise("reading settings "):
        cc = mods["controls"].ConverterControls()
        cc.init_from_file(p)
        b = cc.boxed_controls
    SCRATCH.drop(d)
    if b is None:
        raise Violation("complete settings were refused")
    return b


_BOX = {}


def box_cached(ctl=None):
    k = json.dumps(ctl or {}, sort_keys=True)
    if k not in _BOX:
        if len(_BOX) > 200:
            _BOX.clear()
        _BOX[k] = boxed(ctl)
    return _BOX[k]


def new_converter(fmt, wd, ctl=None):
    c = mods["converter_top"].ConverterFactory(fmt)(wd, box_cached(ctl))
    if c is None:
        raise Violation(f"no converter for {fmt}")
    return c


STATS = ("decoding_attempts", "parsing_errors", "decoding_errors", "printing_attempts", "printing_errors")


def stats_of(conv):
    s = conv.get_statistics()
    return {k: getattr(s, k) for k in STATS}


class Out:
    """observation of one conversion"""

    def __init__(self):
        self.files = {}
        self.stats = None
        self.msgs = []
        self.nrec = 0
        self.log = None

    def json(self, num=None, path=None):
        p = path
        try:
            return load_json(self.files[p])
        except KeyError:
            raise Violation(f"output file {p} is missing; have {sorted(self.files)}") from None
        except ValueError as ex:
            raise Violation(f"output file {p} is not valid JSON: {ex}") from None


def _dup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("duplicate keys in a JSON object")
    return d


def load_json(b):
    return json.loads(b.decode("utf-8"), object_pairs_hook=_dup)


def read_tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as fh:
                out[os.path.relpath(q, d)] = fh.read()
    return out


def convert(fmt, data, ctl=None, chunks=None, flush=True):
    """bytes -> Out through the converter API"""
    d = SCRATCH.new()
    wd = os.path.join(d, "out")
    os.mkdir(wd)
    o = Out()
    try:
        with quiet(), guarded(), no_raise("conversion "):
            c = new_converter(fmt, wd, ctl)
            pos = 0
            for n in chunks if chunks is not None else [len(data)]:
                _feed(c, o, c.parse_bytes(data[pos : pos + n]))
                pos += n
            if flush:
                while True:
                    ms = c.flush()
                    if not ms:
                        break
                    _feed(c, o, ms)
            c.release()
            o.stats = stats_of(c)
        o.files = read_tree(wd)
    finally:
        SCRATCH.drop(d)
    return o


def _feed(c, o, msgs):
    for m in msgs:
        o.msgs.append(bytes(m))
        r = c.decode(m)
        if r is not None:
            o.nrec += 1
            c.print(r)


def convert_frames(fmt, frames, ctl=None):
    """already extracted messages -> Out"""
    d = SCRATCH.new()
    wd = os.path.join(d, "out")
    os.mkdir(wd)
    o = Out()
    try:
        with quiet(), guarded(), no_raise("conversion "):
            c = new_converter(fmt, wd, ctl)
            _feed(c, o, frames)
            c.release()
            o.stats = stats_of(c)
        o.files = read_tree(wd)
    finally:
        SCRATCH.drop(d)
    return o


# ---------------------------------------------------------------- command line
def write_file(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def cli(argv, cwd, stdin=None, patch=None, local=None, allow_exit=False):
    """run main() with an argument vector inside cwd; -> Captured.  Exceptions are violations."""
    rc = mods["run_conversion"]
    old_argv, old_cwd = sys.argv, os.getcwd()
    answers = list(stdin or [])

    def fake_input(prompt=""):
        print(prompt, end="")
        if not answers:
            raise EOFError("no more input")
        return answers.pop(0)

    import builtins

    old_input = builtins.input
    sys.argv = ["run_conversion.py"] + list(argv)
    os.chdir(cwd)
    builtins.input = fake_input
    try:
        with quiet() as cap:
            with guarded(), no_raise("main() "):
                with patch or contextlib.nullcontext():
                    try:
                        rc.main(local) if local is not None else rc.main()
                    except SystemExit as ex:
                        if not allow_exit:
                            raise
                        cap.exit = ex.code if ex.code is not None else 0
    finally:
        builtins.input = old_input
        sys.argv = old_argv
        os.chdir(old_cwd)
    return cap


def cli_convert(fmt, sources, ctl=None, ini=None, patch=None, keep=None, explicit_fmt=True):
    """{name: bytes} -> {name: Out}, files placed in one scratch directory, one run"""
    d = keep or SCRATCH.new()
    try:
        write_file(os.path.join(d, "defaults.ini"), gen.ini_text(ctl or {}))
        for n, b in sources.items():
            write_file(os.path.join(d, n), b)
        argv = (["-o", fmt] if explicit_fmt else []) + (["-i", ini] if ini else []) + [os.path.join(d, n) for n in sources]
        cap = cli(argv, d, patch=patch)
        res = {}
        for n in sources:
            res[n] = cli_out(d, n, fmt)
        return res, cap
    finally:
        if not keep:
            SCRATCH.drop(d)


def cli_out(d, name, fmt):
    o = Out()
    stem = os.path.splitext(name)[0]
    fld = os.path.join(d, f"{stem}-{fmt}")
    if not os.path.isdir(fld):
        return None
    o.files = read_tree(fld)
    lg = o.files.pop(f"{os.path.basename(stem)}-log.txt", None)
    o.log = lg.decode("utf-8", "replace") if lg is not None else None
    return o


PROGRESS = r"(\d+\.\d+)%, (\d+) messages, prs-dec-prnt errors (\d+)-(\d+)-(\d+)\."


def run(fmt, data, ctl=None, via="api", chunks=None):
    """one stream through the API or the command line"""
    if via == "api":
        return convert(fmt, data, ctl, chunks)
    res, _ = cli_convert(fmt, {"s.rtcm3": data}, ctl)
    o = res["s.rtcm3"]
    if o is None or o.log is None:
        raise Violation("no output folder or log")
    return o


def snapshot(d):
    """path -> (kind, content or None) of everything under d"""
    out = {}
    for p, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d)] = ("dir", None)
        for x in fs:
            q = os.path.join(p, x)
            st_ = os.lstat(q)
            if stat.S_ISREG(st_.st_mode):
                with open(q, "rb") as f:
                    out[os.path.relpath(q, d)] = ("file", f.read())
            else:
                out[os.path.relpath(q, d)] = ("other", None)
    return out
