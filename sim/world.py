"""The simulated world around the code under test.

One `World` owns, for one run: the clock, numpy's global random stream, the
linear-algebra seams (where computation costs simulated time and can fail),
the file system seam, and the event log.  Nothing in here draws randomness:
every fault is listed explicitly in the plan, so that a plan is one exactly
repeatable execution.

Fault list entries (plain JSON objects):
  {"seam": S, "n": N, "act": A, ...}
where S is a seam name or a prefix such as "la" (all linear algebra), N the
1-based occurrence of that seam (counted per seam name pattern), and A one of
  "raise"       {"exc": name, "when": "before"|"after"}
  "stall"       {"dt": seconds}    simulated time jumps forward
  file seams:   "enospc", "eio", "eacces", "short", "torn", "race_dir",
                "race_file", "enoent"
"""
import builtins
import errno
import hashlib
import io
import os
import re
import shutil
import sys
import tempfile
import time
import timeit

import numpy as np
import scipy.linalg
import scipy.optimize

from . import env

import qutip
import qutip.core.data as _qdata


class SimHang(BaseException):
    """The run used up its step budget: no progress."""


class SimCrash(BaseException):
    """The simulated process died here (only durable state survives)."""


EXC = {
    "MemoryError": lambda: MemoryError("injected: allocation failed"),
    "LinAlgError": lambda: np.linalg.LinAlgError(
        "injected: eigenvalues did not converge"
    ),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("injected: ctrl-c"),
    "FloatingPointError": lambda: FloatingPointError("injected: fp trap"),
    "OSError": lambda: OSError(errno.EIO, "injected: i/o error"),
    "RuntimeError": lambda: RuntimeError("injected: library failure"),
    "SimCrash": lambda: SimCrash("injected: process crash"),
}

_REAL_OPEN = builtins.open
_REAL_IO_OPEN = io.open
_REAL_MAKEDIRS = os.makedirs
_REAL_MKDIR = os.mkdir

# Where computation happens: (display name, module, attribute)
_LA_TARGETS = [
    ("la.expm", scipy.linalg, "expm"),
    ("la.expm_frechet", scipy.linalg, "expm_frechet"),
    ("la.inv", scipy.linalg, "inv"),
    ("la.eigh", scipy.linalg, "eigh"),
    ("la.eigs", _qdata, "eigs"),
]


def _collect_la_bindings():
    """Every binding of a seam function reachable from the SUT's modules."""
    out = []
    import qutip_qtrl.dynamics as d

    targets = list(_LA_TARGETS)
    if hasattr(d, "eigh"):
        targets.append(("la.eigh", d, "eigh"))
    for name, mod, attr in targets:
        orig = getattr(mod, attr, None)
        if orig is None:
            continue
        out.append((name, mod, attr, orig))
        for mname, m in sorted(sys.modules.items()):
            if m is None or not (
                mname == "qutip_qtrl" or mname.startswith("qutip_qtrl.")
            ):
                continue
            if m is mod:
                continue
            for a, v in sorted(vars(m).items(), key=lambda kv: kv[0]):
                if v is orig:
                    out.append((name, m, a, orig))
    seen = set()
    res = []
    for name, m, a, o in out:
        if (id(m), a) not in seen:
            seen.add((id(m), a))
            res.append((name, m, a, o))
    return res


_LA_BINDINGS = _collect_la_bindings()

# The minimisers: entry points of scipy.optimize and every alias of them
_MIN_NAMES = ("minimize", "fmin", "fmin_bfgs", "fmin_l_bfgs_b")


def _collect_min_bindings():
    out = []
    for name in _MIN_NAMES:
        orig = getattr(scipy.optimize, name)
        out.append((name, scipy.optimize, name, orig))
        for mname, m in sorted(sys.modules.items()):
            if m is not None and mname.startswith("qutip_qtrl."):
                for a, v in sorted(vars(m).items(), key=lambda kv: kv[0]):
                    if v is orig:
                        out.append((name, m, a, orig))
    return out


_MIN_BINDINGS = _collect_min_bindings()

# The uniform random numbers, and every alias of them
_RAND_NAMES = ("random", "rand", "random_sample", "ranf", "sample", "uniform")


def _collect_rand_bindings():
    out = []
    for name in _RAND_NAMES:
        orig = getattr(np.random, name)
        out.append((name, np.random, name))
        for mname, m in sorted(sys.modules.items()):
            if m is not None and mname.startswith("qutip_qtrl."):
                for a, v in sorted(vars(m).items(), key=lambda kv: kv[0]):
                    if v is orig:
                        out.append((name, m, a))
    return out


_RAND_BINDINGS = _collect_rand_bindings()


def _aliases(orig):
    """Where modules of the library hold this object under a name of their own
    (from x import y)"""
    out = []
    for mname, m in sorted(sys.modules.items()):
        if m is not None and (
            mname == "qutip_qtrl" or mname.startswith("qutip_qtrl.")
        ):
            for a, v in sorted(vars(m).items(), key=lambda kv: kv[0]):
                if v is orig and not a.startswith("__"):
                    out.append((m, a))
    return out


# The clocks, the file system, and every alias of them
_CLOCKS = (
    (timeit, "default_timer"),
    (time, "time"),
    (time, "perf_counter"),
    (time, "monotonic"),
    (time, "process_time"),
)
_CLOCK_BINDINGS = [
    b for m, a in _CLOCKS for b in [(m, a)] + _aliases(getattr(m, a))
]
_CLOCK_NS_BINDINGS = [
    b
    for a in ("time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns")
    for b in [(time, a)] + _aliases(getattr(time, a))
]
_SLEEP_BINDINGS = [(time, "sleep")] + _aliases(time.sleep)
_OPEN_BINDINGS = [(builtins, "open"), (io, "open")] + _aliases(io.open)
_MAKEDIRS_BINDINGS = [(os, "makedirs")] + _aliases(os.makedirs)
_MKDIR_BINDINGS = [(os, "mkdir")] + _aliases(os.mkdir)
_QOBJ_MUL = qutip.Qobj.__mul__
_QOBJ_ADD = qutip.Qobj.__add__
_QOBJ_EXPM = qutip.Qobj.expm


class FaultyRaw(io.RawIOBase):
    """Raw file whose writes/reads go through the fault plan."""

    def __init__(self, world, path, rel, flags_mode):
        self._w = world
        self._rel = rel
        self._f = _REAL_IO_OPEN(path, flags_mode, buffering=0)
        self._mode = flags_mode
        self.name = path

    @property
    def mode(self):
        return self._mode

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        return self._f.truncate(*a)

    def fileno(self):
        return self._f.fileno()

    def readinto(self, b):
        act = self._w._fs_fault("fs.read", self._rel)
        if act is not None:
            k = act["act"]
            if k == "short":
                n = max(1, min(len(b), int(act.get("bytes", 1))))
                return self._f.readinto(memoryview(b)[:n])
            raise self._w._fs_error(k, self._rel)
        return self._f.readinto(b)

    def write(self, b):
        b = bytes(b)
        if self._w.dead:
            return len(b)  # buffers of a dead process are lost
        w = self._w
        if w.sticky and w.fs_armed:
            # the device keeps failing
            w.sticky[1] -= 1
            kind = w.sticky[0]
            if w.sticky[1] <= 0:
                w.sticky = None
            w.fs_log.append(("fs.write", kind, self._rel))
            raise w._fs_error(kind, self._rel)
        act = w._fs_fault("fs.write", self._rel)
        if act is not None:
            k = act["act"]
            n = min(len(b), int(act.get("bytes", 1)))
            if k == "short":
                # a legal short write: the buffered layer must retry
                return self._f.write(b[:max(1, n)])
            if k == "torn":
                # part of the data reaches the file, then the device fails
                n = min(n, len(b) - 1)
                if n > 0:
                    self._f.write(b[:n])
                if act.get("crash"):
                    raise w.crash()
                if n > 0:
                    w.sticky = ["eio", int(act.get("sticky", 1))]
                    return n
                k = "eio"
            if act.get("sticky"):
                w.sticky = [k, int(act["sticky"])]
            raise w._fs_error(k, self._rel)
        return self._f.write(b)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._f.close()
            w = self._w
            if w.fs_armed and not w.dead and any(
                c in self._mode for c in "wax+"
            ):
                act = w._fs_fault("fs.close", self._rel)
                if act is not None:
                    raise w._fs_error(act["act"], self._rel)


class World:
    def __init__(
        self,
        faults=(),
        costs=None,
        t0=1024.0,
        np_seed=0,
        max_steps=20000,
        use_fs=True,
        clock_skews=None,
    ):
        self.faults = [dict(f) for f in faults]
        self.costs = dict(costs or {})
        self.now = float(t0)
        self.t0 = float(t0)
        self.np_seed = np_seed
        self.clock_seam = any("clock" in f["seam"] for f in self.faults)
        self.max_steps = max_steps
        self.steps = 0
        self.use_fs = use_fs
        self.counts = {}
        self.fired = {}
        self.events = []
        self.advance_by = {}
        self.scratch = None
        self.home = None
        self.cwd = None
        self.armed = True
        self.fs_armed = True
        self.dead = False
        self.sticky = None
        self.blk = None  # block size of the file system, as for its buffers
        self.hooks = []  # callables(name, n) observing seams
        self._saved = None
        self.fs_log = []
        self.injected = []
        self.race = None  # what another process does in a "race_call"
        self.minim = None  # object standing between the code and scipy
        self.rand = None  # callable(n) -> n uniform numbers in [0, 1)
        self.draws = 0
        self.scope = None  # name of the running thread

    # -- event log --------------------------------------------------------
    def ev(self, *parts):
        self.events.append(" ".join(_fmt(p) for p in parts))

    def log_hash(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(e.encode())
            h.update(b"\n")
        return h.hexdigest()

    # -- clock ------------------------------------------------------------
    def clock(self):
        if self.clock_seam:
            f = self._match("clock")
            if f is not None:
                self._fired(f)
                self.advance(f["dt"], "clock")
        return self.now

    def advance(self, dt, why=""):
        self.now += dt
        self.advance_by[why] = self.advance_by.get(why, 0.0) + dt

    # -- generic seam -----------------------------------------------------
    def _match(self, name):
        """Count this occurrence and return the fault to apply, if any."""
        hit = None
        parts = name.split(".")
        names = [".".join(parts[: i + 1]) for i in range(len(parts))]
        if self.scope is not None:
            names += [self.scope + "." + n for n in names]
        for nm in names:
            self.counts[nm] = self.counts.get(nm, 0) + 1
        if not self.armed:
            return None
        for f in self.faults:
            if f.get("done"):
                continue
            if f["seam"] in names and self.counts[f["seam"]] == f["n"]:
                f["done"] = True
                hit = f
                break
        return hit

    def _fired(self, f):
        k = re.sub(r"^t\d+\.", "", f["seam"]).split(".")[0] + ":" + f["act"]
        if f.get("crash"):
            k += ":crash"
        if f["act"] == "raise":
            k += ":" + f["exc"]
        self.fired[k] = self.fired.get(k, 0) + 1
        self.ev("FAULT", f["seam"], f["n"], k)

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimHang("step budget of {} used".format(self.max_steps))

    def seam(self, name, fn, *args, **kwargs):
        self.step()
        f = self._match(name)
        cost = self.costs.get(name, self.costs.get(name.split(".")[0], 0.0))
        if f is not None and f["act"] == "raise" and f.get(
            "when", "before"
        ) == "before":
            self._fired(f)
            raise self._inject(f)
        if f is not None and f["act"] == "stall":
            self._fired(f)
            self.advance(f["dt"], name)
        r = fn(*args, **kwargs)
        if cost:
            self.advance(cost, name)
        for h in self.hooks:
            h(name)
        if f is not None and f["act"] == "raise" and f.get("when") == "after":
            self._fired(f)
            raise self._inject(f)
        return r

    def crash(self):
        """The process dies: from now on nothing reaches the disk."""
        e = EXC["SimCrash"]()
        e.sim_injected = True
        self.injected.append(e)
        self.dead = True
        return e

    def _inject(self, f):
        if f["exc"] == "SimCrash":
            return self.crash()
        e = EXC[f["exc"]]()
        e.sim_injected = True
        self.injected.append(e)
        return e

    def point(self, name):
        """A seam with nothing behind it (e.g. the minimiser's own work)."""
        return self.seam(name, lambda: None)

    # -- file system ------------------------------------------------------
    def _fs_error(self, kind, rel):
        no = {
            "enospc": errno.ENOSPC,
            "eio": errno.EIO,
            "eacces": errno.EACCES,
            "enoent": errno.ENOENT,
            "emfile": errno.EMFILE,
            "erofs": errno.EROFS,
        }[kind]
        e = OSError(no, "injected: " + os.strerror(no), rel)
        e.sim_injected = True
        self.injected.append(e)
        return e

    def _fs_fault(self, name, rel):
        self.step()
        if self.dead:
            raise SimCrash("the process is dead")
        if not self.fs_armed:
            return None
        f = self._match(name)
        if f is None:
            return None
        if f.get("crash") and not (name == "fs.write" and f["act"] == "torn"):
            self._fired(f)
            raise self.crash()
        if f["act"] == "stall":
            # a slow disk
            self._fired(f)
            self.advance(f["dt"], name)
            return None
        if f["act"] == "raise":
            return None
        self._fired(f)
        self.fs_log.append((name, f["act"], rel))
        return f

    def rel(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            return None
        if p == self.scratch or p.startswith(self.scratch + os.sep):
            return os.path.relpath(p, self.scratch)
        return None

    def _open(self, file, mode="r", *args, **kwargs):
        if isinstance(file, int) or not isinstance(
            file, (str, bytes, os.PathLike)
        ):
            return _REAL_IO_OPEN(file, mode, *args, **kwargs)
        rel = self.rel(file)
        if rel is None:
            return _REAL_IO_OPEN(file, mode, *args, **kwargs)
        buffering = args[0] if args else kwargs.pop("buffering", -1)
        rest = list(args[1:])
        encoding = rest.pop(0) if rest else kwargs.pop("encoding", None)
        errors = rest.pop(0) if rest else kwargs.pop("errors", None)
        newline = rest.pop(0) if rest else kwargs.pop("newline", None)
        name = "fs.open_w" if any(c in mode for c in "wax+") else "fs.open_r"
        act = self._fs_fault(name, rel)
        if act is not None:
            raise self._fs_error(act["act"], rel)
        self.fs_log.append((name, "ok", rel))
        binary = "b" in mode
        rawmode = mode.replace("t", "").replace("b", "") + "b"
        raw = FaultyRaw(self, os.fspath(file), rel, rawmode)
        if "+" in mode:
            buf = io.BufferedRandom(raw, self.blk or io.DEFAULT_BUFFER_SIZE)
        elif any(c in mode for c in "wax"):
            buf = io.BufferedWriter(raw, self.blk or io.DEFAULT_BUFFER_SIZE)
        else:
            buf = io.BufferedReader(raw, self.blk or io.DEFAULT_BUFFER_SIZE)
        if binary:
            return buf
        txt = io.TextIOWrapper(
            buf, encoding or "utf-8", errors, newline
        )
        txt.mode = mode
        return txt

    def _makedirs(self, name, mode=0o777, exist_ok=False):
        rel = self.rel(name)
        if rel is None:
            return _REAL_MAKEDIRS(name, mode, exist_ok)
        act = self._fs_fault("fs.makedirs", rel)
        if act is not None:
            k = act["act"]
            if k == "race_dir":
                # another process creates the directory first
                _REAL_MAKEDIRS(name, mode, True)
                return _REAL_MAKEDIRS(name, mode, exist_ok)
            if k == "race_file":
                # another process creates a *file* of that name first
                par = os.path.dirname(os.path.abspath(name))
                _REAL_MAKEDIRS(par, 0o777, True)
                with _REAL_IO_OPEN(name, "w") as f:
                    f.write("not a directory")
                return _REAL_MAKEDIRS(name, mode, exist_ok)
            if k == "partial":
                par = os.path.dirname(os.path.abspath(name))
                _REAL_MAKEDIRS(par, 0o777, True)
                raise self._fs_error("enospc", rel)
            raise self._fs_error(k, rel)
        return _REAL_MAKEDIRS(name, mode, exist_ok)

    def _mkdir(self, name, mode=0o777, **kw):
        # os.makedirs (and pathlib) make each directory through os.mkdir
        rel = self.rel(name) if not kw else None
        if rel is None:
            return _REAL_MKDIR(name, mode, **kw)
        act = self._fs_fault("fs.mkdir", rel)
        if act is not None:
            k = act["act"]
            if k == "race_dir":
                if not os.path.lexists(name):
                    _REAL_MKDIR(name, 0o777)
            elif k == "race_file":
                if not os.path.lexists(name):
                    with _REAL_IO_OPEN(name, "w") as f:
                        f.write("not a directory")
            elif k == "race_fifo":
                if not os.path.lexists(name):
                    os.mkfifo(name)
            elif k == "race_call":
                self.fs_armed, armed = False, self.fs_armed
                try:
                    self.race()
                finally:
                    self.fs_armed = armed
            elif not os.path.lexists(name):
                # (an existing path is reported as such first)
                raise self._fs_error(k, rel)
        return _REAL_MKDIR(name, mode, **kw)

    # -- install / remove --------------------------------------------------
    def __enter__(self):
        s = self._saved = {}
        s["cwd"] = os.getcwd()
        s["home"] = os.environ.get("HOME")
        s["np"] = np.random.get_state()
        if self.use_fs:
            base = os.environ.get("SIM_TMP") or (
                "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
            )
            self.scratch = os.path.realpath(
                tempfile.mkdtemp(prefix="qtrlsim-", dir=base)
            )
            self.home = os.path.join(self.scratch, "home")
            self.cwd = os.path.join(self.scratch, "cwd")
            os.mkdir(self.home)
            os.mkdir(self.cwd)
            os.environ["HOME"] = self.home
            os.chdir(self.cwd)
        np.random.seed(self.np_seed)
        env.reset_logging()
        patches = []

        def patch(obj, attr, new):
            patches.append((obj, attr, getattr(obj, attr)))
            setattr(obj, attr, new)

        for name, mod, attr, orig in _LA_BINDINGS:
            patch(mod, attr, self._wrap(name, orig))
        world = self

        def q_expm(self_, *a, **k):
            return world.seam("la.qexpm", _QOBJ_EXPM, self_, *a, **k)

        patch(qutip.Qobj, "expm", q_expm)
        for name, mod, attr, orig in _MIN_BINDINGS:
            patch(mod, attr, self._wrap_min(name, orig))
        for name, mod, attr in _RAND_BINDINGS:
            patch(mod, attr, self._wrap_rand(name, getattr(mod, attr)))
        if self.costs.get("qmul"):
            # simulated time for products of two operators
            def q_mul(self_, other):
                if isinstance(other, qutip.Qobj):
                    world.advance(world.costs["qmul"], "qmul")
                return _QOBJ_MUL(self_, other)

            patch(qutip.Qobj, "__mul__", q_mul)
        if self.costs.get("qadd"):
            # ... and for sums of two operators
            def q_add(self_, other):
                if isinstance(other, qutip.Qobj):
                    world.advance(world.costs["qadd"], "qadd")
                return _QOBJ_ADD(self_, other)

            patch(qutip.Qobj, "__add__", q_add)
        for mod, attr in _CLOCK_BINDINGS:
            patch(mod, attr, self.clock)
        for mod, attr in _CLOCK_NS_BINDINGS:
            patch(mod, attr, lambda: int(self.clock() * 10**9))
        for mod, attr in _SLEEP_BINDINGS:
            patch(mod, attr, lambda dt: self.advance(dt, "sleep"))
        if self.use_fs:
            for mod, attr in _OPEN_BINDINGS:
                patch(mod, attr, self._open)
            for mod, attr in _MAKEDIRS_BINDINGS:
                patch(mod, attr, self._makedirs)
            for mod, attr in _MKDIR_BINDINGS:
                patch(mod, attr, self._mkdir)
            fo = np.lib._datasource._file_openers
            fo._load()
            s["np_opener"] = fo._file_openers[None]
            fo._file_openers[None] = self._open
        s["patches"] = patches
        return self

    def _wrap(self, name, orig):
        def wrapped(*a, **k):
            return self.seam(name, orig, *a, **k)

        wrapped.__name__ = getattr(orig, "__name__", name)
        return wrapped

    def _wrap_rand(self, name, orig):
        def wrapped(*a, **k):
            if self.rand is None:
                return orig(*a, **k)
            lo, hi = 0.0, 1.0
            if name == "rand":
                size = a or None
            elif name == "uniform":
                lo = a[0] if a else k.get("low", 0.0)
                hi = a[1] if len(a) > 1 else k.get("high", 1.0)
                size = a[2] if len(a) > 2 else k.get("size")
            else:
                size = a[0] if a else k.get("size")
            n = 1 if size is None else int(np.prod(size))
            u = np.array(self.rand(n), float)
            self.draws += n
            u = lo + (hi - lo) * u
            return float(u[0]) if size is None else u.reshape(size)

        wrapped.__name__ = name
        return wrapped

    def _wrap_min(self, name, orig):
        def wrapped(*a, **k):
            if self.minim is None:
                return orig(*a, **k)
            return self.minim.entry(name, orig, a, k)

        wrapped.__name__ = name
        return wrapped

    def __exit__(self, *exc):
        s = self._saved
        for obj, attr, old in reversed(s["patches"]):
            setattr(obj, attr, old)
        if self.use_fs:
            np.lib._datasource._file_openers._file_openers[None] = s[
                "np_opener"
            ]
            os.chdir(s["cwd"])
            if s["home"] is None:
                os.environ.pop("HOME", None)
            else:
                os.environ["HOME"] = s["home"]
            shutil.rmtree(self.scratch, ignore_errors=True)
        np.random.set_state(s["np"])
        env.reset_logging()
        return False


def _fmt(p):
    if isinstance(p, float):
        return float(p).hex()
    if isinstance(p, np.floating):
        return float(p).hex()
    if isinstance(p, np.ndarray):
        return "a" + hashlib.sha256(
            np.ascontiguousarray(p).tobytes()
        ).hexdigest()[:16]
    return str(p)
