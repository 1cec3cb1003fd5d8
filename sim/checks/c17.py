"""C17: calls leave the process as they found it."""
import collections
import gc
import io
import locale
import logging
import os
import random
import signal
import subprocess
import sys
import threading
import warnings
import weakref

import numpy as np

from .. import env
from .. import systems as S
from .. import episode as E
from . import c12, c13, c16

import qutip
import qutip_qtrl.grape as grape
import qutip_qtrl.io as qio
import qutip_qtrl.loadparams as loadparams
import qutip_qtrl.pulsegen as pulsegen

ID = "C17"
RULE = (
    "One run = a random history of one to four library calls in one process: "
    "optimisations through all entry points (with dumps, files, statistics, "
    "log levels), hand assembled use, calls that are refused, parameter files, output directories, "
    "pulse generators, the GRAPE functions - many of them aborted by an "
    "injected exception of the numerical library, the minimiser, the progress "
    "bar, memory or the user, or by a failing file system. Before and after "
    "each call the state of the process is recorded: numpy's error and print "
    "settings, warnings filters, working directory, environment, umask, "
    "signal handlers and timers, trace functions, recursion limit, garbage "
    "collector, locale, standard streams, threads, open files, logging "
    "configuration, qutip's settings, random generators. After the last "
    "call the objects are dropped and must be freed. Non-trivial when a call "
    "was aborted or a history has several calls. States: (operations, how they "
    "ended, options)."
)
ASSUMPTIONS = [
    "documented effects are not changes: log_level sets the levels of the "
    "library's loggers, random pulses and CRAB draw from numpy's generator",
    "caches inside the library are not process state, but must not keep the "
    "objects of the user alive",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer",
        "scipy minimisers (part of the runs)"]
STUB = ["clock", "file system faults", "minimiser (scripted runs)"]
TECHNIQUE = (
    "random histories of calls with injected aborts; process state compared "
    "before and after each"
)
LEVEL_NOTE = "Seeded sampling of histories and fault points."
N_QUICK = 6000
N_THOROUGH = 60000

EXCS = c12.EXCS


# ---------------------------------------------------------------------------


# calls that cannot work
BAD = {
    "dyn_type": {"dyn_type": "NONE"},
    "fid_type": {"fid_type": "NONE"},
    "method": {"optim_method": "NONE"},
    "alg": {"alg": "NONE"},
    "pulse": {"init_pulse_type": "NONE"},
    "tau": {"tau": 3.0},
    "no time": {"num_tslots": None},
    "bounds": {"amp_lbound": "low"},
    "goal": {"fid_err_targ": "small"},
    "dump": {"optim_params": {"dumping": 7}},
    "dump dir": {"optim_params": {"dumping": "FULL", "dump_dir": "file/d",
                                  "dump_to_file": True}},
    "prop": {"prop_type": "NONE"},
    "memory": {"dyn_params": {"memory_optimization": 3}},
    "dtype": {"dyn_params": {"oper_dtype": float}},
    "phase": {"fid_params": {"phase_option": "NONE"}},
    "target": {"target": None},
    "ctrls": {"ctrls": []},
    "shape": {"target": 3},
}


def gen_op(rng, tier):
    kind = S.choice(rng, ["optimise", "params", "mkdir", "pulses", "grape",
                          "refused"], [8, 2, 1, 2, 2, 1])
    op = {"kind": kind, "faults": []}
    if kind == "optimise":
        p = c12.gen(rng, tier)
        op.update(p)
        if rng.rand() < 0.3:
            op["args"]["dump"] = "FULL"
            op["args"]["dump_file"] = True
        op["writeout"] = bool(rng.rand() < 0.5)
        if rng.rand() < 0.3:
            op["faults"].append({
                "seam": S.choice(rng, ["la", "min.f", "min.g", "min.cb"],
                                 [4, 1, 1, 1]),
                "n": int(rng.randint(1, int(S.choice(rng, [3, 10, 40])))),
                "act": "raise", "exc": S.choice(rng, EXCS),
                "when": S.choice(rng, ["before", "after"])})
        op["cfg"]["unit"] = int(S.choice(rng, [0, 1, 2], [2, 1, 1]))
        if rng.rand() < 0.5:
            op["run"]["pulse"]["type"] = S.choice(
                rng, ["ZERO", "SINE", "SQUARE", "TRIANGLE", "SAW", "RNDWALK2",
                      "RNDWAVES"])
    elif kind == "params":
        op["text"] = S.choice(rng, [
            "[optimconfig]\ndyn_type = UNIT\n", "[dynamics]\nnum_tslots = 7\n",
            "[dynamics]\nnum_tslots = many\n", "garbage\n", "",
            "[optimizer]\nmax_iter = 7\nmethod_params = {}\n", None])
        if rng.rand() < 0.5:
            op["faults"].append({
                "seam": S.choice(rng, ["fs.open_r", "fs.read"]),
                "n": int(rng.randint(1, 3)),
                "act": S.choice(rng, ["eio", "eacces"])})
    elif kind == "refused":
        op["bad"] = S.choice(rng, sorted(BAD))
        op["which"] = S.choice(rng, ["optimize_pulse", "create_pulse_optimizer"])
        op["level"] = int(S.choice(rng, [0, 10]))
    elif kind == "mkdir":
        op["path"] = S.choice(rng, ["d", "d/e/f", "~/x", "file", "file/d", ""])
        if rng.rand() < 0.5:
            op["faults"].append({
                "seam": S.choice(rng, ["fs.makedirs", "fs.mkdir"]), "n": 1,
                "act": S.choice(rng, ["eacces", "enospc", "erofs"])})
    elif kind == "pulses":
        op["type"] = S.choice(rng, [
            "RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2", "LIN",
            "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE", "GAUSSIAN",
            "GAUSSIAN_EDGE"])
        op["n"] = int(S.choice(rng, [2, 5, 40]))
        op["bounds"] = S.choice(rng, [None, [-0.5, 0.5]])
    else:
        op["prob"] = {"dim": S.choice(rng, ["2", "22"]), "J": 2,
                      "mseed": int(rng.randint(1, 10**6)), "drift": "random",
                      "target": "random", "dtype": "dense"}
        op["call"] = dict(c16.gen_call(rng, 1), bar="sim")
        op["call"]["R"] = min(op["call"]["R"], 6)
        if rng.rand() < 0.6:
            op["faults"].append({
                "seam": S.choice(rng, ["la.qexpm", "bar.update"]),
                "n": int(rng.randint(1, 6)), "act": "raise",
                "exc": S.choice(rng, EXCS),
                "when": S.choice(rng, ["before", "after"])})
    return op


def gen(rng, tier):
    n = int(S.choice(rng, [1, 2, 4], [3, 3, 1]))
    if rng.rand() < 0.003:
        return {"ops": [], "import": True}
    return {
        "ops": [gen_op(rng, tier) for _ in range(n)],
        # what the user has set up before
        "user": {
            "err": S.choice(rng, [None, "warn", "ignore"]),
            "level": S.choice(rng, [30, 20, 10, 40], [5, 2, 1, 1]),
            "filters": bool(rng.rand() < 0.4),
            "env": bool(rng.rand() < 0.3),
            "gc": bool(rng.rand() < 0.8),
            "print": bool(rng.rand() < 0.3),
        },
        "release": bool(rng.rand() < 0.25),
        "blk": S.choice(rng, [None, 64, 512], [2, 1, 1]),
    }


# ---------------------------------------------------------------------------


def settings():
    d = {}
    for k, v in qutip.settings.core.options.items():
        d["qutip core " + k] = repr(v)
    for k in ("_debug", "_log_handler", "colorblind_safe", "eigh_unsafe"):
        d["qutip " + k] = repr(getattr(qutip.settings, k, None))
    return d


def state():
    """What other code in the process can see."""
    um = os.umask(0o22)
    os.umask(um)
    d = {
        "numpy error handling": repr(np.geterr()) + repr(np.geterrcall()),
        "numpy print options": repr(sorted(np.get_printoptions().items(),
                                           key=lambda x: x[0])),
        "warnings filters": repr(warnings.filters),
        "warnings display": id(warnings.showwarning),
        "working directory": os.getcwd(),
        "environment": repr(sorted(os.environ.items())),
        "umask": um,
        "signal handlers": repr([
            (s, repr(signal.getsignal(s))) for s in
            (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)]),
        "interval timer": bool(signal.getitimer(signal.ITIMER_REAL)[0]),
        "sys.path": repr(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "trace function": repr((sys.gettrace(), sys.getprofile())),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook),
                  id(threading.excepthook)),
        "threads": repr(sorted(t.name for t in threading.enumerate())),
        "garbage collector": repr((gc.isenabled(), gc.get_threshold())),
        "locale": repr(locale.setlocale(locale.LC_ALL)),
        "open files": fds(),
        "random": repr(random.getstate())[:400],
        "logging": repr((
            logging.root.level, [id(h) for h in logging.root.handlers],
            logging.root.manager.disable, logging.raiseExceptions,
            id(logging.getLoggerClass()),
            [(lg.name, [id(h) for h in lg.handlers], lg.propagate, lg.disabled,
              len(lg.filters)) for lg in env.sut_loggers()])),
        "levels": repr([(lg.name, lg.level) for lg in env.sut_loggers()]),
        "child processes": repr(children()),
    }
    d.update(settings())
    return d


def fds():
    """What the descriptors of the process refer to, apart from numbers."""
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue  # (the one that lists them)
        out.append(os.path.basename(p) if p.startswith("/") else
                   p.split(":")[0])
    return sorted(out)


def children():
    try:
        with open("/proc/self/task/%d/children" % os.getpid()) as f:
            return f.read().split()
    except OSError:
        return []


def draws(op):
    """May this call use numpy's random generator?"""
    if op["kind"] == "optimise":
        cfg, run = op["cfg"], op["run"]
        return (run["alg"] == "CRAB" or run["pulse"]["type"].startswith("RND")
                or cfg["mem"] == 2 or bool(cfg["sparse"]))
    return op["kind"] == "pulses" and op["type"].startswith("RND")


class Open:
    """Notes the files that the world opens for the code under test."""

    def __init__(self, w):
        import sim.world as world

        self.files = []
        me = self
        self.cls = world.FaultyRaw
        self.orig = self.cls.__init__

        def init(self_, *a, **k):
            me.orig(self_, *a, **k)
            me.files.append((weakref.ref(self_), a[2]))

        self.cls.__init__ = init

    def stop(self):
        self.cls.__init__ = self.orig

    def left(self):
        out = []
        for r, name in self.files:
            f = r()
            if f is not None and not f.closed:
                out.append(name)
        return out


def perform(ctx, w, op, alive):
    """One library call; returns how it ended."""
    k = op["kind"]
    w.faults = [dict(f, n=w.counts.get(f["seam"], 0) + f["n"])
                for f in op["faults"]]
    try:
        if k == "optimise":
            args = c12.arguments(ctx, w, op)
            ep = c12.call(ctx, w, op, args)
            if ep.optim is not None:
                o = ep.optim
                if op["writeout"] and getattr(o, "dump", None) is not None:
                    w.faults = [dict(f, done=False, n=w.counts.get(f["seam"], 0) + f["n"])
                                for f in op["faults"] if f["seam"].startswith("fs.")]
                    try:
                        ctx.sut(o.dump.writeout, os.path.join(w.scratch, "wo"))
                    except OSError:
                        pass
                alive.append(("optimizer", weakref.ref(o)))
                for nm in ("dynamics", "config"):
                    if getattr(o, nm, None) is not None:
                        alive.append((nm, weakref.ref(getattr(o, nm))))
                fc = getattr(getattr(o, "dynamics", None), "fid_computer", None)
                if fc is not None:
                    alive.append(("fidelity computer", weakref.ref(fc)))
                if ep.result is not None:
                    alive.append(("result", weakref.ref(ep.result)))
            for i, q in enumerate(args[1]):
                if isinstance(q, S.Qobj):
                    alive.append(("operator %d" % i, weakref.ref(q)))
            return "aborted" if ep.exc is not None else "done"
        if k == "params":
            w.fs_armed = False
            if op["text"] is not None:
                with open("p.ini", "w") as f:
                    f.write(op["text"])
            w.fs_armed = True
            import qutip_qtrl.optimconfig as oc
            import qutip_qtrl.optimizer as om
            import qutip_qtrl.dynamics as dy

            cfg = oc.OptimConfig()
            dyn = dy.DynamicsUnitary(cfg)
            optim = om.OptimizerLBFGSB(cfg, dyn)
            w.counts = {}
            loadparams.load_parameters("p.ini", config=cfg, dynamics=dyn,
                                       optim=optim)
            return "done"
        if k == "refused":
            import qutip_qtrl.pulseoptim as cpo

            w.fs_armed = False
            with open("file", "w") as f:
                f.write("x")
            w.fs_armed = True
            bad = dict(BAD[op["bad"]])
            args = [qutip.sigmaz(), bad.pop("ctrls", [qutip.sigmax()]),
                    qutip.identity(2), bad.pop("target", qutip.sigmax())]
            if args[3] == 3:
                args[3] = qutip.identity(3)
            kw = dict(num_tslots=4, evo_time=1.0, dyn_type="UNIT",
                      init_pulse_type="LIN",
                      log_level=op["level"])
            kw.update(bad)
            if op["which"] == "optimize_pulse":
                kw.update(max_iter=2)
            for q in [args[0]] + args[1]:
                alive.append(("operator", weakref.ref(q)))
            getattr(cpo, op["which"])(*args, **kw)
            return "done"
        if k == "mkdir":
            w.fs_armed = False
            with open("file", "w") as f:
                f.write("x")
            w.fs_armed = True
            qio.create_dir(op["path"])
            return "done"
        if k == "pulses":
            g = pulsegen.create_pulse_gen(pulse_type=op["type"])
            g.num_tslots, g.pulse_time = op["n"], 2.0
            g.tau = np.ones(op["n"]) * 2.0 / op["n"]
            if op["bounds"]:
                g.lbound, g.ubound = op["bounds"]
            ctx.sut(g.init_pulse)
            ctx.sut(g.gen_pulse)
            alive.append(("pulse generator", weakref.ref(g)))
            return "done"
        mats = c16.matrices(op["prob"])
        qs = c16.qobjs(op["prob"], mats)
        bar = c16.Bar(w, None, None)
        args, kw = c16.arguments(op["call"], op["prob"], qs, bar)
        r = ctx.sut(getattr(grape, op["call"]["func"]), *args, **kw)
        alive.append(("GRAPE result", weakref.ref(r)))
        return "done"
    except BaseException as e:
        if k in ("params", "mkdir", "refused") and isinstance(e, Exception):
            return "refused"  # (what is refused is the matter of C07, C13)
        if not getattr(e, "sim_injected", False):
            raise
        return "aborted"
    finally:
        w.faults = []


def clear(w):
    """The files of one call must not be seen by the next."""
    for top, dirs, files in os.walk(w.scratch, topdown=False):
        for n in files:
            os.remove(os.path.join(top, n))
        for n in dirs:
            p = os.path.join(top, n)
            if p not in (w.home, w.cwd):
                os.rmdir(p)


class Setup:
    """The process as the user prepared it."""

    def __init__(self, u):
        self.u = u

    def __enter__(self):
        u = self.u
        self.err = np.geterr()
        self.filters = list(warnings.filters)
        self.po = np.get_printoptions()
        self.rec = sys.getrecursionlimit()
        self.streams = sys.stdout, sys.stderr
        self.out = io.StringIO()
        sys.stdout = self.out
        sys.stderr = self.errs = io.StringIO()
        if u["err"]:
            np.seterr(all=u["err"])
        if u["filters"]:
            warnings.filterwarnings("ignore", message="the user's own")
        if u["env"]:
            os.environ["QTRL_USER"] = "x"
        if not u["gc"]:
            gc.disable()
        if u["print"]:
            np.set_printoptions(precision=5)
        for lg in env.sut_loggers():
            lg.setLevel(u["level"])
        return self

    def __exit__(self, *exc):
        sys.stdout, sys.stderr = self.streams
        np.seterr(**self.err)
        warnings.filters[:] = self.filters
        warnings._filters_mutated()
        np.set_printoptions(**self.po)
        os.environ.pop("QTRL_USER", None)
        gc.enable()
        return False


def body(ctx, plan):
    if plan.get("import"):
        imported(ctx)
        return
    if plan["release"]:
        gc.collect()
        gc.freeze()
    alive = []
    try:
        ends = history(ctx, plan, alive)
        if plan["release"]:
            released(ctx, plan, alive, ends)
    finally:
        if plan["release"]:
            gc.unfreeze()


def history(ctx, plan, alive):
    u = plan["user"]
    ends = []
    run = plan["ops"][0].get("run")
    with ctx.world(np_seed=5, costs=run["costs"] if run else None,
                   max_steps=400000) as w:
        w.blk = plan.get("blk")
        files = Open(w)
        try:
            with Setup(u) as s:
                for i, op in enumerate(plan["ops"]):
                    for lg in env.sut_loggers():
                        lg.setLevel(u["level"])
                    seed = op["run"]["np_seed"] if "run" in op else 5
                    np.random.seed(seed)
                    rnd = repr(np.random.get_state())
                    before = state()
                    end = perform(ctx, w, op, alive)
                    after = state()
                    ends.append(end)
                    what = op["kind"] if op["kind"] != "optimise" else op["which"]
                    for k in before:
                        if k == "levels" and (op.get("level") or
                                              "level" in op.get("args", {})):
                            continue
                        if before[k] == after[k]:
                            continue
                        p, q = before[k], after[k]
                        if k == "open files":
                            p = collections.Counter(p)
                            q = collections.Counter(q)
                            p, q = sorted((p - q).elements()), sorted(
                                (q - p).elements())
                        ctx.fail(k, "{} changed by {} ({}): {} -> {}", k, what,
                                 end, p, q)
                    if not draws(op):
                        ctx.check(repr(np.random.get_state()) == rnd,
                                  "numpy random", "{} ({}) used numpy's random "
                                  "generator", what, end)
                        ctx.probe("random untouched")
                    ctx.check(not s.out.getvalue() and not s.errs.getvalue(),
                              "output", "{} ({}) wrote {!r} {!r} to the "
                              "standard streams", what, end,
                              s.out.getvalue()[:80], s.errs.getvalue()[:80])
                    left = files.left()
                    ctx.check(not left, "files left open",
                              "{} ({}) left {} open", what, end, left)
                    ctx.probe(op["kind"] + " " + end)
                    w.ev("op", i, what, end)
                    clear(w)
        finally:
            files.stop()
        ctx.probe("files opened", len(files.files))
        w.minim = None
        for e in w.injected:
            e.__traceback__ = e.__context__ = e.__cause__ = None
    ctx.probe("history", len(ends))
    ctx.state(tuple((op["kind"], op.get("which"), op.get("type"), e,
                     tuple(sorted(op.get("args", ()))))
                    for op, e in zip(plan["ops"], ends)))
    return ends


def released(ctx, plan, alive, ends):
    gc.collect()
    left = [n for n, r in alive if r() is not None]
    ctx.check(not left, "kept alive", "after everything was dropped {} still "
              "exist ({})", left, ends)
    ctx.probe("released", len(alive))


def nontrivial(out):
    p = out.probes
    return p.get("history", 0) > 1 or any("aborted" in k for k in p)


# ---------------------------------------------------------------------------

IMPORT = """
import sys, io, os, logging, random, signal, threading, warnings
sys.path.insert(0, %r)
import numpy, scipy.optimize, scipy.sparse.linalg, qutip


def state():
    c = qutip.settings.core.options
    return {
        "numpy error handling": numpy.geterr(),
        "numpy print options": repr(numpy.get_printoptions()),
        "numpy random": repr(numpy.random.get_state()),
        "random": repr(random.getstate()),
        "warnings filters": repr(warnings.filters),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "signal handlers": repr([signal.getsignal(k) for k in (2, 15, 14)]),
        "recursion limit": sys.getrecursionlimit(),
        "threads": threading.active_count(),
        "logging": (logging.root.level, len(logging.root.handlers),
                    logging.root.manager.disable),
        "qutip settings": repr(sorted(c.items(), key=lambda x: x[0])),
    }


numpy.random.seed(3)
random.seed(3)
out = sys.stdout = sys.stderr = io.StringIO()
a = state()
import qutip_qtrl, qutip_qtrl.pulseoptim, qutip_qtrl.grape
import qutip_qtrl.loadparams, qutip_qtrl.symplectic
b = state()
sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
bad = [k for k in a if a[k] != b[k]]
if out.getvalue():
    bad.append("output " + out.getvalue()[:80])
print("IMPORTED", bad)
"""


def imported(ctx):
    """Importing the library has no side effects either."""
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", IMPORT % env.SRC],
                       capture_output=True, text=True, timeout=300)
    if "IMPORTED" not in p.stdout:
        raise RuntimeError("import probe: " + p.stderr[-800:])
    ctx.check("IMPORTED []" in p.stdout, "import",
              "importing the library changes {}", p.stdout.strip())
    ctx.probe("imports")
