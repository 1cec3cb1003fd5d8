"""C16: the GRAPE functions: exact history, interruptible, isolated."""
import logging
import warnings

import numpy as np

from .. import env
from .. import systems as S
from .. import sched
from .c10 import gen_hot, gen_switches

from qutip import Qobj
import qutip_qtrl.grape as grape

ID = "C16"
RULE = (
    "One run = one to three random calls of grape_unitary, cy_grape_unitary "
    "and grape_unitary_adaptive on shared operators. Each is made alone "
    "first: pulses, unitaries and Hamiltonian are compared with a reference "
    "model step by step. Then all are repeated in a world where the clock "
    "jumps, progress bar and matrix exponential fail at chosen points and "
    "progress bars start further calls - or all at the same time in threads "
    "preempted between lines; what is not interrupted must be equal bit for "
    "bit, what is must pass on the exception. Non-trivial when a fault, a "
    "nested call or a preemption happened. States: (function, options, "
    "iteration at which something happened)."
)
ASSUMPTIONS = [
    "equally spaced times (the functions use the first interval for all)",
    "the comparison of the adaptive variant with the reference model stops "
    "where the choice of the step is decided by rounding",
    "preemption inside numpy, scipy and qutip is not simulated",
]
REAL = ["grape.py, cy_grape.py", "qutip operators and data layer",
        "Python threads"]
STUB = ["clock", "progress bar", "thread scheduler", "faults of Qobj.expm"]
TECHNIQUE = (
    "simulated progress bars, clock and failing matrix exponentials, re-entrant "
    "calls, deterministic scheduling of real threads; comparison with an "
    "executable reference model and with undisturbed calls"
)
LEVEL_NOTE = "Seeded sampling of problems, faults and preemption points."
N_QUICK = 5000
N_THOROUGH = 60000

EXCS = ["MemoryError", "KeyboardInterrupt", "RuntimeError", "FloatingPointError"]
FUNCS = ["grape_unitary", "cy_grape_unitary", "grape_unitary_adaptive"]
SHAPES = {"2": [2], "3": [3], "22": [2, 2]}


def gen_call(rng, problems):
    c = {"func": S.choice(rng, FUNCS), "prob": int(rng.randint(problems))}
    c["R"] = int(S.choice(rng, [1, 2, 3, 4, 6, 9, 14], [1, 2, 2, 2, 3, 2, 1]))
    c["M"] = int(S.choice(rng, [2, 3, 4, 5, 8], [1, 2, 3, 3, 1]))
    c["T"] = float(S.choice(rng, [0.5, 1.0, 2.0, 5.0]))
    c["t_first"] = float(S.choice(rng, [0.0, 1.0], [5, 1]))
    c["times"] = S.choice(rng, ["array", "list"])
    c["eps"] = S.choice(rng, [None, 0.01, 0.3, 1.0, 3.0], [2, 1, 2, 3, 2])
    c["start"] = S.choice(rng, [None, "array", "list", "scalars", "int"],
                          [2, 4, 1, 1, 1])
    c["sseed"] = int(rng.randint(1, 10**6))
    c["scale"] = float(S.choice(rng, [0.1, 1.0, 3.0]))
    c["limits"] = S.choice(
        rng, [None, [-0.5, 0.5], [-0.25, 1.0], [0.0, 0.75], [-1.0, 0.0],
              [0.125, 0.5]],
        [8, 3, 1, 1, 1, 1])
    c["limits_t"] = bool(rng.rand() < 0.5)
    c["interp"] = S.choice(rng, [None, "linear", "nearest", "zero"],
                           [6, 2, 1, 1])
    c["alpha"] = S.choice(rng, [None, 0, 0.1, 0.5], [5, 1, 1, 2])
    c["beta"] = S.choice(rng, [None, 0, 0.02, 0.1], [5, 1, 1, 1])
    c["ps"] = S.choice(rng, [None, True, False], [1, 3, 3])
    c["over"] = S.choice(rng, [None, 1.0, 0.5, 0.8, 0.95, 0.99],
                         [4, 1, 1, 1, 1, 1])
    c["bar"] = S.choice(rng, ["sim", "none", "false", "qutip"], [8, 1, 1, 1])
    c["nest"] = None
    if rng.rand() < 0.08:
        # long pulses and many iterations
        c["M"] = int(S.choice(rng, [13, 20, 34]))
        c["R"] = int(S.choice(rng, [2, 3, 5]))
    elif rng.rand() < 0.04:
        c["M"], c["R"] = 3, int(S.choice(rng, [22, 35]))
    return c


def gen(rng, tier):
    nprob = int(S.choice(rng, [1, 2], [3, 1]))
    problems = []
    for i in range(nprob):
        problems.append({
            "dim": S.choice(rng, ["2", "3", "22"], [4, 2, 2]),
            "J": int(S.choice(rng, [1, 2, 3], [2, 4, 1])),
            "mseed": int(rng.randint(1, 10**6)),
            "drift": S.choice(rng, ["random", "zero", "diag"], [4, 1, 1]),
            "ops": S.choice(rng, ["random", "few"], [3, 1]),
            "target": S.choice(rng, ["random", "near", "minus"], [3, 2, 1]),
            "dtype": S.choice(rng, ["dense", "csr"], [1, 1]),
        })
    n = int(S.choice(rng, [1, 2, 3], [3, 3, 2]))
    calls = [gen_call(rng, nprob) for _ in range(n)]
    if n > 1 and rng.rand() < 0.4:
        # nearly the same call: mix ups are not noticed by their shape
        for c in calls[1:]:
            for k in ("prob", "R", "M", "func"):
                c[k] = calls[0][k]
    threads = n > 1 and bool(rng.rand() < 0.4)
    plan = {"overlap": int(rng.randint(1 << 30)) if rng.rand() < 0.2 else None,
            "other": bool(rng.rand() < 0.3),
            "problems": problems, "calls": calls, "threads": threads,
            "faults": [], "debug": bool(rng.rand() < 0.15),
            "cost": float(S.choice(rng, [0.0, 0.125, 1.0]))}
    if threads:
        plan["switches"] = gen_switches(rng)
        plan["opcodes"] = bool(rng.rand() < 0.15)
        plan["hot"] = None if rng.rand() < 0.5 else gen_hot(rng)
    else:
        for c in calls:
            if rng.rand() < 0.3:
                # another call from within the progress bar
                c["nest"] = [int(rng.randint(1, max(2, c["R"]))),
                             int(rng.randint(n))]
    for _ in range(int(S.choice(rng, [0, 1, 2, 3], [1, 3, 2, 1]))):
        i = int(rng.randint(n))
        act = S.choice(rng, ["raise", "stall"], [3, 1])
        f = {"seam": "t{}.".format(i) + S.choice(
                rng, ["la.qexpm", "bar.update", "bar.finished"], [4, 3, 1]),
             "n": int(rng.randint(1, 25 if rng.rand() < 0.5 else 8)),
             "act": act}
        if act == "raise":
            f["exc"] = S.choice(rng, EXCS)
            f["when"] = S.choice(rng, ["before", "after"])
        else:
            f["dt"] = float(S.choice(rng, [-1e6, -3600.0, 1e7]))
            if rng.rand() < 0.7:
                # the clock is set while it is looked at
                f["seam"] = "t{}.clock".format(i)
        plan["faults"].append(f)
    return plan


SHRINK_FIXED = ("problems",)


# ---------------------------------------------------------------------------
# the problem
# ---------------------------------------------------------------------------

def matrices(p):
    """Plain matrices: drift, controls, target."""
    rng = np.random.RandomState(p["mseed"])
    n = int(np.prod(SHAPES[p["dim"]]))

    def herm():
        a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        return (a + a.conj().T) / np.sqrt(2 * n)

    h0 = herm() * 0.5
    if p["drift"] == "zero":
        h0 = h0 * 0
    elif p["drift"] == "diag":
        h0 = np.diag(np.diag(h0))
    hs = [herm() for _ in range(p["J"])]
    if p.get("ops") == "few":
        # operators with few elements
        for h in hs:
            i, j = rng.randint(n, size=2)
            keep = np.zeros((n, n))
            keep[i, j] = keep[j, i] = 1
            h *= keep
    t = herm() * {"random": 1.0, "near": 0.3, "minus": 0.2}[p["target"]]
    u = env.REF_EXPM(-1j * t)
    if p["target"] == "minus":
        u = -u
    return h0, hs, u


def qobjs(p, mats):
    d = SHAPES[p["dim"]]

    def q(a):
        return Qobj(a, dims=[d, d]).to(
            "Dense" if p["dtype"] == "dense" else "CSR")

    return q(mats[0]), [q(a) for a in mats[1]], q(mats[2])


def start_values(c, J):
    rng = np.random.RandomState(c["sseed"])
    if c["start"] is None:
        return None
    if c["start"] == "scalars":
        return [float(x) for x in rng.uniform(-1, 1, J) * c["scale"]]
    if c["start"] == "int":
        return rng.randint(-2, 3, (J, c["M"]))
    a = rng.uniform(-1, 1, (J, c["M"])) * c["scale"]
    return a if c["start"] == "array" else [list(map(float, r)) for r in a]


class Bar:
    """A progress bar of the simulated user."""

    def __init__(self, w, scope, nest):
        self.w, self.scope, self.nest = w, scope, nest
        self.updates = self.finishes = 0
        self.N = 0

    def _seam(self, name):
        old, self.w.scope = self.w.scope, self.scope
        try:
            self.w.point(name)
        finally:
            self.w.scope = old

    def update(self):
        self.updates += 1
        self._seam("bar.update")
        if self.nest and self.updates == self.nest[0]:
            self.nest[1]()

    def finished(self):
        self.finishes += 1
        self._seam("bar.finished")


def arguments(c, p, qs, bar):
    h0, hs, u = qs
    times = np.linspace(c["t_first"], c["t_first"] + c["T"], c["M"])
    if c["times"] == "list":
        times = [float(t) for t in times]
    kw = {}
    if c["eps"] is not None:
        kw["eps"] = c["eps"]
    st = start_values(c, p["J"])
    if st is not None:
        kw["u_start"] = st
    if c["limits"] is not None:
        kw["u_limits"] = (tuple if c["limits_t"] else list)(c["limits"])
    if c["interp"]:
        kw["use_interp"], kw["interp_kind"] = True, c["interp"]
    for k in ("alpha", "beta"):
        if c[k] is not None:
            kw[k] = c[k]
    if c["ps"] is not None:
        kw["phase_sensitive"] = c["ps"]
    if c["func"] == "grape_unitary_adaptive" and c["over"] is not None:
        kw["overlap_terminate"] = c["over"]
    if c["bar"] != "none":
        kw["progress_bar"] = bar
    return [u, h0, hs, c["R"], times], kw


def frozen(x):
    """The value of an argument, to notice changes."""
    if isinstance(x, Qobj):
        return ("Qobj", x.full().tobytes(), repr(x.dims))
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(frozen(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, frozen(v)) for k, v in x.items()))
    return repr(x) if isinstance(x, (int, float, bool, str)) else id(x)


def coefficients(res, c, times):
    """The Hamiltonian's control amplitudes at the given times."""
    out = []
    for part in res.H_t[1:]:
        f = part[1]
        if callable(f):
            out.append([float(f(t, None)) for t in times])
        else:
            out.append(np.array(f, float))
    return np.array(out)


def digest(res):
    """Everything in a result, exactly."""
    d = {"u": frozen(np.asarray(res.u)), "U_f": frozen(res.U_f),
         "H0": frozen(res.H_t[0])}
    for i, part in enumerate(res.H_t[1:]):
        d["op%d" % i] = frozen(part[0])
        if not callable(part[1]):
            d["coeff%d" % i] = frozen(np.asarray(part[1]))
    for k in ("eps", "overlap"):
        if hasattr(res, k):
            d[k] = frozen(np.asarray(getattr(res, k)))
    return d


# ---------------------------------------------------------------------------
# the reference model
# ---------------------------------------------------------------------------

class Ref:
    def __init__(self, c, p, mats, times):
        self.c, self.p = c, p
        self.h0, self.hs, self.u = mats
        self.times = np.array(times, float)
        self.dt = self.times[1] - self.times[0]
        self.n = self.h0.shape[0]
        ps = c["ps"]
        if ps is None:
            ps = c["func"] != "grape_unitary_adaptive"
        self.ps = ps
        self.eps = c["eps"]
        if self.eps is None:
            self.eps = 0.1 * 2 * np.pi / self.times[-1]

    def props(self, u):
        return [
            env.REF_EXPM(-1j * self.dt * (
                self.h0 + sum(a * h for a, h in zip(u[:, m], self.hs))))
            for m in range(len(self.times) - 1)
        ]

    def unitary(self, u):
        f = np.eye(self.n)
        for x in self.props(u):
            f = x @ f
        return f

    def overlap(self, f):
        return np.trace(f.conj().T @ self.u) / self.n

    def fidelity(self, u):
        o = self.overlap(self.unitary(u))
        return o.real if self.ps else abs(o) ** 2

    def gradient(self, u):
        """First order change of the fidelity with each amplitude."""
        ps = self.props(u)
        M = len(ps)
        fw = [np.eye(self.n)]
        for x in ps:
            fw.append(x @ fw[-1])
        bw = [self.u.conj().T]
        for x in reversed(ps):
            bw.insert(0, bw[0] @ x)
        o = np.trace(bw[0]) / self.n
        g = np.zeros((len(self.hs), M))
        for m in range(M):
            for j, h in enumerate(self.hs):
                do = np.trace(bw[m + 1] @ (-1j * self.dt * h) @ fw[m + 1]) / self.n
                g[j, m] = do.real if self.ps else 2 * (do * np.conj(o)).real
                if self.c["alpha"]:
                    g[j, m] -= 2 * self.c["alpha"] * u[j, m] * self.dt
                if self.c["beta"]:
                    w = m if self.c["func"] == "grape_unitary" else m**2
                    g[j, m] -= 2 * self.c["beta"] * w * u[j, m] * self.dt
        return g

    def limit(self, u):
        lim = self.c["limits"]
        return u if lim is None else np.clip(u, lim[0], lim[1])

    def first(self):
        J, M = len(self.hs), len(self.times)
        st = start_values(self.c, J)
        if st is None:
            return np.zeros((J, M))
        a = np.array(st, float)
        if a.ndim == 1:
            a = np.repeat(a[:, None], M, 1)
        return self.limit(a)

    def step(self, u, g, eps):
        new = np.array(u, float)
        new[:, :-1] = self.limit(u[:, :-1] + eps * g)
        new[:, -1] = new[:, -2]
        return new


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(
        np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def adaptive(ref, R, over, margin=1e-8):
    """History of the adaptive variant, or None when rounding decides."""
    m = history(ref, R, over, margin, 0.0)
    for d in (1e-12, -1e-12):
        x = m and history(ref, R, over, margin, d)
        if x is None or not (close(x["u"], m["u"], 1e-9)
                             and close(x["overlap"], m["overlap"], 1e-9)):
            # (large steps: a chaotic map)
            return None
    return m


def history(ref, R, over, margin, shift):
    a = ref.first()
    a = a + shift * np.cos(np.arange(a.size)).reshape(a.shape)
    tracks = [a.copy() for _ in range(3)]
    hist = [tracks]
    eps = np.array([ref.eps / 2, ref.eps, 2 * ref.eps])
    best, prev = 1, -np.inf
    elog, olog = [], []
    done = False
    for r in range(R - 1):
        elog.append(eps[best])
        g = ref.gradient(tracks[best])
        new = [ref.step(t, g, e) for t, e in zip(tracks, eps)]
        fid = [ref.fidelity(t) for t in new]
        k = int(np.argmax(fid))
        gap = [abs(fid[k] - f) for i, f in enumerate(fid) if i != k]
        if min(gap) < margin or abs(fid[k] - prev) < margin:
            return None
        olog.append(fid[k])
        if prev > fid[k]:
            eps = eps / 2
        else:
            best, prev, tracks = k, fid[k], new
            eps = eps * [0.5, 1.0, 2.0][k]
        hist.append(tracks)
        if over is not None and over < 1.0:
            if abs(fid[k] - over) < margin:
                return None
            if fid[k] > over:
                done = True
                break
    return {"u": np.array([h[best] for h in hist]), "eps": elog,
            "overlap": olog, "done": done}


# ---------------------------------------------------------------------------
# the run
# ---------------------------------------------------------------------------

def verify(ctx, c, p, mats, res, bar, args, kw):
    """One undisturbed call against the reference model."""
    times = args[4]
    R, M, J = c["R"], c["M"], p["J"]
    ref = Ref(c, p, mats, times)
    u = np.asarray(res.u)
    what = c["func"]
    ada = what == "grape_unitary_adaptive"
    ctx.check(u.ndim == 3 and u.shape[1:] == (J, M), "shape", "{}: u has shape {}",
              what, u.shape)
    ctx.check(u.shape[0] == R or (ada and 1 <= u.shape[0] <= R), "shape",
              "{}: {} sets of pulses for {} iterations", what, u.shape[0], R)
    ctx.check(np.array_equal(u[0], ref.first()), "start",
              "{}: first pulses {} instead of {}", what, u[0], ref.first())
    lim = c["limits"]
    if lim is not None:
        v = u[1:] if c["start"] is None else u
        ctx.check(v.size == 0 or (v.min() >= lim[0] and v.max() <= lim[1]),
                  "limits", "{}: amplitudes {} .. {} for limits {}", what,
                  v.min() if v.size else 0, v.max() if v.size else 0, lim)

    def tame(v):
        # (rounding decides the propagators of huge amplitudes)
        return bool(np.all(np.abs(v) < 1e3))

    if not tame(u[-1]):
        ctx.probe("diverged")
    # the result is consistent with itself
    fin = ref.unitary(u[-1])
    f = res.U_f.full()
    ctx.check(res.U_f.dims == args[0].dims, "final unitary", "{}: dims {}",
              what, res.U_f.dims)
    ctx.check(not tame(u[-1]) or close(f, fin), "final unitary",
              "{}: U_f differs from the propagator of the last pulses by {}",
              what, np.abs(f - fin).max())
    co = coefficients(res, c, times)
    ctx.check(not tame(u[-1]) or
              close(co, u[-1], 1e-9 * max(1.0, np.abs(u[-1]).max())), "Hamiltonian",
              "{}: amplitudes of H_t {} / last pulses {}", what, co, u[-1])
    ctx.check(len(res.H_t) == J + 1 and close(res.H_t[0].full(), mats[0], 0)
              and all(close(a[0].full(), b, 0)
                      for a, b in zip(res.H_t[1:], mats[1])),
              "Hamiltonian", "{}: operators of H_t", what)
    if c["interp"]:
        # (solvers step a little beyond the end)
        for part, a in zip(res.H_t[1:], u[-1]):
            v = float(ctx.sut(part[1], times[-1] + 1e-9, None))
            ctx.check(not tame(u[-1]) or abs(v - a[-1]) <= 1e-6 * (1 + np.abs(a).max()),
                      "Hamiltonian", "{}: amplitude {} just after the end, {} "
                      "at the end", what, v, a[-1])
    steps = u.shape[0] - 1
    if bar is not None:
        ctx.check(bar.updates == steps and bar.finishes == 1,
                  "progress", "{}: {} updates, {} ends for {} iterations",
                  what, bar.updates, bar.finishes, steps)
    if not ada:
        for r in range(R - 1):
            if not tame(u[r]):
                break
            new = ref.step(u[r], ref.gradient(u[r]), ref.eps)
            ctx.check(close(u[r + 1], new), "step",
                      "{}: iteration {}: from {} to {} instead of {}",
                      what, r, u[r], u[r + 1], new)
            ctx.probe("steps compared")
        return
    if not tame(u):
        return
    over = c["over"]
    fid = ref.fidelity(u[-1])
    log = np.asarray(res.overlap, float)
    if steps:
        ctx.check(abs(fid - log[:steps].max()) < 1e-9, "best",
                  "fidelity {} of the result is not the best of {}", fid,
                  log[:steps])
    if over is not None and over < 1.0:
        bad = [x for x in log[:steps - 1] if x > over]
        ctx.check(not bad, "goal", "went on after {} for goal {}", bad, over)
        ctx.check(steps == R - 1 or log[steps - 1] > over, "goal",
                  "ended at {} for goal {} after {} iterations", fid, over, steps)
    else:
        ctx.check(steps == R - 1, "goal", "{} iterations instead of {}",
                  steps, R - 1)
    m = adaptive(ref, R, over)
    if m is None:
        ctx.probe("reference undecided")
        return
    ctx.check(close(u, m["u"], 1e-7), "step", "{}: pulses {} instead of {}",
              what, u, m["u"])
    n = len(m["eps"])
    ctx.check(close(np.asarray(res.eps)[:n], m["eps"]), "eps", "{} instead of {}",
              res.eps, m["eps"])
    ctx.check(close(log[:n], m["overlap"], 1e-7), "overlap", "{} instead of {}",
              log, m["overlap"])
    ctx.probe("adaptive histories compared")


def body(ctx, plan):
    filters = list(warnings.filters)
    body_(ctx, plan)
    ctx.check(list(warnings.filters) == filters, "warnings filter",
              "the filters of the warnings module were changed")


def logged(ctx, plan):
    if plan["debug"]:
        grape.logger.setLevel(logging.DEBUG)


def check_log(ctx):
    bad = [r for r in env.LOG.records if "UNFORMATTABLE" in r[2]]
    ctx.check(not bad, "log message", "{}", bad[:2])


def body_(ctx, plan):
    probs = plan["problems"]
    calls = plan["calls"]
    mats = [matrices(p) for p in probs]
    qs = [qobjs(p, m) for p, m in zip(probs, mats)]
    alone = []
    costs = {"la.qexpm": plan["cost"]}

    def one(w, i, scope=None, nest=None):
        """Call number i; returns (result or None, exception, bar, ...)"""
        c = calls[i]
        p = c["prob"]
        bar = None
        given = False
        if c["bar"] == "sim":
            given = bar = Bar(w, scope, nest)
        elif c["bar"] == "qutip":
            from qutip.ui.progressbar import BaseProgressBar
            given = BaseProgressBar(c["R"])
        args, kw = arguments(c, probs[p], qs[p], given)
        before = frozen(args), frozen(kw)
        rnd = np.random.get_state()[2] if w.scope is None else None
        res = exc = None
        try:
            res = ctx.sut(getattr(grape, c["func"]), *args, **kw)
        except BaseException as e:
            if not getattr(e, "sim_injected", False):
                raise
            exc = e
        ctx.check((frozen(args), frozen(kw)) == before, "arguments",
                  "{} changed its arguments", c["func"])
        if rnd is not None:
            ctx.check(np.random.get_state()[2] == rnd, "random numbers",
                      "{} drew random numbers", c["func"])
        return {"res": res, "exc": exc, "bar": bar, "args": args, "kw": kw}

    # undisturbed, one after the other
    with ctx.world(costs=costs, use_fs=False) as w:
        logged(ctx, plan)
        for i, c in enumerate(calls):
            o = one(w, i)
            r = o["res"]
            verify(ctx, c, probs[c["prob"]], mats[c["prob"]], r, o["bar"],
                   o["args"], o["kw"])
            d = digest(r)
            # the arguments are the caller's again
            for x in (o["args"][4], o["kw"].get("u_start")):
                if isinstance(x, np.ndarray):
                    x[...] = 7
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, list):
                            y[:] = [7.0] * len(y)
                    x[:] = [7.0] * len(x)
            ctx.check(digest(r) == d, "aliasing",
                      "{}: changing the arguments after the call changed "
                      "its result", c["func"])
            co = coefficients(r, c, np.linspace(
                c["t_first"], c["t_first"] + c["T"], c["M"]))
            last = np.asarray(r.u)[-1]
            ctx.check(not np.all(np.isfinite(last)) or
                      close(co, last, 1e-9 * max(1.0, np.abs(last).max())),
                      "aliasing",
                      "{}: changing the arguments after the call changed "
                      "its Hamiltonian", c["func"])
            alone.append({"d": d, "res": r, "n": o["bar"] and o["bar"].updates})
            w.ev("alone", i, np.asarray(r.u))
        check_log(ctx)

    if plan.get("other"):
        others(ctx, calls, probs, mats, qs, one)
    if plan.get("overlap") is not None:
        overlaps(ctx, plan["overlap"])

    # the world meddles
    hit = []
    if plan["threads"]:
        threads(ctx, plan, calls, costs, one, alone, hit)
    else:
        sequence(ctx, plan, calls, costs, one, alone, hit)
    for i, c in enumerate(calls):
        # and nothing was left behind: results of the first phase untouched
        ctx.check(digest(alone[i]["res"]) == alone[i]["d"], "aliasing",
                  "{}: later calls changed the result of an earlier one",
                  c["func"])
    if hit:
        ctx.probe("disturbed", len(hit))


def others(ctx, calls, probs, mats, qs, one):
    """The same lists, with other operators in them."""
    olds = [list(q[1]) for q in qs], list(mats)
    for k, (h0, hs, u) in enumerate(mats):
        a = [-0.5 * hs[0]] + [h + 0.25 * np.eye(len(h)) for h in hs[1:]]
        mats[k] = (h0, a, u)
        qs[k][1][:] = qobjs(probs[k], mats[k])[1]
    with ctx.world(use_fs=False) as w:
        for i, c in enumerate(calls):
            o = one(w, i)
            verify(ctx, c, probs[c["prob"]], mats[c["prob"]], o["res"],
                   o["bar"], o["args"], o["kw"])
    for q, l in zip(qs, olds[0]):
        q[1][:] = l
    mats[:] = olds[1]
    ctx.probe("other operators")


def overlaps(ctx, seed):
    """cy_overlap is the normalised scalar product, for all formats."""
    import qutip_qtrl.cy_grape as cy_grape

    r = np.random.RandomState(seed)
    n = int(r.choice([1, 2, 3, 4, 6, 9]))
    ms = []
    for _ in range(2):
        m = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
        ms.append(m * (r.rand(n, n) < r.choice([0.1, 0.4, 1.0])))
    want = np.trace(ms[0].conj().T @ ms[1]) / n
    fs = [("Dense", "CSR", "Dia")[r.randint(3)] for _ in range(2)]
    a, b = [Qobj(m).to(f).data for m, f in zip(ms, fs)]
    got = ctx.sut(cy_grape.cy_overlap, a, b)
    ctx.check(abs(got - want) <= 1e-12 * (1 + abs(want)), "overlap",
              "cy_overlap of {}: {} instead of {}", fs, got, want)
    ctx.probe("overlaps")


def compare(ctx, i, c, o, alone, injected):
    """A call in the meddling world against the undisturbed one."""
    if o["exc"] is not None:
        ctx.probe("interrupted")
        ctx.state(c["func"], c["interp"], type(o["exc"]).__name__,
                  o["bar"].updates if o["bar"] else None)
        b = o["bar"]
        if b is not None and not any("finished" in x for x in injected):
            ctx.check(b.finishes == 0, "progress",
                      "{}: interrupted, but the progress bar was told of the "
                      "end", c["func"])
        return
    ctx.check(not injected, "swallowed", "{}: injected exception {} had no "
              "consequences", c["func"], injected)
    d = digest(o["res"])
    bad = sorted(k for k in set(d) | set(alone["d"])
                 if d.get(k) != alone["d"].get(k))
    ctx.check(not bad, "not isolated", "{}: {} differ from the undisturbed "
              "call", c["func"], bad)
    if o["bar"] is not None:
        ctx.check(o["bar"].updates == alone["n"] and o["bar"].finishes == 1,
                  "progress", "{}: {} updates, {} ends / undisturbed {}",
                  c["func"], o["bar"].updates, o["bar"].finishes, alone["n"])
    ctx.probe("results compared")


def sequence(ctx, plan, calls, costs, one, alone, hit):
    with ctx.world(costs=costs, faults=plan["faults"], use_fs=False) as w:
        logged(ctx, plan)
        depth = [0]

        def run(i, outer=None):
            c = calls[i]
            w0 = len(w.injected)
            scope = "t%d" % i
            nest = None
            if c["nest"] and depth[0] == 0 and c["bar"] == "sim":
                def nested():
                    j = c["nest"][1]
                    depth[0] += 1
                    sc = w.scope
                    try:
                        hit.append("nested")
                        ctx.state(c["func"], calls[j]["func"], c["nest"][0])
                        run(j)
                    finally:
                        depth[0] -= 1
                        w.scope = sc
                nest = [c["nest"][0], nested]
            old, w.scope = w.scope, scope
            try:
                o = one(w, i, scope, nest)
            finally:
                w.scope = old
            # (those of a nested call are dealt with by that call)
            mine = [e for e in w.injected[w0:] if not getattr(e, "seen", 0)]
            for e in mine:
                e.seen = 1
            if o["exc"] is not None:
                ctx.check(o["exc"] in mine, "exception", "{} is not the "
                          "injected exception", repr(o["exc"]))
            compare(ctx, i, c, o, alone[i], [
                repr(e) + fin(w, e) for e in mine])
            w.ev("call", i, o["exc"], o["bar"] and o["bar"].updates)

        for i in range(len(calls)):
            run(i)
        # once more, undisturbed
        w.armed = False
        for i in range(len(calls)):
            o = one(w, i)
            compare(ctx, i, calls[i], o, alone[i], [])
        hit.extend(f for f in w.faults if f.get("done"))


def fin(w, e):
    """Was it injected at the end of the progress bar?"""
    ks = [x for x in w.events if x.startswith("FAULT") and "finished" in x]
    return " finished" if ks else ""


def threads(ctx, plan, calls, costs, one, alone, hit):
    with ctx.world(costs=costs, faults=plan["faults"], use_fs=False,
                   max_steps=2000000) as w:
        logged(ctx, plan)
        dirs = set()

        def swap(i, j):
            w.scope = "t%d" % j

        def note(i, j, name):
            dirs.add((i, j))
            w.ev("switch", s.steps, i, j)
            ctx.state(name, calls[i]["func"], calls[j]["func"])

        s = sched.Sched(plan["switches"], plan["opcodes"], swap, note,
                        plan["hot"])
        try:
            res = s.run([(lambda i=i: one(w, i, "t%d" % i))
                         for i in range(len(calls))])
        finally:
            w.scope = None
        if s.done_switches:
            w.fired["preemption"] = s.done_switches
        w.ev("steps", s.steps)
        for i, (c, o) in enumerate(zip(calls, res)):
            # each exception must have reached the caller of its thread
            compare(ctx, i, c, o, alone[i], [] if o["exc"] is None else [
                repr(o["exc"]) + fin(w, o["exc"])])
        out = [o["exc"] for o in res if o["exc"] is not None]
        lost = [repr(e) for e in w.injected if e not in out]
        ctx.check(not lost, "swallowed", "injected exceptions {} had no "
                  "consequences", lost)
        if len(dirs) > 1:
            hit.append("interleaved")


def nontrivial(out):
    return out.probes.get("disturbed", 0) > 0
