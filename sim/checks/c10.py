"""C10: concurrent optimisations in one process do not affect each other."""
import contextlib
import io
import os

import numpy as np

from .. import systems as S
from .. import episode as E
from .. import sched
from .. import trace as T
from .c11 import dumps, files

ID = "C10"
RULE = (
    "One run = two or three random optimisations, each with objects of its "
    "own, first one after the other, then at the same time in real threads "
    "under a scheduler that decides between any two lines (in part: any two "
    "bytecodes) of the library which thread continues; some of them are "
    "aborted by an injected exception, some use a second optimisation on the "
    "same objects. Everything that crosses the interface to the minimiser, "
    "results, statistics, dumps and files of each thread must be equal bit "
    "for bit to those of the sequential execution. Non-trivial when at least "
    "one switch happened in both directions. States: (function preempted, "
    "function the other thread was in, combination of classes)."
)
ASSUMPTIONS = [
    "the clock and the random stream are per thread (the simulator exchanges "
    "them with the running thread): reading the wall clock and drawing "
    "numbers from numpy's global generator are shared by design",
    "log levels are shared by all objects by design",
    "preemption inside numpy, scipy and qutip is not simulated",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer",
        "Python threads", "scipy minimisers (part of the runs)"]
STUB = ["thread scheduler", "clock", "random stream",
        "minimiser (scripted runs)", "file system"]
TECHNIQUE = (
    "deterministic scheduling of real threads with preemption between lines "
    "and bytecodes; traces compared with sequential execution"
)
LEVEL_NOTE = "Seeded sampling of problems and of preemption points."
N_QUICK = 2000
N_THOROUGH = 25000
CHUNK = 8

EXCS = ["MemoryError", "LinAlgError", "KeyboardInterrupt", "RuntimeError"]


def gen_switches(rng):
    scale = float(S.choice(rng, [1, 4, 20, 80, 300, 1500]))
    n = int(S.choice(rng, [3, 12, 40, 150]))
    first = int(rng.randint(0, int(S.choice(rng, [5, 300, 5000]))))
    out = []
    for i in range(n):
        if i and rng.rand() < 0.1:
            scale = float(S.choice(rng, [1, 4, 20, 80, 300, 1500]))
        gap = 1 + int(rng.exponential(scale))
        out.append([gap + (first if i == 0 else 0), int(rng.randint(2))])
    return out


def gen_hot(rng):
    m = int(S.choice(rng, [7, 23, 61, 151]))
    return [m, int(rng.randint(m)), int(S.choice(rng, [1, 2, 5], [3, 1, 1])),
            int(S.choice(rng, [30, 200, 1000]))]


def gen(rng, tier):
    n = int(S.choice(rng, [2, 3], [4, 1]))
    threads = []
    for i in range(n):
        if threads and rng.rand() < 0.45:
            # nearly the same problem: mix ups are not noticed by their shape
            cfg = dict(threads[0]["cfg"])
            if rng.rand() < 0.6:
                cfg["mseed"] = int(rng.randint(1, 10**6))
        else:
            cfg = S.gen_config(rng, small=True)
        run = E.gen_run(rng, cfg, alg="CRAB" if rng.rand() < 0.2 else None)
        tc = run["tc"]
        tc["max_calls"] = min(tc["max_calls"] or 12, 12)
        run["costs"] = E.gen_costs(rng)
        run["costs"].pop("qmul")
        run["costs"].pop("qadd")
        t = {
            "cfg": cfg, "run": run,
            "func": E.fit_function(rng, cfg, run) if rng.rand() < 0.5 else None,
            "dump": S.choice(rng, [None, "SUMMARY", "FULL"], [3, 1, 1]),
            "file": bool(rng.rand() < 0.3),
            "level": S.choice(rng, [None, 10, 20], [6, 1, 1]),
            "again": bool(rng.rand() < 0.2), "faults": [],
        }
        if rng.rand() < 0.5:
            # settings of its own for each thread
            t["set"] = {"max_metric_corr": 3 + i, "accuracy_factor": 1e3 + i,
                        "pulse_type": ["LIN", "ZERO", "RND"][i]}
        if rng.rand() < 0.2:
            t["faults"].append({
                "seam": "t{}.".format(i) + S.choice(
                    rng, ["la", "min.f", "min.g", "min.cb"]),
                "n": int(rng.randint(1, 25)), "act": "raise",
                "exc": S.choice(rng, EXCS),
                "when": S.choice(rng, ["before", "after"]),
            })
        threads.append(t)
    return {"threads": threads, "switches": gen_switches(rng),
            "opcodes": bool(rng.rand() < 0.2),
            "hot": None if rng.rand() < 0.4 else gen_hot(rng)}


SHRINK_FIXED = ("cfg",)


def attributes(optim, scratch):
    """Every setting of every component of the optimiser."""
    dyn = optim.dynamics
    pg = optim.pulse_generator
    pgs = list(pg) if isinstance(pg, (list, tuple)) else [pg]
    objs = {"optim": optim, "config": optim.config, "dyn": dyn,
            "tc": optim.termination_conditions}
    for n in ("config", "tslot_computer", "prop_computer", "fid_computer"):
        objs["dyn." + n] = getattr(dyn, n, None)
    for i, p in enumerate(pgs):
        objs["pulse%d" % i] = p
    out = {}
    for n, o in objs.items():
        for k, v in sorted(vars(o).items()) if o is not None else ():
            if isinstance(v, str):
                v = v.replace(scratch, "")
            if (v is None or isinstance(v, (str, bool, int, float, complex,
                                            np.number))) and k not in SHARED:
                out[n + "." + k] = repr(v)
    return out


# log levels are shared by design; running times have their own check
SHARED = {"_log_level", "log_level", "unitarity_check_level"}


def job(ctx, w, i, t, slot):
    """The work of one thread; returns its trace."""
    cfg, run = t["cfg"], t["run"]
    ep = slot["ep"]
    over = {}
    if t["dump"]:
        over["optim_params"] = {"dumping": t["dump"]}
        over["dyn_params"] = dict(S.dyn_params(cfg), dumping=t["dump"])
        if t["file"]:
            for k in over:
                over[k].update(dump_to_file=True, dump_dir=os.path.join(
                    w.scratch, "d{}".format(i)))
    if t["level"] is not None:
        over["log_level"] = t["level"]
    sigs = []
    try:
        if t["func"]:
            fn, pos, kw = E.function_call(cfg, run, ep.parts, t["func"], **over)
            ep.result = ctx.sut(fn, *pos, **kw)
        else:
            ep.make(**over)
            for k, v in t.get("set", {}).items():
                if hasattr(ep.optim.config, k):
                    setattr(ep.optim.config, k, v)
            ep.start_pulse()
            ep.optimise()
    except BaseException as e:
        if not getattr(e, "sim_injected", False):
            raise
        ep.exc = e
    sigs.append(T.of_episode(ep, times=True, stats=True))
    if t["again"] and ep.optim is not None and ep.result is not None:
        a = np.array(ep.result.initial_amps, float) * 0.5
        try:
            ep.ctx.sut(ep.optim.dynamics.initialize_controls, a)
            ep.minim.events, ep.minim.starts = [], []
            ep.optimise()
        except BaseException as e:
            if not getattr(e, "sim_injected", False):
                raise
            ep.exc = e
        sigs.append(T.of_episode(ep, times=True, stats=True))
    return {"sigs": sigs,
            "dumps": dumps(ep.optim) if ep.optim is not None else None,
            "attrs": attributes(ep.optim, w.scratch)
            if ep.optim is not None and ep.exc is None else {}}


class Env:
    """What belongs to a thread: clock, random stream, minimiser, costs."""

    def __init__(self, w, i, t):
        np.random.seed(t["run"]["np_seed"])
        self.state = np.random.get_state()
        self.now = w.t0
        self.costs = t["run"]["costs"]
        self.scope = "t{}".format(i)
        self.minim = None

    def load(self, w):
        w.now, w.costs, w.scope, w.minim = (
            self.now, self.costs, self.scope, self.minim)
        np.random.set_state(self.state)

    def save(self, w):
        self.now = w.now
        self.state = np.random.get_state()


def world(ctx, plan):
    faults = [f for t in plan["threads"] for f in t["faults"]]
    return ctx.world(np_seed=1, faults=faults, max_steps=2000000)


def prepare(ctx, w, plan):
    slots = []
    for i, t in enumerate(plan["threads"]):
        env = Env(w, i, t)
        ep = E.Episode(ctx, w, t["cfg"], t["run"], tag="t{}".format(i))
        env.minim = ep.minim
        slots.append({"ep": ep, "env": env})
    return slots


def collect(plan, w):
    out = {}
    for i in range(len(plan["threads"])):
        d = os.path.join(w.scratch, "d{}".format(i))
        if os.path.isdir(d):
            out[i] = {}
            for dd, _, names in os.walk(d):
                for n in sorted(names):
                    with open(os.path.join(dd, n), "rb") as f:
                        out[i][os.path.relpath(os.path.join(dd, n), d)] = f.read()
    return out


def catching(slots, current):
    def new(optim):
        ep = slots[current()]["ep"]
        ep.optim = optim
        ep.minim.probe_amps = lambda: optim.dynamics.ctrl_amps

    return E.CatchOptimizers(new)


def body(ctx, plan):
    with contextlib.redirect_stdout(io.StringIO()):
        body_(ctx, plan)


def body_(ctx, plan):
    ths = plan["threads"]
    # one after the other
    seq = []
    with world(ctx, plan) as w:
        slots = prepare(ctx, w, plan)
        cur = [0]
        with catching(slots, lambda: cur[0]):
            for i, t in enumerate(ths):
                cur[0] = i
                env = slots[i]["env"]
                env.load(w)
                seq.append(job(ctx, w, i, t, slots[i]))
                env.save(w)
        w.scope = None
        f1 = collect(plan, w)
        if "SimHang" in str(w.events[-1:]):
            return
    # at the same time
    with world(ctx, plan) as w:
        slots = prepare(ctx, w, plan)

        def swap(i, j):
            if i is not None:
                slots[i]["env"].save(w)
            slots[j]["env"].load(w)

        where = [None] * len(ths)
        dirs = set()

        def note(i, j, name):
            where[i] = name
            dirs.add((i, j))
            w.ev("switch", s.steps, i, j)
            ctx.state(name, where[j], ths[i]["cfg"]["dyn"], ths[j]["cfg"]["dyn"])

        s = sched.Sched(plan["switches"], plan["opcodes"], swap, note,
                        plan["hot"])
        with catching(slots, lambda: s.current):
            try:
                con = s.run([
                    (lambda i=i, t=t: job(ctx, w, i, t, slots[i]))
                    for i, t in enumerate(ths)
                ])
            finally:
                w.scope = None
        f2 = collect(plan, w)
        w.ev("steps", s.steps)
        ctx.probe("switches", s.done_switches)
        if s.done_switches:
            w.fired["preemption"] = w.fired.get("preemption", 0) + s.done_switches
        if s.forced:
            ctx.probe("waits for a lock", s.forced)
        ctx.probe("lines executed", s.steps)
    for i, t in enumerate(ths):
        a, b = seq[i], con[i]
        ctx.check(len(a["sigs"]) == len(b["sigs"]), "not isolated",
                  "thread {}: {} / {} runs", i, len(a["sigs"]), len(b["sigs"]))
        for k, (p, q) in enumerate(zip(a["sigs"], b["sigs"])):
            d = T.difference(p, q)
            ctx.check(d is None, "not isolated",
                      "thread {} of {}, run {}: alone / concurrently: {}",
                      i, len(ths), k, d)
        x, y = a["attrs"], b["attrs"]
        bad = {k: (x.get(k), y.get(k)) for k in sorted(set(x) | set(y))
               if x.get(k) != y.get(k)}
        ctx.check(not bad, "attributes", "thread {}: alone / concurrently: {}",
                  i, bad)
        ctx.check(a["dumps"] == b["dumps"], "dumps", "thread {}: dumps differ", i)
        x, y = f1.get(i), f2.get(i)
        ctx.check((x is None) == (y is None) and (x or {}).keys() == (y or {}).keys(),
                  "files", "thread {}: files {} / {}", i,
                  sorted(x or {}), sorted(y or {}))
        bad = [k for k in (x or {}) if x[k] != y[k]]
        ctx.check(not bad, "files", "thread {}: files differ: {}", i, bad)
        ctx.probe("traces compared")
    if len(dirs) > 1:
        ctx.probe("interleaved")


def nontrivial(out):
    return out.probes.get("interleaved", 0) > 0
