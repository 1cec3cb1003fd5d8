"""C11: optimisations are reproducible."""
import contextlib
import gc
import os

import numpy as np

from .. import env
from .. import systems as S
from .. import episode as E
from .. import trace as T

ID = "C11"
RULE = (
    "One run = one random optimisation, made twice from the same inputs and "
    "random generator state; in between, other random optimisations use the "
    "library in the same process (completed, aborted by injected exceptions, "
    "with other settings, their objects modified afterwards), and the "
    "repetition starts at another time, directory and environment. Traces, "
    "dumps, results and the random state afterwards must be equal bit for "
    "bit. The first runs are also repeated in fresh interpreters with other "
    "hash seeds, time zones and home directories. Non-trivial when at least "
    "one evaluation was compared. States: (configuration class, method, "
    "kinds of the preceding uses)."
)
ASSUMPTIONS = [
    "same machine and library versions; one thread per process",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer",
        "scipy minimisers (part of the runs)", "fresh interpreters"]
STUB = ["clock", "random stream", "minimiser (scripted runs)"]
TECHNIQUE = (
    "replay of simulated optimisations after random preceding uses with "
    "injected aborts, and in fresh interpreters; traces compared bit for bit"
)
LEVEL_NOTE = "Seeded sampling of problems and of preceding uses."
N_QUICK = 5400
N_THOROUGH = 90000
DETERMINISM_IS_PROPERTY = True
SELFTEST = 480
SELFTEST_THOROUGH = 8000

EXCS = ["MemoryError", "LinAlgError", "KeyboardInterrupt", "RuntimeError"]


RANDOM = ["RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2"]


def gen_run(rng):
    cfg = S.gen_config(rng, small=rng.rand() < 0.7)
    run = E.gen_run(rng, cfg, alg="CRAB" if rng.rand() < 0.15 else None)
    return {
        "cfg": cfg, "run": run,
        "func": E.fit_function(rng, cfg, run) if rng.rand() < 0.6 else None,
        "dump": S.choice(rng, [None, "FULL", "SUMMARY"], [3, 1, 1]),
        "file": bool(rng.rand() < 0.3),
        "seed": int(rng.randint(1 << 30)),
        # dynamics parameters whose effect depends on their order
        "order": int(rng.randint(1, 1 << 30)) if rng.rand() < 0.35 else None,
    }


def gen(rng, tier):
    plan = {"main": gen_run(rng), "before": []}
    for _ in range(int(S.choice(rng, [0, 1, 2], [1, 5, 2]))):
        b = gen_run(rng)
        if rng.rand() < 0.4:
            # nearly the same problem again
            b["cfg"] = dict(plan["main"]["cfg"])
            if rng.rand() < 0.5:
                b["cfg"]["mseed"] = int(rng.randint(1, 10**6))
            b["run"] = E.gen_run(rng, b["cfg"])
            b["func"] = None
        b["faults"] = []
        if rng.rand() < 0.5:
            b["faults"].append({
                "seam": S.choice(rng, ["la", "min.f", "min.g", "min.cb"]),
                "n": int(rng.randint(1, 40)), "act": "raise",
                "exc": S.choice(rng, EXCS),
                "when": S.choice(rng, ["before", "after"]),
            })
        b["level"] = S.choice(rng, [None, 6, 10, 20], [3, 1, 1, 1])
        b["spoil"] = bool(rng.rand() < 0.6)
        plan["before"].append(b)
    if rng.rand() < 0.25:
        plan["main"]["run"]["pulse"]["type"] = S.choice(rng, RANDOM)
    # pulses of many slots, made after the run
    plan["main"]["pulses"] = [
        [S.choice(rng, RANDOM), int(S.choice(rng, [2, 7, 33, 64, 130, 257]))]
        for _ in range(int(S.choice(rng, [0, 1, 3], [3, 2, 1])))
    ]
    plan["t0"] = float(S.choice(rng, [0.0, 2048.0, 1e9]))
    plan["env"] = bool(rng.rand() < 0.5)
    # objects of an earlier run are gone, and the new ones lie where they did
    plan["reuse"] = bool(plan["before"] and rng.rand() < 0.4)
    return plan


class Placed:
    """Makes the quantum objects of a run at the addresses of earlier ones.

    What is placed where must not matter, hence is not recorded.
    """

    def __init__(self):
        self.want = None  # role -> address
        self.made = {}
        self.on = False

    def __enter__(self):
        self.real = S.qobjs
        S.qobjs = self.qobjs
        return self

    def __exit__(self, *a):
        S.qobjs = self.real

    def qobjs(self, cfg, parts):
        drift, ctrls, initial, target = self.real(cfg, parts)
        if self.on and self.want:
            target = self.place("target", target)
            initial = self.place("initial", initial)
            if isinstance(drift, S.Qobj):
                drift = self.place("drift", drift)
            if isinstance(ctrls, list):
                ctrls = [self.place("ctrl%d" % j, c) for j, c in enumerate(ctrls)]
        elif not self.on:
            self.made = {"target": id(target), "initial": id(initial)}
            if isinstance(drift, S.Qobj):
                self.made["drift"] = id(drift)
            if isinstance(ctrls, list):
                for j, c in enumerate(ctrls):
                    self.made["ctrl%d" % j] = id(c)
        return drift, ctrls, initial, target

    def place(self, role, q):
        at = self.want.get(role)
        if at is None or id(q) == at:
            return q
        keep = []
        for _ in range(400):
            c = S.Qobj(q.full(), dims=q.dims)
            if id(c) == at:
                return c
            keep.append(c)
        return q


def go(ctx, r, t0=1024.0, faults=(), level=None):
    cfg, run = r["cfg"], r["run"]
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"], t0=t0,
                   faults=faults, max_steps=400000) as w:
        ep = E.Episode(ctx, w, cfg, run)
        over = {}
        if r["dump"]:
            over["optim_params"] = {"dumping": r["dump"]}
            over["dyn_params"] = dict(S.dyn_params(cfg), dumping=r["dump"])
            if r["file"]:
                over["optim_params"].update(
                    dump_to_file=True, dump_dir=os.path.join(w.scratch, "d"))
        late = None
        if r.get("order"):
            late = ordered(cfg, r, over, w)
        if level is not None:
            over["log_level"] = level
        try:
            if r["func"]:
                E.call_function(ep, r["func"], **over)
            else:
                ep.make(**over)
                if late:
                    # set again on the finished object; the last one wins
                    ctx.sut(ep.optim.dynamics.apply_params, late)
                ep.start_pulse()
                ep.optimise()
        except BaseException as e:
            if not getattr(e, "sim_injected", False):
                raise
            ep.exc = e
        sig = T.of_episode(ep, times=True, stats=True)
        for t, n in r.get("pulses", ()):
            import qutip_qtrl.pulsegen as pulsegen

            g = ctx.sut(pulsegen.create_pulse_gen, pulse_type=t)
            g.num_tslots, g.pulse_time = n, 3.0
            g.tau = np.ones(n) * 3.0 / n
            ctx.sut(g.init_pulse)
            p = [ctx.sut(g.gen_pulse) for _ in range(2)]
            sig.setdefault("pulses", []).append(T.val(p))
            w.ev("pulse", t, np.array(p))
            ctx.probe("pulses")
        rs = np.random.get_state()
        sig["random"] = rs[1].tobytes() + bytes(str(rs[2:]), "ascii")
        sig["files"] = files(w)
        if ep.optim is not None:
            sig["dumps"] = dumps(ep.optim)
        for k in sorted(sig["result"]):
            w.ev("result", k, np.frombuffer(repr(sig["result"][k]).encode(), "u1"))
        w.ev("random", np.frombuffer(sig["random"], "u1"))
        w.ev("files", sorted((a, len(b)) for a, b in sig["files"].items()))
        return sig, ep


def ordered(cfg, r, over, w):
    rs = np.random.RandomState(r["order"])
    n = cfg["n_ts"] if cfg["tau"] is None else len(cfg["tau"])
    dp = over.get("dyn_params") or S.dyn_params(cfg)
    new = dict(dp, tau=0.2 + rs.randint(1, 6, size=n) / 16.0,
               evo_time=float(rs.randint(4, 40)) / 8.0)
    if rs.rand() < 0.5:
        new["num_tslots"] = n
    if rs.rand() < 0.5:
        new["dump_dir"] = os.path.join(w.scratch, "o")
    keys = list(new)
    rs.shuffle(keys)
    over["dyn_params"] = {k: new[k] for k in keys}
    if "optim_params" in over:
        op = over["optim_params"]
        keys = list(op)
        rs.shuffle(keys)
        over["optim_params"] = {k: op[k] for k in keys}
    timing = [k for k in over["dyn_params"] if k in ("tau", "evo_time", "num_tslots")]
    return {k: new[k] for k in timing}


def files(w):
    out = {}
    for d, _, names in os.walk(w.scratch):
        for n in sorted(names):
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, w.scratch)] = f.read()
    return out


def dumps(optim):
    out = []
    od, dd = optim.dump, optim.dynamics.dump
    if od is not None:
        for s in od.iter_summary:
            out.append(("iter",) + tuple(
                T.val(getattr(s, n)) for n in s.summary_property_names))
        for log in (od.fid_err_log, od.grad_norm_log, od.grad_log):
            out.append(tuple(T.val(x) for x in log))
    if dd is not None:
        for s in dd.evo_summary:
            out.append(("evo",) + tuple(
                T.val(getattr(s, n)) for n in s.summary_property_names))
        for it in dd.evo_dumps:
            out.append(tuple(
                T.val(getattr(it, n)) for n in
                ("ctrl_amps", "dyn_gen", "prop", "fwd_evo", "onwd_evo", "onto_evo")))
    return out


def spoil(optim, seed):
    """Modify everything public of objects that are no longer needed."""
    dyn = optim.dynamics
    objs = [optim, optim.config, optim.termination_conditions, dyn, dyn.config,
            dyn.tslot_computer, dyn.prop_computer, dyn.fid_computer,
            optim.stats, optim.dump, dyn.dump]
    pg = optim.pulse_generator
    objs += list(pg) if isinstance(pg, (list, tuple)) else [pg]
    for o in objs:
        if o is None:
            continue
        for k in sorted(vars(o)):
            if k.startswith("_"):
                continue
            v = getattr(o, k)
            if isinstance(v, dict):
                v["spoiled"] = 1
                for q in list(v):
                    if isinstance(v[q], (int, float)) and not isinstance(v[q], bool):
                        v[q] = v[q] + 1
            elif isinstance(v, bool):
                setattr(o, k, not v)
            elif isinstance(v, (int, float)):
                setattr(o, k, v + 1)
            elif isinstance(v, np.ndarray) and v.dtype != object and v.flags.writeable:
                v.fill(7)


def body(ctx, plan):
    with Placed() as placed:
        body_(ctx, plan, placed)


def body_(ctx, plan, placed):
    reuse = plan.get("reuse")
    if reuse:
        gc.freeze()
    a, ep = go(ctx, plan["main"])
    kinds = []
    for b in plan["before"]:
        sig, ep2 = go(ctx, b, 512.0, b["faults"], b["level"])
        ctx.probe("preceding uses")
        kinds.append(("aborted" if ep2.exc is not None else "done", b["spoil"]))
        if b["spoil"] and ep2.optim is not None:
            # parts of the optimiser may be missing after an early abort
            with contextlib.suppress(AttributeError):
                spoil(ep2.optim, b["seed"])
            ctx.probe("objects modified afterwards")
    if reuse:
        # nothing of the last run is left
        placed.want = dict(placed.made)
        sig = ep2 = None
        for w in ctx.worlds[1:]:
            w.minim = None
            for e in w.injected:
                e.__traceback__ = e.__context__ = e.__cause__ = None
        gc.collect()
        placed.on = True
        ctx.probe("addresses used again")
    saved = dict(os.environ)
    if plan["env"]:
        os.environ.update(TZ="Asia/Tokyo", LANG="de_DE.UTF-8", USER="somebody",
                          COLUMNS="17")
    try:
        c, ep3 = go(ctx, plan["main"], plan["t0"])
    finally:
        for k in set(os.environ) - set(saved):
            del os.environ[k]
        os.environ.update(saved)
    d = T.difference(a, c)
    ctx.check(d is None, "not repeated",
              "first / repeated run differ at {} after {}", d, kinds)
    ctx.check(a["random"] == c["random"], "random state",
              "the random generator is left in another state")
    ctx.check(a.get("pulses") == c.get("pulses"), "pulses",
              "pulses {} differ", plan["main"]["pulses"])
    ctx.check(a.get("dumps") == c.get("dumps"), "dumps", "the dumps differ")
    bad = [k for k in set(a["files"]) | set(c["files"])
           if a["files"].get(k) != c["files"].get(k)]
    ctx.check(not bad, "files", "files differ: {}", sorted(bad))
    if ep.events:
        ctx.probe("events", len(ep.events))
    cfg = plan["main"]["cfg"]
    ctx.state(cfg["dyn"], cfg["prop_eff"], cfg["fid_eff"], cfg["dtype"],
              plan["main"]["run"]["method"], plan["main"]["func"], tuple(kinds))


def nontrivial(out):
    return out.probes.get("events", 0) > 0
