"""C09: aborted or repeated optimisations leave the objects reusable."""
import numpy as np

from .. import systems as S
from .. import episode as E
from .. import trace as T

ID = "C09"
RULE = (
    "One run = one random problem on which a random sequence of up to three "
    "optimisations is made with the same objects, most of them aborted by an "
    "exception injected into the linear algebra, an objective or gradient "
    "call, the iteration callback or the minimiser itself (also while "
    "initialising), with changed limits, bounds, method, target, time grid "
    "or pulse in between; the last one is compared bit for bit with fresh "
    "objects made with those settings. Non-trivial when a second run was "
    "compared. States: (configuration class, method, what aborted where, "
    "what was changed)."
)
ASSUMPTIONS = [
    "a run is preceded by initialize_controls, as in the documentation",
    "dumps are not compared here (they accumulate by design)",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer",
        "scipy minimisers (part of the runs)"]
STUB = ["clock", "random stream", "minimiser (scripted runs)"]
TECHNIQUE = (
    "injected exceptions at scheduled points of simulated optimisations, "
    "then a twin run on fresh objects compared bit for bit"
)
LEVEL_NOTE = "Seeded sampling of problems, fault points and changes."
N_QUICK = 12000
N_THOROUGH = 120000

EXCS = ["MemoryError", "LinAlgError", "KeyboardInterrupt", "RuntimeError",
        "FloatingPointError"]
GENERIC = ["L-BFGS-B", "CG", "BFGS", "TNC", "SLSQP"]


def gen_change(rng, cfg, run):
    ch = {"seed": int(rng.randint(1 << 30)), "tc_how": S.choice(rng, ["attrs", "new"])}
    crab = run["alg"] == "CRAB"
    if rng.rand() < 0.7:
        r2 = E.gen_run(rng, cfg, alg=run["alg"])
        ch["tc"] = r2["tc"]
        if ch["tc"]["max_calls"] is None:
            ch["tc"]["max_calls"] = 60
    if rng.rand() < 0.4 and not crab and not E.real_approx(run):
        ch["bounds"] = S.choice(
            rng, [[None, None], [-1.0, 1.0], [-0.3, 0.3], [None, 0.5],
                  [0.0, None], [-0.5, 0.0]])
    if rng.rand() < 0.3 and run["method"] in GENERIC:
        ch["method"] = S.choice(rng, GENERIC)
    if rng.rand() < 0.25:
        ch["target"] = bool(rng.rand() < 0.8)
    if rng.rand() < 0.25 and not (cfg["td_drift"] or cfg["td_ctrl"] or crab):
        n = int(S.choice(rng, [1, 2, 3, 4, 6]))
        ch["tau"] = [round(float(x), 3) for x in rng.uniform(0.05, 0.6, n)]
    if run["script"] is not None:
        ch["script"] = E.gen_script(rng)
    if rng.rand() < 0.2:
        ch["mparams"] = {"accuracy_factor": 1e3} if run["method"] == "FMIN_L_BFGS_B" else None
    return ch


def gen_faults(rng, p=0.8):
    fs = []
    if rng.rand() < p:
        for _ in range(int(S.choice(rng, [1, 2], [4, 1]))):
            fs.append({
                "seam": S.choice(rng, ["la", "min.f", "min.g", "min.cb", "min.own"], [5, 2, 2, 2, 1]),
                "n": int(rng.randint(1, int(S.choice(rng, [4, 12, 60])))),
                "act": "raise", "exc": S.choice(rng, EXCS),
                "when": S.choice(rng, ["before", "after"]),
            })
    return fs


def gen(rng, tier):
    cfg = S.gen_config(rng, small=rng.rand() < 0.7)
    run = E.gen_run(rng, cfg)
    if run["tc"]["max_calls"] is None:
        run["tc"]["max_calls"] = 60
    n = int(S.choice(rng, [2, 3], [4, 1]))
    steps = [{"faults": gen_faults(rng), "change": {"seed": int(rng.randint(1 << 30))}}]
    for i in range(1, n):
        steps.append({
            "faults": gen_faults(rng) if i < n - 1 else [],
            "change": gen_change(rng, cfg, run),
        })
    return {"cfg": cfg, "run": run, "steps": steps,
            "lvl": bool(rng.rand() < 0.2)}


class State:
    """The settings in force, as a fresh construction would be given."""

    def __init__(self, cfg, run):
        self.cfg, self.run = dict(cfg), dict(run)
        self.alt = False
        self.over = {}

    def update(self, ch):
        if "tc" in ch:
            self.run["tc"] = dict(ch["tc"])
        if "bounds" in ch:
            self.run["bounds"] = ch["bounds"]
        if "method" in ch:
            self.run["method"] = ch["method"]
        if "tau" in ch:
            self.cfg["tau"] = ch["tau"]
            self.cfg["n_ts"] = len(ch["tau"])
        if "target" in ch:
            self.alt = ch["target"]
        self.run["script"] = ch.get("script", self.run["script"])


def parts_of(st, base):
    import copy

    p = copy.copy(base)
    if st.alt:
        p.target = base.target_alt
    return p


def apply_change(ctx, optim, ch, st, base):
    """The same settings, set on existing objects."""
    dyn = optim.dynamics
    if "bounds" in ch:
        optim.amp_lbound, optim.amp_ubound = ch["bounds"]
        if st.run["alg"] == "GRAPE":
            p = optim.pulse_generator
            p.lbound, p.ubound = ch["bounds"]
    if "method" in ch:
        optim.method = ch["method"]
    if "target" in ch:
        p = parts_of(st, base)
        dyn.target = S.Qobj(p.target, dims=p.idims)
    if "tau" in ch:
        ctx.sut(setattr, dyn, "tau", np.array(ch["tau"]))


def set_tc(optim, tc, how):
    import qutip_qtrl.termcond as termcond

    t = optim.termination_conditions if how == "attrs" else (
        termcond.TerminationConditions()
    )
    t.fid_err_targ = tc["targ"]
    t.min_gradient_norm = tc["min_grad"]
    t.max_iterations = tc["max_iter"]
    t.max_wall_time = tc["max_wall"]
    t.max_fid_func_calls = tc["max_calls"]
    return None if how == "attrs" else t


def start(ctx, ep, st, seed):
    np.random.seed(seed)
    if st.run["alg"] == "CRAB":
        ep.start_pulse()
    else:
        ep.start_pulse(
            np.random.RandomState(seed).normal(
                size=(st.cfg["n_ts"], st.cfg["n_ctrls"])
            ) * 0.4
        )


def body(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    st = State(cfg, run)
    base = S.make_parts(cfg)
    aborted = []
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   max_steps=400000) as w:
        ep = E.Episode(ctx, w, cfg, run, base)
        ep.make()
        optim = ep.optim
        optim.method_params = None
        for i, s in enumerate(plan["steps"]):
            ch = s["change"]
            w.faults = []
            st.update(ch)
            e = E.Episode(ctx, w, st.cfg, st.run, base)
            e.optim = optim
            e.minim.probe_amps = lambda: optim.dynamics.ctrl_amps
            apply_change(ctx, optim, ch, st, base)
            new = set_tc(optim, st.run["tc"], ch.get("tc_how", "attrs"))
            n0 = len(w.injected)
            for f in s["faults"]:
                w.faults.append(dict(f, n=w.counts.get(f["seam"], 0) + f["n"]))
            try:
                start(ctx, e, st, ch["seed"])
            except BaseException as x:
                if not getattr(x, "sim_injected", False):
                    raise
                check_abort(ctx, w, x, n0)
                aborted.append("init:" + type(x).__name__)
                ctx.probe("aborted while initialising")
                continue
            e.optimise(new)
            if len(w.injected) > n0:
                check_abort(ctx, w, e.exc, n0)
                st_ = e.start
                where = "before"
                if st_ is not None:
                    where = e.terminated_by()["t"] if e.terminated_by() else "own"
                aborted.append(where + ":" + type(e.exc).__name__)
                ctx.probe("aborted in " + where)
            else:
                aborted.append("no")
        w.faults = []
        last = e
        trace = T.of_episode(last, times=True, stats=True)
    ch = plan["steps"][-1]["change"]
    with ctx.world(np_seed=run["np_seed"] + 1, costs=run["costs"],
                   max_steps=400000) as w:
        f = E.Episode(ctx, w, st.cfg, st.run, parts_of(st, base))
        f.make()
        f.optim.method_params = None
        new = set_tc(f.optim, st.run["tc"], "attrs")
        start(ctx, f, st, ch["seed"])
        f.optimise(new)
        fresh = T.of_episode(f, times=True, stats=True)
    d = T.difference(fresh, trace)
    ctx.check(
        d is None, "differs",
        "after {} the next run differs from fresh objects (fresh / reused): {}",
        aborted[:-1], d,
    )
    ctx.probe("runs compared")
    if f.events:
        ctx.probe("events", len(f.events))
    ctx.state(cfg["dyn"], cfg["prop_eff"], cfg["fid_eff"], cfg["dtype"],
              run["method"], tuple(aborted[:-1]), tuple(sorted(ch)))


def check_abort(ctx, w, exc, n0):
    inj = w.injected[n0:]
    ctx.check(
        exc is not None, "swallowed",
        "{!r} was injected but a normal result was returned", inj[0],
    )
    ctx.check(
        any(exc is x for x in inj), "changed exception",
        "{!r} was injected but {!r} came out", inj[0], exc,
    )


def nontrivial(out):
    return out.probes.get("runs compared", 0) > 0
