"""C05: observing an optimisation does not change it."""
import contextlib
import io
import os

import numpy as np

from .. import env
from .. import systems as S
from .. import episode as E
from .. import trace as T

ID = "C05"
RULE = (
    "One run = one random problem and algorithm, optimised once unobserved "
    "and once or twice under a random combination of observers (statistics, "
    "dumps in memory and to simulated files with short writes, any log "
    "level, unitarity checks, another clock with stalls, and reads, log "
    "level and dump changes at random points between evaluations). The "
    "values crossing the minimiser interface and the result must be equal "
    "bit for bit. Non-trivial when at least one evaluation was compared. "
    "States: (configuration class, observers, how the run ended)."
)
ASSUMPTIONS = [
    "no time limit is in force (the time limit is meant to depend on the "
    "clock), and no file system errors (those are the matter of C06 and C07)",
    "operators are read after compute_evolution; the gradient is only read "
    "where the algorithm has just computed it",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer",
        "scipy minimisers (part of the runs)"]
STUB = ["clock", "random stream", "minimiser (scripted runs)", "log handler",
        "files (real scratch directory behind the simulated seam)"]
TECHNIQUE = (
    "twin simulated runs of the same seed with and without observers acting "
    "at scheduled points; traces compared bit for bit"
)
LEVEL_NOTE = "Seeded sampling of problems, observers and acting points."
N_QUICK = 8000
N_THOROUGH = 120000

LEVELS = [6, 8, 10, 20, 30, 40, 50]
ACTS = [
    "evo", "ops", "fid", "amps", "level", "stats_report", "writeout", "repr",
    "result", "time", "grad",
]


def gen_obs(rng, crab):
    o = {
        "stats": bool(rng.rand() < 0.6),
        "level": S.choice(rng, [None] + LEVELS, [3, 3, 2, 2, 1, 1, 1, 1]),
        "how": S.choice(rng, ["param", "set"]),
        "odump": S.choice(rng, [None, "SUMMARY", "FULL", "CUSTOM"], [3, 1, 2, 1]),
        "ddump": S.choice(rng, [None, "SUMMARY", "FULL", "CUSTOM"], [3, 1, 2, 1]),
        "ofile": bool(rng.rand() < 0.4),
        "dfile": bool(rng.rand() < 0.3),
        "unit": S.choice(rng, [None, 0, 1, 2], [3, 1, 1, 1]),
        "costs": E.gen_costs(rng),
        "via": S.choice(rng, ["params", "attrs"]),
        "handler": bool(rng.rand() < 0.5),
        "acts": [],
        "faults": [],
    }
    for _ in range(int(S.choice(rng, [0, 2, 5]))):
        o["acts"].append({
            "n": int(rng.randint(0, 24)),
            "when": S.choice(rng, ["before", "after"]),
            "do": S.choice(rng, ACTS),
            "level": S.choice(rng, LEVELS),
        })
    for _ in range(int(S.choice(rng, [0, 1, 3]))):
        o["faults"].append(S.choice(rng, [
            {"seam": S.choice(rng, ["la", "min.cb", "min.f"]),
             "n": int(rng.randint(1, 30)), "act": "stall", "dt": 100.0},
            {"seam": "fs.write", "n": int(rng.randint(1, 30)), "act": "short",
             "bytes": int(rng.randint(1, 40))},
        ]))
    return o


def gen(rng, tier):
    cfg = S.gen_config(rng, small=rng.rand() < 0.7)
    run = E.gen_run(rng, cfg)
    run["tc"]["max_wall"] = 1e6
    run["stats"] = False
    crab = run["alg"] == "CRAB"
    obs = [gen_obs(rng, crab) for _ in range(int(S.choice(rng, [1, 2])))]
    verbose = any(
        (lv or 99) < 10 for o in obs
        for lv in [o["level"]] + [a["level"] for a in o["acts"]]
    )
    # Printing a Qobj makes qutip notice (and from then on use) that it is
    # hermitian to within its tolerance: rounding may change.
    approx = False
    if verbose and cfg["dtype"] != "ndarray":
        if rng.rand() < 0.6:
            for o in obs:
                for d in [o] + o["acts"]:
                    if (d["level"] or 99) < 10:
                        d["level"] = 10
        else:
            approx = True
            run["script"] = run["script"] or E.gen_script(rng)
            for a in run["script"]["acts"] + [run["script"]["end"]]:
                if a["x"] == "best":
                    a["x"] = "last"
    return {
        "cfg": cfg, "run": run, "approx": approx, "obs": obs,
        "func": E.fit_function(rng, cfg, run) if rng.rand() < 0.4 else None,
        "twice": bool(rng.rand() < 0.25),
        "tight": bool(rng.rand() < 0.25),
    }


class Acting:
    """Does what the plan says between the evaluations."""

    def __init__(self, ctx, ep, acts):
        self.ctx, self.ep, self.acts, self.n = ctx, ep, acts, 0

    def __call__(self, kind, when, e):
        if when == "before":
            self.n += 1
        for a in self.acts:
            if a["n"] == self.n and a["when"] == when:
                self.ep.w.ev("ACT", a["do"], self.n, when)
                self.ctx.probe("acts")
                self.do(a, kind, when, e)

    def do(self, a, kind, when, e):
        ctx, optim = self.ctx, self.ep.optim
        dyn = optim.dynamics
        d = a["do"]
        if d in ("evo", "ops"):
            ctx.sut(dyn.compute_evolution)
            for nm in (
                ["full_evo"] if d == "evo" else
                ["dyn_gen", "prop", "prop_grad", "fwd_evo"]
                + (["onwd_evo"] if dyn.fid_computer.uses_onwd_evo else [])
                + (["onto_evo"] if dyn.fid_computer.uses_onto_evo else [])
            ):
                ctx.sut(getattr, dyn, nm)
        elif d == "fid":
            ctx.sut(dyn.fid_computer.get_fid_err)
        elif d == "grad":
            if kind == "g" and when == "after":
                g = ctx.sut(dyn.fid_computer.get_fid_err_gradient)
                np.array(g).sum()
        elif d == "amps":
            a0 = ctx.sut(getattr, dyn, "ctrl_amps")
            np.array(a0)
            ctx.sut(dyn.get_amp_times) if hasattr(dyn, "get_amp_times") else None
        elif d == "level":
            ctx.sut(setattr, optim, "log_level", a["level"])
            ctx.sut(setattr, dyn, "log_level", a["level"])
            ctx.sut(setattr, dyn.tslot_computer, "log_level", a["level"])
            ctx.sut(setattr, dyn.fid_computer, "log_level", a["level"])
        elif d == "stats_report":
            if optim.stats is not None:
                with contextlib.redirect_stdout(io.StringIO()):
                    ctx.sut(optim.stats.calculate)
                    ctx.sut(optim.stats.report)
        elif d == "writeout":
            for o in (optim, dyn):
                if o.dump is not None:
                    ctx.sut(o.dump.writeout, os.path.join(self.ep.w.scratch, "all"))
        elif d == "repr":
            repr(optim), str(dyn), repr(dyn.fid_computer)
            ctx.sut(getattr, optim, "dumping")
            ctx.sut(getattr, dyn, "dumping")
        elif d == "time":
            self.ep.w.advance(1e5, "observer")


def go(ctx, plan, obs):
    """One optimisation (two with `twice`), observed if obs is given."""
    cfg, run = plan["cfg"], dict(plan["run"])
    if obs:
        run["stats"] = obs["stats"]
        run["costs"] = obs["costs"]
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   faults=obs["faults"] if obs else (), max_steps=400000) as w:
        ep = E.Episode(ctx, w, cfg, run)
        over = {}
        if obs:
            ep.minim.observer = Acting(ctx, ep, obs["acts"])
            if obs["level"] is not None and obs["how"] == "param":
                over["log_level"] = obs["level"]
            if not obs["handler"]:
                # nobody formats the messages
                for lg in env.sut_loggers():
                    lg.removeHandler(env.LOG)
        op, dp = {}, {}
        if obs:
            for d, level, tofile, nm in (
                (op, obs["odump"], obs["ofile"], "od"),
                (dp, obs["ddump"], obs["dfile"], "dd"),
            ):
                if level:
                    d["dumping"] = level
                if tofile:
                    d["dump_to_file"] = True
                    d["dump_dir"] = os.path.join(w.scratch, nm)
            if obs["unit"] is not None and cfg["dyn"] == "UNIT":
                dp["unitarity_check_level"] = obs["unit"]
        via = obs["via"] if obs else None
        if plan["func"] or via == "params":
            if op:
                over["optim_params"] = op
            if dp and not plan["func"]:
                over["dyn_params"] = dict(S.dyn_params(cfg), **dp)
            elif dp:
                over["dyn_params"] = dict(S.dyn_params(cfg), **dp)
        if plan["func"]:
            if plan["func"] in ("opt_pulse_crab_unitary", "optimize_pulse_unitary"):
                pass
            E.call_function(ep, plan["func"], **over)
        else:
            ep.make(**over)
            if via == "attrs":
                for o, d in ((ep.optim, op), (ep.optim.dynamics, dp)):
                    for k in ("dumping", "dump_to_file", "dump_dir",
                              "unitarity_check_level"):
                        if k in d:
                            ctx.sut(setattr, o, k, d[k])
            if obs:
                self_custom(ctx, ep)
                if obs["level"] is not None and obs["how"] == "set":
                    for lg in env.sut_loggers():
                        lg.setLevel(obs["level"])
            ep.start_pulse()
            ep.optimise()
        ep.lasted = ep.t_end - ep.t_begin
        sig = T.of_episode(ep)
        sigs = [sig]
        if plan["twice"]:
            ep2 = E.Episode(ctx, w, cfg, run, ep.parts,
                            observer=ep.minim.observer)
            ep2.optim = ep.optim
            ep2.minim.probe_amps = ep.minim.probe_amps
            if run["alg"] == "CRAB":
                ep2.start_pulse()
            else:
                ep2.start_pulse(
                    np.random.RandomState(3).normal(
                        size=ep.result.final_amps.shape
                    )
                )
            ep2.optimise()
            ep.lasted = max(ep.lasted, ep2.t_end - ep2.t_begin)
            sigs.append(T.of_episode(ep2))
        rs = np.random.get_state()
        sigs.append(rs[1].tobytes() + bytes(str(rs[2:]), "ascii"))
        bad = [r for r in env.LOG.records if r[2].startswith("UNFORMATTABLE")]
        ctx.check(not bad, "log message", "a log record cannot be formatted: {}", bad[:1])
        if obs:
            ctx.probe("log records", len(env.LOG.records))
        return sigs, ep


def self_custom(ctx, ep):
    """With CUSTOM dumping the user picks the items afterwards."""
    for o, names in (
        (ep.optim, ["dump_fid_err", "dump_grad"]),
        (ep.optim.dynamics, ["dump_amps", "dump_fwd_evo"]),
    ):
        if o.dump is not None and o.dumping == "CUSTOM":
            for n in names:
                setattr(o.dump, n, True)


def body(ctx, plan):
    base, ep = go(ctx, plan, None)
    if ep.events:
        ctx.probe("events", len(ep.events))
    if plan["tight"]:
        # the same with hardly more time than it takes
        run = dict(plan["run"])
        run["tc"] = dict(run["tc"], max_wall=ep.lasted + 1.0 / 1024)
        seen, _ = go(ctx, dict(plan, run=run), None)
        for a, b in zip(base, seen):
            d = T.difference(a, b, 0) if isinstance(a, dict) else a != b or None
            ctx.check(d is None, "changed", "with a time limit of {} s, not "
                      "reached, the run differs at {}", run["tc"]["max_wall"], d)
        ctx.probe("tight time limits")
    for obs in plan["obs"]:
        seen, ep2 = go(ctx, plan, obs)
        for a, b in zip(base[:-1], seen[:-1]):
            d = T.difference(a, b, 1e-8 if plan["approx"] else 0)
            ctx.check(
                d is None, "changed",
                "unobserved / observed runs differ at {} (observers {})",
                d, {k: v for k, v in obs.items() if k not in ("costs", "acts")},
            )
        ctx.check(base[-1] == seen[-1], "random stream",
                  "the observers drew random numbers")
        ended = ep.terminated_by()
        c = plan["cfg"]
        ctx.state(c["dyn"], c["prop_eff"], c["fid_eff"], c["dtype"], c["mem"] > 0,
                  obs["level"], obs["odump"], obs["ddump"], obs["stats"],
                  ended["t"] if ended else "returned")


def nontrivial(out):
    return out.probes.get("events", 0) > 0
