"""C04: counters and timings are exact."""
import contextlib
import datetime
import io

import numpy as np

from .. import systems as S
from .. import episode as E

ID = "C04"
RULE = (
    "One run = one random problem with statistics, optimised one to three "
    "times on the same objects by a recorded or scripted minimiser under a "
    "simulated clock (every matrix function, operator product and sum, "
    "callback and minimiser step costs its own amount; stalls at random "
    "points). Every counter and time is compared with a tally of the "
    "recorded history, and so are the figures of the printed report. Non-trivial when a full tally was compared. States: "
    "(configuration class, method, how it ended, which counters are zero)."
)
ASSUMPTIONS = [
    "amplitudes in force after a call are read from dynamics.ctrl_amps",
    "with cache_prop_grad off, the propagator gradients are computed in the "
    "gradient phase, otherwise in the propagator phase",
    "durations are exact: all costs are multiples of 1/1024 s",
]
REAL = ["stats.py", "optimizer.py", "tslotcomp.py", "fidcomp.py",
        "dynamics.py", "propcomp.py", "scipy minimisers (part of the runs)"]
STUB = ["clock", "random stream", "minimiser (scripted runs)"]
TECHNIQUE = (
    "simulated clock with a known cost of every operation and injected "
    "stalls; counters and times compared with a tally of the recorded history"
)
LEVEL_NOTE = "Seeded sampling of histories, costs and stalls."
N_QUICK = 12000
N_THOROUGH = 150000


def gen(rng, tier):
    cfg = S.gen_config(rng, small=True)
    run = E.gen_run(rng, cfg)
    run["stats"] = True
    if rng.rand() < 0.3:
        # dominated by one kind of cost
        k = S.choice(rng, ["la", "qmul", "qadd", "min.f", "min.own"])
        run["costs"] = dict.fromkeys(run["costs"], 0.0)
        run["costs"][k] = 3.0 / 1024
    faults = []
    if rng.rand() < 0.6:
        for _ in range(int(S.choice(rng, [1, 2, 4]))):
            faults.append(
                {"seam": S.choice(rng, ["la", "min.cb", "min.f", "min.g", "min.own"], [4, 1, 1, 1, 1]),
                 "n": int(rng.randint(1, 40)), "act": "stall",
                 "dt": float(S.choice(rng, [0.25, 0.5, 1.0, 4.0]))}
            )
    runs = []
    for i in range(int(S.choice(rng, [0, 1, 2], [5, 3, 1]))):
        runs.append({"seed": int(rng.randint(1 << 30)),
                     "script": E.gen_script(rng) if run["script"] else None})
    return {"cfg": cfg, "run": run, "faults": faults, "more": runs,
            "pre": S.choice(rng, ["no", "err", "grad", "evo"], [4, 1, 1, 1]),
            "func": E.fit_function(rng, cfg, run) if rng.rand() < 0.25 else None}


COUNTERS = [
    "num_iter", "num_fidelity_func_calls", "num_grad_func_calls",
    "num_tslot_recompute", "num_fidelity_computes", "num_grad_computes",
    "num_ctrl_amp_updates", "num_timeslot_changes", "num_ctrl_amp_changes",
]
PHASES = [
    "wall_time_dyn_gen_compute", "wall_time_prop_compute",
    "wall_time_fwd_prop_compute", "wall_time_onwd_prop_compute",
    "wall_time_gradient_compute",
]


class Tally:
    """What the recorded history amounts to."""

    def __init__(self, ep, evo_current, fid_current, grad_current):
        c = self.c = dict.fromkeys(COUNTERS, 0)
        cur = ep.amps0
        evo, fid, grad = evo_current, fid_current, grad_current
        fe = ep.cfg["fid_eff"]

        def apply(a):
            nonlocal cur, evo, fid, grad
            d = cur != a
            if d.any():
                c["num_ctrl_amp_updates"] += 1
                c["num_ctrl_amp_changes"] += int(d.sum())
                c["num_timeslot_changes"] += int(d.any(axis=1).sum())
                evo = fid = grad = False
                cur = a

        def q_evo():
            nonlocal evo
            if not evo:
                c["num_tslot_recompute"] += 1
                evo = True

        def q_fid():
            nonlocal fid
            if not fid:
                q_evo()
                c["num_fidelity_computes"] += 1
                fid = True

        def q_grad():
            nonlocal grad
            if not grad:
                q_evo()
                if fe in ("UNIT", "TDAPPROX"):
                    q_fid()  # the gradient needs the fidelity
                c["num_grad_computes"] += 1
                grad = True

        q_fid()  # the initial fidelity error of the result
        for e in ep.events:
            if e["t"] == "cb":
                c["num_iter"] += 1
                continue
            apply(e["amps"])
            if e["t"] == "f":
                c["num_fidelity_func_calls"] += 1
                q_fid()
            else:
                c["num_grad_func_calls"] += 1
                q_grad()
        apply(np.array(ep.result.final_amps))
        q_fid()
        self.flags = (evo, fid, grad)


def quotient(a, b):
    return a / b if b else float("nan")


def same(a, b):
    return a == b or (np.isnan(a) and np.isnan(b))


def judge(ctx, ep, la0, flags):
    res, w, st = ep.result, ep.w, ep.start
    t = Tally(ep, *flags)
    c = t.c
    stats = res.stats
    ctx.check(stats is not None, "no stats", "the result has no statistics")
    ctx.check(
        res.num_iter == c["num_iter"], "num_iter",
        "result.num_iter {} after {} iterations", res.num_iter, c["num_iter"],
    )
    ctx.check(
        res.num_fid_func_calls == c["num_fidelity_func_calls"],
        "num_fid_func_calls", "result.num_fid_func_calls {} after {} calls",
        res.num_fid_func_calls, c["num_fidelity_func_calls"],
    )
    for src, where in ((stats, "result"), (ep.optim.stats, "optimizer")):
        bad = {
            k: (getattr(src, k), v) for k, v in c.items() if getattr(src, k) != v
        }
        ctx.check(
            not bad, "counter", "counters of {}.stats (reported, happened): {}",
            where, bad,
        )
        for k, a, b in (
            ("mean_num_ctrl_amp_updates_per_iter", "num_ctrl_amp_updates", "num_iter"),
            ("mean_num_timeslot_changes_per_update", "num_timeslot_changes", "num_ctrl_amp_updates"),
            ("mean_num_ctrl_amp_changes_per_update", "num_ctrl_amp_changes", "num_ctrl_amp_updates"),
        ):
            want = quotient(c[a], c[b])
            ctx.check(
                same(float(getattr(src, k)), want), "mean", "{} is {} for {}/{}",
                k, getattr(src, k), c[a], c[b],
            )
    # times: the clock only moves at the seams, all amounts are exact
    lo = st["end"]["now"] - st["now"]
    hi = ep.t_end - ep.t_begin
    ctx.check(
        lo <= res.wall_time <= hi, "wall_time",
        "wall_time {} of an optimisation that took between {} and {} s",
        res.wall_time, lo, hi,
    )
    ctx.check(
        stats.wall_time_optim == res.wall_time
        and stats.wall_time_optim_end - stats.wall_time_optim_start
        == res.wall_time,
        "wall_time_optim", "stats say {} ({} to {}), the result {}",
        stats.wall_time_optim, stats.wall_time_optim_start,
        stats.wall_time_optim_end, res.wall_time,
    )
    ctx.check(
        ep.t_begin <= stats.wall_time_optim_start <= st["now"]
        and st["end"]["now"] <= stats.wall_time_optim_end <= ep.t_end,
        "start and end", "run from {} to {} but the stats say {} to {}",
        ep.t_begin, ep.t_end, stats.wall_time_optim_start,
        stats.wall_time_optim_end,
    )
    ph = {k: float(getattr(stats, k)) for k in PHASES}
    total = sum(ph.values())
    ctx.check(
        total <= hi and min(ph.values()) >= 0, "phases",
        "phases {} add up to more than the {} s of the run", ph, hi,
    )
    la = advance_la(w) - la0["la"]
    qm = w.advance_by.get("qmul", 0.0) - la0["qmul"]
    qa = w.advance_by.get("qadd", 0.0) - la0["qadd"]
    ctx.check(
        la <= total <= la + qm + qa, "computing time",
        "the matrix functions took {} s (products {} s, sums {} s) but the "
        "phases {} add up to {}", la, qm, qa, ph, total,
    )
    # which phase
    cfg, costs, n_ts = ep.cfg, w.costs, ep.amps0.shape[0]
    nc = cfg["n_ctrls"]
    k = ph["wall_time_gradient_compute"]
    if not any(e["t"] == "g" for e in ep.events):
        ctx.check(k == 0, "gradient time", "{} s for gradients never computed", k)
    if cfg["prop_eff"] != "APPROX" and ep.optim.dynamics.cache_prop_grad:
        ctx.check(
            k <= qm + qa, "gradient time",
            "{} s for gradients with products and sums taking {} s",
            k, qm + qa,
        )
    if not (costs.get("qmul") or costs.get("qadd")):
        rest = {q: v for q, v in ph.items() if q.split("_")[2] in ("dyn", "fwd", "onwd")}
        ctx.check(
            not any(rest.values()), "phase",
            "{} while only matrix functions take time", rest,
        )
        f_la = sum(e.get("la", 0.0) for e in ep.events if e["t"] == "f")
        ctx.check(
            ph["wall_time_prop_compute"] >= f_la, "phase",
            "propagator time {} but {} s were spent on it in fidelity calls",
            ph["wall_time_prop_compute"], f_la,
        )
        ctx.probe("phase attribution")
    dyn, n = ep.optim.dynamics, c["num_tslot_recompute"]
    if getattr(dyn.oper_dtype, "__name__", "") == "Qobj":
        q = costs.get("qmul", 0.0)
        v = ph["wall_time_fwd_prop_compute"]
        ctx.check(
            n * (n_ts - 1) * q <= v <= n * (n_ts + 1) * q, "fwd time",
            "forward propagation time {} for {} recomputations of {} products "
            "taking {} s", v, n, n_ts, q,
        )
        fc = dyn.fid_computer
        m = (n_ts - 1) * bool(fc.uses_onwd_evo) + n_ts * bool(fc.uses_onto_evo)
        v = ph["wall_time_onwd_prop_compute"]
        ctx.check(
            n * (m - 1) * q <= v <= n * (m + 1) * q, "onwd time",
            "onward propagation time {} for {} recomputations of {} products "
            "taking {} s", v, n, m, q,
        )
        q2 = costs.get("qadd", 0.0)
        v = ph["wall_time_dyn_gen_compute"]
        ctx.check(
            n * n_ts * nc * q2 <= v <= n * n_ts * ((nc + 1) * q2 + 2 * q),
            "dyn gen time", "generator time {} for {} recomputations of {} "
            "sums taking {} s", v, n, n_ts * nc, q2,
        )
        ctx.probe("product times")
    if ep.optim.stats is not None:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            ctx.sut(stats.report)
        ctx.check(
            all(str(c[x]) in out.getvalue() for x in
                ("num_iter", "num_fidelity_func_calls", "num_ctrl_amp_changes")),
            "report", "report does not show the counters:\n{}", out.getvalue(),
        )
        bad = report_errors(out.getvalue(), c, stats, res.wall_time, ph)
        ctx.check(not bad, "report", "the report says (label, said, is): {}", bad)
        ctx.probe("reports read")
    ctx.probe("tallies compared")
    ended = ep.terminated_by()
    ctx.state(cfg["prop_eff"], cfg["fid_eff"], str(dyn.oper_dtype)[-9:],
              ep.run["method"], ended["t"] if ended else "returned",
              tuple(sorted(x for x in c if not c[x])))
    return t.flags


def report_errors(text, c, stats, total, ph):
    """Lines of the printed report that are wrong."""

    def mean(a, b):
        return float(c[a]) / c[b] if c[b] else float("nan")

    def clock(t):
        return str(datetime.timedelta(seconds=t))

    want = {
        "Number of iterations": c["num_iter"],
        "Number of fidelity function calls": c["num_fidelity_func_calls"],
        "Number of times fidelity is computed": c["num_fidelity_computes"],
        "Number of gradient function calls": c["num_grad_func_calls"],
        "Number of times gradients are computed": c["num_grad_computes"],
        "Number of times timeslot evolution is recomputed":
            c["num_tslot_recompute"],
        "Number of control amplitude updates": c["num_ctrl_amp_updates"],
        "Mean number of updates per iteration":
            mean("num_ctrl_amp_updates", "num_iter"),
        "Number of timeslot values changed": c["num_timeslot_changes"],
        "Mean number of timeslot changes per update":
            mean("num_timeslot_changes", "num_ctrl_amp_updates"),
        "Number of amplitude values changed": c["num_ctrl_amp_changes"],
        "Mean number of amplitude changes per update":
            mean("num_ctrl_amp_changes", "num_ctrl_amp_updates"),
    }
    times = {
        "Total wall time elapsed during optimisation": total,
        "Wall time computing Hamiltonians": ph["wall_time_dyn_gen_compute"],
        "Wall time computing propagators": ph["wall_time_prop_compute"],
        "Wall time computing forward propagation":
            ph["wall_time_fwd_prop_compute"],
        "Wall time computing onward propagation":
            ph["wall_time_onwd_prop_compute"],
        "Wall time computing gradient": ph["wall_time_gradient_compute"],
    }
    bad = []
    for line in text.splitlines():
        k, sep, v = line.partition(": ")
        if k in want:
            try:
                x = float(v)
            except ValueError:
                x = None
            y = float(want[k])
            if x is None or not (x == y or x != x and y != y
                                 or abs(x - y) <= 1e-9 * abs(y)):
                bad.append((k, v, want[k]))
        elif k in times:
            said, _, share = v.partition(" (")
            if said.strip() != clock(times[k]):
                bad.append((k, v, clock(times[k])))
            elif share and total > 0 and abs(
                    float(share.rstrip("%) ")) - 100 * times[k] / total) > 0.011:
                bad.append((k, v, 100 * times[k] / total))
    return bad


def advance_la(w):
    return sum(v for k, v in w.advance_by.items() if k.startswith("la"))


def marks(w):
    return {"la": advance_la(w), "qmul": w.advance_by.get("qmul", 0.0),
            "qadd": w.advance_by.get("qadd", 0.0)}


def observer(w):
    at = [0.0]

    def obs(kind, when, e):
        if when == "before":
            at[0] = advance_la(w)
        else:
            e["la"] = advance_la(w) - at[0]

    return obs


def body(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   faults=plan["faults"], max_steps=200000) as w:
        ep = E.Episode(ctx, w, cfg, run, observer=observer(w))
        crab = run["alg"] == "CRAB"
        if plan["func"]:
            E.call_function(ep, plan["func"])
            ep.amps0 = (
                ep.start["x0"].reshape(ep.result.initial_amps.shape)
                if not crab else ep.result.initial_amps.copy()
            )
            judge_function(ctx, ep)
        else:
            ep.make()
            ep.start_pulse()
            fc = ep.optim.dynamics.fid_computer
            flags = [False, False, False]
            if plan["pre"] == "evo":
                ctx.sut(ep.optim.dynamics.compute_evolution)
                flags[0] = True
            elif plan["pre"] == "err":
                ctx.sut(fc.get_fid_err)
                flags[:2] = [True, True]
            elif plan["pre"] == "grad" and not crab:
                ctx.sut(fc.get_fid_err)
                ctx.sut(fc.get_fid_err_gradient)
                flags = [True, True, True]
            m = marks(w)
            ep.optimise()
            judge(ctx, ep, m, flags)
        for r in plan["more"]:
            ep2 = E.Episode(ctx, w, cfg, dict(run, script=r["script"]),
                            ep.parts, observer=observer(w))
            ep2.optim = ep.optim
            ep2.minim.probe_amps = ep.minim.probe_amps
            if crab:
                ep2.start_pulse()
            else:
                shape = ep.amps0.shape
                ep2.start_pulse(
                    np.random.RandomState(r["seed"]).normal(size=shape)
                )
            m = marks(w)
            ep2.optimise()
            judge(ctx, ep2, m, [False] * 3)


def judge_function(ctx, ep):
    res = ep.result
    c = Tally(ep, False, False, False).c
    bad = {
        k: (getattr(res.stats, k), v) for k, v in c.items()
        if getattr(res.stats, k) != v
    }
    ctx.check(not bad, "counter",
              "counters of result.stats (reported, happened): {}", bad)
    lo = ep.start["end"]["now"] - ep.start["now"]
    hi = ep.t_end - ep.t_begin
    ctx.check(
        lo <= res.wall_time <= hi, "wall_time",
        "wall_time {} of an optimisation that took between {} and {} s",
        res.wall_time, lo, hi,
    )
    ctx.probe("tallies compared")


def nontrivial(out):
    return out.probes.get("tallies compared", 0) > 0
