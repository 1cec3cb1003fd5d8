"""C03: termination conditions are enforced and truthfully reported."""
import numpy as np

from .. import systems as S
from .. import episode as E

ID = "C03"
RULE = (
    "One run = one random problem, algorithm, set of limits and minimiser "
    "(real scipy or scripted) under a simulated clock whose cost per "
    "computation is random and which is stalled at random points; several "
    "runs in a row on the same objects with changed limits or goals. Limits "
    "and options of the method must reach the minimiser. An oracle walks "
    "over the recorded evaluations and decides which condition had to end "
    "the run. Non-trivial when at least one evaluation or iteration "
    "happened. States: (method, ending, event number, limits in force)."
)
ASSUMPTIONS = [
    "the call limit is exceeded by the first call beyond it, the time limit "
    "by an iteration that ends strictly later than it, measured from the "
    "call of run_optimization (exactly: from some moment before the "
    "minimiser starts)",
    "normal return of fmin_l_bfgs_b or fmin_bfgs with status 0 counts as a "
    "gradient minimum (documented as 'local minima')",
    "no condition is attributed when the reference value is within 1e-9 of "
    "the limit",
]
REAL = ["optimizer.py", "termcond.py", "errors.py", "pulseoptim.py",
        "fidcomp.py", "dynamics.py", "scipy minimisers (part of the runs)"]
STUB = ["clock", "random stream", "minimiser (scripted runs)"]
TECHNIQUE = (
    "simulated clock with random costs and stalls, recorded or scripted "
    "minimisers; an oracle over the recorded history names the condition "
    "that has to end the run"
)
LEVEL_NOTE = "Seeded sampling of limits, timings and minimiser behaviours."
N_QUICK = 15000
N_THOROUGH = 120000


def gen_tc(rng, method):
    tc = {
        "targ": float(S.choice(rng, [1e-12, 0.02, 0.2, 0.5, 0.9, 2.0], [3, 1, 2, 2, 1, 1])),
        "min_grad": float(S.choice(rng, [1e-10, 1e-4, 0.05, 0.3, 1.0], [3, 1, 1, 1, 0.4])),
        "max_iter": int(S.choice(rng, [1, 2, 4, 8, 15], [1, 2, 3, 3, 2])),
        "max_wall": float(S.choice(rng, [1e6, 0.125, 0.5, 1.0, 3.0, 8.0], [4, 1, 2, 2, 2, 1])),
        "max_calls": S.choice(rng, [None, 1, 2, 3, 5, 9, 14], [5, 1, 1, 1, 1, 1, 1]),
    }
    if method not in ("LBFGSB", "FMIN_L_BFGS_B") and tc["max_calls"] is None:
        tc["max_calls"] = 60
    return tc


def gen(rng, tier):
    cfg = S.gen_config(rng, small=True)
    run = E.gen_run(rng, cfg)
    run["tc"] = gen_tc(rng, run["method"])
    faults = []
    if rng.rand() < 0.6:
        for _ in range(int(S.choice(rng, [1, 2, 3]))):
            faults.append(
                {"seam": S.choice(rng, ["la", "min.cb", "min.f", "min.g", "min.own"]),
                 "n": int(rng.randint(1, 20)), "act": "stall",
                 "dt": float(S.choice(rng, [0.25, 0.5, 1.0, 4.0, 1000.0]))}
            )
    more = []
    if rng.rand() < 0.4:
        for _ in range(int(S.choice(rng, [1, 2]))):
            more.append({"tc": gen_tc(rng, run["method"]),
                         "script": E.gen_script(rng) if run["script"] else None,
                         "seed": int(rng.randint(1 << 30)),
                         "how": S.choice(rng, ["attrs", "new"])})
    func = E.fit_function(rng, cfg, run) if rng.rand() < 0.3 else None
    plan = rest(rng, cfg, run, faults, more, func)
    # settings of the method itself, and the target given as a goal
    m = run["method"]
    if rng.rand() < 0.4 and m in OPTIONS:
        names = sorted(OPTIONS[m])
        some = [k for k in names if rng.rand() < 0.7] or names[:1]
        run["opts"] = {k: S.choice(rng, OPTIONS[m][k]) for k in some}
        run["opts_how"] = S.choice(rng, (["mparams"] + (
            ["attrs"] if m in ATTRS and not func else [])) if func is None or
            m not in DEPRECATED or "crab" in func else ["mparams", "args"])
        if run["opts_how"] == "mparams":
            run["mparams"] = dict(run["opts"])
    by = S.choice(rng, ["targ", "goal"], [3, 1])
    if by == "goal" and func is None:
        run["tc"]["goal"] = 1 - run["tc"]["targ"]
        run["tc"]["targ"] = abs(1 - run["tc"]["goal"])
    for k in more:
        if rng.rand() < 0.3:
            k["tc"]["goal"] = 1 - k["tc"]["targ"]
            k["tc"]["targ"] = abs(1 - k["tc"]["goal"])
    return plan


# options of the methods: name -> values
LB = {"max_metric_corr": [2, 5, 12], "accuracy_factor": [10.0, 1e3, 1e12]}
OPTIONS = {
    "LBFGSB": LB, "FMIN_L_BFGS_B": LB,
    "FMIN": {"xtol": [1e-3, 1e-6], "ftol": [1e-3, 1e-6]},
    "Nelder-Mead": {"xatol": [1e-3, 1e-6], "fatol": [1e-3, 1e-6]},
    "Powell": {"xtol": [1e-3, 1e-5], "ftol": [1e-3, 1e-5]},
    "BFGS": {"norm": [1.0, 2.0]}, "CG": {"norm": [1.0, 2.0]},
    "TNC": {"eta": [0.25, 0.5]},
}
ATTRS = ["LBFGSB", "FMIN_L_BFGS_B", "FMIN"]  # have attributes for them
DEPRECATED = ["LBFGSB", "FMIN_L_BFGS_B"]  # have arguments for them


def rest(rng, cfg, run, faults, more, func):
    # the limit that the clock will just meet: exact equality
    return {"cfg": cfg, "run": run, "faults": faults, "more": more,
            "func": func,
            "exact": int(rng.randint(1, 6)) if rng.rand() < 0.15 else 0,
            "target": (int(rng.randint(0, 6)), S.choice(
                rng, ["at", "above", "below", "goal", "goal"]))
            if rng.rand() < 0.25 else None}


FLAGS = ["goal_achieved", "grad_norm_min_reached", "max_iter_exceeded",
         "max_fid_func_exceeded", "wall_time_limit_exceeded"]


def judge(ctx, ep, tc, ref):
    """The condition that must have ended this run."""
    res = ep.result
    ref.adopt_tau(ep.optim.dynamics)
    st, ev = ep.start, ep.events
    ended = ep.terminated_by()
    lo, hi = ep.t_begin, st["now"]  # the clock of the limit starts in here
    if tc.get("exact_start") is not None:
        lo = hi = tc["exact_start"]
    maxc = tc["max_calls"] if tc["max_calls"] is not None else 1e10
    nf = 0
    for i, e in enumerate(ev):
        over = e is ended
        if e["t"] == "f":
            nf += 1
            if not over:
                ctx.check(
                    float(e["ret"]) > tc["targ"], "continued after goal",
                    "evaluation {} returned {} <= target {} and the "
                    "optimisation went on", nf, float(e["ret"]), tc["targ"],
                )
                ctx.check(
                    nf <= maxc, "continued after call limit",
                    "fidelity call {} with limit {}", nf, maxc,
                )
        elif e["t"] == "g" and not over and ep.run["alg"] == "GRAPE":
            n = float(np.sqrt(np.sum(e["ret"] ** 2)))
            ctx.check(
                n >= tc["min_grad"] * (1 - 1e-9), "continued after gradient",
                "gradient norm {} below the limit {} and the optimisation "
                "went on", n, tc["min_grad"],
            )
        elif e["t"] == "cb" and not over:
            ctx.check(
                e["t0"] - hi <= tc["max_wall"], "continued after time limit",
                "iteration ended {} s after the start with limit {} and the "
                "optimisation went on", e["t0"] - hi, tc["max_wall"],
            )
    flags = {f: bool(getattr(res, f)) for f in FLAGS}
    on = sorted(f for f in FLAGS if flags[f])
    reason = str(res.termination_reason)
    ctx.check(len(on) <= 1, "several causes", "flags {} all set", on)
    how = "returned"
    if ended is not None:
        how = ended["t"]
        if ended["t"] == "f":
            err = ref.fid_err(ended["amps"])
            goal, calls = err <= tc["targ"], nf > maxc
            near = not ref.meaningful(ended["amps"]) or (
                abs(err - tc["targ"]) < ref.err_tol(ended["amps"])
            )
            ctx.check(
                goal or calls or near, "stopped without cause",
                "stopped ({}) at fidelity call {} of {} with error {} and "
                "target {}", reason, nf, maxc, err, tc["targ"],
            )
            if not near:
                want = "goal_achieved" if goal else "max_fid_func_exceeded"
            else:
                want = (on + [None])[0]
                ctx.check(
                    want == "goal_achieved" or (want == "max_fid_func_exceeded" and calls),
                    "cause", "flags {} at error {} target {}", on, err, tc["targ"],
                )
        elif ended["t"] == "g":
            n = float(np.linalg.norm(ref.grad(ended["amps"])))
            ctx.check(
                n < tc["min_grad"] + ref.grad_tol(ended["amps"]) * np.sqrt(ended["amps"].size)
                or not ref.grad_comparable(ended["amps"]),
                "stopped without cause",
                "stopped ({}) with gradient norm {} and limit {}",
                reason, n, tc["min_grad"],
            )
            want = "grad_norm_min_reached"
        else:
            ctx.check(
                ended["t0"] - lo > tc["max_wall"], "stopped without cause",
                "stopped ({}) {} s after the start with time limit {}",
                reason, ended["t0"] - lo, tc["max_wall"],
            )
            want = "wall_time_limit_exceeded"
        ctx.check(
            on == [want], "cause", "ended by {} but flags {} ({})",
            want, on, reason,
        )
        word = {"goal_achieved": "goal", "max_fid_func_exceeded": "call",
                "grad_norm_min_reached": "grad",
                "wall_time_limit_exceeded": "time"}[want]
        ctx.check(
            word in reason.lower(), "reason", "ended by {} with reason '{}'",
            want, reason,
        )
    else:
        r = st["end"]["ret"]
        name = st["entry"]
        ctx.check(
            not flags["goal_achieved"] and not flags["wall_time_limit_exceeded"],
            "cause", "the minimiser returned but flags {} ({})", on, reason,
        )
        if name == "minimize":
            ctx.check(
                reason == str(r.message), "reason",
                "reason '{}' but the minimiser said '{}'", reason, r.message,
            )
            if flags["max_iter_exceeded"] or flags["max_fid_func_exceeded"] or (
                flags["grad_norm_min_reached"]
            ):
                ok = (
                    flags["max_iter_exceeded"] and r.nit >= tc["max_iter"]
                    or flags["max_fid_func_exceeded"] and r.nfev >= maxc
                    or flags["grad_norm_min_reached"] and r.success
                )
                ctx.check(ok, "cause", "flags {} with {}", on, r.message)
            warn = None
        else:
            warn = r[2]["warnflag"] if name == "fmin_l_bfgs_b" else (
                r[6] if name == "fmin_bfgs" else r[4]
            )
        if name == "fmin_l_bfgs_b":
            nit, fc = r[2]["nit"], r[2]["funcalls"]
            if warn == 0:
                want = ["grad_norm_min_reached"]
            elif warn == 1:
                want = (
                    ["max_iter_exceeded"] if nit >= tc["max_iter"]
                    else ["max_fid_func_exceeded"]
                )
            else:
                want = []
                ctx.check(reason == r[2]["task"], "reason",
                          "reason '{}' but '{}'", reason, r[2]["task"])
            ctx.check(on == want, "cause",
                      "status {} ({} iterations, {} calls) but flags {}",
                      warn, nit, fc, on)
        elif name == "fmin_bfgs":
            want = {0: ["grad_norm_min_reached"], 1: ["max_iter_exceeded"]}.get(warn, [])
            ctx.check(on == want, "cause", "status {} but flags {} ({})",
                      warn, on, reason)
        elif name == "fmin":
            want = {1: ["max_fid_func_exceeded"], 2: ["max_iter_exceeded"]}.get(warn, [])
            ctx.check(on == want, "cause", "status {} but flags {} ({})",
                      warn, on, reason)
        if warn is not None:
            lr = reason.lower()
            if on == ["max_iter_exceeded"]:
                ok = "iter" in lr
            elif on == ["max_fid_func_exceeded"]:
                ok = "call" in lr or "eval" in lr
            else:
                ok = "limit" not in lr and "goal" not in lr and "time" not in lr
                ok = ok or on == []
            ctx.check(ok, "reason", "flags {} with reason '{}'", on, reason)
    if flags["goal_achieved"]:
        ctx.check(res.fid_err <= tc["targ"], "goal", "goal achieved with error {} and target {}", res.fid_err, tc["targ"])
    # limits handed to the minimiser
    kw, op = st["kw"], st["options"]
    given = dict(op) if st["entry"] == "minimize" else dict(kw)
    if st["entry"] == "minimize":
        exp = {"maxiter": tc["max_iter"], "gtol": tc["min_grad"]}
        if tc["max_calls"] is not None:
            exp["maxfev"] = tc["max_calls"]
    elif st["entry"] == "fmin_l_bfgs_b":
        exp = {"maxiter": tc["max_iter"], "pgtol": tc["min_grad"], "maxfun": maxc}
    elif st["entry"] == "fmin_bfgs":
        exp = {"maxiter": tc["max_iter"], "gtol": tc["min_grad"]}
    else:
        exp = {"maxiter": tc["max_iter"], "maxfun": maxc}
    bad = {k: (given.get(k), v) for k, v in exp.items() if given.get(k) != v and v > 0}
    ctx.check(not bad, "limits passed on",
              "limits handed to the minimiser (got, set): {}", bad)
    if tc.get("opts"):
        name = {} if st["entry"] == "minimize" else {
            "max_metric_corr": "m", "accuracy_factor": "factr"}
        bad = {k: (given.get(name.get(k, k)), v) for k, v in tc["opts"].items()
               if given.get(name.get(k, k)) != v}
        ctx.check(not bad, "options passed on",
                  "options handed to the minimiser (got, set): {}", bad)
        ctx.probe("options compared")
    ctx.probe("ended by " + (on[0] if on else how + " without flag"))
    if ev:
        ctx.probe("events", len(ev))
    ctx.state(ep.run["method"], how, tuple(on), min(len(ev), 12),
              tc["max_calls"] is not None, tc["max_wall"] < 1e5,
              ep.run["script"] is not None)


def body(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    tc = dict(run["tc"], opts=run.get("opts"))
    goal = tc.pop("goal", None)
    how = run.get("opts_how")
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   faults=plan["faults"], max_steps=200000) as w:
        ep = E.Episode(ctx, w, cfg, run)
        ref = S.Ref(cfg, ep.parts)
        if plan["func"]:
            if plan["func"].startswith("opt_pulse_crab"):
                tc["min_grad"] = 0.0
            E.call_function(ep, plan["func"],
                            **(run["opts"] if how == "args" else {}))
        else:
            ep.make()
            cond = ep.optim.termination_conditions
            if how == "attrs":
                for k, v in run["opts"].items():
                    setattr(cond if k == "accuracy_factor" else ep.optim, k, v)
            if goal is not None:
                cond.fid_err_targ, cond.fid_goal = None, goal
                ep.by_goal = True
            ep.start_pulse()
            ep.optimise()
        judge(ctx, ep, tc, ref)
        tc.pop("opts")
        optim = ep.optim
        if plan["exact"]:
            # the same again, with the limit exactly at the n-th iteration
            cbs = [e for e in ep.events if e["t"] == "cb"]
            if len(cbs) >= plan["exact"]:
                t_start = ep.t_end - ep.result.wall_time
                ep = again(ctx, ep, ref, dict(tc, max_wall=cbs[plan["exact"] - 1]["t0"] - t_start),
                      run["script"], "attrs", None)
                ctx.probe("limit met exactly")
        if plan["target"] and hasattr(ep, "amps0"):
            # the same again, with the target exactly at a recorded error
            k, side = plan["target"]
            errs = [e for e in ep.events if e["t"] == "f" and e is not ep.terminated_by()]
            if len(errs) > k:
                err = float(errs[k]["ret"])
                new = dict(tc)
                if side == "goal":
                    # within rounding of it
                    new["goal"] = 1 - err
                    targ = abs(1 - new["goal"])
                    side = "below" if targ < err else "at"
                else:
                    targ = {"at": err, "above": float(np.nextafter(err, 9.0)),
                            "below": float(np.nextafter(err, -9.0))}[side]
                new["targ"] = targ
                ep2 = again(ctx, ep, ref, new, run["script"], "attrs", None)
                got = ep2.optim.termination_conditions.fid_err_targ
                ctx.check(abs(got - targ) <= 1e-15, "target", "fid_err_targ {} "
                          "for {}", got, new)
                ep = ep2
                last = ep2.terminated_by()
                ctx.check(
                    side != "below" or last is None or last["t"] != "f"
                    or not np.array_equal(last["amps"], errs[k]["amps"])
                    or ep2.result.max_fid_func_exceeded,
                    "stopped without cause",
                    "stopped at error {} with the target below it, {}", err, targ,
                )
                ctx.probe("target met exactly")
        for m in plan["more"]:
            ep = again(ctx, ep, ref, dict(m["tc"]), m["script"], m["how"],
                       m["seed"])


def again(ctx, ep, ref, tc, script, how, seed):
    import qutip_qtrl.termcond as termcond

    optim, w = ep.optim, ep.w
    run = dict(ep.run, script=script)
    ep2 = E.Episode(ctx, w, ep.cfg, run, ep.parts)
    ep2.optim = optim
    ep2.minim.probe_amps = ep.minim.probe_amps
    old = optim.termination_conditions
    new = old if how == "attrs" else termcond.TerminationConditions()
    goal = tc.pop("goal", None) if "goal" in tc else None
    ep2.by_goal = False
    if goal is not None:
        # given as a goal; the error follows it, until it is given itself
        if new is not old or not getattr(ep, "by_goal", False):
            new.fid_err_targ = None
        new.fid_goal = goal
        ep2.by_goal = True
    else:
        new.fid_err_targ = tc["targ"]
    new.min_gradient_norm = tc["min_grad"]
    new.max_iterations = tc["max_iter"]
    new.max_wall_time = tc["max_wall"]
    calls = tc["max_calls"]
    new.max_fid_func_calls = 1e10 if calls is None else calls
    # limits given as method parameters would be applied again
    optim.method_params = None
    shape = (len(ref.tau), ep.cfg["n_ctrls"])
    if run["alg"] == "GRAPE":
        amps = (
            ep.amps0 if seed is None and hasattr(ep, "amps0")
            else np.random.RandomState(seed or 1).normal(size=shape)
        )
        ep2.start_pulse(np.array(amps))
    else:
        ep2.start_pulse()
    ep2.optimise(None if how == "attrs" else new)
    tc = dict(tc, max_calls=1e10 if calls is None else calls)
    judge(ctx, ep2, tc, ref)
    return ep2


def nontrivial(out):
    return out.probes.get("events", 0) > 0
