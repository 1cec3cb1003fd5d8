"""C02: the result object describes the optimisation that ran."""
import numpy as np
from qutip import Qobj

from .. import systems as S
from .. import episode as E

ID = "C02"
RULE = (
    "One run = one random problem optimised by a random algorithm, either with "
    "the real scipy minimiser or with a scripted one (arbitrary evaluations, "
    "callbacks, returned point and status), under a simulated clock; then a "
    "random history of later uses of the same objects. Non-trivial when a "
    "result was compared with the reference model. States: (algorithm, "
    "method, how it ended, position of the returned point, configuration class)."
)
ASSUMPTIONS = [
    "fidelity errors compared to 1e-7 with the reference model",
    "the amplitudes of a CRAB evaluation are read from dynamics.ctrl_amps at "
    "the end of that evaluation",
]
REAL = ["optimizer.py", "optimresult.py", "pulseoptim.py", "pulsegen.py",
        "dynamics.py", "tslotcomp.py", "fidcomp.py", "propcomp.py", "scipy minimisers (part of the runs)"]
STUB = ["clock", "random stream", "minimiser (scripted runs)"]
TECHNIQUE = (
    "simulated optimisations with recorded or scripted minimisers and clock; "
    "the result is checked against the recorded history and a reference model"
)
LEVEL_NOTE = (
    "Seeded sampling; trusts the numpy reference model and the recorder at "
    "the scipy interface."
)
N_QUICK = 12000
N_THOROUGH = 120000

LATER = ["update", "query", "rerun", "reinit", "mutate", "target", "wrap", "stats"]


def gen(rng, tier):
    cfg = S.gen_config(rng)
    run = E.gen_run(rng, cfg)
    if rng.rand() < 0.3:
        run["oparams"] = {"dumping": S.choice(rng, ["SUMMARY", "FULL"])}
    later = [
        {"op": S.choice(rng, LATER), "seed": int(rng.randint(1 << 30))}
        for _ in range(int(S.choice(rng, [1, 2, 4])))
    ]
    func = E.fit_function(rng, cfg, run) if rng.rand() < 0.4 else None
    return {"cfg": cfg, "run": run, "later": later, "func": func,
            "pre": bool(rng.rand() < 0.3), "faults": gen_faults(rng)}


def gen_faults(rng):
    fs = []
    if rng.rand() < 0.5:
        for _ in range(int(S.choice(rng, [1, 2]))):
            fs.append({"seam": S.choice(rng, ["la", "min.cb", "min.f", "min.g"]),
                       "n": int(rng.randint(1, 12)), "act": "stall",
                       "dt": float(S.choice(rng, [0.5, 4.0, 1000.0]))})
    return fs


def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def snap(v):
    if isinstance(v, Qobj):
        return ("Q", v.full().tobytes(), repr(v.dims))
    if isinstance(v, np.ndarray):
        return ("A", v.tobytes(), v.shape)
    if isinstance(v, (np.generic,)):
        return ("S", repr(v.item()))
    if isinstance(v, (int, float, complex, str, bool, type(None))):
        return ("S", repr(v))
    return None


FIELDS = [
    "initial_fid_err", "fid_err", "goal_achieved", "grad_norm_final",
    "grad_norm_min_reached", "num_iter", "max_iter_exceeded",
    "num_fid_func_calls", "max_fid_func_exceeded", "wall_time",
    "wall_time_limit_exceeded", "termination_reason", "time", "initial_amps",
    "final_amps", "evo_full_final", "evo_full_initial",
]


def snapshot(res):
    d = {f: snap(getattr(res, f)) for f in FIELDS}
    st = getattr(res, "stats", None)
    if st is not None:
        for k, v in sorted(vars(st).items()):
            d["stats." + k] = snap(v)
    return d


def equal(a, b):
    return np.array_equal(a, b, equal_nan=True)


def check_result(ctx, ep, ref):
    res = ep.result
    ctx.check(
        ref.adopt_tau(ep.optim.dynamics), "tau", "timeslots {} expected {}",
        ep.optim.dynamics.tau, ref.tau,
    )
    n_ts, n_c = len(ref.tau), ep.cfg["n_ctrls"]
    for nm in ("initial_amps", "final_amps"):
        a = getattr(res, nm)
        ctx.check(
            isinstance(a, np.ndarray) and a.shape == (n_ts, n_c),
            "shape", "{} is {!r}", nm, a,
        )
    ctx.check(
        equal(res.initial_amps, ep.amps0), "initial_amps",
        "initial_amps {} but the run started from {}",
        res.initial_amps, ep.amps0,
    )
    for amps, err, evo, nm in (
        (res.initial_amps, res.initial_fid_err, res.evo_full_initial, "initial"),
        (res.final_amps, res.fid_err, res.evo_full_final, "final"),
    ):
        want = ref.fid_err(amps)
        ctx.check(
            ref.err_close(err, amps), nm + "_fid_err",
            "{} fidelity error {} but the pulse gives {}", nm, err, want,
        )
        U = ref.evolve(np.array(amps, float))["fwd"][-1]
        got = S.full(evo)
        ctx.check(
            ref.evo_close(got, U, amps),
            nm + "_evo", "evo_full_{} is\n{}\nexpected\n{}", nm, got, U,
        )
    ctx.check(
        isinstance(res.evo_full_final, Qobj), "evo type",
        "evo_full_final is a {}", type(res.evo_full_final).__name__,
    )
    dims = ep.optim.dynamics.initial.dims
    for evo in (res.evo_full_initial, res.evo_full_final):
        ctx.check(not isinstance(evo, Qobj) or evo.dims == dims, "evo dims",
                  "evolution with dims {} of an initial with {}",
                  getattr(evo, "dims", None), dims)
    ctx.check(
        close(res.time, np.concatenate([[0], np.cumsum(ref.tau)]), 1e-6),
        "time", "time {} for timeslots {}", res.time, ref.tau,
    )
    ctx.check(res.optimizer is ep.optim, "optimizer", "result.optimizer is another object")
    # which pulse is it?
    st, ev = ep.start, ep.events
    ended = ep.terminated_by()
    if ended is None:
        how, x = "returned", st["end"]["x"]
    else:
        how = ended["t"] + ":" + ended["exc"]
        fe = [e for e in ev if e["t"] in ("f", "g")]
        x = fe[-1]["x"] if fe else st["x0"]
    if ep.run["alg"] == "GRAPE":
        ctx.check(
            equal(res.final_amps.ravel(), x), "final_amps",
            "final_amps {} but the optimisation {} at {}",
            res.final_amps.ravel(), how, x,
        )
    else:
        fe = [e for e in ev if e["t"] in ("f", "g")]
        if ended is not None:
            want = fe[-1]["amps"] if fe else ep.amps0
            ctx.check(
                equal(res.final_amps, want), "final_amps",
                "final_amps are not those of the last evaluation ({})", how,
            )
        else:
            same = [e for e in fe if equal(e["x"], x)]
            if same:
                ctx.check(
                    equal(res.final_amps, same[-1]["amps"]),
                    "final_amps",
                    "final_amps {} but evaluating the returned parameters gave {}",
                    res.final_amps, same[-1]["amps"],
                )
        # the generators still hold the parameters of that pulse
        if fe or ended is None:
            coef = np.concatenate(
                [np.ravel(ctx.sut(p.get_optim_var_vals))
                 for p in ep.optim.pulse_generator]
            )
            ctx.check(
                equal(coef, x), "crab parameters",
                "generators hold {} but the optimisation ended at {}", coef, x,
            )
            a = np.empty_like(res.final_amps)
            for j, p in enumerate(ep.optim.pulse_generator):
                a[:, j] = ctx.sut(p.gen_pulse)
            ctx.check(
                equal(a, res.final_amps), "crab pulse",
                "generators make {} but final_amps is {}", a, res.final_amps,
            )
    ctx.probe("results compared")
    ctx.probe("ended " + how)
    c = ep.cfg
    pos = "last"
    if ended is None and ev:
        pos = "eval" if any(
            e["x"] is not None and equal(e["x"], x) for e in ev
        ) else "new"
    ctx.state(ep.run["alg"], ep.run["method"], how, pos, c["dyn"],
              c["prop_eff"], c["fid_eff"], c["dtype"], c["task"],
              ep.run["script"] is not None)


def body(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   faults=plan["faults"], max_steps=200000) as w:
        ep = E.Episode(ctx, w, cfg, run)
        if plan["func"]:
            E.call_function(ep, plan["func"])
            # GRAPE starts from what the minimiser was given
            ep.amps0 = (
                ep.start["x0"].reshape(ep.result.initial_amps.shape)
                if run["alg"] == "GRAPE" else ep.result.initial_amps.copy()
            )
        else:
            ep.make()
            ep.start_pulse()
            if plan["pre"]:
                ctx.sut(ep.optim.dynamics.fid_computer.get_fid_err)
            ep.optimise()
        ref = S.Ref(cfg, ep.parts)
        check_result(ctx, ep, ref)
        res = ep.result
        before = snapshot(res)
        dyn = ep.optim.dynamics
        shape = (len(ref.tau), cfg["n_ctrls"])
        live = True
        for o in plan["later"]:
            op, r = o["op"], np.random.RandomState(o["seed"])
            w.ev("LATER", op)
            if op == "update":
                ctx.sut(dyn.update_ctrl_amps, r.normal(size=shape))
            elif op == "query":
                if run["alg"] == "GRAPE":
                    ctx.sut(dyn.fid_computer.get_fid_err_gradient)
                ctx.sut(dyn.compute_evolution)
                ctx.sut(getattr, dyn, "fwd_evo")
            elif op == "wrap":
                ctx.sut(dyn.update_ctrl_amps, r.normal(size=shape))
                ctx.sut(dyn.fid_computer.get_fid_err)
            elif op == "reinit":
                ctx.sut(dyn.initialize_controls, r.normal(size=shape))
            elif op == "stats" and dyn.stats is not None:
                ctx.sut(dyn.stats.clear)
            elif op == "target":
                dyn.target = S.Qobj(ep.parts.target_alt, dims=ep.parts.idims)
                ctx.sut(dyn.initialize_controls, r.normal(size=shape))
                ref.set_target(ep.parts.target_alt)
            elif op == "mutate":
                # the result belongs to the user, who may change it
                a = res.final_amps
                a[:, :] = r.normal(size=shape)
                before["final_amps"] = snap(a)
                ctx.sut(dyn.update_ctrl_amps, a.copy())
                e = ctx.sut(dyn.fid_computer.get_fid_err)
                ctx.check(
                    ref.err_close(e, a), "aliased result",
                    "fidelity error {} of amplitudes computed in place in "
                    "result.final_amps, expected {}", e, ref.fid_err(a),
                )
            elif op == "rerun":
                w.faults = []
                ep2 = E.Episode(ctx, w, cfg, run, ep.parts)
                ep2.optim = ep.optim
                ep2.minim.probe_amps = ep.minim.probe_amps
                if run["alg"] == "GRAPE":
                    ep2.start_pulse(r.normal(size=shape))
                else:
                    ep2.start_pulse()
                ep2.optimise()
                check_result(ctx, ep2, ref)
            after = snapshot(res)
            diff = [k for k in before if before[k] != after.get(k)]
            ctx.check(
                not diff, "snapshot",
                "{} of the result changed through later use ({})", diff, op,
            )


def nontrivial(out):
    return out.probes.get("results compared", 0) > 0
