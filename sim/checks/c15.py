"""C15: objects that are given a new problem behave as if made for it."""
import copy

import numpy as np

from .. import systems as S
from .. import episode as E
from .. import trace as T

ID = "C15"
RULE = (
    "One run = one set of objects that is used (optimised or queried, often "
    "aborted by an injected failure) and then changed and initialised again "
    "one to three times: size and tensor structure of the system, drift, controls, number of controls, constant or "
    "per time slot operators, initial and target (also gate to state), time "
    "grid, operator type, caching options, propagator computer, fidelity "
    "computer, phase option, phase application, statistics. After the last "
    "change everything the minimiser sees, the result and every operator is "
    "compared bit for bit with new objects made for that problem. Non-trivial "
    "when such a comparison was made. States: (dynamics, what was changed in "
    "the last two steps, how the previous use ended)."
)
ASSUMPTIONS = [
    "initialize_controls is called after a change, as documented",
    "options left to their default at the first initialisation keep the "
    "values chosen then, so the options are given explicitly",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer"]
STUB = ["clock", "minimiser (scripted)"]
TECHNIQUE = (
    "random histories of use, injected failure, reconfiguration and "
    "re-initialisation; twin run on new objects compared bit for bit"
)
LEVEL_NOTE = "Seeded sampling of problems, changes and fault points."
N_QUICK = 12000
N_THOROUGH = 150000

EXCS = ["MemoryError", "LinAlgError", "KeyboardInterrupt", "RuntimeError"]
CACHES = ["cache_phased_dyn_gen", "cache_prop_grad",
          "cache_dyn_gen_eigenvectors_adj"]
KINDS = ["drift", "ctrls", "nctrls", "tddrift", "tdctrl", "task", "initial",
         "target", "grid", "dtype", "caches", "prop", "fid", "phase",
         "stats", "sparse", "app", "scale", "dims", "size", "genphase"]


PEEKS = ["num_ctrls", "num_tslots", "onto_evo_target", "omega", "tau",
         "dyn_gen", "prop", "full_evo", "fwd_evo", "dyn_gen_phase"]


def seed(rng):
    return int(rng.randint(1 << 30))


def explicit(rng, cfg):
    cfg["mem"] = 0
    cfg["dtype"] = cfg["dtype"] or S.choice(rng, ["Qobj", "ndarray"], [1, 3])
    for k in CACHES:
        cfg[k] = bool(rng.rand() < 0.6)
    cfg["sparse"] = bool(cfg["dim"] != "2" and rng.rand() < 0.2)
    cfg["seeds"] = {k: seed(rng) % 10**6 for k in ("drift", "ctrls", "it")}
    cfg["alt"] = False
    cfg["dims"] = None
    cfg["app"] = S.choice(rng, ["postop", "preop"]) if cfg["dyn"] == "SYMPL" else None
    cfg["stats"] = bool(rng.rand() < 0.5)
    return cfg


def change(rng, cfg, kind):
    """Change the description; the code sees only the end of it."""
    if kind == "drift":
        cfg["seeds"]["drift"] = seed(rng) % 10**6
    elif kind == "ctrls":
        cfg["seeds"]["ctrls"] = seed(rng) % 10**6
    elif kind == "nctrls":
        cfg["n_ctrls"] = int(S.choice(rng, [1, 2, 3]))
    elif kind == "tddrift":
        cfg["td_drift"] = not cfg["td_drift"]
    elif kind == "tdctrl":
        cfg["td_ctrl"] = not cfg["td_ctrl"]
    elif kind == "task":
        if cfg["dyn"] == "UNIT":
            cfg["task"] = "state" if cfg["task"] == "gate" else "gate"
        elif cfg["dyn"] == "GEN_MAT":
            cfg["task"] = "vec" if cfg["task"] == "gate" else "gate"
    elif kind == "initial":
        cfg["seeds"]["it"] = seed(rng) % 10**6
    elif kind == "target":
        cfg["alt"] = not cfg["alt"]
    elif kind == "grid":
        cfg["n_ts"] = int(S.choice(rng, [1, 2, 3, 4, 5, 7]))
        if rng.rand() < 0.5:
            cfg["tau"] = [round(float(x), 4) for x in rng.uniform(0.05, 0.6, cfg["n_ts"])]
        else:
            cfg["tau"] = None
            cfg["evo_time"] = float(S.choice(rng, [0.5, 1.0, 1.7, 3.0]))
    elif kind == "dtype":
        cfg["dtype"] = "Qobj" if cfg["dtype"] == "ndarray" else "ndarray"
    elif kind == "caches":
        for k in CACHES:
            if rng.rand() < 0.6:
                cfg[k] = not cfg[k]
    elif kind in ("prop", "fid"):
        cfg["prop"], cfg["fid"] = S.choice(rng, S.valid_computers(cfg["dyn"]))
        S.normalise(cfg)
        if cfg["dim"] == "2":
            cfg["sparse"] = False
    elif kind == "phase":
        cfg["phase"] = "SU" if cfg["phase"] == "PSU" else "PSU"
    elif kind == "stats":
        cfg["stats"] = not cfg["stats"]
    elif kind == "app":
        if cfg["dyn"] == "SYMPL":
            cfg["app"] = "preop" if cfg["app"] == "postop" else "postop"
    elif kind == "genphase":
        if cfg["dyn"] == "GEN_MAT":
            cfg["gp"] = S.choice(rng, [
                None, ["custom", "preop"],
                ["scalar", S.choice(rng, ["preop", "postop"]),
                 float(S.choice(rng, [0.5, 1.0, 1.2]))]], [1, 2, 3])
    elif kind == "scale":
        cfg["scale"] = S.choice(rng, [None, 0.25, 0.5, 2.0])
    elif kind == "dims":
        # other tensor structure, same size
        cfg["dims"] = {"2": "21", "21": "2", "22": "4", "4": "22"}.get(
            cfg["dims"] or cfg["dim"])
    elif kind == "size":
        # a system of another size
        cfg["dims"] = None
        others = [d for d in ("2", "22", "4", "3")
                  if d != cfg["dim"] and (d != "3" or cfg["dyn"] != "SYMPL")]
        cfg["dim"] = S.choice(rng, others)
        if cfg["dim"] == "2":
            cfg["sparse"] = False
    elif kind == "sparse":
        cfg["sparse"] = bool(cfg["dim"] != "2" and not cfg["sparse"])
    return cfg


def gen_use(rng, last):
    u = {"amps": seed(rng), "script": E.gen_script(rng, int(S.choice(rng, [1, 2, 4]))),
         "how": S.choice(rng, ["run", "queries", "init", "none"],
                         [6, 2, 1, 0.5])}
    if last:
        u["how"] = "run"
    u["faults"] = []
    if not last and rng.rand() < 0.5:
        u["faults"].append({
            "seam": "la", "n": int(rng.randint(1, int(S.choice(rng, [4, 12, 40])))),
            "act": "raise", "exc": S.choice(rng, EXCS),
            "when": S.choice(rng, ["before", "after"]),
        })
    return u


def gen(rng, tier):
    cfg = explicit(rng, S.gen_config(rng, small=rng.rand() < 0.7))
    if cfg["dyn"] == "GEN_MAT" and not cfg.get("gp") and rng.rand() < 0.4:
        cfg["gp"] = [S.choice(rng, ["scalar", "custom"]), "preop"]
    elif cfg.get("gp"):
        cfg["gp"][0] = "scalar"  # (a matrix belongs to one type of operator)
    run = E.gen_run(rng, cfg, alg="GRAPE", scripted=True, bounds=False)
    run["method"] = S.choice(rng, ["FMIN_L_BFGS_B", "L-BFGS-B", "FMIN_BFGS"])
    run["tc"]["max_calls"] = run["tc"]["max_calls"] or 60
    steps = [{"cfg": copy.deepcopy(cfg), "what": [], "use": gen_use(rng, False)}]
    n = int(S.choice(rng, [1, 2, 3], [3, 3, 1]))
    ham = bool(rng.rand() < 0.3)  # (one of the two names throughout)
    for i in range(n):
        what = []
        for _ in range(int(S.choice(rng, [1, 2, 3], [4, 2, 1]))):
            k = S.choice(rng, KINDS)
            if k not in what:
                what.append(k)
                cfg = change(rng, copy.deepcopy(cfg), k)
        steps.append({"cfg": copy.deepcopy(cfg), "what": what,
                      "ham": ham,
                      "peek": [S.choice(rng, PEEKS) for _ in range(int(S.choice(rng, [0, 2])))],
                      "form": S.choice(rng, ["plain", "tuple", "lists"]),
                      "use": gen_use(rng, i == n - 1)})
    return {"run": run, "steps": steps}


def parts(cfg):
    def mk(s):
        return S.make_parts(dict(cfg, mseed=cfg["seeds"][s] + 1))

    p, q, r = mk("it"), mk("drift"), mk("ctrls")
    p.drift, p.ctrls = q.drift, r.ctrls
    if cfg["dims"]:
        d = S.DIMS[cfg["dims"]]
        p.idims = [d, [1] * len(d)] if p.initial.shape[1] == 1 else [d, d]
        p.odims = [d, d]
    if cfg["alt"]:
        p.target = p.target_alt
    return p


def prop_class(cfg):
    import qutip_qtrl.propcomp as pc

    return {"DIAG": pc.PropCompDiag, "FRECHET": pc.PropCompFrechet,
            "AUG_MAT": pc.PropCompAugMat,
            "APPROX": pc.PropCompApproxGrad}[cfg["prop_eff"]]


def fid_class(cfg):
    import qutip_qtrl.fidcomp as fc

    return {"UNIT": fc.FidCompUnitary, "TRACEDIFF": fc.FidCompTraceDiff,
            "TDAPPROX": fc.FidCompTraceDiffApprox}[cfg["fid_eff"]]


def app_param(cfg):
    if cfg["app"] is None:
        return {}
    return {"dyn_params": dict(S.dyn_params(cfg), phase_application=cfg["app"])}


class Runner:
    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        self.hist = []

    def apply(self, optim, old, cfg, step):
        """Set on the existing objects what differs in the description."""
        import qutip_qtrl.stats as qstats

        ctx, dyn = self.ctx, optim.dynamics
        p, o = parts(cfg), parts(old)
        drift, ctrls, initial, target = S.qobjs(cfg, p)
        od, oc, oi, ot = S.qobjs(old, o)

        def same(a, b):
            return T.val(a) == T.val(b)

        ham = cfg["dyn"] == "UNIT" and step["ham"]
        if not same(drift, od):
            if isinstance(drift, list) and step["form"] == "tuple":
                drift = tuple(drift)
            setattr(dyn, "drift_ham" if ham else "drift_dyn_gen", drift)
        if not same(ctrls, oc):
            if step["form"] == "tuple" and not cfg["td_ctrl"]:
                ctrls = tuple(ctrls)
            elif step["form"] == "lists" and cfg["td_ctrl"]:
                ctrls = [list(r) for r in ctrls]
            setattr(dyn, "ctrl_ham" if ham else "ctrl_dyn_gen", ctrls)
        if not same(initial, oi):
            dyn.initial = initial
        if not same(target, ot):
            dyn.target = target
        if (cfg["tau"], cfg["n_ts"], cfg["evo_time"]) != (
            old["tau"], old["n_ts"], old["evo_time"]
        ):
            if cfg["tau"] is not None:
                ctx.sut(setattr, dyn, "tau", np.array(cfg["tau"]))
            else:
                ctx.sut(setattr, dyn, "evo_time", cfg["evo_time"])
                ctx.sut(setattr, dyn, "num_tslots", cfg["n_ts"])
        if cfg["dtype"] != old["dtype"]:
            dyn.oper_dtype = S.DTYPES[cfg["dtype"]]
        for k in CACHES:
            if cfg[k] != old[k]:
                setattr(dyn, k, cfg[k])
        if cfg["sparse"] != old["sparse"]:
            dyn.sparse_eigen_decomp = cfg["sparse"]
        if cfg["prop_eff"] != old["prop_eff"]:
            dyn.prop_computer = ctx.sut(prop_class(cfg), dyn)
        if cfg["fid_eff"] != old["fid_eff"]:
            dyn.fid_computer = ctx.sut(
                fid_class(cfg), dyn, params=S.fid_params(cfg)
            )
        elif cfg["fid_eff"] == "UNIT" and cfg["phase"] != old["phase"]:
            ctx.sut(setattr, dyn.fid_computer, "phase_option", cfg["phase"])
        if cfg["fid_eff"] != "UNIT" and cfg["fid_eff"] == old["fid_eff"] and (
            cfg.get("scale") != old.get("scale")
        ):
            dyn.fid_computer.scale_factor = cfg["scale"]
        if cfg["app"] != old["app"]:
            ctx.sut(setattr, dyn, "phase_application", cfg["app"])
        if cfg.get("gp") != old.get("gp"):
            gp = cfg.get("gp")
            if gp is None:
                dyn.dyn_gen_phase = None
            else:
                dp = S.dyn_params(cfg)
                ctx.sut(setattr, dyn, "phase_application",
                        dp.get("phase_application", "preop"))
                dyn.dyn_gen_phase = dp["dyn_gen_phase"]
                if gp[0] == "custom":
                    dyn._apply_phase = S.half
        for nm in step["peek"]:
            # what is read before the initialisation is not specified
            try:
                getattr(dyn, nm)
            except Exception as e:
                if getattr(e, "sim_injected", False):
                    raise
        if cfg["stats"] != old["stats"]:
            optim.stats = dyn.stats = qstats.Stats() if cfg["stats"] else None

    def use(self, ep, u):
        """Initialise and use; returns how it ended."""
        ctx, w, optim = self.ctx, self.w, ep.optim
        dyn = optim.dynamics
        a = S.gen_amps(u["amps"], ep.cfg["n_ts"], ep.cfg["n_ctrls"]) * 0.5
        w.faults = [dict(f, n=w.counts.get(f["seam"], 0) + f["n"])
                    for f in u["faults"]]
        if u["how"] == "none":
            w.faults = []
            return "none"
        try:
            ep.start_pulse(a)
            if u["how"] == "queries":
                ctx.sut(dyn.fid_computer.get_fid_err)
                ctx.sut(dyn.fid_computer.get_fid_err_gradient)
                for nm in ("dyn_gen", "prop", "prop_grad", "fwd_evo",
                           "onwd_evo", "onto_evo"):
                    ctx.sut(getattr, dyn, nm)
        except BaseException as x:
            if not getattr(x, "sim_injected", False):
                raise
            return "aborted"
        finally:
            w.faults = [] if u["how"] != "run" else w.faults
        if u["how"] == "run":
            ep.optimise()
            w.faults = []
            return "aborted run" if ep.exc is not None else "run"
        return u["how"]

    def operators(self, dyn):
        ctx, out = self.ctx, {}
        ctx.sut(dyn.compute_evolution)
        fc = dyn.fid_computer
        out["fid_err"] = T.val(ctx.sut(fc.get_fid_err))
        out["gradient"] = T.val(ctx.sut(fc.get_fid_err_gradient))
        for nm in ("dyn_gen", "prop", "fwd_evo", "full_evo"):
            out[nm] = T.val(ctx.sut(getattr, dyn, nm))
        if fc.uses_onwd_evo:
            out["onwd_evo"] = T.val(ctx.sut(getattr, dyn, "onwd_evo"))
        if fc.uses_onto_evo:
            out["onto_evo"] = T.val(ctx.sut(getattr, dyn, "onto_evo"))
        if dyn.prop_computer.grad_exact and dyn.cache_prop_grad:
            out["prop_grad"] = T.val(ctx.sut(getattr, dyn, "prop_grad"))
        out["num_ctrls"] = dyn.num_ctrls
        out["num_tslots"] = dyn.num_tslots
        out["evo_time"] = float(dyn.evo_time)
        out["time"] = T.val(dyn.time)
        out["tau"] = T.val(np.asarray(dyn.tau))
        return out

    def go(self):
        ctx, plan = self.ctx, self.plan
        run = plan["run"]
        with ctx.world(np_seed=3, costs=run["costs"], max_steps=300000) as w:
            self.w = w
            st = plan["steps"][0]
            ep = E.Episode(ctx, w, st["cfg"], dict(run, script=st["use"]["script"], stats=st["cfg"]["stats"]),
                           parts(st["cfg"]))
            optim = ep.make(**app_param(st["cfg"]))
            ended = [self.use(ep, st["use"])]
            for prev, st in zip(plan["steps"], plan["steps"][1:]):
                self.apply(optim, prev["cfg"], st["cfg"], st)
                ep = E.Episode(ctx, w, st["cfg"], dict(run, script=st["use"]["script"]),
                               parts(st["cfg"]))
                ep.optim = optim
                ep.minim.probe_amps = lambda: optim.dynamics.ctrl_amps
                ended.append(self.use(ep, st["use"]))
            got = T.of_episode(ep, times=True, stats=True)
            gops = self.operators(optim.dynamics)
        with ctx.world(np_seed=4, costs=run["costs"], max_steps=300000) as w:
            self.w = w
            f = E.Episode(ctx, w, st["cfg"], dict(run, script=st["use"]["script"], stats=st["cfg"]["stats"]),
                          parts(st["cfg"]))
            f.make(**app_param(st["cfg"]))
            self.use(f, st["use"])
            want = T.of_episode(f, times=True, stats=True)
            wops = self.operators(f.optim.dynamics)
        what = [s["what"] for s in plan["steps"][1:]]
        d = T.difference(want, got)
        ctx.check(
            d is None, "differs",
            "after the changes {} (uses ended {}) the run differs from new "
            "objects (new / reused): {}", what, ended, d,
        )
        for k in wops:
            ctx.check(
                wops[k] == gops.get(k), "operators:" + k,
                "after the changes {} (uses ended {}) {} differs from new "
                "objects (new / reused): {} / {}",
                what, ended, k, T.show(wops[k]), T.show(gops.get(k)),
            )
        ctx.probe("runs compared")
        ctx.probe("operators compared", len(wops))
        for k in what[-1]:
            ctx.probe("changed " + k)
        ctx.state(st["cfg"]["dyn"], st["cfg"]["prop_eff"], st["cfg"]["fid_eff"],
                  tuple(sorted(what[-1])),
                  tuple(sorted(what[-2])) if len(what) > 1 else (), ended[-2])


def body(ctx, plan):
    Runner(ctx, plan).go()


def nontrivial(out):
    return out.probes.get("runs compared", 0) > 0
