"""C14: equivalent descriptions give the same optimisation."""
import inspect
import os

import numpy as np

from .. import systems as S
from .. import episode as E
from .. import trace as T
from .c09 import check_abort
from .c11 import files
from .c12 import clear

ID = "C14"
RULE = (
    "One run = one random problem and optimisation, described twice: with the "
    "arguments of optimize_pulse, and through another entry point "
    "(optimize_pulse_unitary, opt_pulse_crab, opt_pulse_crab_unitary, "
    "create_pulse_optimizer followed by the documented steps, "
    "create_pulse_optimizer with the settings made on the objects or loaded "
    "from a parameter file, the components assembled by hand) and / or with "
    "arguments rewritten into an equivalent form (names in another case, "
    "defaults left out or spelled out, deprecated keywords, bounds as lists, "
    "time slots as an array, operators repeated for each time slot, other "
    "containers). Both are run with the same clock, random stream, minimiser "
    "behaviour and injected faults, and their evaluations, results, times and "
    "files are compared bit for bit. Runs described with other operator "
    "types, caching options, exact propagator computers or dynamics types "
    "are compared within rounding (scripted minimiser). Non-trivial when two "
    "different descriptions were compared. States: (entry point, rewritings, "
    "configuration class, end)."
)
ASSUMPTIONS = [
    "descriptions are equivalent where the documentation of the parameters "
    "says so; quirks listed in DESIGN.md are not exercised",
    "comparison within rounding: 1e-6 relative, not at points where the "
    "gradient is undefined or where rounding errors are amplified",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer",
        "scipy minimisers (part of the runs)"]
STUB = ["clock", "random stream", "minimiser (scripted runs)", "file system"]
TECHNIQUE = (
    "two simulated optimisations per run under the same minimiser behaviour, "
    "clock, random stream and injected faults, described differently; "
    "comparison of the recorded histories"
)
LEVEL_NOTE = "Seeded sampling of problems, descriptions, schedules and faults."
N_QUICK = 21000
N_THOROUGH = 300000

EXACT = ["case", "explicit", "omit", "deprecated", "tau", "containers",
         "bounds", "numbers"]
ROUND = ["td_drift", "td_ctrl", "dtype", "cache", "prop", "genmat", "storage"]
ENTRIES = ["optimize_pulse", "unitary", "crab", "create", "attrs", "file",
           "manual", "manual-file"]
EXCS = ["MemoryError", "LinAlgError", "KeyboardInterrupt", "RuntimeError"]


def gen(rng, tier):
    rounding = bool(rng.rand() < 0.3)
    entry = S.choice(rng, ENTRIES)
    cfg = S.gen_config(rng, small=rng.rand() < 0.7,
                       dyn="UNIT" if entry == "unitary" else None)
    if cfg.get("gp"):
        cfg["gp"][0] = "scalar"  # (a matrix belongs to one type of operator)
    crab = rng.rand() < (1.0 if entry == "crab" else 0.25)
    if entry == "unitary" or (entry == "crab" and cfg["dyn"] == "UNIT"
                              and rng.rand() < 0.6):
        cfg["prop"] = "DEF" if crab else S.choice(rng, ["DEF", "DIAG"])
        cfg["fid"] = S.choice(rng, ["DEF", "UNIT"])
        S.normalise(cfg)
    run = E.gen_run(rng, cfg, alg="CRAB" if crab else "GRAPE",
                    scripted=True if rounding else None)
    if run["tc"]["max_calls"] is None and (
            run["script"] is None or rng.rand() < 0.4):
        run["tc"]["max_calls"] = 60
    if rng.rand() < 0.2:
        cfg["scale"] = float(S.choice(rng, [0.25, 1.0]))
    x = {}
    if rng.rand() < 0.3:
        x["max_metric_corr"] = int(rng.randint(2, 12))
    if rng.rand() < 0.3:
        x["accuracy_factor"] = float(S.choice(rng, [1e3, 1e7, 10.0]))
    if rng.rand() < 0.3:
        x["file"] = True
    if rng.rand() < 0.3:
        x["xtol"] = float(S.choice(rng, [1e-2, 1e-6]))
    if rng.rand() < 0.2:
        x["level"] = int(S.choice(rng, [20, 10]))
    if rng.rand() < 0.3:
        x["pulse"] = S.choice(rng, [
            {"freq": 2.0}, {"num_waves": 1.5}, {"wavelen": 0.7},
            {"start_phase": 0.5}, {"start_val": -0.5}, {"end_val": 0.25},
        ])
    if run["alg"] == "CRAB" and rng.rand() < 0.3:
        x["crab_pulse"] = S.choice(rng, [
            {"randomize_coeffs": False}, {"offset": 0.1}])
    n = int(S.choice(rng, [0, 1, 2, 4], [2, 3, 3, 2]))
    forms = [{"form": S.choice(rng, EXACT), "seed": int(rng.randint(1 << 30))}
             for _ in range(n)]
    if rounding:
        for _ in range(int(rng.randint(1, 3))):
            forms.append({"form": S.choice(rng, ROUND),
                          "seed": int(rng.randint(1 << 30))})
    faults = []
    if not rounding and rng.rand() < 0.25:
        for _ in range(int(S.choice(rng, [1, 2], [4, 1]))):
            faults.append({
                "seam": S.choice(rng, ["la", "min.f", "min.g", "min.cb", "min.own"], [5, 2, 2, 2, 1]),
                "n": int(rng.randint(1, int(S.choice(rng, [4, 12, 60])))),
                "act": "raise", "exc": S.choice(rng, EXCS),
                "when": S.choice(rng, ["before", "after"]),
            })
    return {"cfg": cfg, "run": run, "x": x, "forms": forms, "faults": faults,
            "entry": entry, "eseed": int(rng.randint(1 << 30))}


# ---------------------------------------------------------------------------
# the first description, and rewritings of it
# ---------------------------------------------------------------------------


def first(cfg, run, x):
    fn, pos, kw = E.function_call(cfg, run, S.make_parts(cfg), "optimize_pulse")
    mp = dict(kw.get("method_params") or {})
    for k in ("max_metric_corr", "accuracy_factor"):
        if k in x:
            mp[k] = x[k]
    if "xtol" in x and run["method"] in ("FMIN", "Nelder-Mead", "Powell"):
        mp["xtol" if run["method"] != "Nelder-Mead" else "xatol"] = x["xtol"]
    if mp:
        kw["method_params"] = mp
    if "pulse" in x:
        kw["init_pulse_params"] = dict(kw.get("init_pulse_params") or {}, **x["pulse"])
    if "crab_pulse" in x and run["alg"] == "CRAB":
        kw["alg_params"] = dict(kw.get("alg_params") or {},
                                crab_pulse_params=dict(x["crab_pulse"]))
    if x.get("file"):
        kw["out_file_ext"] = "c14.txt"
    if "level" in x:
        kw["log_level"] = x["level"]
    if run["alg"] == "CRAB":
        kw["min_grad"] = 0.0  # (what opt_pulse_crab uses: no gradients)
    kw.setdefault("init_pulse_type", "DEF")
    return pos, kw


def recase(r, s):
    return S.choice(r, [s.lower(), s.upper(), s.capitalize()])


def rewrite(form, r, cfg, run, pos, kw, D):
    """Apply one rewriting; False when it does not apply."""
    crab = run["alg"] == "CRAB"
    n_ts, n_c = cfg["n_ts"], cfg["n_ctrls"]
    if form == "case":
        kw["alg"] = recase(r, kw["alg"])
        if kw["optim_method"] is None:
            pass
        elif kw["optim_method"].upper() in ("LBFGSB", "FMIN_L_BFGS_B"):
            kw["optim_method"] = recase(r, S.choice(r, ["LBFGSB", "FMIN_L_BFGS_B"]))
        else:
            kw["optim_method"] = recase(r, kw["optim_method"])
        if (kw["init_pulse_type"] or "").upper() == "DEF":
            kw["init_pulse_type"] = recase(r, "DEF")
        if kw["fid_type"].upper() == "TDAPPROX":
            # (documented as TD_APPROX)
            kw["fid_type"] = S.choice(r, ["TDAPPROX", "TD_APPROX"])
        kw["fid_type"] = recase(r, kw["fid_type"])
        return True
    if form == "explicit":
        # spell out what the default stands for (or the other way round)
        u = kw["dyn_type"] == "UNIT"
        if crab:
            if kw["prop_type"] in ("DEF", "APPROX"):
                kw["prop_type"] = S.choice(r, ["DEF", "APPROX"])
        else:
            d = "DIAG" if u else "FRECHET"
            if kw["prop_type"] in ("DEF", d):
                kw["prop_type"] = S.choice(r, ["DEF", d, None, ""])
        d = "UNIT" if u else "TRACEDIFF"
        if kw["fid_type"].upper() in ("DEF", d):
            kw["fid_type"] = S.choice(r, ["DEF", d])
        if kw["dyn_type"] == "GEN_MAT":
            kw["dyn_type"] = S.choice(r, ["GEN_MAT", None, ""])
        m = (kw["optim_method"] or "").upper()
        if m in (["FMIN"] if crab else ["LBFGSB", "FMIN_L_BFGS_B"]):
            kw["optim_method"] = S.choice(r, ["DEF", None, kw["optim_method"]])
        t = (kw["init_pulse_type"] or "DEF").upper()
        if t == "DEF" or (t == "RND" and not crab):
            kw["init_pulse_type"] = S.choice(
                r, ["DEF", None] + ([] if crab else ["RND"]))
        if crab:
            ap = dict(kw.get("alg_params") or {})
            ap.setdefault("fix_frequency", True)
            ap.setdefault("init_coeff_scaling", 1.0)
            ap.setdefault("num_coeffs", max(2, D["drift_dim"] - 1))
            kw["alg_params"] = ap
        return True
    if form == "omit":
        D["omit"] = True
        return True
    if form == "deprecated":
        D["deprecated"] = int(r.randint(1, 256))
        return True
    if form == "tau":
        if kw["tau"] is not None:
            return False
        tau = np.ones(n_ts, "f") * kw["evo_time"] / n_ts
        if tau[0] != kw["evo_time"] / n_ts or (
            np.sum(tau) != kw["evo_time"]) or crab or (
            kw["init_pulse_type"] or "RND"
        ).upper() not in ("RND", "ZERO", "DEF"):
            return False  # (the pulse time would be in single precision)
        kw["tau"] = tau
        if r.rand() < 0.5:
            kw["num_tslots"] = kw["evo_time"] = None
        return True
    if form == "containers":
        if isinstance(pos[1], np.ndarray):
            k = r.randint(3)
            rows = [list(x) for x in pos[1]]
            pos[1] = (rows, tuple(tuple(x) for x in rows),
                      [tuple(x) for x in rows])[k]
        else:
            pos[1] = tuple(pos[1])
        if isinstance(pos[0], list):
            pos[0] = tuple(pos[0])
        return True
    if form == "bounds":
        for k in ("amp_lbound", "amp_ubound"):
            if not isinstance(kw[k], list) and r.rand() < 0.8:
                kw[k] = [kw[k]] * n_c
        return True
    if form == "numbers":
        # the same numbers as other types
        double = not crab and (kw["init_pulse_type"] or "DEF") in (
            "RND", "ZERO", "DEF")
        for k in ("amp_lbound", "amp_ubound", "fid_err_targ",
                  "max_wall_time", "pulse_scaling", "pulse_offset"):
            v = kw[k]
            if isinstance(v, float) and r.rand() < 0.7:
                # (a numpy scalar would change the precision of a pulse
                # that is computed in single precision)
                kw[k] = S.choice(r, ([int(v)] if v == int(v) else []) + (
                    [np.float64(v)] if k in ("fid_err_targ", "max_wall_time")
                    or (k[:3] == "amp" and double) else [v]))
            elif double and isinstance(v, list) and r.rand() < 0.7:
                kw[k] = [x if x is None else np.float64(x) for x in v]
        if kw["evo_time"] is not None and kw["evo_time"] == int(kw["evo_time"]):
            # (a numpy scalar would select the precision of the durations)
            kw["evo_time"] = int(kw["evo_time"])
        return True
    if form == "storage":
        for i in (0, 1, 2, 3):
            pos[i] = stored(pos[i], S.choice(r, ["CSR", "Dense"]))
        return True
    if form == "td_drift":
        if isinstance(pos[0], (list, tuple)):
            return False
        pos[0] = [pos[0]] * n_ts
        return True
    if form == "td_ctrl":
        if isinstance(pos[1], np.ndarray) or isinstance(pos[1][0], (list, tuple)):
            return False
        arr = np.empty((n_ts, n_c), dtype=object)
        for k in range(n_ts):
            for j in range(n_c):
                arr[k, j] = pos[1][j]
        pos[1] = arr
        return True
    dp = dict(kw["dyn_params"])
    if form == "dtype":
        dp["oper_dtype"] = S.choice(r, [S.Qobj, np.ndarray])
    elif form == "cache":
        for k in ("cache_phased_dyn_gen", "cache_prop_grad",
                  "cache_dyn_gen_eigenvectors_adj"):
            dp[k] = S.choice(r, [None, True, False])
        if dp["memory_optimization"] != 2:
            dp["memory_optimization"] = int(r.randint(2))
    elif form == "prop":
        u = kw["dyn_type"] == "UNIT"
        same = (["DIAG", "FRECHET", "AUG_MAT"] if u else ["FRECHET", "AUG_MAT"])
        now = kw["prop_type"] or "DEF"
        if crab or (now not in same and now != "DEF" and now != ""):
            return False
        kw["prop_type"] = S.choice(r, same)
    elif form == "genmat":
        if kw["dyn_type"] != "UNIT" or (kw["prop_type"] or "DEF") == "DIAG":
            return False
        pos[0] = scaled(pos[0], -1j)
        pos[1] = scaled(pos[1], -1j)
        if kw["prop_type"] in ("DEF", "", None) and not crab:
            kw["prop_type"] = "FRECHET"
        if (kw["fid_type"] or "DEF").upper() in ("DEF", ""):
            kw["fid_type"] = "UNIT"
        kw["dyn_type"] = "GEN_MAT"
    kw["dyn_params"] = dp
    return True


def stored(v, how):
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            out[i] = v[i].to(how)
        return out
    if isinstance(v, (list, tuple)):
        return type(v)(stored(x, how) for x in v)
    return v.to(how)


def scaled(v, c):
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            out[i] = c * v[i]
        return out
    if isinstance(v, (list, tuple)):
        return type(v)(scaled(x, c) for x in v)
    return c * v


def deprecated(bits, kw):
    """Move arguments to the deprecated keywords that stand for them."""
    # given both ways, the dictionaries take precedence
    both = bits & 64
    if bits & 1:
        kw["optim_alg"] = kw.pop("optim_method")
        if kw["optim_alg"] is None:
            kw["optim_alg"] = "DEF"
    mp = dict(kw.get("method_params") or {})
    for bit, k in ((2, "max_metric_corr"), (4, "accuracy_factor")):
        if bits & bit and k in mp:
            kw[k] = mp[k] + 2 if both else mp.pop(k)
    if mp or kw.get("method_params") is not None:
        kw["method_params"] = mp or None
    fp = dict(kw.get("fid_params") or {})
    if bits & 8 and "phase_option" in fp:
        kw["phase_option"] = fp["phase_option"]
        if both:
            kw["phase_option"] = "SU" if fp["phase_option"] == "PSU" else "PSU"
        else:
            fp.pop("phase_option")
    if bits & 16 and "scale_factor" in fp:
        v = fp["scale_factor"]
        kw["fid_err_scale_factor"] = v if not both else 2.0 * (v or 1.0)
        if not both:
            fp.pop("scale_factor")
    if bits & 128:
        fp["label"] = "any attribute"
    kw["fid_params"] = fp or None
    if bits & 32:
        kw["amp_update_mode"] = "ALL"


def omit(fn, kw):
    """Leave out arguments that equal the documented default."""
    sig = inspect.signature(fn).parameters
    for k in list(kw):
        d = sig[k].default
        v = kw[k]
        if type(v) is type(d) and not isinstance(v, np.ndarray) and v == d:
            del kw[k]


# ---------------------------------------------------------------------------
# entry points
# ---------------------------------------------------------------------------


def run_first(ctx, w, plan):
    cfg, run = plan["cfg"], plan["run"]
    pos, kw = first(cfg, run, plan["x"])
    ep = E.Episode(ctx, w, cfg, run)
    np.random.seed(run["np_seed"])
    E.call_function(ep, "optimize_pulse", pos, kw)
    return ep


def run_second(ctx, w, plan):
    import qutip_qtrl.pulseoptim as cpo

    cfg, run, x = plan["cfg"], plan["run"], plan["x"]
    pos, kw = first(cfg, run, x)
    D = {"drift_dim": int(np.prod(S.DIMS[cfg["dim"]]))}
    used = []
    for f in plan["forms"]:
        r = np.random.RandomState(f["seed"])
        if rewrite(f["form"], r, cfg, run, pos, kw, D):
            used.append(f["form"])
    r = np.random.RandomState(plan["eseed"])
    entry = plan["entry"]
    crab = run["alg"] == "CRAB"
    prop = (kw["prop_type"] or "DEF")
    unit = kw["dyn_type"] == "UNIT" and (
        (kw["fid_type"] or "DEF").upper() in ("DEF", "UNIT", "")
    ) and prop in (("DEF", "APPROX") if crab else ("DEF", "DIAG", ""))
    if entry == "crab" and not crab:
        entry = "unitary"
    if entry == "unitary" and not unit:
        entry = "optimize_pulse"
    if entry == "crab" and unit and r.rand() < 0.5:
        entry = "crab-unitary"
    ep = E.Episode(ctx, w, cfg, run)
    np.random.seed(run["np_seed"])
    steps = {"create": via_create, "attrs": via_attrs, "file": via_attrs,
             "manual": via_manual, "manual-file": via_manual}
    if entry in steps:
        w.minim = ep.minim
        ep.exc = ep.result = None
        try:
            ep.result = steps[entry](ctx, w, ep, plan, pos, kw, D, r, entry)
        except BaseException as e:
            if not getattr(e, "sim_injected", False):
                raise
            ep.exc = e
        return ep, entry, used
    name = {"unitary": "optimize_pulse_unitary", "crab": "opt_pulse_crab",
            "crab-unitary": "opt_pulse_crab_unitary"}.get(entry, entry)
    if "unitary" in entry:
        for k in ("dyn_type", "prop_type", "fid_type"):
            kw.pop(k)
        fp = dict(kw["fid_params"] or {})
        if r.rand() < 0.6 and "phase_option" in fp:
            kw["phase_option"] = fp.pop("phase_option")
            kw["fid_params"] = fp or None
    if "crab" in entry:
        for k in ("alg", "min_grad"):
            kw.pop(k)
        t = kw.pop("init_pulse_type")
        kw["guess_pulse_type"] = None if (t or "DEF").upper() == "DEF" else t
        ip = dict(kw.pop("init_pulse_params", None) or {})
        act = ip.pop("pulse_action", None)
        if act is not None:
            if r.rand() < 0.7:
                kw["guess_pulse_action"] = act
            else:
                ip["pulse_action"] = act
        sc, of = kw.pop("pulse_scaling"), kw.pop("pulse_offset")
        if r.rand() < 0.7:
            kw["guess_pulse_scaling"], kw["guess_pulse_offset"] = sc, of
        else:
            ip.update(scaling=sc, offset=of)
        if ip:
            kw["guess_pulse_params"] = ip
        ap = dict(kw.get("alg_params") or {})
        for k in ("num_coeffs", "init_coeff_scaling"):
            if k in ap and r.rand() < 0.6:
                kw[k] = ap.pop(k)
            elif k in ap and r.rand() < 0.5:
                # documented: overridden by alg_params
                kw[k] = ap[k] + 1
        kw["alg_params"] = ap or None
    elif "deprecated" in D:
        deprecated(D["deprecated"], kw)
    sig = inspect.signature(getattr(cpo, name)).parameters
    for k in kw:
        if k not in sig:
            raise RuntimeError("{} has no argument {}".format(name, k))
    if "omit" in D:
        omit(getattr(cpo, name), kw)
    E.call_function(ep, name, pos, kw)
    return ep, entry, used


def via_create(ctx, w, ep, plan, pos, kw, D, r, entry):
    """The steps documented for create_pulse_optimizer."""
    import qutip_qtrl.pulseoptim as cpo

    ext = kw.pop("out_file_ext", None)
    if "deprecated" in D:
        deprecated(D["deprecated"], kw)
    if "omit" in D:
        omit(cpo.create_pulse_optimizer, kw)
    o = ctx.sut(cpo.create_pulse_optimizer, *pos, **kw)
    return finish(ctx, ep, o, kw, ext, r)


def finish(ctx, ep, o, kw, ext, r, tc=None):
    ep.optim = o
    dyn = o.dynamics
    ep.minim.probe_amps = lambda: dyn.ctrl_amps
    n_c = ep.cfg["n_ctrls"]
    if r.rand() < 0.5:
        ctx.sut(dyn.init_timeslots)
    cols = []
    for j in range(n_c):
        if isinstance(o.pulse_generator, list):
            p = o.pulse_generator[j]
            ctx.sut(p.init_pulse)
        else:
            p = o.pulse_generator
            for b, v in (("lbound", kw.get("amp_lbound")),
                         ("ubound", kw.get("amp_ubound"))):
                if isinstance(v, list):
                    setattr(p, b, v[j])
        cols.append(ctx.sut(p.gen_pulse))
    ctx.sut(dyn.initialize_controls, np.array(cols).T.copy())
    if ext is not None:
        ctx.sut(dyn.save_amps, "ctrl_amps_initial_" + ext)
    res = ctx.sut(o.run_optimization, *([] if tc is None else [tc]))
    if ext is not None:
        ctx.sut(dyn.save_amps, "ctrl_amps_final_" + ext)
    return res


def settings(kw):
    """{section: {attribute: value}} of the settings in the keywords."""
    dp = dict(kw.get("dyn_params") or {})
    mp = dict(kw.get("method_params") or {})
    tc = {
        "fid_err_targ": kw["fid_err_targ"], "min_gradient_norm": kw["min_grad"],
        "max_iterations": kw["max_iter"], "max_wall_time": kw["max_wall_time"],
    }
    op = dict(kw.get("optim_params") or {})
    if "max_fid_func_calls" in mp:
        tc["max_fid_func_calls"] = mp.pop("max_fid_func_calls")
    if (kw["optim_method"] or "DEF").upper() in ("LBFGSB", "FMIN_L_BFGS_B", "DEF"):
        if "max_metric_corr" in mp:
            op["max_metric_corr"] = mp.pop("max_metric_corr")
        if "accuracy_factor" in mp:
            tc["accuracy_factor"] = mp.pop("accuracy_factor")
    if (kw["optim_method"] or "DEF").upper() in ("FMIN", "DEF"):
        for k in ("xtol", "ftol"):
            if k in mp:
                op[k] = mp.pop(k)
    return dp, dict(kw.get("fid_params") or {}), tc, op, mp


def in_file(ob, a, v):
    """Can a parameter file express this value?  (It is read as the type
    that the attribute has.)"""
    t = type(getattr(ob, a, None))
    return t in (bool, int, float) and (
        type(v) is t or (t is float and type(v) is int))


def apply(ctx, w, entry, cfg, dyn, o, tc, dp, fp, tcd, op, pgen=None, pp=None):
    """Settings made on the objects, or loaded from a file."""
    import qutip_qtrl.loadparams as lp

    # the goal instead of the error
    e = tcd.get("fid_err_targ")
    if e is not None and 1 - (1 - e) == e and len(dp) % 2:
        tcd = dict(tcd, fid_err_targ=None, fid_goal=1 - e)
    objs = {"dynamics": (dyn, dp), "termconds": (tc, tcd), "optimizer": (o, op)}
    if pgen is not None:
        objs["pulsegen"] = (pgen, pp)
    left = {k: v for k, (_, v) in objs.items()}
    if entry.endswith("file"):
        written = {k: {a: v for a, v in d.items() if in_file(ob, a, v)}
                   for k, (ob, d) in objs.items()}
        path = os.path.join(w.home, "params.ini")
        with open(path, "w") as f:
            for k, d in written.items():
                f.write("[{}]\n".format(k))
                for a, v in d.items():
                    f.write("{}: {!r}\n".format(a, v))
        kw = {"pulsegen": pgen} if pgen is not None else {}
        ctx.sut(lp.load_parameters, path, dynamics=dyn, optim=o,
                term_conds=tc, **kw)
        os.remove(path)
        left = {k: {a: v for a, v in d.items() if a not in written[k]}
                for k, d in left.items()}
    for k, d in left.items():
        for a, v in d.items():
            ctx.sut(setattr, objs[k][0], a, v)
    for a, v in fp.items():
        if a == "phase_option" and entry.startswith("attrs") and len(dp) % 2:
            ctx.sut(dyn.fid_computer.set_phase_option, v)  # (deprecated)
        else:
            ctx.sut(setattr, dyn.fid_computer, a, v)


def via_attrs(ctx, w, ep, plan, pos, kw, D, r, entry):
    """Settings made on the objects after create_pulse_optimizer."""
    import qutip_qtrl.optimizer as om
    import qutip_qtrl.pulseoptim as cpo
    import qutip_qtrl.stats as qstats

    crab = ep.run["alg"] == "CRAB"
    ext = kw.pop("out_file_ext", None)
    dp, fp, tcd, op, mp = settings(kw)
    keep = {k: kw[k] for k in (
        "num_tslots", "evo_time", "tau", "alg", "optim_method", "dyn_type",
        "prop_type", "fid_type", "init_pulse_type", "log_level",
        "ramping_pulse_type") if k in kw}
    if crab:
        for k in ("alg_params", "pulse_scaling", "pulse_offset",
                  "init_pulse_params", "amp_lbound", "amp_ubound"):
            if k in kw:
                keep[k] = kw[k]
    o = ctx.sut(cpo.create_pulse_optimizer, *pos, **keep)
    dyn = o.dynamics
    tc = o.termination_conditions
    o.amp_lbound, o.amp_ubound = kw["amp_lbound"], kw["amp_ubound"]
    pgen, pp = None, None
    if not crab:
        pgen = o.pulse_generator
        pp = dict(kw.get("init_pulse_params") or {})
        pp.update(scaling=kw["pulse_scaling"], offset=kw["pulse_offset"])
        if not isinstance(kw["amp_lbound"], list):
            pgen.lbound = kw["amp_lbound"]
        if not isinstance(kw["amp_ubound"], list):
            pgen.ubound = kw["amp_ubound"]
    if r.rand() < 0.3 and isinstance(o, om.OptimizerLBFGSB):
        # where they once were
        for d, k in ((op, "max_metric_corr"), (tcd, "accuracy_factor")):
            if k in d:
                setattr(o.config, k, d.pop(k))
    apply(ctx, w, entry, ep.cfg, dyn, o, tc, dp, fp, tcd, op, pgen, pp)
    if mp:
        if r.rand() < 0.5:
            o.method_params = mp
        else:
            ctx.sut(o.apply_method_params, mp)
    if kw["gen_stats"]:
        dyn.stats = o.stats = qstats.Stats()
    return finish(ctx, ep, o, kw, ext, r)


def via_manual(ctx, w, ep, plan, pos, kw, D, r, entry):
    """Components assembled by hand."""
    import qutip_qtrl.optimconfig as oc
    import qutip_qtrl.dynamics as qd
    import qutip_qtrl.propcomp as pc
    import qutip_qtrl.fidcomp as fc
    import qutip_qtrl.pulsegen as pg
    import qutip_qtrl.optimizer as om
    import qutip_qtrl.termcond as qt
    import qutip_qtrl.stats as qstats
    import qutip_qtrl.logging_utils as ql

    crab = ep.run["alg"] == "CRAB"
    ext = kw.pop("out_file_ext", None)
    dp, fp, tcd, op, mp = settings(kw)
    c = oc.OptimConfig()
    c.log_level = kw.get("log_level") or ql.get_logger().getEffectiveLevel()
    in_config = r.rand() < 0.3 and not crab
    if in_config:
        c.amp_lbound, c.amp_ubound = kw["amp_lbound"], kw["amp_ubound"]
    cls = {"UNIT": qd.DynamicsUnitary, "SYMPL": qd.DynamicsSymplectic}.get(
        kw["dyn_type"], qd.DynamicsGenMat)
    early = r.rand() < 0.4
    dyn = ctx.sut(cls, c, *([dict(dp)] if early and entry == "manual" else []))
    prop = kw["prop_type"] or "DEF"
    if crab and prop == "DEF":
        prop = "APPROX"
    if prop != "DEF":
        dyn.prop_computer = ctx.sut({
            "APPROX": pc.PropCompApproxGrad, "DIAG": pc.PropCompDiag,
            "AUG_MAT": pc.PropCompAugMat, "FRECHET": pc.PropCompFrechet,
        }[prop], dyn)
    fid = (kw["fid_type"] or "DEF").upper().replace("_", "")
    fpar = []
    if r.rand() < 0.4 and fp:
        fpar = [dict(fp)]
    fcls = {"UNIT": fc.FidCompUnitary, "TRACEDIFF": fc.FidCompTraceDiff,
            "TDAPPROX": fc.FidCompTraceDiffApprox}.get(fid)
    if fcls is not None and not isinstance(dyn.fid_computer, fcls):
        dyn.fid_computer = ctx.sut(fcls, dyn, *fpar)
    dyn.drift_dyn_gen = pos[0]
    dyn.ctrl_dyn_gen = pos[1]
    dyn.initial, dyn.target = pos[2], pos[3]
    if kw["tau"] is not None:
        dyn.tau = kw["tau"]
    else:
        order = [("num_tslots", kw["num_tslots"]), ("evo_time", kw["evo_time"])]
        if r.rand() < 0.5:
            order.reverse()
        for k, v in order:
            setattr(dyn, k, v)
    m = kw["optim_method"]
    mu = (m or "DEF").upper()
    if mu == "DEF":
        m = mu = "FMIN" if crab else "FMIN_L_BFGS_B"
    cls = (om.OptimizerBFGS if mu == "FMIN_BFGS" else
           om.OptimizerLBFGSB if mu in ("LBFGSB", "FMIN_L_BFGS_B") else
           om.OptimizerCrabFmin if mu == "FMIN" else
           om.OptimizerCrab if crab else om.Optimizer)
    o = ctx.sut(cls, c, dyn, *([dict(op)] if op and entry == "manual" else []))
    o.alg = kw["alg"].upper()
    o.method = m
    tc = qt.TerminationConditions()
    if r.rand() < 0.5:
        o.termination_conditions = tc
    given = None if o.termination_conditions is tc else tc
    if not in_config:
        o.amp_lbound, o.amp_ubound = kw["amp_lbound"], kw["amp_ubound"]
    ramp = None
    if kw.get("ramping_pulse_type"):
        ramp = ctx.sut(pg.create_pulse_gen, kw["ramping_pulse_type"], dyn)
    ptype = kw["init_pulse_type"] or "DEF"
    ip = dict(kw.get("init_pulse_params") or {})
    pgen = pp = None
    if crab:
        ap = dict(kw.get("alg_params") or {})
        action = ip.get("pulse_action")
        gens = []
        guess = None
        if ptype.upper() != "DEF":
            guess = ctx.sut(pg.create_pulse_gen, ptype, dyn)
            guess.scaling, guess.offset = kw["pulse_scaling"], kw["pulse_offset"]
            for k, v in ip.items():
                setattr(guess, k, v)
        for j in range(ep.cfg["n_ctrls"]):
            p = ctx.sut(pg.PulseGenCrabFourier, dyn, ap.get("num_coeffs"),
                        None, ap.get("fix_frequency", True))
            if ap.get("init_coeff_scaling") is not None:
                p.scaling = ap["init_coeff_scaling"]
            for k, v in (ap.get("crab_pulse_params") or {}).items():
                setattr(p, k, v)
            b = []
            for v in (kw["amp_lbound"], kw["amp_ubound"]):
                b.append(v[j] if isinstance(v, list) else v)
            p.lbound, p.ubound = b
            if guess is not None:
                guess.lbound, guess.ubound = b
                p.guess_pulse = ctx.sut(guess.gen_pulse)
                if action:
                    p.guess_pulse_action = action
            if ramp is not None:
                p.ramping_pulse = ctx.sut(ramp.gen_pulse)
            gens.append(p)
        o.pulse_generator = gens
    else:
        if ptype.upper() == "DEF":
            ptype = "RND"
        pp = dict(ip, scaling=kw["pulse_scaling"], offset=kw["pulse_offset"])
        if not isinstance(kw["amp_lbound"], list):
            pp["lbound"] = kw["amp_lbound"]
        if not isinstance(kw["amp_ubound"], list):
            pp["ubound"] = kw["amp_ubound"]
        if entry == "manual" and r.rand() < 0.5:
            pgen = ctx.sut(pg.create_pulse_gen, ptype, dyn, pp)
            pp = {}
        else:
            pgen = ctx.sut(pg.create_pulse_gen, ptype, dyn)
        o.pulse_generator = pgen
    apply(ctx, w, entry, ep.cfg, dyn, o, tc, dp, fp, tcd, op, pgen, pp)
    if mp:
        o.method_params = mp
    if kw["gen_stats"]:
        dyn.stats = o.stats = qstats.Stats()
    return finish(ctx, ep, o, kw, ext, r, given)


# ---------------------------------------------------------------------------


def tidy(plan):
    """Rounding may not decide anything in runs compared within rounding."""
    run = plan["run"]
    if not any(f["form"] in ROUND for f in plan["forms"]):
        return False
    tc = run["tc"]
    tc["max_wall"] = 1e6
    if run["script"] is None:
        run["script"] = {"acts": [], "end": {
            "x": "x0", "seed": 1, "warn": 0, "alias": False}}
    for a in run["script"]["acts"]:
        if a["x"] == "best":
            a["x"] = "near"
    if run["script"]["end"]["x"] == "best":
        run["script"]["end"]["x"] = "last"
    plan["faults"] = []
    return True


def trace(ep, exact):
    t = T.of_episode(ep, times=exact, stats=exact)
    t["run"] = [
        e[:2] + (e[2].upper(), e[3], plain(e[4]), plain(e[5]), plain(e[6]), e[7])
        if e[0] == "start" else e
        for e in t["run"]
    ]
    return t


def plain(v):
    """Numbers as floats (a limit may be 5 or 5.0)."""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "S":
            try:
                return ("S", repr(float(v[1])))
            except ValueError:
                return v
        return tuple(plain(x) for x in v)
    return v


def excused(plan, ep):
    """Was a point evaluated where only rounding errors are compared?"""
    cfg = plan["cfg"]
    ref = S.Ref(cfg)
    for e in ep.minim.events:
        a = e["amps"]
        if a is None:
            continue
        if ref.amplification(a) > 1e4 or not ref.grad_comparable(a):
            return True
    return False


def body(ctx, plan):
    plan = dict(plan)
    rounding = tidy(plan)
    cfg, run = plan["cfg"], plan["run"]
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   faults=plan["faults"], max_steps=400000) as w:
        a = run_first(ctx, w, plan)
        fa = files(w)
        ia = list(w.injected)
        clear(w)
        if ia:
            check_abort(ctx, w, a.exc, 0)
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   faults=plan["faults"], max_steps=400000) as w:
        b, entry, used = run_second(ctx, w, plan)
        fb = files(w)
        clear(w)
    rounding = any(f in ROUND for f in used)
    what = "optimize_pulse / {} ({})".format(entry, ", ".join(used) or "-")
    d = T.difference(trace(a, not rounding), trace(b, not rounding),
                     1e-6 if rounding else 0)
    if d is not None and rounding and excused(plan, a):
        ctx.probe("not comparable")
        return
    ctx.check(d is None, "differs", "{}: {}", what, d)
    if not rounding:
        bad = sorted(k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k))
        ctx.check(not bad, "files differ", "{}: files {} differ", what, bad)
    if entry != "optimize_pulse" or used:
        ctx.probe("descriptions compared")
        ctx.probe("entry " + entry)
        for f in set(used):
            ctx.probe("form " + f)
    ctx.state(cfg["dyn"], cfg["prop_eff"], cfg["fid_eff"], cfg["dtype"], entry,
              run["method"], tuple(sorted(set(used))),
              "aborted" if a.exc is not None else "done")


def nontrivial(out):
    return out.probes.get("descriptions compared", 0) > 0
