"""C12: arguments of the caller are read, never changed."""
import copy
import os

import numpy as np

from .. import systems as S
from .. import episode as E
from .. import trace as T
from .c09 import check_abort
from .c11 import files

ID = "C12"
RULE = (
    "One run = one random problem handed to one of the entry points "
    "(optimize_pulse, optimize_pulse_unitary, opt_pulse_crab, "
    "opt_pulse_crab_unitary, create_pulse_optimizer followed by a run) with a "
    "random selection of optional arguments (parameter dictionaries for every "
    "component, deprecated parameters that are merged into them, lists of "
    "bounds, time slot arrays, time dependent operators, dumping), in part "
    "aborted by an injected exception or a failing file system. Deep copies "
    "of all arguments before and after are compared; then the same objects "
    "are passed again and the run is compared bit for bit with one given "
    "fresh copies. Non-trivial when two runs were compared. States: (entry "
    "point, configuration class, arguments given, how the first call ended)."
)
ASSUMPTIONS = [
    "values cached inside Qobj (e.g. isherm) do not count as a change; runs "
    "that differ only by the rounding they cause are accepted (tolerance "
    "1e-7) if the minimiser was scripted",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer",
        "scipy minimisers (part of the runs)"]
STUB = ["clock", "random stream", "minimiser (scripted runs)", "file system"]
TECHNIQUE = (
    "simulated optimisations with injected aborts; deep comparison of the "
    "arguments before and after, and of repeated calls"
)
LEVEL_NOTE = "Seeded sampling of argument combinations and fault points."
N_QUICK = 10800
N_THOROUGH = 110000

EXCS = ["MemoryError", "LinAlgError", "KeyboardInterrupt", "RuntimeError"]


def gen_args(rng, cfg, run, which):
    a = {}
    crab = run["alg"] == "CRAB"

    def maybe(p):
        return rng.rand() < p

    if maybe(0.3):
        a["dump"] = S.choice(rng, ["SUMMARY", "FULL", "CUSTOM"])
        a["dump_file"] = bool(maybe(0.4))
    if maybe(0.3):
        a["mparams"] = S.choice(rng, [{}, {"max_metric_corr": 5},
                                      {"accuracy_factor": 1e7}])
    if maybe(0.25):
        a["max_metric_corr"] = int(rng.randint(2, 12))
    if maybe(0.25):
        a["accuracy_factor"] = float(S.choice(rng, [1e3, 1e7, 10.0]))
    if maybe(0.25):
        a["prop"] = S.choice(rng, [{}, {"grad_exact_check": 1}, {"id_text": "x"}])
    if maybe(0.25):
        a["tslot"] = S.choice(rng, [{}, {"id_text": "t"}])
    if maybe(0.3):
        a["fid"] = S.choice(rng, [{}, {"uses_custom": 1}, {"id_text": "f"}])
    a["bare_fid"] = bool(maybe(0.6))
    if which == "optimize_pulse" and maybe(0.25):
        a["phase_option"] = S.choice(rng, ["PSU", "SU"])
    if which == "optimize_pulse" and maybe(0.2):
        a["fid_err_scale_factor"] = float(S.choice(rng, [0.25, 1.0]))
    if maybe(0.25):
        a["alg"] = S.choice(rng, [{}, {"num_coeffs": 2}, {"fix_frequency": False},
                                  {"crab_pulse_params": {"scaling": 0.5}},
                                  {"crab_pulse_params": {"randomize_coeffs": True}}])
    if crab and maybe(0.35):
        # pulses given as arrays inside nested dictionaries
        a["guess"] = [S.choice(rng, ["ADD", "MODULATE"]), bool(maybe(0.5)),
                      bool(maybe(0.4)), int(rng.randint(1 << 30))]
    if maybe(0.3):
        a["pulse"] = S.choice(rng, [{}, {"scaling": 0.7}, {"offset": 0.1},
                                    {"pulse_action": "ADD"}, {"freq": 2.0},
                                    {"num_waves": 1.5}])
    if maybe(0.25):
        a["ramp"] = S.choice(rng, [None, {}, {"decay_time": 0.1}, {"scaling": 0.9}])
    if which.startswith("opt_pulse_crab"):
        if maybe(0.4):
            a["num_coeffs"] = int(S.choice(rng, [1, 2, 3]))
        if maybe(0.4):
            a["init_coeff_scaling"] = float(S.choice(rng, [0.3, 2.0]))
    if maybe(0.25) and not E.real_approx(run):
        inf = run["method"] in ("LBFGSB", "FMIN_L_BFGS_B") and not crab
        a["bounds"] = S.choice(rng, ([
            [[-1.0] * cfg["n_ctrls"], [1.0] * cfg["n_ctrls"]],
            [[-0.25 * (j + 1) for j in range(cfg["n_ctrls"])], 1.5],
            [None, [0.5 + j for j in range(cfg["n_ctrls"])]],
        ] if not inf or maybe(0.5) else [
            [[-np.inf] * cfg["n_ctrls"], [1.0] * cfg["n_ctrls"]],
            [[-1.0] + [None] * (cfg["n_ctrls"] - 1),
             [np.inf] * (cfg["n_ctrls"] - 1) + [0.75]],
            [[-np.inf] + [-0.5] * (cfg["n_ctrls"] - 1), np.inf],
        ]))
    if which == "optimize_pulse" or which == "optimize_pulse_unitary":
        if maybe(0.1) and not crab:
            a["optim_alg"] = run["method"]
    if maybe(0.25):
        a["file_ext"] = "c12.txt"
    if maybe(0.15):
        a["level"] = S.choice(rng, [20, 10, 9])
    return a


def gen(rng, tier):
    cfg = S.gen_config(rng, small=rng.rand() < 0.7)
    run = E.gen_run(rng, cfg, alg="CRAB" if rng.rand() < 0.35 else None)
    if run["tc"]["max_calls"] is None:
        run["tc"]["max_calls"] = 60
    which = E.fit_function(rng, cfg, run)
    if rng.rand() < 0.2:
        which = "create"
    args = gen_args(rng, cfg, run, which)
    if which == "create":
        for k in ("file_ext", "num_coeffs", "init_coeff_scaling"):
            args.pop(k, None)
    faults = []
    if rng.rand() < 0.5:
        for _ in range(int(S.choice(rng, [1, 2], [4, 1]))):
            if rng.rand() < 0.25:
                faults.append({
                    "seam": S.choice(rng, ["fs.open_w", "fs.write", "fs.makedirs"]),
                    "n": int(rng.randint(1, 6)),
                    "act": S.choice(rng, ["enospc", "eio", "eacces"]),
                })
            else:
                faults.append({
                    "seam": S.choice(rng, ["la", "min.f", "min.g", "min.cb", "min.own"], [5, 2, 2, 2, 1]),
                    "n": int(rng.randint(1, int(S.choice(rng, [4, 12, 60])))),
                    "act": "raise", "exc": S.choice(rng, EXCS),
                    "when": S.choice(rng, ["before", "after"]),
                })
    return {"cfg": cfg, "run": run, "which": which, "args": args,
            "both": bool(rng.rand() < 0.5),
            "faults": faults, "amps_seed": int(rng.randint(1 << 30)),
            "tuple": bool(rng.rand() < 0.2),
            "array": bool(rng.rand() < 0.3)}


# ---------------------------------------------------------------------------


def snap(v):
    """Contents of an argument, down to the elements and their identity."""
    if isinstance(v, S.Qobj):
        return ("Qobj", id(v), v.full().tobytes(), repr(v.dims), v.shape)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objects", id(v), v.shape, [snap(x) for x in v.ravel()])
        return ("array", id(v), v.tobytes(), v.shape, str(v.dtype),
                v.flags.writeable)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v), [snap(x) for x in v])
    if isinstance(v, dict):
        return ("dict", id(v), [(k, snap(x)) for k, x in v.items()])
    return (type(v).__name__, repr(v))


def describe(a, b, name=""):
    """Where two snapshots differ."""
    if a[0] != b[0]:
        return "{}: {} became {}".format(name, a[0], b[0])
    if a[0] in ("list", "tuple", "objects"):
        x, y = a[-1], b[-1]
        if len(x) != len(y):
            return "{}: {} elements became {}".format(name, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return describe(p, q, "{}[{}]".format(name, i))
    if a[0] == "dict":
        x, y = dict(a[2]), dict(b[2])
        for k in sorted(set(x) | set(y), key=str):
            if k not in x or k not in y:
                return "{}: key {!r} {}".format(
                    name, k, "removed" if k in x else "added")
            if x[k] != y[k]:
                return describe(x[k], y[k], "{}[{!r}]".format(name, k))
    if a[1] != b[1] and a[0] in ("Qobj", "array", "list", "dict"):
        return "{}: replaced by another object".format(name)
    return "{}: value changed".format(name)


def arguments(ctx, w, plan, which=None):
    """Fresh positional and keyword arguments of the call."""
    cfg, run, a = plan["cfg"], plan["run"], plan["args"]
    which = which or plan["which"]
    parts = S.make_parts(cfg)
    fn, pos, kw = E.function_call(
        cfg, run, parts, "optimize_pulse" if which == "create" else which
    )
    if which == "create":
        import qutip_qtrl.pulseoptim as cpo

        fn = cpo.create_pulse_optimizer
    if plan["tuple"] and isinstance(pos[1], list):
        pos[1] = tuple(pos[1])
    if plan["array"] and isinstance(pos[1], np.ndarray):
        # documented alternative: a list of lists
        pos[1] = [list(row) for row in pos[1]]
    if plan["both"] and kw.get("tau") is not None:
        # documented: the durations have precedence
        kw["tau"] = np.array(kw["tau"])
        kw["evo_time"] = cfg["evo_time"]
    if "dump" in a:
        op = {"dumping": a["dump"]}
        dp = dict(kw.get("dyn_params") or {}, dumping=a["dump"])
        if a["dump_file"]:
            op.update(dump_to_file=True, dump_dir=os.path.join(w.scratch, "d"))
            dp.update(dump_to_file=True, dump_dir=os.path.join(w.scratch, "d"))
        kw["optim_params"] = dict(kw.get("optim_params") or {}, **op)
        kw["dyn_params"] = dp
    if "mparams" in a:
        kw["method_params"] = dict(a["mparams"], **(kw.get("method_params") or {}))
    for k in ("max_metric_corr", "accuracy_factor"):
        if k in a and not which.startswith("opt_pulse_crab"):
            kw[k] = a[k]
    for k, name in (("prop", "prop_params"), ("tslot", "tslot_params"),
                    ("fid", "fid_params"), ("alg", "alg_params")):
        if k in a:
            kw[name] = dict(copy.deepcopy(a[k]), **(kw.get(name) or {}))
    if "guess" in a:
        act, guess, ramp, seed = a["guess"]
        r = np.random.RandomState(seed)
        d = {"guess_pulse_action": act}
        if guess:
            d["guess_pulse"] = 0.5 + 0.2 * r.normal(size=cfg["n_ts"])
        if ramp:
            d["ramping_pulse"] = np.linspace(0.5, 1, cfg["n_ts"])
        ap = kw["alg_params"] = dict(kw.get("alg_params") or {})
        ap["crab_pulse_params"] = dict(ap.get("crab_pulse_params") or {}, **d)
    if a.get("bare_fid") and isinstance(kw.get("fid_params"), dict):
        # the phase comes from the deprecated / direct parameter instead
        if kw.get("phase_option") or a.get("phase_option"):
            kw["fid_params"].pop("phase_option", None)
        if "fid_err_scale_factor" in a:
            kw["fid_params"].pop("scale_factor", None)
    for k in ("phase_option", "fid_err_scale_factor"):
        if k in a:
            kw[k] = a[k]
    crabf = which.startswith("opt_pulse_crab")
    if "pulse" in a:
        name = "guess_pulse_params" if crabf else "init_pulse_params"
        kw[name] = dict(a["pulse"], **(kw.get(name) or {}))
    if a.get("ramp") is not None:
        kw["ramping_pulse_params"] = dict(a["ramp"])
        if run["alg"] == "CRAB":
            kw.setdefault("ramping_pulse_type", "GAUSSIAN_EDGE")
    for k in ("num_coeffs", "init_coeff_scaling"):
        if k in a:
            kw[k] = a[k]
    if "bounds" in a:
        kw["amp_lbound"], kw["amp_ubound"] = copy.deepcopy(a["bounds"])
    if "optim_alg" in a:
        kw["optim_alg"] = a["optim_alg"]
        kw["optim_method"] = "DEF"
    if "file_ext" in a:
        kw["out_file_ext"] = a["file_ext"]
    if "level" in a:
        kw["log_level"] = a["level"]
    extra = {}
    if which == "create":
        extra["amps"] = np.random.RandomState(plan["amps_seed"]).normal(
            size=(cfg["n_ts"], cfg["n_ctrls"])) * 0.4
    return fn, pos, kw, extra


def call(ctx, w, plan, args, spoil=False):
    """One call; returns the episode."""
    fn, pos, kw, extra = args
    ep = E.Episode(ctx, w, plan["cfg"], plan["run"])
    w.minim = ep.minim
    np.random.seed(plan["run"]["np_seed"])
    n0 = len(w.injected)
    fs0 = len(w.fs_log)

    def new(optim):
        ep.optim = optim
        ep.minim.probe_amps = lambda: optim.dynamics.ctrl_amps

    try:
        with E.CatchOptimizers(new):
            if plan["which"] == "create":
                o = ctx.sut(fn, *pos, **kw)
                if plan["run"]["alg"] == "CRAB":
                    for p in o.pulse_generator:
                        ctx.sut(p.init_pulse)
                ctx.sut(o.dynamics.initialize_controls, extra["amps"])
                if spoil:
                    extra["amps"][...] = 3.0
                ep.result = ctx.sut(o.run_optimization)
            else:
                ep.result = ctx.sut(fn, *pos, **kw)
    except BaseException as e:
        if not getattr(e, "sim_injected", False):
            raise
        ep.exc = e
    inj = [x for x in w.injected[n0:] if not isinstance(x, OSError)]
    if inj:
        check_abort(ctx, w, ep.exc, n0)
    return ep


def body(ctx, plan):
    cfg, run, which = plan["cfg"], plan["run"], plan["which"]
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   faults=plan["faults"], max_steps=400000) as w:
        args = arguments(ctx, w, plan)
        before = snap(args[1]), snap(args[2]), snap(args[3])
        ep = call(ctx, w, plan, args)
        names = ("arguments", "keywords", "extra")
        after = snap(args[1]), snap(args[2]), snap(args[3])
        end = "aborted" if ep.exc is not None else "done"
        for n, p, q in zip(names, before, after):
            ctx.check(p == q, "changed argument", "{} ({}, {})",
                      describe(p, q, n) if p != q else "", which, end)
        ctx.probe("calls " + end)
        ctx.probe("calls of " + which)
        clear(w)
        w.faults = []
        ep2 = call(ctx, w, plan, args)
        t2 = T.of_episode(ep2)
        f2 = files(w)
        after = snap(args[1]), snap(args[2]), snap(args[3])
        for n, p, q in zip(names, before, after):
            ctx.check(p == q, "changed argument", "{} ({}, repeated)",
                      describe(p, q, n) if p != q else "", which)
        clear(w)
        fresh = arguments(ctx, w, plan)
        ep3 = call(ctx, w, plan, fresh, spoil=True)
        t3 = T.of_episode(ep3)
        f3 = files(w)
    d = T.difference(t3, t2)
    if d is not None:
        ctx.probe("rounding differs")
        if run["script"] is not None:
            d = T.difference(t3, t2, 1e-7)
    else:
        bad = sorted(k for k in set(f2) | set(f3) if f2.get(k) != f3.get(k))
        ctx.check(not bad, "files differ", "files {} differ", bad)
    ctx.check(
        d is None, "differs",
        "with fresh arguments / with those of an earlier ({}) call: {}", end, d)
    ctx.probe("runs compared")
    ctx.state(cfg["dyn"], cfg["prop_eff"], cfg["fid_eff"], cfg["dtype"], which,
              run["method"], tuple(sorted(plan["args"])), end)


def clear(w):
    """The files of one call must not be seen by the next."""
    import shutil

    for n in sorted(os.listdir(w.scratch)):
        if n == "cwd":
            for m in os.listdir(w.cwd):
                os.remove(os.path.join(w.cwd, m))
        elif n != "home":
            shutil.rmtree(os.path.join(w.scratch, n))
    shutil.rmtree(os.path.join(w.home, ".qtrl_dump"), ignore_errors=True)


def nontrivial(out):
    return out.probes.get("runs compared", 0) > 0
