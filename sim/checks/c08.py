"""C08: pulses respect bounds, scaling and the shapes asked for."""
import os

import numpy as np

from .. import systems as S
from .. import episode as E

import qutip_qtrl.pulsegen as pg
import qutip_qtrl.dynamics as dynamics

ID = "C08"
RULE = (
    "Four kinds of runs. Generators: one pulse generator of any type "
    "(independent or made for a Dynamics object with equal or unequal time "
    "slots) and a random history of init_pulse / gen_pulse calls with and "
    "without arguments and of changes of scaling, offset and bounds, where "
    "the random stream is the usual one, one constant (0, 1/2, just below 1) "
    "or a sequence of extremes; every pulse is compared with a model of the "
    "documented shape, and its bounds (none, one or two sided, zero, "
    "infinite, equal). GRAPE: an optimisation (scripted or real minimiser) "
    "whose initial pulses, bounds handed to the minimiser and evaluated "
    "points are checked. CRAB: an optimisation in which a scripted minimiser "
    "chooses coefficients including huge ones and every pulse evaluated is "
    "compared with the Fourier sum with guess, ramp and bounds; the same for "
    "histories of calls of a CRAB pulse generator by itself. Non-trivial "
    "when at least one pulse was compared. States: (kind, pulse type, random "
    "stream, bounds class, what was changed or configured)."
)
ASSUMPTIONS = [
    "pulses of one point in time and LIN: undefined (division by zero)",
    "what shifting or scaling fits a pulse to its bounds is not specified "
    "beyond being affine, none if the pulse fits, and without scaling if "
    "shifting suffices",
    "the tanh bounds of CRAB pulses are specified for two sided bounds only; "
    "for one sided ones the pulses only have to be within the bound",
]
REAL = ["pulse generators", "optimizers", "dynamics",
        "scipy minimisers (part of the runs)"]
STUB = ["random stream (part of the runs)", "minimiser (scripted runs)",
        "clock"]
TECHNIQUE = (
    "simulated generator histories and optimisations under a controlled "
    "random stream and an adversarial minimiser, against reference models of "
    "the pulse shapes"
)
LEVEL_NOTE = "Seeded sampling of histories, configurations and streams."
N_QUICK = 36000
N_THOROUGH = 300000

RANDOM = ["RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2"]
PERIODIC = ["SINE", "SQUARE", "SAW", "TRIANGLE"]
OTHER = ["ZERO", "LIN", "GAUSSIAN", "GAUSSIAN_EDGE"]
BOUNDED_METHODS = ("FMIN_L_BFGS_B", "LBFGSB", "L-BFGS-B", "TNC", "SLSQP",
                   "Nelder-Mead", "Powell", "COBYLA")


# ---------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------


def gen_bounds(rng):
    k = S.choice(rng, ["none", "both", "low", "up", "zero", "inf", "equal",
                       "away"], [3, 4, 2, 2, 2, 1, 0.5, 1])
    a = round(float(rng.uniform(0.05, 2.5)), 3)
    b = round(float(rng.uniform(0.05, 2.5)), 3)
    inf = float("inf")
    if k == "none":
        return [None, None]
    if k == "both":
        return [-a, b]
    if k == "low":
        return [S.choice(rng, [-a, a, 0.0]), None]
    if k == "up":
        return [None, S.choice(rng, [-a, a, 0.0])]
    if k == "zero":
        return S.choice(rng, [[0.0, b], [-a, 0.0], [0.0, None], [None, 0.0]])
    if k == "inf":
        return S.choice(rng, [[-inf, inf], [-a, inf], [-inf, b], [None, inf],
                              [-inf, None], [0.0, inf]])
    if k == "equal":
        return [a, a]
    return S.choice(rng, [[a, a + b], [-a - b, -a]])


def gen_stream(rng):
    k = S.choice(rng, ["real", "const", "extreme"], [2, 2, 2])
    if k == "real":
        return {"kind": "real"}
    if k == "const":
        return {"kind": "const", "u": S.choice(rng, [0.0, 0.5, 1 - 2.0**-53])}
    return {"kind": "extreme", "seed": int(rng.randint(1 << 30))}


def gen_args(rng, t, T):
    """Arguments of gen_pulse / init_pulse of the type."""
    r = lambda a, b: round(float(rng.uniform(a, b)), 3)  # noqa: E731
    if t in PERIODIC:
        k = S.choice(rng, ["num_waves", "wavelen", "freq", "phase", "two", "none"],
                     [3, 3, 3, 2, 1, 2])
        d = {}
        if k == "num_waves":
            d["num_waves"] = r(0.3, 4)
        elif k == "wavelen":
            d["wavelen"] = r(0.2, 3)
        elif k == "freq":
            d["freq"] = r(0.3, 4)
        elif k == "two":
            d["num_waves"] = r(0.3, 4)
            d["freq"] = r(0.3, 4)
        if k == "phase" or rng.rand() < 0.25:
            d["start_phase"] = r(0, 6.2)
        return d
    if t == "LIN":
        k = S.choice(rng, ["grad", "gradstart", "both", "start", "end", "none"])
        return {"grad": {"gradient": r(-3, 3)},
                "gradstart": {"gradient": r(-3, 3), "start_val": r(-2, 2)},
                "both": {"start_val": r(-2, 2), "end_val": r(-2, 2)},
                "start": {"start_val": S.choice(rng, [0.0, r(-2, 2)])},
                "end": {"end_val": S.choice(rng, [0.0, r(-2, 2)])},
                "none": {}}[k]
    if t == "GAUSSIAN":
        d = {}
        if rng.rand() < 0.5:
            d["mean"] = S.choice(rng, [0.0, r(0, 1) * T])
        if rng.rand() < 0.5:
            d["variance"] = r(0.05, 2)
        return d
    if t == "GAUSSIAN_EDGE":
        return {"decay_time": r(0.02, 1)} if rng.rand() < 0.5 else {}
    if t == "RNDFOURIER":
        return {"min_wavelen": r(0.1, 0.9) * T} if rng.rand() < 0.5 else {}
    if t == "RNDWAVES":
        d = {}
        if rng.rand() < 0.4:
            d["num_comp_waves"] = int(rng.randint(1, 25))
        if rng.rand() < 0.4:
            d["min_wavelen"] = r(0.1, 0.9) * T
        if rng.rand() < 0.4:
            d["max_wavelen"] = r(1.0, 4.0) * T
        return d
    if t == "RNDWALK1":
        return {"max_d_amp": S.choice(rng, [0.0, r(0, 1)])} if rng.rand() < 0.5 else {}
    if t == "RNDWALK2":
        return {"max_d2_amp": S.choice(rng, [0.0, r(0, 0.3)])} if rng.rand() < 0.5 else {}
    return {}


def gen_generator(rng, tier):
    t = S.choice(rng, RANDOM + PERIODIC + OTHER,
                 [1.5, 1, 1, 1.5, 1.5, 1.5, 1, 1, 1, 1, 2, 1.5, 1.5])
    host = S.choice(rng, ["alone", "equal", "unequal"])
    n = int(S.choice(rng, [2, 3, 5, 8, 20, 60, 100]))
    plan = {"kind": "gen", "type": t, "host": host, "n": n,
            "T": round(float(rng.uniform(0.3, 6)), 3),
            "tau_seed": int(rng.randint(1 << 30)),
            "stream": gen_stream(rng), "np_seed": int(rng.randint(1 << 30)),
            "dyn_scaling": float(S.choice(rng, [1.0, 0.4, 2.5])),
            "dyn_offset": float(S.choice(rng, [0.0, 0.3, -0.7])),
            "params": None, "hist": []}
    if n < 3 and t == "LIN":
        plan["n"] = 3
    T = plan["T"]
    if rng.rand() < 0.5:
        p = {}
        for k, v in gen_args(rng, t, T).items():
            p[k] = v
        if t in PERIODIC:  # one driver only
            for k in ("num_waves", "wavelen", "freq"):
                if k in p:
                    p = {q: v for q, v in p.items()
                         if q == k or q not in ("num_waves", "wavelen", "freq")}
                    break
        if t == "LIN" and "gradient" in p:
            p["end_val"] = None
        if rng.rand() < 0.4:
            p["scaling"] = round(float(rng.uniform(-2, 2)), 3)
        if rng.rand() < 0.3:
            p["offset"] = round(float(rng.uniform(-1, 1)), 3)
        if rng.rand() < 0.3:
            p["lbound"], p["ubound"] = gen_bounds(rng)
        plan["params"] = p
    h = plan["hist"]
    for _ in range(int(S.choice(rng, [2, 4, 7]))):
        k = S.choice(rng, ["gen", "genargs", "init", "scaling", "offset",
                           "bounds", "reset"], [3, 3, 1, 1, 1, 3, 0.4])
        if k == "gen":
            h.append(["gen", {}])
        elif k == "genargs":
            h.append(["gen", gen_args(rng, t, T)])
        elif k == "init":
            h.append(["init", gen_args(rng, t, T)
                      if t in PERIODIC + ["LIN"] else {}])
        elif k == "scaling":
            h.append(["scaling", S.choice(rng, [0.0, 1.0, round(float(rng.uniform(-3, 3)), 3)])])
        elif k == "offset":
            h.append(["offset", S.choice(rng, [0.0, round(float(rng.uniform(-2, 2)), 3)])])
        elif k == "bounds":
            h.append(["bounds", gen_bounds(rng)])
        else:
            h.append(["reset", {}])
    h.append(["gen", {}])
    return plan


def gen_grape(rng, tier):
    cfg = S.gen_config(rng, small=True)
    cfg["n_ts"] = int(S.choice(rng, [2, 3, 5, 9]))
    S.normalise(cfg)
    run = E.gen_run(rng, cfg, alg="GRAPE")
    run["method"] = S.choice(rng, E.GRAPE_METHODS + [
        "Nelder-Mead", "COBYLA"])
    if run["method"] == "COBYLA" and run["script"] is None:
        # (the real one fails by itself when bounds leave no room)
        run["script"] = E.gen_script(rng)
    if run["tc"]["max_calls"] is None:
        run["tc"]["max_calls"] = 25
    if E.real_approx(run):
        run["approx"] = False
    nc = cfg["n_ctrls"]
    k = S.choice(rng, ["one", "list", "lowlist", "uplist", "none"], [4, 4, 1, 1, 1])
    bs = [gen_bounds(rng) for _ in range(nc)]
    if k == "one":
        run["bounds"] = bs[0]
    elif k == "list":
        run["bounds"] = [[b[0] for b in bs], [b[1] for b in bs]]
    elif k == "lowlist":
        run["bounds"] = [[-0.5 * (j + 1) for j in range(nc)],
                         S.choice(rng, [None, 2.0, float("inf")])]
    elif k == "uplist":
        run["bounds"] = [S.choice(rng, [None, -2.0, -float("inf"), 0.0]),
                         [0.5 * (j + 1) for j in range(nc)]]
    else:
        run["bounds"] = [None, None]
    run["pulse"]["type"] = S.choice(rng, RANDOM + PERIODIC + OTHER)
    run["pulse"]["scaling"] = float(S.choice(rng, [1.0, 0.3, 3.0, 0.0]))
    run["pulse"]["offset"] = float(S.choice(rng, [0.0, 0.1, -1.2]))
    T = sum(cfg["tau"]) if cfg["tau"] else cfg["evo_time"]
    params = gen_args(rng, run["pulse"]["type"], float(T)) if rng.rand() < 0.5 else None
    if params and run["pulse"]["type"] in PERIODIC and "num_waves" in params:
        params.pop("freq", None)
    if params and "gradient" in params:
        params["end_val"] = None
    which = "optimize_pulse"
    if cfg["dyn"] == "UNIT" and cfg["fid_eff"] == "UNIT" and \
            cfg["prop_eff"] == "DIAG" and rng.rand() < 0.3:
        which = "optimize_pulse_unitary"
    direct = bool(rng.rand() < 0.15)
    return {"kind": "grape", "cfg": cfg, "run": run, "which": which,
            "params": params, "stream": gen_stream(rng), "direct": direct,
            "direct_seed": int(rng.randint(1 << 30))}


def gen_crab(rng, tier):
    cfg = S.gen_config(rng, small=True)
    cfg["n_ts"] = int(S.choice(rng, [2, 3, 5, 9]))
    S.normalise(cfg)
    run = E.gen_run(rng, cfg, alg="CRAB", scripted=True)
    if run["tc"]["max_calls"] is None:
        run["tc"]["max_calls"] = 40
    for a in run["script"]["acts"]:
        if rng.rand() < 0.5:
            a["x"] = S.choice(rng, ["huge", "sign", "far"])
    if rng.rand() < 0.3:
        run["script"]["end"]["x"] = "huge"
    nc = cfg["n_ctrls"]
    bs = [gen_bounds(rng) for _ in range(nc)]
    run["bounds"] = S.choice(rng, [
        bs[0], [[b[0] for b in bs], [b[1] for b in bs]],
        [[-0.5], [1.5]], [None, None], [[-1.0, -2.0], None], [-0.25, [0.5, 1.0]],
        [[-1.0, -2.0], [0.5, 1.0]],
    ], [4, 3, 1, 1, 1, 1, 1])
    short = [b for b in run["bounds"] if isinstance(b, list) and len(b) < nc]
    if short == [] and isinstance(run["bounds"][1], list) and \
            len(run["bounds"][1]) == 2 and rng.rand() < 0.5:
        cfg["n_ctrls"] = 3  # fewer bounds than controls: the last one counts
    run["crab"]["guess"] = S.choice(rng, [None] + OTHER + PERIODIC,
                                    [6] + [1] * 8)
    run["crab"]["action"] = S.choice(rng, [None, "MODULATE", "ADD", "add", "modulate"])
    if run["crab"]["action"] and run["crab"]["guess"] is None:
        run["crab"]["action"] = None
    cp = {}
    if rng.rand() < 0.35:
        cp["randomize_freqs"] = bool(rng.rand() < 0.3)
    if rng.rand() < 0.3:
        cp["randomize_coeffs"] = bool(rng.rand() < 0.2)
    which = "optimize_pulse"
    names = ["optimize_pulse", "opt_pulse_crab"]
    if cfg["dyn"] == "UNIT" and cfg["fid_eff"] == "UNIT":
        names += ["opt_pulse_crab_unitary", "optimize_pulse_unitary"]
    which = S.choice(rng, names)
    T = sum(cfg["tau"]) if cfg["tau"] else cfg["evo_time"]
    gparams = None
    if run["crab"]["guess"] and rng.rand() < 0.4:
        gparams = gen_args(rng, run["crab"]["guess"], float(T))
        if "num_waves" in gparams:
            gparams.pop("freq", None)
        if "gradient" in gparams:
            gparams["end_val"] = None
        if rng.rand() < 0.3:
            gparams["scaling"] = 0.6
        if rng.rand() < 0.3:
            gparams["offset"] = 0.15
    rparams = None
    if run["crab"]["ramp"] and rng.rand() < 0.5:
        rparams = {"decay_time": round(float(rng.uniform(0.05, 1)), 3)}
    return {"kind": "crab", "cfg": cfg, "run": run, "which": which,
            "crab_params": cp or None, "gparams": gparams, "rparams": rparams,
            "stream": gen_stream(rng)}


def gen_crabgen(rng, tier):
    T = round(float(rng.uniform(0.3, 6)), 3)
    n = int(S.choice(rng, [2, 5, 12, 40]))
    params = {}
    if rng.rand() < 0.3:
        params["randomize_freqs"] = bool(rng.rand() < 0.5)
    if rng.rand() < 0.3:
        params["randomize_coeffs"] = bool(rng.rand() < 0.5)
    if rng.rand() < 0.3:
        params["scaling"] = round(float(rng.uniform(0.1, 3)), 3)
    hist = []
    for _ in range(int(S.choice(rng, [2, 4, 7]))):
        k = S.choice(rng, ["gen", "gencoeffs", "set", "init", "initnum",
                           "initcoeffs", "bounds", "guess", "ramp"],
                     [3, 2, 3, 1, 1, 1, 2, 1.5, 1])
        a = int(rng.randint(1 << 30))
        if k == "initnum":
            a = int(S.choice(rng, [1, 2, 3, 6]))
        elif k == "bounds":
            a = gen_bounds(rng)
        elif k == "guess":
            a = [a, S.choice(rng, ["MODULATE", "ADD", "add", "Modulate"])]
        hist.append([k, a])
    hist.append(["gen", 0])
    return {"kind": "crabgen", "T": T, "n": n, "params": params or None,
            "fix": bool(rng.rand() < 0.6),
            "num": S.choice(rng, [None, 1, 2, 5]),
            "host": S.choice(rng, ["alone", "equal", "unequal"]),
            "tau_seed": int(rng.randint(1 << 30)),
            "dyn_scaling": float(S.choice(rng, [1.0, 0.4])), "dyn_offset": 0.0,
            "stream": gen_stream(rng), "np_seed": int(rng.randint(1 << 30)),
            "hist": hist}


def gen(rng, tier):
    k = S.choice(rng, ["gen", "grape", "crab", "crabgen"], [6, 2, 2, 1])
    return {"gen": gen_generator, "grape": gen_grape, "crab": gen_crab,
            "crabgen": gen_crabgen}[k](rng, tier)


# ---------------------------------------------------------------------------
# the random stream
# ---------------------------------------------------------------------------


def set_stream(w, s):
    if s["kind"] == "real":
        w.rand = None
        return
    k = "random stream:" + s["kind"]
    w.fired[k] = w.fired.get(k, 0) + 1
    if s["kind"] == "const":
        w.rand = lambda n: np.full(n, s["u"])
    else:
        r = np.random.RandomState(s["seed"])

        def draw(n):
            v = r.rand(n)
            k = r.randint(4, size=n)
            return np.where(k == 0, 0.0, np.where(k == 1, 1 - 2.0**-53, v))

        w.rand = draw


# ---------------------------------------------------------------------------
# the model of the shapes
# ---------------------------------------------------------------------------


class Shape:
    """What the documentation says about a pulse generator's pulse."""

    def __init__(self, t, tau, T, params=None, scaling=1.0, offset=0.0,
                 apply_last=None):
        self.t, self.tau, self.T = t, np.array(tau, float), float(T)
        self.base = (scaling, offset)
        self.params = params
        self.apply_last = apply_last
        self.reset()

    def reset(self):
        self.scaling, self.offset = self.base
        self.lb = self.ub = None
        p = dict(self.params or {})
        self.p = {}
        t = self.t
        if t in PERIODIC:
            self.p["start_phase"] = p.get("start_phase", 0.0)
            self.drive({k: p.get(k) for k in ("num_waves", "wavelen", "freq")},
                       1.0)
        elif t == "LIN":
            self.p.update(gradient=None, start_val=-1.0, end_val=1.0)
            for k in ("gradient", "start_val", "end_val"):
                if k in p:
                    self.p[k] = p[k]
        elif t == "GAUSSIAN":
            self.p.update(mean=p.get("mean", 0.5 * self.T),
                          variance=p.get("variance", 0.5 * self.T))
        elif t == "GAUSSIAN_EDGE":
            self.p.update(decay_time=p.get("decay_time", self.T / 10))
        elif t == "RNDFOURIER":
            self.p.update(min_wavelen=p.get("min_wavelen", self.T / 10))
        elif t == "RNDWAVES":
            self.p.update(min_wavelen=p.get("min_wavelen", self.T / 10),
                          max_wavelen=p.get("max_wavelen", self.T * 2),
                          num_comp_waves=p.get("num_comp_waves", 20))
        elif t == "RNDWALK1":
            self.p.update(max_d_amp=p.get("max_d_amp", 0.1))
        elif t == "RNDWALK2":
            self.p.update(max_d2_amp=p.get("max_d2_amp", 0.01))
        self.scaling = p.get("scaling", self.scaling)
        self.offset = p.get("offset", self.offset)
        self.lb, self.ub = p.get("lbound"), p.get("ubound")
        if self.apply_last is not None:
            self.scaling, self.offset = self.apply_last

    def drive(self, d, default=None):
        if d.get("num_waves") is not None:
            self.p["freq"] = d["num_waves"] / self.T
        elif d.get("wavelen") is not None:
            self.p["freq"] = 1.0 / d["wavelen"]
        elif d.get("freq") is not None:
            self.p["freq"] = d["freq"]
        elif default is not None:
            self.p["freq"] = default

    def give(self, args, for_call=False):
        """Arguments of gen_pulse / init_pulse; returns those in force."""
        t = self.t
        if t in PERIODIC:
            if "start_phase" in args:
                self.p["start_phase"] = args["start_phase"]
            self.drive(args)
        elif t == "LIN":
            if args:
                if args.get("start_val") is not None:
                    self.p["start_val"] = args["start_val"]
                if args.get("end_val") is not None:
                    self.p["end_val"] = args["end_val"]
                elif args.get("gradient") is not None:
                    self.p["gradient"] = args["gradient"]
                    self.p["end_val"] = None
        elif t in ("GAUSSIAN", "GAUSSIAN_EDGE"):
            return dict(self.p, **args)  # for this call only
        else:
            self.p.update(args)
        return self.p

    def times(self):
        return np.concatenate([[0.0], np.cumsum(self.tau)[:-1]])

    def shape(self, p):
        """(values before scaling, mask of points away from jumps)"""
        t, x = self.times(), self.t
        ok = np.ones(len(t), bool)
        if x == "ZERO":
            return np.zeros(len(t)), ok
        if x == "LIN":
            g = p["gradient"]
            if p["start_val"] is not None and p["end_val"] is not None:
                g = (p["end_val"] - p["start_val"]) / (self.T - self.tau[-1])
            return p["start_val"] + g * t, ok
        if x == "GAUSSIAN":
            return np.exp(-((t - p["mean"]) ** 2) / (2 * p["variance"])), ok
        if x == "GAUSSIAN_EDGE":
            d = p["decay_time"]
            return 1 - np.exp(-(t**2) / d) - np.exp(-((t - self.T) ** 2) / d), ok
        c = p["freq"] * t + p["start_phase"] / (2 * np.pi)
        fr = c - np.floor(c)
        if x == "SINE":
            return np.sin(2 * np.pi * c), ok
        near = lambda q: np.abs((c - q) - np.round(c - q)) > 1e-4  # noqa: E731
        if x == "SQUARE":
            return np.where(fr < 0.5, 1.0, -1.0), near(0.0) & near(0.5)
        if x == "SAW":
            return np.where(fr < 0.5, 2 * fr, 2 * fr - 2), near(0.5)
        # TRIANGLE: starts at zero, rises
        return np.where(fr < 0.25, 4 * fr,
                        np.where(fr < 0.75, 2 - 4 * fr, 4 * fr - 4)), ok


def finite(b):
    return None if b is None or np.isinf(b) else float(b)


def check_bounds(ctx, what, pulse, lb, ub):
    lb, ub = finite(lb), finite(ub)
    ctx.check(np.all(np.isfinite(pulse)), "not finite", "{}: {}", what, pulse)
    tol = 1e-12 * max(1.0, abs(lb or 0), abs(ub or 0),
                      float(np.max(np.abs(pulse))))
    if lb is not None:
        ctx.check(np.min(pulse) >= lb - tol, "bounds",
                  "{}: {} is below the lower bound {}", what, np.min(pulse), lb)
    if ub is not None:
        ctx.check(np.max(pulse) <= ub + tol, "bounds",
                  "{}: {} is above the upper bound {}", what, np.max(pulse), ub)


def check_fit(ctx, what, pulse, raw, offset, lb, ub, tol, ok=None):
    """pulse is raw + offset, moved and squeezed only as far as necessary."""
    lb, ub = finite(lb), finite(ub)
    if ok is None:
        ok = np.ones(len(raw), bool)
    want = raw + offset
    # (points at a jump may be on either side of it)
    span_hi, span_lo = np.max(raw), np.min(raw)
    sure = ok.all()
    margin = 10 * tol
    inside = (lb is None or span_lo + offset >= lb + margin) and (
        ub is None or span_hi + offset <= ub - margin)
    if inside and sure or lb is None and ub is None:
        d = np.max(np.abs(pulse - want)[ok], initial=0.0)
        ctx.check(d <= tol, "shape", "{}: differs from the model by {}: {} "
                  "instead of {}", what, d, pulse, want)
        ctx.probe("pulses unchanged by bounds")
        return
    if not sure:
        return
    ctx.probe("pulses fitted to bounds")
    # affine image of the raw pulse
    rng_raw = span_hi - span_lo
    c_raw, c_p = raw - raw.mean(), pulse - pulse.mean()
    den = float(c_raw @ c_raw)
    if rng_raw <= 100 * tol:
        ctx.check(np.ptp(pulse) <= 200 * tol, "shape",
                  "{}: flat pulse became {}", what, pulse)
        return
    a = float(c_p @ c_raw) / den
    d = np.max(np.abs(c_p - a * c_raw))
    ctx.check(d <= 4 * tol, "shape",
              "{}: not the shape asked for, off by {}: {} from {}",
              what, d, pulse, raw)
    squeeze = lb is not None and ub is not None and (
        rng_raw > ub - lb + margin)
    rel = 40 * tol / rng_raw
    if squeeze:
        ctx.check(-rel <= a <= 1 + rel, "scaled", "{}: scaled by {}", what, a)
        full = (ub - lb) / rng_raw
        ctx.check(a >= full - rel, "scaled",
                  "{}: squeezed by {} where {} was enough", what, a, full)
    elif lb is None or ub is None or rng_raw < ub - lb - margin:
        ctx.check(abs(a - 1) <= rel, "scaled",
                  "{}: scaled by {} although shifting suffices", what, a)


def check_random(ctx, what, t, p, scaling, raw, times, T, u, drawn):
    """raw: the pulse without offset and bounds; u: constant stream or None."""
    s = abs(scaling)
    tol = 1e-9 * (1 + s)
    n = len(raw)
    frac = None if u is None or not drawn else abs(2 * u - 1)
    if t == "RND":
        ctx.check(np.max(np.abs(raw)) <= s + tol, "range",
                  "{}: {} outside -/+{}", what, raw, s)
        if frac is not None:
            ctx.check(np.allclose(np.abs(raw), frac * s, atol=tol), "range",
                      "{}: {} instead of -/+{}", what, raw, frac * s)
    elif t == "RNDWALK1":
        m = s * abs(p["max_d_amp"])
        ctx.check(abs(raw[0]) <= s + tol, "range", "{}: starts at {}", what, raw[0])
        d = np.abs(np.diff(raw))
        ctx.check(np.max(d, initial=0) <= m + tol, "range",
                  "{}: step {} larger than {}", what, np.max(d, initial=0), m)
        if frac is not None:
            ctx.check(np.allclose(d, m * frac, atol=tol) and
                      abs(abs(raw[0]) - s * frac) <= tol, "range",
                      "{}: steps {} instead of {}", what, d, m * frac)
    elif t == "RNDWALK2":
        m = s * abs(p["max_d2_amp"])
        ctx.check(abs(raw[0]) <= s + tol, "range", "{}: starts at {}", what, raw[0])
        g = np.diff(raw)
        tol2 = tol * (1 + np.max(np.abs(raw)))
        ctx.check(np.max(np.abs(g[:1]), initial=0) <= m + tol2, "range",
                  "{}: gradient starts with {}, not at 0", what, g[:1])
        gg = np.abs(np.diff(g))
        ctx.check(np.max(gg, initial=0) <= m + tol2, "range",
                  "{}: gradient changes by {}, more than {}", what,
                  np.max(gg, initial=0), m)
        if frac is not None:
            ctx.check(np.allclose(gg, m * frac, atol=tol2), "range",
                      "{}: gradient changes {} instead of {}", what, gg, m * frac)
    else:
        ctx.check(np.max(np.abs(raw)) <= 3 * s + tol, "range",
                  "{}: {} far outside -/+{}", what, raw, s)
        if t == "RNDFOURIER":
            wl, x = [], 2.0 * T
            while x > p["min_wavelen"] * (1 + 1e-9):
                wl.append(x)
                x /= 2
            if abs(x - p["min_wavelen"]) < 1e-6 * T:
                return
        elif frac is not None:
            wl = [p["min_wavelen"] + u * (p["max_wavelen"] - p["min_wavelen"])]
        else:
            return
        if n <= 2 * len(wl) + 1:
            return
        A = np.concatenate([
            np.stack([np.sin(2 * np.pi * times / x), np.cos(2 * np.pi * times / x)], 1)
            for x in wl], 1)
        if np.linalg.cond(A) > 1e5:
            return
        res = raw - A @ np.linalg.lstsq(A, raw, rcond=None)[0]
        ctx.check(np.max(np.abs(res)) <= 1e-5 * (1 + s), "waves",
                  "{}: not a sum of waves of lengths {}: residual {}",
                  what, wl, np.max(np.abs(res)))
        ctx.probe("wave lengths compared")


# ---------------------------------------------------------------------------
# generators
# ---------------------------------------------------------------------------


def make_dyn(plan):
    n, T = plan["n"], plan["T"]
    dyn = dynamics.Dynamics(__import__("qutip_qtrl.optimconfig").optimconfig.OptimConfig())
    if plan["host"] == "equal":
        dyn.num_tslots = n
        dyn.evo_time = T
    else:
        x = np.random.RandomState(plan["tau_seed"]).uniform(0.2, 1.8, n)
        dyn.tau = x * T / x.sum()
    dyn.initial_ctrl_scaling = plan["dyn_scaling"]
    dyn.initial_ctrl_offset = plan["dyn_offset"]
    return dyn


def bclass(lb, ub):
    f = lambda b: "n" if b is None else "i" if np.isinf(b) else (  # noqa: E731
        "0" if b == 0 else "+" if b > 0 else "-")
    return f(lb) + f(ub)


def body_gen(ctx, plan):
    t = plan["type"]
    with ctx.world(np_seed=plan["np_seed"], use_fs=False) as w:
        n, T = plan["n"], plan["T"]
        dyn = None
        if plan["host"] != "alone":
            dyn = make_dyn(plan)
        g = ctx.sut(pg.create_pulse_gen, t, dyn, plan["params"])

        def setup(g):
            if dyn is None:
                g.num_tslots, g.pulse_time = n, T
                if t in ("GAUSSIAN", "GAUSSIAN_EDGE", "RNDFOURIER", "RNDWAVES"):
                    # defaults derived from the pulse time
                    for k in ("mean", "variance", "decay_time", "min_wavelen",
                              "max_wavelen"):
                        if hasattr(g, k) and k not in (plan["params"] or {}):
                            setattr(g, k, model.p[k])

        ctx.check(isinstance(g, pg.PulseGen), "type", "{!r}", g)
        if plan["host"] == "unequal":
            tau = np.array(dyn.tau, float)
            T = float(tau.sum())
        else:
            tau = np.full(n, T / n)
        model = Shape(t, tau, T, plan["params"],
                      *((1.0, 0.0) if dyn is None else
                        (plan["dyn_scaling"], plan["dyn_offset"])))
        setup(g)
        ctx.check(bool(g.random) == (t in RANDOM), "kind", "random {}", g.random)
        ctx.check(bool(g.periodic) == (t in PERIODIC), "kind", "periodic {}", g.periodic)
        changed = []
        for i, (op, arg) in enumerate(plan["hist"]):
            what = "{} #{}".format(t, i)
            if op == "scaling":
                g.scaling = model.scaling = arg
            elif op == "offset":
                g.offset = model.offset = arg
            elif op == "bounds":
                g.lbound, g.ubound = arg
                model.lb, model.ub = arg
            elif op == "reset":
                ctx.sut(g.reset)
                model.reset()
                setup(g)
            elif op == "init":
                ctx.sut(g.init_pulse, **arg)
                model.give(arg)
            if op != "gen":
                changed.append(op)
                continue
            if t == "RNDWAVES" and (
                arg.get("max_wavelen", model.p["max_wavelen"])
                <= arg.get("min_wavelen", model.p["min_wavelen"])):
                continue
            p = model.give(arg)
            u = plan["stream"].get("u")
            set_stream(w, plan["stream"])
            seed = 1000 + i
            np.random.seed(seed)
            d0 = w.draws
            pulse = gen_quiet(ctx, g, arg)
            drawn = w.draws > d0
            ctx.check(isinstance(pulse, np.ndarray) and pulse.shape == (n,),
                      "result", "{}: {!r}", what, pulse)
            w.ev("pulse", np.array(pulse, float))
            pulse = np.array(pulse, float)
            check_bounds(ctx, what, pulse, model.lb, model.ub)
            if t in RANDOM:
                # the same stream without bounds and offset
                set_stream(w, plan["stream"])
                np.random.seed(seed)
                q = ctx.sut(pg.create_pulse_gen, t, dyn, plan["params"])
                setup(q)
                q.lbound = q.ubound = None
                q.scaling, q.offset = model.scaling, 0.0
                raw = np.array(gen_quiet(ctx, q, p), float)
                check_random(ctx, what, t, p, model.scaling, raw,
                             model.times(), T, u, drawn)
                check_fit(ctx, what, pulse, raw, model.offset, model.lb,
                          model.ub, 1e-9 * (1 + np.max(np.abs(raw)) + abs(model.offset)))
                if t in ("RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1") and i % 2:
                    # linear in the scaling
                    set_stream(w, plan["stream"])
                    np.random.seed(seed)
                    q.scaling = 2.0 * model.scaling
                    two = np.array(gen_quiet(ctx, q, {}), float)
                    ctx.check(np.allclose(two, 2 * raw, atol=1e-9 * (
                        1 + np.max(np.abs(raw)))), "scaled",
                        "{}: scaling doubled gives {} from {}", what, two, raw)
            else:
                shape, ok = model.shape(p)
                raw = model.scaling * shape
                slope = 1.0 + 10 * abs(p.get("freq", 0) * T) + 20 * T / max(
                    p.get("variance", 1.0), 0.02) + 20 * T / max(
                    p.get("decay_time", 1.0), 0.01) + abs(p.get("gradient") or 0)
                tol = 1e-6 * (1 + abs(model.scaling)) * slope * (1 + abs(model.offset))
                check_fit(ctx, what, pulse, raw, model.offset, model.lb,
                          model.ub, tol, ok)
            if t in PERIODIC:
                # the documented attributes, each worked out from the others
                for k, v in (("freq", p["freq"]), ("wavelen", 1 / p["freq"]),
                             ("num_waves", p["freq"] * T)):
                    have = getattr(g, k)
                    ctx.check(have is not None and abs(have - v) <= 1e-6 * (
                        1 + abs(v)), "attributes", "{}: {} is {}, not {}",
                        what, k, have, v)
            elif t == "LIN" and None not in (p["start_val"], p["end_val"]) and n > 1:
                v = (p["end_val"] - p["start_val"]) / (T - tau[-1])
                ctx.check(g.gradient is not None and abs(g.gradient - v) <= 1e-6 * (
                    1 + abs(v)), "attributes", "{}: gradient is {}, not {}",
                    what, g.gradient, v)
            ctx.probe("pulses compared")
            ctx.state("gen", t, plan["host"], plan["stream"]["kind"], u,
                      bclass(model.lb, model.ub), tuple(sorted(arg)),
                      tuple(sorted(set(changed))))


def gen_quiet(ctx, g, args):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        return ctx.sut(g.gen_pulse, **args)


# ---------------------------------------------------------------------------
# optimisations
# ---------------------------------------------------------------------------


def for_ctrl(b, j, last=False):
    if isinstance(b, list):
        if last and j >= len(b):
            return b[-1]
        return b[j]
    return b


def quiet_call(ep, which, **over):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        return E.call_function(ep, which, **over)


def body_grape(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    run = dict(run)
    nt, nc = cfg["n_ts"], cfg["n_ctrls"]
    stream = plan["stream"]
    lbs = [for_ctrl(run["bounds"][0], j) for j in range(nc)]
    ubs = [for_ctrl(run["bounds"][1], j) for j in range(nc)]
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   max_steps=400000, use_fs=False) as w:
        over = {}
        if plan["params"] is not None:
            over["init_pulse_params"] = dict(plan["params"])
        direct = None
        if plan["direct"]:
            r = np.random.RandomState(plan["direct_seed"])
            direct = [(-3.0 - float(a), 3.0 + float(b))
                      for a, b in r.rand(nt * nc, 2)]
            over["optim_params"] = {"bounds": direct}
        ep = E.Episode(ctx, w, cfg, run)
        set_stream(w, stream)
        ep_call = quiet_call
        try:
            ep_call(ep, plan["which"], **over)
        finally:
            w.rand = None
        st = ep.start
        ctx.check(st is not None, "no run", "the minimiser was not called")
        x0 = st["x0"]
        amps0 = np.array(ep.result.initial_amps, float)
        ctx.check(amps0.shape == (nt, nc), "shape", "initial amps {}", amps0.shape)
        # initial pulses
        t = run["pulse"]["type"]
        T = float(sum(cfg["tau"])) if cfg["tau"] else cfg["evo_time"]
        tau = np.array(cfg["tau"]) if cfg["tau"] else np.full(nt, T / nt)
        s, o = run["pulse"]["scaling"], run["pulse"]["offset"]
        model = Shape(t, tau, T, plan["params"], apply_last=(s, o))
        for j in range(nc):
            what = "initial {} pulse of control {}".format(t, j)
            check_bounds(ctx, what, amps0[:, j], lbs[j], ubs[j])
            if t not in RANDOM:
                shape, ok = model.shape(model.p)
                tol = 1e-5 * (1 + s) * (1 + 10 * abs(model.p.get("freq", 0)) + 20 * T / max(
                    model.p.get("variance", 1.0), 0.02) + 20 * T / max(
                    model.p.get("decay_time", 1.0), 0.01))
                check_fit(ctx, what, amps0[:, j], s * shape, o, lbs[j], ubs[j],
                          tol, ok)
            elif finite(lbs[j]) is None and finite(ubs[j]) is None:
                check_random(ctx, what, t, model.p, s, amps0[:, j] - o,
                             model.times(), T, stream.get("u"), w.draws > 0)
            ctx.probe("pulses compared")
        # what the minimiser was given
        ctx.check(len(x0) == nt * nc, "variables", "{} variables", len(x0))
        order = None
        for k, flat in (("C", amps0.ravel()), ("F", amps0.ravel("F"))):
            if np.array_equal(flat, x0):
                order = k
                break
        ctx.check(order is not None, "variables",
                  "start {} of the minimiser is not the initial pulse {}",
                  x0, amps0)
        b = st["bounds"]
        if run["method"] in BOUNDED_METHODS:
            ctx.check(b is not None, "bounds list", "no bounds for {}", run["method"])
            b = [tuple(p) for p in as_pairs(b)]
            ctx.check(len(b) == nt * nc, "bounds list",
                      "{} pairs for {} variables", len(b), nt * nc)
            for i, (lo, hi) in enumerate(b):
                j = i % nc if order == "C" else i // nt
                if direct is not None:
                    want = direct[i]
                else:
                    want = (finite(lbs[j]), finite(ubs[j]))
                ctx.check(finite(lo) == want[0] and finite(hi) == want[1],
                          "bounds list",
                          "variable {} (control {}): {} instead of {}",
                          i, j, (lo, hi), want)
            ctx.probe("bounds lists compared")
            if run["script"] is None and run["method"] in (
                    "FMIN_L_BFGS_B", "LBFGSB", "L-BFGS-B"):
                for e in ep.events:
                    if e["x"] is None:
                        continue
                    a = e["amps"]
                    for j in range(nc):
                        lo, hi = (lbs[j], ubs[j]) if direct is None else (None, None)
                        check_bounds(ctx, "evaluated pulse", a[:, j], lo, hi)
                    ctx.probe("evaluated pulses in bounds")
                fa = np.array(ep.result.final_amps, float)
                if direct is None:
                    for j in range(nc):
                        check_bounds(ctx, "final pulse", fa[:, j], lbs[j], ubs[j])
        ctx.state("grape", t, stream["kind"], run["method"], nc,
                  tuple(bclass(p, q) for p, q in zip(lbs, ubs)),
                  plan["direct"], run["script"] is None)


def as_pairs(b):
    if hasattr(b, "lb") and hasattr(b, "ub"):  # scipy.optimize.Bounds
        return list(zip(np.ravel(b.lb), np.ravel(b.ub)))
    return list(b)


def body_crab(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    c = run["crab"]
    nt, nc = cfg["n_ts"], cfg["n_ctrls"]
    stream = plan["stream"]
    u = stream.get("u")
    lbs = [for_ctrl(run["bounds"][0], j, True) for j in range(nc)]
    ubs = [for_ctrl(run["bounds"][1], j, True) for j in range(nc)]
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   max_steps=400000, use_fs=False) as w:
        ep = E.Episode(ctx, w, cfg, run)
        over = {}
        which = plan["which"]
        crabf = which.startswith("opt_pulse_crab")
        kw = E.create_kwargs(cfg, run)
        if plan["crab_params"] is not None:
            over["alg_params"] = dict(kw.get("alg_params") or {},
                                      crab_pulse_params=dict(plan["crab_params"]))
        gp = None
        if c["guess"] and plan["gparams"] is not None:
            gp = dict(plan["gparams"])
            if crabf:
                over["guess_pulse_params"] = dict(gp)
            else:
                over["init_pulse_params"] = dict(gp, **(
                    {"pulse_action": c["action"]} if c["action"] else {}))
        if plan["rparams"] is not None:
            over["ramping_pulse_params"] = dict(plan["rparams"])
        set_stream(w, stream)
        try:
            quiet_call(ep, which, **over)
        finally:
            w.rand = None
        st = ep.start
        ctx.check(st is not None, "no run", "the minimiser was not called")
        ctx.check(not st["bounds"], "bounds list",
                  "bounds of amplitudes given for CRAB coefficients")
        T = float(sum(cfg["tau"])) if cfg["tau"] else cfg["evo_time"]
        tau = np.array(cfg["tau"]) if cfg["tau"] else np.full(nt, T / nt)
        t = np.concatenate([[0.0], np.cumsum(tau)[:-1]])
        fix = c["fix"] is not False
        nb = 2 if fix else 3
        dim = ep.parts.initial.shape[0]
        drift_dim = ep.parts.drift[0].shape[0]
        ncf = c["num_coeffs"] or max(2, drift_dim - 1)
        x0 = st["x0"]
        ctx.check(len(x0) == nc * ncf * nb, "variables",
                  "{} variables for {} controls of {} x {} coefficients",
                  len(x0), nc, ncf, nb)
        cp = plan["crab_params"] or {}
        scal = c["init"] if c["init"] is not None else 1.0
        if cp.get("randomize_coeffs", True):
            ctx.check(np.max(np.abs(x0)) <= scal * (1 + 1e-12), "coefficients",
                      "initial coefficients {} outside -/+{}", x0, scal)
            if u is not None and w.draws:
                ctx.check(np.allclose(np.abs(x0), abs(2 * u - 1) * scal),
                          "coefficients", "{} instead of -/+{}", x0,
                          abs(2 * u - 1) * scal)
        else:
            ctx.check(np.allclose(x0, scal), "coefficients",
                      "initial coefficients {} instead of {}", x0, scal)
        pgens = ep.optim.pulse_generator
        base = 2 * np.pi / T * np.arange(1, ncf + 1)
        freqs = []
        for j in range(nc):
            f = np.array(pgens[j].freqs, float)
            ctx.check(f.shape == (ncf,), "frequencies", "{}", f)
            if cp.get("randomize_freqs", True):
                ctx.check(np.max(np.abs(f - base)) <= 0.5 + 1e-5 * np.max(base), "frequencies",
                          "{} not within 1/2 of {}", f, base)
                if stream["kind"] == "real" and ncf > 1:
                    ctx.check(np.ptp(f - base) > 1e-9, "frequencies",
                              "all with the same random offset: {}", f - base)
                if u is not None and w.draws:
                    ctx.check(np.allclose(np.abs(f - base), abs(u - 0.5), atol=1e-5 * np.max(base)),
                              "frequencies", "{} from {}", f, base)
            else:
                ctx.check(np.allclose(f, base, rtol=1e-6), "frequencies",
                          "{} instead of the harmonics {}", f, base)
            freqs.append(f)
        guess = ramp = None
        if c["guess"]:
            m = Shape(c["guess"], tau, T, gp, run["pulse"]["scaling"],
                      run["pulse"]["offset"])
            shape, okg = m.shape(m.p)
            if not okg.all():
                return  # a point right at a jump
            raw = m.scaling * shape
            guess = []
            for j in range(nc):
                # the guess itself is fitted to the bounds; its model is only
                # unambiguous when it fits
                lo, hi = finite(lbs[j]), finite(ubs[j])
                g = raw + m.offset
                if (lo is None or g.min() >= lo + 1e-4) and (
                        hi is None or g.max() <= hi - 1e-4):
                    guess.append(g)
                else:
                    have = np.array(pgens[j].guess_pulse, float)
                    check_bounds(ctx, "guess pulse", have, lo, hi)
                    check_fit(ctx, "guess pulse", have, raw, m.offset, lo, hi,
                              1e-4 * (1 + np.max(np.abs(raw))), okg)
                    guess.append(have)
                    ctx.probe("guess pulses fitted")
        if c["ramp"]:
            m = Shape(c["ramp"], tau, T, plan["rparams"])
            ramp = m.shape(m.p)[0]
        action = (c["action"] or "MODULATE").upper()

        def reference(x):
            out, exact = np.empty((nt, nc)), []
            for j in range(nc):
                cc = x[j * ncf * nb:(j + 1) * ncf * nb].reshape(ncf, nb)
                p = np.zeros(nt)
                # single precision time slots
                err = np.zeros(nt)
                for i in range(ncf):
                    f = freqs[j][i] if fix else cc[i, 2]
                    p += cc[i, 0] * np.sin(f * t) + cc[i, 1] * np.cos(f * t)
                    err += (abs(cc[i, 0]) + abs(cc[i, 1])) * (
                        1e-6 * abs(f) * (T + 1) + 1e-9)
                if guess is not None:
                    if action == "ADD":
                        p = p + guess[j]
                        err = err + 1e-4
                    else:
                        p, err = (1 + p) * guess[j], err * np.abs(guess[j]) + (
                            1 + np.abs(p)) * 1e-4
                if ramp is not None:
                    p, err = p * ramp, err * np.abs(ramp) + np.abs(p) * 1e-4
                err = err + 1e-7
                lo, hi = finite(lbs[j]), finite(ubs[j])
                if lo is not None and hi is not None:
                    p = 0.5 * (hi + lo) + 0.5 * (hi - lo) * np.tanh(p)
                    err = err * 0.5 * (hi - lo) + 1e-9
                    exact.append(err)
                elif lo is None and hi is None:
                    exact.append(err)
                else:
                    # one sided: within, and untouched well inside
                    exact.append(np.full(nt, np.inf))
                out[:, j] = p
            return out, np.stack(exact, 1)

        n = 0
        seen = {}
        for e in ep.events:
            if e["t"] != "f" or e["exc"] is not None or e["amps"] is None:
                continue
            a = e["amps"]
            for j in range(nc):
                check_bounds(ctx, "CRAB pulse of control {}".format(j),
                             a[:, j], lbs[j], ubs[j])
            ref, tol = reference(e["x"])
            d = np.abs(a - ref)
            bad = d > tol
            ctx.check(not bad.any(), "CRAB pulse",
                      "differs from the Fourier sum by {} ({} controls, "
                      "{} coefficients, {} each): {} instead of {}",
                      np.max(np.where(bad, d, 0)), nc, ncf, nb, a, ref)
            key = e["x"].tobytes()
            if key in seen:
                ctx.check(np.array_equal(seen[key], a), "CRAB pulse",
                          "the same coefficients gave another pulse")
            seen[key] = a
            n += 1
        ctx.probe("CRAB pulses compared", n)
        ctx.probe("pulses compared", n)
        if ep.result is not None:
            fa = np.array(ep.result.final_amps, float)
            ia = np.array(ep.result.initial_amps, float)
            for j in range(nc):
                check_bounds(ctx, "final pulse", fa[:, j], lbs[j], ubs[j])
                check_bounds(ctx, "initial pulse", ia[:, j], lbs[j], ubs[j])
            ref, tol = reference(x0)
            ctx.check(np.all(np.abs(ia - ref) <= tol), "CRAB pulse",
                      "initial pulse {} instead of {}", ia, ref)
        ctx.state("crab", which, c["guess"], action if c["guess"] else "-",
                  c["ramp"], fix, tuple(sorted(cp)), stream["kind"], u,
                  tuple(bclass(p, q) for p, q in zip(lbs, ubs)))


def body_crabgen(ctx, plan):
    n, T = plan["n"], plan["T"]
    params = plan["params"] or {}
    with ctx.world(np_seed=plan["np_seed"], use_fs=False) as w:
        dyn = None
        if plan["host"] != "alone" and plan["num"]:
            dyn = make_dyn(plan)
        set_stream(w, plan["stream"])
        u = plan["stream"].get("u")
        g = ctx.sut(pg.PulseGenCrabFourier, dyn=dyn, num_coeffs=plan["num"],
                    params=None if plan["params"] is None else dict(params),
                    fix_freqs=plan["fix"])
        if dyn is None:
            g.num_tslots, g.pulse_time = n, T
        if dyn is not None and plan["host"] == "unequal":
            tau = np.array(dyn.tau, float)
            T = float(tau.sum())
        else:
            tau = np.full(n, T / n)
        t = np.concatenate([[0.0], np.cumsum(tau)[:-1]])
        nb = 2 if plan["fix"] else 3
        scal = params.get("scaling", 1.0 if dyn is None else plan["dyn_scaling"])
        m = {"nc": plan["num"] or 4, "coeffs": None, "freqs": None, "lb": None,
             "ub": None, "guess": None, "act": None, "ramp": None}
        pend = {"guess": None}  # in force after the next init

        def init(**k):
            d0 = w.draws
            ctx.sut(g.init_pulse, **k)
            if k.get("num_coeffs"):
                m["nc"] = k["num_coeffs"]
            m["lb"], m["ub"] = pend.get("lb"), pend.get("ub")
            m["guess"], m["act"] = pend["guess"], pend.get("act")
            c = np.array(g.coeffs, float)
            ctx.check(c.shape == (m["nc"], nb), "coefficients", "shape {}", c.shape)
            if k.get("init_coeffs") is not None:
                ctx.check(np.array_equal(c.ravel(), k["init_coeffs"]),
                          "coefficients", "{} instead of those given", c)
            elif params.get("randomize_coeffs", True):
                ctx.check(np.max(np.abs(c)) <= scal * (1 + 1e-12),
                          "coefficients", "{} outside -/+{}", c, scal)
                if u is not None and w.draws > d0:
                    ctx.check(np.allclose(np.abs(c), abs(2 * u - 1) * scal),
                              "coefficients", "{}", c)
            else:
                ctx.check(np.allclose(c, scal), "coefficients", "{}", c)
            f = np.array(g.freqs, float)
            base = 2 * np.pi / T * np.arange(1, m["nc"] + 1)
            ctx.check(f.shape == base.shape, "frequencies", "{}", f)
            ok = (np.max(np.abs(f - base)) <= 0.5 + 1e-5 * base.max()
                  if params.get("randomize_freqs", True)
                  else np.allclose(f, base, rtol=1e-6))
            ctx.check(ok, "frequencies", "{} with harmonics {}", f, base)
            m["coeffs"], m["freqs"] = c, f
            ctx.check(g.num_optim_vars == m["nc"] * nb, "variables",
                      "{}", g.num_optim_vars)
            m["ready"] = True

        changed = []
        for i, (op, a) in enumerate(plan["hist"]):
            r = np.random.RandomState(a) if isinstance(a, int) else None
            changed.append(op)
            if op == "initnum":
                init(num_coeffs=a)
            elif op == "init":
                init()
            elif op == "initcoeffs":
                init(init_coeffs=r.normal(size=m["nc"] * nb))
            elif op == "bounds":
                g.lbound, g.ubound = a
                pend["lb"], pend["ub"] = a
                init()
            elif op == "guess":
                q = np.random.RandomState(a[0]).uniform(-1, 1.5, n)
                g.guess_pulse, g.guess_pulse_action = q, a[1]
                pend["guess"], pend["act"] = q, a[1].upper()
                init()
            elif op == "ramp":
                q = r.uniform(0, 1, n)
                g.ramping_pulse = q
                m["ramp"] = q
            elif op == "set":
                if not m.get("ready"):
                    init()
                x = r.normal(size=m["nc"] * nb) * 10.0 ** r.randint(-1, 4)
                ctx.sut(g.set_optim_var_vals, x)
                back = np.array(ctx.sut(g.get_optim_var_vals), float)
                ctx.check(np.array_equal(back, x), "variables",
                          "set {} got {}", x, back)
                m["coeffs"] = x.reshape(m["nc"], nb)
            if op not in ("gen", "gencoeffs", "set"):
                continue
            if not m.get("ready"):
                init()
            if op == "gencoeffs":
                m["coeffs"] = r.normal(size=(m["nc"], nb))
                pulse = ctx.sut(g.gen_pulse, m["coeffs"].copy())
            else:
                pulse = ctx.sut(g.gen_pulse)
            pulse = np.array(pulse, float)
            w.ev("pulse", pulse)
            what = "CRAB #{}".format(i)
            ctx.check(pulse.shape == (n,), "result", "{}", pulse.shape)
            check_bounds(ctx, what, pulse, m["lb"], m["ub"])
            c = m["coeffs"]
            p, err = np.zeros(n), np.full(n, 1e-9)
            for k in range(m["nc"]):
                f = m["freqs"][k] if plan["fix"] else c[k, 2]
                p += c[k, 0] * np.sin(f * t) + c[k, 1] * np.cos(f * t)
                err += (abs(c[k, 0]) + abs(c[k, 1])) * (
                    1e-6 * abs(f) * (T + 1) + 1e-9)
            if m["guess"] is not None:
                if m["act"] == "ADD":
                    p = p + m["guess"]
                else:
                    p, err = (1 + p) * m["guess"], err * np.abs(m["guess"])
            if m["ramp"] is not None:
                p, err = p * m["ramp"], err * m["ramp"]
            err = err + 1e-9 * (1 + np.abs(p))
            lo, hi = finite(m["lb"]), finite(m["ub"])
            if lo is not None and hi is not None:
                p = 0.5 * (hi + lo) + 0.5 * (hi - lo) * np.tanh(p)
                err = err * 0.5 * (hi - lo) + 1e-9
            if (lo is None) == (hi is None):
                d = np.abs(pulse - p)
                ctx.check(np.all(d <= err), "CRAB pulse",
                          "{}: {} instead of {}", what, pulse, p)
            ctx.probe("pulses compared")
            ctx.probe("CRAB pulses compared")
        ctx.state("crabgen", plan["host"], plan["fix"], plan["num"],
                  tuple(sorted(params)), plan["stream"]["kind"],
                  bclass(m["lb"], m["ub"]), tuple(sorted(set(changed))))


def body(ctx, plan):
    {"crabgen": body_crabgen, "gen": body_gen, "grape": body_grape, "crab": body_crab}[plan["kind"]](
        ctx, plan)


def nontrivial(out):
    return out.probes.get("pulses compared", 0) > 0
