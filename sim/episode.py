"""One simulated optimisation: the code under test between a minimiser that
the simulator records (real scipy) or plays (a scripted one), and a clock,
linear algebra and file system that the simulator owns.
"""
import inspect

import numpy as np
import scipy.optimize

from . import systems as S

GRAD_GENERIC = ["L-BFGS-B", "CG", "BFGS", "TNC", "SLSQP"]
NOGRAD_GENERIC = ["Nelder-Mead", "Powell"]
GRAPE_METHODS = ["LBFGSB", "FMIN_L_BFGS_B", "FMIN_BFGS"] + GRAD_GENERIC
CRAB_METHODS = ["FMIN", "Nelder-Mead", "Powell"]


# ---------------------------------------------------------------------------
# configuration of a run
# ---------------------------------------------------------------------------


def real_approx(run):
    """Scipy makes the gradients; it refuses to outside the bounds."""
    return bool(run.get("approx")) and run["script"] is None


def gen_run(rng, cfg, alg=None, scripted=None, limits=True, bounds=True):
    run = {}
    run["alg"] = alg or S.choice(rng, ["GRAPE", "CRAB"], [4, 1])
    crab = run["alg"] == "CRAB"
    run["method"] = (
        S.choice(rng, CRAB_METHODS, [5, 2, 1])
        if crab
        else S.choice(
            rng, GRAPE_METHODS + ["Nelder-Mead"],
            [3, 4, 3, 1, 1, 1, 1, 1, 0.5],
        )
    )
    run["stats"] = bool(rng.rand() < 0.5)
    tc = {
        "targ": float(S.choice(rng, [1e-12, 0.02, 0.2, 0.5, 0.9], [6, 1, 2, 2, 1])),
        "min_grad": float(S.choice(rng, [1e-10, 1e-4, 0.05, 0.3, 1.0], [6, 1, 1, 1, 0.4])),
        "max_iter": int(S.choice(rng, [1, 2, 4, 8, 15], [1, 2, 3, 3, 2])),
        "max_wall": 1e6,
        "max_calls": None,
    }
    if not limits:
        tc.update(targ=1e-12, min_grad=1e-10)
    elif rng.rand() < 0.4:
        tc["max_wall"] = float(
            S.choice(rng, [0.0, 0.125, 0.5, 1.0, 3.0, 8.0], [0.3, 1, 2, 2, 2, 1])
        )
    if limits and rng.rand() < 0.35:
        tc["max_calls"] = int(S.choice(rng, [1, 2, 3, 5, 9, 14]))
    if run["method"] in NOGRAD_GENERIC + ["FMIN"] and tc["max_calls"] is None:
        tc["max_calls"] = 40
    if run["method"] in ("TNC", "Powell", "SLSQP", "CG", "BFGS", "FMIN_BFGS"):
        tc["max_calls"] = tc["max_calls"] or 60
    run["tc"] = tc
    run["bounds"] = [None, None]
    if bounds and rng.rand() < 0.4:
        run["bounds"] = S.choice(
            rng, [[-1.0, 1.0], [-0.3, 0.3], [None, 0.5], [-0.5, None], [0.0, 2.0]]
        )
        if not crab and rng.rand() < 0.3:
            run["bounds"] = [
                [-0.5 - 0.25 * j for j in range(cfg["n_ctrls"])],
                [0.5 + 0.5 * j for j in range(cfg["n_ctrls"])],
            ]
    run["pulse"] = {
        "type": S.choice(
            rng, ["RND", "LIN", "ZERO", "SINE", "SQUARE", "TRIANGLE", "SAW"],
            [4, 1, 1, 1, 1, 1, 1],
        ),
        "scaling": float(S.choice(rng, [1.0, 0.3, 2.0], [4, 1, 1])),
        "offset": float(S.choice(rng, [0.0, 0.1, -0.2], [4, 1, 1])),
    }
    if run["pulse"]["type"] == "LIN" and cfg["n_ts"] < 2:
        run["pulse"]["type"] = "RND"  # one point does not define a line
    if crab:
        run["crab"] = {
            "num_coeffs": S.choice(rng, [None, 1, 2, 3]),
            "fix": S.choice(rng, [None, True, False]),
            "init": S.choice(rng, [None, 0.5, 2.0]),
            "guess": S.choice(rng, [None, "ZERO", "LIN", "SINE"], [4, 1, 1, 1]),
            "action": S.choice(rng, [None, "MODULATE", "ADD"]),
            "ramp": S.choice(rng, [None, "GAUSSIAN_EDGE"], [3, 1]),
        }
        if cfg["n_ts"] < 2 and run["crab"]["guess"] == "LIN":
            run["crab"]["guess"] = "ZERO"
    run["np_seed"] = int(rng.randint(1 << 30))
    run["costs"] = gen_costs(rng)
    if scripted is None:
        scripted = rng.rand() < 0.55
    run["script"] = gen_script(rng) if scripted else None
    # the minimiser makes the gradients itself
    run["approx"] = bool(rng.rand() < 0.08)
    if run["approx"] and not scripted:
        tc["max_calls"] = tc["max_calls"] or 60
        # (scipy refuses to do so from a point outside the bounds)
        run["bounds"] = [None, None]
    return run


def gen_costs(rng):
    # multiples of 1/1024: sums and differences are exact in binary
    def c(p):
        return (
            float(int(rng.randint(1, 64))) / 1024.0 if rng.rand() < p else 0.0
        )

    return {
        "la": c(0.8), "la.inv": c(0.3), "min.f": c(0.3), "min.g": c(0.3),
        "min.cb": c(0.3), "min.own": c(0.5), "qmul": c(0.3),
        "qadd": c(0.3),
    }


XKINDS = ["near", "far", "one", "same", "x0", "best", "zero", "swap"]


def gen_script(rng, n=None):
    n = n or int(S.choice(rng, [1, 3, 6, 10, 16]))
    acts = []
    for _ in range(n):
        acts.append(
            {
                "do": S.choice(rng, ["f", "g", "fg", "gf", "cb", "fgcb"], [2, 1, 3, 1, 2, 3]),
                "x": S.choice(rng, XKINDS, [4, 2, 2, 2, 1, 1, 0.5, 0.5]),
                "seed": int(rng.randint(1 << 30)),
                "buf": bool(rng.rand() < 0.3),
            }
        )
    return {
        "acts": acts,
        "end": {
            "x": S.choice(rng, ["last", "best", "x0", "far", "near"], [3, 4, 1, 1, 1]),
            "seed": int(rng.randint(1 << 30)),
            "warn": int(S.choice(rng, [0, 1, 2, 3], [4, 2, 2, 0.3])),
            "alias": bool(rng.rand() < 0.3),
        },
    }


# ---------------------------------------------------------------------------
# the minimiser seam
# ---------------------------------------------------------------------------


class Event(dict):
    __getattr__ = dict.__getitem__


class Minim:
    """Records (and, with a script, decides) what the minimiser does."""

    def __init__(self, w, script=None, observer=None, tag=""):
        self.w = w
        self.script = script
        self.events = []
        self.starts = []
        self.observer = observer  # observer(kind, phase, event)
        self.probe_amps = None  # callable: amplitudes applied now
        self.tag = tag

    def last_start(self):
        return self.starts[-1] if self.starts else None

    def run_events(self):
        """Events of the most recent minimiser call."""
        return self.events[self.starts[-1]["at"]:] if self.starts else []

    # -- wrapping ----------------------------------------------------------
    def _call(self, kind, fn, x, args):
        w = self.w
        w.point("min." + kind)
        e = Event(
            t=kind, x=None if x is None else np.array(x, float), ret=None,
            exc=None, inj=False, t0=w.now, t1=None, amps=None,
        )
        self.events.append(e)
        if self.observer:
            self.observer(kind, "before", e)
        try:
            r = fn(*args)
            e["ret"] = np.array(r, float) if r is not None else None
        except BaseException as ex:
            e["exc"] = type(ex).__name__
            e["inj"] = bool(getattr(ex, "sim_injected", False))
            raise
        finally:
            e["t1"] = w.now
            if self.probe_amps is not None:
                a = self.probe_amps()
                e["amps"] = None if a is None else np.array(a, float)
            w.ev(
                self.tag, kind, e["x"] if e["x"] is not None else "-",
                e["ret"] if e["ret"] is not None else "-", e["exc"] or "ok",
                w.now,
            )
        if self.observer:
            self.observer(kind, "after", e)
        return r

    def entry(self, name, orig, a, k):
        w = self.w
        b = inspect.signature(orig).bind(*a, **k)
        b.apply_defaults()
        arg = b.arguments
        fkey = [q for q in b.signature.parameters][0]
        jkey = "jac" if name == "minimize" else "fprime"
        fun, jac = arg[fkey], arg.get(jkey)
        cb = arg.get("callback")
        x0 = arg["x0"]
        st = Event(
            t="start", entry=name, x0=np.array(x0, float).copy(),
            at=len(self.events), now=w.now, end=None, jac=jac is not None,
            bounds=arg.get("bounds"), options=dict(arg.get("options") or {}),
            method=arg.get("method"),
            kw={
                q: arg.get(q)
                for q in ("maxiter", "maxfun", "pgtol", "gtol", "factr", "m",
                          "xtol", "ftol", "maxls")
                if q in arg
            },
        )
        self.starts.append(st)
        w.ev(self.tag, "start", name, st["x0"], w.now)

        def wf(x, *r):
            return self._call("f", fun, x, (x,) + r)

        def wg(x, *r):
            return self._call("g", jac, x, (x,) + r)

        def wc(*r):
            return self._call("cb", cb, None, r)

        try:
            if self.script is not None:
                ret = self.play(name, st, wf, wg if jac else None, wc if cb else None, x0, arg)
            else:
                arg[fkey] = wf
                if callable(jac):
                    arg[jkey] = wg
                if cb is not None:
                    arg["callback"] = wc
                kw = {}
                pos = []
                for q, v in arg.items():
                    kind = b.signature.parameters[q].kind
                    if kind is inspect.Parameter.VAR_KEYWORD:
                        kw.update(v)
                    elif kind is inspect.Parameter.VAR_POSITIONAL:
                        pos.extend(v)
                    elif q in (fkey, "x0"):
                        pos.append(v)
                    else:
                        kw[q] = v
                import contextlib, io as _io

                if w.scope is not None:  # one of several threads
                    ret = orig(*pos, **kw)
                else:
                    with contextlib.redirect_stdout(_io.StringIO()):
                        ret = orig(*pos, **kw)
            x = ret.x if name == "minimize" else ret[0]
            st["end"] = {"x": np.array(x, float), "ret": ret, "now": w.now}
            w.ev(self.tag, "end", st["end"]["x"], w.now)
            return ret
        except BaseException as ex:
            st["end"] = {"exc": type(ex).__name__, "now": w.now,
                         "inj": bool(getattr(ex, "sim_injected", False))}
            raise

    # -- the scripted minimiser --------------------------------------------
    def play(self, name, st, f, g, cb, x0, arg):
        sc = self.script
        x0 = np.array(x0, float).ravel()
        buf = x0.copy()
        last, best, fbest = x0.copy(), x0.copy(), np.inf
        flast = gl = None
        ncb = 0
        nf = ng = 0
        for a in sc["acts"]:
            self.w.point("min.own")
            x = self.point(a["x"], a["seed"], last, x0, best)
            if a["buf"]:
                buf[:] = x
                arr = buf
            else:
                arr = x.copy()
            do = a["do"]
            seq = {"f": "f", "g": "g", "fg": "fg", "gf": "gf", "cb": "c",
                   "fgcb": "fgc"}[do]
            for s in seq:
                if s == "g" and g is None:
                    continue
                if s == "c":
                    if cb is not None:
                        if st["entry"] == "minimize":
                            cb(last.copy())
                        else:
                            cb(last)
                        ncb += 1
                    continue
                if s == "f":
                    v = f(arr)
                    nf += 1
                    flast = float(v)
                    if flast < fbest:
                        fbest, best = flast, x.copy()
                else:
                    gl = np.array(g(arr), float)
                    ng += 1
                last = x.copy()
        e = sc["end"]
        x = {"last": last, "best": best, "x0": x0}.get(e["x"])
        if x is None:
            x = self.point(e["x"], e["seed"], last, x0, best)
        x = np.array(x, float).copy()
        warn = e["warn"]
        fv = flast if flast is not None else 0.0
        gv = gl if gl is not None else np.zeros_like(x)
        kw = st["kw"]
        if name == "fmin_l_bfgs_b":
            warn = min(warn, 2)
            if warn == 1 and not (
                ncb >= (kw.get("maxiter") or 1e18)
                or nf > (kw.get("maxfun") or 1e18)
            ):
                warn = 2
            st["warn"] = warn
            task = {0: "CONVERGENCE: SIMULATED", 1: "STOP: LIMIT", 2: "ABNORMAL: SIMULATED"}[warn]
            return x, fv, {"grad": gv, "task": task, "funcalls": nf, "nit": ncb, "warnflag": warn}
        if name == "fmin_bfgs":
            st["warn"] = warn
            return x, fv, gv, np.eye(len(x)), nf, ng, warn
        if name == "fmin":
            st["warn"] = warn
            r = (x, fv, ncb, nf, warn)
            return r + ([x0, x],) if arg.get("retall") else r
        st["warn"] = warn
        if st["method"] in ("COBYLA", "COBYQA"):
            # (these report no iterations)
            return scipy.optimize.OptimizeResult(
                x=x, fun=fv, nfev=nf, success=warn == 0, status=warn,
                message="simulated status {}".format(warn),
            )
        return scipy.optimize.OptimizeResult(
            x=x, fun=fv, nit=ncb, nfev=nf, njev=ng, success=warn == 0,
            status=warn, message="simulated status {}".format(warn),
        )

    @staticmethod
    def point(kind, seed, last, x0, best):
        r = np.random.RandomState(seed)
        n = len(x0)
        if kind == "near":
            return last + 0.1 * r.normal(size=n)
        if kind == "far":
            return x0 + r.normal(size=n)
        if kind == "one":
            x = last.copy()
            x[r.randint(n)] += float(r.normal())
            return x
        if kind == "same":
            return last.copy()
        if kind == "x0":
            return x0.copy()
        if kind == "best":
            return best.copy()
        if kind == "zero":
            return np.zeros(n)
        if kind == "huge":
            return x0 + r.normal(size=n) * 10.0 ** r.randint(1, 6)
        if kind == "sign":
            return np.where(r.rand(n) < 0.5, -1.0, 1.0) * 10.0 ** r.randint(0, 3)
        return last[::-1].copy()


# ---------------------------------------------------------------------------
# building and running
# ---------------------------------------------------------------------------


def bounds_arg(b):
    return [list(x) if isinstance(x, list) else x for x in b]


def create_kwargs(cfg, run):
    tc = run["tc"]
    lb, ub = bounds_arg(run["bounds"])
    kw = dict(
        alg=run["alg"], optim_method=run["method"],
        fid_err_targ=tc["targ"], min_grad=tc["min_grad"],
        max_iter=tc["max_iter"], max_wall_time=tc["max_wall"],
        amp_lbound=lb, amp_ubound=ub, gen_stats=run["stats"],
    )
    mp = dict(run.get("mparams") or {})
    if tc["max_calls"] is not None:
        mp["max_fid_func_calls"] = tc["max_calls"]
    if mp:
        kw["method_params"] = mp
    op = dict(run.get("oparams") or {})
    if run.get("approx"):
        op["approx_grad"] = True
    if op:
        kw["optim_params"] = op
    if run["alg"] == "CRAB":
        c = run["crab"]
        ap = {}
        if c["num_coeffs"] is not None:
            ap["num_coeffs"] = c["num_coeffs"]
        if c["fix"] is not None:
            ap["fix_frequency"] = c["fix"]
        if c["init"] is not None:
            ap["init_coeff_scaling"] = c["init"]
        if ap:
            kw["alg_params"] = ap
        kw["init_pulse_type"] = c["guess"] or "DEF"
        if c["guess"] and c["action"]:
            kw["init_pulse_params"] = {"pulse_action": c["action"]}
        if c["ramp"]:
            kw["ramping_pulse_type"] = c["ramp"]
        kw["pulse_scaling"] = run["pulse"]["scaling"]
        kw["pulse_offset"] = run["pulse"]["offset"]
    else:
        kw["init_pulse_type"] = run["pulse"]["type"]
        kw["pulse_scaling"] = run["pulse"]["scaling"]
        kw["pulse_offset"] = run["pulse"]["offset"]
    return kw


def merge(kw, over):
    kw.update(over, **({"optim_params": dict(
        kw["optim_params"], **(over["optim_params"] or {}))}
        if "optim_params" in over and "optim_params" in kw else {}))


def create(cfg, run, parts=None, **over):
    kw = create_kwargs(cfg, run)
    merge(kw, over)
    return S.build(cfg, parts, **kw)


def initial_amps(optim, cfg, run):
    """Initial pulses as optimize_pulse makes them."""
    dyn = optim.dynamics
    dyn.init_timeslots()
    amps = np.zeros([dyn.num_tslots, dyn.num_ctrls])
    if run["alg"] == "CRAB":
        for j in range(dyn.num_ctrls):
            p = optim.pulse_generator[j]
            p.init_pulse()
            amps[:, j] = p.gen_pulse()
    else:
        p = optim.pulse_generator
        lb, ub = run["bounds"]
        for j in range(dyn.num_ctrls):
            if isinstance(lb, list):
                p.lbound = lb[j]
            if isinstance(ub, list):
                p.ubound = ub[j]
            amps[:, j] = p.gen_pulse()
    return amps


class Episode:
    def __init__(self, ctx, w, cfg, run, parts=None, tag="", observer=None):
        self.ctx, self.w, self.cfg, self.run = ctx, w, cfg, run
        self.parts = parts or S.make_parts(cfg)
        self.minim = Minim(w, run.get("script"), observer, tag)
        w.minim = self.minim
        self.optim = None
        self.result = None
        self.exc = None

    def make(self, **over):
        self.optim = self.ctx.sut(create, self.cfg, self.run, self.parts, **over)
        dyn = self.optim.dynamics
        self.minim.probe_amps = lambda: dyn.ctrl_amps
        return self.optim

    def start_pulse(self, amps=None):
        if amps is None:
            amps = self.ctx.sut(initial_amps, self.optim, self.cfg, self.run)
        self.amps0 = np.array(amps, float)
        self.ctx.sut(self.optim.dynamics.initialize_controls, amps)

    def optimise(self, tc=None):
        """Run; injected exceptions end up in self.exc."""
        self.w.minim = self.minim
        self.exc = None
        self.result = None
        self.t_begin = self.w.now
        try:
            self.result = self.ctx.sut(self.optim.run_optimization, tc)
        except BaseException as e:
            if not getattr(e, "sim_injected", False):
                raise
            self.exc = e
        self.t_end = self.w.now
        return self.result

    @property
    def start(self):
        return self.minim.last_start()

    @property
    def events(self):
        return self.minim.run_events()

    def terminated_by(self):
        """Event whose exception ended the minimiser, or None."""
        ev = self.events
        if ev and ev[-1]["exc"] is not None:
            return ev[-1]
        return None


# ---------------------------------------------------------------------------
# the top level functions
# ---------------------------------------------------------------------------

FUNCTIONS = [
    "optimize_pulse", "optimize_pulse_unitary", "opt_pulse_crab",
    "opt_pulse_crab_unitary",
]


def fit_function(rng, cfg, run):
    """Choose a top level function able to express (cfg, run)."""
    crab = run["alg"] == "CRAB"
    names = ["optimize_pulse"] + (["opt_pulse_crab"] if crab else [])
    unit = (
        cfg["dyn"] == "UNIT" and cfg["fid_eff"] == "UNIT"
        and (crab or cfg["prop_eff"] == "DIAG")
    )
    if unit:
        names += ["optimize_pulse_unitary"]
        if crab:
            names += ["opt_pulse_crab_unitary"]
    return S.choice(rng, names)


def function_call(cfg, run, parts, which, **over):
    """(callable, positional, keyword) arguments of a top level call."""
    import qutip_qtrl.pulseoptim as cpo

    drift, ctrls, initial, target = S.qobjs(cfg, parts)
    kw = create_kwargs(cfg, run)
    kw.update(
        num_tslots=None if cfg["tau"] is not None else cfg["n_ts"],
        evo_time=None if cfg["tau"] is not None else cfg["evo_time"],
        tau=None if cfg["tau"] is None else np.array(cfg["tau"]),
        dyn_params=S.dyn_params(cfg),
        fid_params=S.fid_params(cfg),
    )
    if which in ("optimize_pulse", "opt_pulse_crab"):
        kw.update(dyn_type=cfg["dyn"], prop_type=cfg["prop"], fid_type=cfg["fid"])
    else:
        kw["phase_option"] = cfg["phase"]
    if which.startswith("opt_pulse_crab"):
        for k in ("alg", "min_grad"):
            kw.pop(k)
        kw["guess_pulse_type"] = run["crab"]["guess"]
        kw.pop("init_pulse_type")
        ip = kw.pop("init_pulse_params", None)
        if ip:
            kw["guess_pulse_action"] = ip["pulse_action"]
        kw["guess_pulse_scaling"] = kw.pop("pulse_scaling")
        kw["guess_pulse_offset"] = kw.pop("pulse_offset")
    merge(kw, over)
    return getattr(cpo, which), [drift, ctrls, initial, target], kw


class CatchOptimizers:
    """Notes every Optimizer instance created in the block."""

    def __init__(self, on_new):
        self.on_new = on_new

    def __enter__(self):
        import qutip_qtrl.optimizer as om

        self.cls = om.Optimizer
        self.orig = om.Optimizer.__init__
        me = self

        def init(self_, *a, **k):
            me.orig(self_, *a, **k)
            me.on_new(self_)

        om.Optimizer.__init__ = init
        return self

    def __exit__(self, *exc):
        self.cls.__init__ = self.orig


def call_function(ep, which, pos=None, kw=None, **over):
    """Run a top level function as the optimisation of episode `ep`."""
    fn, p, k = function_call(ep.cfg, ep.run, ep.parts, which, **over)
    pos = p if pos is None else pos
    kw = k if kw is None else kw

    def new(optim):
        ep.optim = optim
        ep.minim.probe_amps = lambda: optim.dynamics.ctrl_amps

    ep.w.minim = ep.minim
    ep.exc = ep.result = None
    ep.t_begin = ep.w.now
    with CatchOptimizers(new):
        try:
            ep.result = ep.ctx.sut(fn, *pos, **kw)
        except BaseException as e:
            if not getattr(e, "sim_injected", False):
                raise
            ep.exc = e
    ep.t_end = ep.w.now
    return ep.result
