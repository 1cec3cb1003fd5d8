"""C01: computed values match the current pulse, whatever the history."""
import numpy as np

from ..core import Violation
from .. import systems as S
from ..world import SimHang

ID = "C01"
RULE = (
    "One run = one random control problem (dynamics type, also with a "
    "phase of the user's own, x propagator x fidelity computer x operator "
    "type x cache options x time grid x task) driven by a random history of amplitude updates (including in-place "
    "changes of the caller's array), queries, accessor reads, optimiser "
    "wrapper calls, re-initialisations and injected failures of the linear "
    "algebra; non-trivial when at least one value was compared with the "
    "reference model after a change. States: distinct (configuration class, "
    "last three operations, faulted) tuples."
)
ASSUMPTIONS = [
    "values compared to 1e-7, gradients to 2e-6 relative; gradients at "
    "non-differentiable points (|f|=0 or f=1) are not compared",
    "evolution operators are read after compute_evolution, and a changed "
    "target, time grid or phase option is followed by initialize_controls",
]
REAL = [
    "dynamics.py", "tslotcomp.py", "propcomp.py", "fidcomp.py",
    "symplectic.py", "optimizer.py wrappers", "scipy/qutip linear algebra",
]
STUB = ["clock", "minimiser (calls issued by the simulator)"]
N_QUICK = 24000
N_THOROUGH = 250000
TECHNIQUE = (
    "random operation histories with failures injected at the linear algebra "
    "seam, compared after every step with an independent reference model"
)
LEVEL_NOTE = (
    "Seeded sampling of histories, configurations and fault points; no "
    "exhaustiveness. Trusts the numpy reference model (block-expm exact "
    "derivatives) and scipy's expm."
)

QS = ["fid_err", "grad", "grad_norm", "f_wrap", "g_wrap"]
ACC = [
    "dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo", "onto_evo",
    "full_evo", "onto_evo_target",
]
# deprecated names and what replaced them
OLD = ["evo_init2t", "evo_t2end", "evo_t2targ", "get_num_ctrls",
       "get_owd_evo_target", "combine_dyn_gen", "get_dyn_gen",
       "get_ctrl_dyn_gen", "compute_propagator", "compute_prop_grad",
       "compute_diff_prop", "get_timeslot_for_fidelity_calc", "uses"]
EXCS = ["MemoryError", "LinAlgError", "KeyboardInterrupt", "RuntimeError"]


def gen(rng, tier):
    cfg = S.gen_config(rng)
    cfg["stats"] = bool(rng.rand() < 0.4)
    cfg["scale"] = S.choice(rng, [None, 0.25, 1.5], [4, 1, 1])
    w = {
        "amps": 5, "q": 6, "acc": 2, "mutate": 1.0, "inplace": 1.0,
        "reinit": 1.0, "compute": 1, "target": 0.6, "grid": 0.5, "phase": 0.4,
        "repeat": 1, "peek": 0.8, "old": 0.7, "overflow": 0.6,
    }
    for k in list(w):
        if k not in ("amps", "q") and rng.rand() < 0.35:
            w[k] = 0
    if cfg["fid_eff"] != "UNIT":
        w["phase"] = 0
    else:
        w["overflow"] = 0
    names = sorted(w)
    n_ops = int(S.choice(rng, [4, 8, 14, 22]))
    ops = [{"op": "reinit", "seed": int(rng.randint(1 << 30)), "kind": "normal"}]
    for _ in range(n_ops):
        o = {"op": S.choice(rng, names, [w[n] for n in names])}
        if o["op"] in ("amps", "reinit"):
            o["seed"] = int(rng.randint(1 << 30))
            o["kind"] = S.choice(rng, S.AMP_KINDS, [5, 3, 2, 2, 1, 1, 2, 1, 1, 1, 1])
        elif o["op"] in ("mutate", "inplace"):
            o["seed"] = int(rng.randint(1 << 30))
            o["kind"] = S.choice(rng, ["one", "row", "normal", "tiny", "ulp"])
            o["then"] = bool(rng.rand() < 0.6)
        elif o["op"] == "q":
            o["what"] = S.choice(rng, QS, [3, 3, 1, 1, 1])
        elif o["op"] in ("acc", "peek"):
            o["what"] = S.choice(rng, ACC)
        elif o["op"] == "old":
            o["what"] = S.choice(rng, OLD)
            o["k"], o["j"] = int(rng.randint(8)), int(rng.randint(3))
        elif o["op"] == "overflow":
            o["mag"] = float(S.choice(rng, [1e3, 1e6, -1e6, 1e100, -1e250]))
            o["k"], o["j"] = int(rng.randint(8)), int(rng.randint(3))
        elif o["op"] == "target":
            o["alt"] = bool(rng.rand() < 0.7)
        elif o["op"] == "grid":
            o["how"] = S.choice(rng, ["tau", "n", "evo"])
            o["n"] = int(S.choice(rng, [1, 2, 3, 4, 5]))
            o["evo"] = float(S.choice(rng, [0.4, 1.1, 2.2]))
            o["seed"] = int(rng.randint(1 << 30))
        elif o["op"] == "phase":
            o["to"] = S.choice(rng, ["PSU", "SU"])
            o["old"] = bool(rng.rand() < 0.3)
        ops.append(o)
    if rng.rand() < 0.55:
        for _ in range(int(S.choice(rng, [1, 2, 3, 5]))):
            o = ops[int(rng.randint(1, len(ops)))]
            o.setdefault("faults", []).append(
                {
                    "n": int(rng.randint(1, 2 + 2 * cfg["n_ts"] * (1 + cfg["n_ctrls"]))),
                    "exc": S.choice(rng, EXCS),
                    "when": S.choice(rng, ["before", "after"]),
                }
            )
    return {"cfg": cfg, "ops": ops}


def close(a, b, tol):
    return np.allclose(a, b, rtol=tol, atol=tol, equal_nan=False)


class Runner:
    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.plan = plan
        self.cfg = dict(plan["cfg"])

    def go(self):
        ctx, plan = self.ctx, self.plan
        cfg = self.cfg
        with ctx.world(np_seed=1, max_steps=50000) as w:
            self.w = w
            self.parts = S.make_parts(cfg)
            self.ref = S.Ref(cfg, self.parts)
            self.opt = ctx.sut(
                S.build, cfg, self.parts, fid_err_targ=-1.0, min_grad=-1.0
            )
            self.d = self.opt.dynamics
            self.amps = None  # what the model says is applied
            self.arr = None  # the array object handed to the code
            self.ready = False
            self.hist = ["start"]
            self.alt = False
            for i, o in enumerate(plan["ops"]):
                if not self.ready and o["op"] not in ("reinit",):
                    # recover as a user would: initialise again
                    self.step(i, {"op": "reinit", "seed": i, "kind": "same"})
                if self.ready or o["op"] == "reinit":
                    self.step(i, o)
            # faults have stopped: everything must be right now
            w.faults = []
            if not self.ready:
                self.step(-1, {"op": "reinit", "seed": 5, "kind": "same"})
            self.step(-2, {"op": "q", "what": "fid_err"})
            self.step(-3, {"op": "q", "what": "grad"})
            self.step(-4, {"op": "acc", "what": "full_evo"})

    def step(self, i, o):
        w, ctx = self.w, self.ctx
        for f in o.get("faults", []):
            # armed from here on, fires at the n-th computation
            w.faults.append(
                {
                    "seam": "la", "n": w.counts.get("la", 0) + f["n"],
                    "act": "raise", "exc": f["exc"], "when": f["when"],
                }
            )
        w.ev("OP", i, sorted(o.items()))
        n_inj = len(w.injected)
        faulted = ""
        try:
            getattr(self, "op_" + o["op"])(o)
        except BaseException as e:
            if not getattr(e, "sim_injected", False):
                raise
            # an injected failure came out of the call: it must be ours
            faulted = type(e).__name__
            w.ev("FAILED", faulted)
            if o["op"] in ("reinit", "target", "grid", "phase"):
                self.ready = False
            ctx.probe("op failed by fault")
        if not faulted and len(w.injected) > n_inj:
            ctx.fail(
                "swallowed",
                "injected {!r} did not come out of {}",
                w.injected[-1], o["op"],
            )
        self.hist.append(o["op"] + "/" + str(o.get("what", o.get("kind", ""))) + faulted)
        c = self.cfg
        ctx.state(
            c["dyn"], c["prop_eff"], c["fid_eff"], c["dtype"], c["mem"] > 0,
            tuple(self.hist[-3:]),
        )

    # -- operations ---------------------------------------------------------
    def new_amps(self, o):
        n_ts = len(self.ref.tau)
        base = self.amps
        if base is not None and base.shape[0] != n_ts:
            base = None
        return S.gen_amps(
            o["seed"], n_ts, self.cfg["n_ctrls"], o["kind"], base
        )

    def init(self, amps):
        self.ready = False
        self.amps = amps.copy()
        self.arr = amps
        self.ctx.sut(self.d.initialize_controls, amps)
        tau = np.asarray(self.d.tau, float)
        self.ctx.check(
            tau.shape == self.ref.tau.shape
            and np.allclose(tau, self.ref.tau, rtol=1e-6),
            "tau", "tau {} expected {}", tau, self.ref.tau,
        )
        self.ctx.check(
            close(self.d.time, np.concatenate([[0], np.cumsum(tau)]), 1e-6),
            "time", "time {} for tau {}", self.d.time, tau,
        )
        self.ref.set_tau(tau)
        self.ready = True
        # the documented defaults of what is kept
        cfg, d = self.cfg, self.d
        for k in ("cache_phased_dyn_gen", "cache_prop_grad",
                  "cache_dyn_gen_eigenvectors_adj"):
            want = cfg.get(k)
            if k == "cache_phased_dyn_gen" and cfg["dyn"] == "GEN_MAT":
                continue  # (of no effect without a phase)
            if want is None:
                want = cfg["mem"] == 0
            self.ctx.check(bool(getattr(d, k)) == want, "memory", "{} is {}",
                           k, getattr(d, k))

    def op_reinit(self, o):
        self.init(self.new_amps(o))

    def op_amps(self, o):
        a = self.new_amps(o)
        self.amps = a.copy()
        self.arr = a
        self.ctx.sut(self.d.update_ctrl_amps, a)
        self.applied()

    def applied(self):
        got = np.asarray(self.d.ctrl_amps)
        self.ctx.check(
            got.shape == self.amps.shape and np.array_equal(got, self.amps),
            "ctrl_amps", "ctrl_amps are not those of the update",
        )

    def op_mutate(self, o):
        """The caller changes its own array after handing it over."""
        b = S.gen_amps(o["seed"], *self.arr.shape, o["kind"], self.arr)
        self.arr[:, :] = b
        self.applied()
        if o["then"]:
            # ... and then passes it again
            self.amps = self.arr.copy()
            self.ctx.sut(self.d.update_ctrl_amps, self.arr)
            self.applied()

    def op_inplace(self, o):
        """As a minimiser that works in its own x buffer would."""
        x = self.amps.copy().reshape(-1)
        self.call_wrap("fid_err_func_wrapper", x, self.amps)
        b = S.gen_amps(o["seed"], *self.amps.shape, o["kind"], self.amps)
        x[:] = b.reshape(-1)
        self.applied()
        if o["then"]:
            self.amps = b.copy()
            self.check_grad(
                self.call_wrap("fid_err_grad_wrapper", x, b).reshape(b.shape)
            )
            self.applied()

    def call_wrap(self, name, x, amps):
        self.amps = np.array(amps)
        self.arr = self.amps.copy()
        return self.ctx.sut(getattr(self.opt, name), x)

    def op_compute(self, o):
        self.ctx.sut(self.d.compute_evolution)

    def op_q(self, o):
        fc = self.d.fid_computer
        wh = o["what"]
        if wh == "fid_err":
            self.check_err(self.ctx.sut(fc.get_fid_err))
        elif wh == "f_wrap":
            self.check_err(
                self.call_wrap(
                    "fid_err_func_wrapper", self.amps.reshape(-1).copy(), self.amps
                )
            )
        elif wh == "grad":
            self.check_grad(self.ctx.sut(fc.get_fid_err_gradient))
        elif wh == "g_wrap":
            g = self.call_wrap(
                "fid_err_grad_wrapper", self.amps.reshape(-1).copy(), self.amps
            )
            self.ctx.check(
                np.ndim(g) == 1 and len(g) == self.amps.size,
                "shape", "gradient wrapper returned shape {}", np.shape(g),
            )
            self.check_grad(g.reshape(self.amps.shape))
        elif wh == "grad_norm":
            g = np.array(self.ctx.sut(fc.get_fid_err_gradient))
            self.check_grad(g)
            self.ctx.check(
                close(fc.grad_norm, np.sqrt((g**2).sum()), 1e-9)
                or np.isnan(g).any() and np.isnan(fc.grad_norm),
                "grad_norm", "grad_norm {} of gradient {}", fc.grad_norm, g,
            )

    def op_overflow(self, o):
        """A minimiser tries an amplitude far out, then comes back."""
        fc, sut, check = self.d.fid_computer, self.ctx.sut, self.ctx.check
        a = self.amps.copy()
        a[o["k"] % a.shape[0], o["j"] % a.shape[1]] = o["mag"]
        try:
            sut(self.d.update_ctrl_amps, a)
            err = float(sut(fc.get_fid_err))
            check(not np.isnan(err), "not a number",
                  "fidelity error {} at an amplitude of {}", err, o["mag"])
            if not np.isfinite(err):
                self.ctx.probe("fidelity error overflowed")
            g = np.array(sut(fc.get_fid_err_gradient))
            check(not np.isnan(g).any(), "not a number",
                  "gradient {} at an amplitude of {}", g, o["mag"])
        finally:
            self.arr = self.amps.copy()
            sut(self.d.update_ctrl_amps, self.arr)
        self.applied()
        self.check_err(sut(fc.get_fid_err))

    def op_repeat(self, o):
        fc = self.d.fid_computer
        a = self.ctx.sut(fc.get_fid_err)
        g = np.array(self.ctx.sut(fc.get_fid_err_gradient))
        b = self.ctx.sut(fc.get_fid_err)
        h = np.array(self.ctx.sut(fc.get_fid_err_gradient))
        self.ctx.check(
            a == b and np.array_equal(g, h, equal_nan=True),
            "unstable", "repeated query: {} {} / {} {}", a, b, g, h,
        )
        self.check_err(a)
        self.check_grad(g)

    def check_err(self, v):
        self.w.ev("err", float(v))
        want = self.ref.fid_err(self.amps)
        self.ctx.probe("values compared")
        self.ctx.check(
            self.ref.err_close(v, self.amps),
            "fid_err", "fidelity error {} expected {} after {}",
            v, want, self.hist[-6:],
        )

    def check_grad(self, g):
        g = np.asarray(g)
        self.w.ev("grad", g)
        if not self.ref.grad_comparable(self.amps):
            self.ctx.probe("gradient at a kink")
            return
        want = self.ref.grad(self.amps)
        self.ctx.probe("gradients compared")
        tol = self.ref.grad_tol(self.amps, want)
        self.ctx.check(
            g.shape == want.shape and np.all(np.abs(g - want) <= tol),
            "gradient", "gradient {} expected {} after {}",
            g, want, self.hist[-6:],
        )

    def op_acc(self, o):
        d, ref, wh = self.d, self.ref, o["what"]
        self.ctx.sut(d.compute_evolution)
        fc = d.fid_computer
        if wh == "onwd_evo" and not fc.uses_onwd_evo:
            return
        if wh.startswith("onto_evo") and not fc.uses_onto_evo:
            return
        x = self.ctx.sut(getattr, d, wh)
        amps, n_ts, n_c = self.amps, len(ref.tau), self.cfg["n_ctrls"]
        ev = ref.evolve(amps)
        if wh == "dyn_gen":
            want = [ref.dyn_gen(amps, k) for k in range(n_ts)]
        elif wh == "prop":
            want = ev["props"]
        elif wh == "prop_grad":
            if x is None:
                return
            x = [x[k, j] for k in range(n_ts) for j in range(n_c)]
            want = [ref.dprop(amps, k, j) for k in range(n_ts) for j in range(n_c)]
        elif wh == "fwd_evo":
            want = ev["fwd"]
        elif wh == "onwd_evo":
            want = ev["onwd"]
        elif wh == "onto_evo":
            want = ref.onto(amps)
        elif wh == "onto_evo_target":
            self.ctx.check(isinstance(x, S.Qobj), "accessor:" + wh, "{!r}", x)
            x, want = [x], [ref.onto_target()]
        else:
            x, want = [x], [ev["fwd"][-1]]
        self.ctx.check(
            len(x) == len(want), "accessor:" + wh,
            "{} has {} entries, expected {}", wh, len(x), len(want),
        )
        self.ctx.probe("operators compared", len(want))
        p = self.parts
        dims = (p.odims if wh in ("dyn_gen", "prop", "prop_grad", "onwd_evo")
                else list(d.initial.dims)[::-1] if wh.startswith("onto")
                else d.initial.dims)
        for k, (a, b) in enumerate(zip(x, want)):
            self.ctx.check(
                isinstance(a, S.Qobj) and a.dims == dims, "accessor dims:" + wh,
                "{}[{}] is {} with dims {}, not {}", wh, k, type(a).__name__,
                getattr(a, "dims", None), dims)
            a = S.full(a)
            self.w.ev(wh, k, a)
            self.ctx.check(
                a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6),
                "accessor:" + wh, "{}[{}] is\n{}\nexpected\n{}\nafter {}",
                wh, k, a, b, self.hist[-6:],
            )

    def op_old(self, o):
        """Deprecated names give what their replacements are documented to."""
        d, ref, sut, wh = self.d, self.ref, self.ctx.sut, o["what"]
        amps, n_ts = self.amps, len(ref.tau)
        k, j = o["k"] % n_ts, o["j"] % self.cfg["n_ctrls"]
        fc, pc = d.fid_computer, d.prop_computer
        sut(d.compute_evolution)
        ev = ref.evolve(amps)
        if wh == "get_num_ctrls":
            got, want = [sut(d.get_num_ctrls)], [self.cfg["n_ctrls"]]
        elif wh == "get_timeslot_for_fidelity_calc":
            got = [sut(d.tslot_computer.get_timeslot_for_fidelity_calc)]
            want = [n_ts]
        elif wh == "uses":
            got = [fc.uses_evo_t2end, fc.uses_evo_t2targ]
            want = [fc.uses_onwd_evo, fc.uses_onto_evo]
        elif wh == "evo_init2t":
            got, want = sut(getattr, d, wh), ev["fwd"]
        elif wh == "evo_t2end":
            if not fc.uses_onwd_evo:
                return
            got, want = sut(getattr, d, wh), ev["onwd"]
        elif wh == "evo_t2targ":
            if not fc.uses_onto_evo:
                return
            got, want = sut(getattr, d, wh), ref.onto(amps)
        elif wh == "get_owd_evo_target":
            if not fc.uses_onto_evo:
                return
            got, want = [sut(d.get_owd_evo_target)], [ref.onto_target()]
        elif wh == "combine_dyn_gen":
            got, want = [sut(d.combine_dyn_gen, k)], [ref.dyn_gen(amps, k)]
        elif wh == "get_dyn_gen":
            got, want = [sut(d.get_dyn_gen, k)], [ref._ph(ref.dyn_gen(amps, k))]
        elif wh == "get_ctrl_dyn_gen":
            got, want = [sut(d.get_ctrl_dyn_gen, j)], [ref._ph(ref.ctrl(0, j))]
        elif wh == "compute_propagator":
            got, want = [sut(pc.compute_propagator, k)], [ev["props"][k]]
        elif wh == "compute_prop_grad":
            if self.cfg["prop_eff"] == "APPROX":
                return
            got = [sut(pc.compute_prop_grad, k, j, compute_prop=False)]
            want = [ref.dprop(amps, k, j)]
            got += list(sut(pc.compute_prop_grad, k, j))
            want += [ev["props"][k], want[0]]
        else:
            if self.cfg["prop_eff"] != "APPROX":
                return
            got = [sut(pc.compute_diff_prop, k, j, 0.25)]
            up = amps.copy()
            up[k, j] += 0.25
            want = [ref.evolve(up)["props"][k]]
        self.ctx.check(
            len(got) == len(want), "old name:" + wh,
            "{} has {} entries, expected {}", wh, len(got), len(want),
        )
        for a, b in zip(got, want):
            a, b = S.full(a), np.asarray(b)
            self.w.ev(wh, a)
            self.ctx.check(
                a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6),
                "old name:" + wh, "{} ({}, {}) is\n{}\nexpected\n{}\nafter {}",
                wh, k, j, a, b, self.hist[-6:],
            )
        self.ctx.probe("deprecated names compared")

    def op_peek(self, o):
        """Operators read at any time; what is reported before the evolution
        has been computed is not specified, but later values are."""
        try:
            getattr(self.d, o["what"])
        except Exception as e:
            if getattr(e, "sim_injected", False):
                raise
        self.ctx.probe("read without evaluation")

    def op_target(self, o):
        t = self.parts.target_alt if o["alt"] else self.parts.target
        self.ready = False
        self.d.target = S.Qobj(t, dims=self.parts.idims)
        self.ref.set_target(t)
        self.init(self.amps.copy())

    def op_grid(self, o):
        cfg, d, ref = self.cfg, self.d, self.ref
        n = len(ref.tau)
        if not (cfg["td_drift"] or cfg["td_ctrl"]) and o["how"] != "evo":
            n = o["n"]
        r = np.random.RandomState(o["seed"])
        self.ready = False
        if o["how"] == "tau":
            tau = np.round(r.uniform(0.05, 0.6, n), 3)
            self.ctx.sut(setattr, d, "tau", tau.copy())
        elif o["how"] == "n":
            evo = float(np.sum(ref.tau))
            self.ctx.sut(setattr, d, "num_tslots", n)
            tau = np.ones(n) * evo / n
        else:
            self.ctx.sut(setattr, d, "evo_time", o["evo"])
            tau = np.ones(n) * o["evo"] / n
        ref.set_tau(tau)
        self.ctx.check(
            d.num_tslots == n and abs(d.evo_time - tau.sum()) < 1e-5,
            "grid", "num_tslots {} evo_time {} after {}",
            d.num_tslots, d.evo_time, o,
        )
        self.init(S.gen_amps(o["seed"], n, cfg["n_ctrls"]))

    def op_phase(self, o):
        self.ready = False
        if o.get("old"):
            self.ctx.sut(self.d.fid_computer.set_phase_option, o["to"])
        else:
            self.ctx.sut(setattr, self.d.fid_computer, "phase_option", o["to"])
        self.ref.phase = o["to"]
        self.init(self.amps.copy())


def body(ctx, plan):
    Runner(ctx, plan).go()


def nontrivial(out):
    return (
        out.probes.get("values compared", 0)
        + out.probes.get("gradients compared", 0)
    ) > 2
