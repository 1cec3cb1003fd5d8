"""C19: what the log reports is what happened."""
import re

import numpy as np

from .. import env
from .. import systems as S
from .. import episode as E

import qutip_qtrl.logging_utils as ql
import qutip_qtrl.pulsegen as pulsegen

ID = "C19"
RULE = (
    "One run = a random problem - in part with operators that make the "
    "evolution of some time slots not unitary, at some amplitudes only - "
    "taken through a random history of pulses, queries, changes of the "
    "unitarity checking, its tolerance and the log level, and computations "
    "that an injected exception breaks off, then through an optimisation by a "
    "scripted or real minimiser. After every step the log records are "
    "compared: the time slots reported as not unitary must be exactly those "
    "whose propagator is not, once for each recomputation, and the causes and "
    "figures reported those of the pulse applied; calls and iterations are "
    "numbered without gaps. CRAB generators must say which of their settings "
    "they ignore, and "
    "dynamics that their dump is configured to record nothing. Non-trivial "
    "when a report was compared. States: (dynamics, computer, level, "
    "checking, report)."
)
ASSUMPTIONS = [
    "a deviation from unitarity within a factor of three of the tolerance "
    "(plus the relative tolerance 1e-5 of numpy.allclose) may or may not be "
    "reported; so may elements within 1e-14 and 1e-9 of Hermitian",
    "at DEBUG level the propagators of unitary dynamics are checked even "
    "if no checking was asked for",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer"]
STUB = ["clock", "minimiser (scripted, in part)", "log handler"]
TECHNIQUE = (
    "random histories with injected exceptions; log records compared with a "
    "model of the evolution and with the events of the minimiser"
)
LEVEL_NOTE = "Seeded sampling of problems and histories."
N_QUICK = 6000
N_THOROUGH = 60000

LEVELS = [ql.ERROR, ql.WARN, ql.INFO, ql.DEBUG, ql.DEBUG_VERBOSE,
          ql.DEBUG_INTENSE]
EXCS = ["MemoryError", "LinAlgError", "KeyboardInterrupt", "RuntimeError"]


def gen(rng, tier):
    if rng.rand() < 0.15:
        return {
            "mode": "pulse", "dim": int(S.choice(rng, [2, 3, 4, 5])),
            "action": S.choice(rng, [None, "MODULATE", "add", "NOPE", "",
                                     "modulate", "AD", "MULTIPLY"]),
            "guess": bool(rng.rand() < 0.8),
            "num": S.choice(rng, [None, 1, 3, 5], [4, 1, 1, 1]),
            "warn": S.choice(rng, [None, 1, 2, 3, 4]),
            "level": S.choice(rng, LEVELS),
            "times": int(S.choice(rng, [1, 2, 3])),
            "seed": int(rng.randint(1 << 30)),
        }
    cfg = S.gen_config(rng, small=rng.rand() < 0.7)
    plan = {"mode": "run", "cfg": cfg}
    # one control (or the drift) that is not Hermitian
    plan["odd"] = None
    if cfg["dyn"] != "SYMPL" and rng.rand() < 0.7:
        plan["odd"] = S.choice(rng, ["ctrl", "drift", "tiny"], [5, 1, 1])
        if cfg["dyn"] == "GEN_MAT":
            cfg["shape"] = "skew"
    cfg["unit"] = int(S.choice(rng, [0, 1, 2], [1, 3, 3]))
    plan["tol"] = S.choice(rng, [None, 1e-8, 1e-4, 0.02, 0.3], [4, 1, 1, 1, 1])
    plan["level"] = S.choice(rng, LEVELS, [1, 2, 4, 3, 1, 1])
    plan["run"] = E.gen_run(rng, cfg, alg="GRAPE")
    plan["run"]["stats"] = bool(rng.rand() < 0.7)
    ops = []
    for _ in range(int(S.choice(rng, [2, 4, 7, 12]))):
        o = {"op": S.choice(rng, ["amps", "q", "set", "init"], [4, 5, 1, 0.7])}
        if o["op"] in ("amps", "init"):
            o["seed"] = int(rng.randint(1 << 30))
            o["kind"] = S.choice(rng, ["normal", "one", "row", "same", "zero",
                                       "big"], [4, 3, 3, 1, 1, 1])
            # amplitudes of the odd control that are zero
            o["zero"] = [int(rng.randint(8))
                         for _ in range(int(rng.randint(0, 5)))]
            if rng.rand() < 0.2:
                o["zero"] = list(range(8))
        elif o["op"] == "q":
            o["what"] = S.choice(rng, ["evo", "err", "grad", "both", "props"])
            if rng.rand() < 0.25:
                o["fault"] = {
                    "n": int(rng.randint(1, 3 + 2 * cfg["n_ts"])),
                    "exc": S.choice(rng, EXCS),
                    "when": S.choice(rng, ["before", "after"]),
                }
        elif o["op"] == "set":
            o["what"] = S.choice(rng, ["unit", "tol", "level", "level all"])
            o["to"] = {
                "unit": int(rng.randint(3)),
                "tol": float(S.choice(rng, [1e-10, 1e-4, 0.02, 0.3])),
            }.get(o["what"], S.choice(rng, LEVELS))
        ops.append(o)
    plan["ops"] = ops
    plan["optimise"] = bool(rng.rand() < 0.6)
    plan["dump"] = S.choice(rng, [None, "SUMMARY", "FULL", "nothing"],
                            [5, 1, 1, 2])
    return plan


def simplify(plan):
    ops = plan.get("ops") or []
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    if plan.get("optimise"):
        yield dict(plan, optimise=False)


def odd_parts(plan, parts):
    """Operators whose evolution is not unitary."""
    cfg = plan["cfg"]
    r = np.random.RandomState(cfg["mseed"] + 91)
    n = parts.n
    i = 1.0 if cfg["dyn"] == "UNIT" else -1j
    if cfg["dyn"] == "GEN_MAT":
        # (evolution of these is unitary)
        parts.drift = [-1j * S._herm(r, n) for _ in parts.drift]
        parts.ctrls = [[-1j * S._herm(r, n) for _ in c] for c in parts.ctrls]
    a = r.normal(size=(n, n)) * 0.7
    odd = i * 1j * (a + a.T)
    if plan["odd"] == "tiny":
        odd = odd * 1e-3
    if plan["odd"] == "drift":
        k = r.randint(len(parts.drift))
        parts.drift[k] = parts.drift[k] + odd
    else:
        for cs in parts.ctrls:
            cs[-1] = cs[-1] + odd
    return parts


def body(ctx, plan):
    if plan["mode"] == "pulse":
        return crab(ctx, plan)
    cfg = dict(plan["cfg"])
    with ctx.world(np_seed=plan["run"]["np_seed"],
                   costs=plan["run"]["costs"]) as w:
        parts = None
        if plan["odd"]:
            if cfg["shape"] == "skew":
                cfg["shape"] = "random"
            parts = odd_parts(plan, S.make_parts(cfg))
        Runner(ctx, w, plan, cfg, parts).go()


class Runner:
    def __init__(self, ctx, w, plan, cfg, parts):
        self.ctx, self.w, self.plan, self.cfg = ctx, w, plan, cfg
        self.ep = E.Episode(ctx, w, cfg, plan["run"])
        if parts is not None:
            self.ep.parts = parts
        self.parts = self.ep.parts

    def go(self):
        ctx, plan = self.ctx, self.plan
        dp = S.dyn_params(self.cfg)
        if plan["tol"] is not None:
            dp["unitarity_tol"] = plan["tol"]
        self.tol = plan["tol"] or 1e-10
        self.unit = self.cfg["unit"]
        self.level = plan["level"]
        self.ep.make(dyn_params=dp, log_level=self.level)
        self.o, self.d = self.ep.optim, self.ep.optim.dynamics
        if plan["dump"]:
            self.d.dumping = plan["dump"].replace("nothing", "SUMMARY")
            if plan["dump"] == "nothing":
                self.d.dump.dump_summary = False
        self.reach()
        self.ep.start_pulse()
        self.initialised()
        self.amps = np.array(self.d.ctrl_amps, float)
        self.ref = S.Ref(self.cfg, self.parts)
        ctx.check(self.ref.adopt_tau(self.d), "tau", "tau {}", self.d.tau)
        self.fresh = False  # computed for these amplitudes?
        env.LOG.records = []
        for i, op in enumerate(plan["ops"]):
            self.w.ev("OP", i, sorted(op.items(), key=str))
            getattr(self, "op_" + op["op"])(op)
            env.LOG.records = []
        self.w.faults = []
        self.op_q({"what": "both"})
        if plan["optimise"]:
            self.optimise()

    def reach(self):
        """The level asked for is the one of every component."""
        d = self.d
        for n, x in [("optimizer", self.o), ("dynamics", d),
                     ("config", self.o.config),
                     ("fidelity computer", d.fid_computer),
                     ("propagator computer", d.prop_computer),
                     ("timeslot computer", d.tslot_computer)] + [
                         ("pulse generator", p) for p in gens(self.o)]:
            self.ctx.check(x.log_level == self.level, "level",
                           "log_level {} was asked for, {} has {}",
                           self.level, n, x.log_level)

    def initialised(self):
        # at this level unitary dynamics are checked in any case
        if self.d.log_level <= ql.DEBUG and self.cfg["dyn"] == "UNIT":
            self.unit = max(self.unit, 1)

    # -- steps --------------------------------------------------------------
    def new_amps(self, op):
        n_ts, n_c = self.amps.shape
        a = S.gen_amps(op["seed"], n_ts, n_c, op["kind"], self.amps)
        for k in op["zero"]:
            if k < n_ts:
                a[k, -1] = 0.0
        return a

    def amps_(self, op):
        a = self.new_amps(op)
        if not np.array_equal(a, self.amps):
            self.fresh = False
        self.amps = a.copy()
        return a

    def op_amps(self, op):
        self.ctx.sut(self.d.update_ctrl_amps, self.amps_(op))

    def op_init(self, op):
        a = self.amps_(op)
        self.ctx.sut(self.d.initialize_controls, a)
        self.initialised()
        self.fresh = False

    def op_set(self, op):
        if op["what"] == "unit":
            self.d.unitarity_check_level = self.unit = op["to"]
        elif op["what"] == "tol":
            self.d.unitarity_tol = self.tol = op["to"]
        else:
            for x in [self.d] + (
                    [self.o, self.d.fid_computer, self.d.tslot_computer]
                    if op["what"] == "level all" else []):
                x.log_level = op["to"]
                self.ctx.check(x.log_level == op["to"], "level",
                               "log_level {} for {}", x.log_level, op["to"])

    def op_q(self, op):
        fc, d = self.d.fid_computer, self.d
        w = self.w
        f = op.get("fault")
        if f:
            w.faults = [{"seam": "la", "n": w.counts.get("la", 0) + f["n"],
                         "act": "raise", "exc": f["exc"], "when": f["when"]}]
        env.LOG.records = []
        err = grad = None
        failed = False
        try:
            if op["what"] in ("evo", "props"):
                self.ctx.sut(d.compute_evolution)
            if op["what"] in ("err", "both"):
                err = self.ctx.sut(fc.get_fid_err)
            if op["what"] in ("grad", "both"):
                grad = np.array(self.ctx.sut(fc.get_fid_err_gradient))
        except BaseException as e:
            if not getattr(e, "sim_injected", False):
                raise
            failed = True
            self.ctx.probe("broken off")
        w.faults = []
        recs = list(env.LOG.records)
        if failed:
            # (what was finished before is reported; no more than that)
            self.unitarity(recs, None)
            self.fresh = None if self.fresh is False else self.fresh
            return
        least = {False: 1, None: 0, True: -1}[self.fresh]
        self.unitarity(recs, least)
        n = sum(r[0] == ql.WARN and "nothing dumped" in r[2] for r in recs)
        if self.plan["dump"] == "nothing" and d.tslot_computer.log_level <= ql.WARN:
            self.ctx.check(n == 0 if least < 0 else n > 0 or not least,
                           "nothing dumped", "said {} times", n)
            self.ctx.probe("nothing dumped")
        elif self.plan["dump"] != "nothing":
            self.ctx.check(n == 0, "nothing dumped", "said {} times with {}", n,
                           self.plan["dump"])
        self.fresh = True
        self.figures(recs, fc, err, grad)

    # -- what was reported ---------------------------------------------------
    def deviations(self):
        out = []
        for P in self.ctx.sut(lambda: [S.full(p) for p in self.d.prop]):
            M = P @ P.conj().T
            D = np.abs(M - np.eye(len(P)))
            hi = D > 3 * (self.tol + 1e-5 * np.abs(M))
            lo = D < (self.tol + 1e-5 * np.abs(M)) / 3 - 1e-13
            out.append(True if hi.any() or not np.isfinite(D).all()
                       else False if lo.all() else None)
        return out

    def unitarity(self, recs, least):
        """least: 1 if there was a recomputation, -1 if none, 0 unknown."""
        ctx, d = self.ctx, self.d
        got = {}
        for lvl, name, msg in recs:
            if lvl == ql.WARN and "unitary" in msg:
                ks = re.findall(r"\d+", msg)
                ctx.check(len(ks) == 1, "report", "{!r}", msg)
                got[int(ks[0])] = got.get(int(ks[0]), 0) + 1
        info = [re.search(r"prop unit: (\w+); H herm: (\w+); eigval unit: "
                          r"(\w+); eigvec unit: (\w+)", msg)
                for lvl, _, msg in recs]
        info = [m.groups() for m in info if m]
        if least is None or d.log_level > ql.WARN or not self.unit:
            if not self.unit:
                ctx.check(not got, "unitarity", "reported {} without being "
                          "asked", got)
            return
        if least < 0:
            ctx.check(not got and not info, "unitarity", "reported {} {} "
                      "although nothing was computed", got, info[:2])
            return
        dev = self.deviations()
        times = max(got.values()) if got else least
        for k, bad in enumerate(dev):
            if bad is None:
                continue
            n = got.get(k, 0)
            if least > 0 or got or info:
                ctx.check((n >= 1) == bad, "unitarity", "time slot {} reported "
                          "as not unitary {} times, it is {}unitary (tolerance "
                          "{}, slots {})", k, n, "not " if bad else "", self.tol,
                          dev)
            ctx.check(not bad or n in (0, times), "unitarity", "reported {} "
                      "times, others {}", n, times)
        ctx.check(all(k < len(dev) for k in got), "unitarity", "reported {} of "
                  "{} time slots", sorted(got), len(dev))
        ctx.probe("unitarity compared")
        if True in dev:
            ctx.probe("not unitary")
            if False in dev:
                ctx.probe("some slots not unitary")
        ctx.state(self.cfg["dyn"], self.cfg["prop_eff"], d.log_level, self.unit,
                  tuple(dev))
        if (self.cfg["dyn"] != "UNIT" or d.log_level > ql.INFO
                or None in dev):
            return
        slots = [k for k, bad in enumerate(dev) if bad or self.unit > 1]
        if least > 0:
            ctx.check(len(info) >= len(slots), "causes", "causes reported {} "
                      "times, for time slots {}", len(info), slots)
        if not slots or not info:
            ctx.check(not info, "causes", "reported {}", info[:2])
            return
        ctx.check(len(info) % len(slots) == 0, "causes", "causes reported {} "
                  "times, for time slots {}", len(info), slots)
        for i, (unit, herm, val, vec) in enumerate(info):
            k = slots[i % len(slots)]
            H = self.ref.dyn_gen(self.amps, k)
            h = np.max(np.abs(H - H.conj().T))
            ctx.check(unit == str(not dev[k]), "causes", "slot {}: {} {}", k,
                      unit, dev[k])
            if h > 1e-9 or h < 1e-14:
                ctx.check(herm == str(bool(h < 1e-12)), "causes", "slot {}: "
                          "Hermitian {}, deviation {}", k, herm, h)
            diag = self.cfg["prop_eff"] == "DIAG"
            ctx.check((val != "None") == (vec != "None") == diag, "causes",
                      "eigenvalues {} eigenvectors {} with {}", val, vec,
                      self.cfg["prop_eff"])
        ctx.probe("causes compared")

    def figures(self, recs, fc, err, grad):
        """Figures in the messages are those of the pulse applied."""
        ctx, ref, amps = self.ctx, self.ref, self.amps
        if self.plan["odd"] and self.cfg["prop_eff"] == "DIAG":
            return  # (only meant for Hermitian operators)
        for lvl, name, msg in recs:
            m = re.match(r"Fidelity \(normalised\): (\S+)$", msg)
            if m and ref.meaningful(amps):
                U = ref.evolve(amps)["fwd"][-1]
                f = ref.overlap(U) / ref.norm()
                f = abs(f) if ref.phase == "PSU" else f.real
                ctx.check(abs(float(m.group(1)) - f) <= ref.err_tol(amps),
                          "figures", "{!r}, fidelity is {}", msg, f)
                ctx.probe("figures compared")
            m = re.match(r"Fidelity error: (\S+)$", msg)
            if m:
                ctx.check(ref.err_close(float(m.group(1)), amps), "figures",
                          "{!r}, error is {}", msg, ref.fid_err(amps))
                ctx.probe("figures compared")
            m = re.match(r"Gradient( \(sum sq norm\)| norm): (\S+) ?$", msg)
            if m and grad is not None and np.isfinite(grad).all():
                n = float(np.sqrt((grad ** 2).sum()))
                ctx.check(abs(float(m.group(2)) - n) <= 1e-9 * (1 + n),
                          "figures", "{!r}, norm is {}", msg, n)
                ctx.probe("figures compared")

    def optimise(self):
        ctx, ep = self.ctx, self.ep
        env.LOG.records = []
        ep.optimise()
        recs = list(env.LOG.records)
        res = ep.result
        kinds = [e["t"] for e in ep.events]
        n = {"fidelity error call": kinds.count("f"),
             "gradient call": kinds.count("g"),
             "Iteration callback": kinds.count("cb")}
        for words, num in n.items():
            got = [int(m.group(1)) for m in
                   (re.match(words + r" (\d+)$", r[2]) for r in recs) if m]
            if not got or (res is None or ep.run["approx"]):
                continue
            ctx.check(got == list(range(1, num + 1)), "numbers", "{!r} {} for "
                      "{} events", words, got, num)
            ctx.probe("numbers compared")
        for r in recs:
            m = re.match(r"The number of iterations counted (\d+) +does not "
                         r"match the number reported (\d+) by", r[2])
            if m:
                got = [int(x) for x in m.groups()]
                ctx.check(got[0] != got[1] and (
                    res is None or got[0] == n["Iteration callback"]),
                    "iterations", "{!r}: {} iterations", r[2],
                    n["Iteration callback"])
                ctx.probe("iterations differ")
        bad = [r for r in recs if r[2].startswith("UNFORMATTABLE")]
        ctx.check(not bad, "message", "{}", bad[:2])




def gens(o):
    p = o.pulse_generator
    return list(p) if isinstance(p, list) else [p] if p is not None else []


def crab(ctx, plan):
    """Settings of a generator that are ignored."""
    with ctx.world(np_seed=plan["seed"]):
        r = np.random.RandomState(plan["seed"])
        n = plan["dim"]
        from qutip import Qobj
        import qutip_qtrl.pulseoptim as cpo

        def h():
            return Qobj(S._herm(r, n))
        params = {}
        if plan["guess"]:
            params["guess_pulse"] = r.normal(size=5)
        if plan["action"] != "MODULATE" or plan["seed"] % 2:
            params["guess_pulse_action"] = plan["action"]
        o = ctx.sut(
            cpo.create_pulse_optimizer, h(), [h()], Qobj(np.eye(n)),
            Qobj(np.eye(n)), num_tslots=5, evo_time=2.0, alg="GRAPE",
            dyn_type="UNIT", init_pulse_type="RND", log_level=plan["level"])
        p = ctx.sut(pulsegen.create_pulse_gen, "CRAB_FOURIER", o.dynamics,
                    pulse_params=params)
        if plan["warn"] is not None:
            p.NUM_COEFFS_WARN_LVL = plan["warn"]
        ctx.check(p.log_level == plan["level"], "level", "log_level {} of the "
                  "generator, {} of the dynamics", p.log_level, plan["level"])
        num = plan["num"]
        for i in range(plan["times"]):
            env.LOG.records = []
            # (once estimated, the number is the one of the generator)
            est = num is None and i == 0
            ctx.sut(p.init_pulse, num_coeffs=num)
            recs = [m for lvl, _, m in env.LOG.records if lvl == ql.WARN]
            want = num or max(2, n - 1)
            ctx.check(p.num_coeffs == want, "coefficients", "{} of dimension {}",
                      p.num_coeffs, n)
            seen = plan["level"] <= ql.WARN
            ig = [m for m in recs if "ignored" in m]
            a = plan["action"]
            known = isinstance(a, str) and a.upper() in ("MODULATE", "ADD")
            ctx.check(len(ig) == int(seen and plan["guess"] and not known),
                      "ignored", "guess pulse {} action {!r}: {}",
                      plan["guess"], a, ig)
            if ig and a:
                ctx.check(a in ig[0], "ignored", "action {!r}: {}", a, ig)
            many = [m for m in recs if "exceeds" in m]
            if est or not num:
                lim = plan["warn"]
                if lim is None:
                    lim = p.NUM_COEFFS_WARN_LVL
                if i == 0:
                    ctx.check(len(many) == int(seen and want > lim), "many",
                              "{} coefficients estimated, recommended {}: {}",
                              want, lim, many)
                if many:
                    ctx.check(sorted(map(int, re.findall(r"\d+", many[0])))
                              == sorted([want, lim]), "many", "{!r}: {} {}",
                              many[0], want, lim)
            else:
                ctx.check(not many, "many", "{} coefficients given: {}", num,
                          many)
            ctx.check(len(recs) == len(ig) + len(many), "report", "{}", recs)
            pulse = ctx.sut(p.gen_pulse)
            ctx.check(np.shape(pulse) == (5,), "pulse", "{}", pulse)
            ctx.probe("generator compared")
            ctx.state("pulse", a, plan["guess"], plan["level"], bool(many))


def nontrivial(out):
    return bool(
        out.probes.get("unitarity compared") or out.probes.get("figures compared")
        or out.probes.get("numbers compared")
        or out.probes.get("generator compared"))
