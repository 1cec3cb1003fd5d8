"""C18: what is refused is refused with an error, and leaves no trace."""
import contextlib
import io
import os

import numpy as np
from qutip import Qobj, identity

from .. import env  # noqa: F401  (chooses the library)
from .. import systems as S
from .. import episode as E
from .. import trace as T
from .c10 import attributes
from .c11 import dumps

import qutip_qtrl.dump as dump
import qutip_qtrl.dynamics as dynamics
import qutip_qtrl.errors as errors
import qutip_qtrl.fidcomp as fidcomp
import qutip_qtrl.grape as grape
import qutip_qtrl.loadparams as loadparams
import qutip_qtrl.optimconfig as optimconfig
import qutip_qtrl.optimizer as optimizer
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.pulseoptim as cpo
import qutip_qtrl.termcond as termcond
import qutip_qtrl.tslotcomp as tslotcomp

ID = "C18"
RULE = (
    "One run = a random problem optimised once or twice with the same "
    "objects, and the same history again with requests mixed in that cannot "
    "be fulfilled - at any moment: after creation, before and after the "
    "initialisation, between the runs, and inside the calls that the "
    "minimiser makes: invalid values for settings, computers that do not fit, "
    "runs without goal, conditions, dynamics or initialised controls, wrong "
    "pulse generators, incomplete systems, output that is not there, invalid "
    "options of every entry point. Some runs are aborted by an injected "
    "exception. Each such request must end with an error of the documented "
    "kind, and after what was taken away is put back everything that the "
    "minimiser sees, results, statistics, settings and dumps must be equal "
    "bit for bit to the history without them. Non-trivial when a request was "
    "refused. States: (request, moment, classes)."
)
ASSUMPTIONS = [
    "an error of the documented kind is UsageError, ValueError, TypeError or "
    "RuntimeError",
    "an attribute that was replaced by an invalid value is put back by the "
    "user; initialize_controls is called again after it refused",
    "the clock and the random stream are set back after a refused request",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer"]
STUB = ["clock", "minimiser (scripted)", "file system"]
TECHNIQUE = (
    "random histories with refused requests at simulated moments; twin run "
    "without them compared bit for bit"
)
LEVEL_NOTE = "Seeded sampling of problems, requests and moments."
N_QUICK = 6000
N_THOROUGH = 60000

EXCS = ["MemoryError", "LinAlgError", "KeyboardInterrupt", "RuntimeError"]
ERRORS = (errors.UsageError, ValueError, TypeError, RuntimeError)


@contextlib.contextmanager
def replaced(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(obj, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


# ---------------------------------------------------------------------------
# the requests; each returns "n/a" when it makes no sense here
# ---------------------------------------------------------------------------

EARLY = ("made", "between")  # initialize_controls follows
IDLE = ("made", "ready", "after1", "between", "after2")
ALL = IDLE + ("mid",)
REQUESTS = {}


def request(moments, *names):
    def deco(f):
        for n in names or (f.__name__,):
            REQUESTS[n] = (moments, f, n)
        return f
    return deco


def dyn_of(ep):
    return ep.optim.dynamics


@request(ALL, "dumping number", "dumping name")
def dumping(ep, w, what, pick):
    o = [ep.optim, dyn_of(ep)][pick % 2]
    o.dumping = 7 if what.endswith("number") else "BAD"


@request(ALL, "dump level number", "dump level name")
def level(ep, w, what, pick):
    d = [ep.optim, dyn_of(ep)][pick % 2].dump
    if d is None:
        return "n/a"
    d.level = 5 if what.endswith("number") else "NOPE"


@request(ALL, "dump file base", "dump summary file")
def dumpname(ep, w, what, pick):
    d = [ep.optim, dyn_of(ep)][pick % 2].dump
    if d is None:
        return "n/a"
    setattr(d, "fname_base" if what.endswith("base") else "summary_file", 3)


@request(ALL, "dump to text stream")
def textstream(ep, w, what, pick):
    d = [ep.optim, dyn_of(ep)][pick % 2].dump
    if d is None:
        return "n/a"
    if pick % 3 == 0:
        items = getattr(d, "evo_dumps", [])
        if not items:
            return "n/a"
        d = items[pick % len(items)]
    with open(os.path.join(w.scratch, "text"), "w") as f:
        d.writeout(f)


@request(ALL, "dump without dump")
def dumpcurrent(ep, w, what, pick):
    dyn = dyn_of(ep)
    if dyn.dump is not None:
        return "n/a"
    dyn.tslot_computer.dump_current()


@request(("made", "ready"), "iteration summary")
def itersum(ep, w, what, pick):
    o = ep.optim
    if o.dump is None or o.iter_summary is not None:
        return "n/a"
    o.dump.add_iter_summary()


@request(ALL, "phase application number", "phase application name",
         "phase application none")
def phaseapp(ep, w, what, pick):
    dyn_of(ep).phase_application = {
        "number": 7, "name": "NOPE", "none": 0.5}[what.split()[-1]]


@request(ALL, "phase option none", "phase option name")
def phaseoption(ep, w, what, pick):
    fc = dyn_of(ep).fid_computer
    if not isinstance(fc, fidcomp.FidCompUnitary):
        return "n/a"
    fc.phase_option = None if what.endswith("none") else "NOPE"


@request(IDLE, "phase option method")
def phasemethod(ep, w, what, pick):
    fc = dyn_of(ep).fid_computer
    if not isinstance(fc, fidcomp.FidCompUnitary):
        return "n/a"
    fc.set_phase_option("NOPE")


@request(ALL, "fidelity computer that does not fit")
def fidfit(ep, w, what, pick):
    dyn = dyn_of(ep)
    if dyn.prop_computer.grad_exact:
        return "n/a"
    fidcomp.FidCompTraceDiff(dyn)


@request(ALL, "component of nothing")
def nothing(ep, w, what, pick):
    [tslotcomp.TSlotCompUpdateAll, dump.OptimDump, dump.DynamicsDump,
     dump.EvoCompDumpItem, tslotcomp.TimeslotComputer][pick % 5](5)


@request(ALL, "base class")
def baseclass(ep, w, what, pick):
    dyn = dyn_of(ep)
    k = pick % 5
    if k == 0:
        fidcomp.FidelityComputer(dyn).get_fid_err()
    elif k == 1:
        fidcomp.FidelityComputer(dyn).get_fid_err_gradient()
    elif k == 2:
        pulsegen.PulseGen(dyn).gen_pulse()
    elif k == 3:
        pulsegen.create_pulse_gen("NOPE", dyn)
    else:
        pulsegen.create_pulse_gen(7, dyn)


@request(ALL, "unreadable parameters")
def params(ep, w, what, pick):
    loadparams.load_parameters(
        os.path.join(w.scratch, "nothing.ini"),
        optim=ep.optim, dynamics=dyn_of(ep))


@request(ALL, "parameters without section")
def params2(ep, w, what, pick):
    """The section of a general object is not given."""
    path = os.path.join(w.scratch, "some.ini")
    with open(path, "w") as f:
        f.write("[dynamics]\nmemory_optimization = 7\nunitarity_tol = 0.5\n"
                "[optimizer]\nalg = NOPE\nmethod = x\n"
                "[termconds]\nmax_iterations = 0\n[extra]\nx = 1\n")
    try:
        loadparams.load_parameters(
            path, optim=[ep.optim, None][pick % 2], dynamics=dyn_of(ep),
            term_conds=ep.optim.termination_conditions,
            obj=[ep.optim, dyn_of(ep), object()][pick % 3],
            section=[None, 7][pick % 2])
    finally:
        os.remove(path)


@request(IDLE, "conditions of the wrong kind")
def conditions(ep, w, what, pick):
    x = ["x", 7, {}, [], object(), termcond.TerminationConditions][pick % 6]
    [ep.optim.run_optimization, ep.optim.init_optim][pick % 2](x)


@request(ALL, "check of conditions")
def conditions2(ep, w, what, pick):
    ep.optim.init_optim(["x", 7, {}, []][pick % 4])


@request(IDLE, "no conditions")
def noconditions(ep, w, what, pick):
    with replaced(ep.optim, termination_conditions=None):
        ep.optim.run_optimization()


@request(IDLE, "no goal")
def nogoal(ep, w, what, pick):
    tc = ep.optim.termination_conditions
    ctrls = getattr(dyn_of(ep), "_ctrls_initialized", True)
    if not ctrls:
        return "n/a"
    with replaced(tc, fid_err_targ=None, fid_goal=None):
        ep.optim.run_optimization()


@request(IDLE, "other conditions without goal")
def nogoal2(ep, w, what, pick):
    tc = termcond.TerminationConditions()
    tc.fid_err_targ = tc.fid_goal = None
    with replaced(ep.optim,
                  termination_conditions=ep.optim.termination_conditions):
        ep.optim.run_optimization(tc)


@request(IDLE, "no dynamics")
def nodynamics(ep, w, what, pick):
    with replaced(ep.optim, dynamics=[None, 5, "UNIT"][pick % 3]):
        ep.optim.run_optimization()


@request(("made",), "run before initialisation")
def tooearly(ep, w, what, pick):
    [ep.optim.run_optimization, ep.optim.init_optim][pick % 2](
        [None, ep.optim.termination_conditions][pick % 2])


@request(("made",), "check of initialisation")
def tooearly2(ep, w, what, pick):
    dyn_of(ep).check_ctrls_initialized()


@request(IDLE, "CRAB generators none", "CRAB generators not a list",
         "CRAB generators too few", "CRAB generators too many",
         "CRAB generators of another kind")
def crab(ep, w, what, pick):
    o = ep.optim
    if not isinstance(o, optimizer.OptimizerCrab):
        return "n/a"
    pg = o.pulse_generator
    new = {
        "none": None, "list": pg[0], "few": list(pg)[:-1],
        "many": list(pg) + [pg[0]],
        "kind": [pulsegen.PulseGenZero(dyn_of(ep)) for _ in pg],
    }[what.split()[-1]]
    with replaced(o, pulse_generator=new):
        o.run_optimization()


GENS = [
    ("RND", {}), ("LIN", {"start_val": -0.5, "end_val": 0.25}),
    ("LIN", {"gradient": 0.25, "start_val": 0.0}),
    ("SINE", {"num_waves": 2.0}), ("SQUARE", {"wavelen": 0.7}),
    ("SAW", {"num_waves": 1.5}), ("TRIANGLE", {"start_phase": 0.5}),
    ("GAUSSIAN", {"mean": 0.3}), ("GAUSSIAN_EDGE", {}), ("RNDFOURIER", {}),
    ("RNDWAVES", {}), ("RNDWALK1", {}), ("RNDWALK2", {}), ("ZERO", {}),
    ("CRAB_FOURIER", {"num_coeffs": 2}),
]


def generator(kind, params, lb, ub):
    g = pulsegen.create_pulse_gen(kind)
    g.num_tslots, g.pulse_time = 6, 2.0
    g.tau = np.ones(6) / 3
    g.lbound, g.ubound = lb, ub
    for k, v in params.items():
        setattr(g, k, v)
    return g


def later(ep, g, h, *args):
    """Put right, a generator works like one that was right at once."""
    st = np.random.get_state()
    try:
        a = g.gen_pulse(*args)
    except Exception as e:
        ep.same = ("{} ({!r})".format(g.__class__.__name__, e), np.zeros(0),
                   np.ones(1))
        return
    np.random.set_state(st)
    b = h.gen_pulse(*args)
    ep.same = (g.__class__.__name__, np.asarray(a).copy(), np.asarray(b).copy())


@request(ALL, "pulse bounds")
def pulsebounds(ep, w, what, pick):
    kind, params = GENS[pick % len(GENS)]
    g = generator(kind, params, 1.0, -1.0)
    h = generator(kind, params, -1.0, 1.0)
    try:
        g.init_pulse()
    finally:
        g.lbound, g.ubound = -1.0, 1.0
        later(ep, g, h)


@request(ALL, "wavelength")
def wavelength(ep, w, what, pick):
    kind = ["RNDFOURIER", "RNDWAVES"][pick % 2]
    g, h = generator(kind, {}, None, None), generator(kind, {}, None, None)
    good = {}
    if pick % 5:
        good = {"min_wavelen": 0.5}
        if pick % 2:
            good["max_wavelen"] = 1.0
        for x in (g, h):
            for k, v in good.items():
                setattr(x, k, v)
    try:
        if pick % 2 and pick % 3:
            g.gen_pulse(3, 0.7, 0.6) if pick % 7 else g.gen_pulse(
                min_wavelen=0.7, max_wavelen=0.7)
        else:
            g.gen_pulse(min_wavelen=2.5)
    finally:
        later(ep, g, h)


def one_bad(dyn, bad, pick):
    """Time dependent controls where a single operator is none."""
    c = np.empty((dyn.num_tslots, 1 + pick % 2), dtype=object)
    for k in range(c.size):
        c.flat[k] = dyn.target
    c.flat[pick % c.size] = bad
    return c if pick % 3 else c.tolist()


@request(EARLY, "target", "initial", "drift", "controls", "control inside",
         "drift inside", "control array")
def operators(ep, w, what, pick):
    dyn = dyn_of(ep)
    bad = [None, 5, np.eye(2), "x"][pick % 4]
    if what == "target":
        kw = {"target": bad}
    elif what == "initial":
        kw = {"initial": bad}
    elif what == "drift":
        kw = {"drift_dyn_gen": bad}
    elif what == "drift inside":
        kw = {"drift_dyn_gen": [dyn.target, bad][::pick % 2 * 2 - 1]}
    elif what == "controls":
        kw = {"ctrl_dyn_gen": [5, object(), "x"][pick % 3]}
    elif what == "control inside":
        kw = {"ctrl_dyn_gen": [bad]}
    else:
        kw = {"ctrl_dyn_gen": np.array([dyn.target], dtype=object)
              if pick % 5 == 0 else np.full((2, 2), 5, dtype=object)
              if pick % 5 == 1 else one_bad(dyn, bad, pick)}
    if what.startswith("drift"):
        # (an optimiser made for the user has been checked)
        d = [dynamics.DynamicsGenMat, dynamics.DynamicsUnitary,
             dynamics.DynamicsSymplectic][pick % 3](optimconfig.OptimConfig())
        d.num_tslots, d.evo_time = 2, 1.0
        d.ctrl_dyn_gen = [identity(2)]
        d.initial = d.target = identity(2)
        d.drift_dyn_gen = kw["drift_dyn_gen"]
        d.initialize_controls(np.zeros((2, 1)))
        return
    with replaced(dyn, **kw):
        dyn.initialize_controls(np.zeros((2, 1)))


@request(EARLY, "no propagator computer", "no fidelity computer",
         "no timeslot computer")
def computers(ep, w, what, pick):
    dyn = dyn_of(ep)
    n = {"p": "prop_computer", "f": "fid_computer", "t": "tslot_computer"}[
        what.split()[1][0]]
    with replaced(dyn, **{n: [None, 5, dyn][pick % 3]}):
        dyn.initialize_controls(np.zeros((2, 1)))


@request(EARLY, "sparse decomposition of a qubit")
def sparse(ep, w, what, pick):
    dyn = dyn_of(ep)
    if ep.cfg["dim"] != "2" or ep.cfg["dyn"] != "UNIT":
        return "n/a"
    with replaced(dyn, sparse_eigen_decomp=True):
        dyn.initialize_controls(np.zeros((2, 1)))


@request(EARLY, "operator type")
def opertype(ep, w, what, pick):
    dyn = dyn_of(ep)
    if dyn.oper_dtype is None:
        return "n/a"
    with replaced(dyn, oper_dtype=[float, "ndarray", 7, list][pick % 4]):
        dyn.initialize_controls(np.zeros((2, 1)))


BADKW = {
    "alg": {"alg": "NONE"}, "alg none": {"alg": None},
    "dyn_type": {"dyn_type": "NONE"}, "prop_type": {"prop_type": "NONE"},
    "fid_type": {"fid_type": "NONE"},
    "method": {"alg": "GRAPE", "optim_method": "FMIN"},
    "method empty": {"optim_method": ""},
    "no time": {"num_tslots": None, "tau": None},
    "no duration": {"evo_time": None, "tau": None},
    "fid and prop": {"dyn_type": "UNIT", "fid_type": "TRACEDIFF", "prop_type": "APPROX",
                     "fid_params": None},
    "phase": {"dyn_type": "UNIT", "fid_type": "UNIT", "prop_type": "DEF",
              "fid_params": {"phase_option": "NOPE"}},
    "pulse": {"init_pulse_type": "NOPE", "alg": "GRAPE",
              "optim_method": "DEF", "alg_params": None},
    "initial": {"initial": 5}, "target": {"target": None},
    "ctrls": {"ctrls": 5}, "ctrls inside": {"ctrls": [5]},
    "drift": {"drift": 5}, "drift inside": {"drift": [5]},
    "dump": {"optim_params": {"dumping": 7}},
    "dump name": {"dyn_params": {"dumping": "NOPE"}},
}


@request(ALL, *["entry: " + k for k in BADKW])
def entry(ep, w, what, pick):
    bad = dict(BADKW[what[7:]])
    fn, pos, kw = E.function_call(ep.cfg, ep.run, ep.parts, "optimize_pulse")
    # (the level is shared by everything)
    kw["log_level"] = ep.optim.log_level
    for i, n in enumerate(["drift", "ctrls", "initial", "target"]):
        if n in bad:
            pos[i] = bad.pop(n)
    kw.update(bad)
    if pick % 2:
        fn = cpo.create_pulse_optimizer
    fn(*pos, **kw)


@request(ALL, "entry: unitary, wrong phase", "entry: unitary, wrong options")
def entry_unitary(ep, w, what, pick):
    drift, ctrls, initial, target = S.qobjs(ep.cfg, ep.parts)
    kw = dict(num_tslots=3, evo_time=1.0, max_iter=1,
              log_level=ep.optim.log_level)
    if ep.cfg["dyn"] != "UNIT":
        drift, ctrls, initial, target = [
            f if i != 1 else [f] for i, f in enumerate([identity(2)] * 4)]
    if what.endswith("phase"):
        kw["phase_option"] = "NOPE"
    else:
        kw["optim_method"] = ""
    cpo.optimize_pulse_unitary(drift, ctrls, initial, target, **kw)


@request(ALL, "u_limits")
def ulimits(ep, w, what, pick):
    U = identity(2)
    fn = [grape.grape_unitary, grape.cy_grape_unitary,
          grape.grape_unitary_adaptive][pick % 3]
    fn(U, U, [U], 2, np.linspace(0, 1, 4),
       u_limits=[[1], [1, 2, 3], [0.0]][pick % 3])


# ---------------------------------------------------------------------------


def gen(rng, tier):
    cfg = S.gen_config(rng, small=True)
    run = E.gen_run(rng, cfg, alg="CRAB" if rng.rand() < 0.25 else None,
                    scripted=True if rng.rand() < 0.9 else None)
    tc = run["tc"]
    tc["max_calls"] = min(tc["max_calls"] or 12, 12)
    names = sorted(REQUESTS)
    plan = {
        "cfg": cfg, "run": run, "faults": [], "requests": [],
        "again": bool(rng.rand() < 0.4),
        "tc": bool(rng.rand() < 0.3),
        "dump": S.choice(rng, [None, "SUMMARY", "FULL"], [2, 1, 1]),
        "level": S.choice(rng, [None, 10, 20], [6, 1, 1]),
    }
    for _ in range(int(S.choice(rng, [1, 2, 4, 8]))):
        n = S.choice(rng, names)
        ms = [m for m in REQUESTS[n][0]
              if plan["again"] or m not in ("between", "after2")]
        plan["requests"].append({
            "what": n, "when": S.choice(rng, ms), "pick": int(rng.randint(60)),
            "at": int(rng.randint(0, 12)),
        })
    if rng.rand() < 0.2:
        plan["faults"].append({
            "seam": S.choice(rng, ["la", "min.f", "min.g", "min.cb"]),
            "n": int(rng.randint(1, 25)), "act": "raise",
            "exc": S.choice(rng, EXCS),
            "when": S.choice(rng, ["before", "after"])})
    return plan


SHRINK_FIXED = ("cfg",)
# these belong to the run, and begin again with the next request to run
COUNTERS = {"optim.num_iter", "optim.num_fid_func_calls",
            "optim.num_grad_func_calls", "optim.num_optim_vars",
            "optim.iteration_steps", "optim.iter_summary",
            "optim.wall_time_optimize_start"}


def settings(o, scratch):
    """What can be seen of the settings (not the caches)."""
    d = {k: v for k, v in attributes(o, scratch).items()
         if not k.rsplit(".", 1)[-1].startswith("_")}
    dyn = o.dynamics
    objs = {"optim": (o, ["dumping", "dump_dir"]),
            "dyn": (dyn, ["dumping", "dump_dir", "phase_application",
                          "num_ctrls", "num_tslots"]),
            "fid": (dyn.fid_computer, ["phase_option"])}
    for n, x in (("optim", o.dump), ("dyn", dyn.dump)):
        if x is not None:
            objs[n + ".dump"] = (x, [
                "level", "fname_base", "summary_file", "dump_summary",
                "write_to_file", "dump_any", "dump_all"])
    for n, (x, names) in objs.items():
        for k in names:
            d[n + "." + k] = repr(getattr(x, k, None)).replace(scratch, "")
    return d


def history(ctx, plan, requests):
    """One optimisation (or two); with or without the requests."""
    cfg, run = plan["cfg"], plan["run"]
    out = {"sigs": []}
    with ctx.world(np_seed=run["np_seed"], faults=plan["faults"],
                   costs=run["costs"]) as w:
        calls = [0]
        busy = [False]

        def ask(moment, at=None):
            for r in requests:
                if r["when"] == moment and (at is None or r["at"] == at):
                    refuse(ctx, w, ep, r)

        def observer(kind, when, e):
            if when == "before" and not busy[0] and requests:
                calls[0] += 1
                busy[0] = True
                ask("mid", calls[0] - 1)
                busy[0] = False

        ep = E.Episode(ctx, w, cfg, run, observer=observer)
        over = {}
        if plan["dump"]:
            over["optim_params"] = {"dumping": plan["dump"]}
            over["dyn_params"] = dict(S.dyn_params(cfg), dumping=plan["dump"])
        if plan["level"] is not None:
            over["log_level"] = plan["level"]
        ep.make(**over)
        ask("made")
        ep.start_pulse()
        ask("ready")
        tc = None
        if plan["tc"]:
            tc = termcond.TerminationConditions()
            for k, v in vars(ep.optim.termination_conditions).items():
                setattr(tc, k, v)
        ep.optimise(tc)
        out["sigs"].append(T.of_episode(ep, times=True, stats=True))
        ask("after1")
        if plan["again"]:
            amps = np.array(ep.amps0, float) * 0.5
            ask("between")
            ep.start_pulse(amps)
            ep.minim.events, ep.minim.starts = [], []
            ep.optimise()
            out["sigs"].append(T.of_episode(ep, times=True, stats=True))
            ask("after2")
        out["attrs"] = settings(ep.optim, w.scratch)
        out["dumps"] = dumps(ep.optim)
        o = ep.optim
        out["files"] = []
        for d in (o.dump, o.dynamics.dump):
            if d is not None:
                # how the names of the files follow from the settings
                ctx.sut(setattr, d, "fname_base", "other")
                ctx.sut(setattr, d, "dump_dir", os.path.join(w.scratch, "dd"))
                out["files"].append(
                    str(d.summary_file).replace(w.scratch, ""))
        out["tc"] = {k: repr(v) for k, v in
                     vars(o.termination_conditions).items()}
        out["ended"] = type(ep.exc).__name__ if ep.exc is not None else None
    return out


def refuse(ctx, w, ep, r):
    moments, fn, what = REQUESTS[r["what"]]
    rs, now, counts = np.random.get_state(), w.now, dict(w.counts)
    faults, w.faults = w.faults, []
    minim = w.minim
    events, starts = list(ep.minim.events), list(ep.minim.starts)
    ep.same = None
    o = ep.optim
    ready = None
    had = (o.termination_conditions, o.dynamics, o.pulse_generator, o.stats,
           o.config)
    w.minim = Never()
    left = standing(o, w.scratch, what)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ans = fn(ep, w, what, r["pick"])
    except ERRORS as e:
        if isinstance(e, NotImplementedError) or isinstance(e, RecursionError):
            ctx.fail("wrong error", "{!r} at {!r}: {!r}", what, r["when"], e)
        w.ev("refused", what, r["when"], type(e).__name__)
        if r["when"] == "made":
            # nothing has been initialised yet
            try:
                o.run_optimization()
            except ERRORS:
                pass
            except Started:
                ready = "an optimisation was started"
        ctx.probe("refused")
        ctx.probe("refused: " + what)
        ctx.state(what, r["when"], ep.cfg["dyn"], type(e).__name__)
    except Exception as e:
        if isinstance(e, Started):
            ctx.fail("accepted", "{!r} at {!r}: the optimisation was started",
                     what, r["when"])
        ctx.fail("wrong error", "{!r} at {!r}: {!r}", what, r["when"], e)
    else:
        if ans != "n/a":
            ctx.fail("accepted", "{!r} at {!r} raised no error", what,
                     r["when"])
    finally:
        w.minim = minim
        ep.minim.events[:], ep.minim.starts[:] = events, starts
        w.faults, w.counts, w.now = faults, counts, now
        np.random.set_state(rs)
    ctx.check(ready is None, "accepted", "after {!r} was refused at {!r}, before "
              "any initialisation, {}", what, r["when"], ready)
    ctx.check(
        all(x is y for x, y in zip(had, (
            o.termination_conditions, o.dynamics, o.pulse_generator, o.stats,
            o.config))),
        "settings", "{!r} at {!r} was refused, but replaced components: {!r}",
        what, r["when"], o.termination_conditions)
    now_left = standing(o, w.scratch, what)
    bad = {k: (left.get(k), now_left.get(k))
           for k in sorted(set(left) | set(now_left))
           if left.get(k) != now_left.get(k)}
    ctx.check(not bad, "standing", "{!r} at {!r} was refused, but before / "
              "after it: {}", what, r["when"], bad)
    if ep.same is not None:
        n, a, b = ep.same
        ctx.check(a.shape == b.shape and a.tobytes() == b.tobytes(), "later",
                  "{}: pulse of a generator put right after a refusal / of a "
                  "new one: {} / {}", n, a, b)


def standing(o, scratch, what):
    """Settings, counts and statistics as they are now."""
    if what.startswith("CRAB") or REQUESTS[what][0] is EARLY:
        # (counts begin again before the generators are looked at, and
        # everything computed is dropped when an initialisation begins)
        return {}
    d = {k: v for k, v in attributes(o, scratch).items()
         if not k.rsplit(".", 1)[-1].startswith("_")}
    if o.stats is not None:
        for k, v in vars(o.stats).items():
            if not k.startswith("_"):
                d["stats." + k] = repr(v)
    a = o.dynamics.ctrl_amps
    d["amps"] = None if a is None else np.asarray(a).tobytes()
    return d


class Started(Exception):
    pass


class Never:
    """The minimiser of a run that must not start."""

    probe_amps = None

    def entry(self, *a):
        raise Started()


def body(ctx, plan):
    a = history(ctx, plan, [])
    b = history(ctx, plan, plan["requests"])
    why = sorted({r["what"] + " (" + r["when"] + ")" for r in plan["requests"]})
    for k, (p, q) in enumerate(zip(a["sigs"], b["sigs"])):
        d = T.difference(p, q)
        ctx.check(d is None, "trace left",
                  "run {} without / with refused {}: {}", k, why, d)
    for n in ("attrs", "tc"):
        bad = {k: (a[n].get(k), b[n].get(k)) for k in sorted(set(a[n]) | set(b[n]))
               if a[n].get(k) != b[n].get(k) and k not in COUNTERS}
        ctx.check(not bad, "settings", "without / with refused {}: {}", why, bad)
    ctx.check(a["files"] == b["files"], "file names",
              "summary files without / with refused {}: {} / {}", why,
              a["files"], b["files"])
    ctx.check(a["dumps"] == b["dumps"], "dumps",
              "dumps differ without / with refused {}", why)
    ctx.probe("histories compared")


def nontrivial(out):
    return out.probes.get("refused", 0) > 0
