"""C07: failures of output files do not harm the optimisation."""
import os
import stat

import numpy as np

from .. import env
from .. import systems as S
from .. import episode as E
from .. import trace as T

import qutip_qtrl.io as qio
import qutip_qtrl.optimconfig as oc

ID = "C07"
RULE = (
    "One run = one of: (a) a pulse optimisation through a top level function "
    "that writes amplitude files, on a simulated disk that fails (open, any "
    "write, close; torn and short writes; slow disk; path taken by a "
    "directory), compared bit for bit with the same run without files, and "
    "files and log records checked; (b) save_amps called directly at random "
    "points of a history of pulses and queries; (c) create_dir of a random "
    "path over random existing contents (directory, file, pipe, links) "
    "while another process creates a directory, file, pipe or the same tree "
    "at each mkdir, or mkdir fails; (d) an optimisation dumping to files "
    "whose directories cannot be made, compared with the same run dumping in "
    "memory, and a second run after the fault has cleared. Non-trivial when "
    "an output operation was checked. States: (mode, path kind, faults, "
    "outcome)."
)
ASSUMPTIONS = [
    "runs as root: directories without write permission cannot be told "
    "apart; a usable directory is an existing directory",
    "no other process removes directories while they are created",
    "if the dump directory asked for cannot be made, the default one "
    "(~/.qtrl_dump) may be used instead",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer",
        "a real scratch directory below the simulated file system seam",
        "scipy minimisers (part of the runs)"]
STUB = ["file system errors and the other processes", "clock",
        "random stream", "minimiser (scripted runs)"]
TECHNIQUE = (
    "file system fault injection and scheduled races with other processes in "
    "simulated optimisations, compared with the fault free twin"
)
LEVEL_NOTE = "Seeded sampling of file system faults, races and problems."
N_QUICK = 18000
N_THOROUGH = 220000

# names no file can have
IMPOSSIBLE = ["a\0b.txt", "\ud800.txt", "n" * 300]

ERRS = ["eacces", "enospc", "eio", "emfile", "erofs", "enoent"]


def gen_write_faults(rng, spread):
    out = []
    for _ in range(int(S.choice(rng, [0, 1, 2, 4], [1, 5, 2, 1]))):
        seam = S.choice(rng, ["fs.open_w", "fs.write", "fs.close"], [3, 4, 1.5])
        f = {"seam": seam, "n": int(rng.randint(1, spread + 1))}
        if seam == "fs.write":
            f["act"] = S.choice(rng, ["eio", "enospc", "torn", "short", "stall"],
                                [2, 2, 2, 3, 1])
            f["bytes"] = int(rng.randint(1, 60))
            if f["act"] in ("torn", "eio") and rng.rand() < 0.5:
                f["sticky"] = int(rng.randint(1, 5))
        elif seam == "fs.close":
            f["act"] = S.choice(rng, ["eio", "enospc"])
        else:
            f["act"] = S.choice(rng, ERRS + ["stall"])
        if f["act"] == "stall":
            f["dt"] = float(S.choice(rng, [0.5, 64.0, 1e5]))
        out.append(f)
    return out


PATHS = ["new", "new/a/b", "./x", "~/out", "~/o/p", "ABS/z", "ABS/u/v/w/",
         "there", "there/", "file", "fifo", "link_dir", "link_none",
         "link_file", "file/below", "link_dir/new", "fifo/below", "..",
         ".", "a//b", "a/./b", "run~1", "there/../new2", "link_none/x",
         "sp ace/d"]


def gen(rng, tier):
    mode = S.choice(rng, ["func", "save", "mkdir", "dump"], [3, 3, 6, 3])
    plan = {"mode": mode, "faults": []}
    if mode == "mkdir":
        plan["path"] = S.choice(rng, PATHS)
        plan["via"] = S.choice(rng, ["io", "config"])
        for _ in range(int(S.choice(rng, [0, 1, 2, 3], [1, 5, 2, 1]))):
            plan["faults"].append({
                "seam": "fs.mkdir", "n": int(rng.randint(1, 5)),
                "act": S.choice(rng, ["race_dir", "race_file", "race_fifo",
                                      "race_call", "eacces", "enospc",
                                      "erofs", "enoent"],
                                [3, 3, 1, 2, 1, 1, 1, 1]),
            })
        plan["race"] = S.choice(rng, ["same", "child", "parent", "file"])
        plan["again"] = bool(rng.rand() < 0.5)
        return plan
    cfg = S.gen_config(rng, small=rng.rand() < 0.8)
    run = E.gen_run(rng, cfg, alg="GRAPE" if mode == "save" else None)
    plan.update(cfg=cfg, run=run)
    if mode == "func":
        plan["func"] = E.fit_function(rng, cfg, run)
        plan["ext"] = S.choice(rng, ["pulse.txt", "x", "sub/p.txt", "a b.txt",
                                     "p.txt"] + IMPOSSIBLE,
                               [4, 1, 1, 1, 3, 0.4, 0.4, 0.4])
        plan["pre"] = S.choice(rng, [None, "long", "dir_initial", "dir_final",
                                     "dir_both"], [6, 2, 0.6, 0.6, 0.3])
        if plan["ext"] in IMPOSSIBLE:
            plan["pre"] = None
        plan["faults"] = gen_write_faults(rng, S.choice(rng, [2, 4, 8]))
        plan["twice"] = bool(rng.rand() < 0.2)
        plan["level"] = S.choice(rng, [None, 20, 10], [3, 1, 1])
    elif mode == "save":
        ops = []
        for _ in range(int(rng.randint(2, 9))):
            op = {"op": S.choice(rng, ["save", "update", "fid", "grad"],
                                 [4, 2, 1, 1]),
                  "seed": int(rng.randint(1 << 30))}
            if op["op"] == "save":
                op["name"] = S.choice(rng, [None, "a.txt", "b.txt",
                                            "no/where.txt", "adir"]
                                      + IMPOSSIBLE,
                                      [2, 4, 3, 0.5, 0.5, 0.2, 0.2, 0.2])
                op["times"] = S.choice(
                    rng, [None, "exclude", "given", "list", "wrong", "words"],
                    [4, 4, 3, 2, 1, 1])
                op["amps"] = bool(rng.rand() < 0.3)
                op["verbose"] = bool(rng.rand() < 0.3)
            ops.append(op)
        plan["ops"] = ops
        plan["faults"] = gen_write_faults(rng, S.choice(rng, [2, 6, 12]))
    else:
        plan["levels"] = [S.choice(rng, ["SUMMARY", "FULL", None]),
                          S.choice(rng, ["SUMMARY", "FULL", None])]
        plan["to_file"] = [True, bool(rng.rand() < 0.5)]
        if rng.rand() < 0.3:
            plan["to_file"] = plan["to_file"][::-1]
        plan["dir"] = S.choice(rng, [None, "d1", "d/e", "file", "link_none",
                                     "file/below", "there"],
                               [2, 3, 2, 1, 1, 1, 1])
        plan["via"] = S.choice(rng, ["params", "attrs"])
        k = S.choice(rng, ["none", "all", "some"], [1, 4, 2])
        plan["faults"] = []
        if k == "all":
            act = S.choice(rng, ["eacces", "enospc", "erofs"])
            plan["faults"] = [{"seam": "fs.mkdir", "n": n, "act": act}
                              for n in range(1, 40)]
        elif k == "some":
            for _ in range(int(rng.randint(1, 4))):
                plan["faults"].append({
                    "seam": "fs.mkdir", "n": int(rng.randint(1, 6)),
                    "act": S.choice(rng, ["eacces", "enospc", "race_dir",
                                          "race_file", "race_fifo"])})
        plan["default"] = S.choice(rng, [None, "file", "fifo"], [5, 1, 1])
        plan["twice"] = bool(rng.rand() < 0.4)
    return plan


# ---------------------------------------------------------------------------


def errors_logged(n0):
    return [r for r in env.LOG.records[n0:] if r[0] >= 40]


def claims(n0, name):
    """Messages that say where something was written."""
    return [r[2] for r in env.LOG.records[n0:] if r[0] == 20 and name in r[2]]


def failures(w, n0, seams=("fs.open_w", "fs.write", "fs.close")):
    return [x for x in w.fs_log[n0:]
            if x[0] in seams and x[1] not in ("ok", "short", "stall")]


def table(times, amps):
    if times is None:
        return np.array(amps, float)
    return np.column_stack([np.array(times, float), amps])


def check_table(ctx, path, times, amps, what):
    """The documented contents: start time of the slot, then amplitudes."""
    ctx.check(os.path.isfile(path), "file missing", "{} was not written", what)
    with env_open(path) as f:
        rows = [[float(x) for x in l.split("\t")] for l in f.read().splitlines()]
    want = table(times, amps)
    got = np.array(rows, float)
    ok = got.shape == want.shape and bool(
        np.all(np.abs(got - want) <= 1e-5 * np.abs(want) + 1e-12)
        if np.all(np.isfinite(want)) else True)
    ctx.check(ok, "file contents", "{} holds {} instead of {}", what, got, want)
    ctx.probe("amplitude files checked")


def env_open(path):
    from ..world import _REAL_IO_OPEN

    return _REAL_IO_OPEN(path)


def prepare(w, plan):
    """Existing contents for the paths used."""
    os.chdir(w.cwd)
    w.fs_armed = False
    os.mkdir("there")
    with env_write("file") as f:
        f.write("x")
    os.mkfifo("fifo")
    os.symlink("there", "link_dir")
    os.symlink("nothing_here", "link_none")
    os.symlink("file", "link_file")
    w.fs_armed = True


def env_write(path):
    from ..world import _REAL_IO_OPEN

    return _REAL_IO_OPEN(path, "w")


def body(ctx, plan):
    {"func": by_function, "save": by_save, "mkdir": by_mkdir,
     "dump": by_dump}[plan["mode"]](ctx, plan)


# -- (a) -------------------------------------------------------------------


def by_function(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    sigs = []
    for files in (False, True):
        with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                       faults=plan["faults"] if files else (),
                       max_steps=400000) as w:
            ep = E.Episode(ctx, w, cfg, run)
            over = {}
            if plan["level"] is not None:
                over["log_level"] = plan["level"]
            names = ["ctrl_amps_%s_%s" % (k, plan["ext"])
                     for k in ("initial", "final")]
            if files:
                over["out_file_ext"] = plan["ext"]
                w.fs_armed = False
                for nm in names:
                    if plan["pre"] == "long" and "/" not in nm:
                        with env_write(nm) as f:
                            f.write("1 2 3 4\n" * 400)
                    if plan["pre"] in ("dir_both", "dir_" + nm.split("_")[2]):
                        os.makedirs(nm)
                w.fs_armed = True
            res = []
            for k in range(2 if plan["twice"] else 1):
                n0, f0 = len(env.LOG.records), len(w.fs_log)
                np.random.seed(run["np_seed"])
                try:
                    E.call_function(ep, plan["func"], **over)
                except OSError as e:
                    ctx.fail("file failure came out", "{!r}", e)
                ctx.check(ep.exc is None, "file failure came out", "{!r}", ep.exc)
                res.append(T.of_episode(ep, stats=True))
                if not files:
                    continue
                failed = failures(w, f0)
                bad = {os.path.basename(x[2]) for x in failed}
                errs = errors_logged(n0)
                for nm, amps in zip(names, (ep.result.initial_amps,
                                            ep.result.final_amps)):
                    natural = ("/" in nm or os.path.isdir(nm)
                               or plan["ext"] in IMPOSSIBLE)
                    if natural or os.path.basename(nm) in bad:
                        ctx.probe("failed files")
                        ctx.check(errs, "not reported",
                                  "the failure to write {} is not in the log", nm)
                        said = claims(n0, nm)
                        ctx.check(not said, "claimed", "{} could not be "
                                  "written, the log says {}", nm, said)
                    else:
                        said = claims(n0, nm)
                        ctx.check(len(said) == int((plan["level"] or 30) <= 20),
                                  "claimed", "{} was written, the log says {}",
                                  nm, said)
                        check_table(ctx, os.path.join(w.cwd, nm),
                                    ep.result.time[: len(amps)], amps, nm)
                if not bad and "/" not in names[0] and not any(
                    os.path.isdir(n) for n in names
                ) and plan["ext"] not in IMPOSSIBLE:
                    ctx.check(not errs, "reported", "errors {} logged", errs)
            others = [n for n in sorted(os.listdir(w.cwd)) if n not in names
                      and "/" not in plan["ext"]]
            ctx.check(not others, "other files", "{} written", others)
            sigs.append(res)
    for a, b in zip(*sigs):
        d = T.difference(a, b)
        ctx.check(d is None, "changed",
                  "run without / with amplitude files: {}", d)
    ctx.probe("optimisations compared")
    ctx.state("func", plan["func"], plan["ext"], plan["pre"],
              tuple(sorted((f["seam"], f["act"], f["n"]) for f in plan["faults"])))


# -- (b) -------------------------------------------------------------------


def by_save(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    with ctx.world(np_seed=run["np_seed"], faults=plan["faults"]) as w:
        w.fs_armed = False
        os.mkdir("adir")
        w.fs_armed = True
        optim = ctx.sut(E.create, cfg, run)
        twin = ctx.sut(E.create, cfg, run)
        dyn = optim.dynamics
        amps = S.gen_amps(1, cfg["n_ts"], cfg["n_ctrls"])
        for o in (optim, twin):
            ctx.sut(o.dynamics.initialize_controls, amps.copy())
        for op in plan["ops"]:
            if op["op"] == "update":
                amps = S.gen_amps(op["seed"], cfg["n_ts"], cfg["n_ctrls"])
                for o in (optim, twin):
                    ctx.sut(o.dynamics.update_ctrl_amps, amps.copy())
            elif op["op"] in ("fid", "grad"):
                r = []
                for o in (optim, twin):
                    fc = o.dynamics.fid_computer
                    r.append(np.array(ctx.sut(
                        fc.get_fid_err if op["op"] == "fid"
                        else fc.get_fid_err_gradient)).tobytes())
                ctx.check(r[0] == r[1], "changed",
                          "{} differs after saving amplitudes", op["op"])
            else:
                kw = {}
                name = op["name"] or dyn.def_amps_fname
                if op["name"]:
                    kw["file_name"] = op["name"]
                times = np.asarray(dyn.get_amp_times())
                if op["times"] == "exclude":
                    kw["times"], times = "exclude", None
                elif op["times"] == "given":
                    times = np.arange(cfg["n_ts"]) * 0.25
                    kw["times"] = times.copy()
                elif op["times"] == "list":
                    times = np.arange(cfg["n_ts"]) * 0.25
                    kw["times"] = times.tolist()
                elif op["times"] == "wrong":
                    # no such table can be written
                    times = None
                    kw["times"] = [0.25 * k for k in range(cfg["n_ts"] + 2)]
                elif op["times"] == "words":
                    kw["times"] = ["now"] * cfg["n_ts"]
                data = amps
                if op["amps"]:
                    data = S.gen_amps(op["seed"], cfg["n_ts"], cfg["n_ctrls"])
                    kw["amps"] = data.copy()
                if op["verbose"]:
                    kw["verbose"] = True
                n0, f0 = len(env.LOG.records), len(w.fs_log)
                try:
                    ctx.sut(dyn.save_amps, **kw)
                except OSError as e:
                    ctx.fail("file failure came out", "{!r}", e)
                errs = errors_logged(n0)
                bad = op["times"] in ("wrong", "words")
                failed = bad or failures(w, f0) or name in (
                    ["adir", "no/where.txt"] + IMPOSSIBLE)
                if failed:
                    ctx.probe("failed files")
                    ctx.check(errs, "not reported",
                              "failure {} is not in the log", failed)
                else:
                    ctx.check(not errs, "reported", "errors {} logged", errs)
                    check_table(ctx, os.path.join(w.cwd, name), times, data, name)
                ctx.check(np.array_equal(dyn.ctrl_amps, amps), "changed",
                          "saving amplitudes changed them")
        ctx.state("save", tuple((o["op"], o.get("name"), o.get("times"))
                                for o in plan["ops"]), tuple(sorted(w.fired)))


# -- (c) -------------------------------------------------------------------


def by_mkdir(ctx, plan):
    with ctx.world() as w:
        prepare(w, plan)
        arg = plan["path"].replace("ABS", w.scratch)
        real = os.path.join(w.cwd, os.path.expanduser(arg))

        def race():
            # another process using the library on the same tree
            p = real.rstrip("/")
            if plan["race"] == "child":
                p = os.path.join(p, "their", "own")
            elif plan["race"] == "parent":
                p = os.path.dirname(p)
            if plan["race"] == "file":
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.lexists(p):
                    with env_write(p) as f:
                        f.write("theirs")
                return
            ok, d, _ = qio.create_dir(p)
            ctx.check(ok == os.path.isdir(p), "untruthful",
                      "other process: create_dir({!r}) = {}, directory: {}",
                      p, ok, os.path.isdir(p))

        w.race = race
        fn = qio.create_dir if plan["via"] == "io" else oc.OptimConfig().check_create_output_dir
        w.faults = [dict(f) for f in plan["faults"]]
        was = os.path.isdir(real)
        res = []
        for k in range(2 if plan["again"] else 1):
            try:
                ok, path, msg = ctx.sut(fn, arg, desc="some")
            except OSError as e:
                ctx.fail("file failure came out", "{!r}", e)
            isdir = os.path.isdir(real)
            ctx.check(bool(ok) == isdir, "untruthful",
                      "create_dir({!r}) reported {}, but {} directory is there "
                      "({})", arg, ok, "a" if isdir else "no", msg)
            ctx.check(isinstance(msg, str) and msg, "no message", "{!r}", msg)
            if ok:
                ctx.check(
                    os.path.realpath(path) == os.path.realpath(real),
                    "path", "create_dir({!r}) returned {!r}", arg, path)
                probe = os.path.join(path, "probe")
                with env_write(probe) as f:
                    f.write("x")
                os.remove(probe)
            if was:
                ctx.check(ok, "untruthful", "existing directory {} refused", arg)
            fired = sum(w.fired.values())
            if not fired and plan["path"] in (
                "new", "new/a/b", "./x", "~/out", "~/o/p", "ABS/z", "there",
                "ABS/u/v/w/", "there/", "link_dir", "link_dir/new", ".", "..",
                "a//b", "a/./b", "run~1", "sp ace/d",
            ):
                ctx.check(ok, "refused", "create_dir({!r}): {}", arg, msg)
            ctx.check(os.path.isfile("file") and env_open("file").read() == "x"
                      and stat.S_ISFIFO(os.stat("fifo").st_mode),
                      "other files", "existing contents changed")
            ctx.probe("directories " + ("made" if ok else "refused"))
            res.append(bool(ok))
            w.faults = []
        ctx.state("mkdir", plan["path"], plan["race"], tuple(res),
                  tuple(sorted((f["n"], f["act"]) for f in plan["faults"])))


# -- (d) -------------------------------------------------------------------


def by_dump(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    sigs, recs = [], []
    for tofile in (False, True):
        with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                       max_steps=400000) as w:
            prepare(w, plan)
            w.fs_armed = False
            dflt = os.path.join(w.home, ".qtrl_dump")
            if plan["default"] == "file":
                with env_write(dflt) as f:
                    f.write("x")
            elif plan["default"] == "fifo":
                os.mkfifo(dflt)
            w.fs_armed = True
            ep = E.Episode(ctx, w, cfg, run)
            sets = []
            for lv, tf in zip(plan["levels"], plan["to_file"]):
                d = {}
                if lv:
                    d["dumping"] = lv
                elif tf:
                    d["dumping"] = "SUMMARY"  # implied by dump_to_file
                if tofile and tf:
                    if not lv:
                        d.pop("dumping")
                    d["dump_to_file"] = True
                    if plan["dir"]:
                        d["dump_dir"] = plan["dir"]
                sets.append(d)
            if tofile:
                w.faults = [dict(f) for f in plan["faults"]]
            over = {}
            try:
                if plan["via"] == "params":
                    over["optim_params"] = sets[0]
                    over["dyn_params"] = dict(S.dyn_params(cfg), **sets[1])
                    ep.make(**over)
                else:
                    ep.make()
                    for o, d in zip((ep.optim, ep.optim.dynamics), sets):
                        for k, v in d.items():
                            ctx.sut(setattr, o, k, v)
                for k in range(2 if plan["twice"] else 1):
                    n0, m0 = len(env.LOG.records), len(w.fs_log)
                    np.random.seed(run["np_seed"])
                    ep.minim = E.Minim(w, run.get("script"))
                    ep.minim.probe_amps = lambda: ep.optim.dynamics.ctrl_amps
                    ep.start_pulse()
                    ep.optimise()
                    sigs.append((tofile, k, T.of_episode(ep, stats=True)))
                    recs.append((tofile, k, records(ep.optim)))
                    if tofile:
                        check_suppressed(ctx, w, plan, ep, n0)
                    w.faults = []
                    if tofile and k == 0 and plan["twice"]:
                        # the fault has cleared: records start afresh
                        for o in (ep.optim, ep.optim.dynamics):
                            if o.dump is not None:
                                ctx.sut(o.dump.clear)
                    elif k == 0 and plan["twice"]:
                        for o in (ep.optim, ep.optim.dynamics):
                            if o.dump is not None:
                                ctx.sut(o.dump.clear)
            except OSError as e:
                if not getattr(e, "sim_injected", False) and not isinstance(
                    e, (FileExistsError, NotADirectoryError)
                ):
                    raise
                ctx.fail("file failure came out", "{!r}", e)
    n = len(sigs) // 2
    for a, b in zip(sigs[:n], sigs[n:]):
        d = T.difference(a[2], b[2])
        ctx.check(d is None, "changed",
                  "dumping in memory / to files (run {}): {}", a[1], d)
    for a, b in zip(recs[:n], recs[n:]):
        ctx.check(a[2] == b[2], "dump records",
                  "records in memory differ: {} / {}", a[2], b[2])
    ctx.probe("optimisations compared")
    ctx.state("dump", tuple(plan["levels"]), tuple(plan["to_file"]),
              plan["dir"], plan["default"], plan["via"],
              tuple(sorted({(f["seam"], f["act"]) for f in plan["faults"]})))


def records(optim):
    out = []
    o, d = optim.dump, optim.dynamics.dump
    if o is not None:
        out.append(("o", len(o.iter_summary), [float(x).hex() for x in o.fid_err_log],
                    [float(x).hex() for x in o.grad_norm_log], len(o.grad_log)))
    if d is not None:
        out.append(("d", len(d.evo_summary), len(d.evo_dumps)))
    return out


def check_suppressed(ctx, w, plan, ep, n0):
    """Files exactly where file output is (still) in force."""
    want = {"optimdump": plan["to_file"][0], "dyndump": plan["to_file"][1]}
    found = {"optimdump": set(), "dyndump": set()}
    for root, _, fs in os.walk(w.scratch):
        for f in fs:
            for k in found:
                if f.startswith(k):
                    found[k].add(os.path.realpath(root))
    for k, o in (("optimdump", ep.optim), ("dyndump", ep.optim.dynamics)):
        if not want[k]:
            ctx.check(not found[k], "files written",
                      "{} files although not asked for: {}", k, found[k])
            continue
        ctx.check(o.dump is not None, "no dump", "{} has no dump", k)
        on = bool(o.dump.write_to_file)
        if not on:
            ctx.probe("dumps suppressed")
            ctx.check(
                any("suppress" in m.lower() or "Failed to create" in m
                    for l, _, m in env.LOG.records if l >= 40),
                "not reported", "{}: no file output and no error in the log", k)
            if plan["twice"] is False:
                ctx.check(not found[k], "files written",
                          "{} files although suppressed: {}", k, found[k])
            # only legal if a directory could not be made
            ctx.check(
                w.fired or plan["default"] or plan["dir"] in (
                    "file", "link_none", "file/below"),
                "suppressed", "{}: file output off for no reason", k)
        else:
            ctx.probe("dumps to files")
            asked = plan["dir"] and os.path.realpath(
                os.path.join(w.cwd, plan["dir"]))
            dflt = os.path.realpath(os.path.join(w.home, ".qtrl_dump"))
            n = (len(o.dump.iter_summary) if k == "optimdump"
                 else len(o.dump.evo_summary))
            if n:
                ctx.check(found[k], "files missing",
                          "{}: file output is on but there are no files", k)
            ctx.check(found[k] <= {asked, dflt}, "place",
                      "{} files in {}", k, found[k])
            if not w.fired and plan["dir"] in ("d1", "d/e", "there") and n:
                ctx.check(found[k] == {asked}, "place",
                          "{} files in {} instead of {}", k, found[k], asked)


def nontrivial(out):
    return sum(v for k, v in out.probes.items()) > 0
