"""C06: dumps are complete and faithful, in memory and on disk."""
import errno
import gc
import io
import logging
import os
import re

import numpy as np

from .. import systems as S
from .. import env
from .. import episode as E
from .c09 import gen_faults

ID = "C06"
RULE = (
    "One run = one random optimisation with random dump settings (levels, "
    "flags, directories, file names, separators, in memory or to files), "
    "with legal short reads and writes, and in part ended by a failing or "
    "torn write, a failing open, a process crash at a file operation or a "
    "computation, or another exception. The records in memory are compared "
    "with the history at the interface to the minimiser and with the "
    "reference model, the files with the records acknowledged at that point; "
    "then the fault clears and the dump is written out again (separate "
    "files, one file with headings, stream, single records), the objects run again (also with changed "
    "directory or names), or a new process uses the same directory. "
    "Non-trivial when at least three records were compared. States: (dump "
    "settings, configuration class, how the run ended, operation hit)."
)
ASSUMPTIONS = [
    "a process crash keeps what write() returned for (no power loss)",
    "the values in files may be rounded to the digits of their format",
]
REAL = ["everything in qutip_qtrl except the deprecated timeslot computer",
        "scipy minimisers (part of the runs)", "tmpfs files below the seam"]
STUB = ["clock", "minimiser (scripted runs)", "raw file layer (fault seam)"]
TECHNIQUE = (
    "simulated optimisations over a file system with injected write errors, "
    "torn and short writes and process crashes; memory and disk compared "
    "with the recorded history"
)
LEVEL_NOTE = "Seeded sampling of dump settings, histories and crash points."
N_QUICK = 3900
N_THOROUGH = 120000

OFLAGS = ["dump_summary", "dump_fid_err", "dump_grad_norm", "dump_grad"]
DFLAGS = ["dump_summary", "dump_amps", "dump_dyn_gen", "dump_prop",
          "dump_prop_grad", "dump_fwd_evo", "dump_onwd_evo", "dump_onto_evo"]
DIRS = ["rel", "rel/sub", "~/homedir", "ABS/x", "ABS/x/y", None]


def eq(a, b):
    """Equal, or both not a number."""
    return a == b or (a is not None and b is not None and a != a and b != b)


def gen_dump(rng, flags):
    if rng.rand() < 0.12:
        return None
    d = {"level": S.choice(rng, ["SUMMARY", "FULL", "CUSTOM", "full"], [2, 4, 2, 0.5])}
    if d["level"] == "CUSTOM":
        d["flags"] = {k: bool(rng.rand() < 0.5) for k in flags}
    elif rng.rand() < 0.2:
        d["flags"] = {S.choice(rng, flags): bool(rng.rand() < 0.5)}
    d["file"] = bool(rng.rand() < 0.8)
    d["dir"] = S.choice(rng, DIRS)
    d["how"] = S.choice(rng, ["params", "attrs", "params2"])
    if rng.rand() < 0.3:
        d["base"] = S.choice(rng, ["b", "my dump", "run-1"])
    if rng.rand() < 0.3:
        d["ext"] = S.choice(rng, ["dat", "log"])
    if rng.rand() < 0.25:
        d["sfile"] = S.choice(rng, ["sum.txt", "ABS/s.txt", "~/s.txt", "s s"])
    if rng.rand() < 0.25:
        d["ssep"] = S.choice(rng, [",", ";", "\t"])
    if rng.rand() < 0.25:
        d["dsep"] = S.choice(rng, [",", ";", "\t"])
    return d


def gen_change(rng):
    c = {}
    if rng.rand() < 0.5:
        c["dir"] = S.choice(rng, ["other", "~/other", "ABS/o"])
    if rng.rand() < 0.4:
        c["base"] = S.choice(rng, ["second", "z"])
    return c


def gen(rng, tier):
    cfg = S.gen_config(rng, small=rng.rand() < 0.8)
    cfg["n_ts"] = min(cfg["n_ts"], 4)
    S.normalise(cfg)
    run = E.gen_run(rng, cfg)
    run["tc"]["max_calls"] = min(run["tc"]["max_calls"] or 14, 14)
    if run["pulse"]["type"] == "LIN" and cfg["n_ts"] < 2:
        run["pulse"]["type"] = "RND"
    od, dd = gen_dump(rng, OFLAGS), gen_dump(rng, DFLAGS)
    if od is not None and dd is not None and rng.rand() < 0.3:
        dd["dir"] = od["dir"]
        dd["base"] = (od.get("base") or "x") + "_dyn"
        dd.pop("sfile", None)
    mode = S.choice(rng, ["plain", "error", "crash", "exc"], [3, 3, 3, 1])
    faults = []
    if rng.rand() < 0.4:
        for _ in range(3):
            faults.append({
                "seam": "fs.write", "n": int(rng.randint(1, 40)),
                "act": "short", "bytes": int(S.choice(rng, [1, 2, 7, 100])),
            })
    n = int(rng.randint(1, int(S.choice(rng, [4, 12, 60]))))
    if mode == "error":
        faults.append(S.choice(rng, [
            {"seam": "fs.open_w", "n": n, "act": S.choice(rng, ["enospc", "eacces", "eio"])},
            {"seam": "fs.write", "n": n, "act": S.choice(rng, ["enospc", "eio"]),
             "sticky": int(S.choice(rng, [0, 2, 10**6]))},
            {"seam": "fs.write", "n": n, "act": "torn",
             "sticky": int(S.choice(rng, [1, 2, 10**6])),
             "bytes": int(S.choice(rng, [0, 1, 5, 30, 1000]))},
        ]))
    elif mode == "crash":
        faults.append(S.choice(rng, [
            {"seam": "fs.open_w", "n": n, "act": "eio", "crash": True},
            {"seam": "fs.write", "n": n, "act": "eio", "crash": True},
            {"seam": "fs.write", "n": n, "act": "torn", "crash": True,
             "bytes": int(S.choice(rng, [1, 5, 30, 1000]))},
            {"seam": S.choice(rng, ["la", "min.f", "min.g", "min.cb", "min.own"]),
             "n": n, "act": "raise", "exc": "SimCrash",
             "when": S.choice(rng, ["before", "after"])},
        ]))
    elif mode == "exc":
        faults += gen_faults(rng, 1.0)
    runs2 = []
    if mode != "crash" and rng.rand() < 0.5:
        r2 = dict(run, script=E.gen_script(rng) if run["script"] else None,
                  np_seed=int(rng.randint(1 << 30)))
        runs2.append([r2, gen_change(rng) if rng.rand() < 0.5 else {}])
    return {"cfg": cfg, "run": run, "od": od, "dd": dd, "mode": mode,
            "faults": faults, "again": runs2,
            "late_dir": bool(rng.rand() < 0.3),
            "out": S.choice(rng, ["file", "stream", "bytes"]),
            "blk": S.choice(rng, [None, 64, 512], [2, 1, 1])}


# ---------------------------------------------------------------------------
# expected locations
# ---------------------------------------------------------------------------


def expand(w, d):
    """Absolute directory the documentation says is used."""
    if d is None:
        return os.path.join(w.home, ".qtrl_dump")
    d = d.replace("ABS", os.path.join(w.scratch, "abs"))
    if d.startswith("~"):
        return os.path.join(w.home, d[2:])
    return os.path.join(w.cwd, d)


def raw_dir(w, d):
    return None if d is None else d.replace("ABS", os.path.join(w.scratch, "abs"))


class Where:
    def __init__(self, w, d, kind):
        self.w = w
        self.dir = expand(w, d["dir"])
        self.base = d.get("base") or ("optimdump" if kind == "o" else "dyndump")
        self.ext = d.get("ext") or "txt"
        self.sfile = d.get("sfile")
        self.ssep, self.dsep = d.get("ssep") or " ", d.get("dsep") or " "

    def summary(self):
        if self.sfile:
            s = self.sfile
            if s.startswith("ABS"):
                return s.replace("ABS", os.path.join(self.w.scratch, "abs"))
            if s.startswith("~"):
                return os.path.join(self.w.home, s[2:])
            return os.path.join(self.dir, s)
        return self.path("summary")

    def path(self, what):
        return os.path.join(self.dir, "{}-{}.{}".format(self.base, what, self.ext))


def setup(ctx, w, plan):
    """create_pulse_optimizer with the dump settings of the plan."""
    ep = E.Episode(ctx, w, plan["cfg"], plan["run"])
    over = {}
    os.makedirs(os.path.join(w.scratch, "abs"), exist_ok=True)
    for d, name, base in ((plan["od"], "optim_params", {}),
                          (plan["dd"], "dyn_params", S.dyn_params(plan["cfg"]))):
        if d is None or d["how"] == "attrs":
            continue
        p = dict(base)
        if d["how"] == "params":
            p["dumping"] = d["level"]
        if d["file"]:
            p["dump_to_file"] = True
        if d["dir"] is not None and not plan["late_dir"]:
            p["dump_dir"] = raw_dir(w, d["dir"])
        if d["how"] == "params2":
            p["dumping"] = d["level"]
        over[name] = p
    ep.make(**over)
    for d, o in ((plan["od"], ep.optim), (plan["dd"], ep.optim.dynamics)):
        if d is None:
            continue
        if d["how"] == "attrs":
            ctx.sut(setattr, o, "dumping", d["level"])
            o.dump_to_file = d["file"]
        if d["dir"] is not None and (plan["late_dir"] or d["how"] == "attrs"):
            ctx.sut(setattr, o, "dump_dir", raw_dir(w, d["dir"]))
        u = o.dump
        for k, v in (d.get("flags") or {}).items():
            ctx.sut(setattr, u, k, v)
        if "base" in d:
            ctx.sut(setattr, u, "fname_base", d["base"])
        if "ext" in d:
            u.dump_file_ext = d["ext"]
        if "sfile" in d:
            s = d["sfile"].replace("ABS", os.path.join(w.scratch, "abs"))
            ctx.sut(setattr, u, "summary_file", s)
        if "ssep" in d:
            u.summary_sep = d["ssep"]
        if "dsep" in d:
            u.data_sep = d["dsep"]
    return ep


def flags_of(d, names, cfg):
    """Which records are asked for."""
    if d is None:
        return {k: False for k in names}
    full = d["level"].upper() == "FULL"
    f = {k: full or k == "dump_summary" for k in names}
    f.update(d.get("flags") or {})
    return f


# ---------------------------------------------------------------------------
# the history
# ---------------------------------------------------------------------------


class Hist:
    """Expected records of all runs made with the same objects."""

    def __init__(self):
        self.f, self.g, self.it, self.evo = [], [], [], []
        # the parts of a record are made one after the other
        self.gn, self.evs = [], []

    def add(self, ep):
        """Entries of one run; each is a dict with 'sure'."""
        st = ep.start
        nf = ng = ncb = 0
        lastf = lastg = None
        prev = None
        stats = ep.run["stats"]
        res = ep.result

        def evo(amps, sure, it, f, g):
            nonlocal prev
            if prev is not None and np.array_equal(prev, amps):
                return
            self.evo.append({
                "amps": np.array(amps), "sure": sure,
                "changed": amps.size if prev is None else int((prev != amps).sum()),
                "slots": amps.shape[0] if prev is None else int(
                    (prev != amps).any(axis=1).sum()),
                "nums": (it, f, g) if stats else (None, None, None),
            })
            self.evs.append(dict(self.evo[-1]))
            prev = np.array(amps)

        evo(ep.amps0, st is not None, 0, 0, 0)
        if st is None:
            return
        for e in ep.events:
            sure = not e["inj"]
            if e["t"] == "f":
                nf += 1
                evo(e["amps"], sure, ncb, nf, ng)
                v = float(e["ret"]) if e["ret"] is not None else None
                if v is None and sure and res is not None:
                    v = float(res.fid_err)
                self.f.append({"v": v, "sure": sure})
                lastf = v
            elif e["t"] == "g":
                ng += 1
                evo(e["amps"], sure, ncb, nf, ng)
                v = None
                if e["ret"] is not None:
                    v = np.array(e["ret"]).reshape(e["amps"].shape)
                self.g.append({"v": v, "sure": sure, "norm": (
                    float(res.grad_norm_final)
                    if v is None and sure and res is not None else None)})
                self.gn.append(dict(self.g[-1]))
                lastg = v
            else:
                ncb += 1
                self.it.append({
                    "iter_num": ncb, "fid_func_call_num": nf or None,
                    "grad_func_call_num": ng or None, "fid_err": lastf,
                    "grad": lastg if ng else None, "t": e["t0"],
                    "sure": sure, "run": id(ep), "ng": ng,
                })
        if res is not None:
            evo(np.array(res.final_amps), True, ncb, nf, ng)
        elif "x" in (st["end"] or {}):
            # after the minimiser returned, before the result was complete
            a = ep.optim.dynamics.ctrl_amps
            evo(np.array(a), False, ncb, nf, ng)


def bounds_of(recs):
    """(acknowledged, possible) numbers of records."""
    n = len(recs)
    sure = n
    while sure and not recs[sure - 1]["sure"]:
        sure -= 1
    return sure, n


def check_memory(ctx, plan, ep, h, ref):
    optim = ep.optim
    dyn = optim.dynamics
    cfg = plan["cfg"]
    of = flags_of(plan["od"], OFLAGS, cfg)
    df = flags_of(plan["dd"], DFLAGS, cfg)
    n = 0

    def size(name, log, recs, on):
        lo, hi = bounds_of(recs) if on else (0, 0)
        ctx.check(
            lo <= len(log) <= hi, "number of records",
            "{} has {} records, {} to {} were made", name, len(log), lo, hi)
        return len(log)

    if plan["od"] is None:
        ctx.check(optim.dump is None, "dump not asked for", "optimizer.dump is set")
    else:
        u = optim.dump
        n += size("iter_summary", u.iter_summary, h.it, of["dump_summary"])
        t0 = {}
        for i, (s, e) in enumerate(zip(u.iter_summary, h.it)):
            ctx.check(s.idx == i, "summary index", "{} at {}", s.idx, i)
            for k in ("iter_num", "fid_func_call_num", "grad_func_call_num"):
                ctx.check(getattr(s, k) == e[k], "iteration summary",
                          "{} of record {} is {}, was {}", k, i, getattr(s, k), e[k])
            if e["fid_err"] is not None or not e["fid_func_call_num"]:
                ctx.check(eq(s.fid_err, e["fid_err"]), "iteration summary",
                          "fid_err of record {} is {}, was {}", i, s.fid_err, e["fid_err"])
            if e["grad"] is not None:
                want = float(np.sqrt(np.sum(e["grad"] ** 2)))
                ctx.check(eq(s.grad_norm, want) or
                          abs(s.grad_norm - want) <= 1e-9 * (1 + want),
                          "iteration summary", "grad_norm of record {} is {}, was {}",
                          i, s.grad_norm, want)
            elif not e["ng"]:
                ctx.check(s.grad_norm is None, "iteration summary",
                          "grad_norm of record {} without any gradient", i)
            off = e["t"] - s.wall_time
            ctx.check(t0.setdefault(e["run"], off) == off, "iteration summary",
                      "wall time of record {} is off by {}", i, off - t0[e["run"]])
        n += size("fid_err_log", u.fid_err_log, h.f, of["dump_fid_err"])
        for i, (v, e) in enumerate(zip(u.fid_err_log, h.f)):
            ctx.check(e["v"] is None or eq(float(v), e["v"]), "fidelity log",
                      "record {} is {}, the value was {}", i, v, e["v"])
        n += size("grad_norm_log", u.grad_norm_log, h.gn, of["dump_grad_norm"])
        for i, (v, e) in enumerate(zip(u.grad_norm_log, h.gn)):
            want = e["norm"] if e["v"] is None else float(np.sqrt(np.sum(e["v"] ** 2)))
            ctx.check(want is None or eq(v, want) or
                      abs(v - want) <= 1e-9 * (1 + want),
                      "gradient norm log", "record {} is {}, the value was {}", i, v, want)
        n += size("grad_log", u.grad_log, h.g, of["dump_grad"])
        for i, (v, e) in enumerate(zip(u.grad_log, h.g)):
            ctx.check(e["v"] is None or np.array_equal(v, e["v"], equal_nan=True), "gradient log",
                      "record {} is {}, the value was {}", i, v, e["v"])
    if plan["dd"] is None:
        ctx.check(dyn.dump is None, "dump not asked for", "dynamics.dump is set")
    else:
        u = dyn.dump
        items = any(df[k] for k in DFLAGS[1:])
        n += size("evo_dumps", u.evo_dumps, h.evo, items)
        n += size("evo_summary", u.evo_summary, h.evs, df["dump_summary"])
        for i, (s, e) in enumerate(zip(u.evo_summary, h.evs)):
            got = (s.idx, s.num_amps_changed, s.num_timeslots_changed)
            ctx.check(got == (i, e["changed"], e["slots"]), "evolution summary",
                      "index, changed amplitudes and time slots are {}, were {}",
                      got, (i, e["changed"], e["slots"]))
            got = (s.iter_num, s.fid_func_call_num, s.grad_func_call_num)
            ctx.check(got == e["nums"], "evolution summary",
                      "numbers of iteration and calls are {}, were {}", got, e["nums"])
            j = s.evo_dump_idx
            if not items:
                ctx.check(j is None, "evolution summary", "linked item of {} is {}", i, j)
                continue
            ctx.check(
                j is not None and 0 <= j < len(u.evo_dumps)
                and np.array_equal(h.evo[j]["amps"], e["amps"]),
                "evolution summary", "linked item of {} is {}", i, j)
        for i, (it, e) in enumerate(zip(u.evo_dumps, h.evo)):
            ctx.check(it.idx == i, "item index", "{} at {}", it.idx, i)
            check_item(ctx, it, e, df, ep, ref)
    ctx.probe("records in memory", n)
    return n


def near(got, want, ref, amps):
    return ref.evo_close(S.full(got), want, amps)


def check_item(ctx, it, e, df, ep, ref):
    cfg = ep.cfg
    dyn = ep.optim.dynamics
    amps = e["amps"]
    ev = ref.evolve(amps)
    fc = dyn.fid_computer
    exists = {
        "ctrl_amps": True, "dyn_gen": True, "prop": True,
        "prop_grad": bool(dyn.prop_computer.grad_exact and dyn.cache_prop_grad),
        "fwd_evo": True, "onwd_evo": bool(fc.uses_onwd_evo),
        "onto_evo": bool(fc.uses_onto_evo),
    }
    for k, flag in (("ctrl_amps", "dump_amps"),) + tuple(
        (q[5:], q) for q in DFLAGS[2:]
    ):
        v = getattr(it, k)
        want = df[flag] and exists[k]
        ctx.check((v is not None) == want, "item contents",
                  "{} is {} in item {}", k, "missing" if want else "present", it.idx)
        if v is None:
            continue
        n_ts = cfg["n_ts"]
        if k == "ctrl_amps":
            ctx.check(np.array_equal(v, amps), "item amplitudes",
                      "item {}: {} were applied, {} dumped", it.idx, amps, v)
            continue
        if k == "prop_grad":
            ctx.check(v.shape == amps.shape, "item size", "prop_grad {}", v.shape)
            for i in range(n_ts):
                for j in range(amps.shape[1]):
                    ctx.check(near(v[i, j], ref.dprop(amps, i, j), ref, amps),
                              "item value", "prop_grad[{}, {}] of item {}", i, j, it.idx)
            continue
        if k == "dyn_gen":
            want = [ref.dyn_gen(amps, i) for i in range(n_ts)]
        else:
            want = {"prop": ev["props"], "fwd_evo": ev["fwd"],
                    "onwd_evo": ev["onwd"],
                    "onto_evo": ref.onto(amps) if k == "onto_evo" else None}[k]
        ctx.check(len(v) == len(want), "item size", "{} has {} operators of {}",
                  k, len(v), len(want))
        for i in range(len(want)):
            ctx.check(near(v[i], want[i], ref, amps), "item value",
                      "{}[{}] of item {} is {}, expected {}", k, i, it.idx,
                      S.full(v[i]), want[i])


# ---------------------------------------------------------------------------
# files
# ---------------------------------------------------------------------------

NUM = re.compile(r"^\(?[-+0-9.eEjnaif]+\)?$")


def token(t):
    t = t.strip()
    if t == "None":
        return None
    if not NUM.match(t):
        raise ValueError(t)
    return complex(t)


def rows(text, sep):
    """[(header words or None, numbers or None)] for every line."""
    out = []
    for ln in text.split("\n"):
        if not ln.strip():
            continue
        parts = ln.split() if sep == " " else ln.split(sep)
        try:
            out.append((None, [token(p) for p in parts]))
        except ValueError:
            out.append((ln.strip(), None))
    return out


def same(got, want, digits):
    if want is None or got is None:
        return want is None and got is None
    want = complex(want)
    if got == want or (np.isnan(got) and np.isnan(want)):
        return True
    for a, b in ((got.real, want.real), (got.imag, want.imag)):
        if a != b and not abs(a - b) <= 0.51 * 10.0 ** (1 - digits) * abs(b):
            return False
    return True


OPREC = (30, 30, 30, 30, 4, 4, 2)
DPREC = (30,) * 7 + (3,) * 4


def summary_rows(us):
    return [[getattr(s, n) for n in s.summary_property_names] for s in us]


def matrix_rows(m):
    m = S.full(m)
    if m.ndim == 1:
        return [[x] for x in m]
    return [list(r) for r in m]


def compare_rows(ctx, what, got, want, digits):
    """Numeric rows of a file against rows of values."""
    ctx.check(len(got) == len(want), "file size",
              "{} has {} rows, expected {}", what, len(got), len(want))
    for i, (g, v) in enumerate(zip(got, want)):
        d = digits if isinstance(digits, tuple) else (digits,) * len(v)
        ok = len(g) == len(v) and all(same(a, b, p) for a, b, p in zip(g, v, d))
        ctx.check(ok, "file contents", "{} row {}: {} on file, {} recorded",
                  what, i, g, v)


def expected_files(ep, plan, wo, wd):
    """{path: [kind, records]} for what memory holds."""
    out = {}
    optim = ep.optim
    if plan["od"] is not None:
        u = optim.dump
        out[wo.summary()] = ("osum", list(u.iter_summary))
        out[wo.path("fid_err_log")] = ("list", list(u.fid_err_log))
        out[wo.path("grad_norm_log")] = ("list", list(u.grad_norm_log))
        for i, g in enumerate(u.grad_log):
            out[wo.path("fid_err_gradients{}".format(i + 1))] = ("grad", [g])
    if plan["dd"] is not None:
        u = optim.dynamics.dump
        out[wd.summary()] = ("dsum", list(u.evo_summary))
        for it in u.evo_dumps:
            for k in ITEMS:
                v = getattr(it, k)
                if v is not None:
                    out[wd.path("evo{}-{}".format(it.idx, k))] = ("item:" + k, [v])
    return {k: v for k, v in out.items() if v[1]}


ITEMS = ["ctrl_amps", "dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo",
         "onto_evo"]


def item_blocks(k, v):
    """[(numbers in the header, rows)] of an item attribute."""
    if k == "ctrl_amps":
        return [(None, matrix_rows(v))]
    if k == "prop_grad":
        return [((i, j), matrix_rows(v[i, j]))
                for i in range(v.shape[0]) for j in range(v.shape[1])]
    return [((i,), matrix_rows(o)) for i, o in enumerate(v)]


def check_item_rows(ctx, what, k, v, got):
    """Headers with their numbers, each followed by its matrix."""
    blocks = item_blocks(k, v)
    digits = 6 if k == "ctrl_amps" else 15
    if k == "ctrl_amps":
        compare_rows(ctx, what, [n for h, n in got if n is not None], blocks[0][1], digits)
        return
    cur, i = [], -1
    groups = []
    for h, n in got:
        if h is not None:
            groups.append([h, []])
        elif groups:
            groups[-1][1].append(n)
        else:
            ctx.fail("file contents", "{}: numbers before the first header", what)
    ctx.check(len(groups) == len(blocks), "file size", "{} has {} operators, of {}",
              what, len(groups), len(blocks))
    for (h, r), (nums, want) in zip(groups, blocks):
        got_nums = [int(x) for x in re.findall(r"\d+", h)]
        if k == "fwd_evo":
            got_nums = got_nums[1:]  # "from 0 to k"
        ctx.check(got_nums == list(nums), "file header", "{}: {!r} for {}", what, h, nums)
        compare_rows(ctx, what + " " + h, r, want, digits)


def check_file(ctx, name, kind, recs, where, text, n_sure=None):
    """One file; with n_sure, the last record may be missing or torn."""
    torn = n_sure is not None and n_sure < len(recs)
    if kind in ("osum", "dsum"):
        r = rows(text, where.ssep)
        want = summary_rows(recs)
        names = list(recs[0].summary_property_names)
        first = recs[0].idx == 0
        if torn:
            r = text.split("\n")
            full_lines = rows("\n".join(r[:-1]), where.ssep)
            got = [n for h, n in full_lines if n is not None]
            ctx.check(n_sure <= len(got) <= len(recs), "records lost",
                      "{} has {} rows, {} were acknowledged, {} in memory", name, len(got), n_sure, len(recs))
            compare_rows(ctx, name, got, want[:len(got)],
                         OPREC if kind == "osum" else DPREC)
            return
        if first:
            hd = r[0][0] if r else None
            got_names = None if hd is None else (
                hd.split() if where.ssep == " " else hd.split(where.ssep))
            ctx.check(got_names == names, "summary header", "{}: {!r}", name, hd)
            r = r[1:]
        ctx.check(all(n is not None for h, n in r), "file contents",
                  "{} has a line that is not a record: {}", name,
                  [h for h, n in r if h is not None][:1])
        compare_rows(ctx, name, [n for h, n in r], want,
                     OPREC if kind == "osum" else DPREC)
    elif kind == "list":
        if torn:
            text = text[:text.rfind("\n") + 1]
        r = rows(text, " ")
        ctx.check(all(n is not None for h, n in r), "file contents",
                  "{} has a line that is not a number", name)
        got = [n for h, n in r]
        if torn:
            ctx.check(n_sure <= len(got) <= len(recs), "records lost",
                      "{} has {} rows, {} were acknowledged, {} in memory", name, len(got), n_sure, len(recs))
            recs = recs[:len(got)]
        compare_rows(ctx, name, got, [[v] for v in recs], 15)
    elif kind == "grad":
        if torn:
            return
        r = rows(text, where.dsep)
        compare_rows(ctx, name, [n for h, n in r], matrix_rows(recs[0]), 15)
    else:
        if torn:
            return
        r = rows(text, where.dsep)
        check_item_rows(ctx, name, kind[5:], recs[0], r)


def tree(w):
    out = {}
    for d, _, names in os.walk(w.scratch):
        for n in names:
            p = os.path.join(d, n)
            with io.open(p, "rb") as f:
                out[p] = f.read().decode("utf-8", "replace")
    return out


def check_disk(ctx, plan, ep, wo, wd, sure=None, stale=(), only=None):
    """Files against memory; `sure` gives acknowledged counts per kind."""
    w = ctx.w
    w.fs_armed = False
    files = tree(w)
    want = expected_files(ep, plan, wo, wd)
    n = 0
    for p, (kind, recs) in want.items():
        on = plan["od"] if kind in ("osum", "list", "grad") else plan["dd"]
        if only is None and not on["file"]:
            continue
        rel = os.path.relpath(p, w.scratch)
        k = None
        if sure is not None:
            k = sure(p, kind, recs)
            if k == 0 and p not in files:
                continue
        if k is None or k == len(recs):
            ctx.check(p in files, "file missing",
                      "{} with {} records is not there", rel, len(recs))
            k = None
        elif p not in files:
            ctx.check(k == 0, "file missing", "{} with {} acknowledged records", rel, k)
            continue
        where = wo if on is plan["od"] else wd
        check_file(ctx, rel, kind, recs, where, files[p], k)
        n += len(recs)
    if only is None:
        off = {p for p, (kind, r) in want.items() if not (
            plan["od"] if kind in ("osum", "list", "grad") else plan["dd"])["file"]}
        extra = sorted(set(files) - (set(want) - off) - set(stale))
        ctx.check(not extra, "unexpected file", "{}",
                  [os.path.relpath(p, w.scratch) for p in extra])
    w.fs_armed = True
    ctx.probe("records in files", n)


def acknowledged(h):
    """Number of records of each file that must be complete on disk."""
    lo = {"it": bounds_of(h.it)[0], "f": bounds_of(h.f)[0],
          "g": bounds_of(h.g)[0], "evo": bounds_of(h.evo)[0]}

    def sure(p, kind, recs):
        if kind == "osum":
            return min(lo["it"], len(recs))
        if kind == "dsum":
            return min(lo["evo"], len(recs))
        if kind == "list":
            k = lo["f"] if "fid_err_log" in os.path.basename(p) else lo["g"]
            return min(k, len(recs))
        if kind == "grad":
            i = int(re.search(r"gradients(\d+)\.", os.path.basename(p)).group(1))
            return 1 if i <= lo["g"] else 0
        i = int(re.search(r"-evo(\d+)-", os.path.basename(p)).group(1))
        return 1 if i < lo["evo"] else 0

    return sure


# ---------------------------------------------------------------------------


def one_run(ctx, w, ep, h, st_run):
    ended = "done"
    w.minim = ep.minim
    try:
        ep.start_pulse()
        ep.optimise()
        if ep.exc is not None:
            ended = type(ep.exc).__name__
            ep.exc.__traceback__ = None
    except BaseException as e:
        if not getattr(e, "sim_injected", False):
            raise
        ended = type(e).__name__
        e.__traceback__ = None
        ep.exc = e
        if not hasattr(ep, "amps0"):
            return "init " + ended
    gc.collect()
    h.add(ep)
    return ended


def body(ctx, plan):
    cfg, run = plan["cfg"], plan["run"]
    with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                   faults=plan["faults"], max_steps=400000) as w:
        w.blk = plan.get("blk")
        w.armed = False
        w.fs_armed = False
        ep = setup(ctx, w, plan)
        w.armed = w.fs_armed = True
        ref = S.Ref(cfg, ep.parts)
        h = Hist()
        wo = Where(w, plan["od"], "o") if plan["od"] else None
        wd = Where(w, plan["dd"], "d") if plan["dd"] else None
        ended = one_run(ctx, w, ep, h, run)
        crashed = w.dead
        w.armed = False
        if ended.startswith("init "):
            ctx.probe("ended before the first evaluation")
            return
        ctx.check(
            ended == "done" or ep.exc in w.injected, "changed exception",
            "{!r} came out, injected {!r}", ep.exc, w.injected)
        ref.adopt_tau(ep.optim.dynamics)
        n = check_memory(ctx, plan, ep, h, ref)
        w.dead = False
        w.sticky = None
        stale = []
        clash = plan["od"] and plan["dd"] and wo.summary() == wd.summary()
        if not clash:
            check_disk(ctx, plan, ep, wo, wd, acknowledged(h)
                       if ended != "done" else None, stale)
        ctx.probe("ended by " + ended)
        ctx.probe("records", n)
        if crashed:
            restart(ctx, plan, w, clash)
        else:
            for r2, ch in plan["again"]:
                again(ctx, plan, w, ep, h, r2, ch, ref,
                      ended == "done" and not clash)
                ctx.probe("second runs")
            if not clash:
                writeout(ctx, plan, w, ep)
    ctx.state(repr(plan["od"]), repr(plan["dd"]), cfg["dyn"], cfg["prop_eff"],
              cfg["fid_eff"], cfg["dtype"], ended,
              w.fs_log[-1] if ended == "OSError" and w.fs_log else None)


def again(ctx, plan, w, ep, h, r2, ch, ref, whole):
    """Another run on the same objects; the dump goes on."""
    optim = ep.optim
    w.np_seed = r2["np_seed"]
    np.random.seed(r2["np_seed"])
    before = {}
    p2 = dict(plan)
    for d, name, o in ((plan["od"], "od", optim), (plan["dd"], "dd", optim.dynamics)):
        if d is None:
            continue
        d2 = dict(d)
        if "dir" in ch and not d.get("sfile"):
            ctx.sut(setattr, o, "dump_dir", raw_dir(w, ch["dir"]))
            d2["dir"] = ch["dir"]
        if "base" in ch:
            d2["base"] = ch["base"] + name
            ctx.sut(setattr, o.dump, "fname_base", d2["base"])
        p2[name] = d2
    old = set(tree(w))
    e2 = E.Episode(ctx, w, ep.cfg, dict(r2, stats=ep.run["stats"]), ep.parts)
    e2.optim = optim
    e2.minim.probe_amps = lambda: optim.dynamics.ctrl_amps
    if e2.run["alg"] == "GRAPE":
        a = np.random.RandomState(r2["np_seed"]).normal(
            size=(ep.cfg["n_ts"], ep.cfg["n_ctrls"]))
        orig = e2.start_pulse
        e2.start_pulse = lambda amps=None: orig(a)
    ended = one_run(ctx, w, e2, h, r2)
    ctx.check(ended == "done", "changed exception", "{} in a second run", ended)
    # records that were in flight in the first run may be missing for good
    drop_unsure(h, ep.optim, plan)
    check_memory(ctx, p2, e2, h, ref)
    plan["od"], plan["dd"] = p2["od"], p2["dd"]
    if whole and not ch:
        # the files go on, too
        check_disk(ctx, p2, e2, Where(w, p2["od"], "o") if p2["od"] else None,
                   Where(w, p2["dd"], "d") if p2["dd"] else None)


def drop_unsure(h, optim, plan):
    """Remove expected records that turned out not to have been made."""
    u, v = optim.dump, optim.dynamics.dump
    for recs, log in (
        (h.it, u and u.iter_summary), (h.f, u and u.fid_err_log),
        (h.g, u and u.grad_log), (h.gn, u and u.grad_norm_log),
        (h.evo, v and v.evo_dumps), (h.evs, v and v.evo_summary),
    ):
        for i in range(len(recs) - 1, -1, -1):
            if log is not None and len(recs) > len(log) and not recs[i]["sure"]:
                del recs[i]
            else:
                recs[i]["sure"] = True


def restart(ctx, plan, w, clash):
    """A new process uses the same directories."""
    old = tree(w)
    np.random.seed(plan["run"]["np_seed"])
    ep = setup(ctx, w, plan)
    h = Hist()
    ended = one_run(ctx, w, ep, h, plan["run"])
    ctx.check(ended == "done", "changed exception", "{} after a restart", ended)
    ref = S.Ref(plan["cfg"], ep.parts)
    ref.adopt_tau(ep.optim.dynamics)
    check_memory(ctx, plan, ep, h, ref)
    wo = Where(w, plan["od"], "o") if plan["od"] else None
    wd = Where(w, plan["dd"], "d") if plan["dd"] else None
    if not clash:
        check_disk(ctx, plan, ep, wo, wd, None, stale=old)
    ctx.probe("restarts")


def writeout(ctx, plan, w, ep):
    """The fault has cleared: files equal memory after a writeout."""
    optim = ep.optim
    wo = Where(w, plan["od"], "o") if plan["od"] else None
    wd = Where(w, plan["dd"], "d") if plan["dd"] else None
    old = tree(w)
    for u, d in ((optim.dump, plan["od"]), (optim.dynamics.dump, plan["dd"])):
        if d is None:
            continue
        u.log_level = logging.INFO
        said(ctx, lambda: ctx.sut(u.writeout), u.dump_dir)
        ctx.probe("writeouts")
        broken(ctx, plan, u)
    check_disk(ctx, plan, ep, wo, wd, None, stale=old, only="all")
    for u, d, where in ((optim.dump, plan["od"], wo),
                        (optim.dynamics.dump, plan["dd"], wd)):
        if d is None:
            continue
        text = in_one(ctx, plan, w, u)
        one_file(ctx, u, where, text, u is optim.dump)
        items = [] if u is optim.dump else list(u.evo_dumps)
        if items:
            it = items[plan["cfg"]["mseed"] % len(items)]
            one_file(ctx, u, where, in_one(ctx, plan, w, it), False, [it])
            ctx.sut(it.writeout)
            ctx.probe("items written")
            check_disk(ctx, plan, ep, wo, wd, None, stale=old, only="all")


class Full(io.BytesIO):
    """A stream on a device that fills up."""

    mode = "wb"

    def __init__(self, room):
        io.BytesIO.__init__(self)
        self.room = room
        self.exc = None

    def write(self, b):
        self.room -= 1
        if self.room < 0:
            if self.exc is None:
                self.exc = OSError(errno.ENOSPC, "no room (simulated)")
                self.exc.sim_injected = True
            raise self.exc
        return io.BytesIO.write(self, b)


def said(ctx, call, where):
    """The log says where the dump was saved, exactly if it was."""
    env.LOG.records = []
    call()
    got = [m for _, _, m in env.LOG.records
           if re.search(r"dump saved to ", m)]
    want = [] if where is None else [str(where)]
    ctx.check(
        len(got) == len(want) and all(
            g.endswith("saved to " + x) for g, x in zip(got, want)),
        "said to be saved", "{!r}, saved to {!r}", got, where)


def broken(ctx, plan, u):
    """A writeout that fails is not reported as saved."""
    f = Full(plan["cfg"]["mseed"] % 4)

    def call():
        try:
            ctx.sut(u.writeout, f)
        except OSError as e:
            ctx.check(e is f.exc, "changed exception", "{!r} came out, the "
                      "stream raised {!r}", e, f.exc)
            ctx.probe("writeouts that failed")

    if writes(ctx, u) > f.room:
        said(ctx, call, None)
        ctx.check(f.exc is not None, "swallowed", "all writes went through")
    ctx.check(not f.closed, "stream closed", "by writeout")


def writes(ctx, u):
    """How many writes a writeout to a stream takes."""
    f = Full(10**9)
    said(ctx, lambda: ctx.sut(u.writeout, f), "specified stream")
    return 10**9 - f.room


def in_one(ctx, plan, w, u):
    """What is written when one file is asked for."""
    path = os.path.join(w.scratch, "all-in-one")
    before = b""
    if plan["out"] == "file":
        said(ctx, lambda: ctx.sut(u.writeout, path),
             path if hasattr(u, "dump_dir") else None)
    elif plan["out"] == "stream":
        before = b"of the caller\n"
        with io.open(path, "wb") as f:
            f.write(before)
            ctx.sut(u.writeout, f)
            ctx.check(not f.closed, "stream closed", "by writeout")
    else:
        b = io.BytesIO()
        b.mode = "wb"
        ctx.sut(u.writeout, b)
        ctx.check(not b.closed, "stream closed", "by writeout")
        with io.open(path, "wb") as f:
            f.write(b.getvalue())
    with io.open(path, "rb") as f:
        text = f.read()
    os.remove(path)
    ctx.check(text.startswith(before), "stream", "written over: {!r}", text[:40])
    return text[len(before):].decode()


def split_any(ln, seps):
    for s in seps:
        parts = ln.split() if s == " " else ln.split(s)
        try:
            return [token(p) for p in parts]
        except ValueError:
            continue
    return None


def one_file(ctx, u, where, text, is_o, only=None):
    """All rows of numbers of a single file, in order."""
    got, heads, h = [], [], None
    for ln in text.split("\n"):
        if ln.strip():
            r = split_any(ln, [where.ssep, where.dsep, " "])
            if r is not None:
                got.append(r)
                heads.append(h)
                h = None
            else:
                h = ln
    want = []
    prec = []
    begin = {}

    def add(rs, p, kind=None, nums=None):
        if rs:
            begin[len(want)] = (kind, nums)
        want.extend(rs)
        prec.extend([p] * len(rs))

    f = {k: getattr(u, k) for k in (OFLAGS if is_o else DFLAGS)}
    if is_o:
        if f["dump_summary"]:
            add(summary_rows(u.iter_summary), OPREC)
        if f["dump_fid_err"]:
            add([[v] for v in u.fid_err_log], 15)
        if f["dump_grad_norm"]:
            add([[v] for v in u.grad_norm_log], 15)
        if f["dump_grad"]:
            for g in u.grad_log:
                add(matrix_rows(g), 15)
    else:
        if f["dump_summary"] and only is None:
            add(summary_rows(u.evo_summary), DPREC)
        for it in u.evo_dumps if only is None else only:
            for k in ITEMS:
                v = getattr(it, k)
                if v is not None:
                    for nums, rs in item_blocks(k, v):
                        add(rs, 6 if k == "ctrl_amps" else 15, k, nums)
    ctx.check(len(got) == len(want), "file size",
              "single file has {} rows, expected {}", len(got), len(want))
    for i, (g, v, p) in enumerate(zip(got, want, prec)):
        d = p if isinstance(p, tuple) else (p,) * len(v)
        ctx.check(len(g) == len(v) and all(same(a, b, q) for a, b, q in zip(g, v, d)),
                  "file contents", "single file row {}: {} on file, {} recorded", i, g, v)
    # every operator stands below a line that tells what it is
    titles = {}
    for i, (kind, nums) in sorted(begin.items()):
        if nums is None:
            continue
        h = heads[i] or ""
        got_nums = [int(x) for x in re.findall(r"\d+", h)]
        if kind == "fwd_evo":
            got_nums = got_nums[1:]
        ctx.check(got_nums == list(nums), "file header",
                  "single file: {!r} for {} {}", h, kind, nums)
        t = re.sub(r"\d+", "#", h)
        ctx.check(titles.setdefault(t, kind) == kind, "file header",
                  "single file: {!r} for {} and {}", t, kind, titles.get(t))


def nontrivial(out):
    return out.probes.get("records", 0) >= 3
