"""Seeded search for violations of one property.

  python -m sim.run C01 quick            the check
  python -m sim.run C01 quick --hashes A B   event-log hashes (self test)
"""
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

PERF = time.perf_counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHUNK = 32
SELFTEST = 24
CAP_QUICK = 240.0
CAP_THOROUGH = 700.0


def load_check(prop):
    return importlib.import_module("sim.checks." + prop.lower())


def plan_for(check, seed, index, tier):
    from . import core

    return core.jclone(check.gen(core.rng_for(seed, check.ID, index), tier))


def _chunk_worker(args):
    """Runs one chunk in a freshly forked process."""
    prop, seed, tier, a, b, deadline = args
    from . import core

    check = load_check(prop)
    res = {
        "a": a, "done": 0, "fired": {}, "probes": {}, "states": set(),
        "nontrivial": 0, "plans": set(), "sim_time": 0.0, "events": 0,
        "violations": [], "harness": [], "hashes": {}, "sample": None,
        "logs": set(),
    }
    for i in range(a, b):
        if PERF() > deadline:
            break
        try:
            plan = plan_for(check, seed, i, tier)
            o = core.run_plan(check, plan)
        except Exception as e:
            import traceback

            res["harness"].append((i, traceback.format_exc()))
            continue
        res["done"] += 1
        for k, v in o.fired.items():
            res["fired"][k] = res["fired"].get(k, 0) + v
        for k, v in o.probes.items():
            res["probes"][k] = res["probes"].get(k, 0) + v
        res["states"] |= o.states
        res["sim_time"] += o.sim_time
        res["events"] += o.n_events
        res["logs"].add(o.hash[:16])
        if check.nontrivial(o):
            res["nontrivial"] += 1
        if i < n_selftest(check, tier):
            res["hashes"][i] = o.hash
        if i == 0:
            res["sample"] = plan
        if o.harness_error:
            res["harness"].append((i, o.harness_error))
        elif o.violation:
            res["violations"].append((i, o.violation, o.hash))
            if len(res["violations"]) >= 3:
                break
    return res


class Chunks:
    """fn(task) for all tasks, each in a freshly forked process.

    Yields results in the order of completion. A process that dies without
    a result (the interpreter itself crashed) is tried once more; then a
    string is yielded instead of a result.
    """

    def __init__(self, fn, tasks, workers, t_end):
        self.fn, self.tasks, self.workers = fn, list(tasks), workers
        self.t_end = t_end
        self.live = {}

    def _start(self, task, tries):
        r, w = mp.Pipe(False)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                r.close()
                for c in self.live:
                    c.close()
                w.send(self.fn(task))
                w.close()
                code = 0
            except BaseException:
                import traceback

                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        w.close()
        self.live[r] = (pid, task, tries)

    def __iter__(self):
        from multiprocessing.connection import wait

        nxt = 0
        while nxt < len(self.tasks) or self.live:
            while nxt < len(self.tasks) and len(self.live) < self.workers:
                self._start(self.tasks[nxt], 0)
                nxt += 1
            ready = wait(list(self.live), timeout=max(0.1, self.t_end - PERF()))
            if not ready and PERF() > self.t_end:
                yield "a worker process is stuck"
                return
            for c in ready:
                pid, task, tries = self.live.pop(c)
                try:
                    res = c.recv()
                except EOFError:
                    res = None
                c.close()
                _, st = os.waitpid(pid, 0)
                if res is not None:
                    yield res
                elif tries == 0:
                    self._start(task, 1)
                else:
                    yield "a worker process died twice (status {}): {}".format(
                        st, task)

    def close(self):
        import signal

        for c, (pid, _, _) in self.live.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            c.close()
        self.live = {}


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [
        k for k in data.get("findings", []) if k["property"] == prop
    ]


def is_known(finding, viol):
    return finding["kind"] == viol["kind"] and re.search(
        finding.get("detail_re", ""), viol["detail"], re.S
    ) is not None


def hashes_cmd(prop, tier, seed, a, b):
    from . import core

    check = load_check(prop)
    out = {}
    for i in range(a, b):
        out[i] = core.run_plan(check, plan_for(check, seed, i, tier)).hash
    print("HASHES " + json.dumps(out))


def n_selftest(check, tier):
    n = getattr(check, "SELFTEST", SELFTEST)
    if tier != "quick":
        n = getattr(check, "SELFTEST_THOROUGH", n)
    return n


def selftest(prop, tier, seed, n, workers):
    """Same seeds in fresh interpreters under other hash seeds."""
    import tempfile

    k = min(workers, max(1, n // 24))
    cuts = [n * i // k for i in range(k + 1)]
    ps, res = [], {}
    with tempfile.TemporaryDirectory(prefix="qtrlsim-self-") as tmp:
        for i in range(k):
            e = dict(os.environ)
            e["PYTHONHASHSEED"] = str(4242 + i)
            e["TZ"] = ["UTC", "Asia/Tokyo", "America/New_York"][i % 3]
            if i % 2:
                e["HOME"] = tmp
                e["LC_ALL"] = "C"
            out = open(os.path.join(tmp, "out%d" % i), "w+")
            err = open(os.path.join(tmp, "err%d" % i), "w+")
            p = subprocess.Popen(
                [sys.executable, "-m", "sim.run", prop, tier, "--hashes",
                 str(cuts[i]), str(cuts[i + 1]), "--seed", str(seed)],
                cwd=VERIF, env=e, stdout=out, stderr=err,
            )
            ps.append((p, out, err))
        t_end = PERF() + 600
        for p, out, err in ps:
            try:
                p.wait(timeout=max(1.0, t_end - PERF()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            out.seek(0)
            err.seek(0)
            got = [ln for ln in out if ln.startswith("HASHES ")]
            msg = err.read()[-2000:]
            out.close()
            err.close()
            if not got:
                for q, _, _ in ps:
                    q.kill()
                raise RuntimeError("self test failed: " + msg)
            res.update({int(a): b for a, b in json.loads(got[0][7:]).items()})
    return res


def replay_in_fresh_process(path):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = "77"
    p = subprocess.run(
        [sys.executable, "-m", "sim.replay", path],
        cwd=VERIF, env=e, capture_output=True, text=True, timeout=300,
    )
    return p.returncode == 1 and "REPRODUCED" in p.stdout


def write_replay(path, check, seed, tier, index, plan, viol, h, prefix, orig):
    with open(path, "w") as f:
        json.dump(
            {
                "property": check.ID, "verif_seed": seed, "tier": tier,
                "index": index, "violation": viol, "event_log_hash": h,
                "plan": plan, "prefix": prefix, "original_plan": orig,
                "how": "python -m sim.replay <this file>  (in /verif)",
            },
            f, indent=1, sort_keys=True,
        )


def report(check, seed, tier, index, viol, h, chunk_a, budget):
    """Minimise, write the replay file, confirm it, return its path."""
    from . import core, shrink

    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    kind = re.sub(r"[^A-Za-z0-9]+", "_", viol["kind"])[:40]
    path = os.path.join(
        VERIF, "replays", "{}-s{}-{}-{}.json".format(check.ID, seed, index, kind)
    )
    orig = plan_for(check, seed, index, tier)

    def forked(fn, *a):
        # the minimiser must not inherit what earlier runs left behind
        procs = Chunks(lambda t: fn(*t), [a], 1, PERF() + 2 * budget + 120)
        try:
            for r in procs:
                return (None, None) if isinstance(r, str) else r
        finally:
            procs.close()

    def try_plain():
        small, tried = shrink.shrink(check, orig, viol["kind"], budget)
        return small, tried

    def run_one(p):
        o = core.run_plan(check, core.jclone(p))
        return o.violation, o.hash

    small, tried = forked(try_plain)
    if small is None:
        small, tried = orig, 0
    v, hh = forked(run_one, small)
    if v is not None and v["kind"] == viol["kind"]:
        write_replay(path, check, seed, tier, index, small, v, hh, [], orig)
        if replay_in_fresh_process(path):
            return path, v, tried
    # depends on what ran earlier in the process: keep the runs before it
    prefix = [plan_for(check, seed, i, tier) for i in range(chunk_a, index)]

    def with_prefix(ps):
        for p in ps:
            core.run_plan(check, core.jclone(p))
        return run_one(orig)

    keep = list(prefix)
    i = 0
    t_end = PERF() + budget
    while i < len(keep) and PERF() < t_end:
        c = keep[:i] + keep[i + 1:]
        v, hh = forked(with_prefix, c)
        if v is not None and v["kind"] == viol["kind"]:
            keep = c
        else:
            i += 1
    v, hh = forked(with_prefix, keep)
    write_replay(path, check, seed, tier, index, orig, v or viol, hh, keep, orig)
    return path, v or viol, tried


def main(argv):
    if argv[0] == "--selfcheck":
        import glob

        for f in sorted(glob.glob(os.path.join(VERIF, "sim", "checks", "c*.py"))):
            load_check(os.path.basename(f)[:-3])
        print("imports ok")
        return 0
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("-") else (
        os.environ.get("VERIF_TIER", "quick")
    )
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    if "--hashes" in argv:
        k = argv.index("--hashes")
        hashes_cmd(prop, tier, seed, int(argv[k + 1]), int(argv[k + 2]))
        return 0
    t0 = PERF()
    print("{} {} VERIF_SEED={}".format(prop, tier, seed), flush=True)
    check = load_check(prop)
    n = check.N_QUICK if tier == "quick" else check.N_THOROUGH
    if "--n" in argv:
        n = int(argv[argv.index("--n") + 1])
    cap = CAP_QUICK if tier == "quick" else CAP_THOROUGH
    deadline = t0 + cap
    workers = min(8, os.cpu_count() or 1)
    if "--workers" in argv:
        workers = int(argv[argv.index("--workers") + 1])
    known = known_findings(prop)
    agg = {
        "done": 0, "fired": {}, "probes": {}, "states": set(),
        "nontrivial": 0, "sim_time": 0.0, "events": 0, "logs": set(),
    }
    violations, harness, hashes, sample = [], [], {}, None
    known_hits = {}
    chunk = getattr(check, "CHUNK", CHUNK)
    tasks = [
        (prop, seed, tier, a, min(n, a + chunk), deadline)
        for a in range(0, n, chunk)
    ]
    procs = Chunks(_chunk_worker, tasks, workers, deadline + 90.0)
    try:
        for r in procs:
            if isinstance(r, str):
                harness.append((-1, r))
                continue
            for k in ("done", "nontrivial", "sim_time", "events"):
                agg[k] += r[k]
            for k in ("fired", "probes"):
                for kk, v in r[k].items():
                    agg[k][kk] = agg[k].get(kk, 0) + v
            agg["states"] |= r["states"]
            agg["logs"] |= r["logs"]
            hashes.update(r["hashes"])
            sample = sample or r["sample"]
            harness += r["harness"]
            for (i, v, h) in r["violations"]:
                kf = [k for k in known if is_known(k, v)]
                if kf:
                    known_hits[kf[0]["id"]] = known_hits.get(kf[0]["id"], 0) + 1
                else:
                    violations.append((i, v, h, r["a"]))
            if violations or len(harness) > 20:
                break
    finally:
        procs.close()
    t_search = PERF() - t0

    mism = None
    if not violations and not harness:
        st = {i: h for i, h in hashes.items() if i < n}
        again = selftest(
            prop, tier, seed, min(n_selftest(check, tier), n), workers
        )
        mism = sorted(i for i in st if again.get(i) != st[i])
        if mism and getattr(check, "DETERMINISM_IS_PROPERTY", False):
            i = mism[0]
            violations.append(
                (
                    i,
                    {
                        "kind": "nondeterminism",
                        "detail": "seed index {} gives another event log in a "
                        "fresh interpreter (other PYTHONHASHSEED, no "
                        "preceding runs)".format(i),
                    },
                    st[i], (i // chunk) * chunk,
                )
            )

    extra = {}
    if not violations and not harness and hasattr(check, "after"):
        extra_v, extra = check.after(seed, tier)
        for v in extra_v:
            violations.append((-1, v, "", 0))

    rc = 0
    vio_out = []
    for k in known:
        print("KNOWN-FINDING: property={} {}".format(prop, k["what"]))
    if violations:
        rc = 1
        seen = set()
        for (i, v, h, a) in sorted(violations, key=lambda x: x[0]):
            if v["kind"] in seen or len(seen) >= 3:
                continue
            seen.add(v["kind"])
            if i < 0 or v["kind"] == "nondeterminism":
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                path = os.path.join(
                    VERIF, "replays", "{}-s{}-{}.json".format(
                        prop, seed, re.sub(r"[^A-Za-z0-9]+", "_", v["kind"])[:40]
                    ),
                )
                plan = plan_for(check, seed, i, tier) if i >= 0 else v.pop("plan", None)
                write_replay(
                    path, check, seed, tier, i, plan, v, h,
                    [plan_for(check, seed, j, tier) for j in range(a, i)]
                    if i >= 0 else [], plan,
                )
                v2 = v
            else:
                path, v2, _ = report(
                    check, seed, tier, i, v, h, a, 40.0 if tier == "quick" else 120.0
                )
            print("VIOLATION property={} replay={}".format(prop, path))
            print("  seed={} index={} kind={}\n  {}".format(
                seed, i, v2["kind"], v2["detail"][:1500]))
            vio_out.append({"kind": v2["kind"], "detail": v2["detail"][:1500],
                            "replay": path, "seed": seed, "index": i})
    elif harness:
        rc = 2
        print("HARNESS ERROR in {} run(s); first:\nindex {}\n{}".format(
            len(harness), harness[0][0], harness[0][1]))
    if agg["done"] == 0 and rc == 0:
        rc = 2
        print("no run completed")
    wall = PERF() - t0
    cov = {
        "evaluations": agg["done"],
        "distinct_nontrivial": min(agg["nontrivial"], len(agg["logs"])),
        "rule": check.RULE,
        "samples": [sample],
        "runs_planned": n,
        "simulated_runs_per_hour": int(agg["done"] / max(t_search, 1e-9) * 3600),
        "seeds_per_hour": int(agg["done"] / max(t_search, 1e-9) * 3600),
        "simulated_time_s": round(agg["sim_time"], 3),
        "events_logged": agg["events"],
        "faults_injected": dict(sorted(agg["fired"].items())),
        "distinct_event_logs": len(agg["logs"]),
        "distinct_states": len(agg["states"]),
        "states_measure": "distinct abstract states, see rule",
        "probes": dict(sorted(agg["probes"].items())),
        "components_real": check.REAL,
        "components_stub": check.STUB,
        "workers": workers,
        "determinism_selftest": {
            "seeds_rerun_in_fresh_interpreter_other_hashseed":
                0 if mism is None else len(st),
            "mismatches": [] if mism is None else mism,
        },
        "known_finding_hits": known_hits,
    }
    cov.update(extra)
    if vio_out:
        cov["violations_found"] = vio_out
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "wall_s": round(wall, 2), "violations": len(vio_out),
        "assumptions": check.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print(
        "{}: {} runs ({} non-trivial), {} states, {} faults, {:.1f} s, "
        "exit {}".format(
            prop, agg["done"], agg["nontrivial"], len(agg["states"]),
            sum(agg["fired"].values()), wall, rc,
        )
    )
    if mism:
        print("note: event logs differ in a fresh interpreter for", mism)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
