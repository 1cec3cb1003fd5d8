"""Minimisation of a failing plan: fewer operations, faults, simpler config."""
import time

from . import core, systems


def _ddmin(items, test):
    n = 2
    items = list(items)
    while len(items) >= 1:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        reduced = False
        for i in range(len(chunks)):
            cand = [x for j, c in enumerate(chunks) if j != i for x in c]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


CFG_SIMPLE = {
    "n_ts": [1, 2, 3],
    "n_ctrls": [1, 2],
    "dim": ["2", "3"],
    "tau": [None],
    "td_drift": [False],
    "td_ctrl": [False],
    "mem": [0],
    "dtype": [None],
    "cache_phased_dyn_gen": [None],
    "cache_prop_grad": [None],
    "cache_dyn_gen_eigenvectors_adj": [None],
    "stats": [False],
    "scale": [None],
    "shape": ["pauli", "random"],
    "task": ["gate"],
    "phase": ["PSU"],
    "evo_time": [1.0],
}


def _list_keys(plan):
    return [
        k for k, v in sorted(plan.items())
        if isinstance(v, list) and k not in getattr(plan, "fixed", ())
    ]


def shrink(check, plan, kind, budget_s=60.0, prefix=()):
    """Smaller plan with the same kind of violation (or the plan itself)."""
    t_end = time.perf_counter() + budget_s
    tried = [0]

    def fails(p):
        if time.perf_counter() > t_end:
            return False
        tried[0] += 1
        try:
            o = core.run_plan(check, core.jclone(p))
        except Exception:
            return False
        return (
            o.harness_error is None
            and o.violation is not None
            and o.violation["kind"] == kind
        )

    best = core.jclone(plan)
    if not fails(best):
        return best, tried[0]
    fixed = set(getattr(check, "SHRINK_FIXED", ()))
    while True:
        before = repr(best)
        # operations / faults
        for key in _list_keys(best):
            if key in fixed:
                continue

            def test(items, key=key):
                c = core.jclone(best)
                c[key] = items
                return fails(c)

            best[key] = _ddmin(best[key], test)
        # faults attached to operations, and optional arguments
        for key in _list_keys(best):
            for i, o in enumerate(best[key]):
                if not isinstance(o, dict):
                    continue
                for sub in [k for k, v in o.items() if isinstance(v, list)]:
                    j = 0
                    while j < len(best[key][i].get(sub, [])):
                        c = core.jclone(best)
                        del c[key][i][sub][j]
                        if not c[key][i][sub]:
                            del c[key][i][sub]
                        if fails(c):
                            best = c
                        else:
                            j += 1
                        if sub not in best[key][i]:
                            break
        # configuration
        if isinstance(best.get("cfg"), dict):
            for k, vals in CFG_SIMPLE.items():
                if k not in best["cfg"]:
                    continue
                for v in vals:
                    if best["cfg"][k] == v:
                        break
                    c = core.jclone(best)
                    c["cfg"][k] = v
                    if c["cfg"].get("dyn") == "SYMPL" and k == "dim" and v == "3":
                        continue
                    try:
                        systems.normalise(c["cfg"])
                    except Exception:
                        continue
                    if fails(c):
                        best = c
                        break
        for f in getattr(check, "simplify", lambda p: [])(best):
            if fails(f):
                best = core.jclone(f)
        if repr(best) == before or time.perf_counter() > t_end:
            return best, tried[0]
