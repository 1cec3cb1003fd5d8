"""What a user (or minimiser) can see of an optimisation, in comparable form.

Two traces of the same code under the same inputs must be equal bit for bit.
"""
import numpy as np
from qutip import Qobj


def val(v):
    if isinstance(v, Qobj):
        return ("Q", v.full().tobytes(), repr(v.dims))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("O", v.shape, tuple(val(x) for x in v.ravel()))
        return ("A", v.tobytes(), v.shape, str(v.dtype))
    if isinstance(v, np.generic):
        return ("S", repr(v.item()))
    if isinstance(v, (list, tuple)):
        return ("L",) + tuple(val(x) for x in v)
    if isinstance(v, dict):
        return ("D",) + tuple((k, val(v[k])) for k in sorted(v))
    if isinstance(v, (int, float, complex, str, bool, type(None))):
        return ("S", repr(v))
    return ("T", type(v).__name__)


RESULT = [
    "initial_fid_err", "fid_err", "goal_achieved", "grad_norm_final",
    "grad_norm_min_reached", "num_iter", "max_iter_exceeded",
    "num_fid_func_calls", "max_fid_func_exceeded",
    "wall_time_limit_exceeded", "termination_reason", "time", "initial_amps",
    "final_amps", "evo_full_final", "evo_full_initial",
]
TIMES = ["wall_time"]
COUNTERS = [
    "num_iter", "num_fidelity_func_calls", "num_grad_func_calls",
    "num_tslot_recompute", "num_fidelity_computes", "num_grad_computes",
    "num_ctrl_amp_updates", "num_timeslot_changes", "num_ctrl_amp_changes",
]


def of_result(res, times=False, stats=False):
    d = {}
    if res is None:
        return d
    for f in RESULT + (TIMES if times else []):
        v = getattr(res, f)
        d[f] = ("S", bool(v)) if f in (
            "goal_achieved", "grad_norm_min_reached", "max_iter_exceeded",
            "max_fid_func_exceeded", "wall_time_limit_exceeded",
        ) else val(v)
    if stats and res.stats is not None:
        for k in COUNTERS:
            d["stats." + k] = val(int(getattr(res.stats, k)))
    return d


def of_run(minim):
    """Everything that crossed the interface to the minimiser."""
    out = []
    for st in minim.starts:
        out.append((
            "start", st["entry"], str(st["method"]), val(st["x0"]),
            val(bounds(st["bounds"])), val(st["options"]), val(st["kw"]),
            st["jac"],
        ))
    for e in minim.events:
        out.append((
            e["t"], val(e["x"]), val(e["ret"]), e["exc"], val(e["amps"]),
        ))
    return out


def bounds(b):
    return None if b is None else [tuple(x) for x in b]


def of_episode(ep, times=False, stats=False):
    return {
        "run": of_run(ep.minim),
        "result": of_result(ep.result, times, stats),
        "exc": type(ep.exc).__name__ if ep.exc is not None else None,
    }


def show(v):
    if isinstance(v, tuple) and v and v[0] == "A":
        return repr(np.frombuffer(v[1], dtype=v[3]).reshape(v[2]))
    if isinstance(v, tuple) and v and v[0] == "Q":
        return "Qobj" + repr(np.frombuffer(v[1], dtype=complex))
    return repr(v)


def number(v):
    if isinstance(v, tuple) and v:
        if v[0] == "A":
            return np.frombuffer(v[1], dtype=v[3])
        if v[0] == "Q":
            return np.frombuffer(v[1], dtype=complex)
        if v[0] == "S":
            try:
                return np.array(complex(v[1].replace("inf", "1e300")))
            except (ValueError, TypeError, AttributeError):
                return None
    return None


def differ(p, q, tol):
    if p == q:
        return False
    if not tol:
        return True
    a, b = number(p), number(q)
    if a is None or b is None or a.shape != b.shape:
        return True
    m = 1 + (float(np.max(np.abs(b))) if b.size else 0.0)
    return not bool(np.all(np.abs(a - b) <= tol * m))


def difference(a, b, tol=0):
    """None, or a description of the first difference."""
    if a["exc"] != b["exc"]:
        return "ended with {} / {}".format(a["exc"], b["exc"])
    for i, (x, y) in enumerate(zip(a["run"], b["run"])):
        if x != y:
            for p, q, nm in zip(x, y, (
                ("kind", "x", "returned", "exception", "amplitudes")
                if x[0] != "start" else
                ("kind", "entry", "method", "x0", "bounds", "options",
                 "limits", "jac")
            )):
                if differ(p, q, tol):
                    return "event {} ({}): {} {} / {}".format(
                        i, x[0], nm, show(p), show(q)
                    )
    if len(a["run"]) != len(b["run"]):
        return "{} / {} events".format(len(a["run"]), len(b["run"]))
    for k in a["result"]:
        if differ(a["result"][k], b["result"].get(k), tol):
            return "result.{}: {} / {}".format(
                k, show(a["result"][k]), show(b["result"].get(k))
            )
    return None
