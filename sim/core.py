"""Common machinery of all checks: violations, run context, outcome."""
import hashlib
import json
import os
import signal
import traceback

import numpy as np

from . import env
from .world import World, SimHang, SimCrash

SRC_MARK = "qutip_qtrl"


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class Alarm(BaseException):
    """Real-time limit of a single run (a run takes milliseconds)."""


RUN_ALARM_S = 60


def derive(seed, prop, index):
    h = hashlib.sha256(
        "{}:{}:{}".format(seed, prop, index).encode()
    ).digest()
    return int.from_bytes(h[:4], "big")


def rng_for(seed, prop, index):
    return np.random.RandomState(derive(seed, prop, index))


class Outcome:
    def __init__(self):
        self.violation = None  # dict(kind, detail)
        self.harness_error = None
        self.hash = None
        self.n_events = 0
        self.sim_time = 0.0
        self.fired = {}
        self.states = set()
        self.probes = {}
        self.events = []


class Ctx:
    """Handed to a check's body for one run."""

    def __init__(self, plan):
        self.plan = plan
        self.w = None
        self.states = set()
        self.probes = {}
        self.worlds = []

    # -- worlds -------------------------------------------------------------
    def world(self, **kw):
        """A fresh simulated world; several may be used in one run."""
        w = World(**kw)
        self.worlds.append(w)
        self.w = w
        return w

    # -- checking -----------------------------------------------------------
    def fail(self, kind, fmt, *args):
        raise Violation(kind, fmt.format(*args) if args else fmt)

    def check(self, cond, kind, fmt, *args):
        if not cond:
            self.fail(kind, fmt, *args)

    def sut(self, fn, *args, **kwargs):
        """Call the code under test; anything it raises is unexpected."""
        try:
            return fn(*args, **kwargs)
        except (Violation, SimHang, SimCrash, Alarm):
            raise
        except BaseException as e:
            if getattr(e, "sim_injected", False):
                raise
            raise Violation(
                "exception:" + type(e).__name__,
                "unexpected {}: {} at {}".format(
                    type(e).__name__, e, where(e)
                ),
            )

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(
            hashlib.sha256(repr(key).encode()).hexdigest()[:12]
        )


SIM_DIR = os.path.dirname(os.path.abspath(__file__)) + os.sep
SEAMS = {"seam", "wrapped", "entry", "_call", "wf", "wg", "wc", "play",
         "q_expm", "q_mul", "q_add", "sut"}


def from_sut(e):
    """Was the exception raised by the code under test (or below it)?"""
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        if "/{}/".format(SRC_MARK) in f.filename:
            last = True
        elif f.filename.startswith(SIM_DIR) and f.name not in SEAMS:
            last = False
    return bool(last)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if SRC_MARK in f.filename]
    f = (fr or tb or [None])[-1]
    if f is None:
        return "?"
    return "{}:{}".format(f.filename.rsplit("/", 1)[-1], f.name)


def _on_alarm(signum, frame):
    raise Alarm("run exceeded {} s of real time".format(RUN_ALARM_S))


def run_plan(check, plan, keep_events=False):
    """Execute one plan.  A pure function of the plan and the code."""
    out = Outcome()
    ctx = Ctx(plan)
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_ALARM_S)
    try:
        check.body(ctx, plan)
    except Violation as v:
        out.violation = {"kind": v.kind, "detail": str(v.detail)}
    except SimHang as e:
        out.violation = {"kind": "hang", "detail": str(e)}
    except Alarm as e:
        out.violation = {"kind": "hang", "detail": str(e)}
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not getattr(
            e, "sim_injected", False
        ):
            raise
        if not getattr(e, "sim_injected", False) and from_sut(e):
            # raised by the code under test, in a use that is legal
            out.violation = {
                "kind": "exception:" + type(e).__name__,
                "detail": "unexpected {}: {} at {}".format(
                    type(e).__name__, e, where(e)
                ),
            }
        else:
            out.harness_error = "".join(
                traceback.format_exception(type(e), e, e.__traceback__)
            )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    h = hashlib.sha256()
    for w in ctx.worlds:
        h.update(w.log_hash().encode())
        out.n_events += len(w.events)
        out.sim_time += w.now - w.t0
        for k, v in w.fired.items():
            out.fired[k] = out.fired.get(k, 0) + v
        if keep_events:
            out.events.append(list(w.events))
    if out.violation:
        h.update(
            (out.violation["kind"] + "|" + out.violation["detail"]).encode()
        )
    out.hash = h.hexdigest()
    out.states = ctx.states
    out.probes = ctx.probes
    return out


def jclone(x):
    return json.loads(json.dumps(x))
