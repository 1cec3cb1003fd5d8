"""C13: parameter files apply exactly what they say or fail cleanly."""
import configparser
import copy
import os
import pathlib

import numpy as np

from .. import env
from .. import systems as S
from .. import episode as E
from .. import trace as T

import qutip_qtrl.loadparams as lp

ID = "C13"
RULE = (
    "One run = a sequence of parameter files generated from random entries "
    "(values of every supported type, expressions, values that do not "
    "convert, unknown names, missing sections, [DEFAULT] entries, comments, "
    "multi line values, upper case names), partly damaged (missing, cut at "
    "any byte, undecodable, unreadable), read through a file system that "
    "returns short reads and errors, into plain attribute holders, into the "
    "real configuration, dynamics, optimiser and pulse generator objects, or "
    "into objects that are then optimised. Attributes, types, log records "
    "and exceptions are compared with a model of the typed format; loads "
    "after a fault has cleared must apply the file; optimisations of loaded "
    "objects must equal those with the same values assigned. Non-trivial "
    "when at least one entry was applied. States: (mode, types and kinds of "
    "the entries, faults, outcome)."
)
ASSUMPTIONS = [
    "entries of a section after one that does not convert are either applied "
    "or left alone (the code reports the section and skips the rest of it)",
    "the reference for the ini syntax itself is Python's configparser",
    "attributes of other types than float, int, bool, complex, str, list, "
    "ndarray, Qobj and None are not loaded",
]
REAL = ["loadparams, and the objects loaded", "configparser"]
STUB = ["file system below open (errors, short reads)", "clock",
        "minimiser (scripted runs)"]
TECHNIQUE = (
    "file system fault injection and damaged files under load_parameters, "
    "compared with an executable model of the typed format"
)
LEVEL_NOTE = "Seeded sampling of file contents and read faults."
N_QUICK = 36000
N_THOROUGH = 600000

SECTIONS = {"config": "optimconfig", "term_conds": "termconds",
            "dynamics": "dynamics", "optim": "optimizer",
            "pulsegen": "pulsegen"}
TYPES = ["float", "int", "bool", "complex", "str", "list", "array", "carray",
         "iarray", "qobj", "none", "checked", "strict"]
NAMES = {"float": ["f_a", "f_b", "x_f"], "int": ["i_a", "i_b", "x_i"],
         "bool": ["b_a", "b_b", "x_b"], "complex": ["c_a", "x_c"], "str": ["s_a", "s_b"], "list": ["l_a"],
         "array": ["arr_f"], "carray": ["arr_c"], "iarray": ["arr_i"],
         "qobj": ["q_a"], "none": ["n_a", "n_b"], "checked": ["p_a"],
         "strict": ["r_a", "r_b", "r_c"]}


class Holder:
    """Any object with attributes of the supported types."""

    def __init__(self, k):
        self.f_a, self.f_b = 0.5 + k, -1e-3
        self.i_a, self.i_b = 3 + k, 0
        self.b_a, self.b_b = True, False
        self.c_a = 1 - 2j
        self.s_a, self.s_b = "text{}".format(k), "DEF"
        self.l_a = [1, "x", [2.5]]
        self.arr_f = np.arange(3.0) + k
        self.arr_c = np.arange(2.0) + 1j
        self.arr_i = np.arange(4)
        self.q_a = S.Qobj([[1, 0], [0, -1]])
        self.n_a = self.n_b = None
        self.x_f, self.x_c = np.float64(0.25), np.complex128(2j)
        self.x_i, self.x_b = np.int64(7), np.bool_(False)
        self._p = 1.5
        self._r = {"r_a": 0.25, "r_b": 4, "r_c": "abc"}

    @property
    def p_a(self):
        return self._p

    @p_a.setter
    def p_a(self, v):
        if not v >= 0:
            raise ValueError("must not be negative")
        self._p = v


class Refused(Exception):
    pass


REFUSALS = [TypeError, KeyError, AttributeError, RuntimeError, Refused,
            ZeroDivisionError, IndexError, OSError, AssertionError]


def refusing(name):
    """A property that accepts values up to 100, or short words."""

    def get(self):
        return self._r[name]

    def put(self, v):
        if refused(v):
            raise REFUSALS[len(str(v)) % len(REFUSALS)]("refused")
        self._r[name] = v

    return property(get, put)


def refused(v):
    return len(v) > 8 if isinstance(v, str) else not abs(v) <= 100


for _n in NAMES["strict"]:
    setattr(Holder, _n, refusing(_n))


# -- texts ------------------------------------------------------------------


def number(rng):
    return S.choice(rng, [
        repr(float(np.round(rng.normal() * 10, 3))), "0", "1", "-1", "2",
        "1e-3", "1e10", "-0.0", "inf", "-inf", ".5", "3.", "1_000.5",
        repr(float(rng.normal())), "007", "+4", "1E5",
    ])


def good(rng, t):
    if t == "float":
        if rng.rand() < 0.25:
            return S.choice(rng, ["2*np.pi", "np.sqrt(2)", "1/3", "3*2",
                                  "-np.pi/4", "2**10", "np.float32(0.5)",
                                  "7//2", "(1.5)", "True"])
        return number(rng)
    if t == "checked":
        return S.choice(rng, ["0", "2.5", "1e3", "np.pi"])
    if t == "strict":
        return S.choice(rng, ["0", "7", "-12", "99"])
    if t == "int":
        return S.choice(rng, ["0", "1", "-1", "42", "1_000", "+7",
                              str(int(rng.randint(-10**6, 10**6))), "007"])
    if t == "bool":
        return S.choice(rng, ["1", "0", "yes", "no", "on", "off", "true",
                              "false", "True", "FALSE", "Yes", "oN"])
    if t == "complex":
        return S.choice(rng, ["1+2j", "-0.5j", "3", "1e-3-1e3j", "j", "(1+2j)"])
    if t == "str":
        return S.choice(rng, ["DEF", "GRAPE", "on", "1", "2.5", "a b  c", "no",
                              "true", "[1,2]", "~/x/y.txt", "None", "50%%",
                              "a=b", "c:d", "inf", "x#y", "1e5", "'q'"])
    if t == "list":
        return S.choice(rng, ["[]", "[1, 2]", "(1, 2.5)", "['a', 'b']",
                              "[np.pi]", "[[1], [2, 3]]", "range(3)", "1, 2"])
    if t == "array":
        return S.choice(rng, ["[1, 2]", "[[1, 2.5], [3, 4]]", "np.ones(3)",
                              "[0.1]*4", "[]", "5", "[1e-3, np.pi]"])
    if t == "carray":
        return S.choice(rng, ["[1, 2j]", "[1+1j]", "[[0, 1], [1j, 0]]"])
    if t == "iarray":
        return S.choice(rng, ["[1, 2]", "np.arange(5)", "[[1], [2]]"])
    if t == "qobj":
        return S.choice(rng, ["[[0, 1], [1, 0]]", "[[1j, 0], [0, 1]]",
                              "np.eye(3)", "[[1], [0]]"])
    return S.choice(rng, [number(rng), "yes", "off", "text", "[1, 2]", "none",
                          "True", "1.5 x", "GRAPE"])


BAD = {
    "float": ["abc", "[1]", "1+2j", "'1 x'", "1..2", "(1, 2)", "{}", "1 2",
              "None", "[1, 2]"],
    "checked": ["-1", "x", "-0.5"],
    "strict": ["101", "1234", "-5000", "123456", "9999999", "12345678",
               "a" * 9, "many words", "1e12"],
    "int": ["1.5", "1e3", "x", "[1]", "0x10", "1 2", "inf"],
    "bool": ["2", "maybe", "1.0", "[]", "yes no"],
    "complex": ["1 + 2j", "x", "[1]", "1+2i"],
    "list": ["[1, 2", "5", "x", "1.5", "None"],
    "array": ["[1, 'a']", "[[1], [1, 2]]", "[1, 2", "nothing", "[1j]"],
    "carray": ["['x']", "[1, 2"],
    "iarray": ["[1, 'a']", "[1", "[1j]"],
    "qobj": ["[[1, 2]", "nothing", "1 2"],
}
ANY_BAD = ["50%", "%(nowhere)s", "5%d"]  # interpolation errors


def gen_entry(rng, sec, types=None):
    t = S.choice(rng, types or TYPES)
    e = {"sec": sec, "name": S.choice(rng, NAMES[t]), "text": good(rng, t)}
    u = rng.rand()
    if u < 0.12 and t in BAD:
        e["text"] = S.choice(rng, BAD[t])
    elif u < 0.15:
        e["text"] = S.choice(rng, ANY_BAD)
    elif u < 0.17:
        e["text"] = ""
    elif u < 0.25:
        e["name"] = S.choice(rng, ["unknown", "zz", "f_c", "fidelity"])
    style(rng, e)
    return e


def style(rng, e):
    e["delim"] = S.choice(rng, ["=", " = ", ": ", "= ", "  =  "])
    if rng.rand() < 0.15:
        e["upper"] = True
    if rng.rand() < 0.15:
        e["pre"] = S.choice(rng, ["# comment", "; comment = 5", "",
                                  "    # indented comment"])
    if rng.rand() < 0.1 and "," in e["text"]:
        e["wrap"] = True


def gen_load(rng, secs, types=None):
    ents = []
    n = int(S.choice(rng, [0, 1, 2, 4, 8], [1, 3, 4, 4, 2]))
    for _ in range(n):
        ents.append(gen_entry(rng, S.choice(rng, secs), types))
    for s in secs:
        if rng.rand() < 0.2:
            ents.append({"sec": s, "name": None})
    if rng.rand() < 0.08:
        ents.append(dict(gen_entry(rng, "DEFAULT", types)))
    if rng.rand() < 0.06:
        ents.append({"raw": S.choice(rng, [
            "no delimiter here", "[unterminated", "[optimconfig]",
            "f_a = 1", "=5", "  continued"])})
    # a name given twice in a section is an error of the format
    seen, out = set(), []
    dup = rng.rand() < 0.06
    for e in ents:
        k = (e.get("sec"), (e.get("name") or "").lower())
        if e.get("name") and k in seen and not dup:
            continue
        seen.add(k)
        out.append(e)
    ld = {"entries": out, "faults": []}
    u = rng.rand()
    if u < 0.12:
        ld["cut"] = float(rng.rand())
    elif u < 0.15:
        ld["damage"] = S.choice(rng, ["missing", "bytes", "directory"])
    elif u < 0.25:
        ld["faults"].append({
            "seam": "fs.open_r", "n": 1,
            "act": S.choice(rng, ["eacces", "enoent", "eio", "emfile"])})
    elif u < 0.35:
        ld["faults"].append({"seam": "fs.read", "n": int(rng.randint(1, 4)),
                             "act": "eio"})
    if rng.rand() < 0.3:
        for k in range(1, int(rng.randint(2, 7))):
            ld["faults"].append({"seam": "fs.read", "n": k, "act": "short",
                                 "bytes": int(S.choice(rng, [1, 2, 7, 20, 63]))})
    ld["path"] = S.choice(rng, ["str", "Path", "rel"])
    ld["crlf"] = bool(rng.rand() < 0.1)
    ld["again"] = bool(rng.rand() < 0.5)
    return ld


# settings that are safe to change before a run, as (object, name, values)
EFFECT = [
    ("term_conds", "fid_err_targ", ["1e-12", "0.2", "0.5", "1/4"]),
    ("term_conds", "min_gradient_norm", ["1e-10", "0.05", "1"]),
    ("term_conds", "max_iterations", ["1", "3", "6"]),
    ("term_conds", "max_wall_time", ["0.5", "1e6", "2"]),
    ("dynamics", "evo_time", ["0.75", "2", "np.pi/2"]),
    ("dynamics", "num_tslots", ["3", "4", "2"]),
    ("dynamics", "memory_optimization", ["0", "1"]),
    ("dynamics", "fact_mat_round_prec", ["1e-10", "1e-8"]),
    ("dynamics", "id_text", ["on", "3", "problem"]),
    ("dynamics", "unitarity_check_level", ["0", "1", "2"]),
    ("dynamics", "dumping", ["SUMMARY", "FULL", "NONE"]),
    ("optim", "dumping", ["SUMMARY", "FULL", "NONE"]),
    ("optim", "amp_lbound", ["-1", "-0.25", "-2.5"]),
    ("optim", "amp_ubound", ["1", "0.25", "2.5"]),
    ("optim", "disp_conv_msg", ["no", "0"]),
    ("optim", "approx_grad", ["no", "false"]),
    ("optim", "xtol", ["1e-2", "1e-5"]),
    ("optim", "ftol", ["1e-2", "1e-6"]),
    ("pulsegen", "scaling", ["0.5", "2", "1/2"]),
    ("pulsegen", "offset", ["0.1", "-0.2", "0"]),
    ("pulsegen", "lbound", ["-0.5", "-1"]),
    ("pulsegen", "ubound", ["0.5", "1"]),
    ("pulsegen", "start_phase", ["np.pi/2", "0.1"]),
    ("pulsegen", "random", ["yes", "no"]),
    ("config", "optim_method", ["BFGS", "DEF"]),
]


def gen(rng, tier):
    mode = S.choice(rng, ["holders", "real", "effect"], [6, 3, 1.4])
    plan = {"mode": mode}
    if mode == "holders":
        roles = [r for r in list(SECTIONS) + ["obj"] if rng.rand() < 0.5]
        if not roles:
            roles = ["obj"]
        plan["roles"] = roles
        plan["section"] = S.choice(rng, ["my section", "extra", "dynamics"])
        secs = [SECTIONS.get(r, plan["section"]) for r in roles]
        if rng.rand() < 0.4:
            secs = secs + ["elsewhere"]
        if rng.rand() < 0.3:
            secs = secs + [S.choice(rng, list(SECTIONS.values()))]
        plan["loads"] = [
            gen_load(rng, secs)
            for _ in range(int(S.choice(rng, [1, 2, 3], [5, 3, 1])))
        ]
        return plan
    cfg = S.gen_config(rng, small=True, allow_td=False)
    run = E.gen_run(rng, cfg, alg="CRAB" if rng.rand() < 0.25 else None)
    if mode == "effect":
        cfg["tau"] = None
        if run["tc"]["max_calls"] is None:
            run["tc"]["max_calls"] = 40
        run["bounds"] = [None, None]
    plan.update(cfg=cfg, run=run)
    if mode == "real":
        plan["roles"] = [r for r in SECTIONS if rng.rand() < 0.6] or ["dynamics"]
        plan["pick"] = int(rng.randint(1 << 30))
        plan["n"] = int(S.choice(rng, [1, 3, 8, 16]))
        ld = gen_load(rng, ["unused"])
        ld["entries"] = []
        ld.pop("cut", None)
        plan["loads"] = [ld]
    else:
        k = int(S.choice(rng, [1, 3, 6, 10]))
        idx = rng.permutation(len(EFFECT))[:k]
        ents = []
        for i in idx:
            o, n, vs = EFFECT[int(i)]
            if n == "num_tslots" and run["alg"] == "CRAB":
                continue  # the other pulses are made for the old number
            e = {"sec": SECTIONS[o], "name": n, "text": S.choice(rng, vs)}
            style(rng, e)
            ents.append(e)
        plan["loads"] = [{"entries": ents, "faults": [], "path": "str",
                          "crlf": False, "again": False}]
        if rng.rand() < 0.5:
            for j in range(1, 5):
                plan["loads"][0]["faults"].append(
                    {"seam": "fs.read", "n": j, "act": "short",
                     "bytes": int(S.choice(rng, [1, 9, 40]))})
    return plan


# ---------------------------------------------------------------------------
# the file and its meaning
# ---------------------------------------------------------------------------


def render(ld):
    nl = "\r\n" if ld.get("crlf") else "\n"
    groups, lines = {}, []
    for e in ld["entries"]:
        if "raw" not in e:
            groups.setdefault(e["sec"], []).append(e)
    for s, es in groups.items():
        lines.append("[{}]".format(s))
        for e in es:
            if e["name"] is None:
                continue
            if "pre" in e:
                lines.append(e["pre"])
            name = e["name"].upper() if e.get("upper") else e["name"]
            text = e["text"]
            if e.get("wrap"):
                text = text.replace(",", "," + nl + "    ", 1)
            lines.append(name + e["delim"] + text)
        lines.append("")
    for e in ld["entries"]:
        if "raw" in e:
            k = len(e["raw"]) % (len(lines) + 1)
            lines.insert(k, e["raw"])
    data = nl.join(lines).encode() + nl.encode()
    if "cut" in ld:
        data = data[: int(ld["cut"] * len(data))]
    if ld.get("damage") == "bytes":
        data = b"\xff\xfe" + data
    return data


class Skip(Exception):
    pass


def convert(old, text):
    """The value of an entry for an attribute that holds `old`."""
    ns = {"np": np, "Qobj": S.Qobj}
    if isinstance(old, S.Qobj):
        return S.Qobj(eval(text, ns))
    if isinstance(old, np.ndarray):
        return np.array(eval(text, ns), dtype=old.dtype)
    if isinstance(old, list):
        return list(eval(text, ns))
    if isinstance(old, (float, np.floating)):
        try:
            return float(text)
        except ValueError:
            return float(eval(text, ns))
    if isinstance(old, (complex, np.complexfloating)):
        return complex(text)
    if type(old) is int or isinstance(old, np.integer):
        return int(text)
    if isinstance(old, (bool, np.bool_)):
        return _bool(text)
    if type(old) is str:
        return text
    if old is None:
        for f in (float, _bool):
            try:
                return f(text)
            except ValueError:
                pass
        return text
    raise Skip()


def _bool(text):
    t = text.lower()
    if t in ("1", "yes", "true", "on"):
        return True
    if t in ("0", "no", "false", "off"):
        return False
    raise ValueError(text)


def same(a, b):
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if type(a) is not type(b):
        return False
    if isinstance(a, S.Qobj):
        return a.dims == b.dims and np.array_equal(a.full(), b.full())
    if isinstance(a, np.ndarray):
        return (a.dtype == b.dtype and a.shape == b.shape
                and a.tobytes() == b.tobytes())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a.hex() == b.hex()
    if isinstance(a, complex):
        return repr(a) == repr(b)
    if isinstance(a, (int, str, bool, type(None))):
        return a == b
    return a is b


class Model:
    """What the attributes of the objects should be."""

    def __init__(self, objs, names):
        # names: {role: [attribute names watched]}
        self.vals = {
            r: {n: copy.deepcopy(getattr(o, n)) for n in names[r]}
            for r, o in objs.items()
        }

    def parse(self, data):
        """{section: [(option, text or None)]} or None if malformed."""
        p = configparser.ConfigParser()
        try:
            p.read_string(data.decode("utf-8").replace("\r\n", "\n"))
        except (configparser.Error, UnicodeDecodeError):
            return None
        out = {}
        for s in p.sections():
            out[s] = []
            for o in p.options(s):
                try:
                    out[s].append((o, p.get(s, o)))
                except configparser.Error:
                    out[s].append((o, None))
        return out

    def apply(self, role, sec, parsed, allowed=None):
        """Advance the model by one section; what should be reported."""
        vals = self.vals[role]
        rep = {"missing": False, "unknown": [], "bad": None, "free": {},
               "applied": []}
        if sec not in parsed:
            rep["missing"] = True
            return rep
        stopped = False
        for o, text in parsed[sec]:
            if o not in vals:
                if text is None and not stopped:
                    rep["bad"] = o
                    stopped = True
                elif not stopped:
                    rep["unknown"].append(o)
                continue
            try:
                if text is None:
                    raise ValueError("interpolation")
                v = convert(vals[o], text)
                if o == "p_a" and not v >= 0:
                    raise ValueError("negative")
                if o in NAMES["strict"] and refused(v):
                    raise ValueError("refused")
            except Exception:
                if not stopped:
                    rep["bad"] = o
                    stopped = True
                continue
            if stopped:
                rep["free"][o] = v
            else:
                vals[o] = v
                rep["applied"].append((o, type(v).__name__))
        return rep


# ---------------------------------------------------------------------------


def put(w, ld, k):
    path = os.path.join(w.cwd, "p%d.ini" % k)
    data = render(ld)
    dmg = ld.get("damage")
    w.fs_armed = False
    try:
        if dmg == "directory":
            os.mkdir(path)
        elif dmg != "missing":
            with open(path, "wb") as f:
                f.write(data)
    finally:
        w.fs_armed = True
    arg = path
    if ld["path"] == "Path":
        arg = pathlib.Path(path)
    elif ld["path"] == "rel":
        arg = os.path.basename(path)
    return arg, data


def load(ctx, w, arg, kw):
    """Returns the exception, if any."""
    n0 = len(env.LOG.records)
    try:
        lp.load_parameters(arg, **kw)
        exc = None
    except Exception as e:
        exc = e
    recs = [r for r in env.LOG.records[n0:] if r[0] >= 30]
    w.ev("load", type(exc).__name__ if exc is not None else "ok", len(recs))
    return exc, recs


def arm(w, faults):
    """Occurrence numbers of the faults count from here."""
    w.faults = []
    for f in faults:
        f = dict(f)
        f["n"] += w.counts.get(f["seam"], 0)
        w.faults.append(f)


def load_checked(ctx, w, ld, k, objs, names, kw, model, secs, faults):
    arg, data = put(w, ld, k)
    arm(w, faults)
    fs0 = len(w.fs_log)
    before = copy.deepcopy(model.vals)
    exc, recs = load(ctx, w, arg, kw)
    w.faults = []
    failed = [x for x in w.fs_log[fs0:] if x[1] not in ("ok", "short")]
    parsed = None
    if ld.get("damage") not in ("missing", "directory"):
        parsed = model.parse(data)
    if failed or ld.get("damage") in ("missing", "directory"):
        ctx.check(isinstance(exc, ValueError), "no error",
                  "file that cannot be read ({}): {!r} instead of ValueError",
                  failed or ld.get("damage"), exc)
        outcome = "unreadable"
    elif parsed is None:
        ctx.check(exc is not None, "no error",
                  "malformed file loaded without an exception: {!r}", data)
        outcome = "malformed"
    else:
        ctx.check(exc is None, "exception",
                  "{!r} for the file {!r}", exc, data)
        outcome = "loaded"
    quiet = True
    n_app = 0
    for r in objs:
        if outcome == "loaded":
            rep = model.apply(r, secs[r], parsed)
            n_app += len(rep["applied"])
            for o, t in rep["applied"]:
                ctx.probe("applied " + t)
            if rep["missing"]:
                quiet = False
                ctx.probe("missing sections")
                ctx.check(any(secs[r] in m for _, _, m in recs), "not reported",
                          "missing section {} not in the log", secs[r])
            for o in rep["unknown"]:
                quiet = False
                ctx.probe("unknown names")
                ctx.check(any(o in m for _, _, m in recs), "not reported",
                          "unknown name {}.{} not in the log", secs[r], o)
            if rep["bad"]:
                quiet = False
                ctx.probe("bad values")
                ctx.check(any(secs[r] in m for _, _, m in recs), "not reported",
                          "bad value of {}.{} not in the log", secs[r], rep["bad"])
            free = rep["free"]
        else:
            free = {}
            model.vals[r] = before[r]
        for n in names[r]:
            got = getattr(objs[r], n)
            want = model.vals[r][n]
            if n in free and same(got, free[n]):
                model.vals[r][n] = free[n]
                continue
            ctx.check(
                same(got, want), "attribute",
                "{} {}.{} is {!r}, expected {!r} ({})", outcome, r, n, got,
                want, data)
        extra = sorted(set(vars(objs[r])) - set(model.known[r]))
        ctx.check(not extra, "new attribute", "{} created on {}", extra, r)
    if outcome == "loaded" and quiet:
        ctx.check(not recs, "reported", "warnings {} for the file {!r}", recs, data)
    ctx.probe("files " + outcome)
    return outcome, n_app


def simple(v):
    if isinstance(v, list):
        return all(simple(x) for x in v)
    return v is None or isinstance(
        v, (S.Qobj, np.ndarray, float, complex, int, bool, str, np.number)
    )


def public(o):
    """Attribute names with values of the supported types."""
    out = []
    for n, v in sorted(vars(o).items()):
        if n.startswith("_"):
            continue
        if simple(v) and not (
            isinstance(v, np.ndarray) and v.dtype == object
        ):
            out.append(n)
    return out


def real_objects(optim):
    pg = optim.pulse_generator
    if isinstance(pg, (list, tuple)):
        pg = pg[0]
    return {"config": optim.config, "term_conds": optim.termination_conditions,
            "dynamics": optim.dynamics, "optim": optim, "pulsegen": pg}


TYPE_OF = [(bool, "bool"), (float, "float"), (int, "int"), (complex, "complex"),
           (str, "str")]


def real_entries(plan, objs, names):
    """Entries for attributes that the real objects turn out to have."""
    rng = np.random.RandomState(plan["pick"])
    out = []
    for r in plan["roles"]:
        for _ in range(plan["n"]):
            n = S.choice(rng, names[r] + ["not_there"])
            v = getattr(objs[r], n, 0.0)
            t = next((t for c, t in TYPE_OF if type(v) is c), None)
            if v is None:
                t = "none"
            elif isinstance(v, S.Qobj):
                t = "qobj"
            elif isinstance(v, np.ndarray):
                t = {"c": "carray", "i": "iarray"}.get(v.dtype.kind, "array")
                if v.dtype == object:
                    continue
            elif isinstance(v, list):
                t = "list"
            e = {"sec": SECTIONS[r], "name": n, "text": good(rng, t)}
            if rng.rand() < 0.1 and t in BAD:
                e["text"] = S.choice(rng, BAD[t])
            style(rng, e)
            if n.lower() != n or any(
                x["sec"] == e["sec"] and x["name"] == n for x in out
            ):
                continue
            out.append(e)
    return out


def body(ctx, plan):
    if plan["mode"] == "effect":
        return effect(ctx, plan)
    rs = plan.get("roles") or []
    with ctx.world(use_fs=True) as w:
        if plan["mode"] == "holders":
            objs = {r: Holder(i) for i, r in enumerate(rs)}
            names = {r: [n for t in TYPES for n in NAMES[t]] for r in rs}
            known = {r: list(vars(o)) for r, o in objs.items()}
        else:
            optim = ctx.sut(E.create, plan["cfg"], plan["run"])
            allo = real_objects(optim)
            objs = {r: allo[r] for r in rs}
            names = {r: public(allo[r]) for r in rs}
            # names that follow from others
            for r in rs:
                names[r] = [n for n in names[r] if n not in DERIVED]
            known = {r: list(vars(allo[r])) for r in rs}
            plan = dict(plan)
            plan["loads"] = [
                dict(ld, entries=real_entries(plan, objs, names))
                for ld in plan["loads"]
            ]
        kw = {r: objs[r] for r in rs}
        secs = {r: SECTIONS.get(r) for r in rs}
        if "obj" in kw:
            kw["section"] = secs["obj"] = plan["section"]
        model = Model(objs, names)
        model.known = known
        outs, k = [], 0
        for ld in plan["loads"]:
            k += 1
            o, n = load_checked(ctx, w, ld, k, objs, names, kw, model, secs,
                                ld["faults"])
            outs.append(o)
            ctx.probe("entries applied", n)
            if ld["again"]:
                # the fault has cleared
                k += 1
                o, n = load_checked(ctx, w, ld, k, objs, names, kw, model,
                                    secs, [])
                ctx.probe("entries applied", n)
                ctx.probe("loads after " + outs[-1])
        ctx.state(plan["mode"], tuple(rs), tuple(outs), tuple(sorted(
            (f["seam"], f["act"]) for ld in plan["loads"] for f in ld["faults"]
        )), tuple(sorted({e["name"] or "" for ld in plan["loads"]
                          for e in ld["entries"] if "name" in e})),
            plan["loads"][0].get("damage"), "cut" in plan["loads"][0])


# attributes of the real objects that are set as a consequence of others
DERIVED = {"dump", "dump_to_file", "stats", "params", "log_level"}


def effect(ctx, plan):
    """Optimising with loaded values = optimising with assigned values."""
    cfg, run, ld = plan["cfg"], plan["run"], plan["loads"][0]
    sigs = []
    for how in ("assigned", "loaded"):
        with ctx.world(np_seed=run["np_seed"], costs=run["costs"],
                       max_steps=400000) as w:
            ep = E.Episode(ctx, w, cfg, run)
            ep.make()
            objs = real_objects(ep.optim)
            inv = {v: k for k, v in SECTIONS.items()}
            ents = []
            for e in ld["entries"]:
                o = objs[inv[e["sec"]]]
                if hasattr(o, e["name"]):
                    ents.append((o, e))
            if how == "assigned":
                # in the order of the file, section by section
                for r in SECTIONS:
                    for o, e in ents:
                        if inv[e["sec"]] == r:
                            old = getattr(o, e["name"])
                            setattr(o, e["name"], convert(old, e["text"]))
            else:
                ld2 = dict(ld, entries=[e for _, e in ents])
                arg, data = put(w, ld2, 0)
                arm(w, ld["faults"])
                n0 = len(env.LOG.records)
                ctx.sut(lp.load_parameters, arg, **{
                    r: o for r, o in objs.items()
                    if any(inv[e["sec"]] == r for _, e in ents)})
                w.faults = []
                bad = [x for x in env.LOG.records[n0:] if x[0] >= 30]
                ctx.check(not bad, "reported", "warnings {} for {!r}", bad, data)
            np.random.seed(run["np_seed"])
            dyn = ep.optim.dynamics
            ctx.sut(dyn.init_timeslots)
            pg = ep.optim.pulse_generator
            amps = np.zeros((dyn.num_tslots, dyn.num_ctrls))
            for j in range(dyn.num_ctrls):
                p = pg[j] if isinstance(pg, (list, tuple)) else pg
                p.num_tslots = dyn.num_tslots
                p.tau = dyn.tau
                p.pulse_time = dyn.evo_time
                if isinstance(pg, (list, tuple)) or j == 0:
                    ctx.sut(p.init_pulse)
                amps[:, j] = ctx.sut(p.gen_pulse)
            ep.start_pulse(amps)
            ep.optimise()
            sigs.append(T.of_episode(ep, times=True, stats=True))
            ctx.probe("entries applied", len(ents))
    d = T.difference(*sigs)
    ctx.check(d is None, "effect", "assigned / loaded: {}", d)
    ctx.probe("optimisations compared")
    ctx.state("effect", cfg["dyn"], run["method"],
              tuple(sorted(e["name"] for e in ld["entries"])))


def nontrivial(out):
    return out.probes.get("entries applied", 0) > 0
