"""Randomly shaped quantum control problems, and their reference model.

`gen_config(rng)` makes a JSON description; `make_parts(cfg)` expands it to
plain numpy matrices; `Sut(cfg)` builds the real objects through the public
API and `Ref(cfg)` is the independent model, which only ever sees the numpy
matrices (never anything the code under test computed).
"""
import numpy as np

from . import env
from qutip import Qobj
import qutip_qtrl.pulseoptim as cpo

# ---------------------------------------------------------------------------
# configuration
# ---------------------------------------------------------------------------

DIMS = {"2": [2], "3": [3], "22": [2, 2], "4": [4], "21": [2, 1]}


def choice(rng, xs, p=None):
    xs = list(xs)
    if p is None:
        return xs[int(rng.randint(len(xs)))]
    p = np.array(p, float)
    return xs[int(rng.choice(len(xs), p=p / p.sum()))]


def gen_config(rng, dyn=None, small=False, allow_td=True, fids=None):
    cfg = {}
    cfg["dyn"] = dyn or choice(rng, ["UNIT", "GEN_MAT", "SYMPL"], [5, 3, 2])
    d = cfg["dyn"]
    cfg["dim"] = (
        choice(rng, ["2", "4"])
        if d == "SYMPL"
        else choice(rng, ["2", "3", "22"], [4, 2, 2])
    )
    if small and cfg["dim"] == "22":
        cfg["dim"] = "2"
    cfg["mseed"] = int(rng.randint(1, 10**6))
    cfg["shape"] = choice(rng, ["random", "pauli", "zero_drift", "degenerate", "rotated"],
                          [6, 6, 6, 4, 3])
    cfg["n_ctrls"] = int(choice(rng, [1, 2, 3], [4, 4, 1]))
    cfg["n_ts"] = int(choice(rng, [1, 2, 3, 4, 5, 7], [1, 2, 4, 4, 2, 1]))
    if rng.rand() < 0.25:
        cfg["tau"] = [
            round(float(x), 4) for x in rng.uniform(0.05, 0.6, cfg["n_ts"])
        ]
    else:
        cfg["tau"] = None
    cfg["evo_time"] = float(choice(rng, [0.5, 1.0, 1.7, 3.0]))
    combos = valid_computers(d)
    if fids:
        combos = [c for c in combos if c[1] in fids]
    cfg["prop"], cfg["fid"] = choice(rng, combos)
    cfg["phase"] = choice(rng, ["PSU", "SU"])
    cfg["dtype"] = choice(rng, [None, "Qobj", "ndarray"], [3, 3, 2])
    cfg["mem"] = int(choice(rng, [0, 1, 2], [5, 2, 1]))
    for k in ("cache_phased_dyn_gen", "cache_prop_grad"):
        cfg[k] = choice(rng, [None, True, False], [4, 1, 1])
    cfg["cache_dyn_gen_eigenvectors_adj"] = choice(
        rng, [None, True, False], [4, 1, 1]
    )
    cfg["sparse"] = None
    cfg["td_drift"] = bool(allow_td and rng.rand() < 0.2)
    cfg["td_ctrl"] = bool(allow_td and rng.rand() < 0.2)
    cfg["task"] = "gate"
    if d == "UNIT" and rng.rand() < 0.35:
        cfg["task"] = "state"
    elif d == "GEN_MAT" and rng.rand() < 0.3:
        cfg["task"] = "vec"
    normalise(cfg)
    # rarer features, drawn from a stream of their own
    x = np.random.RandomState(cfg["mseed"] * 7 + 13)
    if cfg["fid_eff"] == "TDAPPROX" and x.rand() < 0.5:
        cfg["td_eps"] = float(choice(x, [1e-5, 1e-4, 0.01]))
    if x.rand() < 0.12:
        cfg["tinyel"] = True
    if d == "GEN_MAT" and x.rand() < 0.2:
        # a phase of the user's own
        cfg["gp"] = [choice(x, ["scalar", "matrix", "custom"], [3, 3, 1]),
                     choice(x, ["preop", "postop"])]
        if cfg["gp"][0] == "matrix" and cfg["dtype"] is None:
            cfg["gp"][0] = "scalar"
    if not small and x.rand() < 0.03:
        cfg["n_ts"] = int(choice(x, [20, 33, 60]))
        normalise(cfg)
    return cfg


def valid_computers(d):
    """(prop, fid) pairs documented as usable with a dynamics type."""
    if d == "UNIT":
        return [
            ("DEF", "DEF"),
            ("DIAG", "UNIT"),
            ("FRECHET", "DEF"),
            ("FRECHET", "TRACEDIFF"),
            ("AUG_MAT", "DEF"),
            ("DIAG", "TRACEDIFF"),
            ("APPROX", "TDAPPROX"),
        ]
    if d == "GEN_MAT":
        return [
            ("DEF", "DEF"),
            ("FRECHET", "TRACEDIFF"),
            ("AUG_MAT", "DEF"),
            ("APPROX", "TDAPPROX"),
            ("FRECHET", "UNIT"),
        ]
    return [
        ("DEF", "DEF"),
        ("FRECHET", "TRACEDIFF"),
        ("AUG_MAT", "DEF"),
        ("APPROX", "TDAPPROX"),
    ]


def normalise(cfg):
    """Remove combinations that are documented as unusable."""
    if cfg["tau"] is not None:
        cfg["tau"] = [cfg["tau"][k % len(cfg["tau"])] for k in range(cfg["n_ts"])]
    d = cfg["dyn"]
    # memory_optimization 2 switches sparse eigen decomposition on, which is
    # documented as unusable for single qubits
    if cfg["mem"] == 2 and cfg["dim"] == "2":
        cfg["sparse"] = False
    fid = cfg["fid"] if cfg["fid"] != "DEF" else (
        "UNIT" if d == "UNIT" else "TRACEDIFF"
    )
    cfg["fid_eff"] = fid
    cfg["prop_eff"] = cfg["prop"] if cfg["prop"] != "DEF" else (
        "DIAG" if d == "UNIT" else "FRECHET"
    )
    return cfg


# ---------------------------------------------------------------------------
# matrices
# ---------------------------------------------------------------------------

_P = [
    np.array([[0, 1], [1, 0]], complex),
    np.array([[0, -1j], [1j, 0]], complex),
    np.array([[1, 0], [0, -1]], complex),
]


def _herm(r, n):
    a = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
    return 0.5 * (a + a.conj().T)


def _unitary(r, n):
    return env.REF_EXPM(-1j * _herm(r, n) * 1.3)


def _pauli_like(i, n):
    if n == 2:
        return _P[i % 3].copy()
    if n == 4:
        pr = [(0, None), (None, 0), (1, None), (2, 2), (None, 2), (1, 1)]
        a, b = pr[i % len(pr)]
        A = np.eye(2) if a is None else _P[a]
        B = np.eye(2) if b is None else _P[b]
        return np.kron(A, B).astype(complex)
    m = np.zeros((n, n), complex)
    j = i % (n - 1)
    if (i // (n - 1)) % 2 == 0:
        m[j, j + 1] = m[j + 1, j] = 1.0
    else:
        m[j, j + 1] = -1j
        m[j + 1, j] = 1j
    return m


def omega(n):
    """Symplectic form in the (x1,p1,x2,p2,..) ordering used by qtrl."""
    o = np.zeros((2 * n, 2 * n))
    for j in range(n):
        o[2 * j, 2 * j + 1] = 1
        o[2 * j + 1, 2 * j] = -1
    return o


class Parts:
    pass


def make_parts(cfg):
    p = Parts()
    r = np.random.RandomState(cfg["mseed"])
    dims = DIMS[cfg["dim"]]
    n = int(np.prod(dims))
    p.n, p.dims = n, dims
    d = cfg["dyn"]
    n_ts, n_c = cfg["n_ts"], cfg["n_ctrls"]
    shape = cfg["shape"]
    basis = None
    if shape == "rotated" and d == "UNIT":
        basis = _unitary(np.random.RandomState(cfg["mseed"] + 1), n)

    def gen(i, drift):
        if d == "UNIT":
            if basis is not None and i < 2:
                # eigenvalues equal up to rounding, with and without the
                # first control
                e = np.ones(n)
                e[-1] = -1.0 if drift else 0.5
                return (basis * e) @ basis.conj().T
            if drift and shape == "zero_drift":
                return np.zeros((n, n), complex)
            if drift and shape == "degenerate":
                return np.diag([1.0] * (n - 1) + [-1.0]).astype(complex)
            if shape in ("pauli", "degenerate") or (
                shape == "zero_drift" and i % 2 == 0
            ):
                return _pauli_like(i, n) * (0.7 if drift else 1.0)
            return _herm(r, n)
        if d == "GEN_MAT":
            if drift and shape == "zero_drift":
                return np.zeros((n, n), complex)
            if shape in ("pauli", "degenerate"):
                g = -1j * _pauli_like(i, n)
                if drift:
                    g = g - 0.1 * np.diag(np.arange(n)).astype(complex)
                return g
            g = 0.6 * (r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)))
            return g
        # SYMPL: real symmetric
        if drift and shape == "zero_drift":
            return np.zeros((n, n), complex)
        a = r.normal(size=(n, n))
        s = 0.4 * (a + a.T)
        if shape in ("pauli", "degenerate"):
            s = np.diag(np.round(np.diag(s), 1) + 0.3)
            if not drift:
                s[0, 1] = s[1, 0] = 0.4
        return s.astype(complex)

    drift = [gen(0, True) for _ in range(n_ts if cfg["td_drift"] else 1)]
    if cfg["td_drift"]:
        drift = [m * (1.0 + 0.3 * k) for k, m in enumerate(drift)]
    ctrls = []
    for k in range(n_ts if cfg["td_ctrl"] else 1):
        ctrls.append(
            [gen(j + 1, False) * (1.0 + 0.2 * k) for j in range(n_c)]
        )
    p.drift, p.ctrls = drift, ctrls
    if cfg["task"] in ("state", "vec"):
        v = np.zeros((n, 1), complex)
        v[0] = 1.0
        w = r.normal(size=(n, 1)) + 1j * r.normal(size=(n, 1))
        w /= np.linalg.norm(w)
        p.initial, p.target = v, w
        p.idims = [dims, [1] * len(dims)]
    else:
        p.idims = [dims, dims]
        p.initial = np.eye(n, dtype=complex)
        if d == "UNIT":
            p.target = _unitary(r, n)
            if r.rand() < 0.3:
                p.initial = _unitary(r, n)
        elif d == "SYMPL":
            om = omega(n // 2)
            p.target = env.REF_EXPM(
                -gen(7, True) @ om * 0.8
            ).astype(complex)
        else:
            p.target = _unitary(r, n)
    p.odims = [dims, dims]
    if cfg.get("tinyel"):
        # elements that some would call zero
        t = np.zeros((n, n), complex)
        # (on both sides of the threshold of qutip)
        e = 3e-14 if cfg["mseed"] % 2 else 4e-15
        t[0, 1] = t[1, 0] = e
        for m in p.drift + [c for cs in p.ctrls for c in cs]:
            m += t
        p.initial[1, 0] += e
        p.target[1, 0] += e
    # a second target for re-initialisation histories
    p.target_alt = (
        p.target[::-1].copy() if p.target.shape[1] == 1
        else p.target @ _unitary(r, n) if d == "UNIT"
        else env.REF_EXPM(-gen(8, False) @ omega(n // 2)).astype(complex)
        if d == "SYMPL" else _unitary(r, n)
    )
    return p


def tau_of(cfg):
    if cfg["tau"] is not None:
        return np.array(cfg["tau"], float)
    return np.ones(cfg["n_ts"]) * cfg["evo_time"] / cfg["n_ts"]


def gen_amps(seed, n_ts, n_c, kind="normal", base=None):
    r = np.random.RandomState(seed)
    a = r.normal(size=(n_ts, n_c))
    if kind == "zero":
        a = np.zeros((n_ts, n_c))
    elif kind == "big":
        a = a * 4.0
    elif kind == "const":
        a = np.ones((n_ts, n_c)) * round(float(a[0, 0]), 2)
    elif kind == "one" and base is not None:
        b = np.array(base, float)
        k, j = r.randint(n_ts), r.randint(n_c)
        b[k, j] = b[k, j] + float(r.normal())
        a = b
    elif kind == "tiny" and base is not None:
        b = np.array(base, float)
        k, j = r.randint(n_ts), r.randint(n_c)
        b[k, j] = b[k, j] + 1e-3 * float(r.normal())
        a = b
    elif kind == "ulp" and base is not None:
        b = np.array(base, float)
        m = r.rand(n_ts, n_c) < 0.5
        m[r.randint(n_ts), r.randint(n_c)] = True
        e = 10.0 ** -r.randint(7, 14)
        if r.rand() < 0.3:
            b[m] = np.nextafter(b[m], 9.0)
        else:
            b[m] = b[m] + e * a[m]
        a = b
    elif kind == "row" and base is not None:
        b = np.array(base, float)
        k = r.randint(n_ts)
        b[k, :] = r.normal(size=n_c)
        a = b
    elif kind == "neg" and base is not None:
        a = -np.array(base, float)
    elif kind == "swap" and base is not None:
        b = np.array(base, float)
        a = b[::-1].copy()
    elif kind == "same" and base is not None:
        a = np.array(base, float)
    return a


AMP_KINDS = [
    "normal", "one", "tiny", "row", "neg", "swap", "same", "zero", "big",
    "const", "ulp",
]


# ---------------------------------------------------------------------------
# reference model
# ---------------------------------------------------------------------------


class Ref:
    """What the documentation says the computed quantities are."""

    def __init__(self, cfg, parts=None):
        self.TD_EPS = cfg.get("td_eps") or 0.001
        self.cfg = cfg
        self.p = parts or make_parts(cfg)
        self.tau = tau_of(cfg)
        self.target = self.p.target
        self.phase = cfg["phase"]
        self._cache = {}

    def set_target(self, t):
        self.target = t
        self._cache = {}

    def set_tau(self, tau):
        self.tau = np.array(tau, float)
        self._cache = {}

    def adopt_tau(self, dyn):
        """Take over the (single precision) durations of the dynamics."""
        tau = np.asarray(dyn.tau, float)
        if tau.shape != self.tau.shape or not np.allclose(
            tau, self.tau, rtol=1e-6
        ):
            return False
        self.set_tau(tau)
        return True

    @property
    def n_ts(self):
        return len(self.tau)

    def _ph(self, m):
        d = self.cfg["dyn"]
        if d == "UNIT":
            return -1j * m
        if d == "SYMPL":
            return -m @ omega(self.p.n // 2)
        gp = self.cfg.get("gp")
        if gp is None:
            return m
        if gp[0] == "matrix":
            f = gen_phase(self.cfg)
            return f @ m if gp[1] == "preop" else m @ f
        return (scalar_phase(gp) if gp[0] == "scalar" else 0.5) * m

    def dyn_gen(self, amps, k):
        p = self.p
        g = p.drift[k if self.cfg["td_drift"] else 0].copy()
        c = p.ctrls[k if self.cfg["td_ctrl"] else 0]
        for j in range(self.cfg["n_ctrls"]):
            g = g + amps[k, j] * c[j]
        return g

    def ctrl(self, k, j):
        return self.p.ctrls[k if self.cfg["td_ctrl"] else 0][j]

    def evolve(self, amps):
        key = (amps.tobytes(), amps.shape)
        r = self._cache.get(key)
        if r is not None:
            return r
        amps = np.array(amps, float)
        n_ts = self.n_ts
        props = [
            env.REF_EXPM(self._ph(self.dyn_gen(amps, k)) * self.tau[k])
            for k in range(n_ts)
        ]
        fwd = [self.p.initial]
        for k in range(n_ts):
            fwd.append(props[k] @ fwd[-1])
        onwd = [None] * n_ts
        acc = np.eye(self.p.n, dtype=complex)
        for k in range(n_ts - 1, -1, -1):
            acc = acc @ props[k]
            onwd[k] = acc
        r = {"props": props, "fwd": fwd, "onwd": onwd}
        if len(self._cache) > 64:
            self._cache.clear()
        self._cache[key] = r
        return r

    def amplification(self, amps):
        """Growth of rounding errors along the chain of propagators."""
        a = 1.0
        for P in self.evolve(np.array(amps, float))["props"]:
            n = float(np.linalg.norm(P)) / np.sqrt(len(P))
            if not np.isfinite(n):
                return np.inf
            a *= max(1.0, n)
        return a * max(1.0, float(np.max(np.abs(self.p.initial))))

    def meaningful(self, amps):
        """False where the numbers are all rounding error or overflow."""
        return bool(self.amplification(amps) < 1e8)

    def evo_close(self, got, want, amps):
        got, want = np.asarray(got), np.asarray(want)
        if not self.meaningful(amps):
            return got.shape == want.shape
        tol = 1e-6 * (1 + float(np.max(np.abs(want))))
        return got.shape == want.shape and bool(
            np.all(np.abs(got - want) <= tol + 1e-9 * self.amplification(amps))
        )

    def err_tol(self, amps):
        a = self.amplification(amps)
        e = abs(self.fid_err(amps))
        return 1e-7 * (1 + e) + 1e-9 * a * (1 + np.sqrt(e))

    def err_close(self, v, amps):
        if not self.meaningful(amps):
            return np.ndim(v) == 0
        return np.ndim(v) == 0 and bool(
            abs(float(v) - self.fid_err(np.array(amps, float))) <= self.err_tol(amps)
        )

    def grad_tol(self, amps, want=None):
        want = self.grad(amps) if want is None else want
        return 2e-6 * (1 + float(np.max(np.abs(want)))) + 1e-9 * (
            self.amplification(amps) * (1 + np.sqrt(abs(self.fid_err(amps))))
        )

    def onto_target(self):
        t = self.target
        if self.cfg["dyn"] == "UNIT" or t.shape[1] != t.shape[0]:
            return t.conj().T
        return np.linalg.inv(t)

    def onto(self, amps):
        ev = self.evolve(amps)
        out = [None] * (self.n_ts + 1)
        out[-1] = self.onto_target()
        for k in range(self.n_ts - 1, -1, -1):
            out[k] = out[k + 1] @ ev["props"][k]
        return out

    def norm(self):
        t = self.target
        return float(np.trace(t.conj().T @ t).real)

    def overlap(self, U):
        return np.trace(self.onto_target() @ U)

    def scale(self):
        return self.cfg.get("scale") or 1.0 / (2.0 * self.p.n)

    def err_of(self, U):
        if self.cfg["fid_eff"] == "UNIT":
            f = self.overlap(U) / self.norm()
            f = abs(f) if self.phase == "PSU" else f.real
            return abs(1 - f)
        dif = self.target - U
        return float(self.scale() * np.sum(np.abs(dif) ** 2))

    def fid_err(self, amps):
        amps = np.array(amps, float)
        return self.err_of(self.evolve(amps)["fwd"][-1])

    def dprop(self, amps, k, j):
        """Derivative of propagator k by amplitude (k, j): block expm."""
        A = self._ph(self.dyn_gen(amps, k)) * self.tau[k]
        E = self._ph(self.ctrl(k, j)) * self.tau[k]
        n = self.p.n
        M = np.zeros((2 * n, 2 * n), complex)
        M[:n, :n] = A
        M[n:, n:] = A
        M[:n, n:] = E
        return env.REF_EXPM(M)[:n, n:]

    def grad(self, amps):
        amps = np.array(amps, float)
        ev = self.evolve(amps)
        n_ts, n_c = amps.shape
        g = np.zeros((n_ts, n_c))
        U = ev["fwd"][-1]
        fid = self.cfg["fid_eff"]
        for k in range(n_ts):
            onwd = ev["onwd"][k + 1] if k + 1 < n_ts else np.eye(self.p.n)
            for j in range(n_c):
                if fid == "TDAPPROX":
                    A = (
                        self._ph(
                            self.dyn_gen(amps, k)
                            + self.TD_EPS * self.ctrl(k, j)
                        )
                        * self.tau[k]
                    )
                    Ue = onwd @ env.REF_EXPM(A) @ ev["fwd"][k]
                    g[k, j] = (self.err_of(Ue) - self.err_of(U)) / self.TD_EPS
                    continue
                dU = onwd @ self.dprop(amps, k, j) @ ev["fwd"][k]
                if fid == "UNIT":
                    z = self.overlap(U)
                    dz = self.overlap(dU)
                    if self.phase == "PSU":
                        f = abs(z)
                        df = (np.conj(z) / f * dz).real if f > 0 else 0.0
                    else:
                        f = z.real
                        df = dz.real
                    s = self.norm()
                    f, df = f / s, df / s
                    g[k, j] = df if f >= 1 else -df
                else:
                    dif = self.target - U
                    g[k, j] = (
                        -2 * self.scale()
                        * np.trace(dif.conj().T @ dU).real
                    )
        return g

    def grad_comparable(self, amps):
        """False where the gradient is not defined (kinks of |.|)."""
        if not self.meaningful(amps):
            return False
        if self.cfg["fid_eff"] != "UNIT":
            return True
        z = self.overlap(self.evolve(np.array(amps, float))["fwd"][-1])
        f = (abs(z) if self.phase == "PSU" else z.real) / self.norm()
        if abs(1 - f) < 1e-9:
            return False
        if self.phase == "PSU" and abs(z) / self.norm() < 1e-6:
            return False
        return True


# ---------------------------------------------------------------------------
# the real objects
# ---------------------------------------------------------------------------

DTYPES = {"Qobj": Qobj, "ndarray": np.ndarray, None: None}


def qobjs(cfg, parts):
    od = parts.odims
    drift = [Qobj(m, dims=od) for m in parts.drift]
    if not cfg["td_drift"]:
        drift = drift[0]
    if cfg["td_ctrl"]:
        arr = np.empty((cfg["n_ts"], cfg["n_ctrls"]), dtype=object)
        for k in range(cfg["n_ts"]):
            for j in range(cfg["n_ctrls"]):
                arr[k, j] = Qobj(parts.ctrls[k][j], dims=od)
        ctrls = arr
    else:
        ctrls = [Qobj(m, dims=od) for m in parts.ctrls[0]]
    initial = Qobj(parts.initial, dims=parts.idims)
    target = Qobj(parts.target, dims=parts.idims)
    return drift, ctrls, initial, target


def scalar_phase(gp):
    return complex(0, -gp[2]) if len(gp) > 2 else -0.8j


def half(dg):
    """A phase application of the user's own."""
    return 0.5 * dg


def gen_phase(cfg):
    """A matrix as phase of general matrices."""
    n = 4 if cfg["dim"] == "22" else int(cfg["dim"])
    r = np.random.RandomState(cfg["mseed"] + 3)
    return (np.eye(n) + 0.3 * r.normal(size=(n, n))
            + 0.2j * r.normal(size=(n, n)))


def dyn_params(cfg):
    dp = {"memory_optimization": cfg["mem"]}
    if cfg["dtype"]:
        dp["oper_dtype"] = DTYPES[cfg["dtype"]]
    for k in (
        "cache_phased_dyn_gen",
        "cache_prop_grad",
        "cache_dyn_gen_eigenvectors_adj",
    ):
        if cfg.get(k) is not None:
            dp[k] = cfg[k]
    if cfg.get("sparse") is not None:
        dp["sparse_eigen_decomp"] = cfg["sparse"]
    if cfg.get("gp"):
        kind, app = cfg["gp"][:2]
        if app == "postop" or cfg["mseed"] % 2:
            # (preop is the default)
            dp["phase_application"] = app
        if kind == "scalar":
            dp["dyn_gen_phase"] = scalar_phase(cfg["gp"])
        elif kind == "matrix":
            f = gen_phase(cfg)
            dims = [2, 2] if cfg["dim"] == "22" else [int(cfg["dim"])]
            dp["dyn_gen_phase"] = (
                f if cfg["dtype"] == "ndarray" else Qobj(f, dims=[dims, dims]))
        else:
            dp["phase_application"] = "custom"
            dp["dyn_gen_phase"] = 1.0
            dp["_apply_phase"] = half
    if cfg.get("unit"):
        dp["unitarity_check_level"] = cfg["unit"]
    return dp


def fid_params(cfg):
    if cfg["fid_eff"] == "UNIT":
        return {"phase_option": cfg["phase"]}
    fp = {}
    if cfg.get("scale"):
        fp["scale_factor"] = cfg["scale"]
    if cfg.get("td_eps"):
        fp["epsilon"] = cfg["td_eps"]
    return fp or None


def build(cfg, parts=None, **over):
    """Optimizer + dynamics through create_pulse_optimizer."""
    parts = parts or make_parts(cfg)
    drift, ctrls, initial, target = qobjs(cfg, parts)
    kw = dict(
        num_tslots=None if cfg["tau"] is not None else cfg["n_ts"],
        evo_time=None if cfg["tau"] is not None else cfg["evo_time"],
        tau=None if cfg["tau"] is None else np.array(cfg["tau"]),
        dyn_type=cfg["dyn"],
        dyn_params=dyn_params(cfg),
        prop_type=cfg["prop"],
        fid_type=cfg["fid"],
        fid_params=fid_params(cfg),
        init_pulse_type="ZERO",
        gen_stats=bool(cfg.get("stats", False)),
    )
    kw.update(over)
    return cpo.create_pulse_optimizer(drift, ctrls, initial, target, **kw)


def full(x):
    if isinstance(x, Qobj):
        return x.full()
    return np.asarray(x)
