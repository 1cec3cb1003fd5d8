"""Bootstrap: pins the process environment and imports the code under test.

Everything is imported from /repo/src (the working tree), never from a copy.
"""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

REPO = os.environ.get("QTRL_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)

import types  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import scipy  # noqa: E402
import scipy.linalg  # noqa: E402
import scipy.optimize  # noqa: E402

# pristine references, used by the reference model only
REF_EXPM = scipy.linalg.expm

if not os.path.exists(os.path.join(SRC, "qutip_qtrl", "version.py")):
    _m = types.ModuleType("qutip_qtrl.version")
    _m.version = "0"
    _m.__version__ = "0"
    sys.modules["qutip_qtrl.version"] = _m

import qutip  # noqa: E402
import logging as _logging  # noqa: E402

import qutip_qtrl  # noqa: E402
import qutip_qtrl.dynamics  # noqa: E402
import qutip_qtrl.dump  # noqa: E402
import qutip_qtrl.errors  # noqa: E402
import qutip_qtrl.fidcomp  # noqa: E402
import qutip_qtrl.io  # noqa: E402
import qutip_qtrl.loadparams  # noqa: E402
import qutip_qtrl.optimconfig  # noqa: E402
import qutip_qtrl.optimizer  # noqa: E402
import qutip_qtrl.propcomp  # noqa: E402
import qutip_qtrl.pulsegen  # noqa: E402
import qutip_qtrl.pulseoptim  # noqa: E402
import qutip_qtrl.stats  # noqa: E402
import qutip_qtrl.termcond  # noqa: E402
import qutip_qtrl.tslotcomp  # noqa: E402
import importlib  # noqa: E402
import pkgutil  # noqa: E402

# the rest, helper modules included: the seams are put where it is bound, so
# that everything has to be loaded before they are looked for
for _mi in pkgutil.iter_modules(qutip_qtrl.__path__):
    if not _mi.name.startswith("__"):
        importlib.import_module("qutip_qtrl." + _mi.name)

assert os.path.realpath(qutip_qtrl.__file__).startswith(
    os.path.realpath(SRC)
), qutip_qtrl.__file__

# touch lazily initialised library state so that no run pays (or observes) it
np.lib._datasource._file_openers["."] if False else None


class LogCapture(_logging.Handler):
    """Collects (level, module, message) of every SUT log record."""

    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception as e:  # a log call that cannot be formatted
            msg = "UNFORMATTABLE {!r}".format(e)
        self.records.append((record.levelno, record.name, msg))


LOG = LogCapture()


def sut_loggers():
    """The loggers of all modules of the code under test, in a fixed order."""
    out = {}
    for n, m in list(sys.modules.items()):
        if m is not None and (n == "qutip_qtrl" or n.startswith("qutip_qtrl.")):
            for v in list(vars(m).values()):
                if isinstance(v, _logging.Logger):
                    out[v.name] = v
    return [out[n] for n in sorted(out)]


def reset_logging():
    """Default level (WARN) and our handler only, on every SUT logger."""
    LOG.records = []
    for lg in sut_loggers():
        for h in list(lg.handlers):
            lg.removeHandler(h)
        lg.propagate = False
        lg.addHandler(LOG)
        lg.setLevel(_logging.WARN)


reset_logging()
np.seterr(all="ignore")
