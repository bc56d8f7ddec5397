"""Reporting: log levels, progress bars, environments and number types, against the silent run."""
import contextlib
import io
import itertools
import logging
import os
import sys
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of reporting modes, step counts, schemes and argument types on the real code, bit for bit against the silent run"
RULE = ("one case per (update scheme, unit cell, dtype, number of steps); within it the same program runs in every reporting mode and with every argument type, and all tensors and measured "
        "values are compared bit for bit; a state is one finished program; non-trivial: the program changes the state")
ASSUMPTIONS = ["the same random stream in every mode", "one thread"]
NOTE = "The program evolves (across the ten-step reports of the debug log), renormalizes and measures. Argument types: float, numpy scalars, torch scalars for the time step; int and numpy integers for the steps."
CASE_LIMIT = 300
SLURM = {"none": {}, "batch": {"SLURM_JOB_ID": "7", "SLURM_JOB_NAME": "run"}, "interactive": {"SLURM_JOB_ID": "7", "SLURM_JOB_NAME": "interactive"}}
LEVELS = {"debug": logging.DEBUG, "info": logging.INFO, "error": logging.ERROR}
ARGS = {"float": (float, int), "numpy": (np.float64, np.int64), "torch": (lambda x: torch.tensor(x, dtype=torch.float64), int), "int32": (float, np.int32)}


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    for (nx, ny), u, dt in itertools.product([(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (2, 3), (3, 3)] if deep else [(3, 2)]), ("simple", "full"), CDT):
        if (nx == 1 or ny == 1) and u == "full" and not deep and nx + ny == 2:
            continue
        for steps in (0, 1, 2, 9, 10, 11, 20, 21) if deep else (0, 1, 10, 11):
            if u == "full" and steps > 2 and not deep and (nx * ny > 4 or dt in ("float32", "complex128")):
                continue
            out.append(dict(kind="program", nx=nx, ny=ny, upd=u, dtype=dt, steps=steps, deep=deep))
    for n in (0, 1, 2, 3):
        out.append(dict(kind="timing", n=n))
    return out


def model():
    from acetn.model import Model
    from acetn.model.pauli_matrix import pauli_matrices

    class M(Model):
        def one_site_hamiltonian(self, site):
            x, y, z, i = pauli_matrices(self.dtype, self.device)
            return -0.9 * x

        def two_site_hamiltonian(self, bond):
            x, y, z, i = pauli_matrices(self.dtype, self.device)
            return -1.0 * (z * z) + 0.1 * (x * x)

        def one_site_observables(self, site):
            x, y, z, i = pauli_matrices(self.dtype, self.device)
            return {"sx": x, "sz": z}

        def two_site_observables(self, bond):
            x, y, z, i = pauli_matrices(self.dtype, self.device)
            return {"zz": z * z}
    return M


def program(c, level="info", bars=(False, False), slurm="none", args="float", out="buffer"):
    from acetn.ipeps import Ipeps
    from acetn.utils.logger import logger
    import tqdm
    f, i = ARGS[args]
    saved = {k: os.environ.get(k) for k in SLURM["batch"]}
    old = logger.level
    handlers = [(h, h.stream) for h in logger.handlers if hasattr(h, "stream")]
    log = io.StringIO()
    try:
        for k in saved:
            os.environ.pop(k, None)
        os.environ.update(SLURM[slurm])
        logger.setLevel(LEVELS[level])
        for h, _ in handlers:
            h.stream = log
        torch.manual_seed(11)
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            ip = Ipeps(config(nx=c["nx"], ny=c["ny"], D=2, chi=4, dtype=c["dtype"], ctmrg=dict(steps=1, disable_progressbar=not bars[0]),
                              evolution=dict(update_type=c["upd"], disable_progressbar=not bars[1])))
            ip.set_model(model(), {})
            ip.evolve(f(0.05), i(c["steps"]))
            order = [tuple(b) for b in ip.bond_list]
            m1 = ip.measure()
            ip.renormalize()
            m2 = ip.measure()
        return snapshot(ip), order, {k: float(v) for k, v in m1.items()}, {k: float(v) for k, v in m2.items()}, log.getvalue()
    finally:
        logger.setLevel(old)
        for h, s in handlers:
            h.stream = s
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def run_case(c):
    if c["kind"] == "timing":
        return timing(c)
    modes = [dict(level=l) for l in LEVELS] + [dict(level="debug", bars=(True, True)), dict(bars=(True, False)), dict(bars=(False, True)),
                                              dict(slurm="batch"), dict(slurm="interactive", bars=(True, True))] + [dict(args=a) for a in ARGS]
    if c["deep"]:
        modes = [dict(level=l, bars=b, slurm=s, args=a) for l, b, s, a in itertools.product(LEVELS, itertools.product((False, True), repeat=2), SLURM, ARGS)
                 if sum((l != "info", b != (False, False), s != "none", a != "float")) <= (4 if c["upd"] == "simple" and c["steps"] < 3 else 2)]
    ref = program(c)
    require(all(np.isfinite(list(ref[i].values())).all() for i in (2, 3)), "the program measures non-finite values")
    for m in modes:
        got = program(c, **m)
        require(same_snapshot(ref[0], got[0]), f"{m}: the tensors differ from those of the silent run")
        require(ref[1] == got[1], f"{m}: the bond order differs from that of the silent run")
        for i in (2, 3):
            require(ref[i] == got[i], f"{m}: measured {got[i]}, silently {ref[i]}")
        # progress reports every ten steps, on request only
        if m.get("level") == "debug":
            require(bool(got[4]) == (c["steps"] >= 10), f"{m}: logged {got[4][:200]!r} in {c['steps']} steps")
        else:
            require(not got[4], f"{m}: logged {got[4][:200]!r}")
    return dict(states=len(modes) + 1, transitions=len(modes) * (c["steps"] + 3), traces=len(modes), nontrivial=c["steps"] > 0)


def timing(c):
    """The timing wrapper hands the result on and appends the time."""
    from acetn.utils.benchmarking import record_runtime
    n = 0
    values = [torch.arange(3.0), 0, 0.0, False, "x", [], {}, [1, 2], np.float64(0.0)]
    for v in values:
        calls = []

        def f(*a, **k):
            calls.append((a, k))
            return None if c["n"] == 0 else v if c["n"] == 1 else (v,) * c["n"]
        r = record_runtime(f)(1, b=2)
        require(calls == [((1,), {"b": 2})], f"the function was called with {calls}")
        if c["n"] == 0:
            t = r
        else:
            require(isinstance(r, tuple) and len(r) == c["n"] + 1, f"returned {r}")
            require(all(x is v for x in r[:-1]), f"returned {r} for {v}")
            t = r[-1]
        require(isinstance(t, float) and 0 <= t < 60, f"the time is {t}")
        n += 1
        # the averaging wrapper runs the function again and again
        from acetn.utils.benchmarking import record_runtime_ave
        for rec, warm in ((1, 0), (3, 2), (20, 10)):
            del calls[:]
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                r = record_runtime_ave(f, num_record=rec, num_warmup=warm)(1, b=2)
            require(calls == [((1,), {"b": 2})] * (rec + warm), f"{rec} runs after {warm}: the function was called {len(calls)} times")
            got = () if c["n"] == 0 else r[:-1]
            require(len(got) == c["n"] and all(x is v for x in got), f"returned {r} for {v}")
            t = r if c["n"] == 0 else r[-1]
            require(isinstance(t, float) and 0 <= t < 60, f"the time is {t}")
            n += 1
    return dict(states=n, transitions=n, traces=n, nontrivial=True)
