"""Distributed runs: every world size and cell on communicating rank processes, against serial runs and exact states."""
import itertools
import socket
import numpy as np
import torch
from ..core import require, Violation
from ..lib import *
from .. import fakedist
from . import c12
from ..evo import arrange

ID = "C16"
LEVEL = "model_checking"
TECHNIQUE = ("controlled execution of all rank processes through a stand-in for torch.distributed that completes a collective only when all ranks arrive with equal arguments, exhaustive exploration "
             "of all interleavings of the recorded collective traces, and replay of the same runs on real gloo process groups")
RULE = ("one case per (world size, cell, class of run, options); ranks start with different random generators; states and transitions are those of the product of the rank traces; "
        "non-trivial: more than one collective was exchanged")
ASSUMPTIONS = ["collectives block until all ranks have arrived", "ranks share nothing but collectives (they are separate processes), so that the result does not depend on the interleaving",
               "rows keep different boundary dimensions in the class `phases`"]
NOTE = "Classes: `generic` - truncating, half-system and full-rank, equal to the serial run; `agree` - truncating with the other options, equal on all ranks; `phases` - representable boundaries, equal to the exact infinite lattice for every option; `real` - as these on gloo."
CASE_LIMIT = 600


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    cells = [(x, y) for x in range(1, 4) for y in range(1, 4)]
    opts = list(itertools.product(("half-system", "full-system"), ("rsvd", "full-rank")))
    for ws in range(2, 9):
        for i, (nx, ny) in enumerate(cells):
            for j, up in enumerate(("full", "simple")):
                if not deep and up == "simple" and (i + ws) % 2:
                    continue
                for dt in CDT if deep else (("float64", "complex128", "float32", "complex64")[(i + ws + j) % 4],):
                    out.append(dict(cls="generic", ws=ws, nx=nx, ny=ny, dtype=dt, update=up, projectors="half-system", svd="full-rank",
                                    list=("built", "flipped", "mixed")[(i + ws) % 3]))
            for j, (pr, sv) in enumerate(opts):
                if (pr, sv) == ("half-system", "full-rank") or not deep and (ws > 5 or (i + ws + j) % 3):
                    continue
                out.append(dict(cls="agree", ws=ws, nx=nx, ny=ny, dtype=list(CDT)[(i + ws + j) % 4], update="full", projectors=pr, svd=sv, list=("mixed", "built", "flipped")[i % 3]))
            n = 2 * nx * ny
            for j, (pr, sv) in enumerate(opts):
                if not deep and (i + ws + j) % 2:
                    continue
                pats = [2**n - 1, sum(1 << b for b in range(n) if b * 3 % 5 < 2), 1]
                for pat in sorted(set(pats)) if deep else [pats[(i + ws) % 3]]:
                    out.append(dict(cls="phases", ws=ws, nx=nx, ny=ny, pattern=pat, dtype=("float64", "complex128")[i % 2], projectors=pr, svd=sv))
    for ws in (2, 3, 4) + ((5, 6, 8) if deep else ()):
        for nx, ny in ((2, 2), (2, 3), (3, 2)) if deep else ((2, 3),):
            out.append(dict(cls="generic", real=True, ws=ws, nx=nx, ny=ny, dtype="float64", update="full", projectors="half-system", svd="full-rank", list="mixed"))
            out.append(dict(cls="phases", real=True, ws=ws, nx=nx, ny=ny, pattern=5, dtype="complex128", projectors="full-system", svd="rsvd"))
    return out


def build(c):
    nx, ny = c["nx"], c["ny"]
    if c["cls"] == "phases":
        ctm = dict(steps=4, projectors=c["projectors"], svd_type=c["svd"])
        return new_ipeps(nx=nx, ny=ny, D=2, chi=8, dtype=c["dtype"], ctmrg=ctm)
    return new_ipeps(nx=nx, ny=ny, D=2, chi=5, dtype=c["dtype"], ctmrg=dict(steps=1, projectors=c["projectors"], svd_type=c["svd"]),
                     evolution=dict(update_type=c["update"], als_niter=8))


def set_model(c, ip):
    kind = "complex128" if is_cplx(c["dtype"]) else "float64"
    g = rng("c16m", c["nx"], c["ny"], is_cplx(c["dtype"]))
    h1 = {s: rand_herm(g, 2, kind) for s in ip.site_list}
    h2 = rand_herm(g, 4, kind)
    ip.set_model(make_model_class(site_h=lambda s: h1[s], bond_h=lambda b: h2, init=lambda s: [1.0, 0.5 + 0.1 * s[0] - 0.2 * s[1]],
                                  site_obs=lambda s: {"m": h1[s]}), {})


def start(c, ip):
    """Initial state of a fresh network, with the noise of its own random generator."""
    set_model(c, ip)
    if min(c["nx"], c["ny"]) > 1:
        ip.evolve(0.1, 0)
    else:
        ip.initialize_site_tensors(lambda s: [1.0, 0.5])
    return get_tensors(ip)


def proceed(c, ip, A):
    """What is compared between distributed and serial runs: from given site tensors on."""
    set_tensors(ip, A)
    log = []
    if c["cls"] != "phases":
        # entangled tensors, equal on all ranks
        g = rng("c16a", c["nx"], c["ny"], is_cplx(c["dtype"]))
        kind = "complex128" if is_cplx(c["dtype"]) else "float64"
        B = {s: unit(A[s] + unit(randn(g, A[s].shape, kind))).astype(CDT[c["dtype"]]) for s in sorted(A)}
        set_tensors(ip, B)
        ip.renormalize()
        log.append(state(ip))
        if min(c["nx"], c["ny"]) > 1:
            arrange(ip, c["list"])
            ip.evolve(0.05, 1)
            log.append(state(ip))
    else:
        ip.renormalize()
        log.append(state(ip))
    log.append({k: float(v) for k, v in ip.measure().items()})
    return log


def state(ip):
    return {s: [to_np(ip[s]['A'])] + [to_np(t) for t in ip[s]['C']] + [to_np(t) for t in ip[s]['E']] for s in ip.site_list}


def densities(c, st):
    """All density matrices of a recorded state, normalized."""
    env = Env(c["nx"], c["ny"], {s: v[0].astype(complex) for s, v in st.items()}, {s: [t.astype(complex) for t in v[1:5]] for s, v in st.items()},
              {s: [t.astype(complex) for t in v[5:]] for s, v in st.items()})
    out = {}
    for s in st:
        r = env.site_rdm(s)
        out[s] = r / np.trace(r)
    for s1, s2, k in bonds(c["nx"], c["ny"]):
        r = env.bond_rdm(s1, s2, k)
        out[(s1, s2, k)] = r / np.einsum("abab->", r)
    return out


def run_case(c):
    ws, nx, ny, dt = c["ws"], c["nx"], c["ny"], c["dtype"]
    exact = None
    if c["cls"] == "phases":
        A, rho = c12.build(dict(c, cls="phases"))
        exact = (A, rho)

    def body(rank):
        ip = build(c)
        require(ip.is_distributed and ip.rank == rank and ip.world_size == ws, f"rank {rank} of {ws}: the network believes to be rank {ip.rank} of {ip.world_size}")
        if exact is not None:
            set_model(c, ip)
            log = proceed(c, ip, {s: unit(a).astype(CDT[dt]) for s, a in exact[0].items()})
            return None, log
        first = start(c, ip)
        torch.rand(rank + 1)
        second = build(c)           # a later network, after the random generators have gone apart
        again = start(c, second)
        del second
        return (first, again), proceed(c, ip, first)
    port = None
    for attempt in range(3):
        if c.get("real"):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                port = s.getsockname()[1]
        try:
            results, traces = fakedist.run_ranks(ws, body, real_port=port)
            break
        except fakedist.Deadlock as e:
            # another process may have taken the port
            if port is None or attempt == 2:
                raise Violation(str(e)) from None
    if port is not None:
        # the stand-in produces the same traces as the real process group
        fake = fakedist.run_ranks(ws, body)[1]
        for r in range(ws):
            require(len(fake[r]) == len(traces[r]) and [t[0] for t in fake[r]] == [t[0] for t in traces[r]],
                    f"rank {r} performs other collectives on the real process group than on the stand-in")
    states, trans, stuck = fakedist.explore_traces([[t for t in tr] for tr in traces])
    require(stuck is None, f"the ranks can get stuck after {stuck and stuck[0]} collectives")
    eps = tol(dt, 1e-10, 1e-4)
    for r in range(1, ws):
        compare(results[0][0], results[r][0], eps, f"initial site tensors of ranks 0 and {r}")
        compare(results[0][1], results[r][1], eps, f"tensors of ranks 0 and {r}")
    log = results[0][1]
    if exact is not None:
        lim = 1e-6
        for key, r in densities(c, log[0]).items():
            if len(key) == 2:
                x = exact[1]([key])
            else:
                x = exact[1]([key[0], (key[0][0] + STEP[key[2]][0], key[0][1] + STEP[key[2]][1])])
            x = x / (np.trace(x) if x.ndim == 2 else np.einsum("abab->", x))
            e = np.linalg.norm(r - x)
            require(e < lim, f"the density matrix of {key} is off by {e:.2e}")
    elif c["cls"] == "generic":
        torch.manual_seed(5)
        ip = build(c)
        start(c, ip)
        ref = proceed(c, ip, results[0][0][0])
        lim = tol(dt, 1e-6, 3e-2)
        for i, (a, b) in enumerate(zip(ref[:-1], log[:-1])):
            da, db = densities(c, a), densities(c, b)
            for key in da:
                e = np.linalg.norm(da[key] - db[key])
                require(e < lim, f"the density matrix of {key} differs from that of the serial run by {e:.2e} after {'renormalizing' if i == 0 else 'evolving'}")
        for k in ref[-1]:
            require(abs(ref[-1][k] - log[-1][k]) < 30 * lim, f"the measured {k} is {log[-1][k]}, but {ref[-1][k]} in the serial run")
    return dict(states=states, transitions=trans, traces=ws, nontrivial=len(traces[0]) > 1, stats={"collectives": len(traces[0]), "max_world_size": ws, "real_runs": int(port is not None)})


def compare(a, b, eps, what):
    if isinstance(a, np.ndarray):
        require(a.shape == b.shape and a.dtype == b.dtype and np.isfinite(a).all() and np.abs(a - b).max() <= eps, f"{what} differ")
    elif isinstance(a, dict):
        require(list(a) == list(b), f"{what} differ")
        for k in a:
            compare(a[k], b[k], eps, what)
    elif isinstance(a, (list, tuple)):
        require(len(a) == len(b), f"{what} differ")
        for x, y in zip(a, b):
            compare(x, y, eps, what)
    elif isinstance(a, float):
        require(abs(a - b) <= eps * 100, f"{what} differ")
