"""Invariants of the boundary tensors in every state reachable by a bounded sequence of public operations."""
import itertools
import os
import shutil
import tempfile
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C15"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all operation sequences up to a depth on the real code, with a reference model of the boundary dimension in force"
RULE = ("one case per (configuration, first operation); every continuation up to the depth of the tier is run from a fresh network, and the invariants are evaluated after every operation; "
        "a state is one operation sequence; non-trivial: the boundary dimension in force changed")
ASSUMPTIONS = ["D=2, d=2, chi in {1, 3, 8} (files: 5), generic initial site tensors", "quick: depth 3, thorough: depth 4"]
NOTE = "The reference model keeps (configured chi, chi in force at the last renormalization); double precision runs also require that the legs grow to that dimension."
CASE_LIMIT = 600

OPS = ("chi1", "chi3", "chi8", "renormalize", "evolve", "load", "measure")


def cases(tier, seed):
    depth = 4 if tier == "thorough" else 3
    out = []
    cells = ((2, 2), (2, 3), (1, 1), (1, 2), (3, 1))
    opts = list(itertools.product(("half-system", "full-system"), ("rsvd", "full-rank"), ("full", "simple"), CDT))
    for ci, (nx, ny) in enumerate(cells):
        for i, (pr, sv, up, dt) in enumerate(opts):
            # quick: every option on the 2x2 cell, a covering quarter of them elsewhere
            if tier != "thorough" and (i * 5 + i // 4 + ci * 3) % (4 if ci == 0 else 8):
                continue
            for first in OPS:
                if first == "evolve" and min(nx, ny) < 2:
                    continue
                out.append(dict(nx=nx, ny=ny, projectors=pr, svd=sv, update=up, dtype=dt, first=first, depth=depth))
    return out


def joins(nx, ny):
    """Pairs ((site, kind, index, leg), (site, kind, index, leg)) of boundary legs that are contracted with each other."""
    J = []
    for s in sites(nx, ny):
        for j in range(4):
            J.append(((s, "C", j, 1), (s, "E", j, 0)))
            J.append(((s, "E", j, 1), (s, "C", (j + 1) % 4, 0)))
            # the chain on side j+1 runs towards direction j+2
            t = neighbour(s, (j + 2) % 4, nx, ny)
            J.append(((s, "E", j, 1), (t, "E", j, 0)))
    return J


def invariants(ip, c, cap, grown, where):
    nx, ny = c["nx"], c["ny"]
    for s in sites(nx, ny):
        A = ip[s]['A']
        require(tuple(A.shape) == (2, 2, 2, 2, 2), f"{where}: the site tensor of {s} has shape {tuple(A.shape)}")
        require(len(ip[s]['C']) == 4 and len(ip[s]['E']) == 4, f"{where}: boundary tensors are missing at {s}")
        for kind, T in [("A", A)] + [("C", t) for t in ip[s]['C']] + [("E", t) for t in ip[s]['E']]:
            require(t_ok(T, c["dtype"]), f"{where}: {kind} of {s} has dtype {T.dtype} or is not finite")
            if kind == "A" and c["update"] == "simple":
                continue
            n = float(T.norm())
            require(abs(n - 1) < 1e-4, f"{where}: {kind} of {s} has norm {n}")
        for k, (C, E) in enumerate(zip(ip[s]['C'], ip[s]['E'])):
            require(C.ndim == 2 and E.ndim == 4 and tuple(E.shape[2:]) == (2, 2), f"{where}: boundary tensors of {s} have shapes {tuple(C.shape)} and {tuple(E.shape)}")
            for n in list(C.shape) + list(E.shape[:2]):
                require(n <= cap, f"{where}: a boundary leg of {s} has dimension {n}, with a boundary dimension of {cap}")
                if grown:
                    require(n == cap, f"{where}: a boundary leg of {s} has dimension {n}, although {cap} are available")
    for a, b in joins(nx, ny):
        na, nb = ip[a[0]][a[1]][a[2]].shape[a[3]], ip[b[0]][b[1]][b[2]].shape[b[3]]
        require(na == nb, f"{where}: leg {a} has dimension {na}, but leg {b} {nb}")


def t_ok(t, dtype):
    return t.dtype == TDT[dtype] and bool(torch.isfinite(t).all())


def network(c, chi=8, dtype=None, key="a"):
    dt = dtype or c["dtype"]
    ip = new_ipeps(nx=c["nx"], ny=c["ny"], D=2, chi=chi, dtype=dt, ctmrg=dict(steps=2, projectors=c["projectors"], svd_type=c["svd"]),
                   evolution=dict(update_type=c["update"], als_niter=10))
    g = rng("c15", key, c["nx"], c["ny"], is_cplx(dt))
    set_tensors(ip, {s: unit(randn(g, (2,) * 5, "complex128" if is_cplx(dt) else "float64")).astype(CDT[dt]) for s in sites(c["nx"], c["ny"])})
    ip.set_model(make_model_class(bond_h=lambda b: np.kron(Z, Z), site_h=lambda s: X), {})
    return ip


def run_case(c):
    d = tempfile.mkdtemp(prefix="c15")
    try:
        # the file comes from a network of the other precision
        other = {"float64": "float32", "float32": "float64", "complex64": "complex128", "complex128": "complex64"}[c["dtype"]]
        src = network(c, chi=5, dtype=other, key="b")
        src.renormalize()
        path = os.path.join(d, "s.pt")
        src.save(path)
        ops = [o for o in OPS if o != "evolve" or min(c["nx"], c["ny"]) > 1]
        states = trans = changed = 0
        for seq in itertools.product([c["first"]], *([ops] * (c["depth"] - 1))):
            ip = network(c)
            chi, cap, grown = 8, 4, False
            states += 1
            for i, op in enumerate(seq):
                if op.startswith("chi"):
                    chi = int(op[3:])
                    ip.set_chi(chi)
                elif op == "renormalize":
                    ip.renormalize()
                    cap, grown = chi, True
                elif op == "evolve":
                    ip.evolve(0.05, 1)
                    cap, grown = chi, True
                elif op == "load":
                    ip.load(path)
                    cap, grown = 5, False
                else:
                    ip.measure()
                changed += cap != 4
                trans += 1
                invariants(ip, c, cap, grown and c["dtype"] in ("float64", "complex128") and c["nx"] * c["ny"] > 1, f"after {' '.join(seq[:i+1])}")
                require(ip.dims['chi'] == chi, f"after {' '.join(seq[:i+1])}: the boundary dimension is {ip.dims['chi']}, not {chi}")
        return dict(states=states, transitions=trans, traces=states, nontrivial=changed > 0)
    finally:
        shutil.rmtree(d)
