"""Evolutions whose result is representable, and their exact result on the periodic unit cell."""
import numpy as np
import torch
from .core import require
from .lib import *


def arrange(ip, kind):
    """Reorient and reorder the bond list."""
    from acetn.ipeps.bond import Bond
    L = list(ip.bond_list)
    if kind in ("flipped", "mixed"):
        L = [Bond(b.s2, b.s1, (b.k + 2) % 4) if kind == "flipped" or i % 3 else b for i, b in enumerate(L)]
    if kind in ("rotated", "mixed"):
        L = L[len(L)//3:] + L[:len(L)//3]
    if kind == "reversed":
        L.reverse()
    ip.bond_list[:] = L


def edge_of(b, nx, ny):
    s1, s2, k = b
    return (tuple(s1), k) if k in (1, 2) else (tuple(s2), k - 2 if k == 3 else 2)


def rand_unitary(g, n, cplx):
    a = g.standard_normal((n, n)) + (1j * g.standard_normal((n, n)) if cplx else 0)
    return np.linalg.qr(a)[0]


def swap(h, d):
    return h.reshape(d, d, d, d).transpose(1, 0, 3, 2).reshape(d * d, d * d)


def problem(c):
    """Initial tensors, bond and site terms of a case."""
    nx, ny, dt, cls, d, D = c["nx"], c["ny"], c["dtype"], c["cls"], c["d"], c["D"]
    cplx = is_cplx(dt)
    kind = "complex128" if cplx else "float64"
    g = rng("evo", cls, nx, ny, dt, d, D, c.get("seed", 0))
    S = sites(nx, ny)
    E = sorted({edge_of(b, nx, ny) for b in bonds(nx, ny)})
    # the site basis in which the couplings of the class `diag` are diagonal
    U = {s: rand_unitary(g, d, cplx) for s in S}

    def rotated_diag(e):
        s = e[0]
        t = neighbour(s, e[1], nx, ny)
        V = np.kron(U[s], U[t])
        return V @ np.diag(g.standard_normal(d * d)) @ V.conj().T
    h1 = {s: None for s in S}
    if cls in ("local", "zero"):
        A = {s: randn(g, (D,) * 4 + (d,), kind) for s in S}
        h2 = {e: np.kron(rand_herm(g, d, kind), np.eye(d)) + np.kron(np.eye(d), rand_herm(g, d, kind)) for e in E}
        h1 = {s: rand_herm(g, d, kind) if i % 3 != 2 else None for i, s in enumerate(S)}
    elif cls in ("diag", "single", "generic"):
        A = {}
        for s in S:
            # a product state, each leg carrying a generic vector
            v = [unit(randn(g, (D,), kind)) for _ in range(4)]
            A[s] = np.einsum("l,u,r,d,p->lurdp", *v, unit(randn(g, (d,), kind)))
        if cls == "diag":
            h2 = {e: rotated_diag(e) for e in E}
            h1 = {s: U[s] @ np.diag(g.standard_normal(d)) @ U[s].conj().T for s in S}
        elif cls == "generic":
            h2 = {e: rand_herm(g, d * d, kind) for e in E}
        else:
            one = E[c["bond"] % len(E)]
            h2 = {e: rand_herm(g, d * d, kind) if e == one else np.zeros((d * d, d * d)) for e in E}
    elif cls == "grow":
        D0 = c["D0"]
        G = {e: rand_unitary(g, D, cplx) for e in E}
        A = {}
        for s in S:
            a = np.zeros((D,) * 4 + (d,), dtype=complex if cplx else float)
            a[:D0, :D0, :D0, :D0] = randn(g, (D0,) * 4 + (d,), kind)
            for k in range(4):
                m = G[edge_of((s, neighbour(s, k, nx, ny), k), nx, ny)]
                m = m if k in (1, 2) else np.linalg.inv(m).T
                a = np.moveaxis(np.tensordot(a, m, axes=(k, 0)), -1, k)
            A[s] = a
        h2 = {e: rotated_diag(e) for e in E}
    A = {s: unit(a).astype(CDT[dt]) for s, a in A.items()}

    def bond_h(b):
        h = h2[edge_of(b, nx, ny)]
        return h if b[2] in (1, 2) else swap(h, d)
    return A, (lambda s: h1[s]), bond_h


def run_case(c, tolerance, normalized, floor=None):
    """`floor`: for small time steps, the error must be small against the distance moved, down to this value."""
    nx, ny, dt = c["nx"], c["ny"], c["dtype"]
    A, site_h, bond_h = problem(c)
    ip = new_ipeps(nx=nx, ny=ny, D=c["D"], d=c["d"], chi=c.get("chi", 4), dtype=dt,
                   ctmrg=dict(steps=c.get("ctm", 1), **c.get("ctmrg", {})), evolution=c["opt"])
    arrange(ip, c.get("list", "built"))
    set_tensors(ip, A)
    ip.set_model(make_model_class(site_h=site_h, bond_h=bond_h), {})
    psi = torus_state(A, nx, ny)
    gates = 0
    worst = 0.0
    for steps in c["calls"]:
        order = [tuple(b) for b in ip.bond_list]
        ip.evolve(c["dtau"], steps)
        psi = evolve_torus(psi, nx, ny, order, site_h, bond_h, c["dtau"], steps)
        gates += steps * len(order)
        B = get_tensors(ip)
        for s, b in B.items():
            require(np.isfinite(b).all(), f"the updated tensor of {s} is not finite")
            require(b.dtype == CDT[dt] and b.shape == A[s].shape, f"the updated tensor of {s} has shape {b.shape} and dtype {b.dtype}")
            if normalized and steps:
                require(abs(np.linalg.norm(b) - 1) < tol(dt, 1e-9, 1e-4), f"the updated tensor of {s} has norm {np.linalg.norm(b)}")
        e = state_error(torus_state(B, nx, ny), psi)
        worst = max(worst, e)
        lim = tolerance if floor is None else min(tolerance, max(1e-2 * state_error(torus_state(A, nx, ny), psi), floor))
        require(e < lim, f"after {steps} steps of {c['dtau']} the state differs from the exact one by {e:.2e}", error=e)
    ini = torus_state(A, nx, ny)
    moved = state_error(ini, psi)
    return dict(states=len(c["calls"]), transitions=gates, traces=1, nontrivial=moved > (0.05 if floor is None else 10 * floor) or c["cls"] == "zero",
                stats={"max_error_" + ("single" if is_single(dt) else "double"): worst})
