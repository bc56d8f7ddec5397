"""Reduced density matrices against an independent contraction, for all small dimension tuples."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of configurations on the real code against an independent contraction"
RULE = ("one case per (unit cell, dtype, physical dimension, bond dimension, boundary-leg pattern); every site and every bond in "
        "both directions is contracted by the code and by the reference; generic tensors, all legs that may differ do differ; "
        "non-trivial: the density matrix is not a multiple of the identity")
ASSUMPTIONS = ["generic (random, fixed by the case) tensor entries stand for all entries: the contraction is multilinear"]
NOTE = ("Exhaustive over unit cells, directions, dtypes and dimensions within the bounds; tensor entries are generic representatives, "
        "which decide a multilinear identity up to measure zero. Trusts numpy einsum and the leg convention of the boundary tensors.")


def cases(tier, seed):
    out = []
    cells = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3)]
    for nx, ny in cells:
        for dt in ("float32", "float64", "complex64", "complex128"):
            for d, D, pat in itertools.product((1, 2, 3, 4), (1, 2, 3), ("mixed", "one", "flat")):
                if tier == "quick" and (d == 4 and D == 3 or (nx * ny > 4 and (d, D) != (2, 2) and (d, D) != (3, 1))):
                    continue
                out.append(dict(nx=nx, ny=ny, dtype=dt, d=d, D=D, pattern=pat))
    return out


CHUNK = 8


def fill(ip, g, dt, D, pattern):
    """Generic boundary; in pattern `mixed` every row and column has its own leg size."""
    nx, ny = ip.nx, ip.ny
    if pattern == "mixed":
        up, down = [2 + (y % 3) for y in range(ny)], [3 - (y % 2) for y in range(ny)]
        left, right = [3 + (x % 2) for x in range(nx)], [1 + (x + 1) % 3 for x in range(nx)]
    elif pattern == "one":
        up, down, left, right = [1]*ny, [1]*ny, [1]*nx, [1]*nx
    else:
        up, down, left, right = [3]*ny, [3]*ny, [3]*nx, [3]*nx
    d = ip.dims['phys']
    for (x, y) in ip.site_list:
        s = (x, y)
        # legs of the chain: edge 0 has size up[y] on both sides, edge 1 right[x], edge 2 down[y], edge 3 left[x]
        q = [up[y], right[x], down[y], left[x]]
        ip[s]['A'] = torch.tensor(randn(g, (D, D, D, D, d), dt))
        ip[s]['C'] = [torch.tensor(randn(g, (q[(k + 3) % 4], q[k]), dt)) for k in range(4)]
        ip[s]['E'] = [torch.tensor(randn(g, (q[k], q[k], D, D), dt)) for k in range(4)]


def run_case(c):
    ip = new_ipeps(nx=c["nx"], ny=c["ny"], D=c["D"], d=c["d"], chi=4, dtype=c["dtype"])
    fill(ip, rng("c11", sorted(c.items())), c["dtype"], c["D"], c["pattern"])
    snap = snapshot(ip)
    ref = Env.of(ip)
    for s in ip.site_list:
        ref.A[s] = ref.A[s].astype(np.complex128)
        ref.C[s] = [t.astype(np.complex128) for t in ref.C[s]]
        ref.E[s] = [t.astype(np.complex128) for t in ref.E[s]]
    t = tol(c["dtype"], 1e-10, 2e-3)
    n, worst = 0, 0.0
    for s in ip.site_list:
        got, want = code_site_rdm(ip, s), ref.site_rdm(s)
        require(got.dtype == CDT[c["dtype"]], f"density matrix has dtype {got.dtype}")
        e = np.linalg.norm(got - want) / np.linalg.norm(want) if got.shape == want.shape else np.inf
        require(e < t, f"one-site density matrix of {s} is off by {e:.2e}", site=s)
        worst = max(worst, e); n += 1
    for s1, s2, k in bonds(c["nx"], c["ny"]):
        a = {}
        for (p, q, kk) in ((s1, s2, k), (s2, s1, (k + 2) % 4)):
            got, want = code_bond_rdm(ip, p, q, kk), ref.bond_rdm(p, q, kk)
            e = np.linalg.norm(got - want) / np.linalg.norm(want) if got.shape == want.shape else np.inf
            require(e < t, f"two-site density matrix of {p}-{q} (direction {kk}) is off by {e:.2e}", bond=(p, q, kk))
            worst = max(worst, e); n += 1
            a[kk] = got
        e = np.linalg.norm(a[k] - np.transpose(a[(k + 2) % 4], (1, 0, 3, 2))) / np.linalg.norm(a[k])
        require(e < 4 * t, f"reversing the bond {s1}-{s2} changes the density matrix by {e:.2e}")
    require(same_snapshot(snap, snapshot(ip)), "computing density matrices changed the network")
    return dict(checks=n, nontrivial=c["d"] > 1, stats=dict(max_error=worst))
