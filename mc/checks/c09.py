"""Simple-update evolutions against exact imaginary-time evolution and against an independent mean-field reference."""
import itertools
import numpy as np
import torch
from .. import evo
from ..core import require
from ..lib import *

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of configurations and evolution histories on the real code against an exact reference model (state vector of the periodic cell; independent mean-field update)"
RULE = ("exact cases: one per (class of representable evolution, unit cell, dtype, dimensions, bond list arrangement, sequence of evolve calls, bond); after "
        "every call the periodic state built from the site tensors is compared with the exact one; truncating cases: generic evolutions of entangled states, "
        "compared with an independent reference that keeps the largest mean-field weights of each bond; non-trivial: the gates move the state")
ASSUMPTIONS = ["inputs are generic (pseudo-random) representatives of each class", "time steps of 0.3, and down to 1e-8 where the error must be small against the distance moved",
               "the mean-field weights start from one in every evolve call (they are not part of the network)"]
NOTE = "A state is the network after an evolve call, a transition one gate."
CASE_LIMIT = 400


def base(**kw):
    d = dict(kind="exact", cls="diag", nx=2, ny=2, dtype="float64", d=2, D=2, D0=2, bond=0, calls=(2,), dtau=0.3, list="built", ctm=0, chi=4,
             opt=dict(update_type="simple"), seed=0)
    d.update(kw)
    return d


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    for dt in CDT:
        cells = [(2, 2), (2, 3), (3, 2)] + ([(3, 3)] if deep or dt == "float64" else []) + ([(2, 4), (4, 2)] if deep else [])
        for nx, ny in cells:
            for calls in ((1,), (2, 1), (1, 2)) + (((3,), (1, 1, 1)) if deep else ()):
                out.append(base(cls="local", nx=nx, ny=ny, dtype=dt, calls=calls))
            for lst in ("built", "flipped", "mixed", "rotated", "reversed"):
                for calls in ((2,), (1, 1), (1, 0, 1)):
                    if nx * ny > 6 and lst not in ("mixed",) and not deep:
                        continue
                    out.append(base(cls="diag", nx=nx, ny=ny, dtype=dt, list=lst, calls=calls))
            for b in range(2 * nx * ny):
                for lst in ("built", "flipped"):
                    out.append(base(cls="single", nx=nx, ny=ny, dtype=dt, bond=b, list=lst, calls=(2, 1)))
            for small in (1e-2, 1e-3) if is_single(dt) else (1e-3, 1e-5, 1e-7, 1e-8):
                for cls in ("diag", "single"):
                    for calls in ((1,), (2, 1)):
                        out.append(base(cls=cls, nx=nx, ny=ny, dtype=dt, list="mixed", calls=calls, dtau=small, small=True))
            out.append(base(cls="zero", nx=nx, ny=ny, dtype=dt, calls=(0, 2), dtau=0.0))
        out.append(base(cls="local", d=3, D=3, dtype=dt))
        for b in range(8):
            out.append(base(cls="single", D=3, d=3, bond=b, dtype=dt, calls=(2, 1)))
            out.append(base(cls="single", D=4, d=2, bond=b, dtype=dt, calls=(3,)))
        out.append(base(cls="diag", D=3, dtype=dt, calls=(3,)))
        for lst in ("built", "mixed"):
            out.append(base(cls="grow", D=4, dtype=dt, calls=(1,), list=lst))
            out.append(base(cls="generic", D=4, dtype=dt, calls=(1,), list=lst))
            if deep:
                out.append(base(cls="grow", D=4, dtype=dt, calls=(1,), list=lst, nx=2, ny=3))
    for dt in CDT:
        for nx, ny in ((2, 2), (2, 3), (3, 2)) + (((3, 3),) if deep else ()):
            for D, d in ((2, 2), (3, 2), (2, 3)) if nx * ny == 4 else ((2, 2),):
                for calls in ((1,), (3,), (2, 2)) + (((5, 3),) if deep else ()):
                    for lst in ("built", "flipped", "mixed", "rotated", "reversed"):
                        if is_single(dt) and lst not in ("built", "mixed"):
                            continue
                        for site in (False, True):
                            out.append(dict(kind="truncating", nx=nx, ny=ny, dtype=dt, D=D, d=d, calls=calls, list=lst, site=site, dtau=0.1))
    return out


class MeanField:
    """Gamma-lambda form of the simple update: A = Gamma times the square root of every adjacent weight."""

    def __init__(self, A, nx, ny):
        self.nx, self.ny = nx, ny
        self.A = {s: np.asarray(a).astype(complex) for s, a in A.items()}
        self.D = next(iter(A.values())).shape[0]
        self.gap = 1.0

    def start(self):
        self.lam = {}

    def weight(self, s, k):
        e = evo.edge_of((s, neighbour(s, k, self.nx, self.ny), k), self.nx, self.ny)
        return self.lam.get(e, np.ones(self.D))

    @staticmethod
    def scale(a, k, w):
        return np.moveaxis(np.moveaxis(a, k, -1) * w, -1, k)

    def update(self, b, gate):
        """gate[out, in] on the two sites of the bond."""
        s1, s2, k = b
        k2 = (k + 2) % 4
        a1, a2 = self.A[s1], self.A[s2]
        for j in range(4):
            if j != k:
                a1 = self.scale(a1, j, self.weight(s1, j))
            if j != k2:
                a2 = self.scale(a2, j, self.weight(s2, j))
        d = a1.shape[4]
        n = self.D**3
        m1 = np.moveaxis(a1, k, -1).reshape(n, d, self.D)
        m2 = np.moveaxis(a2, k2, -1).reshape(n, d, self.D)
        t = np.einsum("apt,bqt->abpq", m1, m2)
        t = np.einsum("rspq,abpq->arbs", gate.reshape(d, d, d, d), t).reshape(n * d, n * d)
        u, sv, vh = np.linalg.svd(t, full_matrices=False)
        D = self.D
        # how well separated the kept weights are from the rest
        self.gap = min(self.gap, (sv[D - 1] - sv[D]) / sv[0])
        sv = sv[:D] / np.linalg.norm(sv[:D])
        r = np.sqrt(sv)
        a1 = np.moveaxis((u[:, :D] * r).reshape((self.D,) * 3 + (d, D)), -1, k)
        a2 = np.moveaxis((vh[:D].T * r).reshape((self.D,) * 3 + (d, D)), -1, k2)
        for j in range(4):
            if j != k:
                a1 = self.scale(a1, j, 1 / self.weight(s1, j))
            if j != k2:
                a2 = self.scale(a2, j, 1 / self.weight(s2, j))
        self.A[s1], self.A[s2] = a1, a2
        self.lam[evo.edge_of(b, self.nx, self.ny)] = r


def run_truncating(c):
    nx, ny, dt, D, d = c["nx"], c["ny"], c["dtype"], c["D"], c["d"]
    kind = "complex128" if is_cplx(dt) else "float64"
    g = rng("c09", nx, ny, dt, D, d)
    A = {s: unit(randn(g, (D,) * 4 + (d,), kind)).astype(CDT[dt]) for s in sites(nx, ny)}
    h2 = {evo.edge_of(b, nx, ny): rand_herm(g, d * d, kind) for b in bonds(nx, ny)}
    h1 = {s: rand_herm(g, d, kind) if c["site"] and i % 3 != 1 else None for i, s in enumerate(sites(nx, ny))}

    def bond_h(b):
        h = h2[evo.edge_of(b, nx, ny)]
        return h if b[2] in (1, 2) else evo.swap(h, d)
    ip = new_ipeps(nx=nx, ny=ny, D=D, d=d, chi=4, dtype=dt, ctmrg=dict(steps=0), evolution=dict(update_type="simple"))
    evo.arrange(ip, c["list"])
    set_tensors(ip, A)
    ip.set_model(make_model_class(site_h=lambda s: h1[s], bond_h=bond_h), {})
    ref = MeanField(A, nx, ny)
    order = [tuple(b) for b in ip.bond_list]
    eye = np.eye(d)
    gates = 0
    worst = 0.0
    for steps in c["calls"]:
        ip.evolve(c["dtau"], steps)
        ref.start()
        for _ in range(steps):
            for b in order:
                h = np.array(bond_h(b))
                if h1[b[0]] is not None:
                    h = h + np.kron(h1[b[0]], eye) / 4
                if h1[b[1]] is not None:
                    h = h + np.kron(eye, h1[b[1]]) / 4
                ref.update(b, expm_herm(h, c["dtau"]))
                gates += 1
            order.reverse()
        got = get_tensors(ip)
        require(all(np.isfinite(a).all() for a in got.values()), "an updated tensor is not finite")
        e = state_error(torus_state(got, nx, ny), torus_state(ref.A, nx, ny))
        worst = max(worst, e)
        # roundoff is amplified by the inverse distance of the kept from the dropped weights
        lim = max(tol(dt, 1e-9, 1e-3), tol(dt, 1e-11, 1e-4) / max(ref.gap, 1e-9))
        require(e < lim, f"after {steps} steps the state differs from the mean-field reference by {e:.2e} (gap {ref.gap:.1e})")
        require(lim < 0.1, "harness: the kept weights are degenerate")
    moved = state_error(torus_state(A, nx, ny), torus_state(ref.A, nx, ny))
    return dict(states=len(c["calls"]), transitions=gates, traces=1, nontrivial=moved > 0.05,
                stats={"max_error_truncating_" + ("single" if is_single(dt) else "double"): worst})


def run_case(c):
    if c["kind"] == "truncating":
        return run_truncating(c)
    return evo.run_case(c, tol(c["dtype"], 1e-7, 5e-3), False, tol(c["dtype"], 1e-11, 5e-4) if c.get("small") else None)
