"""Boundary projectors against the best low-rank approximation of the system they are computed from."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of cells, positions, directions, options and boundary classes on the real code against an exact decomposition"
RULE = ("one case per (unit cell, dtype, dimensions, boundary class, projector type, decomposition type, chi, cutoff); within it the projectors of every direction and "
        "position; their product inserted between the two parts is compared with the truncated exact decomposition of the independently contracted system; "
        "non-trivial: the system has rank at least two")
ASSUMPTIONS = ["tensor entries are generic representatives of their class", "the randomized decomposition is compared exactly where the rank fits, and within a factor of the optimal error otherwise"]
NOTE = ("Boundary classes: generic (full rank, unequal legs), low rank, product, zero-padded, and decaying spectra around the cutoff.")
CASE_LIMIT = 600
NAMES = ("calculate_left_projectors", "calculate_up_projectors", "calculate_right_projectors", "calculate_down_projectors")


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    cells = [(2, 2), (2, 3), (3, 2), (1, 2), (2, 1)] + ([(1, 1), (3, 3), (3, 1), (1, 3)] if deep else [])
    for nx, ny in cells:
        for dt in CDT:
            for pr, sv in itertools.product(("half-system", "full-system"), ("rsvd", "full-rank")):
                def add(**kw):
                    out.append(dict(dict(nx=nx, ny=ny, dtype=dt, projectors=pr, svd=sv, D=2, legs="equal", cls="generic", chi=8, cutoff=1e-12, niter=2, over=2), **kw))
                for chi in (1, 3, 7, 8, 12, 13, 20):
                    if not deep and nx * ny > 4 and chi in (1, 13):
                        continue
                    add(chi=chi)
                    add(chi=chi, legs="mixed")
                for cls in ("lowrank", "product", "padded", "lowchain"):
                    for chi in (2, 5, 12):
                        add(cls=cls, chi=chi)
                for cut in (1e-2, 1e-3, 1e-5) if not is_single(dt) else (1e-2, 1e-3):
                    add(cls="decaying", cutoff=cut, chi=12)
                    add(cls="decaying", cutoff=cut, chi=4)
                add(cls="random", chi=6)
                add(D=1, chi=2)
                add(D=1, chi=3)
                if nx * ny == 4:
                    add(D=3, chi=9, legs="one")
                    add(D=3, chi=4, legs="one")
                    for niter, over in ((1, 0), (1, 5), (3, 1)):
                        add(chi=12, niter=niter, over=over)
                        add(chi=5, niter=niter, over=over)
    return out


def build(c):
    nx, ny, D, dt, cls = c["nx"], c["ny"], c["D"], c["dtype"], c["cls"]
    ip = new_ipeps(nx=nx, ny=ny, D=D, chi=c["chi"], dtype=dt,
                   ctmrg=dict(projectors=c["projectors"], svd_type=c["svd"], svd_cutoff=c["cutoff"], rsvd_niter=c["niter"], rsvd_oversampling=c["over"]))
    g = rng("c13", nx, ny, D, dt, cls, c["legs"])
    kind = "complex128" if is_cplx(dt) else "float64"
    S = sites(nx, ny)
    if cls in ("product", "padded", "random"):
        A = {}
        for s in S:
            if cls == "product":
                v = [unit(randn(g, (D,), kind)) for _ in range(4)]
                a = np.einsum("l,u,r,d,p->lurdp", *v, unit(randn(g, (2,), kind)))
            elif cls == "padded":
                a = np.zeros((D,) * 4 + (2,), complex if is_cplx(dt) else float)
                a[0, 0, 0, 0] = unit(randn(g, (2,), kind))
            else:
                a = randn(g, (D,) * 4 + (2,), kind)
            A[s] = unit(a).astype(CDT[dt])
        set_tensors(ip, A)
        return ip
    sizes = {"equal": (3, 3, 3, 3), "one": (1, 1, 1, 1), "mixed": (2, 3, 4, 3)}[c["legs"]]
    if cls in ("lowrank", "lowchain"):
        sizes = (3, 3, 3, 3)
    for s in S:
        x, y = s
        # sizes of the legs of each side may differ between rows and columns
        q = [sizes[0] + (y % 2 if c["legs"] == "mixed" else 0), sizes[1], sizes[2], sizes[3] + (x % 2 if c["legs"] == "mixed" else 0)]
        a = randn(g, (D,) * 4 + (2,), kind)
        if cls == "decaying":
            w = 10.0 ** (-0.7 * np.arange(D))
            a = np.einsum("lurdp,l,u,r,d->lurdp", a, w, w, w, w)
        ip[s]['A'] = torch.tensor(unit(a).astype(CDT[dt]))
        C, E = [], []
        for k in range(4):
            ck = randn(g, (q[(k + 3) % 4], q[k]), kind)
            ek = randn(g, (q[k], q[k], D, D), kind)
            if cls == "lowrank":
                # corners of rank one
                ck = np.outer(randn(g, (q[(k + 3) % 4],), kind), randn(g, (q[k],), kind))
            if cls == "lowchain":
                # edges that pass only one chain state and do not resolve the site
                e0 = np.einsum("a,b,d,D->abdD", *(randn(g, (t,), kind) for t in (q[k], q[k], D, D)))
                ek = e0
            if cls == "decaying":
                w = 10.0 ** (-0.6 * np.arange(q[k]))
                ck = ck * w
                ek = ek * w[:, None, None, None]
            C.append(torch.tensor(unit(ck).astype(CDT[dt])))
            E.append(torch.tensor(unit(ek).astype(CDT[dt])))
        ip[s]['C'], ip[s]['E'] = C, E
    return ip


def quarter(env, s, r):
    """Corner on side r of site s with its two edges and the site: [(first leg, site leg r+3) x2, (second leg, site leg r+2) x2]."""
    C, E, A = env.C[s], env.E[s], env.A[s]
    P = np.transpose(A, [(j + r) % 4 for j in range(4)] + [4])
    t = ein("ablL,bc->aclL", E[(r + 3) % 4], C[r % 4])
    t = ein("aclL,cfuU->alLfuU", t, E[r % 4])
    t = ein("alLfuU,lurdp->aLfUrdp", t, P)
    t = ein("aLfUrdp,LURDp->adDfrR", t, P.conj())
    return t.reshape(t.shape[0] * t.shape[1]**2, -1)


def run_case(c):
    from acetn.renormalization.directional_mover import DirectionalMover
    ip = build(c)
    nx, ny, dt, chi = c["nx"], c["ny"], c["dtype"], c["chi"]
    mover = DirectionalMover(ip.config.ctmrg)
    env = Env.of(ip)
    for s in env.A:
        env.A[s] = env.A[s].astype(complex)
        env.C[s] = [t.astype(complex) for t in env.C[s]]
        env.E[s] = [t.astype(complex) for t in env.E[s]]
    eps = 1e-12 if not is_single(dt) else 1e-4
    before = snapshot(ip)
    worst, N, rank2, skipped = 0.0, 0, False, 0
    for k in range(4):
        for s in ip.site_list:
            torch.manual_seed(17 + k)
            P1, P2 = getattr(mover, NAMES[k])(ip, *s)
            what = f"{NAMES[k]} at {s}"
            require(bool(torch.isfinite(P1).all()) and bool(torch.isfinite(P2).all()), f"{what}: projectors are not finite")
            require(P1.dtype == TDT[dt] and P2.dtype == TDT[dt], f"{what}: dtype {P1.dtype}")
            t = neighbour(s, (k + 3) % 4, nx, ny)
            # upper part ends on the legs being cut, lower part begins there
            R1 = quarter(env, s, k).T                       # [(second legs), (first legs: cut)]
            R2 = quarter(env, t, (k + 3) % 4).T             # [(second legs: cut), (first legs)]
            if c["projectors"] == "full-system":
                s2 = neighbour(s, (k + 2) % 4, nx, ny)
                t2 = neighbour(t, (k + 2) % 4, nx, ny)
                R1 = quarter(env, s2, (k + 1) % 4).T @ R1
                R2 = R2 @ quarter(env, t2, (k + 2) % 4).T
            F = R1 @ R2
            n = R1.shape[1]
            q1, q2 = to_np(P1).astype(complex), to_np(P2).astype(complex)
            z = q1.shape[-1]
            require(q2.shape[-1] == z and q1.size == n * z and q2.size == n * z, f"{what}: projectors have shapes {q1.shape} and {q2.shape} for a leg of {n}")
            u, sv, vh = np.linalg.svd(F, full_matrices=False)
            rel = sv / sv[0]
            exact = int((rel > 1e-10).sum()) if not is_single(dt) else int((rel > 1e-5).sum())
            rank2 |= exact >= 2
            near = np.any(np.abs(rel / c["cutoff"] - 1) < 1e-3) or np.any(np.abs(np.log10(rel[rel > 0]) - np.log10(c["cutoff"])) < 0.01)
            above = int((rel > c["cutoff"]).sum())
            require(1 <= z <= chi, f"{what}: keeps {z} states with chi={chi}")
            noise = 1e-14 if not is_single(dt) else 1e-6
            if c["cutoff"] > 100 * noise and not near:
                require(z <= above, f"{what}: keeps {z} states although only {above} lie above the cutoff")
                if c["svd"] == "full-rank" or exact <= chi:
                    require(z == min(chi, above), f"{what}: keeps {z} states, not {min(chi, above)}")
            M = R1 @ q2.reshape(n, z) @ q1.reshape(n, z).T @ R2
            best = (u[:, :z] * sv[:z]) @ vh[:z]
            fro = np.linalg.norm
            # roundoff of the system relative to its size; states kept below it are noise over the root of their weight squared
            cond = fro(R1) * fro(R2) / fro(F)
            rough = (2e-16 if not is_single(dt) else 1e-7) * cond
            if z > int((rel > rough).sum()) and rough**2 / c["cutoff"] > 1e-3:
                require(np.isfinite(M).all(), f"{what}: not finite")
                skipped += 1
                continue
            require(np.isfinite(M).all(), f"{what}: not finite")
            # normalization: overlap with the best approximation
            al = np.vdot(M, best) / np.vdot(M, M)
            require(abs(al.imag) < 1e-2 * abs(al) and al.real > 0, f"{what}: the projectors carry a phase {al / abs(al):.2f}")
            M = M * al
            err, opt = fro(M - F) / fro(F), fro(best - F) / fro(F)
            worst = max(worst, err - opt)
            # small singular values enter through their inverse square roots
            kept = rel[min(z, len(rel)) - 1]
            acc = eps / max(kept, eps) ** 0.5 * 10
            if z >= min(chi, exact) and exact <= chi:
                require(err < max(acc, 1e-7 if not is_single(dt) else 2e-2), f"{what}: the system is not reproduced although its rank {exact} fits (error {err:.1e})")
            elif c["svd"] == "full-rank":
                require(err < opt * (1 + 1e-6) + max(acc, 1e-9 if not is_single(dt) else 2e-3), f"{what}: error {err:.2e} exceeds the optimal {opt:.2e}")
                gap = rel[z - 1] - rel[z] if z < len(rel) else 1
                if gap > 1e-2:
                    require(fro(M - best) / fro(F) < 1e-3, f"{what}: not the best approximation (off by {fro(M - best) / fro(F):.1e})")
            else:
                require(err < opt * 2.5 + max(acc, 1e-7 if not is_single(dt) else 2e-2), f"{what}: error {err:.2e} is far from the optimal {opt:.2e}")
            N += 1
    require(same_snapshot(before, snapshot(ip)), "computing projectors changed the network")
    return dict(checks=N, nontrivial=rank2, stats={"max_excess_" + ("single" if is_single(dt) else "double"): float(worst), "projector_pairs": N, "ill_conditioned_pairs_checked_for_finiteness_only": skipped})
