"""Full-update evolutions against exact imaginary-time evolution, and truncating updates against the exact boundary metric."""
import itertools
import numpy as np
import torch
from .. import evo
from ..core import require
from ..lib import *

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of configurations and evolution histories on the real code against an exact reference model (state vector of the periodic cell; exact metric of the boundary)"
RULE = ("one case per (class of representable evolution, unit cell, dtype, dimensions, bond list arrangement, sequence of evolve calls, linear solver, "
        "gauge fixing, boundary options) within the bounds; after every call the periodic state built from the site tensors is compared with the exact "
        "state; `optimal` cases: every bond, orientation, boundary history, dtype and solver of one truncating update; non-trivial: the gates move the state")
ASSUMPTIONS = ["inputs are generic (pseudo-random) representatives of each class", "time steps of 0.3, and down to 1e-6 where the error must be small against the distance moved, single-precision tolerance 2e-2"]
NOTE = ("Classes: site terms only, mutually commuting bond terms from product states, one generic bond term, growth into larger bonds, generic terms with maximal bond, "
        "zero time step. A state is the network after an evolve call, a transition one gate.")
CASE_LIMIT = 400


def base(**kw):
    d = dict(kind="evolution", cls="diag", nx=2, ny=2, dtype="float64", d=2, D=2, D0=2, bond=0, calls=(2,), dtau=0.3, list="built", ctm=1, chi=4,
             opt={}, ctmrg={}, seed=0)
    d.update(kw)
    d["opt"] = {"update_type": "full", "als_niter": 30, **d["opt"]}
    return d


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    dts = ("float64", "complex128", "float32", "complex64")
    for dt in dts:
        cells = [(2, 2), (2, 3), (3, 2)] + ([(3, 3), (2, 4), (4, 2)] if deep and not is_single(dt) else [])
        for nx, ny in cells:
            for calls in ((1,), (2, 1)) + (((3,), (1, 1, 1)) if deep else ()):
                out.append(base(cls="local", nx=nx, ny=ny, dtype=dt, calls=calls, chi=8))
            for lst in ("built", "flipped", "mixed", "rotated", "reversed"):
                if is_single(dt) and lst in ("rotated", "reversed") and not deep:
                    continue
                out.append(base(cls="diag", nx=nx, ny=ny, dtype=dt, list=lst, calls=(1, 1) if lst == "built" else (2,)))
            for b in range(2 * nx * ny if not is_single(dt) else 2):
                for lst in ("built", "flipped"):
                    out.append(base(cls="single", nx=nx, ny=ny, dtype=dt, bond=b, list=lst))
            for small in () if is_single(dt) else (1e-3, 1e-6):
                for cls in ("diag", "single"):
                    for me in ("cholesky", "pinv"):
                        out.append(base(cls=cls, nx=nx, ny=ny, dtype=dt, list="mixed", calls=(2, 1), dtau=small, small=True, opt=dict(als_method=me)))
            out.append(base(cls="zero", nx=nx, ny=ny, dtype=dt, calls=(0, 2), dtau=0.0))
        if not is_single(dt):
            for nx, ny in [(2, 2), (2, 3), (3, 2)] if deep else [(2, 2)]:
                out.append(base(cls="local", nx=nx, ny=ny, d=3, dtype=dt, chi=6))
            out.append(base(cls="grow", D=4, dtype=dt, calls=(1,), chi=6))
            out.append(base(cls="generic", D=4, dtype=dt, calls=(1,), chi=6))
            out.append(base(cls="single", D=3, d=3, bond=1, dtype=dt, calls=(2, 1), chi=6))
            out.append(base(cls="diag", D=3, dtype=dt, chi=6))
    # every combination of solver, gauge fixing and boundary options
    for dt in ("float64", "complex128") + (("float32", "complex64") if deep else ()):
        for cls in ("diag", "local", "single") + (("grow", "generic") if deep and not is_single(dt) else ()):
            for gf, me, pr, sv in itertools.product((True, False), ("cholesky", "pinv"), ("half-system", "full-system"), ("rsvd", "full-rank")):
                if (gf, me, pr, sv) == (True, "cholesky", "half-system", "rsvd"):
                    continue
                big = cls in ("grow", "generic")
                out.append(base(cls=cls, nx=2, ny=2 if big else 3, dtype=dt, list="built" if big else "mixed", calls=(1,) if big else (2,), D=4 if big else 2,
                                chi=6, opt=dict(use_gauge_fix=gf, als_method=me), ctmrg=dict(projectors=pr, svd_type=sv)))
    for dt in ("float64", "complex128"):
        for it, at, cut in itertools.product((1, 100), (1e-15, 1e-6), (1e-12, 1e-10)):
            out.append(base(cls="diag", dtype=dt, opt=dict(als_niter=it, als_tol=at, positive_approx_cutoff=cut, gauge_fix_atol=cut)))
    # truncating updates in the exact metric of the boundary
    for dt in dts if deep else ("float64", "complex128", "complex64"):
        for nx, ny in ((2, 2), (2, 3), (3, 2)) + (((3, 3),) if deep else ()):
            for moves in ((), ((0, 0), (1, 1)), ((2, 1), (3, 0), (0, 1))):
                for D, d in ((2, 2), (2, 3)) + (((3, 2),) if deep and not moves else ()):
                    for gf, me in itertools.product((True, False), ("cholesky", "pinv")):
                        if not deep and (d == 3 and moves or (not gf and me == "pinv")):
                            continue
                        out.append(dict(kind="optimal", nx=nx, ny=ny, dtype=dt, D=D, d=d, moves=moves, gf=gf, me=me))
    return out


def half(env, s, r, towards):
    """Boundary of a site missing its neighbour in direction r: [start, end, (other legs), (other LEGS)].

    Legs appear in the order r+1, r+2, r+3, with the chain running clockwise from side r+1 to side r+3."""
    C, E = env.C[s], env.E[s]
    ed = lambda pos: E[(r + pos - 1) % 4]
    co = lambda pos: C[(r + pos) % 4]
    t = ein("wxaA,xy->wyaA", ed(1), co(1))
    t = ein("wyaA,yzbB->wzaAbB", t, ed(2))
    u = ein("zx,xycC->zycC", co(2), ed(3))
    return ein("wzaAbB,zycC->wyabcABC", t, u)


def metric(env, s1, s2, k):
    h1 = half(env, s1, k, True)
    h2 = half(env, s2, (k + 2) % 4, False)
    n = h1.shape[2] * h1.shape[3] * h1.shape[4]
    m = h2.shape[2] * h2.shape[3] * h2.shape[4]
    h1 = h1.reshape(h1.shape[0], h1.shape[1], n, n)
    h2 = h2.reshape(h2.shape[0], h2.shape[1], m, m)
    return ein("wyaA,ywbB->abAB", h1, h2).reshape(n * m, n * m)


def run_optimal(c):
    from acetn.evolution import Gate, FullUpdater
    from acetn.ipeps.bond import Bond
    nx, ny, dt, D, d = c["nx"], c["ny"], c["dtype"], c["D"], c["d"]
    cplx = is_cplx(dt)
    g = rng("c08", nx, ny, dt, D, d)
    A = {s: unit(randn(g, (D,) * 4 + (d,), dt)).astype(CDT[dt]) for s in sites(nx, ny)}
    h = {b: rand_herm(g, d * d, "complex128" if cplx else "float64") for b in bonds(nx, ny)}
    h.update({(b[1], b[0], (b[2] + 2) % 4): evo.swap(x, d) for b, x in list(h.items())})
    dtau = 0.4
    ip = new_ipeps(nx=nx, ny=ny, D=D, d=d, chi=300, dtype=dt,
                   evolution=dict(use_gauge_fix=c["gf"], als_method=c["me"], als_niter=400, als_tol=0.0 if not is_single(dt) else 1e-9))
    set_tensors(ip, A)
    env = Env.of(ip)
    for k, i in c["moves"]:
        env.move(k, i)
    for s in ip.site_list:
        for j in range(4):
            ip[s]['C'][j] = torch.tensor(env.C[s][j])
            ip[s]['E'][j] = torch.tensor(env.E[s][j])
    B = [Bond(b[0], b[1], b[2]) for b in bonds(nx, ny)]
    B += [Bond(b.s2, b.s1, (b.k + 2) % 4) for b in B]
    model = make_model_class(bond_h=lambda b: h[tuple(b)])
    from acetn.ipeps.ipeps_config import ModelConfig
    model = model(ModelConfig(dtype=TDT[dt], device=torch.device("cpu"), dim=d))
    worst = 0.0
    lim = tol(dt, 1e-5, 1e-2)
    for b in B:
        one = Gate(model, dtau, [b], [b.s1, b.s2])
        up = FullUpdater(ip, one, ip.config.evolution)
        k = b.k
        rot = [(i + k) % 4 for i in range(4)] + [4]
        before = snapshot(ip)
        x, y = up.tensor_update(ip[b.s1]['A'].permute(rot), ip[b.s2]['A'].permute(rot), b)
        require(same_snapshot(before, snapshot(ip)), "computing an update changes the network")
        x, y = to_np(x), to_np(y)
        require(x.shape == A[b.s1].transpose(rot).shape and y.shape == A[b.s2].transpose(rot).shape, "the update changes the shape of the tensors")
        require(np.isfinite(x).all() and np.isfinite(y).all(), "an updated tensor is not finite")
        require(abs(np.linalg.norm(x) - 1) < 1e-3 and abs(np.linalg.norm(y) - 1) < 1e-3, "an updated tensor is not normalized")
        # exact side: legs of the first site (towards, +1, +2, +3, p), of the second (+1 .. of its own direction back)
        x, y = x.astype(complex), y.astype(complex).transpose(2, 3, 0, 1, 4)
        a1 = A[b.s1].transpose(rot).astype(complex)
        a2 = A[b.s2].transpose(rot).transpose(2, 3, 0, 1, 4).astype(complex)
        N = metric(env, b.s1, b.s2, k)
        n = D**3
        pair = lambda u, v: np.einsum("tap,tbq->abpq", u.reshape(D, n, d), v.reshape(D, n, d)).reshape(n * n, d * d)
        inner = lambda u, v: np.sum(v.conj() * (N.T @ u))       # <v|u>
        G = expm_herm(h[tuple(b)], dtau)
        theta = pair(a1, a2) @ G.T
        psi = pair(x, y)
        nt = inner(theta, theta).real
        require(nt > 0, "harness: the boundary is not positive")
        # the normalization of the pair is free
        al = inner(theta, psi) / inner(psi, psi)
        res = al * psi - theta
        dist = np.sqrt(max(inner(res, res).real, 0) / nt)
        # variations within the space of the reduced tensors
        q1, r1 = np.linalg.qr(a1.reshape(D, n, d).transpose(1, 0, 2).reshape(n, D * d))
        q2, r2 = np.linalg.qr(a2.reshape(D, n, d).transpose(1, 0, 2).reshape(n, D * d))
        Nr = (N.T @ res).reshape(n, n, d, d)       # [bra, p]
        g1 = np.einsum("abpq,ax,tbq->xtp", Nr, q1.conj(), y.reshape(D, n, d).conj())
        g2 = np.einsum("abpq,bx,tap->xtq", Nr, q2.conj(), x.reshape(D, n, d).conj())
        # scale of a gradient: the same with the gated pair instead of the residue
        Nt = (N.T @ theta).reshape(n, n, d, d)
        s1 = np.linalg.norm(np.einsum("abpq,ax,tbq->xtp", Nt, q1.conj(), y.reshape(D, n, d).conj()))
        s2 = np.linalg.norm(np.einsum("abpq,bx,tap->xtq", Nt, q2.conj(), x.reshape(D, n, d).conj()))
        e = max(np.linalg.norm(g1) / s1, np.linalg.norm(g2) / s2)
        worst = max(worst, float(e))
        require(e < lim, f"bond {tuple(b)}: the updated pair is not stationary in the metric of the boundary (gradient {e:.1e}, distance {dist:.1e})")
        # no worse than cutting the gated pair to the bond dimension
        th = np.einsum("ax,by,abpq->xpyq", q1.conj(), q2.conj(), theta.reshape(n, n, d, d)).reshape(q1.shape[1] * d, q2.shape[1] * d)
        u, sv, vh = np.linalg.svd(th)
        cut = ((u[:, :D] * sv[:D]) @ vh[:D]).reshape(q1.shape[1], d, q2.shape[1], d)
        cut = np.einsum("ax,by,xpyq->abpq", q1, q2, cut).reshape(n * n, d * d)
        be = inner(theta, cut) / inner(cut, cut)
        rc = be * cut - theta
        dcut = np.sqrt(max(inner(rc, rc).real, 0) / nt)
        require(dist <= dcut * (1 + 1e-3) + tol(dt, 1e-7, 1e-3), f"bond {tuple(b)}: the update is worse than plain truncation ({dist:.3e} > {dcut:.3e})")
    return dict(states=len(B), transitions=len(B), traces=len(B), nontrivial=True, stats={"max_gradient_" + ("single" if is_single(dt) else "double"): worst})


def run_case(c):
    if c["kind"] == "optimal":
        return run_optimal(c)
    lim = tol(c["dtype"], 1e-7, 2e-2)
    if not c["opt"].get("use_gauge_fix", True):
        # without the gauge, directions without weight in the metric of a nearly product boundary are not resolved
        lim = 5e-2
    return evo.run_case(c, lim, True, 1e-8 if c.get("small") else None)
