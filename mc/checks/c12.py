"""States whose infinite boundary is representable, for every pattern of bonds, against exact infinite-lattice density matrices."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *
from ..evo import edge_of

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of bond patterns, cells, options and starting boundaries on the real code against exact infinite-lattice density matrices"
RULE = ("one case per (class of states, pattern of entangling bonds, unit cell, dtype, projector type, decomposition type, starting boundary); after renormalizing, all site "
        "and bond density matrices, and the energy and observables of a random model, are compared with the exact ones; non-trivial: at least one bond entangles")
ASSUMPTIONS = ["generic (pseudo-random) tensors for each pattern", "four to eight sweeps (chains: as many as the correlation length requires) reach the fixed point of these states", "single precision runs use a singular-value cutoff of 1e-6, as the default is below roundoff"]
NOTE = ("Classes: `clusters` - generic tensors on patterns that split the lattice into finite clusters; `phases` - weighted graph states with local unitaries and "
        "random bond gauges on every pattern; `chains` - decoupled matrix-product chains along rows or columns. All patterns of the 2x2, 1x1, 1x2 and 2x1 cells are enumerated.")
CASE_LIMIT = 400


def edges(nx, ny):
    return sorted({edge_of(b, nx, ny) for b in bonds(nx, ny)})


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    opts = list(itertools.product(("half-system", "full-system"), ("rsvd", "full-rank")))
    for nx, ny in ((1, 1), (1, 2), (2, 1), (2, 2)):
        n = 2 * nx * ny
        for pat in range(2**n):
            for j, (pr, sv) in enumerate(opts):
                fin = splits(nx, ny, pat, pr)
                for i, dt in enumerate(CDT):
                    if not deep and nx * ny == 4 and (pat * 5 + 3 * j + i) % 8:
                        continue
                    start = ("site", "random", "ones")[(pat + j + i) % 3]
                    cls = ["phases"] + (["clusters"] if fin else [])
                    for k in cls:
                        out.append(dict(cls=k, nx=nx, ny=ny, pattern=pat, dtype=dt, projectors=pr, svd=sv, start=start))
    for nx, ny in ((2, 3), (3, 2), (3, 3), (1, 3), (3, 1), (2, 4)):
        n = 2 * nx * ny
        for pat in [2**n - 1] + [sum(1 << i for i in range(n) if (i * m + m) % 7 < 3) for m in range(1, 8 if deep else 4)]:
            for pr, sv in opts:
                for dt in CDT if deep else ("float64", "complex128"):
                    for start in ("site", "random"):
                        out.append(dict(cls="phases", nx=nx, ny=ny, pattern=pat, dtype=dt, projectors=pr, svd=sv, start=start))
                        if splits(nx, ny, pat, pr):
                            out.append(dict(cls="clusters", nx=nx, ny=ny, pattern=pat, dtype=dt, projectors=pr, svd=sv, start=start))
    for nx, ny in ((1, 1), (2, 2), (3, 2), (2, 3)) + (((1, 3), (3, 3), (4, 2)) if deep else ()):
        for axis in (1, 2):
            for pr, sv in opts:
                for dt in CDT:
                    for start in ("site", "random"):
                        out.append(dict(cls="chains", nx=nx, ny=ny, pattern=axis, dtype=dt, projectors=pr, svd=sv, start=start))
    seen, uniq = set(), []
    for c in out:
        k = repr(c)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    return uniq


def active(nx, ny, pat):
    E = edges(nx, ny)
    return {e for i, e in enumerate(E) if pat >> i & 1}


def clusters(nx, ny, pat, limit=9):
    """Connected cluster of every site of the cell on the infinite lattice, or None when one is larger than the limit."""
    on = active(nx, ny, pat)
    out = {}
    for s in sites(nx, ny):
        seen, todo = {s}, [s]
        while todo:
            p = todo.pop()
            for k in range(4):
                q = (p[0] + STEP[k][0], p[1] + STEP[k][1])
                m = (p[0] % nx, p[1] % ny)
                if edge_of((m, neighbour(m, k, nx, ny), k), nx, ny) in on and q not in seen:
                    seen.add(q)
                    todo.append(q)
            if len(seen) > limit:
                return None
        out[s] = sorted(seen)
    return out


def splits(nx, ny, pat, projectors):
    """Whether the pattern splits the lattice into clusters that the projectors represent. Full-system projectors keep what the
    surrounding plaquette passes on with all sites traced out, which is exact only for clusters within one bond; half-system ones
    need clusters that do not bend around the cut."""
    return pat > 0 and clusters(nx, ny, pat, limit=4 if projectors == "half-system" else 2) is not None


def build(c):
    """Site tensors, and functions giving the exact density matrices rho[ket, bra]."""
    nx, ny, dt, cls, D, d = c["nx"], c["ny"], c["dtype"], c["cls"], 2, 2
    kind = "complex128" if is_cplx(dt) else "float64"
    ct = complex if is_cplx(dt) else float
    g = rng("c12", cls, nx, ny, c["pattern"], is_cplx(dt))
    S = sites(nx, ny)
    E = edges(nx, ny)

    def gauge():
        u = np.linalg.qr(randn(g, (D, D), kind))[0]
        v = np.linalg.qr(randn(g, (D, D), kind))[0]
        return (u * np.array([1.0, 0.6])) @ v
    G = {e: gauge() for e in E}

    def dress(s, a):
        for k in range(4):
            m = G[edge_of((s, neighbour(s, k, nx, ny), k), nx, ny)]
            m = m if k in (1, 2) else np.linalg.inv(m).T
            a = np.moveaxis(np.tensordot(a, m, axes=(k, 0)), -1, k)
        return a

    if cls == "phases":
        on = active(nx, ny, c["pattern"])
        W = {}
        for e in E:
            if e not in on:
                W[e] = np.ones((2, 2))
            elif is_cplx(dt):
                W[e] = np.exp(2j * np.pi * g.random((2, 2)))
            else:
                W[e] = np.array([[1, 1], [1, -1.0]])
        # amplitudes bounded away from zero
        phi = {s: unit((0.5 + g.random(2)) * (np.exp(2j * np.pi * g.random(2)) if is_cplx(dt) else np.sign(g.standard_normal(2)))) for s in S}
        U = {s: np.linalg.qr(randn(g, (2, 2), kind))[0] for s in S}
        A = {}
        for s in S:
            a = np.zeros((2,) * 5, ct)
            for p in range(2):
                # left and down legs copy the spin, right and up legs carry the bond factors
                t = np.multiply.outer(np.multiply.outer(np.multiply.outer(np.eye(2)[p], W[(s, 1)][p]), W[(s, 2)][p]), np.eye(2)[p])
                a[..., p] += phi[s][p] * t
            a = np.einsum("lurdp,qp->lurdq", a, U[s])
            A[s] = dress(s, a)

        def rho(region):
            """Exact density matrix of a few lattice points: sum over them and their neighbours."""
            near = []
            for p in region:
                for k in range(4):
                    q = (p[0] + STEP[k][0], p[1] + STEP[k][1])
                    if q not in region and q not in near:
                        near.append(q)
            m = lambda p: (p[0] % nx, p[1] % ny)
            pts = list(region) + near
            n, r = len(pts), len(region)
            ids = list(range(n))
            psi, tens = None, []
            for i, p in enumerate(pts):
                tens += [phi[m(p)].astype(complex), [i]]
            for i, p in enumerate(pts):
                for k in (1, 2):
                    q = (p[0] + STEP[k][0], p[1] + STEP[k][1])
                    # bonds among the neighbours are phases that the trace removes
                    if q in pts and (p in region or q in region):
                        tens += [W[(m(p), k)].astype(complex), [i, pts.index(q)]]
            psi = np.einsum(*tens, ids, optimize="greedy").reshape((2,) * r + (-1,))
            for i, p in enumerate(region):
                psi = apply_one(psi, U[m(p)], i)
            psi = psi.reshape(2**r, -1)
            return (psi @ psi.conj().T).reshape((2,) * (2 * r))
        return A, rho

    if cls == "clusters":
        on = active(nx, ny, c["pattern"])
        cl = clusters(nx, ny, c["pattern"])
        core, A = {}, {}
        for s in S:
            act = [k for k in range(4) if edge_of((s, neighbour(s, k, nx, ny), k), nx, ny) in on]
            core[s] = (act, randn(g, (2,) * len(act) + (2,), kind))
            a = core[s][1]
            for k in range(4):
                if k not in act:
                    a = np.multiply.outer(a, np.eye(2)[0])
            order = act + ["p"] + [k for k in range(4) if k not in act]
            a = np.transpose(a, [order.index(k) for k in range(4)] + [order.index("p")])
            A[s] = dress(s, a)

        def cluster_rho(pts, keep):
            n = itertools.count(len(pts))
            lab, tens = {}, []
            for i, p in enumerate(pts):
                m = (p[0] % nx, p[1] % ny)
                act, t = core[m]
                L = []
                for k in act:
                    q = (p[0] + STEP[k][0], p[1] + STEP[k][1])
                    key = (p, k) if k in (1, 2) else (q, (k + 2) % 4)
                    if key not in lab:
                        lab[key] = next(n)
                    L.append(lab[key])
                tens += [t.astype(complex), L + [i]]
            psi = np.einsum(*tens, list(range(len(pts))), optimize="greedy") if len(pts) > 1 else tens[0]
            idx = [pts.index(p) for p in keep]
            rest = [i for i in range(len(pts)) if i not in idx]
            psi = np.transpose(psi, idx + rest).reshape(2 ** len(idx), -1)
            r = psi @ psi.conj().T
            return (r / np.trace(r)).reshape((2,) * (2 * len(idx)))

        def rho(region):
            shift = lambda p: [(q[0] + p[0] - p[0] % nx, q[1] + p[1] - p[1] % ny) for q in cl[(p[0] % nx, p[1] % ny)]]
            first = shift(region[0])
            if len(region) == 1 or region[1] in first:
                return cluster_rho(first, list(region))
            a, b = cluster_rho(first, [region[0]]), cluster_rho(shift(region[1]), [region[1]])
            return np.einsum("aA,bB->abAB", a, b)
        return A, rho

    # chains along an axis
    axis = c["pattern"]
    M = {s: randn(g, (2, 2, 2), kind) for s in S}        # [backward leg, forward leg, p]
    back = (axis + 2) % 4
    A = {}
    for s in S:
        a = np.einsum("bfp,x,y->bfxyp", M[s], np.eye(2)[0], np.eye(2)[0])
        others = [k for k in range(4) if k not in (axis, back)]
        order = [back, axis] + others
        A[s] = dress(s, np.transpose(a, [order.index(k) for k in range(4)] + [4]))

    def environments(s):
        """Left and right fixed points of the chain through s, seen from s."""
        T = lambda m: np.einsum("bfp,BFp->bBfF", M[m], M[m].conj()).reshape(4, 4)
        n = nx if axis == 2 else ny
        # product of the whole period, starting at s
        P, q = np.eye(4), s
        for _ in range(n):
            P = P @ T(q)
            q = neighbour(q, axis, nx, ny)
        w, v = np.linalg.eig(P.T)
        left = v[:, np.argmax(abs(w))]
        return left, np.sort(abs(w))[::-1]

    def right_of(s):
        T = lambda m: np.einsum("bfp,BFp->bBfF", M[m], M[m].conj()).reshape(4, 4)
        n = nx if axis == 2 else ny
        P, q = np.eye(4), neighbour(s, axis, nx, ny)
        for _ in range(n):
            P = P @ T(q)
            q = neighbour(q, axis, nx, ny)
        w, v = np.linalg.eig(P)
        return v[:, np.argmax(abs(w))]

    def rho(region):
        p = region[0]
        m = lambda p: (p[0] % nx, p[1] % ny)
        norm = lambda r: r / (np.trace(r) if r.ndim == 2 else np.einsum("abab->", r))
        if len(region) == 1:
            l, _ = environments(m(p))
            r = right_of(m(p))
            return norm(np.einsum("bB,bfp,BFP,fF->pP", l.reshape(2, 2), M[m(p)], M[m(p)].conj(), r.reshape(2, 2)))
        q = region[1]
        if q == (p[0] + STEP[axis][0], p[1] + STEP[axis][1]):
            l, _ = environments(m(p))
            r = right_of(m(q))
            x = np.einsum("bfp,fgq->bgpq", M[m(p)], M[m(q)])
            return norm(np.einsum("bB,bgpq,BGPQ,gG->pqPQ", l.reshape(2, 2), x, x.conj(), r.reshape(2, 2)))
        return np.einsum("aA,bB->abAB", rho([p]), rho([q]))
    gaps = [environments(s)[1] for s in S]
    rho.ratio = max(w[1] / w[0] for w in gaps) ** (1 / (nx if axis == 2 else ny))
    return A, rho


def run_case(c):
    nx, ny, dt = c["nx"], c["ny"], c["dtype"]
    A, rho = build(c)
    sweeps = 8 if is_single(dt) and c["start"] == "random" else 4
    if c["cls"] == "chains":
        # enough columns or rows for the chain to forget its end
        sweeps = 4 + int(np.ceil(np.log(tol(dt, 1e-12, 1e-6)) / np.log(rho.ratio) / max(1, min(nx, ny))))
        sweeps = min(sweeps, 150)
    chi = 16 if c["cls"] == "clusters" else 8
    ip = new_ipeps(nx=nx, ny=ny, D=2, chi=chi, dtype=dt, ctmrg=dict(
        # the default cutoff is below the roundoff of single precision
        steps=sweeps, projectors=c["projectors"], svd_type=c["svd"], **(dict(svd_cutoff=1e-6) if is_single(dt) else {})))
    set_tensors(ip, {s: unit(a).astype(CDT[dt]) for s, a in A.items()})
    g = rng("c12s", nx, ny, is_cplx(dt))
    if c["start"] != "site":
        for s in ip.site_list:
            rn = (lambda sh: 0.3 + g.random(sh)) if c["start"] == "ones" else (lambda sh: randn(g, sh, "complex128" if is_cplx(dt) else "float64"))
            ip[s]['C'] = [torch.tensor(unit(rn((4, 4))).astype(CDT[dt])) for _ in range(4)]
            ip[s]['E'] = [torch.tensor(unit(rn((4, 4, 2, 2))).astype(CDT[dt])) for _ in range(4)]
    ip.renormalize()
    lim = tol(dt, 1e-6, 2e-2)
    if c["cls"] == "chains":
        lim = max(lim, 100 * rho.ratio ** (sweeps * max(1, min(nx, ny))))
        require(lim < 0.1, "harness: the chain has no gap")
    worst = 0.0
    exact = {}
    for s in ip.site_list:
        r = code_site_rdm(ip, s)
        tr = np.trace(r)
        r = r / tr
        x = exact[s] = rho([s])
        e = np.linalg.norm(r - x / np.trace(x))
        require(e < lim, f"the density matrix of site {s} is off by {e:.2e}")
        require(np.linalg.norm(r - r.conj().T) < lim and np.linalg.eigvalsh((r + r.conj().T) / 2)[0] > -lim, f"the density matrix of site {s} is not positive")
        worst = max(worst, e)
    for s1, s2, k in bonds(nx, ny):
        far = (s1[0] + STEP[k][0], s1[1] + STEP[k][1])
        r = code_bond_rdm(ip, s1, s2, k)
        r = r / np.einsum("abab->", r)
        x = rho([s1, far])
        x = exact[(s1, s2, k)] = x / np.einsum("abab->", x)
        e = np.linalg.norm(r - x)
        require(e < lim, f"the density matrix of bond {s1}-{s2} (direction {k}) is off by {e:.2e}")
        m = r.reshape(4, 4)
        require(np.linalg.norm(m - m.conj().T) < lim and np.linalg.eigvalsh((m + m.conj().T) / 2)[0] > -lim, f"the density matrix of bond {s1}-{s2} is not positive")
        a, b = np.einsum("abAb->aA", r), np.einsum("abaB->bB", r)
        e1 = np.linalg.norm(a - exact[s1] / np.trace(exact[s1])) + np.linalg.norm(b - exact[s2] / np.trace(exact[s2]))
        require(e1 < 2 * lim, f"the density matrices of bond {s1}-{s2} and its sites are inconsistent by {e1:.2e}")
        worst = max(worst, e)
    # measured values of a random model
    kind = "complex128" if is_cplx(dt) else "float64"
    h1 = {s: rand_herm(g, 2, kind) for s in ip.site_list}
    h2 = {edge_of(b, nx, ny): rand_herm(g, 4, kind) for b in bonds(nx, ny)}
    sw = lambda h: h.reshape(2, 2, 2, 2).transpose(1, 0, 3, 2).reshape(4, 4)
    bh = lambda b: h2[edge_of(b, nx, ny)] if b[2] in (1, 2) else sw(h2[edge_of(b, nx, ny)])
    ip.set_model(make_model_class(site_h=lambda s: h1[s], bond_h=bh, site_obs=lambda s: {"m": h1[s]}), {})
    res = ip.measure()
    m = sum(np.trace(exact[s] @ h1[s]).real / np.trace(exact[s]).real for s in ip.site_list) / (nx * ny)
    en = sum(np.trace(exact[b].reshape(4, 4) @ h2[edge_of(b, nx, ny)]).real for b in bonds(nx, ny)) / (nx * ny) + m
    require(abs(res["Energy"] - en) < 30 * lim, f"the energy is {res['Energy']}, not {en}")
    require(abs(res["m"] - m) < 10 * lim, f"the observable is {res['m']}, not {m}")
    return dict(checks=3 * nx * ny + 2, nontrivial=c["cls"] == "chains" or c["pattern"] > 0, stats={"max_error_" + ("single" if is_single(dt) else "double"): float(worst)})
