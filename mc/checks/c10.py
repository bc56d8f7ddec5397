"""All sequences of boundary moves without truncation, against boundaries that absorb rows and columns exactly."""
import itertools
import numpy as np
import torch
from ..core import require, Violation
from ..lib import *

ID = "C10"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of boundary-move sequences on the real code against an exact reference model of the boundary"
RULE = ("one case per (unit cell, dtype, projector type, decomposition type, initial boundary, first move); within it every continuation up to the depth bound "
        "in which no move has to truncate; after every move every site and bond density matrix is compared with that of the reference boundary, and all "
        "tensors the move must not touch are compared bit for bit; further cases: renormalization sweeps and the moves made while evolving; "
        "non-trivial: at least one move was exact")
ASSUMPTIONS = ["generic (pseudo-random) site and boundary tensors", "a move is exact when the enlarged leg fits chi and the spaces it connects"]
NOTE = "A state is a network reached by a sequence of moves, a transition one move (direction, row or column)."
CASE_LIMIT = 800

MOVES = ("left_move", "up_move", "right_move", "down_move")


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    cells = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)]
    kinds = list(itertools.product(("half-system", "full-system"), ("rsvd", "full-rank")))
    for nx, ny in cells:
        n = nx * ny
        for dt in CDT:
            for pr, sv in kinds:
                # D = 1: boundaries keep their size, so sequences never have to truncate
                depth = (2 if n > 4 or is_single(dt) else 3) + (1 if deep and not is_single(dt) else 0)
                if not deep and n == 4 and (pr, sv) != ("half-system", "rsvd"):
                    depth = 2
                if not deep and n > 4 and is_single(dt):
                    depth = 1
                for k in range(4):
                    for i in range(nx if k in (0, 2) else ny):
                        out.append(dict(kind="moves", nx=nx, ny=ny, dtype=dt, projectors=pr, svd=sv, D=1, d=2, legs=(3, 3), chi=3, depth=depth, first=(k, i)))
                        for legs in ((8, 2), (2, 8), (2, 2), (3, 4)):
                            if legs[0] == 3 and (n > 4 or is_single(dt)) and not deep:
                                continue
                            if legs != (2, 2) and not deep and (is_single(dt) and n != 4 or n > 6):
                                continue
                            dep = (3 if n <= 2 or deep and n <= 6 else 2) if not is_single(dt) else 1
                            if not deep and n == 4 and legs[0] != legs[1] and dt == "complex128":
                                dep = 1
                            if not deep and n > 4:
                                dep = 1
                            out.append(dict(kind="moves", nx=nx, ny=ny, dtype=dt, projectors=pr, svd=sv, D=2, d=2, legs=legs, chi=33, depth=dep, first=(k, i)))
                for steps in (1, 2):
                    out.append(dict(kind="sweeps", nx=nx, ny=ny, dtype=dt, projectors=pr, svd=sv, D=1, d=2, legs=(2, 2), chi=2, steps=steps))
                if min(nx, ny) > 1:
                    for lst in ("built", "flipped", "mixed"):
                        out.append(dict(kind="evolve", nx=nx, ny=ny, dtype=dt, projectors=pr, svd=sv, D=1, d=2, legs=(2, 2), chi=2, list=lst))
    return out


def build(c):
    nx, ny, D, d, dt = c["nx"], c["ny"], c["D"], c["d"], c["dtype"]
    h, v = c["legs"]          # legs of the top and bottom edges (horizontal), of the left and right ones (vertical)
    ip = new_ipeps(nx=nx, ny=ny, D=D, d=d, chi=c["chi"], dtype=dt,
                   ctmrg=dict(steps=c.get("steps", 0), projectors=c["projectors"], svd_type=c["svd"]), evolution=dict(update_type="full"))
    g = rng("c10", nx, ny, D, d, h, v, c["kind"])
    for s in ip.site_list:
        ip[s]['A'] = torch.tensor(unit(randn(g, (D,) * 4 + (d,), dt)).astype(CDT[dt]))
        q = [h, v, h, v]
        # well-conditioned generic boundaries
        ip[s]['C'] = [torch.tensor(well(g, (q[(k + 3) % 4], q[k]), dt)) for k in range(4)]
        ip[s]['E'] = [torch.tensor(edge(g, q[k], D, dt)) for k in range(4)]
    ip.site_states_initialized = True
    return ip


def well(g, shape, dt):
    a = randn(g, shape, "complex128" if is_cplx(dt) else "float64")
    u, s, vh = np.linalg.svd(a, full_matrices=False)
    return unit((u * (1 + g.random(len(s)))) @ vh).astype(CDT[dt])


def edge(g, q, D, dt):
    a = randn(g, (q, q, D, D), "complex128" if is_cplx(dt) else "float64") * 0.5
    for i in range(D):
        for j in range(D):
            a[:, :, i, j] += well(g, (q, q), "complex128" if is_cplx(dt) else "float64") * (2.0 if i == j else 0.5)
    return unit(a).astype(CDT[dt])


def restore(ip, snap):
    for s, (A, C, E) in snap.items():
        ip[s]['A'], ip[s]['C'], ip[s]['E'] = A, C, E


def compare(ip, env, lim, what):
    worst = 0.0
    for s in ip.site_list:
        e = scaled_error(code_site_rdm(ip, s), env.site_rdm(s))
        require(e < lim, f"{what}: the boundary of site {s} is off by {e:.2e}")
        worst = max(worst, e)
    for s1, s2, k in bonds(ip.nx, ip.ny):
        e = scaled_error(code_bond_rdm(ip, s1, s2, k), env.bond_rdm(s1, s2, k))
        require(e < lim, f"{what}: the boundary of bond {s1}-{s2} is off by {e:.2e}")
        worst = max(worst, e)
    return worst


def run_moves(c):
    from acetn.renormalization.directional_mover import DirectionalMover
    ip = build(c)
    mover = DirectionalMover(ip.config.ctmrg)
    nx, ny = c["nx"], c["ny"]
    lim = tol(c["dtype"], 1e-6, 0.15)
    everything = [(k, i) for k in range(4) for i in range(nx if k in (0, 2) else ny)]
    stats = dict(states=0, transitions=0, worst=0.0)

    def explore(env, path):
        depth = len(path)
        if depth == c["depth"]:
            return
        snap = snapshot(ip)
        for m in everything if depth else [tuple(c["first"])]:
            if not env.exact(m[0], m[1], c["chi"], c["projectors"]):
                continue
            if depth:
                restore(ip, snap)
            getattr(mover, MOVES[m[0]])(ip, m[1])
            new = env.copy()
            new.move(*m)
            here = path + [f"{MOVES[m[0]][:-5]} {m[1]}"]
            what = ", ".join(here)
            after = snapshot(ip)
            touched = {new.target(m[0], s) for s in new.sources(*m)}
            lo, ed, hi = new.slots(m[0])
            for s in ip.site_list:
                require(same_tensor(snap[s][0], after[s][0]), f"{what}: the move changed the site tensor of {s}")
                for j in range(4):
                    if s not in touched or j not in (lo, hi):
                        require(same_tensor(snap[s][1][j], after[s][1][j]), f"{what}: the move changed corner {j} of {s}")
                    if s not in touched or j != ed:
                        require(same_tensor(snap[s][2][j], after[s][2][j]), f"{what}: the move changed edge {j} of {s}")
                for t in after[s][1] + after[s][2]:
                    require(bool(torch.isfinite(t).all()), f"{what}: a boundary tensor of {s} is not finite")
            stats["worst"] = max(stats["worst"], compare(ip, new, lim, what))
            stats["states"] += 1
            stats["transitions"] += 1
            explore(new, here)
    env = Env.of(ip)
    for s in env.A:
        env.A[s] = env.A[s].astype(complex)
    explore(env, [])
    return dict(states=stats["states"], transitions=stats["transitions"], traces=stats["transitions"], nontrivial=stats["transitions"] > 0,
                stats={"max_error_" + ("single" if is_single(c["dtype"]) else "double"): stats["worst"]})


def run_sweeps(c):
    ip = build(c)
    env = Env.of(ip)
    nx, ny = c["nx"], c["ny"]
    A = get_tensors(ip)
    ip.renormalize()
    n = 0
    for _ in range(c["steps"]):
        for x in range(nx):
            env.move(0, x)
            env.move(2, (nx - x + 1) % nx)
        for y in range(ny):
            env.move(1, (ny - y + 1) % ny)
            env.move(3, y)
        n += 2 * (nx + ny)
    e = compare(ip, env, tol(c["dtype"], 1e-6, 0.15), f"after {c['steps']} sweeps")
    require(all(np.array_equal(A[s], a) for s, a in get_tensors(ip).items()), "renormalizing changed a site tensor")
    return dict(states=1, transitions=n, traces=1, stats={"max_error_" + ("single" if is_single(c["dtype"]) else "double"): e})


def run_evolve(c):
    """Site gates do not change a site with d = 2, D = 1 beyond its vector: the boundary moves of an evolution are then known."""
    from .. import evo
    ip = build(c)
    evo.arrange(ip, c["list"])
    env = Env.of(ip)
    env.A = {s: a.astype(complex) for s, a in env.A.items()}
    g = rng("c10e", c["nx"], c["ny"])
    h = rand_herm(g, 2, "complex128" if is_cplx(c["dtype"]) else "float64")
    ip.set_model(make_model_class(bond_h=lambda b: np.kron(h, np.eye(2))), {})
    order = [tuple(b) for b in ip.bond_list]
    ip.evolve(0.3, 1)
    G = expm_herm(h, 0.3)
    for s1, s2, k in order:
        # the first site is rotated, then its column or row and that of the second site are absorbed by their neighbours
        env.A[s1] = unit(env.A[s1] @ G.T)
        i = 0 if k in (0, 2) else 1
        env.move((k + 2) % 4, s1[i])
        env.move(k, s2[i])
    return env, ip


def run_case(c):
    if c["kind"] == "moves":
        return run_moves(c)
    if c["kind"] == "sweeps":
        return run_sweeps(c)
    env, ip = run_evolve(c)
    e = compare(ip, env, tol(c["dtype"], 1e-6, 0.15), "after one evolution step")
    return dict(states=1, transitions=len(ip.bond_list) * 2, traces=1, stats={"max_error_" + ("single" if is_single(c["dtype"]) else "double"): e})
