"""Bond lists of all small tori, and the sequence of gates an evolution applies."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C07"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of unit cells, bond lists and step counts on the real code against the set of torus edges and the exact gate sequence"
RULE = ("lists: every unit cell up to the bound; sequences: one case per (unit cell, update scheme, dtype, number of steps, bond list as "
        "built / reoriented / rotated, calls), each bond carrying its own pair of non-commuting site factors so that the final vectors "
        "reveal which bonds acted how often and in which order; non-trivial: at least one step")
ASSUMPTIONS = ["bonds without a common site commute, so their relative order is not observable"]
NOTE = ("A state is the vector of site vectors after a step, a transition one gate. The product-gate trick makes bond dimension 1 exact, so "
        "any omission, repetition, exchange of gates or of orientation, or wrong order changes the result at order one.")
CHUNK = 4


def cases(tier, seed):
    out = []
    top = 6 if tier == "thorough" else 5
    for nx, ny in itertools.product(range(1, top + 1), repeat=2):
        out.append(dict(kind="lists", nx=nx, ny=ny))
    big = tier == "thorough"
    cells = [(2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (4, 3)] + ([(3, 4), (4, 4), (2, 5), (5, 2)] if big else [])
    for nx, ny in cells:
        for upd in ("full", "simple"):
            for dt in ("float64", "complex128") + (("float32", "complex64") if big or nx * ny <= 6 else ()):
                for calls in ((0,), (1,), (2,), (3,), (1, 1), (2, 1), (0, 1)) + (((4,), (1, 2, 1)) if big else ()):
                    for lst in ("built", "flipped", "mixed", "rotated", "reversed"):
                        if not big and (nx * ny > 6 and (lst not in ("built", "mixed") or calls not in ((1,), (2,), (1, 1)))):
                            continue
                        out.append(dict(kind="sequence", nx=nx, ny=ny, update=upd, dtype=dt, calls=calls, list=lst))
    for upd in ("full", "simple"):
        out.append(dict(kind="sequence", nx=2, ny=2, update=upd, dtype="float64", calls=(21,), list="built", debug=True))
    return out


def edges(nx, ny):
    """Every nearest-neighbour pair of the infinite lattice, modulo the unit cell, from its left or lower end."""
    return {(s, k) for s in sites(nx, ny) for k in (1, 2)}


def edge_of(b, nx, ny):
    s1, s2, k = b
    if k in (1, 2):
        return (tuple(s1), k)
    return (tuple(s2), k - 2 if k == 3 else 2)


def check_lists(ip, nx, ny):
    require(sorted(ip.site_list) == sites(nx, ny), f"the site list is {ip.site_list}")
    for b in ip.bond_list:
        s1, s2, k = b
        require(k in (0, 1, 2, 3) and s1 in sites(nx, ny), f"bond {b} is malformed")
        require(tuple(s2) == neighbour(s1, k, nx, ny), f"bond {b}: direction {k} of {s1} leads to {neighbour(s1, k, nx, ny)}")
    es = [edge_of(b, nx, ny) for b in ip.bond_list]
    require(len(es) == len(set(es)) and set(es) == edges(nx, ny), f"the bond list is not every edge once: {sorted(es)}")


def arrange(ip, kind, nx, ny):
    from acetn.ipeps.bond import Bond
    L = list(ip.bond_list)
    if kind in ("flipped", "mixed"):
        L = [Bond(b.s2, b.s1, (b.k + 2) % 4) if kind == "flipped" or i % 3 else b for i, b in enumerate(L)]
    if kind in ("rotated", "mixed"):
        L = L[len(L)//3:] + L[:len(L)//3]
    if kind == "reversed":
        L.reverse()
    ip.bond_list[:] = L


def run_case(c):
    nx, ny = c["nx"], c["ny"]
    if c["kind"] == "lists":
        ip = new_ipeps(nx=nx, ny=ny, D=1, chi=1)
        check_lists(ip, nx, ny)
        from acetn.ipeps.bond import Bond
        for b in ip.bond_list:
            require(b == Bond(list(b.s1), list(b.s2), b.k) and hash(b) == hash(Bond(list(b.s1), list(b.s2), b.k)), "equal bonds differ")
            require(tuple(b) == (b.s1, b.s2, b.k), "unpacking a bond gives other parts")
        two = new_ipeps(nx=nx, ny=ny, D=1, chi=1)
        require(two.bond_list == ip.bond_list and two.bond_list is not ip.bond_list, "two networks share or disagree on the bond list")
        ip.initialize_site_tensors(lambda s: [1., 0.])
        check_lists(ip, nx, ny)
        check_lists(ip.copy(), nx, ny)
        return dict(states=1, transitions=len(ip.bond_list), traces=1, nontrivial=nx * ny > 1)

    dt, dtau = c["dtype"], 0.4
    g = rng("c07", nx, ny, dt, c["list"])
    kind = "complex128" if is_cplx(dt) else "float64"
    ip = new_ipeps(nx=nx, ny=ny, D=1, chi=1, dtype=dt, ctmrg=dict(steps=1), evolution=dict(update_type=c["update"]))
    arrange(ip, c["list"], nx, ny)
    check_lists(ip, nx, ny)
    v = {s: unit(randn(g, (2,), dt)) for s in ip.site_list}
    set_tensors(ip, {s: a.reshape(1, 1, 1, 1, 2) for s, a in v.items()})
    f = {e: (rand_herm(g, 2, kind), rand_herm(g, 2, kind)) for e in sorted(edges(nx, ny))}

    def factors(b):
        """The two site factors of a bond, in its own orientation: reversed bonds carry the exchanged pair."""
        p, q = f[edge_of(b, nx, ny)]
        return (p, q) if b[2] in (1, 2) else (q, p)
    M = make_model_class(bond_h=lambda b: np.kron(factors(b)[0], I2) + np.kron(I2, factors(b)[1]))
    ip.set_model(M, {})
    if c.get("debug"):
        import logging
        from acetn.utils.logger import logger
        logger.setLevel(logging.DEBUG)
        logger.handlers[:] = [logging.NullHandler()]
        logger.propagate = False
    trans = states = 0
    t = tol(dt, 1e-8, 2e-3)
    # the order alternates from step to step, also from the last step of one call to the first of the next
    order = [tuple(b) for b in ip.bond_list]
    for n, steps in enumerate(c["calls"]):
        ip.evolve(dtau, steps)
        for i in range(steps):
            for b in order:
                p, q = factors(b)
                v[b[0]] = unit(expm_herm(p, dtau) @ v[b[0]])
                v[b[1]] = unit(expm_herm(q, dtau) @ v[b[1]])
                trans += 1
            order.reverse()
            states += 1
        for s in ip.site_list:
            e = state_error(to_np(ip[s]['A']), v[s])
            require(e < t, f"after {steps} steps (call {n}) site {s} is not what its bonds' gates in order give (off by {e:.2e})", site=s)
        check_lists(ip, nx, ny)
        require(len(order) == len(ip.bond_list), "evolving changed the bonds")
    if c.get("debug"):
        from acetn.utils.logger import logger
        logger.setLevel(logging.INFO)
    # the gates tell bonds and orders apart, and the steps really moved the state
    return dict(states=max(states, 1), transitions=trans, traces=1, nontrivial=sum(c["calls"]) > 0)
