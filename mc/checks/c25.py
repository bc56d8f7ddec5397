"""The sample models: the lattices they encode, measured energies of product states, and the sample programs as such."""
import contextlib
import importlib.util
import io
import itertools
import os
import re
import runpy
import sys
import numpy as np
import torch
from .. import core
from ..core import require
from ..lib import *

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of sample models, parameters, bond directions, periodic lattices and product states on the real code, against the named lattice Hamiltonians"
RULE = ("one case per (kind, sample, dtype or parameters): terms of all four directions, the interaction graph of periodic lattices, all assignments of spin eigenstates to the sublattices, gates of one step, "
        "and the whole sample programs with few sweeps; a state is one compared operator, product state or program step; non-trivial: the Hamiltonian does not vanish")
ASSUMPTIONS = ["the lattice of a composite-site model is recognized by its interaction graph (regularity, triangles, hexagons), not by the tilt chosen", "sample programs run with one step per evolution, one sweep per renormalization and a small boundary"]
NOTE = "Covers composite physical dimensions (4 and 8), operators that are sums of products of products, and parameter sweeps, as the samples use them."

SAMPLES = {
    "ising": ("03_custom_model.py", "CustomModel", 1, ("Jz", "hx")),
    "compass": ("04_compass_model.py", "CompassModel", 1, ("jx", "jz", "hx", "hz")),
    "honeycomb": ("05_honeycomb_ising.py", "HoneycombIsingModel", 2, ("jz", "hx")),
    "kagome": ("06_kagome_ising.py", "KagomeIsingModel", 3, ("jz", "hx")),
}
PROGRAMS = ["01_tf_ising.py", "02_heisenberg.py", "03_custom_model.py", "04_compass_model.py", "05_honeycomb_ising.py", "06_kagome_ising.py", "07_simple_update.py"]
DTYPES = ("float32", "float64", "complex64", "complex128")
GRID = {"quick": [0.7, -1.3], "thorough": [0.7, -1.3, 0, 2, 1e-2]}
STATES = {"+z": [1, 0], "-z": [0, 1], "+x": [1, 1], "-x": [1, -1]}
P1 = {"I": np.eye(2), "X": X, "Y": Y, "Z": Z}


def cases(tier, seed):
    out = []
    for m in SAMPLES:
        for dt in DTYPES:
            out.append(dict(kind="terms", model=m, dtype=dt, tier=tier))
            out.append(dict(kind="gates", model=m, dtype=dt, tier=tier))
        for dt in ("float64", "complex128") if tier == "quick" else DTYPES:
            out.append(dict(kind="measured", model=m, dtype=dt, tier=tier))
        out.append(dict(kind="lattice", model=m, tier=tier))
    for p in PROGRAMS:
        out.append(dict(kind="program", program=p, tier=tier))
    return out


_cls = {}


def sample_dir():
    return os.path.join(core.REPO, "samples")


def sample_class(model):
    if model not in _cls:
        f, name = SAMPLES[model][:2]
        spec = importlib.util.spec_from_file_location("sample_" + model, os.path.join(sample_dir(), f))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _cls[model] = getattr(mod, name)
    return _cls[model]


def build(model, p, dt):
    from acetn.ipeps.ipeps_config import ModelConfig
    return sample_class(model)(ModelConfig(dtype=TDT[dt], device=torch.device("cpu"), dim=2 ** SAMPLES[model][2], name=model, params=dict(p)))


def grid(model, tier):
    names = SAMPLES[model][3]
    for v in itertools.product(GRID[tier], repeat=len(names)):
        yield dict(zip(names, v))


def matrix(op, n, dt):
    t = op.mat if hasattr(op, "mat") else op
    require(t.dtype == TDT[dt], f"an operator has dtype {t.dtype} in a {dt} network")
    m = to_np(t).astype(complex)
    require(m.size == n * n, f"an operator has shape {m.shape} instead of {n}x{n}")
    return m.reshape(n, n)


def strings(m, n):
    """Pauli coefficients of an operator on n spins."""
    t = m.reshape((2,) * (2 * n))
    for i in range(n):
        r = n - i
        t = np.stack([_contract(t, r, P1[k]) for k in "IXYZ"], axis=-1)
    out = {}
    for idx in itertools.product(range(4), repeat=n):
        c = t[idx] / 2 ** n
        if abs(c) > 1e-6:
            out["".join("IXYZ"[i] for i in idx)] = c
    return out


def _contract(t, r, p):
    # rows are the first r legs, columns the next r, collected coefficients come last
    return np.tensordot(t, p, axes=[[0, r], [1, 0]])


def terms(m, model, dt, k):
    from acetn.ipeps.bond import Bond
    n = SAMPLES[model][2]
    s = (1, 1)
    b = Bond(s, (s[0] + STEP[k][0], s[1] + STEP[k][1]), k)
    return strings(matrix(m.two_site_hamiltonian(b), 4 ** n, dt), 2 * n)


def same(a, b, dt):
    return set(a) == set(b) and all(abs(a[k] - b[k]) < tol(dt, 1e-12, 1e-5) for k in a)


def run_terms(c):
    """Field and coupling strengths, and independence of the direction in which a bond is named."""
    model, dt = c["model"], c["dtype"]
    n = SAMPLES[model][2]
    count = 0
    for p in grid(model, c["tier"]):
        m = build(model, p, dt)
        nz = {k: v for k, v in p.items() if v}
        t = {k: terms(m, model, dt, k) for k in range(4)}
        for k in (0, 1):
            flipped = {s[n:] + s[:n]: v for s, v in t[k].items()}
            require(same(flipped, t[(k + 2) % 4], dt), f"{model}: the bond term depends on the direction in which the bond is named: {t[k]}, {t[(k + 2) % 4]}")
            count += 1
        h = m.one_site_hamiltonian((1, 1))
        one = strings(matrix(h, 2 ** n, dt), n) if h is not None else {}
        if model in ("ising", "compass"):
            jx, jz = (p["jx"], p["jz"]) if model == "compass" else (None, p["Jz"])
            want = {2: {"ZZ": -jz} if model == "ising" else {"XX": -jx}, 1: {"ZZ": -jz}}
            w1 = {"X": -p["hx"], "Z": -p.get("hz", 0)}
        else:
            # all couplings are -jz ZZ, all fields -hx X
            want = {k: {s: -p["jz"] for s in t[k]} for k in (1, 2)}
            for k in (1, 2):
                require(all(sorted(s.replace("I", "")) == ["Z", "Z"] and s[:n].count("Z") == 1 for s in t[k]), f"{model}: bond terms {t[k]}")
                require(len(t[k]) == n - 1 or not p["jz"], f"{model}: bond terms {t[k]}")
            w1 = {"I" * i + "X" + "I" * (n - 1 - i): -p["hx"] for i in range(n)}
            zz = [s for s in one if s.count("Z") == 2]
            w1.update({s: -p["jz"] for s in zz})
            require(len(zz) == n - 1 or not p["jz"], f"{model}: one-site terms {one}")
        for k in (1, 2):
            require(same(t[k], {s: v for s, v in want[k].items() if v}, dt), f"{model} with {nz}: direction {k} has the term {t[k]}, expected {want[k]}")
        require(same(one, {s: v for s, v in w1.items() if v}, dt), f"{model} with {nz}: one-site term {one}, expected {w1}")
        count += 3
    return dict(states=count, checks=count, nontrivial=True)


def graph(model, nx, ny):
    """Pairs of interacting spins of the periodic lattice."""
    n = SAMPLES[model][2]
    m = build(model, {k: 1.0 for k in SAMPLES[model][3]}, "float64")
    edges = []
    t = {k: terms(m, model, "float64", k) for k in (1, 2)}
    h = m.one_site_hamiltonian((0, 0))
    one = strings(matrix(h, 2 ** n, "float64"), n)
    for s in sites(nx, ny):
        for string in one:
            at = [i for i, x in enumerate(string) if x != "I"]
            if len(at) == 2:
                edges.append(frozenset((s, i) for i in at))
        for k in (1, 2):
            for string in t[k]:
                i, j = [i for i, x in enumerate(string) if x != "I"]
                edges.append(frozenset(((s, i), (neighbour(s, k, nx, ny), j - n))))
    return edges


def adjacency(edges):
    adj = {}
    for e in edges:
        a, b = e
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    return adj


def hexagons(adj):
    """Closed walks of length six through distinct vertices, by vertex set; none shorter may exist."""
    out = set()
    for v in adj:
        stack = [(v,)]
        while stack:
            path = stack.pop()
            for w in adj[path[-1]]:
                if w == v and len(path) > 2:
                    require(len(path) >= 6, f"the lattice has a ring of {len(path)} spins: {path}")
                    out.add(frozenset(path))
                elif w not in path and len(path) < 6:
                    stack.append(path + (w,))
    return out


def honeycomb(adj):
    require(all(len(x) == 3 for x in adj.values()), "a honeycomb spin has three neighbours")
    hexes = hexagons(adj)
    for v in adj:
        mine = [h for h in hexes if v in h]
        require(len(mine) == 3, f"a honeycomb spin belongs to {len(mine)} hexagons instead of 3")
        for a, b in itertools.combinations(adj[v], 2):
            require(sum(a in h and b in h for h in mine) == 1, "two bonds of a honeycomb spin share one hexagon")
    return len(hexes)


def run_lattice(c):
    model = c["model"]
    n = SAMPLES[model][2]
    count = 0
    for nx, ny in [(4, 4)] if c["tier"] == "quick" else [(4, 4), (4, 5), (5, 4), (5, 6)]:
        edges = graph(model, nx, ny)
        require(len(set(edges)) == len(edges), "two spins interact twice")
        adj = adjacency(edges)
        require(len(adj) == n * nx * ny, "some spin does not interact")
        count += len(edges)
        if n == 1:
            require(all(len(x) == 4 for x in adj.values()), "a spin of the square lattice has four neighbours")
        elif model == "honeycomb":
            count += honeycomb(adj)
        else:
            require(all(len(x) == 4 for x in adj.values()), "a kagome spin has four neighbours")
            tri = {frozenset((a, b, w)) for a in adj for b in adj[a] for w in adj[a] & adj[b]}
            for v in adj:
                require(sum(v in t for t in tri) == 2, "a kagome spin belongs to two triangles")
            for e in edges:
                require(sum(e <= t for t in tri) == 1, "a kagome bond belongs to one triangle")
            # the triangles, joined by the spins they share, form the honeycomb lattice
            meet = [frozenset(t for t in tri if v in t) for v in adj]
            count += honeycomb(adjacency(meet))
    return dict(states=count, checks=count, nontrivial=True)


def run_gates(c):
    """The generators of the gates of one step add up to the Hamiltonian of the sample model."""
    from acetn.evolution.gate import Gate
    model, dt = c["model"], c["dtype"]
    n = SAMPLES[model][2]
    d, dtau = 2 ** n, 0.1
    p = dict(zip(SAMPLES[model][3], (0.7, -0.4, 0.3, 0.2)))
    m = build(model, p, dt)
    count = 0
    for nx, ny in ((2, 2), (3, 2)):
        ip = new_ipeps(nx=nx, ny=ny, D=1, d=d, chi=1, dtype=dt)
        gate = Gate(m, dtau, ip.bond_list, ip.site_list)
        require(getattr(gate, "wrap_one_site", True), "one-site terms are applied separately")
        got, want = {}, {}

        def add(to, coeffs, where):
            for s, v in coeffs.items():
                key = frozenset((where[i], x) for i, x in enumerate(s) if x != "I")
                if key:
                    to[key] = to.get(key, 0) + v
        for b in ip.bond_list:
            where = [(b.s1, i) for i in range(n)] + [(b.s2, i) for i in range(n)]
            g = to_np(gate[b]).astype(complex).reshape(d * d, d * d)
            w, v = np.linalg.eigh((g + g.conj().T) / 2)
            require(np.abs(g - g.conj().T).max() < tol(dt, 1e-10, 1e-4) and w[0] > 0, f"the gate on {b} is not a positive operator")
            add(got, strings(-(v * np.log(w)) @ v.conj().T / dtau, 2 * n), where)
            add(want, strings(matrix(m.two_site_hamiltonian(b), d * d, dt), 2 * n), where)
        for s in ip.site_list:
            add(want, strings(matrix(m.one_site_hamiltonian(s), d, dt), n), [(s, i) for i in range(n)])
        for key in set(got) | set(want):
            e = abs(got.get(key, 0) - want.get(key, 0))
            require(e < tol(dt, 1e-8, 2e-3), f"{model}: the gates of a step contain {got.get(key, 0)} instead of {want.get(key, 0)} of {sorted(key)}")
            count += 1
    return dict(states=count, checks=count, nontrivial=True)


def run_measured(c):
    """Product states of all spins: energy and magnetizations."""
    model, dt = c["model"], c["dtype"]
    n = SAMPLES[model][2]
    p = dict(zip(SAMPLES[model][3], (0.7, -0.4, 0.3, 0.2)))
    m = build(model, p, dt)
    ip = new_ipeps(nx=2, ny=2, D=1, d=2 ** n, chi=1, dtype=dt, ctmrg=dict(steps=1))
    ip.set_model(sample_class(model), p)
    one = strings(matrix(m.one_site_hamiltonian((0, 0)), 2 ** n, dt), n)
    two = {k: terms(m, model, dt, k) for k in (1, 2)}
    vec = {a: unit(np.array(STATES[a], dtype=float)) for a in STATES}
    ex = {(a, o): float(vec[a] @ P1[o].real @ vec[a]) if o != "Y" else 0.0 for a in STATES for o in P1}
    count = 0
    every = list(itertools.product(STATES, repeat=n))
    # all states of one sublattice against a few of the other, and the same state on both
    pairs = [(a, a) for a in every] + [(a, b) for a in every for b in (every if n == 1 else every[1::7] if n == 2 else every[5::29])]
    for a, b in pairs:
        st = {s: (a, b)[sum(s) % 2] for s in sites(2, 2)}
        v = {}
        for s in st:
            x = np.ones(1)
            for q in st[s]:
                x = np.kron(x, vec[q])
            v[s] = x.reshape((1,) * 4 + (2 ** n,)).astype(CDT[dt])
        set_tensors(ip, v)
        ip.renormalize()
        got = ip.measure()
        E = 0
        for s in st:
            for string, w in one.items():
                E += w.real * np.prod([ex[q, o] for q, o in zip(st[s], string)])
            for k in (1, 2):
                nb = neighbour(s, k, 2, 2)
                for string, w in two[k].items():
                    E += w.real * np.prod([ex[q, o] for q, o in zip(st[s] + st[nb], string)])
        require(abs(float(got["Energy"]) - E / 4) < tol(dt, 1e-11, 1e-4), f"{model}: the product state {a},{b} has the energy {float(got['Energy'])} instead of {E / 4}")
        for name in got:
            f = re.fullmatch(r"(?:mag_|s|m)(x|z)(?:\(([ABC])\))?", name)
            if f and (n == 1 or f.group(2)):
                i = "ABC".index(f.group(2)) if f.group(2) else 0
                want = sum(ex[st[s][i], f.group(1).upper()] for s in st) / 4
                require(abs(float(got[name]) - want) < tol(dt, 1e-11, 1e-4), f"{model}: {name} of {a},{b} is {float(got[name])} instead of {want}")
        count += 1
    return dict(states=count, checks=count, nontrivial=True)


class _Enough(Exception):
    pass


def run_program(c):
    """The sample program as it stands, with few sweeps: runs through, evolves and measures with its own current parameters."""
    import acetn.ipeps
    base = acetn.ipeps.Ipeps
    limit = 6 if c["tier"] == "quick" else 24
    log = []

    class Short(base):
        def __init__(self, conf, *a, **k):
            conf = dict(conf)
            conf["TN"] = dict(conf["TN"], dims=dict(conf["TN"]["dims"], chi=4, bond=2))
            conf["ctmrg"] = quiet(**dict(conf.get("ctmrg", {}), steps=1))
            conf["evolution"] = quiet(**dict(conf.get("evolution", {}), als_niter=5))
            super().__init__(conf, *a, **k)
    
        def evolve(self, dtau, steps, model=None):
            if len(log) >= limit:
                raise _Enough
            super().evolve(dtau, 1, model)
            for s in self.site_list:
                require(bool(torch.isfinite(self[s]["A"]).all()), f"{c['program']}: the state is not finite after {len(log)} steps")

        def measure(self, model=None):
            out = super().measure(model)
            require(all(np.isfinite(float(v)) for v in out.values()), f"{c['program']}: measured {out}")
            log.append({k: float(v) for k, v in out.items()})
            return out
    acetn.ipeps.Ipeps = Short
    here, path = os.getcwd(), list(sys.path)
    try:
        os.chdir(sample_dir())
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(sample_dir(), c["program"]), run_name="__main__")
    except _Enough:
        pass
    finally:
        os.chdir(here)
        sys.path[:] = path
        acetn.ipeps.Ipeps = base
    require(len(log) >= 2, f"{c['program']} measures {len(log)} times")
    return dict(states=len(log), checks=len(log), nontrivial=True)


def run_case(c):
    return globals()["run_" + c["kind"]](c)
