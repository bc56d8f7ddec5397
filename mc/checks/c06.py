"""When evolution starts from the model's product state and when it continues, over all lifecycle histories."""
import itertools
import os
import tempfile
import numpy as np
import torch
from ..core import require, Violation
from ..lib import *

ID = "C06"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of lifecycle operation sequences on the real code against a two-state reference automaton (fresh / live)"
RULE = ("one case per (start: fresh, built from a network, loaded; unit cell; update scheme; first operation); within it every continuation "
        "up to the depth bound over evolve (0 and 1 steps), measure, renormalize, save, load, copy, set_chi, set_model, set_model_params; "
        "after every operation the site tensors are compared with the automaton: bitwise unchanged, near the model's product state, or "
        "near the state evolved from; a final evolution tells whether the network is fresh or live")
ASSUMPTIONS = ["small time steps, so that an evolved state is close to the one it started from"]
NOTE = "All histories up to 3 (thorough: 4) operations from every start. States: (fresh|live, model chosen)."
FRESH = True
CASE_LIMIT = 800

OPS = ["evolve0", "evolve1", "measure", "renorm", "save", "load", "copy", "chi", "model2", "params", "explicit", "derived"]


def cases(tier, seed):
    out = []
    deep = tier == "thorough"
    for start in ("fresh", "built", "loaded"):
        for first in OPS:
            out.append(dict(start=start, cell=(2, 2), update="simple", dtype="float64", first=first, depth=4 if deep else 3))
            out.append(dict(start=start, cell=(2, 2), update="full", dtype="float64", first=first, depth=3 if deep else 2))
            out.append(dict(start=start, cell=(2, 3), update="simple", dtype="complex64", first=first, depth=2))
    return out


def product(site, which):
    x, y = site
    if which == 1:
        return [0.6, 0.8] if (x + 2 * y) % 3 else [1.0, -1.0]
    if which == 2:
        return [1.0, 0.0] if (x + y) % 2 == 0 else [0.0, 1.0]
    return [-0.8, 0.6]


class World:
    def __init__(self, c, tmp):
        self.c, self.tmp = c, tmp
        self.dt = c["dtype"]
        nx, ny = c["cell"]
        self.kw = dict(nx=nx, ny=ny, D=2, chi=4, dtype=self.dt, ctmrg=dict(steps=1 if c["update"] == "full" else 0),
                       evolution=dict(update_type=c["update"]))
        zz = lambda b: 0.3 * np.kron(Z, Z) + 0.2 * np.kron(X, X)
        # one-site observables may be asked for any site; the initial states tell the models apart
        self.cls = {w: make_model_class(bond_h=zz, init=lambda s, w=w: product(s, w), name=f"M{w}") for w in (1, 2, 3)}
        self.file = os.path.join(tmp, "other.pt")
        self.mine = os.path.join(tmp, "mine.pt")
        from acetn.ipeps import Ipeps
        other = new_ipeps(**self.kw)
        g = rng("c06", nx, ny)
        set_tensors(other, {s: unit(randn(g, (2, 2, 2, 2, 2), self.dt)) for s in other.site_list})
        other.save(self.file)
        self.other = get_tensors(other)
        if c["start"] == "built":
            self.ip = Ipeps(config(**self.kw), ipeps=other)
        else:
            self.ip = new_ipeps(**self.kw)
            if c["start"] == "loaded":
                self.ip.load(self.file)
        self.live = c["start"] != "fresh"
        if self.live:
            got = get_tensors(self.ip)
            require(all(np.array_equal(got[s], self.other[s]) for s in got), "the start does not hold the tensors it was given")
        self.which = 1
        self.saved_live = None
        self.ip.set_model(self.cls[1], {})

    def near_product(self, As, which, slack, what):
        for s, a in As.items():
            p = unit(np.array(product(s, which)))
            rest = a.copy()
            rest[0, 0, 0, 0] = 0
            require(np.isfinite(a).all(), f"{what}: site {s} is not finite")
            n = np.linalg.norm(a)
            ov = abs(np.vdot(p, a[0, 0, 0, 0])) / n
            require(ov > 1 - slack, f"{what}: site {s} is not in the product state of model {which} (overlap {ov:.4f})")

    def state_near(self, A, B, slack, what):
        nx, ny = self.c["cell"]
        e = state_error(torus_state(A, nx, ny), torus_state(B, nx, ny))
        require(e < slack, f"{what}: the state changed by {e:.3f}")

    def do(self, op):
        ip, before = self.ip, get_tensors(self.ip)
        if op.startswith("evolve") or op == "explicit":
            steps = 0 if op == "evolve0" else 1
            which = 3 if op == "explicit" else self.which
            if op == "explicit":
                from acetn.ipeps.ipeps_config import ModelConfig
                m = self.cls[3](ModelConfig(dtype=TDT[self.dt], device=torch.device("cpu"), dim=2))
                ip.evolve(1e-3, steps, model=m)
            else:
                ip.evolve(1e-3, steps)
            after = get_tensors(ip)
            if not self.live:
                if steps == 0:
                    self.near_product(after, which, 0.01, f"{op} of a fresh network")
                    require(all(abs(np.linalg.norm(a) - 1) < 1e-4 for a in after.values()), "initial site tensors are not normalized")
                else:
                    nx, ny = self.c["cell"]
                    psi = np.ones(())
                    for s in sites(nx, ny):
                        psi = np.multiply.outer(psi, unit(product(s, which)))
                    e = state_error(torus_state(after, nx, ny), psi)
                    require(e < 0.2, f"{op} of a fresh network did not start from the product state of model {which} (off by {e:.3f})")
            elif steps == 0:
                require(all(np.array_equal(before[s], after[s]) for s in before), "evolving zero steps changed the site tensors")
            else:
                self.state_near(before, after, 0.12, "continuing the evolution for a tiny step")
            self.live = True
            return
        if op == "load":
            ip.load(self.file)
            self.live = True
            got = get_tensors(ip)
            require(all(np.array_equal(got[s], self.other[s]) for s in got), "load does not restore the site tensors")
            return
        if op == "derived":
            # another network is built from this one and evolves; it continues from these tensors
            from acetn.ipeps import Ipeps
            new = Ipeps(config(**self.kw), ipeps=ip)
            new.set_model(self.cls[3], {})
            got = get_tensors(new)
            require(all(np.array_equal(got[s], before[s]) for s in got), "a network built from another does not hold its tensors")
            new.evolve(1e-3, 0)
            got = get_tensors(new)
            require(all(np.array_equal(got[s], before[s]) for s in got), "a network built from another starts its evolution afresh")
        elif op == "measure":
            ip.measure()
        elif op == "renorm":
            ip.renormalize()
        elif op == "save":
            ip.save(self.mine)
        elif op == "copy":
            ip.copy()
            ip.to(torch.float32)
        elif op == "chi":
            ip.set_chi(5 if ip.dims['chi'] == 4 else 4)
        elif op == "model2":
            ip.set_model(self.cls[2], {})
            self.which = 2
        elif op == "params":
            ip.set_model_params(a=1)
        after = get_tensors(ip)
        require(all(np.array_equal(before[s], after[s]) for s in before), f"{op} changed the site tensors")

    def final(self):
        if os.path.exists(self.mine):
            # what was saved is what a loading network continues from
            os.remove(self.mine)
        self.do("evolve0")


def run_case(c):
    seen, trans, hists = set(), 0, 0
    with tempfile.TemporaryDirectory() as tmp:
        for rest in itertools.product(OPS, repeat=c["depth"] - 1):
            hist = (c["first"],) + rest
            torch.manual_seed(11)
            w = World(c, tmp)
            try:
                for op in hist:
                    w.do(op)
                    seen.add((w.live, w.which))
                    trans += 1
                w.final()
            except Exception as e:
                raise Violation(f"{'' if isinstance(e, Violation) else type(e).__name__ + ': '}{e} [{c['start']}: {' '.join(hist)}]", history=hist)
            hists += 1
    return dict(states=len(seen), transitions=trans, traces=hists, checks=trans, sample=dict(case=c, histories=hists))
