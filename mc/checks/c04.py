"""Non-interference of networks: all histories of deriving networks and operating on them."""
import copy
import itertools
import os
import tempfile
import numpy as np
import torch
from ..core import require, Violation, REPO
from ..lib import *

ID = "C04"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of operation sequences on the real code; invariant: all networks but the operand are bitwise unchanged"
RULE = ("one case per (cell, update scheme, first two operations); within it every continuation up to the depth bound; an operation derives a "
        "network from any existing one (copy, conversion, constructor, same configuration) or operates on any existing one; after each "
        "operation every other network and the caller's configuration are compared bitwise with what they were; "
        "non-trivial: at least two networks existed")
ASSUMPTIONS = ["assigning whole SiteTensor objects between networks is deliberate sharing and left out"]
NOTE = "All histories up to 3 (thorough: 4) operations with up to 3 (4) networks; a state is the tuple of all network contents."
FRESH = True
CASE_LIMIT = 600

DERIVE = ["copy", "to32", "toc", "ctor", "samecfg", "ctor2"]
MUTATE = ["setA", "setCE", "inplaceA", "inplaceCE", "chi", "dims", "params", "model", "renorm", "evolve", "measure", "reverse", "save", "load",
          "reinit", "options", "sitecopy"]


def cases(tier, seed):
    out = []
    for cell in ((2, 1), (2, 2)) if tier == "thorough" else ((2, 1),):
        for upd in ("full", "simple"):
            first = DERIVE + MUTATE
            for a in first:
                n = 2 if a in DERIVE else 1
                for b in [f"{i}.{o}" for i in range(n) for o in DERIVE + MUTATE]:
                    if upd == "simple" and "evolve" not in a + b:
                        continue
                    out.append(dict(cell=cell, update=upd, first=[f"0.{a}", b], depth=4 if tier == "thorough" and cell == (2, 1) else 3))
    return out


class World:
    def __init__(self, c, tmp):
        self.c, self.tmp = c, tmp
        nx, ny = c["cell"]
        self.cfg = config(nx=nx, ny=ny, D=2, chi=6, ctmrg=dict(steps=1), evolution=dict(update_type=c["update"]),
                          model=dict(name="ising", params=dict(jz=1.0, hx=0.7)))
        self.cfg_before = copy.deepcopy(self.cfg)
        self.g = rng("c04", tuple(c["cell"]))
        self.nets = []
        self.saved = None
        from acetn.ipeps import Ipeps
        self.Ipeps = Ipeps
        self.nets.append(Ipeps(self.cfg))
        # a generic state whose boundary is larger than the initial one
        set_tensors(self.nets[0], {s: randn(self.g, self.nets[0][s]['A'].shape) for s in self.nets[0].site_list})
        torch.manual_seed(5)
        for _ in range(2):
            self.nets[0].renormalize()

    @staticmethod
    def full(n):
        st = dict(t=snapshot(n), dims=dict(n.dims), nx=n.nx, ny=n.ny, bonds=[tuple(b) for b in n.bond_list], sites=list(n.site_list),
                  dtype=n.dtype, sdims={s: dict(n[s].dims) for s in n.site_list})
        if hasattr(n, "config"):
            st["cfg"] = (n.config.model.name, dict(n.config.model.params), dict(vars(n.config.ctmrg)), dict(vars(n.config.evolution)),
                         dict(n.config.TN.dims), n.config.dtype)
        return st

    @staticmethod
    def same(p, q):
        if set(p) != set(q):
            return "contents"
        for k in p:
            if k == "t":
                if not same_snapshot(p[k], q[k]):
                    return "tensors"
            elif p[k] != q[k]:
                return {"cfg": "configuration", "sdims": "dimensions of its site tensors"}.get(k, k)
        return None

    def derive(self, i, kind):
        src = self.nets[i]
        st = self.full(src)
        if kind == "copy":
            new = src.copy()
        elif kind == "to32":
            new = src.to(torch.float32)
        elif kind == "toc":
            new = src.to(dtype=torch.complex128)
        elif kind == "ctor":
            new = self.Ipeps(self.cfg, ipeps=src)
        elif kind == "ctor2":
            new = self.Ipeps(dict(self.cfg, dtype="float32"), src)
        else:
            new = self.Ipeps(self.cfg)
        if kind != "samecfg":
            dt = {"copy": src.dtype, "to32": torch.float32, "toc": torch.complex128, "ctor": torch.float64, "ctor2": torch.float32}[kind]
            got = self.full(new)
            want = {s: (a.to(dt), [c.to(dt) for c in C], [e.to(dt) for e in E]) for s, (a, C, E) in st["t"].items()}
            require(same_snapshot(got["t"], want), f"{kind}: the new network does not hold the tensors of its source")
            require(got["dtype"] == dt, f"{kind}: the new network has dtype {got['dtype']}")
            for k in ("bonds", "sites", "nx", "ny") + (("dims",) if not kind.startswith("ctor") else ()):
                require(got[k] == st[k], f"{kind}: the new network has {k} {got[k]} instead of {st[k]}")
        self.nets.append(new)

    def enabled(self, i, op):
        n = self.nets[i]
        if op in DERIVE:
            return len(self.nets) < 4
        if op in ("chi", "params", "model", "renorm", "evolve", "measure", "options"):
            return hasattr(n, "config")
        if op == "load":
            return self.saved is not None
        return True

    def mutate(self, i, op):
        n = self.nets[i]
        s = n.site_list[0]
        with torch.inference_mode():
            if op == "setA":
                src = torch.tensor(self.g.standard_normal(tuple(n[s]['A'].shape))).to(n.dtype)
                want = src.clone()
                n[s]['A'] = src
                src.zero_()
                require(torch.equal(n[s]['A'], want), "assigning a site tensor does not store its value")
            elif op == "setCE":
                for key in "CE":
                    src = [torch.tensor(self.g.standard_normal(tuple(t.shape))).to(n.dtype) for t in n[s][key]]
                    want = [t.clone() for t in src]
                    n[s][key] = src
                    src[0].zero_()
                    src[1] = None
                    require(len(n[s][key]) == 4 and all(map(torch.equal, n[s][key], want)), f"assigning '{key}' does not store its value")
            elif op == "inplaceA":
                for t in n.site_list:
                    n[t]['A'].mul_(-1.25)
            elif op == "inplaceCE":
                for t in n.site_list:
                    for k in range(4):
                        n[t]['C'][k].mul_(1.5)
                        n[t]['E'][k].add_(0.25)
                    n[t]['C'][0] = torch.ones_like(n[t]['C'][0])
            elif op == "chi":
                n.set_chi(2)
                require(n.dims["chi"] == 2, "set_chi does not set the boundary dimension")
            elif op == "dims":
                n.dims['note'] = 1
            elif op == "params":
                n.set_model_params(hx=0.1, new=2)
            elif op == "model":
                n.set_model(make_model_class(), dict(a=1))
            elif op == "renorm":
                n.renormalize()
            elif op == "evolve":
                n.evolve(0.01, 1)
            elif op == "measure":
                n.measure()
            elif op == "reverse":
                n.bond_list.reverse()
                n.site_list.append(n.site_list.pop(0))
            elif op == "save":
                self.saved = os.path.join(self.tmp, "net.pt")
                n.save(self.saved)
            elif op == "load":
                n.load(self.saved)
            elif op == "reinit":
                n.initialize_site_tensors(lambda site: [0.6, 0.8])
            elif op == "sitecopy":
                from acetn.ipeps.site_tensor import SiteTensor
                st = n[s]
                for c, dt in ((st.copy(), n.dtype), (st.to(torch.complex64), torch.complex64), (st.to(), n.dtype),
                              (SiteTensor(dict(n.dims), site_tensor=st, dtype=n.dtype), n.dtype)):
                    want = [t.to(dt) for t in [st['A']] + st['C'] + st['E']]
                    got = [c['A']] + c['C'] + c['E']
                    require(len(got) == 9 and all(map(same_tensor, want, got)), "a copied site tensor differs from its source")
                    for t in got:
                        t.mul_(3)
                    c['A'], c['C'], c['E'] = 2 * c['A'], [2 * t for t in c['C']], [2 * t for t in c['E']]
            elif op == "options":
                n.config.ctmrg.steps = 2
                n.config.evolution.als_niter = 7

    def step(self, name):
        i, op = name.split(".")
        i = int(i)
        before = [self.full(n) for n in self.nets]
        quiet_op = op in DERIVE + ["save", "measure", "sitecopy"]
        (self.derive if op in DERIVE else self.mutate)(i, op)
        for j, st in enumerate(before):
            if j != i or quiet_op:
                d = self.same(st, self.full(self.nets[j]))
                require(d is None, f"{name} changed the {d} of network {j}")
        require(self.cfg == self.cfg_before, f"{name} changed the caller's configuration")


def run_case(c):
    seen = trans = hists = multi = 0
    with tempfile.TemporaryDirectory() as tmp:
        menu = [f"{i}.{o}" for i in range(4) for o in DERIVE + MUTATE]

        def run(hist):
            w = World(c, tmp)
            torch.manual_seed(5)
            for k, op in enumerate(hist):
                if int(op.split(".")[0]) >= len(w.nets) or not w.enabled(*(lambda a: (int(a[0]), a[1]))(op.split("."))):
                    return None
                try:
                    w.step(op)
                except Exception as e:
                    raise Violation(f"{type(e).__name__}: {e} [history {' '.join(hist[:k + 1])}]", history=hist[:k + 1])
            return w
        stack = [tuple(c["first"])]
        while stack:
            h = stack.pop()
            if len(h) < c["depth"]:
                n = 1 + sum(o.split(".")[1] in DERIVE for o in h)
                stack += [h + (o,) for o in menu if int(o.split(".")[0]) < n]
                continue
            # without two networks there is nothing to interfere with
            if not any(o.split(".")[1] in DERIVE for o in h):
                continue
            w = run(h)
            if w is None:
                continue
            hists += 1
            trans += len(h)
            seen += 1
            multi += len(w.nets) > 1
    return dict(states=seen, transitions=trans, traces=hists, checks=trans, nontrivial=multi > 0,
                sample=dict(case=c, histories=hists, last=h if hists else None))
