"""Which model a network uses, over all histories of selecting, registering and using models on two networks."""
import itertools
import numpy as np
import torch
from ..core import require, Violation
from ..lib import *

ID = "C03"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of operation sequences on the real code against a reference automaton"
RULE = ("one case per (initial configurations of two networks, first operation); within it every continuation up to the depth bound over "
        "set_model (unnamed, named, renamed, without parameters, not a model), set_model_params, register, new network by name, measure, "
        "evolve, measure/evolve with an explicit model; after every step of the history the model used is compared with the reference")
ASSUMPTIONS = ["two networks never register different classes under one explicit name (that is a request to replace it)"]
NOTE = ("All histories up to the bound; states are the pairs (choice of p, choice of q, registered names). The models log which class and "
        "parameters each use really asked; built-in models are compared with explicitly constructed instances.")
FRESH = True
CASE_LIMIT = 600

OPS = ["unnamed1", "unnamed2", "named", "rename", "noparams", "bad", "params", "measure", "evolve", "explicit"]
GLOBAL = ["register", "byname", "byname_builtin"]
INITS = ["none", "ising", "unknown"]


def cases(tier, seed):
    depth = 4 if tier == "thorough" else 3
    ops = [f"{n}.{o}" for n in "pq" for o in OPS] + GLOBAL
    inits = [("none", "none"), ("ising", "none"), ("unknown", "ising")] + [("none", "unknown")] * (tier == "thorough")
    return [dict(init=i, first=o, depth=depth) for i in inits for o in ops]


def cfg(init):
    if init == "none":
        return None
    if init == "ising":
        return dict(name="ising", params=dict(jz=1.5, hx=0.5))
    if init == "byname_builtin":
        return dict(name="heisenberg", params=dict(J=2.0))
    return dict(name="no such model", params=dict(a=1))


class World:
    """Two networks and what each is expected to use: None, 'unknown' or (class, parameters)."""

    def __init__(self, inits):
        from acetn.model import Model
        self.used = used = []

        def cls(base):
            class M(Model):
                def two_site_hamiltonian(self, bond):
                    used.append((base, tuple(sorted(self.params.items()))))
                    return base * self.params.get("a", 1) * torch.eye(4, dtype=self.dtype)

                def one_site_observables(self, site):
                    return {f"o{base}": torch.eye(2, dtype=self.dtype) * self.params.get("b", 4)}
            M.base = base
            return M
        self.M1, self.M2, self.M3 = cls(3), cls(5), cls(7)
        from acetn.model.models import IsingModel, HeisenbergModel
        self.builtin = {"ising": IsingModel, "byname_builtin": HeisenbergModel}
        self.registered = {}
        self.byname_params = {"p": {}, "q": {}}
        self.net, self.want, self.params_in = {}, {}, []
        for n, i in zip("pq", inits):
            self.create(n, i)

    def create(self, n, init):
        m = cfg(init)
        self.net[n] = self.fresh(m)
        self.want[n] = None if init == "none" else (self.builtin[init], dict(m["params"])) if init in self.builtin else "unknown"

    def fresh(self, model):
        ip = new_ipeps(nx=1, ny=1, D=1, chi=1, model=model, ctmrg=dict(steps=0), evolution=dict(update_type="simple"))
        set_tensors(ip, {s: np.array([0.8, 0.6]).reshape(1, 1, 1, 1, 2) for s in ip.site_list})
        return ip

    def explicit(self, cls, params):
        from acetn.ipeps.ipeps_config import ModelConfig
        return cls(ModelConfig(dtype=torch.float64, device=torch.device("cpu"), dim=2, params=dict(params)))

    def expect_error(self, f, what):
        try:
            f()
        except Exception:
            return
        raise Violation(f"{what} does not raise an error (choices {self.state()})")

    def pass_params(self, d):
        self.params_in.append((d, dict(d)))
        return d

    def use(self, n, evolve):
        ip, want = self.net[n], self.want[n]
        before = get_tensors(ip)
        run = (lambda: ip.evolve(0.05, 1)) if evolve else ip.measure
        if want is None or isinstance(want, str):
            self.expect_error(run, f"using a network with {'no' if want is None else 'an unknown'} model")
            after = get_tensors(ip)
            require(all(np.array_equal(before[s], after[s]) for s in before), "a failed call changed the network")
            return
        cls, params = want
        self.used.clear()
        got = run()
        used = set(self.used)
        if hasattr(cls, "base"):
            require(used == {(cls.base, tuple(sorted(params.items())))},
                    f"network {n} used {used}, not class {cls.base} with {params}", used=sorted(map(str, used)))
            if not evolve:
                exp = {"Energy": 2.0 * cls.base * params.get("a", 1), f"o{cls.base}": float(params.get("b", 4))}
                require({k: round(float(v), 9) for k, v in got.items()} == exp,
                        f"network {n} reported { {k: float(v) for k, v in got.items()} } instead of {exp}")
            return
        require(not used, f"network {n} used {used}, not {cls.__name__}")
        ref = self.fresh(None)
        set_tensors(ref, before)
        inst = self.explicit(cls, params)
        if evolve:
            ref.evolve(0.05, 1, model=inst)
            x, y = get_tensors(ip), get_tensors(ref)
            e = max(state_error(x[s], y[s]) for s in x)
            require(e < 1e-8, f"network {n} did not evolve with {cls.__name__} and {params} (off by {e:.1e})")
        else:
            # the boundary of rank one is exact for a product state, whatever its normalization
            exp = ref.measure(model=inst)
            require(list(exp) == list(got), f"network {n} reported {list(got)}, not {list(exp)}")
            e = max(abs(float(got[k]) - float(exp[k])) for k in exp)
            require(e < 1e-9, f"network {n} did not measure {cls.__name__} with {params} (off by {e:.1e})")

    def do(self, op):
        if op == "register":
            from acetn.model.model_factory import model_factory
            model_factory.register("bar", self.M2)
            self.registered["bar"] = self.M2
            for n in "pq":            # a network configured with this name knows its model from now on
                if self.want[n] == "bar":
                    self.want[n] = (self.M2, dict(self.byname_params[n]))
            self.expect_error(lambda: model_factory.register("baz", dict), "registering a class that is not a model")
            return
        if op == "byname":
            name = "foo" if "foo" in self.registered else "bar"
            d = self.pass_params(dict(a=11))
            m = dict(name=name, params=d)
            self.byname_params["q"] = dict(a=11)
            self.net["q"] = self.fresh(m)
            self.want["q"] = (self.registered[name], dict(a=11)) if name in self.registered else "bar"
            return
        if op == "byname_builtin":
            self.create("q", op)
            return
        n, op = op.split(".")
        ip = self.net[n]
        if op == "unnamed1":
            d = self.pass_params(dict(a=2))
            ip.set_model(self.M1, d)
            self.want[n] = (self.M1, dict(a=2))
        elif op == "unnamed2":
            ip.set_model(self.M2, self.pass_params(dict(a=3, b=6)))
            self.want[n] = (self.M2, dict(a=3, b=6))
        elif op == "named":
            ip.set_model(self.M1, params=self.pass_params(dict(a=5)), name="Foo")
            self.registered["foo"] = self.M1
            self.want[n] = (self.M1, dict(a=5))
        elif op == "rename":
            # one network chooses another class under a name of its own
            ip.set_model(self.M3 if (self.want[n] or [0])[0] is not self.M3 else self.M2, dict(a=1), name=f"own_{n}")
            self.want[n] = (self.M3 if (self.want[n] or [0])[0] is not self.M3 else self.M2, dict(a=1))
        elif op == "noparams":
            ip.set_model(self.M3, None)
            self.want[n] = (self.M3, {})
        elif op == "bad":
            self.expect_error(lambda: ip.set_model(dict, {"a": 9}), "selecting a class that is not a model")
            self.expect_error(lambda: ip.set_model(World, {"a": 9}, name="foo" if "foo" in self.registered else "other"),
                              "selecting a named class that is not a model")
        elif op == "params":
            ip.set_model_params(a=13, b=2)
            if isinstance(self.want[n], tuple):
                self.want[n][1].update(a=13, b=2)
            self.byname_params[n].update(a=13, b=2)
        elif op == "measure":
            self.use(n, False)
        elif op == "evolve":
            self.use(n, True)
        elif op == "explicit":
            inst = self.explicit(self.M1, dict(a=17))
            self.used.clear()
            ip.measure(model=inst)
            ip.evolve(0.05, 1, model=inst)
            require(set(self.used) == {(3, (("a", 17),))}, f"an explicit model was not used: {set(self.used)}")

    def final(self):
        for n in "pq":
            self.use(n, False)
        for d, before in self.params_in:
            require(d == before, f"the caller's parameters changed from {before} to {d}")
            d["a"] = 99                      # and the caller's later changes have no effect
        for n in "qp":
            self.use(n, False)
            self.use(n, True)

    def state(self):
        f = lambda w: w if not isinstance(w, tuple) else (getattr(w[0], "base", w[0].__name__), tuple(sorted(w[1].items())))
        return (f(self.want["p"]), f(self.want["q"]), tuple(sorted(self.registered)))


def run_case(c):
    from acetn.model.model_factory import model_factory
    ops = [f"{n}.{o}" for n in "pq" for o in OPS] + GLOBAL
    pristine = dict(model_factory._models) if hasattr(model_factory, "_models") else None
    seen, trans, hists = set(), 0, 0
    # "use" operations change neither choice, so they matter only between two others; keep them but skip them at the end
    # (the final check uses both networks anyway)
    for rest in itertools.product(ops, repeat=c["depth"] - 1):
        hist = (c["first"],) + rest
        if hist[-1].split(".")[-1] in ("measure", "evolve"):
            continue
        if pristine is not None:
            model_factory._models.clear()
            model_factory._models.update(pristine)
        w = World(c["init"])
        try:
            for op in hist:
                w.do(op)
                trans += 1
                seen.add(w.state())
            w.final()
        except Violation as e:
            raise Violation(f"{e} [after {' '.join(hist)}]", history=hist, **e.detail)
        hists += 1
    return dict(states=len(seen), transitions=trans, traces=hists, checks=hists, sample=dict(case=c, last=hist, states=len(seen)))
