"""Configurations: all option values singly and in pairs against the documented settings, and the effect of every option."""
import contextlib
import io
import itertools
import os
import numpy as np
import torch
from .. import core
from ..core import require
from ..lib import *

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all single settings, all pairs of settings and all environments of a finite option table on the real code, against the documented values; metamorphic runs for the effect of every option"
RULE = ("`resolve`: one case per first setting, combined with every second setting of another option, every resolved option compared with the documented value; `network`: the same through a network; "
        "`effect`: one case per option and dtype, comparing runs that differ in this option only; `reject`: one case per invalid setting; non-trivial: a setting differs from its default")
ASSUMPTIONS = ["each option interacts with at most one other in how it resolves", "no accelerator is available in this sandbox"]
NOTE = "The documented table (docs/source/input_settings.rst) is restated in the check."
FRESH = True

DEFAULT = {
    "TN.nx": 2, "TN.ny": 2, "TN.dims.phys": 2, "TN.dims.bond": 2, "TN.dims.chi": 20,
    "dtype": torch.float64, "device": torch.device("cpu"),
    "ctmrg.steps": 40, "ctmrg.projectors": "half-system", "ctmrg.svd_type": "rsvd", "ctmrg.svd_cutoff": 1e-12, "ctmrg.rsvd_niter": 2,
    "ctmrg.rsvd_oversampling": 2, "ctmrg.disable_progressbar": False,
    "evolution.backend": "torch", "evolution.update_type": "full", "evolution.use_gauge_fix": True, "evolution.gauge_fix_atol": 1e-12,
    "evolution.positive_approx_cutoff": 1e-12, "evolution.als_niter": 100, "evolution.als_tol": 1e-15, "evolution.als_method": "cholesky",
    "evolution.als_epsilon": 1e-12, "evolution.disable_progressbar": False,
    "model.name": None, "model.params": {},
}

# (option, given value, resolved value)
TABLE = [
    ("TN.nx", 1), ("TN.nx", 3), ("TN.ny", 1), ("TN.ny", 4), ("TN.dims.phys", 3), ("TN.dims.bond", 1), ("TN.dims.bond", 3), ("TN.dims.chi", 1), ("TN.dims.chi", 7),
    ("dtype", "float32", torch.float32), ("dtype", "complex64", torch.complex64), ("dtype", "complex128", torch.complex128), ("dtype", "float64", torch.float64),
    ("device", "cpu", torch.device("cpu")), ("device", "cuda", torch.device("cpu")), ("device", "cuda:1", torch.device("cpu")),
    ("ctmrg.steps", 0), ("ctmrg.steps", 5), ("ctmrg.projectors", "half-system"), ("ctmrg.projectors", "full-system"), ("ctmrg.svd_type", "rsvd"), ("ctmrg.svd_type", "full-rank"),
    ("ctmrg.svd_cutoff", 0.0), ("ctmrg.svd_cutoff", 1e-3), ("ctmrg.rsvd_niter", 0), ("ctmrg.rsvd_niter", 9), ("ctmrg.rsvd_oversampling", 0), ("ctmrg.rsvd_oversampling", 6),
    ("ctmrg.disable_progressbar", True), ("ctmrg.disable_progressbar", False),
    ("evolution.backend", "torch"), ("evolution.backend", "cutensor", "torch"), ("evolution.update_type", "full"), ("evolution.update_type", "simple"),
    ("evolution.use_gauge_fix", False), ("evolution.use_gauge_fix", True), ("evolution.gauge_fix_atol", 1e-3), ("evolution.gauge_fix_atol", 0.0),
    ("evolution.positive_approx_cutoff", 0.0), ("evolution.positive_approx_cutoff", 1e-5),
    ("evolution.als_niter", 0), ("evolution.als_niter", 3), ("evolution.als_tol", 1e-4), ("evolution.als_tol", 0.0), ("evolution.als_method", "pinv"), ("evolution.als_method", "cholesky"),
    ("evolution.als_epsilon", 0.0), ("evolution.als_epsilon", 1e-2), ("evolution.disable_progressbar", True), ("evolution.disable_progressbar", False),
    ("model.name", "heisenberg"), ("model.name", "ising"), ("model.params", {"J": 2.5}), ("model.params", {"jz": 1.0, "hx": 0.3}), ("model.params", {}),
]
TABLE = [t if len(t) == 3 else (t[0], t[1], t[1]) for t in TABLE]

SLURM = [  # environment, progress bars disabled
    ({}, False),
    ({"SLURM_JOB_ID": "17"}, True),
    ({"SLURM_JOB_ID": "17", "SLURM_JOB_NAME": "run"}, True),
    ({"SLURM_JOB_ID": "17", "SLURM_JOB_NAME": "interactive"}, False),
    ({"SLURM_JOB_ID": "17", "SLURM_JOB_PARTITION": "interactive"}, False),
    ({"SLURM_JOB_ID": "17", "SLURM_JOB_NAME": "run", "SLURM_JOB_PARTITION": "gpu"}, True),
    ({"SLURM_JOB_ID": "17", "SLURM_JOB_NAME": "run", "SLURM_JOB_PARTITION": "interactive"}, False),
    ({"SLURM_JOB_NAME": "run"}, False),
]

REJECT = [
    {"ctmrg": {"step": 3}}, {"ctmrg": {"chi": 3}}, {"ctmrg": {"als_niter": 3}}, {"evolution": {"steps": 3}}, {"evolution": {"dtau": 0.1}}, {"evolution": {"svd_cutoff": 1e-3}},
    {"TN": {"nz": 2}}, {"TN": {"dims": {"phys": 2, "bond": 2, "chi": 4, "spin": 1}}}, {"TN": {"chi": 5}}, {"model": {"nam": "ising"}}, {"model": {"J": 1.0}}, {"ctm": {"steps": 1}}, {"Model": {}},
    {"dtype": "float65"}, {"dtype": "double precision"}, {"ctmrg": {"projectors": "quarter-system"}}, {"ctmrg": {"projectors": "half"}},
    {"evolution": {"update_type": "cluster"}}, {"evolution": {"update_type": "Full"}}, {"steps": 3}, {"backend": "torch"},
]

EFFECTS = ["steps", "projectors", "svd_type", "svd_cutoff", "rsvd_niter", "rsvd_oversampling", "ctmrg.disable_progressbar", "evolution.disable_progressbar", "update_type", "use_gauge_fix",
           "positive_approx_cutoff", "als_niter", "als_tol", "als_method", "als_epsilon", "chi", "model", "dims"]


def cases(tier, seed):
    out = []
    for i in range(len(TABLE)):
        out.append(dict(kind="resolve", first=i))
    for i in range(len(TABLE)):
        out.append(dict(kind="network", first=i))
    for i in range(len(SLURM)):
        out.append(dict(kind="slurm", env=i))
    for i in range(len(REJECT)):
        out.append(dict(kind="reject", which=i))
    for e in EFFECTS:
        for dt in ("float64", "complex128"):
            out.append(dict(kind="effect", option=e, dtype=dt))
    return out


def assemble(settings):
    """A nested configuration with just these settings."""
    c = {"TN": {}}
    for name, value, _ in settings:
        d = c
        *path, last = name.split(".")
        for p in path:
            d = d.setdefault(p, {})
        d[last] = dict(value) if isinstance(value, dict) else value
    return c


def resolved(conf):
    return {
        "TN.nx": conf.TN.nx, "TN.ny": conf.TN.ny, **{f"TN.dims.{k}": conf.TN.dims[k] for k in ("phys", "bond", "chi")},
        "dtype": conf.dtype, "device": conf.device,
        **{k: getattr(getattr(conf, k.split(".")[0]), k.split(".")[1]) for k in DEFAULT if k.split(".")[0] in ("ctmrg", "evolution", "model")}}


def want(settings):
    w = dict(DEFAULT)
    for name, _, value in settings:
        w[name] = value
    return w


def check_config(conf, settings):
    w = want(settings)
    got = resolved(conf)
    for k in DEFAULT:
        require(type(got[k]) is type(w[k]) and got[k] == w[k], f"{k} resolves to {got[k]!r} instead of {w[k]!r} for {[(s[0], s[1]) for s in settings]}")
    require((conf.model.dtype, conf.model.device, conf.model.dim) == (w["dtype"], w["device"], w["TN.dims.phys"]),
            f"the model gets dtype {conf.model.dtype}, device {conf.model.device} and dimension {conf.model.dim} for {[(s[0], s[1]) for s in settings]}")


def run_resolve(c):
    from acetn.ipeps.ipeps_config import IpepsConfig
    first = TABLE[c["first"]]
    n = 0
    for second in [None] + TABLE:
        if second is not None and second[0] == first[0]:
            continue
        settings = [first] + ([second] if second else [])
        conf = assemble(settings)
        before = repr(conf)
        check_config(IpepsConfig(**conf), settings)
        require(repr(conf) == before, "resolving a configuration modifies it")
        n += 1
    # absent sections and an explicit None mean the default
    if c["first"] == 0:
        check_config(IpepsConfig(TN={}), [])
        check_config(IpepsConfig(TN={}, ctmrg={}, evolution={}, model={}), [])
        check_config(IpepsConfig(TN={}, dtype=None, device=None), [])
        check_config(IpepsConfig(TN={}, dtype=torch.complex64, device=torch.device("cpu")), [("dtype", None, torch.complex64)])
    return dict(checks=n, nontrivial=first[2] != DEFAULT[first[0]])


def run_network(c):
    from acetn.ipeps import Ipeps
    t = TABLE[c["first"]]
    conf = assemble([t] + ([("TN.dims.chi", 6, 6)] if t[0] != "TN.dims.chi" else []))
    before = repr(conf)
    ip = Ipeps(conf)
    require(repr(conf) == before, "creating a network modifies its configuration")
    w = want([t] + ([("TN.dims.chi", 6, 6)] if t[0] != "TN.dims.chi" else []))
    check_config(ip.config, [t] + ([("TN.dims.chi", 6, 6)] if t[0] != "TN.dims.chi" else []))
    nx, ny, D, d = w["TN.nx"], w["TN.ny"], w["TN.dims.bond"], w["TN.dims.phys"]
    require((ip.nx, ip.ny) == (nx, ny) and sorted(ip.site_list) == sites(nx, ny), f"the unit cell is {ip.nx}x{ip.ny}, not {nx}x{ny}")
    for s in ip.site_list:
        require(tuple(ip[s]['A'].shape) == (D, D, D, D, d), f"the site tensor has shape {tuple(ip[s]['A'].shape)}")
        for x in [ip[s]['A']] + list(ip[s]['C']) + list(ip[s]['E']):
            require(x.dtype == w["dtype"] and x.device == w["device"], f"a tensor has dtype {x.dtype} on {x.device}")
    require(ip.dims['chi'] == w["TN.dims.chi"], "the boundary dimension is not as configured")
    return dict(checks=1, nontrivial=True)


def run_slurm(c):
    from acetn.ipeps import Ipeps
    env, off = SLURM[c["env"]]
    os.environ.update(env)
    try:
        for a, b in itertools.product((None, False, True), repeat=2):
            conf = {"TN": {"dims": {"phys": 2, "bond": 2, "chi": 4}}, "ctmrg": {} if a is None else {"disable_progressbar": a}, "evolution": {} if b is None else {"disable_progressbar": b}}
            got = Ipeps(conf).config
            for name, given, x in (("ctmrg", a, got.ctmrg.disable_progressbar), ("evolution", b, got.evolution.disable_progressbar)):
                require(bool(x) == bool(off or given), f"{name} progress bar disabled: {x} in environment {env} with setting {given}")
            check_config(got, [("TN.dims.chi", 4, 4), ("ctmrg.disable_progressbar", None, got.ctmrg.disable_progressbar), ("evolution.disable_progressbar", None, got.evolution.disable_progressbar)])
    finally:
        for k in env:
            del os.environ[k]
    return dict(checks=9, nontrivial=off)


def run_reject(c):
    from acetn.ipeps import Ipeps
    bad = REJECT[c["which"]]
    conf = config(nx=2, ny=2, D=2, chi=4, ctmrg=dict(steps=1))
    for k, v in bad.items():
        conf[k] = {**conf[k], **v} if isinstance(v, dict) and k in conf else v
    try:
        ip = Ipeps(conf)
        ip.set_model(make_model_class(), {})
        ip.evolve(0.1, 1)
    except Exception:
        return dict(checks=1, nontrivial=True)
    require(False, f"the setting {bad} is accepted and has no effect")


def net(c, ctmrg=None, evolution=None, chi=5, nx=2, ny=2):
    dt = c["dtype"]
    kind = dt
    ip = new_ipeps(nx=nx, ny=ny, D=2, chi=chi, dtype=dt, ctmrg=dict(dict(steps=1, svd_type="full-rank"), **(ctmrg or {})), evolution=evolution or {})
    g = rng("c18", dt, nx, ny)
    set_tensors(ip, {s: unit(randn(g, (2,) * 5, kind)) for s in sites(nx, ny)})
    h = {e: rand_herm(g, 4, kind) for e in range(8)}
    ip.set_model(make_model_class(bond_h=lambda b: h[0], site_h=lambda s: rand_herm(rng("c18s"), 2, kind)), {})
    return ip


def densities(ip):
    out = []
    for s in ip.site_list:
        r = code_site_rdm(ip, s)
        out.append(r / np.trace(r))
    for b in bonds(ip.nx, ip.ny):
        r = code_bond_rdm(ip, *b)
        out.append(r / np.einsum("abab->", r))
    return out


def gap(a, b):
    return max(float(np.linalg.norm(x - y)) for x, y in zip(a, b))


def renormalized(c, chi=5, **ctm):
    torch.manual_seed(3)
    ip = net(c, ctmrg=ctm, chi=chi)
    ip.renormalize()
    return ip


def evolved(c, steps=1, **evo):
    """Site tensors after a truncating step; None when the settings make it fail numerically."""
    torch.manual_seed(3)
    ip = net(c, evolution=dict(dict(als_niter=100), **evo), chi=8)
    try:
        ip.evolve(0.3, steps)
    except Exception:
        return None
    A = get_tensors(ip)
    if not all(np.isfinite(a).all() for a in A.values()):
        return None
    return torus_state(A, 2, 2)


def differ(a, b):
    return 2.0 if a is None or b is None else state_error(a, b)


def run_effect(c):
    opt = c["option"]
    same, other = 1e-6, 1e-5
    if opt == "steps":
        three = densities(renormalized(c, steps=3))
        ip = net(c, ctmrg=dict(steps=1))
        for i in range(3):
            ip.renormalize()
            e = gap(densities(ip), three)
            require(e < same if i == 2 else e > other, f"{i+1} times one sweep and three sweeps differ by {e:.2e}")
        ip = net(c, ctmrg=dict(steps=0))
        before = snapshot(ip)
        ip.renormalize()
        require(same_snapshot(before, snapshot(ip)), "zero sweeps change the boundary")
    elif opt in ("projectors", "svd_type"):
        # the moves of a single-site cell, one by one, with projectors of an explicit choice
        from acetn.renormalization.directional_mover import DirectionalMover
        from acetn.ipeps.ipeps_config import CTMRGConfig
        res = {}
        for pr, sv in itertools.product(("half-system", "full-system"), ("full-rank", "rsvd")):
            ctm = dict(projectors=pr, svd_type=sv, rsvd_niter=0, rsvd_oversampling=0)
            torch.manual_seed(3)
            ip = net(c, ctmrg=ctm, nx=1, ny=1)
            ip.renormalize()
            res[pr, sv] = densities(ip)
            torch.manual_seed(3)
            ref = net(c, nx=1, ny=1)
            m = DirectionalMover(CTMRGConfig(**ctm))
            for f in (m.left_move, m.right_move, m.up_move, m.down_move):
                f(ref, 0)
            if sv == "full-rank":
                e = gap(res[pr, sv], densities(ref))
                require(e < same, f"a sweep with {pr} projectors differs from its moves by {e:.2e}")
        for a, b in itertools.combinations(res, 2):
            e = gap(res[a], res[b])
            require(e > other, f"the settings {a} and {b} give the same boundary")
    elif opt == "svd_cutoff":
        legs = []
        for cut in (0.9, 0.1, 1e-3, 1e-12):
            ip = renormalized(c, chi=16, svd_cutoff=cut)
            legs.append(max(x.shape[0] for x in ip[(0, 0)]['C']))
        require(legs[0] < legs[1] < legs[2] <= legs[3], f"cutoffs 0.9, 0.1, 1e-3 and 1e-12 keep {legs} singular values")
        require(legs[0] == 1, f"a cutoff of 0.9 keeps {legs[0]} singular values")
    elif opt in ("rsvd_niter", "rsvd_oversampling"):
        good = densities(renormalized(c, svd_type="full-rank"))
        lo, hi = (dict(rsvd_niter=0, rsvd_oversampling=0), dict(rsvd_niter=500, rsvd_oversampling=0)) if opt == "rsvd_niter" else \
            (dict(rsvd_niter=0, rsvd_oversampling=0), dict(rsvd_niter=0, rsvd_oversampling=40))
        e0 = gap(densities(renormalized(c, svd_type="rsvd", **lo)), good)
        e1 = gap(densities(renormalized(c, svd_type="rsvd", **hi)), good)
        require(e1 < 1e-3 * e0, f"the error of the randomized decomposition goes from {e0:.2e} only to {e1:.2e} with {hi}")
    elif opt.endswith("disable_progressbar"):
        from tqdm import tqdm
        sec = opt.split(".")[0]
        for off in (False, True):
            ip = net(c, ctmrg=dict(disable_progressbar=off if sec == "ctmrg" else True), evolution=dict(disable_progressbar=off if sec == "evolution" else True, als_niter=2))
            err = io.StringIO()
            with contextlib.redirect_stderr(err):
                ip.renormalize()
                n1 = len(err.getvalue())
                ip.evolve(0.1, 1)
            n2 = len(err.getvalue())
            if off:
                require(n2 == 0, f"a progress bar is shown with {opt} set")
            else:
                require(n2 > 0 and (n1 > 0) == (sec == "ctmrg"), f"no progress bar is shown without {opt}")
    elif opt == "update_type":
        a, b = evolved(c, update_type="full"), evolved(c, update_type="simple")
        require(a is not None and b is not None and state_error(a, b) > 1e-4, "full and simple update give the same state")
        require(state_error(a, evolved(c)) < same, "the full update is not the default")
    elif opt == "use_gauge_fix":
        ref = evolved(c)
        # an absurd tolerance discards everything, if only gauge fixing is done
        e = differ(evolved(c, gauge_fix_atol=1e6), ref)
        require(e > 1e-3, f"gauge_fix_atol has no effect ({e:.2e})")
        off = evolved(c, use_gauge_fix=False)
        e = differ(evolved(c, use_gauge_fix=False, gauge_fix_atol=1e6), off)
        require(e < same, f"gauge fixing takes place although it is switched off ({e:.2e})")
    elif opt == "positive_approx_cutoff":
        e = differ(evolved(c, positive_approx_cutoff=1e6), evolved(c))
        require(e > 1e-4, f"positive_approx_cutoff has no effect ({e:.2e})")
        # an overwhelming multiple of the identity leaves the plain truncated decomposition
        e = differ(evolved(c, positive_approx_cutoff=1e6, use_gauge_fix=False), evolved(c, positive_approx_cutoff=1e6, use_gauge_fix=False, als_niter=0))
        require(e < 1e-3, f"with the metric replaced by the identity the solver moves away from the optimum by {e:.2e}")
    elif opt == "als_niter":
        seq = [evolved(c, als_niter=n) for n in (0, 1, 2, 5)]
        for a, b in zip(seq, seq[1:]):
            require(differ(a, b) > 1e-7, "als_niter has no effect")
    elif opt == "als_tol":
        # any tolerance is met as soon as it is tested
        a = evolved(c, als_niter=100, als_tol=1e9)
        e = min(differ(a, evolved(c, als_niter=n, als_tol=0.0)) for n in (1, 2, 3, 4))
        require(e < 1e-9, f"als_tol has no effect ({e:.2e})")
        require(differ(a, evolved(c, als_niter=100)) > 1e-9, "als_tol has no effect")
    elif opt == "als_method":
        # their regularizations act differently
        a, b = evolved(c, als_method="cholesky", als_epsilon=0.3), evolved(c, als_method="pinv", als_epsilon=0.3)
        require(differ(a, b) > 1e-4, "als_method has no effect")
        require(differ(evolved(c, als_method="pinv", als_epsilon=1e-12), evolved(c)) < 1e-3, "the linear solvers disagree without regularization")
    elif opt == "als_epsilon":
        for m in ("cholesky", "pinv"):
            require(differ(evolved(c, als_method=m, als_epsilon=0.3), evolved(c, als_method=m)) > 1e-4, f"als_epsilon has no effect for {m}")
    elif opt == "chi":
        for chi in (1, 3, 6):
            ip = renormalized(c, chi=chi)
            require({x.shape[0] for s in ip.site_list for x in ip[s]['C']} == {chi}, f"the boundary does not have dimension {chi}")
    elif opt == "model":
        from acetn.ipeps import Ipeps
        for name, params, energy in (("heisenberg", {"J": 3.0}, lambda a: None), ("ising", {"jz": 1.0, "hx": 0.5}, None), ("ising", {"jz": 2.0, "hx": 0.1}, None)):
            conf = config(nx=2, ny=2, D=2, chi=6, dtype=c["dtype"], ctmrg=dict(steps=2), model=dict(name=name, params=params))
            ip = Ipeps(conf)
            ip.renormalize()
            # the initial state is all up, but for the noise
            want = 2 * 0.25 * params["J"] if name == "heisenberg" else -2 * params["jz"]
            got = float(ip.measure()["Energy"])
            require(abs(got - want) < 0.15 * abs(want) + 0.1, f"{name} with {params} measures {got} instead of about {want}")
    elif opt == "dims":
        ip = new_ipeps(nx=1, ny=2, D=3, chi=4, d=4, dtype=c["dtype"], ctmrg=dict(steps=1))
        require(all(tuple(ip[s]['A'].shape) == (3, 3, 3, 3, 4) for s in ip.site_list), "dims do not reach the site tensors")
    return dict(checks=1, nontrivial=True)


def run_case(c):
    return globals()["run_" + c["kind"]](c)
