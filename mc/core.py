"""Driver shared by all checks.

A check is a module in mc.checks with
    ID, LEVEL, RULE, ASSUMPTIONS (strings)
    cases(tier, seed)     -> list of JSON-able dicts: the complete enumeration within the bounds of the tier
    run_case(case)        -> dict(states=, transitions=, traces=, nontrivial=bool, sample=...)
                             raises Violation (or any exception) when the property is broken
Every case runs against the code in /repo's working tree.  A case that fails is written to
/verif/replays/<ID>/ and can be run alone with `python -m mc.run <ID> --replay FILE`.
"""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ACETN_REPO", "/repo")


TQDM_WRITE = None       # the original tqdm.write


class Violation(Exception):
    """The property does not hold on the case being run."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class CaseTimeout(BaseException):
    pass


def require(cond, msg, **detail):
    if not cond:
        raise Violation(msg, **detail)


def prepare():
    """Import the code under test with everything nondeterministic or noisy pinned down."""
    for var in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ[var] = "1"
    for var in list(os.environ):
        if var.startswith("SLURM_") or var in ("RANK", "WORLD_SIZE", "LOCAL_RANK", "MASTER_ADDR", "MASTER_PORT"):
            del os.environ[var]
    os.environ["ACETN_LOG_LEVEL"] = "INFO"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    torch.set_grad_enabled(False)
    from . import fakedist
    fakedist.install()
    from tqdm import tqdm
    global TQDM_WRITE
    TQDM_WRITE = tqdm.__dict__["write"]
    tqdm.write = classmethod(lambda cls, *a, **k: None)
    import acetn
    here = os.path.realpath(os.path.dirname(acetn.__file__))
    if not here.startswith(os.path.realpath(REPO)):
        raise RuntimeError(f"acetn was imported from {here}, not from {REPO}")


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]


def seed_for(case, seed=0):
    """A seed derived from the case, so that a case is reproducible on its own."""
    return int(case_key(case), 16) % (2**31) + 7919 * int(seed)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(check, case, limit, seed):
    import torch
    t0 = time.time()
    out = {"case": case}
    torch.manual_seed(seed_for(case, seed))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        res = check.run_case(case) or {}
        out.update(ok=True, **res)
    except CaseTimeout:
        out.update(ok=False, msg=f"no result within {limit} s (does not terminate?)", detail={})
    except Violation as e:
        out.update(ok=False, msg=str(e), detail=e.detail)
    except Exception as e:  # the case is valid use of the code: it has to work
        tb = traceback.format_exc(limit=-6)
        out.update(ok=False, msg=f"{type(e).__name__}: {e}", detail={"traceback": tb})
    finally:
        signal.alarm(0)
    out["t"] = time.time() - t0
    return out


_CTX = {}


def _init_worker(module, limit, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _CTX.update(check=importlib.import_module(module), limit=limit, seed=seed)


def _work(case):
    return run_one(_CTX["check"], case, _CTX["limit"], _CTX["seed"])


def known_findings(pid):
    """Lines `known: property=<id> case=<key> <what fails>` of known_findings.txt."""
    found = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == f"property={pid}" and w[2].startswith("case="):
                found[w[2][5:]] = w[3].strip()
    return found


def main(pid, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--profile", action="store_true")
    args = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prepare()
    module = f"mc.checks.{pid.lower()}"
    check = importlib.import_module(module)
    limit = getattr(check, "CASE_LIMIT", 240)

    if args.replay:
        rec = json.load(open(args.replay))
        res = run_one(check, rec["case"], limit, rec.get("seed", seed))
        print(json.dumps(res, indent=1, default=str))
        if not res["ok"]:
            print(f"VIOLATION property={pid} replay={args.replay}")
            return 1
        return 0

    cases = list(check.cases(args.tier, seed))
    keys = [case_key(c) for c in cases]
    assert len(set(keys)) == len(keys), "the enumeration repeats a case"
    jobs = args.jobs or getattr(check, "JOBS", 0) or min(8, os.cpu_count() or 1)
    results = []
    known = known_findings(pid)
    deadline = t0 + (800 if args.tier == "quick" else 86400)
    fails = 0
    if jobs == 1 or len(cases) == 1:
        for c in cases:
            results.append(run_one(check, c, limit, seed))
    else:
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        chunk = getattr(check, "CHUNK", 1)
        # FRESH: the case changes process-wide state, so each runs in a process of its own
        pool = ctx.Pool(jobs, initializer=_init_worker, initargs=(module, limit, seed),
                        maxtasksperchild=1 if getattr(check, "FRESH", False) else None)
        try:
            for r in pool.imap_unordered(_work, cases, chunksize=chunk):
                results.append(r)
                fails += not r["ok"]
                # enough evidence: a broken tree need not be explored to the end
                if fails >= 25 or (fails and time.time() > deadline):
                    break
        finally:
            pool.terminate()
            pool.join()

    bad = []
    for r in results:
        if not r["ok"]:
            k = case_key(r["case"])
            if k in known:
                print(f"KNOWN-FINDING: property={pid} {known[k]}")
            else:
                bad.append(r)
    ok = [r for r in results if r["ok"]]
    cov = {
        "samples": [r["sample"] if "sample" in r else r["case"] for r in
                    (ok[:1] + ok[len(ok)//2:len(ok)//2+1] + ok[-1:])] or [r["case"] for r in bad[:3]],
        "rule": check.RULE,
        "exhaustive": len(results) == len(cases),
        "evaluations": len(results),
    }
    if check.LEVEL == "model_checking":
        cov["states"] = sum(r.get("states", 1) for r in ok)
        cov["transitions"] = sum(r.get("transitions", 1) for r in ok)
        cov["traces_validated_against_impl"] = sum(r.get("traces", 1) for r in ok)
    cov["distinct_nontrivial"] = sum(1 for r in ok if r.get("nontrivial", True))
    for name in ("states", "transitions", "traces", "checks"):
        if any(name in r for r in ok) and name not in cov and name != "traces":
            cov[name] = sum(r.get(name, 0) for r in ok)
    extra = {}
    for r in ok:
        for k, v in (r.get("stats") or {}).items():
            extra[k] = max(extra.get(k, v), v) if k.startswith("max_") else extra.get(k, 0) + v
    cov.update(extra)
    ev = {
        "property": pid, "tier": "thorough" if args.tier == "thorough" else "quick", "seed": seed,
        "level": check.LEVEL, "coverage": cov, "assumptions": list(check.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if args.profile:
        for r in sorted(results, key=lambda r: -r["t"])[:8]:
            print(f"  {r['t']:.2f}s {json.dumps(r['case'], default=str)[:200]}")
        print("  cpu total", round(sum(r["t"] for r in results), 1))
        print(" ", {k: v for k, v in cov.items() if k not in ("samples", "rule")})
    bad.sort(key=lambda r: len(json.dumps(r["case"], default=str)))
    for r in bad[:5]:
        d = os.path.join(VERIF, "replays", pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, case_key(r["case"]) + ".json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, **r}, f, indent=1, default=str)
        print(f"  {r['msg'][:400]}\n  case: {json.dumps(r['case'], default=str)[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid}: {len(results)}/{len(cases)} cases, {len(bad)} violations, {time.time()-t0:.1f} s")
    return 1 if bad else 0
