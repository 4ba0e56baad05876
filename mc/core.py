"""Runner: enumerates the cases of a property, executes them in a pool of forked
workers, reports violations and writes the evidence file."""

import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")

CASE_TIMEOUT = {"quick": 240, "thorough": 780}
MAX_REPORTED = int(os.environ.get("MC_MAX_REPORTED", "5"))
STOP_AFTER = int(
    os.environ.get("MC_STOP_AFTER", "20")
)  # violations after which it is not continued


class Timeout(Exception):
    pass


class Res:
    """Counters and violations of one case."""

    def __init__(self):
        self.n = {}
        self.viol = []
        self.known = []
        self.samples = []
        self.case = None

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def fail(self, key, msg, **detail):
        """``key`` identifies the failing input/history."""
        if len(self.viol) < 50:
            self.viol.append(dict(key=str(key), msg=str(msg)[:4000], detail=detail))
        else:
            self.count("violations_not_listed")

    def expect(self, cond, key, msg, **detail):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, **detail)
        return bool(cond)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


def _alarm(signum, frame):
    raise Timeout()


_MOD = None
_TIER = None


def _run_one(job):
    idx, case = job
    res = Res()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT[_TIER])
    res.case = case
    try:
        _MOD.run_case(case, res, _TIER)
    except Timeout:
        res.fail(
            "timeout:" + json.dumps(case, default=str),
            "the code under test did not finish within "
            f"{CASE_TIMEOUT[_TIER]} s\n" + traceback.format_exc()[-1500:],
        )
    except MemoryError:
        res.fail("memory:" + json.dumps(case, default=str), "out of memory")
    except Exception as e:
        res.fail(
            "exception:" + json.dumps(case, default=str),
            f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:],
        )
    finally:
        signal.alarm(0)
    return idx, res.n, res.viol, res.samples, time.time() - t0


def _limit():
    lim = 6 * 2**30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return {}
    with open(KNOWN) as f:
        data = json.load(f)
    return {
        k["key"]: k["what"] for k in data.get("findings", []) if k["property"] == prop
    }


def main(prop, tier, seed, args):
    global _MOD, _TIER
    t0 = time.time()
    jobs = 8
    if "-j" in args:
        jobs = int(args[args.index("-j") + 1])
    scratch = tempfile.mkdtemp(prefix="mcverif_")
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = scratch
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["MC_SCRATCH"] = scratch
    try:
        return _main(prop, tier, seed, args, jobs, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, args, jobs, t0):
    global _MOD, _TIER
    _TIER = tier
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    try:
        _MOD = importlib.import_module(f"mc.{prop.lower()}")
    except Exception:
        # the code under test cannot even be imported
        path = os.path.join(evdir, "replay", f"{prop}_import.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, error=traceback.format_exc()), f)
        traceback.print_exc()
        print(f"VIOLATION property={prop} replay={path}")
        return 1

    if "--replay" in args:
        with open(args[args.index("--replay") + 1]) as f:
            rep = json.load(f)
        cases = [_tuplify(rep["case"])]
    else:
        cases = list(_MOD.cases(tier))

    n, viol, samples, slow = {}, [], [], []
    njobs = [(i, c) for i, c in enumerate(cases)]
    if jobs == 1 or len(njobs) == 1:
        results = map(_run_one, njobs)
        pool = None
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(jobs, initializer=_limit)
        results = pool.imap_unordered(_run_one, njobs, chunksize=1)
    first = {}
    known = known_findings(prop)
    try:
        for idx, cn, cv, cs, dt in results:
            for k, v in cn.items():
                n[k] = n.get(k, 0) + v
            for v in cv:
                v["case"] = cases[idx]
                viol.append(v)
            if cs:
                first[idx] = cs
            slow.append((round(dt, 2), idx))
            if sum(v["key"] not in known for v in viol) >= STOP_AFTER:
                n["stopped_early"] = 1
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    for idx in sorted(first)[:6]:
        samples += first[idx][:1]

    seen_known = {}
    real = []
    for v in viol:
        if v["key"] in known:
            seen_known[v["key"]] = known[v["key"]]
        else:
            real.append(v)
    for k, what in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {what} [{k}]")

    real.sort(key=lambda v: (len(json.dumps(v["case"], default=str)), v["key"]))
    wall = time.time() - t0
    level = _MOD.LEVEL
    cov = {k: v for k, v in n.items()}
    cov["cases"] = len(cases)
    cov["exhaustive"] = not n.get("stopped_early")
    cov["samples"] = samples or [repr(cases[0])[:300]]
    if level in ("exploration", "fault_enumeration"):
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", 0)
        cov["rule"] = _MOD.RULE
    else:
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
    cov["explanation"] = _MOD.__doc__.strip()
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=level,
        coverage=cov,
        assumptions=getattr(_MOD, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(real),
    )
    if "--replay" not in args:
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if "--times" in args:
        tot = {}
        for dt, i in slow:
            k = str(cases[i][:7]) if isinstance(cases[i], tuple) else str(cases[i])
            tot[k] = tot.get(k, 0) + dt
        for k, v in sorted(tot.items(), key=lambda kv: -kv[1])[:40]:
            print(f"{v:8.1f} s  {k}")
    slow.sort(reverse=True)
    print(
        f"{prop} {tier}: {len(cases)} cases, {wall:.1f} s, "
        + ", ".join(f"{k}={v}" for k, v in sorted(n.items()))
        + f"; slowest {slow[:3]}"
    )
    for i, v in enumerate(real[:MAX_REPORTED]):
        path = os.path.join(evdir, "replay", f"{prop}_{i}.json")
        with open(path, "w") as f:
            json.dump(
                dict(
                    property=prop,
                    tier=tier,
                    seed=seed,
                    case=v["case"],
                    key=v["key"],
                    msg=v["msg"],
                    detail=v["detail"],
                ),
                f,
                indent=1,
                default=str,
            )
        print(f"--- {v['key']}\n{v['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    if real:
        print(f"{len(real)} violation(s)")
        return 1
    return 0


def _tuplify(x):
    if isinstance(x, list):
        return tuple(_tuplify(y) for y in x)
    return x
