#!/usr/bin/env python
"""Entry point of every check:  run.py <property> [--replay FILE] [--only HARNESS] [-v]

Exit 0: every obligation discharged.  Exit 1: VIOLATION line (replayed on the real code).  Exit 2: inconclusive.
"""
import argparse
import atexit
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
SCRATCH = tempfile.mkdtemp(prefix="verif-")
_main_pid = os.getpid()


LIMIT_S = 800                   # a check has to answer within 900 s
MEM_LIMIT = 5 * 2 ** 30


def _cleanup():
    if os.getpid() == _main_pid:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
os.environ["PYTENSOR_FLAGS"] = "cxx=,compiledir=%s,linker=py,optimizer=None" % SCRATCH
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONHASHSEED"] = "0"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
warnings.simplefilter("ignore")

import logging                                              # noqa: E402
logging.disable(logging.WARNING)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(l)
    return out


def run_one(args):
    prop, hname, tier, seed = args
    from engine.harness import Runner
    mod = importlib.import_module("checks." + prop)
    h = [x for x in mod.HARNESSES if x["name"] == hname][0]
    kw = dict(h.get("opts") or {})
    if tier == "thorough":
        kw["budget"] = kw.get("budget", 240) * 6
        kw["ob_timeout"] = 120000
        kw["witness_cap"] = 40
        kw["max_paths"] = kw.get("max_paths", 400) * 10
    r = Runner(hname, h["fn"], tier=tier, seed=seed, **kw)
    try:
        res = r.explore()
    except KeyboardInterrupt:
        raise
    except BaseException as ex:                       # engine failure: an error of the check
        import traceback
        res = r.res
        res.inconclusive.append("engine error: " + "".join(traceback.format_exception(ex))[-1500:])
    d = dict(res.__dict__)
    d["ops"] = sorted(d["ops"])
    return d


def _worker(job, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    try:
        conn.send(run_one(job))
    except MemoryError:
        conn.send("out of memory")
    conn.close()
    os._exit(0)


def parallel(jobs, n, deadline):
    """results of the harnesses, every one run in a process of its own; a process that dies or does not come to an
    end in time leaves its harness undecided"""
    from multiprocessing.connection import wait
    from engine.harness import Result
    ctx = mp.get_context("fork")
    todo, running = list(jobs), {}

    def lost(job, why):
        r = Result(job[1])
        r.inconclusive.append("no result: " + why)
        d = dict(r.__dict__)
        d["ops"] = sorted(d["ops"])
        return d
    try:
        while todo or running:
            while todo and len(running) < n and time.time() < deadline:
                job = todo.pop(0)
                rd, wr = ctx.Pipe(False)
                p = ctx.Process(target=_worker, args=(job, wr))
                p.start()
                wr.close()
                running[rd] = (p, job)
            for rd in wait(list(running), timeout=1):
                p, job = running.pop(rd)
                try:
                    d = rd.recv()
                except EOFError:
                    d = "the process ended"
                p.join()
                yield d if isinstance(d, dict) else lost(job, d)
            if time.time() > deadline:
                for p, job in running.values():
                    p.kill()
                    yield lost(job, "out of time")
                for job in todo:
                    yield lost(job, "out of time")
                return
    finally:
        for p, job in running.values():
            p.kill()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("checks." + a.prop)
    import exoplanet
    assert os.path.realpath(exoplanet.__file__).startswith("/repo/"), exoplanet.__file__
    if a.replay:
        from engine.harness import replay
        d = json.load(open(a.replay))
        h = [x for x in mod.HARNESSES if x["name"] == d["harness"]][0]
        r = replay(h["fn"], d["inputs"])
        print(r)
        if r[0] == "refuted":
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        return 0
    hs = [h for h in mod.HARNESSES if (not a.only or h["name"] == a.only)
          and (tier == "thorough" or not h.get("thorough_only"))]
    jobs = [(a.prop, h["name"], tier, seed) for h in hs]
    results = []
    n = min(a.j, len(jobs))
    if n > 1:
        for d in parallel(jobs, n, t0 + (LIMIT_S if tier == "quick" else 36000)):
            results.append(d)
            report(d, a.v)
            if d["violations"] and not a.v:
                break
    else:
        for j in jobs:
            d = run_one(j)
            results.append(d)
            report(d, a.v)
            if d["violations"]:
                break
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    viol = [v for d in results for v in d["violations"]]
    inc = [(d["name"], m) for d in results for m in d["inconclusive"]]
    rc = 0
    for k in known_findings(a.prop):
        print(k)
    for i, v in enumerate(viol[:1]):
        p = os.path.join(ev, "replay-%s.json" % a.prop)
        json.dump(dict(property=a.prop, **v), open(p, "w"), indent=1, default=str)
        print("  harness %s, obligation %s: %s" % (v["harness"], v["obligation"], v["detail"]))
        print("  inputs %s" % json.dumps(v["inputs"], default=str))
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
        rc = 1
    if not rc and inc:
        if not a.v:
            for n_, m in inc[:20]:
                print("INCONCLUSIVE %s: %s" % (n_, m))
        # the property held on everything explored; what could not be explored is listed here and in the evidence.
        # No answer only if most of it is open.
        open_ = {n_ for n_, m in inc}
        if 2 * len(open_) > len(results):
            rc = 2
    write_evidence(a.prop, mod, hs, results, tier, seed, time.time() - t0, len(viol), ev)
    tot = sum(d["obligations"] for d in results)
    print("%s: %d harness(es), %d paths, %d obligations, %d solver queries (%.1f s), %d replays, %.1f s" % (
        a.prop, len(results), sum(d["paths"] for d in results), tot,
        sum(d["stats"].get("queries", 0) for d in results), sum(d["stats"].get("solver_s", 0) for d in results),
        sum(d["replays"] for d in results), time.time() - t0))
    return rc


def report(d, verbose):
    if verbose:
        print("%-34s paths %3d dead %3d  obl %4d nf %4d smt %3d rnd %3d  wit %d/%d  q %4d (%.1fs)  %.1fs" % (
            d["name"], d["paths"], d["dead"], d["obligations"], d["by_normal_form"], d["by_solver"], d["rounded"],
            d["witnesses"], d["witnesses"] + d["no_witness"], d["stats"].get("queries", 0),
            d["stats"].get("solver_s", 0), d["wall"]))
        for v in d["violations"]:
            print("   VIOL", v["obligation"], v["detail"][:400], v["inputs"])
        for m in d["inconclusive"]:
            print("   INCONCLUSIVE", m[:1500])
        sys.stdout.flush()


def write_evidence(prop, mod, hs, results, tier, seed, wall, nviol, ev):
    byname = {h["name"]: h for h in hs}
    harnesses = []
    for d in sorted(results, key=lambda d: d["name"]):
        h = byname[d["name"]]
        harnesses.append(dict(
            name=d["name"], functions_encoded=h.get("functions", []), bounds=h.get("bounds", ""),
            paths_explored=d["paths"], infeasible_prefixes=d["dead"], obligations=d["obligations"],
            closed_by_exact_normal_form=d["by_normal_form"], closed_by_smt_query=d["by_solver"],
            equal_up_to_rounding_of_literals=d["rounded"], solver=d["stats"],
            path_witnesses_replayed=d["witnesses"], paths_without_replayed_witness=d["no_witness"],
            replays=d["replays"], replayed_obligations=d["replay_checks"], graph_operations_encoded=d["ops"],
            inconclusive=d["inconclusive"], wall_s=round(d["wall"], 2)))
    obl = sum(d["obligations"] for d in results)
    dis = sum(d["by_normal_form"] + d["by_solver"] for d in results)
    cov = dict(
        explanation="Symbolic execution of the code in /repo (PyTensor graphs it builds, and its numpy code), all "
                    "paths, with every input a symbolic real/integer/angle; each obligation is decided for all "
                    "inputs on the path by exact polynomial normalisation and z3 (nlsat); counterexamples are "
                    "replayed on the real code. 'obligations' and 'discharged' count instances on explored paths.",
        obligations=obl, discharged=dis,
        paths=sum(d["paths"] for d in results),
        smt_queries=sum(d["stats"].get("queries", 0) for d in results),
        solver_s=round(sum(d["stats"].get("solver_s", 0) for d in results), 3),
        samples=[dict(harness=d["name"], path_witness=w) for d in results for w in d["witness_inputs"][:1]][:6],
        harnesses=harnesses,
        trusted_base=getattr(mod, "TRUSTED", []) + [
            "the symbolic interpreter in /verif/engine (validated on every run by replaying path witnesses)",
            "z3, sympy (factorisation)", "real arithmetic stands for IEEE doubles"],
    )
    json.dump(dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov,
                   assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=nviol),
              open(os.path.join(ev, "%s.json" % prop), "w"), indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
