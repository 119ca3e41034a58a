"""Runs the jobs of a property, replays counterexamples, writes evidence."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import re
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Job:
    """One harness with fixed parameters (sizes); everything else is symbolic."""

    def __init__(self, name, fn, params=None, budget=40, timeout_ms=8000, max_paths=20000,
                 max_candidates=2, max_samples=3, must_reach=True, max_enum=64):
        self.name, self.fn, self.params = name, fn, params or {}
        self.budget, self.timeout_ms, self.max_paths = budget, timeout_ms, max_paths
        self.max_candidates, self.max_samples = max_candidates, max_samples
        self.must_reach = must_reach
        self.max_enum = max_enum

    @property
    def key(self):
        return {"harness": self.name}


def harness_module(prop):
    sys.path.insert(0, VERIF)
    return importlib.import_module("harness.%s" % prop.lower())


def _explore(prop, idx, tier, seed, conn):
    try:
        sys.setrecursionlimit(20000)
        if Z3DIR not in sys.path:
            sys.path.append(Z3DIR)
        from . import loader

        loader.install()
        import warnings

        warnings.filterwarnings("ignore")
        import numpy

        numpy.seterr(all="ignore")
        from .api import Symbolic
        from .core import Explorer

        mod = harness_module(prop)
        job = mod.jobs(tier)[idx]
        t0 = time.time()
        ex = Explorer(lambda api: job.fn(api, **job.params),
                      lambda x, p: Symbolic(x, p, job, tier),
                      budget_s=job.budget, max_paths=job.max_paths, timeout_ms=job.timeout_ms, seed=seed,
                      max_enum=job.max_enum)
        if not load_findings(prop):
            ex.grace = getattr(mod, "GRACE", 40 if tier == "quick" else 200)
        ex.run()
        conn.send(dict(
            harness=job.name, paths=ex.paths, infeasible=ex.infeasible, aborted=ex.aborted, states=ex.n_states,
            edges=ex.n_edges, queries=ex.n_queries, unknown=ex.n_unknown, obligations=ex.n_obligations,
            discharged=ex.n_discharged, solver_s=ex.solver_s, wall=time.time() - t0,
            candidates=ex.candidates, notes=ex.notes, functions=sorted(ex.functions), samples=ex.samples,
            reached=ex.reached, exhausted=ex.exhausted, budget_hit=ex.budget_hit, must_reach=job.must_reach,
        ))
    except BaseException:
        conn.send({"harness": "job %d" % idx, "crash": traceback.format_exc()})
    finally:
        conn.close()


class Replayer:
    """Runs cases against the real code in forked children of a clean process."""

    def __init__(self, prop, tier):
        env = dict(os.environ, PYTHONHASHSEED="0", SX_TIER=tier)
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "sx", "replay_worker.py"), prop, tier],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)

    def run(self, case, timeout=25):
        self.p.stdin.write(json.dumps({"case": case, "timeout": timeout}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"error": "replay worker died"}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def load_findings(prop):
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(fn):
        return out
    for line in open(fn):
        line = line.strip()
        if line.startswith("finding:"):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=/(.*?)/ when=\{(.*?)\} \| (.*)$", line)
            if m and m.group(1) == prop:
                out.append(dict(harness=m.group(2), label=m.group(3), when=m.group(4), what=m.group(5)))
    return out


def match_finding(findings, case, result):
    for f in findings:
        if not re.fullmatch(f["harness"], case["job"]["harness"]):
            continue
        labels = result.get("failed", [])
        if labels and all(re.search(f["label"], l) for l in labels):
            try:
                ok = eval(f["when"] or "True", {"I": case["inputs"], "__builtins__": {"any": any, "all": all, "abs": abs, "len": len, "float": float}})
            except Exception:
                ok = False
            if ok:
                return f
    return None


def main(prop, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if Z3DIR not in sys.path:
        sys.path.append(Z3DIR)
    mod = harness_module(prop)
    jobs = mod.jobs(tier)
    idx = [i for i, j in enumerate(jobs) if only is None or re.search(only, j.name)]
    budgets = [j.budget for j in jobs]
    ncpu = int(os.environ.get("SX_CPUS", os.cpu_count() or 8))
    # run selected jobs
    sel = run_selected(prop, idx, tier, seed, budgets, ncpu)
    rep = Replayer(prop, tier)
    findings = load_findings(prop)
    violations, known, spurious, incon = [], {}, [], []
    validated = mismatched = 0
    limit = getattr(mod, "REPLAY_S", 25)
    start = time.time()

    def enough():
        return len(violations) >= 8 or violations and time.time() - start > 60 or time.time() - start > (200 if tier == "quick" else 2000)

    for r in sel:
        if r.get("crash") or r.get("stuck"):
            continue
        for c in r["candidates"]:
            if enough():
                break
            ok = None
            for inputs in [c["inputs"]] + list(c.get("alts", [])):
                case = {"property": prop, "job": c["job"], "label": c["label"], "inputs": inputs, "tier": tier}
                res = rep.run(case, limit)
                if res.get("failed"):
                    ok = (case, res)
                    break
            if ok is None:
                (incon if (c.get("notes") or c.get("exception")) else spurious).append((c, res))
                continue
            case, res = ok
            f = match_finding(findings, case, res)
            if f:
                known[f["what"]] = known.get(f["what"], 0) + 1
            else:
                violations.append((case, res, c))
        for s in r["samples"]:
            if enough():
                break
            case = {"property": prop, "job": s["job"], "label": s["label"], "inputs": s["inputs"], "tier": tier}
            res = rep.run(case, limit)
            if res.get("error") or res.get("assume"):
                continue
            if res.get("failed"):
                f = match_finding(findings, case, res)
                if f:
                    known[f["what"]] = known.get(f["what"], 0) + 1
                    continue
                mismatched += 1
                violations.append((case, res, {"exception": None, "sample": True}))
            else:
                validated += 1
    rep.close()

    crashes = [r for r in sel if r.get("crash") or r.get("stuck")]
    ok = [r for r in sel if not (r.get("crash") or r.get("stuck"))]
    unreached = [r["harness"] for r in ok if r["must_reach"] and not r["obligations"]]
    tot = lambda k: sum(r[k] for r in ok)
    functions = sorted(set(sum([r["functions"] for r in ok], [])))
    notes = {}
    for r in ok:
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    not_ex = [dict(harness=r["harness"], why=r["budget_hit"]) for r in ok if not r["exhausted"]]
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": tot("states") + tot("paths"),
            "transitions": tot("edges"),
            "traces_validated_against_impl": validated,
            "samples": [dict(s, label="model of an explored path, replayed on the real code") for r in ok for s in r["samples"][:1]][:12],
            "paths_explored": tot("paths"),
            "paths_inconclusive": tot("aborted"),
            "queries": tot("queries"),
            "queries_unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 3),
            "obligations_checked": tot("obligations"),
            "obligations_discharged": tot("discharged"),
            "functions_encoded": functions,
            "harnesses": [dict(name=r["harness"], paths=r["paths"], states=r["states"], obligations=r["obligations"],
                               queries=r["queries"], solver_s=round(r["solver_s"], 2), wall_s=round(r["wall"], 2),
                               exhausted=r["exhausted"], notes=r["notes"]) for r in ok],
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside": getattr(mod, "OUTSIDE", ""),
            "inconclusive": [dict(harness=c["job"]["harness"], label=c["label"], why=c.get("exception") or c.get("notes"))
                             for c, _ in incon][:40],
            "spurious": [dict(harness=c["job"]["harness"], label=c["label"], inputs=c["inputs"]) for c, _ in spurious][:20],
            "under_approximations": notes,
            "not_exhausted": not_ex,
            "exhaustive": not not_ex and not notes,
            "known_findings": sorted(known),
            "crashed_jobs": [r["harness"] for r in crashes],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    if verbose:
        for r in sel:
            if r.get("crash") or r.get("stuck"):
                print("CRASH", r)
                continue
            print("%-40s paths=%d inf=%d abort=%d st=%d q=%d unk=%d obl=%d/%d solver=%.1fs wall=%.1fs %s %s %s" % (
                r["harness"], r["paths"], r["infeasible"], r["aborted"], r["states"], r["queries"], r["unknown"],
                r["discharged"], r["obligations"], r["solver_s"], r["wall"], "" if r["exhausted"] else "NOT-EXHAUSTED:%s" % r["budget_hit"],
                r["notes"] or "", "UNREACHED" if r["harness"] in unreached else ""))
        for c, res in incon:
            print("INCONCLUSIVE", c["job"]["harness"], c["label"], c.get("exception"), c.get("where"), c.get("notes"), c["inputs"], res)
        for c, res in spurious:
            print("SPURIOUS", c["job"]["harness"], c["label"], c["inputs"], res)
    for what in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    strict = os.environ.get("SX_STRICT")
    if violations:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for n, (case, res, c) in enumerate(violations):
            k = (case["job"]["harness"], tuple(res.get("failed", []))[:1])
            if k in seen and n > 0:
                continue
            seen.add(k)
            fn = os.path.join(rd, "%s-%d.json" % (prop, n))
            with open(fn, "w") as f:
                json.dump(dict(case, result=res), f, indent=1)
            print("  %s: %s %s" % (case["job"]["harness"], "; ".join(res["failed"][:3]), res.get("exception") or ""))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(fn, VERIF)))
            if len(seen) >= 5:
                break
        return 1
    if crashes:
        for r in crashes:
            print("ERROR job crashed:", r["harness"], (r.get("crash") or "stuck")[-1500:])
    if not ok or all(not r["obligations"] for r in ok):
        if strict or not any((res or {}).get("checks") for _, res in incon):
            print("ERROR: nothing decided (%d jobs, %d crashed)" % (len(sel), len(crashes)))
            return 2
        print("INCONCLUSIVE: nothing decided; the inputs of %d undecided paths were tried on the real code and passed" % len(incon))
    if unreached:
        print("INCONCLUSIVE: harness without a decided check:", ", ".join(unreached))
        if strict:
            return 2
    if (spurious or crashes) and strict:
        return 2
    if spurious:
        print("INCONCLUSIVE: %d solver counterexamples did not reproduce on the real code" % len(spurious))
    print("%s: held on everything explored: %d paths, %d checks, %d solver queries, %.1fs solver, %.1fs" % (
        prop, tot("paths"), tot("obligations"), tot("queries"), tot("solver_s"), wall))
    return 0


COMMON_ASSUMPTIONS = [
    "floating-point numbers are modelled as real numbers; a violation must exceed a relative margin",
    "symbolic characters range over the stated alphabets; numbers over the stated ranges",
    "text of a formatted real carries the rounded value r with |r-x| <= 0.5*10^-p*|x|; its digits are not modelled one by one",
    "files are in-memory stubs in the symbolic run; replays use real files",
]


def run_selected(prop, idx, tier, seed, budgets, ncpu):
    ctx = mp.get_context("fork")
    results = {}
    pending = sorted(idx, key=lambda i: -budgets[i])
    live = {}
    end = time.time() + (600 if tier == "quick" else 1e5)
    while pending or live:
        if time.time() > end:
            for i in pending:
                results[i] = {"harness": "job %d" % i, "stuck": True, "crash": None}
            pending = []
        while pending and len(live) < ncpu:
            i = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_explore, args=(prop, i, tier, seed, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        ready = mpc.wait([v[1] for v in live.values()], timeout=0.5)
        for i in list(live):
            p, a, t = live[i]
            done = False
            if a in ready:
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = {"harness": "job %d" % i, "crash": "worker died"}
                done = True
            elif time.time() - t > budgets[i] * 1.5 + 30 or time.time() > end:
                results[i] = {"harness": "job %d" % i, "stuck": True, "crash": None}
                done = True
            if done:
                p.kill()
                p.join()
                a.close()
                del live[i]
    return [results[i] for i in sorted(results)]


def selftest():
    """Setup: nothing is built ahead, the encoding is regenerated by each check."""
    if Z3DIR not in sys.path:
        sys.path.append(Z3DIR)
    from . import loader
    import z3

    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x == 2, x > 0)
    ok = s.check() == z3.sat
    print("z3", z3.get_version_string(), "repo", loader.REPO, "ok" if ok else "FAILED")
    return 0 if ok else 1
