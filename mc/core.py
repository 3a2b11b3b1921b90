"""Explorer core shared by all checks.

A check module enumerates a finite space of cases completely (``jobs(tier)``
splits it, ``run_job(job, ctx)`` walks one part), runs the real code of /repo
on every case and compares with a reference model. This module distributes the
jobs over processes, collects counts, matches known findings, writes replay
artefacts and the evidence file.
"""
import fnmatch
import hashlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
REPLAYS = VERIF / "replays"
KNOWN = VERIF / "known_findings.txt"
MAX_PER_JOB = 5
N_PROCS = int(os.environ.get("VERIF_PROCS", "0")) or max(1, min(8, os.cpu_count() or 1))
STALL_SECONDS = float(os.environ.get("VERIF_STALL", "0"))


def digest(obj):
    return int(hashlib.md5(repr(obj).encode()).hexdigest()[:15], 16)


class Violated(Exception):
    """Raised by Ctx.require to abandon a case"""


class Ctx(object):
    """Collects what one job covered and what it found"""

    def __init__(self, prop, job, tier, verbose=False):
        self.prop = prop
        self.job = job
        self.tier = tier
        self.verbose = verbose
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.nontrivial = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.n_violations = 0
        self._case = None
        self._scratch = []
        self._in_case = False

    # -- coverage
    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def state(self, canonical):
        """Register a canonical state, returns True when it is new to this job"""
        key = digest(canonical)
        if key in self.states:
            return False
        self.states.add(key)
        return True

    def nontriv(self, key):
        self.nontrivial.add(digest(key))

    def outcome(self, key):
        self.outcomes.add(digest(key))

    # -- verdicts
    def fail(self, key, what, case=None):
        self.n_violations += 1
        if case is None:
            case = self._case
        if len(self.violations) < MAX_PER_JOB or key not in {
            x["key"] for x in self.violations
        }:
            if len(self.violations) < 60:
                self.violations.append({"key": key, "what": what, "case": case})
        if self.verbose:
            print(f"  {key}: {what}\n    case: {case}")

    def check(self, cond, key, what="", case=None):
        if not cond:
            if callable(what):
                what = what()
            self.fail(key, what, case)
            return False
        return True

    def require(self, cond, key, what="", case=None):
        if not self.check(cond, key, what, case):
            raise Violated(key)

    def case(self, case, fn, *args, nontrivial=True, key="exception"):
        """Evaluate one case; an exception out of it is a violation"""
        self.evaluations += 1
        self._case = case
        if nontrivial:
            self.nontriv(case)
        if len(self.samples) < 1:
            self.samples.append(case)
        try:
            return fn(*args)
        except Violated:
            return None
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            where = [x.strip() for x in tb if "File" in x][-3:]
            self.fail(key, f"{type(e).__name__}: {e} [{'; '.join(where)}]", case)
            return None
        finally:
            self._case = None

    def refuses(self, fn, key, what, exc=Exception, case=None):
        """The call must raise"""
        try:
            fn()
        except exc:
            return True
        self.fail(key, what, case)
        return False

    # -- scratch directories, removed at the end of the job
    def scratch(self):
        d = Path(tempfile.mkdtemp(prefix=f"verif_{self.prop}_"))
        self._scratch.append(d)
        return d

    def drop(self, d):
        if d in self._scratch:
            shutil.rmtree(str(d), ignore_errors=True)
            self._scratch.remove(d)

    def cleanup(self):
        for d in list(self._scratch):
            self.drop(d)

    def result(self):
        return {
            "evaluations": self.evaluations,
            "transitions": self.transitions,
            "traces": self.traces,
            "states": self.states,
            "nontrivial": self.nontrivial,
            "outcomes": self.outcomes,
            "samples": self.samples,
            "violations": self.violations,
            "n_violations": self.n_violations,
            "job": self.job,
        }


_module = None
_tier = None


def _worker(job):
    sys.stderr = open(os.devnull, "w")  # progress bars
    ctx = Ctx(_module.ID, job, _tier)
    try:
        _module.run_job(job, ctx)
    except Violated:
        pass
    except Exception as e:
        ctx.fail(
            "exception-in-job",
            f"{type(e).__name__}: {e} [{traceback.format_exc()[-600:]}]",
            {"job": job},
        )
    finally:
        ctx.cleanup()
    return ctx.result()


def load_known(prop):
    """Known findings are lines 'finding: property=<id> key=<pattern> <what>'"""
    out = []
    if not KNOWN.exists():
        return out
    for line in KNOWN.read_text().splitlines():
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        fields = line[len("finding:"):].strip().split(None, 2)
        if len(fields) < 2 or fields[0] != f"property={prop}":
            continue
        assert fields[1].startswith("key=")
        what = fields[2] if len(fields) > 2 else ""
        out.append({"pattern": fields[1][4:], "what": what, "hit": False})
    return out


def run(module, tier, seed, replay=None):
    global _module, _tier
    _module, _tier = module, tier
    prop = module.ID
    start = time.time()
    REPLAYS.mkdir(exist_ok=True)
    EVIDENCE.mkdir(exist_ok=True)

    if replay is not None:
        info = json.loads(Path(replay).read_text())
        _tier = info.get("tier", tier)
        ctx = Ctx(prop, info["job"], _tier, verbose=True)
        try:
            module.run_job(info["job"], ctx)
        except Exception:
            traceback.print_exc()
            ctx.n_violations += 1
        finally:
            ctx.cleanup()
        print(f"replayed job {info['job']}: {ctx.n_violations} violation(s)")
        return 1 if ctx.n_violations else 0

    results = []
    stalled = died = False
    try:
        if hasattr(module, "prepare"):
            module.prepare(tier)
        jobs = list(module.jobs(tier))
    except Exception as e:
        # the explorer's starting objects are made by the code under test
        ctx = Ctx(prop, None, tier)
        ctx.evaluations = 1
        ctx.fail("exception-in-setup", f"{type(e).__name__}: {e} [{traceback.format_exc()[-600:]}]", {"setup": tier})
        results.append(ctx.result())
        jobs = []
    if len(jobs) <= 1 or N_PROCS == 1:
        for job in jobs:
            results.append(_worker(job))
    else:
        stall = STALL_SECONDS or (600.0 if tier == "quick" else 6 * 3600.0)
        pool = multiprocessing.get_context("fork").Pool(N_PROCS)
        pending = pool.imap_unordered(_worker, jobs, chunksize=1)
        workers = {p.pid for p in pool._pool}
        while len(results) < len(jobs):
            try:
                results.append(pending.next(timeout=5.0))
            except multiprocessing.TimeoutError:
                died = {p.pid for p in pool._pool} != workers
                if died or time.time() - start > stall:
                    stalled = True
                    pool.terminate()
                    break
        else:
            pool.close()
        pool.join()

    total = {"evaluations": 0, "transitions": 0, "traces": 0, "n_violations": 0}
    states, nontrivial, outcomes, samples, violations = set(), set(), set(), [], []
    for res in results:
        for k in total:
            total[k] += res[k]
        # states are canonical over the whole run, not per job
        states |= res["states"]
        nontrivial |= res["nontrivial"]
        outcomes |= res["outcomes"]
        if len(samples) < 6:
            samples.extend(res["samples"][:1])
        for v in res["violations"]:
            v["job"] = res["job"]
            violations.append(v)
    if stalled:
        done = {json.dumps(r["job"], default=str) for r in results}
        lost = [j for j in jobs if json.dumps(j, default=str) not in done]
        violations.append(
            {
                "key": "no-termination",
                "what": f"jobs {'whose process died or that were pending then' if died else 'that did not finish within the time limit'}: {lost[:8]}",
                "case": lost[:8],
                "job": lost[0] if lost else None,
            }
        )
        total["n_violations"] += 1

    known = load_known(prop)
    fresh = []
    for v in violations:
        for k in known:
            if fnmatch.fnmatchcase(v["key"], k["pattern"]):
                k["hit"] = True
                break
        else:
            fresh.append(v)
    for k in known:
        if k["hit"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    wall = time.time() - start
    level = module.LEVEL
    coverage = {
        "rule": module.RULE,
        "samples": samples[:4] or ["none"],
        "exhaustive": not stalled,
        "jobs": len(jobs),
        "distinct_outcomes": len(outcomes),
    }
    if level == "model_checking":
        coverage.update(
            states=len(states),
            transitions=total["transitions"],
            traces_validated_against_impl=total["traces"],
        )
        if total["evaluations"]:
            coverage["evaluations"] = total["evaluations"]
    else:
        coverage.update(
            evaluations=total["evaluations"], distinct_nontrivial=len(nontrivial)
        )
        if states:
            coverage["distinct_states"] = len(states)
    bounds = getattr(module, "BOUNDS", None)
    if bounds is not None:
        coverage["bounds"] = bounds(tier) if callable(bounds) else bounds
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": list(module.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    (EVIDENCE / f"{prop}.json").write_text(
        json.dumps(evidence, indent=1, default=str) + "\n"
    )
    print(
        f"{prop} {tier}: evaluations={total['evaluations']} nontrivial={len(nontrivial)}"
        f" states={len(states)} transitions={total['transitions']}"
        f" outcomes={len(outcomes)} violations={total['n_violations']}"
        f" wall={wall:.1f}s"
    )
    if not fresh:
        if total["n_violations"] > 0 and not any(k["hit"] for k in known):
            print("internal error: violations lost")
            return 2
        if total["evaluations"] + total["transitions"] == 0:
            print("internal error: nothing explored")
            return 2
        return 0
    seen = set()
    for v in fresh:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        if len(seen) > 8:
            break
        path = REPLAYS / f"{prop}_{digest(v['key']) % 10**8:08d}.json"
        path.write_text(
            json.dumps(
                {
                    "property": prop,
                    "tier": tier,
                    "key": v["key"],
                    "what": v["what"],
                    "case": v["case"],
                    "job": v["job"],
                    "how": f"./run.sh {prop} {tier} --replay {path}",
                },
                indent=1,
                default=str,
            )
            + "\n"
        )
        print(f"  [{v['key']}] {v['what']}")
        print(f"    case: {v['case']}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1


def import_failed(prop, tier, seed, e):
    REPLAYS.mkdir(exist_ok=True)
    EVIDENCE.mkdir(exist_ok=True)
    what = f"{type(e).__name__}: {e} [{traceback.format_exc()[-900:]}]"
    path = REPLAYS / f"{prop}_import.json"
    path.write_text(json.dumps({"property": prop, "tier": tier, "key": "exception-on-import", "what": what}) + "\n")
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {"explanation": "the code could not be imported, nothing explored", "samples": [what]},
        "assumptions": [],
        "wall_s": 0.0,
        "violations": 1,
    }
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")
    print(f"  [exception-on-import] {what}")
    print(f"VIOLATION property={prop} replay={path}")
