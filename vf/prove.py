"""The verifier: every obligation of a property, generated from the IR of /repo's current
source and discharged (or not) in parallel worker processes.

prove(run, ir, driver) is what a check calls; 'prove.py IR PROPERTY TIER SEED' is the
verifier process it starts, which prints one JSON line per task."""
import collections
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time
import traceback

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["prove"] = sys.modules["__main__"]
sys.setrecursionlimit(100000)

import plan

BUDGET = {"quick": 420, "thorough": 2400}      # seconds of wall clock for the verifier
ENOUGH = 24                                    # refuted obligations after which the rest is left
TASK = {"quick": 150, "thorough": 900}         # seconds for one task


# ------------------------------------------------------------------------ in the checking process
class Proof:
    def __init__(self):
        self.tasks = []
        self.level = "other"
        self.error = None
        self.wall = 0
        self.cmd = ""
        self.refuted = self.replayed = 0

    @property
    def failed(self):
        return [f for t in self.tasks for f in t["failed"]]

    @property
    def undecided(self):
        return [(t["name"], u) for t in self.tasks for u in t["undecided"]]

    def counts(self):
        ok = sum(sum(t["obl"].values()) for t in self.tasks)
        return ok, ok + len(self.failed) + len(self.undecided)

    def lines(self):
        ok, n = self.counts()
        out = ["verifier: %d tasks, %d of %d obligations discharged, %d refuted, %d undecided (%.1f s, %d solver queries)" % (
            len(self.tasks), ok, n, len(self.failed), len(self.undecided), self.wall, sum(t["queries"] for t in self.tasks))]
        for t in self.tasks:
            for f in t["failed"][:2]:
                out.append("  failed obligation: %s: %s: %s" % (t["name"][:200], f["kind"], f["what"]))
        seen = set()
        for n, u in self.undecided:
            if u not in seen and len(seen) < 8:
                seen.add(u)
                out.append("  undecided: %s: %s" % (n[:120], u[:300]))
        if self.error:
            out.append("  verifier stopped: " + self.error)
        return out

    def complete(self):
        return bool(self.tasks) and not self.error and not self.undecided

    def coverage(self):
        ok, n = self.counts()
        kinds = collections.Counter()
        fns, contracts, bounded = set(), set(), set()
        for t in self.tasks:
            kinds.update(t["obl"])
            fns |= set(t["inlined"])
            contracts |= set(t["contracts"])
            if t.get("bounded"):
                bounded.add("%s: %s" % (t["name"][:100], t["bounded"]))
        groups = collections.Counter()
        for k, v in kinds.items():
            groups[k if k in ("memory", "overflow", "division", "calendar", "frame", "no result", "exception") else
                   "postcondition"] += v
        return {"obligations": n, "discharged": ok, "checker_cmd": self.cmd,
                "trusted_base": TRUSTED,
                "obligations_by_kind": dict(groups), "verifier_tasks": len(self.tasks),
                "tasks": ["%s: %d paths, %d obligations, %.1f s" % (t["name"][:150], t["paths"], sum(t["obl"].values()), t["secs"])
                          for t in self.tasks][:120],
                "paths": sum(t["paths"] for t in self.tasks), "instructions": sum(t["steps"] for t in self.tasks),
                "solver_queries": sum(t["queries"] for t in self.tasks),
                "solver_unknown": sum(t["unknown"] for t in self.tasks),
                "verifier_cpu_s": round(sum(t["secs"] for t in self.tasks), 1),
                "back_ends": "z3 (linear integer arithmetic with calendar atoms), finite automata (texts)",
                "functions_executed": len(fns), "functions_of_the_repository": sorted(f for f in fns if f.startswith(("parser::", "parse::", "utils::", "refiner::", "Parser")))[:200],
                "library_functions_by_contract": sorted(contracts)[:200],
                "bounded_stand_ins": sorted(bounded),
                "undecided": ["%s: %s" % (a[:100], b[:200]) for a, b in self.undecided][:20],
                "failed": ["%s: %s" % (f["kind"], f["what"]) for f in self.failed][:20],
                "unreached": self.error}

    def assumptions(self):
        out = list(ASSUMED)
        notes = set()
        for t in self.tasks:
            notes |= set(t["notes"])
        return out + ["approximated on this run: " + x for x in sorted(notes)]


TRUSTED = [
    "clang 18 as the translator from the C++ sources to LLVM IR (built at -O0, nothing dropped)",
    "the symbolic interpreter of that IR (vf/engine.py) and the term language (vf/vals.py)",
    "the contracts of library functions in vf/models.py: std::string, std::regex, std::map, std::vector, streams, Boost.Date_Time calendar arithmetic",
    "z3 and the automaton library vf/lang.py",
]
ASSUMED = [
    "std::regex's matches are the matches of the expression (over-approximated: assertions and greediness are dropped, every split into groups is allowed)",
    "texts are shorter than 2^31 bytes, memory allocation succeeds, the locale is C",
    "the reference time lies in Boost's calendar, 1400-01-01 to 9999-12-31, with microseconds",
    "Boost.Date_Time's day numbers and calendar fields agree with the proleptic Gregorian calendar (monitored by the concrete suites)",
]


def prove(run, ir, drv):
    import conform
    p = Proof()
    t0 = time.time()
    cmd = [sys.executable, os.path.abspath(__file__), ir, run.prop, run.tier, str(run.seed)]
    p.cmd = "python3-vt vf/prove.py <IR of /repo> %s %s %d" % (run.prop, run.tier, run.seed)
    proc = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        out, err = proc.communicate(timeout=BUDGET[run.tier] + 90)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-KILL", "-P", str(proc.pid)])
        proc.kill()
        out, err = proc.communicate()
        p.error = "time limit"
    done = False
    for l in out.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if "done" in d:
                done = True
                p.error = p.error or d["done"]
            else:
                p.tasks.append(d)
    if not done and not p.error:
        p.error = "the verifier ended early: " + err[-800:]
    p.wall = time.time() - t0
    if p.complete() and not any(t.get("bounded") for t in p.tasks):
        p.level = "proof"
    else:
        p.level = "other"
    if not p.tasks and not p.error:
        return None                              # a property no contract decides
    replay(run, p, drv)
    if not p.tasks:
        run.notes.append("the verifier established nothing on this tree (%s): only the bounded comparison below was run" % p.error)
    return p


def replay(run, p, drv):
    """failed obligations: their counterexamples on the real code"""
    import conform
    import suites
    bad = [(t, f) for t in p.tasks for f in t["failed"]]
    p.refuted = len(bad)
    seen, reqs = set(), []
    for t, f in bad:
        for x in f.get("inputs", []):
            x = tuple(x)
            if x not in seen and len(seen) < 6000:
                seen.add(x)
                reqs.append((x, t, f))
    shown = 0
    if reqs:
        ans = drv.run(suites.request(x) for x, _, _ in reqs)
        for (x, t, f), a in zip(reqs, ans):
            msg = suites.judge(x, a)
            if msg:
                p.replayed += 1
                if shown < 5:
                    shown += 1
                    run.violations.append({"input": suites.request(x), "what": msg, "answer": a,
                                           "from": "obligation %s: %s (%s)" % (f["kind"], f["what"], t["name"][:300])})
    if bad and not shown:
        for t, f in bad:
            if f.get("soft"):
                continue
            run.violations.append({"input": None, "what": "failed obligation %s: %s; %s" % (f["kind"], f["what"], f.get("detail", "")),
                                   "answer": "the counterexamples of the verifier (over-approximated) did not fail when replayed",
                                   "from": t["name"][:400]})
            break


# ------------------------------------------------------------------------ in the verifier process
W = None


def tasks(prop):
    """[(name, function, arguments)] of a property"""
    import obligations
    return obligations.tasks(W, prop)


MEMORY = 3 << 30                               # bytes for one worker


class TooLong(Exception):
    pass


def started():
    """limits of a worker: a task that needs more is undecided"""
    import resource
    import signal
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))

    def late(*a):
        raise TooLong("time limit")
    signal.signal(signal.SIGALRM, late)


def work(a):
    name, fn, args, limit = a
    import signal
    import vals
    t0 = time.time()
    base = {"name": name, "obl": {}, "failed": [], "undecided": [], "paths": 0, "steps": 0, "queries": 0, "unknown": 0,
            "secs": 0, "notes": [], "inlined": [], "contracts": []}
    try:
        signal.alarm(int(limit) + 30)
        d = fn(W, args, t0 + limit)
        signal.alarm(0)
        base.update(d)
    except (Exception, MemoryError) as x:
        signal.alarm(0)
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        base["undecided"].append("%s: %s" % (type(x).__name__, str(x)[:300]))
    base["name"] = name
    base["secs"] = round(time.time() - t0, 2)
    return base


def main():
    global W
    ir, prop, tier, seed = sys.argv[1:5]
    random.seed(int(seed))
    t0 = time.time()
    import gc
    import world
    W = world.World(ir)
    import obligations
    ts = obligations.tasks(W, prop)
    gc.freeze()
    end = t0 + BUDGET[tier]
    err = None
    only = os.environ.get("VERIF_ONLY")
    if only:
        ts = [t for t in ts if only in t[0]]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(8, started, maxtasksperchild=4) as pool:
        rs = [(t[0], pool.apply_async(work, ((t[0], t[1], t[2], TASK[tier]),))) for t in ts]
        failed = 0
        for name, r in rs:
            if failed > ENOUGH and not r.ready():
                err = "stopped after %d refuted obligations" % failed
                break
            try:
                d = r.get(max(0.5, end - time.time()))
                failed += len([f for f in d["failed"] if not f.get("soft")])
                print(json.dumps(d, default=str), flush=True)
            except multiprocessing.TimeoutError:
                print(json.dumps({"name": name, "obl": {}, "failed": [], "undecided": ["not finished within the time limit"],
                                  "paths": 0, "steps": 0, "queries": 0, "unknown": 0, "secs": 0, "notes": [], "inlined": [],
                                  "contracts": []}), flush=True)
        pool.terminate()
    print(json.dumps({"done": err}), flush=True)


if __name__ == "__main__":
    main()
