"""
Runs the harnesses of a check: explores all the paths of every harness on all
cores, replays counterexamples on concrete values in a fresh process, writes the
evidence and prints the verdict.
"""

import concurrent.futures as cf
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Harness:
    def __init__(self, name, fn, quick, thorough=None, *, bounds, covers=(),
                 crashy=False, about="", path_timeout=20, serial=False):
        """
        fn(E, **params); quick/thorough: list of params (one exploration each)
        """
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.bounds = bounds
        self.covers = covers
        self.crashy = crashy
        self.about = about
        self.path_timeout = path_timeout

    def params(self, tier):
        return self.thorough if tier == "thorough" else self.quick


class Check:
    def __init__(self, property, harnesses, *, module, assumptions=(), stubs=()):
        self.property = property
        self.harnesses = harnesses
        self.module = module
        self.assumptions = list(assumptions)
        self.stubs = list(stubs)


# -- coverage of the code under test ------------------------------------------

TOOL = 3
FUNCS = set()
LINES = set()


def start_coverage():
    mon = sys.monitoring
    try:
        mon.use_tool_id(TOOL, "symx")
    except ValueError:
        return
    prefix = os.path.join(os.path.realpath(REPO), "collagraph") + os.sep

    def on_start(code, offset):
        fn = code.co_filename
        if fn.startswith(prefix):
            FUNCS.add((fn[len(prefix):], code.co_qualname, code.co_firstlineno))
        elif fn == "<template>":
            FUNCS.add((fn, code.co_qualname, code.co_firstlineno))
        return mon.DISABLE

    def on_line(code, line):
        if code.co_filename.startswith(prefix):
            LINES.add((code.co_filename[len(prefix):], line))
        return mon.DISABLE

    mon.register_callback(TOOL, mon.events.PY_START, on_start)
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.PY_START | mon.events.LINE)


# -- worker side -----------------------------------------------------------------

CHECK = None
CRASH_DIR = None


def init_worker(crash_dir):
    global CRASH_DIR
    CRASH_DIR = crash_dir
    # Scratch directories of harnesses are removed in the end, whatever happens
    tempfile.tempdir = crash_dir
    sys.setrecursionlimit(1500)
    gc.collect()
    gc.freeze()
    gc.disable()
    start_coverage()


def _engine(h):
    eng = engine.SymEngine(path_timeout=h.path_timeout)
    return eng


def _finish(eng, h, exhaustive, error=None):
    return dict(
        stats=eng.stats, covers=eng.covers, exhaustive=exhaustive, error=error,
        violations=[(v.message, v.inputs) for v in eng.violations],
        samples=eng.samples, max_len=eng.max_len,
        funcs=sorted(FUNCS), lines=len(LINES), lineset=sorted(LINES), wall=0,
        validate=getattr(eng, "validate", []),
    )


def task_frontier(hi, params, count):
    h = CHECK.harnesses[hi]
    eng = _engine(h)
    if h.crashy:
        eng.crash_file = os.path.join(CRASH_DIR, f"{os.getpid()}.json")
        eng.crash_info = dict(harness=h.name, params=params)
    try:
        prefixes = eng.frontier(h.fn, params, count)
        gc.collect()
        return prefixes, _finish(eng, h, True)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return None, _finish(eng, h, False, f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4))


def task_explore(hi, params, prefix, deadline, max_paths, seed):
    h = CHECK.harnesses[hi]
    eng = _engine(h)
    eng.validate = []
    rnd = random.Random(seed)
    if h.crashy:
        eng.crash_file = os.path.join(CRASH_DIR, f"{os.getpid()}.json")
        eng.crash_info = dict(harness=h.name, params=params)
    if time.time() > deadline:
        return _finish(eng, h, False)

    def after(n):
        if n % 25 == 0:
            gc.collect()
        # Some paths are validated by running them on concrete values
        if (n == 1 or rnd.random() < 1 / 400) and len(eng.validate) < 3:
            if not eng.violations:
                try:
                    eng.validate.append(eng.concretize())
                except BaseException:
                    pass

    try:
        exhaustive = eng.explore(h.fn, params, prefix, max_paths, deadline, after_path=after)
        gc.collect()
        res = _finish(eng, h, exhaustive)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        res = _finish(eng, h, False, f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4))
    # Validate sampled paths on concrete values
    validated = 0
    for inputs in eng.validate:
        r = run_concrete(h, params, inputs)
        if r is None:
            validated += 1
        elif r != "infeasible" and not res["violations"]:
            res["violations"].append((r, inputs))
        elif r == "infeasible":
            res["stats"]["infeasible_validations"] = res["stats"].get("infeasible_validations", 0) + 1
    res["validated"] = validated
    gc.collect()
    return res


def run_concrete(h, params, inputs):
    """Returns None (holds) or the message of the failure"""
    eng = engine.ConcreteEngine(inputs)
    engine.ENG = eng
    try:
        h.fn(eng, **params)
    except engine.PathAbort:
        return "infeasible"
    except engine.CheckFailed as e:
        return str(e)
    except Exception as e:
        return f"unexpected {type(e).__name__}: {str(e)[:300]}"
    return None


# -- parent side ---------------------------------------------------------------------


def load_known(property):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={property} " in line + " ":
                out.append(line)
    return out


def replay_file(check, h, params, inputs, message):
    blob = dict(property=check.property, module=check.module, harness=h.name,
                params=params, inputs=inputs, message=message)
    data = json.dumps(blob, indent=1, sort_keys=True, default=str)
    digest = hashlib.sha1(data.encode()).hexdigest()[:10]
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{check.property}-{h.name}-{digest}.json")
    with open(path, "w") as f:
        f.write(data)
    return path


def replay(path, timeout=90):
    """Replays in a fresh process. Returns (reproduced, output)"""
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(VERIF, "replay.py"), path],
            capture_output=True, text=True, timeout=timeout, cwd=VERIF,
        )
    except subprocess.TimeoutExpired:
        return True, "does not terminate"
    if p.returncode == 1 and "REPRODUCED" in p.stdout:
        return True, p.stdout.strip().splitlines()[-1]
    if p.returncode < 0:
        return True, f"crashed with signal {-p.returncode}"
    return False, (p.stdout + p.stderr)[-2000:]


def merge_stats(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def run_check(check, tier, seed, only=None, budget=None, procs=None, verbose=False):
    global CHECK
    CHECK = check
    t0 = time.time()
    budget = budget or (420 if tier == "quick" else 3000)
    deadline = t0 + budget
    procs = procs or int(os.environ.get("VERIF_PROCS", 0)) or min(8, os.cpu_count() or 1)
    crash_dir = tempfile.mkdtemp(prefix="symx-")
    ctx = mp.get_context("fork")
    per = {}
    funcs, lineset = set(), set()
    errors = []
    candidates = []  # (harness, params, message, inputs)
    pool = None

    def new_pool():
        return cf.ProcessPoolExecutor(procs, mp_context=ctx, initializer=init_worker,
                                      initargs=(crash_dir,))

    jobs = []
    for hi, h in enumerate(check.harnesses):
        if only and only not in h.name:
            continue
        for params in h.params(tier):
            jobs.append((hi, params))
    key = lambda hi, params: f"{check.harnesses[hi].name}({', '.join(f'{k}={v}' for k, v in params.items())})"
    bounds_of = {key(hi, params): check.harnesses[hi].bounds for hi, params in jobs}
    for hi, params in jobs:
        per[key(hi, params)] = dict(stats={}, covers={}, exhaustive=True, samples=[],
                                    max_len=0, validated=0, tasks=0, busy_s=0.0)

    def absorb(hi, params, res):
        d = per[key(hi, params)]
        merge_stats(d["stats"], res["stats"])
        merge_stats(d["covers"], res["covers"])
        d["exhaustive"] = d["exhaustive"] and res["exhaustive"] and not res["error"]
        d["max_len"] = max(d["max_len"], res["max_len"])
        d["validated"] += res.get("validated", 0)
        for s in res["samples"]:
            if len(d["samples"]) < 2:
                d["samples"].append(s)
        funcs.update(map(tuple, res["funcs"]))
        lineset.update(map(tuple, res["lineset"]))
        if res["error"]:
            errors.append((key(hi, params), res["error"]))
        for m, i in res["violations"]:
            candidates.append((check.harnesses[hi], params, m, i))

    def harvest_crash():
        """A worker died: find out on which inputs"""
        n = 0
        for name in os.listdir(crash_dir):
            try:
                if not name.endswith(".json"):
                    continue
                blob = json.load(open(os.path.join(crash_dir, name)))
            except Exception:
                continue
            for h in check.harnesses:
                if h.name == blob["harness"]:
                    candidates.append((h, blob["params"], "the process crashed", blob["inputs"]))
                    n += 1
        if not n:
            errors.append(("pool", "a worker died"))

    stop = False
    try:
        pool = new_pool()
        todo = []
        futs = {pool.submit(task_frontier, hi, params, 6 * procs): (hi, params) for hi, params in jobs}
        for f in cf.as_completed(futs):
            hi, params = futs[f]
            prefixes, res = f.result()
            d = per[key(hi, params)]
            d["frontier_queries"] = res["stats"]["queries"]
            if res["violations"]:
                absorb(hi, params, res)
                stop = True
                continue
            if prefixes is None:
                absorb(hi, params, res)
                stop = True
                continue
            for p in prefixes:
                todo.append((hi, params, p))
        if not stop:
            # Interleave the harnesses, so every one gets its share
            random.Random(seed).shuffle(todo)
            futs = {}
            for n, (hi, params, p) in enumerate(todo):
                f = pool.submit(task_explore, hi, params, p, deadline, None, seed * 1000003 + n)
                futs[f] = (hi, params)
            for f in cf.as_completed(futs):
                hi, params = futs[f]
                res = f.result()
                per[key(hi, params)]["tasks"] += 1
                absorb(hi, params, res)
                if (candidates or errors) and not stop:
                    stop = True
                    for g in futs:
                        g.cancel()
                    break
        if stop:
            # Let go of the workers, the verdict only needs the counterexample
            procs_ = list((pool._processes or {}).values())
            pool.shutdown(wait=False, cancel_futures=True)
            for p in procs_:
                p.kill()
        else:
            pool.shutdown()
    except cf.process.BrokenProcessPool:
        harvest_crash()
        stop = True
    finally:
        shutil.rmtree(crash_dir, ignore_errors=True)

    # Replay the counterexamples
    violations, spurious, known = [], [], []
    findings = load_known(check.property)
    seen = set()
    for h, params, message, inputs in candidates:
        if len(seen) >= 12:
            break
        variant = (message, json.dumps(inputs, sort_keys=True))
        if variant in seen:
            continue
        seen.add(variant)
        path = replay_file(check, h, params, inputs, message)
        ok, out = replay(path)
        if ok:
            violations.append((path, message, out))
            break
        spurious.append((path, message, out))

    # Vacuity
    vacuous = []
    if not stop:
        for hi, params in jobs:
            h = check.harnesses[hi]
            d = per[key(hi, params)]
            if d["stats"].get("paths", 0) == 0 or d["stats"].get("checks", 0) == 0:
                if d["exhaustive"] or not any(x["stats"].get("checks", 0) for x in per.values()):
                    vacuous.append(f"{key(hi, params)}: no path reaches an assertion")
                else:
                    print(f"NOT EXPLORED: {key(hi, params)}: out of time")
        if all(d["exhaustive"] for d in per.values()):
            for h in check.harnesses:
                if only and only not in h.name:
                    continue
                got = {}
                for params in h.params(tier):
                    merge_stats(got, per[f"{h.name}({', '.join(f'{k}={v}' for k, v in params.items())})"]["covers"])
                for label in h.covers:
                    if not got.get(label):
                        vacuous.append(f"{h.name}: '{label}' is not covered")

    total = {}
    for d in per.values():
        merge_stats(total, d["stats"])
    wall = time.time() - t0
    validated = sum(d["validated"] for d in per.values())
    exhaustive = all(d["exhaustive"] for d in per.values()) and not stop
    evidence = dict(
        property=check.property, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            technique="symbolic execution of the real code, every branch and every assertion decided by z3",
            states=int(total.get("decisions", 0)) + int(total.get("paths", 0)),
            transitions=int(total.get("decisions", 0)),
            traces_validated_against_impl=validated,
            exhaustive=bool(exhaustive),
            paths=total.get("paths", 0),
            infeasible_paths=total.get("aborted", 0),
            queries=total.get("queries", 0),
            queries_sat=total.get("sat", 0),
            queries_unsat=total.get("unsat", 0),
            assertions=total.get("checks", 0),
            solver_s=round(total.get("solver_s", 0.0), 3),
            functions_encoded=[f"{f}:{l} {q}" for f, q, l in sorted(funcs)][:250],
            functions_encoded_count=len(funcs),
            lines_encoded=len(lineset),
            harnesses=[
dict(name=k, bounds=bounds_of[k],
                     paths=d["stats"].get("paths", 0), queries=d["stats"].get("queries", 0),
                     solver_s=round(d["stats"].get("solver_s", 0), 3),
                     longest_path_decisions=d["max_len"], exhaustive=d["exhaustive"],
                     covers=d["covers"], validated_concretely=d["validated"])
                for k, d in per.items()
            ],
            samples=[s for d in per.values() for s in d["samples"]][:6],
            stubs=check.stubs,
            reachability_witness={k: d["stats"].get("checks", 0) for k, d in per.items()},
        ),
        assumptions=check.assumptions,
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", f"{check.property}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)

    if verbose or only:
        for k, d in per.items():
            print(f"  {k}: paths={d['stats'].get('paths', 0)} queries={d['stats'].get('queries', 0)} "
                  f"solver={d['stats'].get('solver_s', 0):.2f}s aborted={d['stats'].get('aborted', 0)} "
                  f"len={d['max_len']} exhaustive={d['exhaustive']} covers={d['covers']} validated={d['validated']}")
    print(f"{check.property} [{tier}]: {total.get('paths', 0)} paths, {total.get('queries', 0)} queries, "
          f"{total.get('checks', 0)} assertions, solver {total.get('solver_s', 0):.1f}s, wall {wall:.1f}s, "
          f"exhaustive={exhaustive}, {len(funcs)} functions, validated {validated}")

    for line in findings:
        # finding: property=<id> <what fails>
        print("KNOWN-FINDING: " + line[len("finding:"):].strip())
    if violations:
        path, message, out = violations[0]
        print(f"counterexample: {message}")
        print(f"replay: {out}")
        print(f"VIOLATION property={check.property} replay={path}")
        return 1
    if spurious:
        for path, message, out in spurious:
            print(f"INCONCLUSIVE: counterexample does not reproduce: {message} ({path})\n{out}")
        return 2
    if errors:
        for k, e in errors[:3]:
            print(f"ERROR in {k}: {e}")
        return 2
    if vacuous:
        for v in vacuous:
            print(f"VACUOUS: {v}")
        return 2
    return 0
