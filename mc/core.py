"""Bounded exhaustive exploration of the real implementation: engine.

A check is a module of mc/checks with

    PROPERTY : the property id
    RULE     : what the explored space is, and the bound
    tasks(tier) -> list of (weight, function name, kwargs)

Every task enumerates completely one slice of the state space of the property, executes the real code
from /repo on every state of it and compares each observation with a reference model.  Tasks are
deterministic, take no random input and are independent: the engine only distributes them over worker
processes.  A task that raises, or kills or hangs its worker, is a violation as well: within the stated
domain of every property the library has to return a result.
"""

import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# seconds: far beyond what any task takes
TASK_LIMIT = {"quick": 450, "thorough": 2400}
START = time.time()
DEADLINE = dict(quick=760, thorough=5 * 3600)  # s; reached only on machines several times slower
WARM_LIMIT = 300

_scratch = None

# properties whose kernels are too slow to compile with LLVM optimisation (same program, unoptimised)
ENV = {"C04": {"NUMBA_OPT": "0"}, "C09": {"NUMBA_OPT": "0"}, "C18": {"NUMBA_OPT": "0"}}


def prepare(prop=None):
    """Import the library from /repo's working tree with no stale cache of any kind."""
    global _scratch
    os.environ.update(ENV.get(prop, {}))
    _scratch = tempfile.mkdtemp(prefix="verif-mc-")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(_scratch, "numba")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ["MPLBACKEND"] = "Agg"
    sys.pycache_prefix = os.path.join(_scratch, "pyc")
    sys.path.insert(0, REPO)
    import warnings

    warnings.filterwarnings("ignore")
    import interpolation

    assert os.path.realpath(interpolation.__file__).startswith(
        os.path.realpath(REPO) + os.sep
    ), interpolation.__file__
    return _scratch


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


class Rec:
    """What one task did.  states: distinct model states visited (the task enumerates them without
    repetition); transitions: steps executed by the implementation; traces: complete model traces
    (a batch of locations, a call history, a schedule) whose observations were all compared."""

    MAXV = 4

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.nontrivial = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.counters = collections.Counter()

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violate(self, what, key=None, **detail):
        if len(self.violations) < self.MAXV:
            self.violations.append(
                dict(what=what, key=key or what, detail=_jsonable(detail))
            )

    def outcome(self, *arrays):
        """Remember a digest of observed values: shows that the exploration is not vacuous."""
        if len(self.outcomes) < 200000:
            h = hashlib.blake2b(digest_size=8)
            for a in arrays:
                h.update(repr(a).encode() if not hasattr(a, "tobytes") else a.tobytes())
            self.outcomes.add(h.digest())

    def pack(self):
        return dict(
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            nontrivial=self.nontrivial,
            outcomes=list(self.outcomes),
            samples=self.samples,
            violations=self.violations,
            counters=dict(self.counters),
        )


def _jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist()) if x.size <= 400 else f"array{x.shape}"
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def run_task(modname, fn, kwargs):
    mod = importlib.import_module(modname)
    rec = Rec()
    try:
        getattr(mod, fn)(rec, **kwargs)
    except Exception as e:
        tb = traceback.format_exc()
        rec.violate(
            f"exception: {type(e).__name__}: {str(e).strip()[:400]}",
            key=f"exception:{fn}",
            traceback=tb[-3000:],
        )
    return rec.pack()


def _worker(conn, modname):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        msg = conn.recv()
        if msg is None:
            return
        i, fn, kwargs = msg
        t = time.time()
        res = run_task(modname, fn, kwargs)
        if os.environ.get("VERIF_TIMES"):
            print(f"{time.time() - t:7.2f}s {fn} {kwargs}", flush=True)
        conn.send((i, res))


def explore(modname, tasks, nproc, limit, known=(), deadline=float("inf")):
    """Run all tasks; yields (index, packed result).  After a violation no further task is started and
    those running get another minute.  At the deadline (a safeguard for slow machines) exploration stops;
    the evidence then says that it is not complete."""
    ctx = multiprocessing.get_context("fork")
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i][0])
    queue = collections.deque(order)
    workers = {}  # conn -> [process, task index or None, start]

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, modname), daemon=False)
        p.start()
        b.close()
        workers[a] = [p, None, 0.0]
        return a

    def feed(c):
        w = workers[c]
        if queue:
            i = queue.popleft()
            w[1], w[2] = i, time.time()
            c.send((i, tasks[i][1], tasks[i][2]))
        else:
            c.send(None)
            w[0].join()
            del workers[c]
            c.close()

    def lost(c, why):
        p, i, _ = workers.pop(c)
        c.close()
        r = Rec()
        r.violate(f"{why} in task {tasks[i][1]} {tasks[i][2]}", key=f"lost:{tasks[i][1]}")
        if queue:
            feed(spawn())
        return i, r.pack()

    for _ in range(min(nproc, len(tasks))):
        feed(spawn())
    while workers:
        ready = multiprocessing.connection.wait(list(workers), timeout=5)
        for c in ready:
            try:
                i, res = c.recv()
            except (EOFError, ConnectionResetError):
                p = workers[c][0]
                p.join(10)
                queue.clear()
                yield lost(c, f"worker process died (exit code {p.exitcode})")
                continue
            if any(v["key"] not in known for v in res["violations"]):
                queue.clear()
                deadline = min(deadline, time.time() + 60)
            feed(c)
            yield i, res
        now = time.time()
        if now > deadline and workers:
            queue.clear()
            for c, w in workers.items():
                w[0].kill()
                w[0].join()
            return
        hung = [c for c, w in workers.items() if now - w[2] > limit]
        if hung:
            queue.clear()
            for c, w in workers.items():
                w[0].kill()
                w[0].join()
            for c in hung:
                yield lost(c, f"no answer after {limit} s")
            return


def known_findings(prop):
    """Keys listed as 'known: property=<id> key=<key> ...' (fixed entries suppress nothing)."""
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("known:") and f"property={prop} " in line:
                rest = line.split("key=", 1)[1].strip()
                key, _, text = rest.partition(" ")
                keys[key] = text
    return keys


def main(prop, tier):
    """The check proper runs in a child process: if preparing it (compiling what all tasks need, before
    worker processes are forked) dies or hangs, everything runs again with each task on its own."""
    ready, done = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        os.close(ready)
        rc = 3
        try:
            rc = check(prop, tier, done)
        except BaseException:
            traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    os.close(done)
    ok = multiprocessing.connection.wait([ready], timeout=WARM_LIMIT) and os.read(ready, 1)
    if not ok:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        return check(prop, tier, None)
    try:
        status = os.waitpid(pid, 0)[1]
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)  # grandchildren of workers that were stopped
        except OSError:
            pass
    return os.WEXITSTATUS(status) if os.WIFEXITED(status) else 3


def check(prop, tier, started):
    t0 = START
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    modname = f"mc.checks.{prop.lower()}"
    prepare(prop)
    try:
        mod = importlib.import_module(modname)
        tasks = mod.tasks(tier)
        if hasattr(mod, "warm") and started is not None:
            try:
                mod.warm()
            except Exception:
                pass  # the tasks will tell
        if started is not None:
            os.write(started, b"1")
        tot = Rec()
        outcomes = set()
        viol = []
        nproc = int(os.environ.get("VERIF_NPROC", "0")) or min(8, os.cpu_count() or 1)
        known = known_findings(prop)
        explored = 0
        for i, r in explore(modname, tasks, nproc, TASK_LIMIT[tier], known, t0 + DEADLINE[tier]):
            explored += 1
            for k in ("states", "transitions", "traces", "nontrivial"):
                setattr(tot, k, getattr(tot, k) + r[k])
            outcomes.update(r["outcomes"])
            tot.counters.update(r["counters"])
            for s in r["samples"]:
                if len(tot.samples) < 6:
                    tot.samples.append(s)
            for v in r["violations"]:
                viol.append((i, v))
    finally:
        cleanup()
    viol.sort(key=lambda iv: iv[0])
    fresh = [(i, v) for i, v in viol if v["key"] not in known]
    for key in sorted({v["key"] for _, v in viol if v["key"] in known}):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    vlines = []
    if fresh:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, v in fresh:
            if v["key"] in seen or len(seen) >= 5:
                continue
            seen.add(v["key"])
            path = os.path.join(rdir, f"{prop}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=prop,
                        module=modname,
                        task=tasks[i][1],
                        kwargs=_jsonable(tasks[i][2]),
                        violation=v,
                        replay_cmd=f"/opt/venv/bin/python {VERIF}/mc/replay.py {path}",
                    ),
                    f,
                    indent=1,
                )
            vlines.append(f"VIOLATION property={prop} replay={path}")
            vlines.append(f"  {v['what'][:600]}")
    wall = time.time() - t0
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=tot.states,
            transitions=tot.transitions,
            traces_validated_against_impl=tot.traces,
            nontrivial_states=tot.nontrivial,
            distinct_observed_outcomes=len(outcomes),
            tasks=len(tasks),
            tasks_explored=explored,
            rule=mod.RULE,
            exhaustive=explored == len(tasks),
            samples=tot.samples,
            **({"counters": dict(tot.counters)} if tot.counters else {}),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(_jsonable(ev), f, indent=1)
    print(
        f"{prop} [{tier}] states={tot.states} transitions={tot.transitions} traces={tot.traces} "
        f"nontrivial={tot.nontrivial} outcomes={len(outcomes)} tasks={explored}/{len(tasks)} "
        f"violations={len(fresh)} wall={wall:.1f}s"
    )
    for line in vlines:
        print(line)
    sys.stdout.flush()
    return 1 if fresh else 0
