"""Exploration driver: finite spaces of cases, explored completely by crash-isolated worker processes.

A check is a module in mc.checks with
    PROPERTY, ASSUMPTIONS (list of str)
    spaces(tier, seed) -> [Space]
A space is a finite list of cases; its run function executes one case on the real code, compares every step with the
reference model and counts what it visited:
    rec.state(key)      a distinct (canonical) state of the explored system
    rec.step(n)         n transitions: calls executed on the implementation
    rec.trace(n)        n complete runs of the reference model compared with the implementation
    rec.outcome(key)    a distinct observed outcome (to see that the exploration is not vacuous)
A mismatch raises Violation.  So do crashes, hangs and unexpected exceptions of the code under test.
"""
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pickle
import signal
import sys
import time
import traceback

from .build import VERIF

MAX_REPORTED = 3


class Violation(Exception):
    """The implementation does not do what the property says."""


class Rec:
    """What a case visited."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.sample = None

    @staticmethod
    def _h(key):
        return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")

    def state(self, key):
        self.states.add(self._h(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self.outcomes.add(self._h(key))


class Space:
    """A finite, completely enumerated set of cases.

    With fresh=True every case runs in a process of its own in which the package has not been used before.
    """

    def __init__(self, name, cases, run, bound, timeout=300, batch=None, fresh=False):
        self.name = name
        self.cases = list(cases)
        self.run = run
        self.bound = bound
        self.timeout = timeout
        self.batch = batch
        self.fresh = fresh


def case_key(space, case):
    return space + ":" + json.dumps(case, sort_keys=True, default=str)


def load_findings(prop):
    """Recorded defects: lines 'finding: property=<id> case=<space:json> what=<text>'."""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property=%s case=" % prop):
                    key, what = line.split(" case=", 1)[1].rstrip("\n").split(" what=", 1)
                    res[key] = what
    return res


def _run_case(space, case):
    rec = Rec()
    msg = None
    try:
        space.run(case, rec)
    except Violation as err:
        msg = str(err)
    except Exception as err:  # the code under test raised where a result is due
        msg = "%s: %s\n%s" % (type(err).__name__, err, traceback.format_exc()[-3000:])
    return rec, msg


def in_child(fun, *args, timeout=300):
    """fun(*args) in a forked process; raises Violation if that dies or fun raises."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                res = (True, fun(*args))
            except Exception as err:
                res = (False, "%s: %s" % (type(err).__name__, err))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    status = os.waitpid(pid, 0)[1]
    try:
        ok, res = pickle.loads(data)
    except Exception:
        raise Violation("the process running the case died (status %d)" % status) from None
    if not ok:
        raise Violation("in a process of its own: " + res)
    return res


def _run_fresh(space, case):
    try:
        return in_child(_run_case, space, case, timeout=space.timeout)
    except Violation as err:
        return Rec(), str(err)


def _worker(conn, spaces):
    try:
        while True:
            task = conn.recv()
            if task is None:
                break
            si, idxs = task
            space = spaces[si]
            for i in idxs:
                conn.send(("start", si, i))
                rec, msg = (_run_fresh if space.fresh else _run_case)(space, space.cases[i])
                conn.send(("case", si, i, rec.states, rec.outcomes, rec.transitions, rec.traces, rec.sample, msg))
            conn.send(("idle",))
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    os._exit(0)


class _Proc:
    def __init__(self, ctx, spaces):
        self.conn, child = ctx.Pipe()
        self.p = ctx.Process(target=_worker, args=(child, spaces))
        self.p.start()
        child.close()
        self.todo = None
        self.current = None
        self.since = time.time()

    def kill(self):
        self.p.kill()
        self.p.join()
        self.conn.close()


def explore(prop, spaces, tier, seed, nproc=None, budget=None):
    """Run every case of every space; returns (exit code, evidence)."""
    t0 = time.time()
    nproc = nproc or int(os.environ.get("MC_PROCS", "8"))
    findings = load_findings(prop)
    ctx = multiprocessing.get_context("fork")
    stats = [dict(states=set(), outcomes=set(), transitions=0, traces=0, cases=0, sample=None) for _ in spaces]
    queue = []
    # fresh ones first: a worker that has run other cases is not clean any more
    for si, space in sorted(enumerate(spaces), key=lambda x: not x[1].fresh):
        n = len(space.cases)
        batch = space.batch or max(1, min(32, n // (nproc * 4)))
        queue += [(si, list(range(k, min(n, k + batch)))) for k in range(0, n, batch)]
    queue.reverse()
    procs = []
    violations = []
    hit_findings = []

    def report(si, i, msg):
        key = case_key(spaces[si].name, spaces[si].cases[i])
        if key in findings:
            hit_findings.append((key, findings[key]))
        else:
            violations.append((si, i, msg))

    def feed(pr):
        if queue and len(violations) < MAX_REPORTED:
            si, idxs = queue.pop()
            pr.todo = (si, idxs)
            pr.conn.send((si, idxs))
            pr.since = time.time()
            return True
        pr.todo = None
        try:
            pr.conn.send(None)
        except OSError:
            pass
        return False

    sys.stdout.flush()
    for _ in range(max(1, min(nproc, len(queue)))):
        pr = _Proc(ctx, spaces)
        procs.append(pr)
        feed(pr)
    active = [p for p in procs if p.todo is not None]
    while active:
        ready = multiprocessing.connection.wait([p.conn for p in active], timeout=1.0)
        for pr in list(active):
            dead = None
            if pr.conn in ready:
                try:
                    m = pr.conn.recv()
                except (EOFError, ConnectionResetError):
                    dead = "crashed"
                else:
                    pr.since = time.time()
                    if m[0] == "start":
                        pr.current = (m[1], m[2])
                    elif m[0] == "case":
                        _, si, i, states, outcomes, trans, traces, sample, msg = m
                        st = stats[si]
                        st["states"] |= states
                        st["outcomes"] |= outcomes
                        st["transitions"] += trans
                        st["traces"] += traces
                        st["cases"] += 1
                        if sample is not None and st["sample"] is None:
                            st["sample"] = sample
                        pr.current = None
                        pr.todo[1].remove(i)
                        if msg is not None:
                            report(si, i, msg)
                            if len(violations) >= MAX_REPORTED:
                                pr.kill()
                                active.remove(pr)
                    elif m[0] == "idle":
                        if not feed(pr):
                            active.remove(pr)
            elif pr.current and time.time() - pr.since > spaces[pr.current[0]].timeout:
                dead = "did not finish within %d s" % spaces[pr.current[0]].timeout
            if dead:
                pr.kill()
                if dead == "crashed":
                    dead = "the process running the case died (exit code %s)" % pr.p.exitcode
                rest = pr.todo
                if pr.current:
                    si, i = pr.current
                    rest[1].remove(i)
                    report(si, i, dead)
                if rest[1]:
                    queue.append((rest[0], list(rest[1])))
                active.remove(pr)
                if queue and len(violations) < MAX_REPORTED:
                    new = _Proc(ctx, spaces)
                    if feed(new):
                        procs.append(new)
                        active.append(new)
    for pr in procs:
        pr.p.join(timeout=2)
        if pr.p.is_alive():
            pr.kill()

    total_cases = sum(len(s.cases) for s in spaces)
    done_cases = sum(st["cases"] for st in stats)
    samples = []
    for space, st in zip(spaces, stats):
        if space.cases:
            samples.append({"space": space.name, "case": space.cases[len(space.cases) // 2], "observed": st["sample"]})
    coverage = {
        "states": sum(len(st["states"]) for st in stats),
        "transitions": sum(st["transitions"] for st in stats),
        "traces_validated_against_impl": sum(st["traces"] for st in stats),
        "distinct_outcomes": sum(len(st["outcomes"]) for st in stats),
        "cases": done_cases,
        "exhaustive": done_cases == total_cases,
        "spaces": [{"name": sp.name, "bound": sp.bound, "cases": st["cases"], "of": len(sp.cases),
                    "states": len(st["states"]), "transitions": st["transitions"], "traces": st["traces"],
                    "distinct_outcomes": len(st["outcomes"])} for sp, st in zip(spaces, stats)],
        "samples": samples[:12],
        "known_findings_hit": [w for _, w in hit_findings],
    }
    for key, what in hit_findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    code = 0
    outdir = os.path.join(VERIF, "out")
    for n, (si, i, msg) in enumerate(violations[:MAX_REPORTED]):
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "space": spaces[si].name, "case": spaces[si].cases[i],
                       "message": msg, "replay_with": "cd %s && ./check --replay %s" % (VERIF, path)}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   in %s, case %s\n   %s" % (spaces[si].name, json.dumps(spaces[si].cases[i], default=str)[:300],
                                            msg.replace("\n", "\n   ")[:1500]))
        code = 1
    wall = time.time() - t0
    return code, {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
                  "wall_s": round(wall, 2), "violations": len(violations)}
