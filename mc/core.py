"""Exploration core: exhaustive, stateless depth-first search over choice points.

A *body* is a function ``body(ch, rec)`` that takes every nondeterministic decision
(which declaration, which values, which operation, where the fault or the cut is,
which thread runs next) through ``ch``.  The explorer runs the body once for every
path of the resulting choice tree, so a completed run covers the whole bounded space.
The tree is split into shards (choice prefixes) explored by separate processes.

Anything the body raises is a violation of the property; the path (list of choices)
identifies the execution and is enough to replay it.
"""

import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BINOBJ_REPO", "/repo")
EXEC_TIMEOUT = 60
SPLITTING = 1.0
PROGRESS_TIMEOUT = float(os.environ.get("MC_PROGRESS_TIMEOUT", "400"))


class Violation(Exception):
    """The property doesn't hold on the execution in progress."""


class Timeout(BaseException):
    pass


class Enough(BaseException):
    """Only the number of alternatives of the next choice was asked for."""


class Ch:
    """The choice points of one execution."""

    __slots__ = ("prefix", "trace", "probe")

    def __init__(self, prefix=(), probe=False):
        self.prefix = prefix
        self.trace = []
        self.probe = probe

    def pick(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise Violation(
                f"the execution diverged while replaying its prefix: choice {i} is {c}"
                f" but there are only {n} alternatives"
            )
        self.trace.append((c, n))
        if self.probe and i >= len(self.prefix):
            raise Enough()
        return c

    def choose(self, seq):
        return seq[self.pick(len(seq))]

    def flag(self):
        return self.pick(2) == 1


class Rec:
    """What an exploration covered, and a description of the case in progress."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.executions = 0
        self.outcomes = set()
        self.samples = []
        self.notes = []
        self.maxima = {}
        self.case = None

    def state(self, *key):
        """Note a distinct state: a (declaration, contents, operation) situation."""
        self.states.add(
            hashlib.blake2b(repr(key).encode("utf-8", "replace"), digest_size=8).digest()
        )

    def step(self, n=1):
        """Note that operations of the real code were executed and judged."""
        self.transitions += n

    def traced(self, n=1):
        """Note that a complete trace was compared with the reference model."""
        self.traces += n

    def outcome(self, *key):
        if len(self.outcomes) < 4096:
            self.outcomes.add(repr(key)[:200])

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def maximum(self, name, value):
        if value > self.maxima.get(name, -1):
            self.maxima[name] = value

    def merge(self, other):
        self.states |= other["states"]
        self.transitions += other["transitions"]
        self.traces += other["traces"]
        self.executions += other["executions"]
        self.outcomes |= other["outcomes"]
        for s in other["samples"]:
            if len(self.samples) < 8 and s not in self.samples:
                self.samples.append(s)
        for k, v in other["maxima"].items():
            self.maximum(k, v)

    def export(self):
        return {
            "states": self.states,
            "transitions": self.transitions,
            "traces": self.traces,
            "executions": self.executions,
            "outcomes": self.outcomes,
            "samples": self.samples,
            "maxima": self.maxima,
        }


def next_prefix(trace, floor):
    """The next path in depth-first order that shares the first ``floor`` choices."""
    i = len(trace) - 1
    while i >= floor:
        c, n = trace[i]
        if c + 1 < n:
            return [t[0] for t in trace[:i]] + [c + 1]
        i -= 1
    return None


def _alarm(_sig, _frame):
    raise Timeout()


def execute(body, prefix, rec, probe=False):
    """Run one execution.  Returns (trace, failure or None)."""
    ch = Ch(prefix, probe)
    rec.case = None
    rec.executions += 1
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_TIMEOUT)
    try:
        try:
            body(ch, rec)
        finally:
            signal.alarm(0)
    except Enough:
        return ch.trace, None
    except Timeout:
        return ch.trace, {
            "what": f"no result within {EXEC_TIMEOUT} s (endless loop?)",
            "kind": "timeout",
        }
    except Violation as exc:
        return ch.trace, {"what": str(exc), "kind": "violation", "tb": _tb()}
    except KeyboardInterrupt:
        raise
    except BaseException as exc:  # noqa: BLE001 - everything unexpected is a failure
        return ch.trace, {
            "what": f"unexpected {type(exc).__name__}: {exc}",
            "kind": "exception",
            "tb": _tb(),
        }
    return ch.trace, None


def _tb():
    return traceback.format_exc(limit=-12)[-4000:]


def describe(rec):
    case = rec.case
    try:
        return str(case() if callable(case) else ("" if case is None else case))
    except BaseException as exc:  # noqa: BLE001
        return f"<case can't be described: {exc!r}>"


_BODIES = None
_DEADLINE = None


def _init_worker(bodies, deadline, scratch):
    global _BODIES, _DEADLINE
    _BODIES = bodies
    _DEADLINE = deadline
    os.environ["MC_SCRATCH"] = scratch
    warnings.simplefilter("ignore")
    # A runaway allocation in broken code has to fail in here, not hurt the machine.
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _run_shard(arg):
    name, prefix = arg
    body = _BODIES[name]
    rec = Rec()
    todo = list(prefix)
    capped = False
    while True:
        trace, failure = execute(body, todo, rec)
        if failure:
            failure["body"] = name
            failure["choices"] = [t[0] for t in trace]
            failure["case"] = describe(rec)
            return rec.export(), failure, capped
        todo = next_prefix(trace, len(prefix))
        if todo is None:
            break
        if time.time() > _DEADLINE:
            capped = True
            break
    return rec.export(), None, capped


def make_shards(name, body, target):
    """Split the choice tree of a body into choice prefixes, breadth first."""
    done, frontier = [], [()]
    started = time.time()
    while frontier and len(done) + len(frontier) < target:
        nxt = []
        for prefix in frontier:
            if time.time() > started + SPLITTING:
                done.append(prefix)
                continue
            rec = Rec()
            trace, failure = execute(body, list(prefix), rec, True)
            if failure or len(trace) <= len(prefix):
                done.append(prefix)
                continue
            n = trace[len(prefix)][1]
            nxt.extend(prefix + (c,) for c in range(n))
        if not nxt:
            frontier = []
            break
        frontier = nxt
    return [(name, p) for p in done + frontier]


def setup_import():
    """Import binobj from the working tree, never from stale byte code."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import binobj

    where = os.path.realpath(binobj.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"binobj was imported from {where}, not from {REPO}")
    return binobj


def explore(prop, module, tier, seed, budget):
    """Explore all bodies of a property.  Returns the exit status."""
    started = time.time()
    warnings.simplefilter("ignore")
    scratch = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    os.environ["MC_SCRATCH"] = scratch
    total = Rec()
    failures, errors = [], []
    capped = False
    per_body = {}
    try:
        try:
            bodies = module.bodies(tier, seed)
            only = os.environ.get("MC_ONLY")
            if only:  # for debugging
                bodies = {k: v for k, v in bodies.items() if k in only.split(",")}
                capped = True
        except BaseException as exc:  # noqa: BLE001
            failures.append(
                {
                    "what": f"unexpected {type(exc).__name__} preparing: {exc}",
                    "kind": "exception",
                    "tb": _tb(),
                    "body": "",
                    "choices": [],
                    "case": "",
                }
            )
            bodies = {}
        workers = max(1, min(8, os.cpu_count() or 1))
        deadline = started + budget
        shards = []
        ctx = multiprocessing.get_context("fork")
        if bodies:
            # Shards are made in a child too, so that a crash there is contained.
            with ctx.Pool(
                workers, _init_worker, (bodies, deadline, scratch)
            ) as pool:
                made = pool.starmap(
                    _shards_of, [(n, 256 if len(bodies) < 8 else 64) for n in bodies], 1
                )
                for group in made:
                    shards.extend(group)
                # Deterministic spread; the seed only changes the visiting order.
                shards.sort(
                    key=lambda s: hashlib.blake2b(
                        repr((seed, s)).encode(), digest_size=8
                    ).digest()
                )
                # A worker that dies (say, out of memory) must not hang the run.
                it = pool.imap_unordered(_run_shard, shards, 1)
                for _ in shards:
                    try:
                        export, failure, cap = it.next(timeout=PROGRESS_TIMEOUT)
                    except multiprocessing.TimeoutError:
                        failures.append(
                            {
                                "what": "a worker died or stopped making progress",
                                "kind": "lost",
                                "body": "",
                                "choices": [],
                                "case": "",
                            }
                        )
                        break
                    total.merge(export)
                    capped |= cap
                    if failure:
                        failures.append(failure)
                        if len(failures) >= 16:
                            break
                pool.terminate()
        for n, _p in shards:
            per_body[n] = per_body.get(n, 0) + 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = load_known(prop)
    reported = 0
    seen_known = set()
    violations = []
    failures.sort(key=lambda f: (len(f["choices"]), f["body"], f["choices"]))
    for failure in failures:
        match = next((k for k in known if k["match"] in failure["case"] + failure["what"]), None)
        if match:
            if match["match"] not in seen_known:
                seen_known.add(match["match"])
                print(f"KNOWN-FINDING: property={prop} {match['what']}")
            continue
        reported += 1
        path = write_replay(prop, tier, seed, failure, reported)
        violations.append({"replay": path, "what": failure["what"], "case": failure["case"]})
        if reported <= 3:
            print(f"--- {prop}: {failure['what']}\n{failure['case']}\n{failure.get('tb', '')}")
            print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(total.states),
            "transitions": total.transitions,
            "traces_validated_against_impl": total.traces,
            "executions": total.executions,
            "distinct_outcomes": len(total.outcomes),
            "shards": len(shards),
            "shards_per_body": per_body,
            "maxima": total.maxima,
            "bounds": getattr(module, "BOUNDS", {}).get(tier, ""),
            "exhaustive": (not capped) and not reported,
            "time_cap_hit": capped,
            "samples": total.samples or ["(none)"],
        },
        "wall_s": round(time.time() - started, 2),
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "violations": len(violations),
        "violation_details": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=repr)
        fh.write("\n")
    c = evidence["coverage"]
    print(
        f"{prop} {tier}: states={c['states']} transitions={c['transitions']}"
        f" traces={c['traces_validated_against_impl']} executions={c['executions']}"
        f" outcomes={c['distinct_outcomes']} exhaustive={c['exhaustive']}"
        f" wall={evidence['wall_s']}s"
    )
    return 1 if reported else 0


def _shards_of(name, target):
    return make_shards(name, _BODIES[name], target)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as fh:
            data = json.load(fh)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop]


def write_replay(prop, tier, seed, failure, number):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{number}.json")
    with open(path, "w") as fh:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "seed": seed,
                "body": failure["body"],
                "choices": failure["choices"],
                "what": failure["what"],
                "case": failure["case"],
                "traceback": failure.get("tb", ""),
                "replay_with": f"/verif/check --replay {path}",
            },
            fh,
            indent=1,
            default=repr,
        )
        fh.write("\n")
    return path


def replay(path):
    """Run one recorded execution again, twice, and show what happens."""
    import importlib

    with open(path) as fh:
        data = json.load(fh)
    setup_import()
    warnings.simplefilter("ignore")
    module = importlib.import_module(f"mc.props.{data['property'].lower()}")
    os.environ["MC_SCRATCH"] = tempfile.mkdtemp(prefix="mc-replay-")
    results = []
    try:
        body = module.bodies(data["tier"], data["seed"])[data["body"]]
        for _ in range(2):
            rec = Rec()
            _trace, failure = execute(body, data["choices"], rec)
            results.append((failure and failure["what"], describe(rec), failure and failure.get("tb")))
    finally:
        shutil.rmtree(os.environ["MC_SCRATCH"], ignore_errors=True)
    what, case, tb = results[0]
    if results[0][0] != results[1][0]:
        print("WARNING: the two replays differ:", results[0][0], "/", results[1][0])
    if what is None:
        print("the execution is fine now:", case)
        return 0
    print(f"{what}\n{case}\n{tb or ''}")
    return 1


def selftest():
    """Does the explorer cover a choice tree completely, whatever its shape?"""
    seen = []

    def body(ch, rec):
        a = ch.pick(3)
        seen.append((a,) + tuple(ch.pick(2) for _ in range(a)))

    todo, rec = [], Rec()
    while todo is not None:
        trace, failure = execute(body, todo, rec)
        assert failure is None
        todo = next_prefix(trace, 0)
    assert len(seen) == len(set(seen)) == 7, seen
    whole = sorted(set(seen))
    for target in (1, 2, 4, 50):
        seen.clear()
        for _name, prefix in make_shards("x", body, target):
            mark = len(seen)
            todo = list(prefix)
            while todo is not None:
                trace, failure = execute(body, todo, rec)
                todo = next_prefix(trace, len(prefix))
            assert len(seen) > mark
        # Making the shards runs some paths as well, so only the set can be compared.
        assert sorted(set(seen)) == whole

    def broken(ch, rec):
        if ch.pick(2) and ch.pick(3) == 2:
            raise Violation("found")

    todo, found = [], []
    while todo is not None:
        trace, failure = execute(broken, todo, rec)
        if failure:
            found.append([t[0] for t in trace])
        todo = next_prefix(trace, 0)
    assert found == [[1, 2]], found
    print("the explorer works")
    return 0


def main(argv):
    import importlib

    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if argv[:1] == ["--selftest"]:
        return selftest()
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("MC_BUDGET", "600" if tier == "quick" else "7200"))
    try:
        setup_import()
        module = importlib.import_module(f"mc.props.{prop.lower()}")
    except Exception as exc:  # noqa: BLE001 - binobj itself can't be imported any more
        traceback.print_exc()
        failure = {
            "what": f"can't even be imported: {exc!r}",
            "body": "",
            "choices": [],
            "case": "",
            "tb": _tb(),
        }
        path = write_replay(prop, tier, seed, failure, 0)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return explore(prop, module, tier, seed, budget)
