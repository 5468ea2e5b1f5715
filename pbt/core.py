"""The machinery common to all properties.

A property module registers *facets*.  A facet is a Hypothesis strategy that
produces plain JSON data (the case) and an oracle, a function of the case alone
that drives pyswarms and raises Violation when what it observes breaks the
property.  All randomness of a case is in the case (numpy is seeded from it), so
the shrunk case written to the replay file is a complete reproduction and can be
run without Hypothesis (`./check replay FILE`).

Facets are split in shards that run in separate processes with seeds derived
from VERIF_SEED, the facet's name and the shard's number.
"""
import hashlib
import importlib
import json
import logging
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp
import warnings

CONF = {}
FACETS = {}  # property -> list of Facet
KNOWN_PROBES = {}  # property -> {key: probe}

CASE_CPU_LIMIT = 60.0  # seconds of CPU time of one case before it counts as hanging
CASE_WALL_LIMIT = 180.0  # seconds in all (a case waiting for a worker process uses no CPU)
MAX_SAMPLES = 3


class Violation(Exception):
    """The code under test does not do what the property says."""


class Hang(BaseException):
    """A case used more CPU time than any terminating case can."""


class Facet:
    def __init__(self, prop, name, strategy, oracle, quick, thorough, rule, shards):
        self.prop, self.name, self.strategy, self.oracle = prop, name, strategy, oracle
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards


def facet(prop, name, strategy, quick, rule, thorough=None, shards=1):
    """Register the decorated oracle.  It returns None/False for a trivial case,
    and True or a list of tags (non-empty) for a non-trivial one."""

    def deco(fn):
        FACETS.setdefault(prop, []).append(
            Facet(prop, name, strategy, fn, quick, thorough or quick * 20, rule, shards)
        )
        return fn

    return deco


def probe(prop, key):
    """Register the probe of a known finding: returns a description of what
    fails when the finding is present, None when it is not."""

    def deco(fn):
        KNOWN_PROBES.setdefault(prop, {})[key] = fn
        return fn

    return deco


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


# ---------------------------------------------------------------- loading
MODULES = [
    "props_opt",
    "props_ops",
    "props_topo",
    "props_gen",
    "props_fx",
    "props_utils",
    "props_meta",
    "props_ext",
]


def load():
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import pyswarms

    real = os.path.realpath(pyswarms.__file__)
    if not real.startswith(os.path.realpath(CONF["repo"]) + os.sep):
        raise RuntimeError("imported pyswarms from %s" % real)
    logging.disable(logging.CRITICAL)
    for name in MODULES:
        if os.path.exists(os.path.join(CONF["verif"], "pbt", name + ".py")):
            importlib.import_module(name)


# ---------------------------------------------------------------- running one case
def _through_pyswarms(tb):
    root = os.path.join(os.path.realpath(CONF["repo"]), "pyswarms") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def _brief(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    root = os.path.join(os.path.realpath(CONF["repo"]), "pyswarms") + os.sep
    where = ""
    for f in frames:
        if os.path.realpath(f.filename).startswith(root):
            where = " at %s:%s" % (os.path.relpath(f.filename, CONF["repo"]), f.lineno)
    return "%s: %s%s" % (type(exc).__name__, str(exc)[:300], where)


def run_case(oracle, case):
    """Run the oracle; exceptions that escape from pyswarms on the (valid) inputs
    of the case are violations, those of the harness itself are not."""
    import numpy as np

    def on_prof(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    old_alarm = signal.signal(signal.SIGALRM, on_prof)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_LIMIT)
    try:
        np.random.seed(12345)
        return oracle(case)
    except Violation:
        raise
    except Hang:
        raise
    except Exception as exc:
        if _through_pyswarms(exc.__traceback__):
            raise Violation("unexpected " + _brief(exc)) from exc
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old_alarm)
        logging.disable(logging.CRITICAL)


def jdump(case):
    return json.dumps(case, sort_keys=True)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.tags = {}
        self.samples = []


def run_shard(fc, tier, seed, shard, nshards, out):
    """Executed in a child process; writes its result as JSON to `out`."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase

    st = Stats()
    last = {}
    total = fc.quick if tier == "quick" else fc.thorough
    count = total // nshards + (1 if shard < total % nshards else 0)
    result = dict(facet=fc.name, shard=shard, violation=None, error=None)
    t0 = time.time()
    cpu0 = time.process_time()
    salt = hashlib.sha256(
        ("%d/%s/%s/%d" % (seed, fc.prop, fc.name, shard)).encode()
    ).digest()
    hseed = int.from_bytes(salt[:8], "big")
    shrink_deadline = 90 if tier == "quick" else 300

    def body(case):
        if last and time.time() - last["t"] > shrink_deadline:
            return  # enough shrinking: Hypothesis keeps what it has
        text = jdump(case)
        case = json.loads(text)  # exactly what the replay file will hold
        st.evaluations += 1
        try:
            tags = run_case(fc.oracle, case)
        except Violation as v:
            last.setdefault("t", time.time())
            if "case" not in last or len(text) <= len(jdump(last["case"])):
                last.update(case=json.loads(text), message=str(v))
            raise
        except Hang:
            last.update(
                case=json.loads(text),
                message="did not finish within %g s of CPU time or %g s in all (typical: milliseconds)"
                % (CASE_CPU_LIMIT, CASE_WALL_LIMIT),
            )
            raise
        if last:
            return
        if tags:
            if tags is True:
                tags = ["nontrivial"]
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in st.hashes:
                st.hashes.add(h)
                if len(st.samples) < MAX_SAMPLES:
                    st.samples.append(case if len(text) < 1500 else text[:1500] + "...")
            for t in tags:
                st.tags[t] = st.tags.get(t, 0) + 1

    try:
        if count > 0:
            test = hypothesis.given(fc.strategy)(body)
            test = settings(
                max_examples=count,
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                phases=[Phase.explicit, Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
                verbosity=hypothesis.Verbosity.quiet,
            )(test)
            test = hypothesis.seed(hseed)(test)
            test()
    except (Violation, Hang):
        pass
    except Exception as exc:
        # Hypothesis wraps what it could not reproduce (Flaky...): a violation was
        # still observed if one was recorded.
        if not last:
            result["error"] = "".join(
                traceback.format_exception(type(exc), exc, exc.__traceback__)
            )[-4000:]
    if last:
        result["violation"] = dict(
            property=fc.prop, facet=fc.name, case=last["case"], message=last["message"]
        )
    result.update(
        evaluations=st.evaluations,
        hashes=sorted(st.hashes),
        tags=st.tags,
        samples=st.samples,
        wall=time.time() - t0,
        cpu=time.process_time() - cpu0,
    )
    with open(out + ".tmp", "w") as f:
        json.dump(result, f)
    os.rename(out + ".tmp", out)


def _child(args):
    fc, tier, seed, shard, nshards, out = args
    # keep pyswarms' chatter (tqdm bars, logs) away from the check's own output
    devnull = os.open(os.devnull, os.O_WRONLY)
    errf = os.open(out + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(devnull, 1)
    os.dup2(errf, 2)
    cwd = out + ".cwd"
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    try:
        run_shard(fc, tier, seed, shard, nshards, out)
        for p in mp.active_children():
            p.terminate()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
    os._exit(0)


def load_known(prop):
    path = os.path.join(CONF["verif"], "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def run_property(prop, tier, only=()):
    t0 = time.time()
    if tier not in ("quick", "thorough"):
        print("unknown tier", tier)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    load()
    facets = [f for f in FACETS.get(prop, []) if not only or f.name in only]
    if not facets:
        print("no facets for", prop)
        return 2
    ncpu = min(8, os.cpu_count() or 1)
    jobs = []
    for fc in facets:
        n = fc.shards if tier == "quick" else max(fc.shards, 4)
        total = fc.quick if tier == "quick" else fc.thorough
        n = max(1, min(n, total))
        for s in range(n):
            out = os.path.join(CONF["work"], "%s.%d.json" % (fc.name, s))
            jobs.append((fc, tier, seed, s, n, out))
    ctx = mp.get_context("fork")
    running, pending, results, errors = [], list(jobs), [], []
    while running or pending:
        while pending and len(running) < ncpu:
            job = pending.pop(0)
            sys.stdout.flush()
            p = ctx.Process(target=_child, args=(job,))
            p.start()
            running.append((p, job))
        still = []
        for p, job in running:
            p.join(timeout=0.02)
            if p.is_alive():
                still.append((p, job))
                continue
            try:
                with open(job[5]) as f:
                    results.append(json.load(f))
            except (OSError, ValueError):
                tail = ""
                try:
                    with open(job[5] + ".err", errors="replace") as f:
                        tail = f.read()[-3000:]
                except OSError:
                    pass
                errors.append(
                    "%s/%d ended with code %s without a result\n%s"
                    % (job[0].name, job[3], p.exitcode, tail)
                )
        running = still
    # known findings
    known_lines = []
    for k in load_known(prop):
        fn = KNOWN_PROBES.get(prop, {}).get(k["key"])
        if fn is None:
            errors.append("known finding without a probe: %s" % k["key"])
            continue
        what = fn()
        if what:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    errors += [
        "%s/%d: %s" % (r["facet"], r["shard"], r["error"]) for r in results if r["error"]
    ]
    violations = [r["violation"] for r in results if r["violation"]]
    violations.sort(key=lambda v: len(jdump(v["case"])))

    # evidence
    per, hashes, samples = {}, 0, []
    for fc in facets:
        rs = [r for r in results if r["facet"] == fc.name]
        tags = {}
        hs = set()
        for r in rs:
            hs.update(r["hashes"])
            for t, c in r["tags"].items():
                tags[t] = tags.get(t, 0) + c
        per[fc.name] = dict(
            evaluations=sum(r["evaluations"] for r in rs),
            distinct_nontrivial=len(hs),
            classes=tags,
            rule=fc.rule,
            cpu_s=round(sum(r["cpu"] for r in rs), 2),
            max_wall_s=round(max([r["wall"] for r in rs] or [0]), 2),
        )
        hashes += len(hs)
        for r in rs[:1]:
            for s in r["samples"][:2]:
                samples.append(dict(facet=fc.name, case=s))
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(p["evaluations"] for p in per.values()),
            distinct_nontrivial=hashes,
            rule="; ".join("%s: %s" % (f.name, f.rule) for f in facets),
            samples=samples,
            facets=per,
        ),
        assumptions=[
            "randomness comes from numpy's global generator, seeded from each case",
            "absence of violations is shown for the generated cases only",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    if not only:
        os.makedirs(os.path.join(CONF["verif"], "evidence"), exist_ok=True)
        path = os.path.join(CONF["verif"], "evidence", prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.rename(path + ".tmp", path)
    for name, p in per.items():
        print(
            "%s/%s: %d cases, %d distinct non-trivial, %.1f s cpu %s"
            % (
                prop,
                name,
                p["evaluations"],
                p["distinct_nontrivial"],
                p["cpu_s"],
                json.dumps(p["classes"]),
            )
        )
    for line in known_lines:
        print(line)
    if violations:
        rdir = os.path.join(CONF["verif"], "replays")
        os.makedirs(rdir, exist_ok=True)
        v = violations[0]
        h = hashlib.sha1(jdump(v["case"]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s-%s.json" % (prop, v["facet"], h))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("%s/%s: %s" % (prop, v["facet"], v["message"]))
        print("case: %s" % jdump(v["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("HARNESS ERROR")
        for e in errors:
            print(e)
        return 2
    # a facet that produced nothing non-trivial decides nothing
    for name, p in per.items():
        if p["distinct_nontrivial"] == 0:
            print("HARNESS ERROR: facet %s produced no non-trivial case" % name)
            return 2
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    load()
    for fc in FACETS.get(v["property"], []):
        if fc.name == v["facet"]:
            try:
                tags = run_case(fc.oracle, v["case"])
            except Violation as exc:
                print("VIOLATION property=%s replay=%s" % (v["property"], path))
                print(exc)
                if exc.__cause__ is not None:
                    traceback.print_exception(exc.__cause__)
                return 1
            except Hang:
                print("VIOLATION property=%s replay=%s" % (v["property"], path))
                print("hang")
                return 1
            print("no violation", tags)
            return 0
    print("unknown facet")
    return 2


def selftest():
    load()
    from hypothesis import __version__ as hv
    import numpy as np

    n = sum(len(v) for v in FACETS.values())
    print("hypothesis %s, numpy %s, %d properties, %d facets" % (hv, np.__version__, len(FACETS), n))
    with open(os.path.join(CONF["verif"], "properties.jsonl")) as f:
        ids = {json.loads(line)["id"] for line in f if line.strip()}
    missing = ids - set(FACETS)
    if missing:
        print("properties without facets:", sorted(missing))
    return 0
