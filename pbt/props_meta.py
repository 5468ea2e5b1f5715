"""Relations between whole runs: C11 (pools), C12 (reproducibility), C13 (no
shared state), C14 (reset), C27 (cost order and units), C28 (equivalent ways)."""
import copy
import gc
import json
import math
import multiprocessing as mp
import os
import pickle
import subprocess
import sys
import tempfile
import time
from multiprocessing.pool import ThreadPool

import numpy as np
from hypothesis import strategies as st

import gen
from core import CONF, Violation, ensure, facet, probe
from gen import same
from props_opt import EXC
from props_utils import logging_sandbox


# ---------------------------------------------------------------- traces
def rng_state():
    s = np.random.get_state()
    return [int(v) for v in s[1]] + [int(s[2]), int(s[3]), float(s[4])]


def trace_of(o, ret=None):
    """Everything a run leaves behind, as copies."""
    t = {h: [np.array(v, copy=True) for v in getattr(o, h)] for h in gen.HISTS}
    t["position"] = [np.array(o.swarm.position, copy=True)]
    t["velocity"] = [np.array(o.swarm.velocity, copy=True)]
    if ret is not None:
        t["result"] = [np.array(ret[0], copy=True), np.array(ret[1], copy=True)]
    return t


def diff(a, b):
    """Where two traces differ, or None."""
    if sorted(a) != sorted(b):
        return "keys %s %s" % (sorted(a), sorted(b))
    for k in ["result"] + gen.HISTS + ["position", "velocity"]:
        if k not in a:
            continue
        if len(a[k]) != len(b[k]):
            return "%s has %d entries instead of %d" % (k, len(b[k]), len(a[k]))
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if not same(x, y):
                return "%s[%d] is %s instead of %s" % (k, i, np.asarray(y).tolist(), np.asarray(x).tolist())
    return None


def run_trace(s, acts, seed_all=True, verbose=False, fn_of=None, before_call=None, build=None, **kw):
    """Seed, build, run the actions; the list of traces after every action."""
    np.random.seed(s["seed"])
    o = (build or gen.mk_optimizer)(s)
    out = [trace_of(o)]
    for a in acts:
        if before_call is not None:
            before_call()
        if a[0] == "reset":
            if seed_all:
                np.random.seed(a[1])
            o.reset()
            out.append(trace_of(o))
        else:
            if seed_all:
                np.random.seed(a[2])
            fn = fn_of(a[3]) if fn_of else gen.Objective(a[3])
            ret = o.optimize(fn, a[1], verbose=verbose, **kw)
            out.append(trace_of(o, ret))
    return o, out


def compare(a, b, what):
    ensure(len(a) == len(b), "{}: {} and {} steps", what, len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        d = diff(x, y)
        ensure(d is None, "{}: after step {}: {}", what, i, d)


def moves(trace):
    """Did the run do anything: positions of different iterations differ."""
    p = trace[-1]["pos_history"]
    return len(p) > 1 and not same(p[0], p[-1])


# ---------------------------------------------------------------- C11
class RowWise:
    """A picklable objective computed row by row (so that neither the number of
    rows nor their memory layout can matter), which checks its keywords."""

    def __init__(self, o, expect=None, slow=False):
        self.o, self.expect, self.slow = o, expect, slow

    def row(self, r, kw):
        k, c = self.o["kind"], self.o["c"]
        v = 0.0
        for i, u in enumerate(r):
            u = float(u)
            if k == "sphere":
                v += (u - c) ** 2
            elif k == "rugged":
                v += abs(u - c) + math.sin(7 * u)
            elif k == "steps":
                v += math.floor(2 * abs(u - c))
            elif k == "holes":
                v += (u - c) ** 2 if math.floor(abs(u) * 7) % 3 else math.inf
            elif k == "ints":
                v += int(abs(u - c) * 3) % 1000
            elif k == "mixed":
                v += (u - c) ** 2
            elif k == "order":
                v = 3.0 * v + math.floor(u)
        if "a" in kw and isinstance(kw["a"], float):
            v += kw["a"] * float(r[0])
        if k == "mixed" and int(v * 8) % 2 == 0:
            return int(v)
        return int(v) if k == "ints" else v

    def __call__(self, x, /, **kw):
        if self.expect is not None and kw != self.expect:
            raise RuntimeError("the objective was given %r instead of %r" % (kw, self.expect))
        if not isinstance(x, np.ndarray) or x.ndim != 2:
            raise RuntimeError("the objective was given %r" % (x,))
        if self.slow and len(x):
            time.sleep(0.004 * ((int(abs(float(x[0, 0])) * 1000)) % 3))
        if self.o["kind"] == "ints":
            return np.array([self.row(r, kw) for r in x], dtype=np.int64)
        if self.o["kind"] == "mixed":  # integers for some particles
            return np.array([self.row(r, kw) for r in x])
        return np.array([self.row(r, kw) for r in x], dtype=float)


KW = st.dictionaries(
    st.sampled_from(["a", "b", "data", "x", "f", "options", "k", "p", "position", "func"]),
    st.one_of(
        st.sampled_from([0.0, 0.5, -1.0, 100.0]), st.text(max_size=2), st.lists(st.integers(0, 3), max_size=2), st.none(), st.booleans(),
        st.dictionaries(st.sampled_from("uv"), st.integers(0, 2), max_size=1),
    ),
    max_size=3,
)
ROWWISE = st.fixed_dictionaries(
    dict(kind=st.sampled_from(["sphere", "rugged", "steps", "holes", "ints", "order", "mixed"]), c=st.sampled_from([0.0, 0.5, -3.0]))
)


@st.composite
def pool_case(draw, max_calls=2):
    s = draw(gen.spec(oh=True, ftol=True, max_n=9, max_d=3))
    return dict(
        spec=s,
        k=draw(st.sampled_from([1, 2, 3, 4, 5, 7])),
        calls=[
            [draw(st.integers(1, 5)), draw(gen.seeds), draw(ROWWISE), draw(KW)] for _ in range(draw(st.integers(1, max_calls)))
        ],
        slow=draw(st.booleans()),
    )


def run_calls(case, **kw):
    s = case["spec"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    out = []
    for iters, seed, obj, kws in case["calls"]:
        np.random.seed(seed)
        given = copy.deepcopy(kws)
        ret = o.optimize(RowWise(obj, kws, case.get("slow", False) and bool(kw)), iters, verbose=False, **kw, **given)
        ensure(given == kws, "the keyword arguments were modified")
        t = trace_of(o, ret)
        t["result"].append(np.array(rng_state()))
        out.append(t)
    return out


@facet(
    "C11",
    "pool",
    pool_case(),
    quick=240,
    shards=4,
    rule="every case: a run through k worker processes against the serial run (tags: k divides n, k > n)",
)
def c11_pool(case):
    try:
        a = run_calls(case)
        b = run_calls(case, n_processes=case["k"])
    finally:
        for p in mp.active_children():
            p.terminate()
            p.join()
    compare(a, b, "n_processes=%d" % case["k"])
    n, k = case["spec"]["n"], case["k"]
    tags = ["k>n" if k > n else "k|n" if n % k == 0 else "uneven", case["spec"]["opt"]]
    if any(c[3] for c in case["calls"]):
        tags.append("kwargs")
    return tags


class Witness:
    """A row-wise objective that notes, in a file shared by all processes, the rows it was given."""

    def __init__(self, fn, path):
        self.fn, self.path = fn, path

    def __call__(self, x, /, **kw):
        line = json.dumps([[float(u) for u in r] for r in x]) + "\n"
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        try:
            os.write(fd, line.encode())
        finally:
            os.close(fd)
        return self.fn(x, **kw)


@facet(
    "C10",
    "pool",
    pool_case(),
    quick=120,
    shards=4,
    rule="every case: parallel runs, incl. infinite costs; the rows given to the objective in all processes are those of the iterations, each once",
)
def c10_pool(case):
    s = case["spec"]
    with tempfile.TemporaryDirectory() as tmp:
        np.random.seed(s["seed"])
        o = gen.mk_optimizer(s)
        try:
            for j, (iters, seed, obj, kws) in enumerate(case["calls"]):
                path = os.path.join(tmp, "rows%d" % j)
                before = len(o.pos_history)
                np.random.seed(seed)
                o.optimize(Witness(RowWise(obj, kws), path), iters, verbose=False, n_processes=case["k"], **copy.deepcopy(kws))
                with open(path) as f:
                    got = sorted(tuple(r) for l in f for r in json.loads(l))
                done = o.pos_history[before:]
                ensure(len(done) <= iters and ("ftol" in s or len(done) == iters), "{} iterations performed instead of {}", len(done), iters)
                want = sorted(tuple(float(u) for u in r) for x in done for r in x)
                ensure(got == want, "{} rows were evaluated in {} iterations of {} particles (or other rows)", len(got), len(done), s["n"])
        finally:
            for p in mp.active_children():
                p.terminate()
                p.join()
    return [s["opt"], case["calls"][0][2]["kind"]]


def pooled_call(case, check):
    """Runs through worker processes; check(optimizer, spec, call) sees what was evaluated."""
    from types import SimpleNamespace

    s = case["spec"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    try:
        for iters, seed, obj, kws in case["calls"]:
            before = {h: len(getattr(o, h)) for h in gen.HISTS}
            np.random.seed(seed)
            fn = RowWise(obj, kws)
            ret = o.optimize(fn, iters, verbose=False, n_processes=case["k"], **copy.deepcopy(kws))
            X = [np.array(x, float) for x in o.pos_history[before["pos_history"]:]]
            C = [np.asarray(fn(x, **kws), float) for x in X]
            check(o, s, SimpleNamespace(X=X, C=C, cost=float(ret[0]), pos=np.array(ret[1], float), before=before))
    finally:
        for p in mp.active_children():
            p.terminate()
            p.join()
    n, k = s["n"], case["k"]
    return ["k>n" if k > n else "k|n" if n % k == 0 else "uneven", s["opt"]]


@facet("C01", "pool", pool_case(), quick=80, shards=4, rule="every case: runs through worker processes, the costs recomputed from the recorded positions")
def c01_pool(case):
    from props_opt import check_result

    return pooled_call(case, lambda o, s, c: check_result(c))


@facet("C02", "pool", pool_case(), quick=80, shards=4, rule="every case: runs through worker processes, the costs recomputed from the recorded positions")
def c02_pool(case):
    from props_opt import check_cost_histories

    return pooled_call(case, check_cost_histories)


class Picky:
    """A row-wise objective that raises on one particular row (in the workers)."""

    def __init__(self, fn, row, exc):
        self.fn, self.bad, self.exc = fn, row, exc

    def __call__(self, x, /, **kw):
        for r in x:
            if np.array_equal(r, self.bad):
                raise self.exc
        return self.fn(x, **kw)


class Picker:
    """Its serial counterpart, which chooses the row: of evaluation `at`, unless that row has been evaluated before."""

    def __init__(self, fn, at, i, exc):
        self.fn, self.at, self.i, self.exc = fn, at, i, exc
        self.seen, self.evals, self.row = set(), 0, None

    def __call__(self, x, /, **kw):
        if self.evals == self.at and self.row is None:
            r = np.array(x[self.i % len(x)])
            if tuple(r) not in self.seen:
                self.row = r
                raise self.exc
        self.evals += 1
        self.seen.update(tuple(r) for r in x)
        return self.fn(x, **kw)


POOLABLE = ["key", "attr", "value", "type", "index", "arith", "fp", "overflow", "memory", "os", "runtime", "assert", "unicode", "args"]


@st.composite
def pool_fail_case(draw):
    case = draw(pool_case(max_calls=3))
    for c in case["calls"]:
        c[0] += 2
    case["fails"] = [
        draw(st.one_of(st.none(), st.tuples(st.integers(0, 4), st.integers(0, 8), st.sampled_from(POOLABLE)).map(list)))
        for _ in case["calls"]
    ]
    case["fails"][0] = case["fails"][0] or [draw(st.integers(0, 4)), 0, "value"]
    case["reset"] = draw(st.booleans())
    return case


@facet(
    "C30",
    "pool",
    pool_fail_case(),
    quick=160,
    shards=4,
    rule="the objective raises in a worker process on one row of a generated evaluation, several calls: same exception, "
    "histories and later calls as in the serial run; every case with a failure non-trivial",
)
def c30_pool(case):
    s, k = case["spec"], case["k"]
    both, tags, picked = [], set(), {}
    try:
        for workers in (None, k):
            np.random.seed(s["seed"])
            o = gen.mk_optimizer(s)
            out = []
            for i, ((iters, seed, obj, kws), fail) in enumerate(zip(case["calls"], case["fails"])):
                fn = RowWise(obj, kws, case["slow"] and workers is not None)
                exc = None
                if fail is not None:
                    exc = EXC[fail[2]]()
                    if workers is None:
                        fn = picked[i] = Picker(fn, fail[0] % iters, fail[1], exc)
                    elif picked[i].row is not None:
                        fn = Picky(fn, picked[i].row, exc)
                np.random.seed(seed)
                try:
                    t = trace_of(o, o.optimize(fn, iters, n_processes=workers, verbose=False, **copy.deepcopy(kws)))
                    ensure(
                        fail is None or picked[i].row is None, "optimize(n_processes={}) swallowed the objective's {!r}", workers, exc
                    )
                except Exception as e:
                    if exc is None or type(e) is not type(exc) or e.args != exc.args:
                        raise
                    tags.add("after-iterations" if picked[i].evals else "first")
                    tags.add("exc:" + fail[2])
                    t = trace_of(o)
                t["position"].append(np.array(rng_state()))
                out.append(t)
            if case["reset"]:
                np.random.seed(5)
                o.reset()
                out.append(trace_of(o))
            both.append(out)
    finally:
        o = t = None
        gc.collect()  # ends the pools of the failed calls
    compare(both[0], both[1], "n_processes=%d and an objective that fails" % k)
    return sorted(tags) + [s["opt"]] if tags else None


@st.composite
def evaluate_case(draw):
    n, d = draw(st.one_of(st.integers(1, 12), st.integers(1, 60))), draw(st.integers(1, 4))
    return dict(
        n=n, d=d, k=draw(st.one_of(st.none(), st.integers(1, 9), st.integers(1, 9))), x=draw(gen.matrix_desc()),
        obj=draw(ROWWISE), kwargs=draw(KW), slow=draw(st.integers(0, 5)) == 0, shape2=draw(st.booleans()),
    )


@facet(
    "C11",
    "evaluate",
    evaluate_case(),
    quick=1200,
    shards=2,
    rule="every case: compute_objective_function with and without a pool of k threads against the objective row by row",
)
def c11_evaluate(case):
    from pyswarms.backend import compute_objective_function
    from pyswarms.backend.swarms import Swarm

    x = gen.seeded_matrix(case["x"], case["n"], case["d"])
    s = Swarm(position=x.copy(), velocity=np.zeros_like(x))
    f = RowWise(case["obj"], case["kwargs"], case["slow"])
    seen = []

    def fn(p, /, **kw):
        v = f(p, **kw)
        seen.append(np.array(p, copy=True))
        return v

    kw = copy.deepcopy(case["kwargs"])
    if case["k"] is None:
        out = compute_objective_function(s, fn, **kw)
    else:
        pool = ThreadPool(case["k"])
        try:
            out = compute_objective_function(s, fn, pool=pool, **kw)
        finally:
            pool.terminate()
            pool.join()
    want = [f.row(r, case["kwargs"]) for r in x]
    out = gen.arr(out, (case["n"],), "compute_objective_function()")
    ensure([float(v) for v in out] == [float(v) for v in want], "costs {} instead of {}", out.tolist(), want)
    total = sum(len(p) for p in seen)
    ensure(total == case["n"], "{} rows were evaluated for {} particles", total, case["n"])
    rows_ = sorted(tuple(r) for p in seen for r in p)
    ensure(rows_ == sorted(tuple(r) for r in x), "other rows than the particles were evaluated")
    ensure(same(s.position, x), "the positions were modified")
    if case["k"] is None:
        return ["serial"]
    return ["k>n" if case["k"] > case["n"] else "k|n" if case["n"] % case["k"] == 0 else "uneven"]


@st.composite
def kwargs_case(draw):
    return dict(
        spec=draw(gen.spec(oh=True, max_n=8, max_d=3)),
        calls=[[draw(st.integers(1, 4)), draw(KW)] for _ in range(draw(st.integers(1, 3)))],
        seed=draw(gen.seeds),
    )


@facet("C11", "kwargs", kwargs_case(), quick=600, rule="counted when some call has keyword arguments; the objective records those of every evaluation")
def c11_kwargs(case):
    s = case["spec"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    for iters, kw in case["calls"]:
        given = copy.deepcopy(kw)
        rec = gen.Recorder(lambda x: ((x - 1.0) ** 2).sum(axis=1), s["n"], s["d"])
        o.optimize(rec, iters, verbose=False, **given)
        ensure(len(rec.KW) == iters, "{} evaluations", len(rec.KW))
        for i, got in enumerate(rec.KW):
            ensure(
                sorted(got) == sorted(kw) and all(got[k] is given[k] for k in kw),
                "evaluation {} was given {} instead of {}", i, got, kw,
            )
        ensure(given == kw, "the keyword arguments were modified")
    return [s["opt"]] if any(c[1] for c in case["calls"]) else None


@probe("C11", "reserved-names")
def reserved_names():
    import pyswarms as ps

    failed = []
    for name in ("swarm", "pool"):
        def f(x, **kw):
            return (x ** 2).sum(axis=1)

        o = ps.single.GlobalBestPSO(3, 2, dict(c1=0.5, c2=0.3, w=0.9))
        try:
            o.optimize(f, 2, verbose=False, **{name: 1.0})
        except Exception:
            failed.append(name)
    return failed or None


# ---------------------------------------------------------------- C12
NOISE = ["seed", "run", "verbose_run", "swarm", "binary", "topology", "search", "names", "draws"]


def make_noise(kind, seed):
    """Unrelated use of the library between two runs."""
    import pyswarms as ps
    from pyswarms.backend import create_swarm
    from pyswarms.backend import topology as T
    from pyswarms.utils.search import RandomSearch

    opts = dict(c1=0.7, c2=1.3, w=0.6, k=2, p=1, r=1)
    f = lambda x: (np.asarray(x, float) ** 2).sum(axis=1)  # noqa: E731
    np.random.seed(seed)
    if kind == "run":
        ps.single.LocalBestPSO(6, 2, opts, bounds=(np.array([-3.0, -3]), np.array([1.0, 2])), bh_strategy="shrink", vh_strategy="adjust").optimize(f, 4, verbose=False)
    elif kind == "verbose_run":
        ps.single.GlobalBestPSO(4, 3, opts, velocity_clamp=(-0.1, 0.2), ftol=0.5).optimize(f, 6)
    elif kind == "swarm":
        sw = create_swarm(5, 2)
        sw.options["c1"] = 99.0
        sw.position += 5
    elif kind == "binary":
        ps.discrete.BinaryPSO(5, 3, opts).optimize(f, 3, verbose=False)
    elif kind == "topology":
        for top in (T.Star(), T.Ring(static=True), T.VonNeumann(), T.Pyramid(static=True), T.Random(static=True)):
            ps.single.GeneralOptimizerPSO(7, 2, opts, top).optimize(f, 2, verbose=False)
    elif kind == "search":
        RandomSearch(ps.single.LocalBestPSO, 4, 2, dict(c1=[0, 1], c2=[0, 1], w=[0, 1], k=[1, 3], p=2), f, 2, 2).search()
    elif kind == "draws":
        np.random.normal(size=seed % 7 + 1)


@st.composite
def rerun_case(draw):
    return dict(
        spec=draw(gen.spec(oh=True, ftol=True)),
        actions=draw(gen.actions(max_iters=10)),
        noise=draw(st.lists(st.tuples(st.sampled_from(NOISE), gen.seeds), max_size=3)),
    )


@facet(
    "C12",
    "rerun",
    rerun_case(),
    quick=1200,
    shards=4,
    rule="counted when the particles move; the same seeded history is run twice with unrelated library use in between",
)
def c12_rerun(case):
    s = case["spec"]
    _, a = run_trace(s, case["actions"], seed_all=False)
    ra = rng_state()
    for kind, seed in case["noise"]:
        make_noise(kind, seed)
    _, b = run_trace(s, case["actions"], seed_all=False)
    rb = rng_state()
    compare(a, b, "the second run")
    ensure(ra == rb, "the runs leave different random states")
    return [s["top"], s["opt"]] if any(moves([t]) for t in a) else None


@st.composite
def verbose_case(draw):
    return dict(spec=draw(gen.spec(oh=True, ftol=True)), actions=draw(gen.actions(max_iters=10)))


@facet(
    "C12",
    "verbose",
    verbose_case(),
    quick=800,
    shards=4,
    rule="counted when the particles move; the history is run quietly and verbosely (with logging enabled)",
)
def c12_verbose(case):
    s = case["spec"]
    _, a = run_trace(s, case["actions"], seed_all=False, verbose=False)
    ra = rng_state()
    with logging_sandbox():
        _, b = run_trace(s, case["actions"], seed_all=False, verbose=True)
    rb = rng_state()
    compare(a, b, "verbose=True")
    ensure(ra == rb, "verbose=True leaves another random state than verbose=False")
    return [s["top"], s["opt"]] if any(moves([t]) for t in a) else None


PARTS = ["create", "create_discrete", "generate", "velocity", "discrete", "random_top", "ring", "pyramid", "vonneumann", "bh_random", "bh", "vh", "oh_random", "random_search", "grid_search"]


@st.composite
def parts_case(draw, parts=None):
    n, d = draw(st.integers(3, 10)), draw(st.integers(2, 3))
    if draw(st.integers(0, 3)) == 3:
        n = draw(st.sampled_from([24, 51, 65, 101, 150]))
    return dict(
        part=draw(st.sampled_from(parts or PARTS)),
        n=n, d=d, b=draw(gen.bounds(d)), clamp=draw(gen.clamp_for(d)), x=draw(gen.matrix_desc()), seed=draw(gen.seeds),
        noise=draw(st.lists(st.tuples(st.sampled_from(NOISE), gen.seeds), max_size=2)), static=draw(st.booleans()),
        repeat=draw(st.integers(1, 3)),
        bh=draw(st.sampled_from(gen.BH)), vh=draw(st.sampled_from(gen.VH)),
    )


def new_keys(options, order):
    """The same dict with key strings of its own, allocated in another order."""
    names = sorted(options)
    np.random.RandomState(order).shuffle(names)
    own = {k: "".join(list(k)) for k in names}
    return {own[k]: v for k, v in options.items()}


def part(case, order=0):
    import pyswarms as ps
    from pyswarms.backend import generators as G
    from pyswarms.backend import topology as T
    from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
    from pyswarms.backend.swarms import Swarm
    from pyswarms.utils.search import GridSearch, RandomSearch

    k, n, d = case["part"], case["n"], case["d"]
    b, cl = gen.mk_bounds(case["b"]), gen.mk_clamp(case["clamp"])
    x = gen.seeded_matrix(case["x"], n, d)
    f = lambda y: (np.asarray(y, float) ** 2).sum(axis=1)  # noqa: E731
    out = []
    np.random.seed(case["seed"])
    top = {"random_top": T.Random, "ring": T.Ring, "pyramid": T.Pyramid}.get(k)
    top = top(static=case["static"]) if top else T.VonNeumann()
    bh, vh = BoundaryHandler("random" if k == "bh_random" else case["bh"]), VelocityHandler(case["vh"])
    for i in range(case["repeat"]):
        if k == "create":
            s = G.create_swarm(n, d, bounds=b, clamp=cl)
            out += [s.position, s.velocity]
        elif k == "create_discrete":
            s = G.create_swarm(n, d, discrete=True, binary=bool(i % 2))
            out += [s.position, s.velocity]
        elif k == "generate":
            out += [G.generate_swarm(n, d, bounds=b), G.generate_swarm(n, d)]
        elif k == "velocity":
            out += [G.generate_velocity(n, d, clamp=cl), G.generate_velocity(n, d)]
        elif k == "discrete":
            out += [G.generate_discrete_swarm(n, d, binary=True), G.generate_discrete_swarm(n, d)]
        elif k in ("random_top", "ring", "pyramid", "vonneumann"):
            y = x + i
            s = Swarm(position=y, velocity=np.zeros_like(y), pbest_pos=y.copy(), pbest_cost=f(y), current_cost=f(y))
            kw = {"random_top": dict(k=max(1, n - 2) if n < 20 else 3), "ring": dict(p=2, k=2), "vonneumann": dict(p=1, r=0)}.get(k, {})
            pos, cost = top.compute_gbest(s, **kw)
            out += [pos, cost] + [np.array(list(v)) for v in top.neighbor_idx]
        elif k in ("bh_random", "bh"):
            lo, hi = gen.bnd(case["b"])
            y = lo + (hi - lo) * ((x + i) % 3 - 1)
            out += [np.array(bh(y.copy(), b))]
        elif k == "vh":
            y = x + i
            out += [np.array(vh(y.copy(), cl, position=y * 0.5, bounds=b))]
        elif k == "oh_random":
            oh = OptionsHandler(new_keys({"w": "random", "c1": "nonlin_mod", "c2": "random"}, order))
            o = oh(new_keys({"w": 0.9, "c1": 1.0, "c2": 2.0}, order + 1), iternow=i, itermax=9)
            out += [o["w"], o["c1"], o["c2"]]
        elif k == "random_search":
            r = RandomSearch(ps.single.LocalBestPSO, n, d, new_keys(dict(c1=[0, 1], c2=[2, 4], w=[0.2, 0.9], k=[1, 3], p=2), order), f, 2, 3, bounds=b)
            out += [v for q in r.generate_grid() for _, v in sorted(q.items())]
            c, o = r.search()
            out += [c] + [o[q] for q in sorted(o)]
        elif k == "grid_search":
            r = GridSearch(ps.single.LocalBestPSO, n, d, new_keys(dict(c1=[0.1, 1], c2=0.5, w=[0.2, 0.9], k=2, p=2), order), f, 2, bounds=b)
            c, o = r.search()
            out += [c] + [o[q] for q in sorted(o)]
    return [np.array(v, copy=True) for v in out], rng_state()


@facet(
    "C12",
    "parts",
    parts_case(),
    quick=1200,
    shards=4,
    rule="every case: a generator, topology, handler or search is called twice from the same seed, with unrelated library use in between",
)
def c12_parts(case):
    a, ra = part(case)
    for kind, seed in case["noise"]:
        make_noise(kind, seed)
    b, rb = part(case, order=case["seed"] % 97 + 1)
    ensure(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)), "{}: the second call differs", case["part"])
    ensure(ra == rb, "{}: the calls leave different random states", case["part"])
    return [case["part"]]


CHILD = """
import sys, json, hashlib
sys.path[:0] = [sys.argv[1], sys.argv[2]]
sys.path.append(sys.argv[3])
import warnings; warnings.simplefilter("ignore")
import numpy as np; np.seterr(all="ignore")
import core; core.CONF.update(repo=sys.argv[2], verif=sys.argv[4])
import logging; logging.disable(logging.CRITICAL)
import props_meta as m
out = []
for case in json.load(sys.stdin):
    if "part" in case:
        a, r = m.part(case)
        out.append(hashlib.sha1(repr(([v.tolist() for v in a], r)).encode()).hexdigest())
    else:
        _, a = m.run_trace(case["spec"], case["actions"], seed_all=False)
        out.append(hashlib.sha1(repr([[k, [v.tolist() for v in t[k]]] for t in a for k in sorted(t)]).encode()).hexdigest())
print(json.dumps(out))
"""


def in_process(cases, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    here = os.path.dirname(os.path.abspath(__file__))
    hypo = [p for p in sys.path if "pyvenv" in p][-1]
    p = subprocess.run(
        [sys.executable, "-c", CHILD, here, CONF["repo"], hypo, CONF["verif"]],
        input=json.dumps(cases), capture_output=True, text=True, env=env, timeout=170,
    )
    if p.returncode != 0:
        if CONF["repo"] + "/pyswarms" in p.stderr:
            raise Violation("a run failed in a new process: " + p.stderr[-600:])
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(p.stdout.strip().splitlines()[-1])


@st.composite
def process_case(draw):
    return dict(
        cases=[draw(verbose_case() if draw(st.booleans()) else parts_case()) for _ in range(draw(st.integers(3, 8)))]
        + [draw(parts_case(["random_search"])), draw(parts_case(["random_search"])), draw(parts_case(["grid_search"])), draw(parts_case(["oh_random"]))],
        hashseeds=[draw(st.integers(0, 1000)), draw(st.integers(1001, 2000))],
    )


@facet("C12", "processes", process_case(), quick=16, shards=4, rule="every case: seeded histories run in two new processes with different hash seeds")
def c12_processes(case):
    a = in_process(case["cases"], case["hashseeds"][0])
    b = in_process(case["cases"][::-1], case["hashseeds"][1])[::-1]
    for i, (x, y) in enumerate(zip(a, b)):
        ensure(x == y, "history {} of the case differs between two processes: {}", i, json.dumps(case["cases"][i])[:300])
    return True


# ---------------------------------------------------------------- C13
def snapshot(v):
    return pickle.dumps(v)


@st.composite
def arguments_case(draw):
    s = draw(gen.spec(oh=True, ftol=True))
    return dict(spec=s, actions=draw(gen.actions(max_iters=6)), shared=draw(st.booleans()))


@facet("C13", "arguments", arguments_case(), quick=1200, shards=2, rule="counted when there is something to modify: bounds, clamp, initial positions or strategies (options always)")
def c13_arguments(case):
    s = case["spec"]
    args = dict(options=gen.mk_options(s), velocity_clamp=gen.mk_spec_clamp(s), init_pos=gen.mk_init(s))
    if s["opt"] != "binary":
        args["bounds"] = gen.mk_bounds(s["bounds"])
        args["oh_strategy"] = dict(s["oh"]) if s.get("oh") else {}
    before = copy.deepcopy(args)
    if args["init_pos"] is not None:
        # reaching the objective with the caller's array would let it be modified later
        args["init_pos"].flags.writeable = case["shared"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s, **args)

    def check(when):
        for k, v in args.items():
            w = before[k]
            if isinstance(w, tuple):
                ok = isinstance(v, tuple) and len(v) == len(w) and all(same(a, b) and type(a) is type(b) for a, b in zip(v, w))
            elif isinstance(w, np.ndarray):
                ok = same(v, w) and v.dtype == w.dtype
            else:
                ok = v == w
            ensure(ok, "{} was modified {}: {} instead of {}", k, when, v, w)

    check("by the constructor")
    for i, a in enumerate(case["actions"]):
        if a[0] == "reset":
            o.reset()
        else:
            o.optimize(gen.Objective(a[3]), a[1], verbose=False)
        check("by action %d" % i)
    nt = s["clamp"] is not None or s["init"] is not None or s.get("bounds") is not None or s.get("oh")
    return [s["opt"], s["top"]] if nt else None


@st.composite
def operators_case(draw):
    n, d = draw(st.integers(3, 9)), draw(st.integers(2, 3))
    return dict(
        n=n, d=d, x=draw(gen.matrix_desc()), v=draw(gen.matrix_desc(kinds=("uniform", "normal", "grid"))), b=draw(gen.bounds(d)),
        clamp=draw(st.one_of(st.none(), gen.clamp_for(d))), bh=draw(st.sampled_from(gen.BH)), vh=draw(st.sampled_from(gen.VH)),
        op=draw(st.sampled_from(["pbest", "velocity", "position", "objective", "star", "ring", "vonneumann", "pyramid", "random", "generate", "create", "oh"])),
        seed=draw(gen.seeds), static=draw(st.booleans()), inside=draw(st.booleans()),
    )


@facet("C13", "operators", operators_case(), quick=1500, shards=2, rule="every case: one backend operator, generator or topology, all its arguments compared before and after")
def c13_operators(case):
    from pyswarms.backend import generators as G
    from pyswarms.backend import operators as P
    from pyswarms.backend import topology as T
    from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
    from pyswarms.backend.swarms import Swarm

    n, d, op = case["n"], case["d"], case["op"]
    np.random.seed(case["seed"])
    lo, hi = gen.bnd(case["b"])
    x = gen.seeded_matrix(case["x"], n, d)
    if case["inside"]:
        x = lo + (hi - lo) * (x - x.min()) / max(1e-9, x.max() - x.min())
        x = np.clip(x, lo, hi)
    v = gen.seeded_matrix(case["v"], n, d)
    r = np.random.RandomState(case["seed"])
    s = Swarm(
        position=x, velocity=v, pbest_pos=x + r.uniform(-1, 1, (n, d)), pbest_cost=r.randint(0, 5, n).astype(float),
        current_cost=r.randint(0, 5, n).astype(float), best_pos=r.uniform(-1, 1, d), best_cost=2.5, options=dict(c1=0.5, c2=1.5, w=0.7),
    )
    bounds, clamp = gen.mk_bounds(case["b"]), gen.mk_clamp(case["clamp"])
    opts = dict(c1=1.0, c2=2.0, w=0.9)
    keys = ["position", "velocity", "pbest_pos", "pbest_cost", "current_cost", "best_pos", "best_cost", "options", "n_particles", "dimensions"]
    if op == "random":
        keys = [k for k in keys]

    def state():
        return [copy.deepcopy(getattr(s, k)) for k in keys] + [copy.deepcopy(bounds), copy.deepcopy(clamp), dict(opts), x.copy()]

    before = state()
    bh, vh = BoundaryHandler(case["bh"]), VelocityHandler(case["vh"])
    bh.memory, vh.memory = x.copy(), x.copy()
    top = {"ring": T.Ring, "pyramid": T.Pyramid, "random": T.Random}.get(op)
    top = top(static=case["static"]) if top else T.Star() if op == "star" else T.VonNeumann()
    if op == "pbest":
        P.compute_pbest(s)
    elif op == "velocity":
        P.compute_velocity(s, clamp, vh, bounds)
        top.compute_velocity(s, clamp, vh, bounds)
    elif op == "position":
        P.compute_position(s, bounds, bh)
        top.compute_position(s, bounds, bh)
    elif op == "objective":
        P.compute_objective_function(s, lambda p: p.sum(axis=1))
    elif op in ("star", "ring", "vonneumann", "pyramid", "random"):
        kw = dict(ring=dict(p=2, k=2), vonneumann=dict(p=1, r=0), random=dict(k=2)).get(op, {})
        for _ in range(2):
            top.compute_gbest(s, **kw)
    elif op == "generate":
        G.generate_swarm(n, d, bounds=bounds)
        G.generate_velocity(n, d, clamp=clamp)
        if case["inside"]:
            G.generate_swarm(n, d, bounds=bounds, init_pos=x)
    elif op == "create":
        G.create_swarm(n, d, bounds=bounds, clamp=clamp, options=opts, init_pos=x if case["inside"] else None)
    elif op == "oh":
        oh = OptionsHandler(dict(w="lin_variation", c1="random", c2="nonlin_mod"))
        oh(opts, iternow=1, itermax=5)
        oh(opts, iternow=1, itermax=5, end_opts=dict(w=0.1))
    names = keys + ["bounds", "clamp", "options argument", "positions argument"]
    for name, a, b in zip(names, before, state()):
        if isinstance(a, tuple):
            ok = all(same(p, q) for p, q in zip(a, b))
        elif isinstance(a, np.ndarray):
            ok = same(a, b)
        else:
            ok = a == b
        ensure(ok, "{} modified {}: {} instead of {}", op, name, b, a)
    return [op]


@st.composite
def cousin(draw, a):
    """A spec of the same shape and strategies with other values."""
    t = dict(a, seed=draw(gen.seeds), init=None, options=dict(a["options"]))
    for k in ("c1", "c2", "w"):
        t["options"][k] = draw(gen.coeff if k != "w" else gen.inertia)
    if "p" in t["options"]:
        t["options"]["p"] = draw(st.sampled_from([1, 2]))
    if a.get("bounds"):
        t["bounds"] = draw(gen.bounds(a["d"]))
    if a["clamp"]:
        t["clamp"] = draw(gen.clamp_for(a["d"]))
    return t


@st.composite
def order_case(draw):
    """Families of related runs; what one leaves behind shows when the order changes."""
    out = []
    acts = gen.actions(max_iters=6, max_calls=2)
    for _ in range(draw(st.integers(2, 5))):
        a = draw(gen.spec(max_n=7, max_d=3, oh=True, ftol=True))
        if "clamp" not in a or draw(st.booleans()):
            a["clamp"] = None
        fam = [a] + [draw(cousin(a)) for _ in range(draw(st.integers(1, 2)))]
        if draw(st.booleans()) and a["opt"] != "binary":
            fam.append(dict(draw(cousin(a)), bh=draw(st.sampled_from(gen.BH))))
        out += [dict(spec=t, actions=draw(acts)) for t in fam]
    out += [draw(parts_case()) for _ in range(draw(st.integers(1, 4)))]
    return dict(cases=out, shuffle=draw(gen.seeds))


@facet("C13", "order", order_case(), quick=16, shards=4, rule="every case: seeded runs in families of the same shape, in two new processes in opposite orders, and in a third one shuffled")
def c13_order(case):
    cs = case["cases"]
    a = in_process(cs, 0)
    b = in_process(cs[::-1], 0)[::-1]
    perm = np.random.RandomState(case["shuffle"]).permutation(len(cs))
    c = [None] * len(cs)
    for i, v in zip(perm, in_process([cs[i] for i in perm], 0)):
        c[i] = v
    for i in range(len(cs)):
        ensure(
            a[i] == b[i] == c[i], "what run {} of the case does depends on the runs before it: {}", i, json.dumps(cs[i])[:300]
        )
    return True


@st.composite
def interleave_case(draw):
    kw = dict(max_n=7, max_d=3, oh=True)
    a = draw(gen.spec(**kw))
    others = [draw(gen.spec(**kw)) for _ in range(draw(st.integers(1, 2)))]
    if draw(st.booleans()):
        others[0] = dict(a, seed=draw(gen.seeds))  # the same configuration
    elif draw(st.booleans()):  # the same shapes and strategies, other values
        others[0] = draw(cousin(a))
    return dict(
        a=a, others=others, actions=draw(gen.actions(max_iters=6)), iters=draw(st.integers(1, 4)), share=draw(st.booleans()),
        mode=draw(st.sampled_from(["between", "inside", "before"])), seed=draw(gen.seeds), objective=draw(gen.objective(("sphere", "linear", "steps", "table"))),
    )


@facet(
    "C13",
    "interleave",
    interleave_case(),
    quick=1000,
    shards=4,
    rule="counted when the observed particles move; one optimizer alone against the same with others run between its calls or inside its objective",
)
def c13_interleave(case):
    s = case["a"]
    _, alone = run_trace(s, case["actions"])
    shared = dict(options=gen.mk_options(s), velocity_clamp=gen.mk_spec_clamp(s), init_pos=gen.mk_init(s))
    if s["opt"] != "binary":
        shared["bounds"] = gen.mk_bounds(s["bounds"])
        if s.get("oh"):
            shared["oh_strategy"] = dict(s["oh"])

    def build(t):
        same_conf = {k: v for k, v in t.items() if k != "seed"} == {k: v for k, v in s.items() if k != "seed"}
        return gen.mk_optimizer(t, **shared) if case["share"] and same_conf else gen.mk_optimizer(t)

    others = []

    def disturb():
        """Run the other optimizers, leaving numpy's random state alone."""
        state = np.random.get_state()
        np.random.seed(case["seed"])
        if not others:
            others.extend(build(t) for t in case["others"])
        for o in others:
            o.optimize(gen.Objective(case["objective"]), case["iters"], verbose=False)
        np.random.set_state(state)

    def fn_of(desc):
        f = gen.Objective(desc)
        if case["mode"] != "inside":
            return f

        def g(x):
            disturb()
            return f(x)

        return g

    if case["mode"] == "before":
        disturb()
    _, mixed = run_trace(
        s, case["actions"], fn_of=fn_of, before_call=disturb if case["mode"] == "between" else None, build=build
    )
    compare(alone, mixed, "with other optimizers " + case["mode"])
    return [case["mode"], "shared" if case["share"] else "own", s["top"]] if any(moves([t]) for t in alone) else None


class Machine:
    """A topology with handlers and a swarm of its own, advanced step by step through the backend."""

    def __init__(self, s):
        from pyswarms.backend import create_swarm
        from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler

        self.s = s
        np.random.seed(s["seed"])
        self.swarm = create_swarm(s["n"], s["d"], bounds=gen.mk_bounds(s["bounds"]), clamp=gen.mk_spec_clamp(s), options=gen.mk_options(s))
        self.top = gen.mk_topology(s)
        self.bh, self.vh, self.oh = BoundaryHandler(s["bh"]), VelocityHandler(s["vh"]), OptionsHandler(s.get("oh") or {})
        self.bounds, self.clamp = gen.mk_bounds(s["bounds"]), gen.mk_spec_clamp(s)
        self.t = 0

    def step(self, seed):
        from pyswarms.backend import operators as P

        np.random.seed(seed)
        sw, s = self.swarm, self.s
        if self.t == 0:
            sw.pbest_cost = np.full(s["n"], np.inf)
            self.bh.memory = self.vh.memory = sw.position
        sw.current_cost = (sw.position ** 2).sum(axis=1) + np.random.rand(s["n"])
        sw.pbest_pos, sw.pbest_cost = P.compute_pbest(sw)
        sw.best_pos, sw.best_cost = self.top.compute_gbest(sw, **{k: v for k, v in s["options"].items() if k in ("k", "p", "r")})
        sw.options = self.oh(s["options"], iternow=self.t, itermax=20)
        sw.velocity = self.top.compute_velocity(sw, self.clamp, self.vh, self.bounds)
        sw.position = self.top.compute_position(sw, self.bounds, self.bh)
        self.t += 1
        return [
            np.array(v, copy=True)
            for v in (sw.best_pos, sw.best_cost, sw.pbest_pos, sw.pbest_cost, sw.velocity, sw.position, [sw.options[k] for k in ("w", "c1", "c2")])
        ]


@st.composite
def machines_case(draw):
    kw = dict(opts=("general",), max_n=9, max_d=3, oh=True, clamp=True, init=False)
    a = draw(gen.spec(**kw))
    ms = [a]
    for _ in range(draw(st.integers(1, 2))):
        ms.append(draw(st.one_of(st.just(a), st.just(a), gen.spec(**kw))))
    ms = [dict(m, seed=draw(gen.seeds)) for m in ms]
    order = draw(st.lists(st.tuples(st.integers(0, len(ms) - 1), gen.seeds).map(list), min_size=3, max_size=14))
    return dict(machines=ms, order=order)


@facet(
    "C13",
    "machines",
    machines_case(),
    quick=1200,
    shards=4,
    rule="topologies with handlers and swarms of their own advanced in turns against each advanced alone; counted when one is left and resumed",
)
def c13_machines(case):
    want = []
    for j, m in enumerate(case["machines"]):
        one = Machine(m)
        want.append([one.step(seed) for i, seed in case["order"] if i == j])
    all_ = [Machine(m) for m in case["machines"]]
    for i, seed in case["order"]:
        k = all_[i].t
        got = all_[i].step(seed)
        for name, u, v in zip(("best position", "best cost", "personal bests", "personal best costs", "velocity", "position", "options"), want[i][k], got):
            ensure(same(u, v), "step {} of machine {}: the {} is {} instead of {} when others work in between", k, i, name, v.tolist(), u.tolist())
    who = [i for i, _ in case["order"]]
    resumed = any(who[p] == who[r] != who[q] for p in range(len(who)) for q in range(p + 1, len(who)) for r in range(q + 1, len(who)))
    return sorted({m["top"] for m in case["machines"]} | ({"static"} if any(m["static"] for m in case["machines"]) else set())) if resumed else None


@st.composite
def swarms_case(draw):
    return dict(
        how=draw(st.sampled_from(["Swarm", "create", "create_discrete", "optimizers", "topologies", "handlers"])),
        n=draw(st.integers(2, 6)), d=draw(st.integers(1, 3)), seed=draw(gen.seeds), value=draw(gen.nice), key=draw(st.sampled_from(["c1", "w", "z"])),
    )


@facet("C13", "swarms", swarms_case(), quick=400, rule="every case: two default-constructed objects, one of which is modified")
def c13_swarms(case):
    import pyswarms as ps
    from pyswarms.backend import create_swarm
    from pyswarms.backend import topology as T
    from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler
    from pyswarms.backend.swarms import Swarm

    n, d, how = case["n"], case["d"], case["how"]
    np.random.seed(case["seed"])

    def one():
        if how == "Swarm":
            return Swarm(position=np.zeros((n, d)), velocity=np.zeros((n, d)))
        if how == "create":
            return create_swarm(n, d)
        if how == "create_discrete":
            return create_swarm(n, d, discrete=True)
        o = ps.single.GlobalBestPSO(n, d, dict(c1=0.5, c2=0.3, w=0.9))
        return o.swarm

    if how == "topologies":
        x = np.random.normal(size=(n + 3, 2))
        c = (x ** 2).sum(axis=1)
        for cls, kw in ((T.Ring, dict(k=1, p=2)), (T.Pyramid, {}), (T.Random, dict(k=1))):
            a, b = cls(static=True), cls(static=True)
            sw = Swarm(position=x, velocity=x, pbest_pos=x, pbest_cost=c, current_cost=c)
            a.compute_gbest(sw, **kw)
            ensure(b.neighbor_idx is None, "{}: an unused topology has neighbours", cls.__name__)
        return [how]
    if how == "handlers":
        lo, hi = np.zeros(d), np.ones(d)
        x = np.random.normal(size=(n, d)) * 0.1 + 0.5
        for cls, strat in ((BoundaryHandler, "shrink"), (BoundaryHandler, "intermediate"), (VelocityHandler, "adjust")):
            a, b = cls(strat), cls(strat)
            if cls is BoundaryHandler:
                a(x.copy(), (lo, hi))
            else:
                a(x.copy(), None, position=x)
            ensure(a.memory is not None, "{} {} remembers nothing", cls.__name__, strat)
            ensure(b.memory is None, "{} {}: an unused handler remembers positions", cls.__name__, strat)
        return [how]
    a = one()
    a.options[case["key"]] = case["value"]
    b = one()
    ensure(b.options is not a.options, "two swarms share their options")
    c = one()
    keys = ["position", "velocity", "pbest_pos", "pbest_cost", "current_cost", "best_pos"]
    before = copy.deepcopy([getattr(c, k) for k in keys]), dict(c.options)
    b.options[case["key"]] = -77.0
    a.options["new"] = 1
    for sw in (a, b):
        for k in keys:
            v = getattr(sw, k)
            if isinstance(v, np.ndarray) and v.size:
                v += 1 if v.dtype.kind in "iu" else 1000.0
    ensure(
        all(same(x, getattr(c, k)) for k, x in zip(keys, before[0])) and c.options == before[1],
        "modifying a swarm changed another one",
    )
    return [how]


@st.composite
def others_case(draw):
    return dict(
        what=draw(st.sampled_from(["grid", "random", "cost", "contour", "surface", "history3d"])), seed=draw(gen.seeds), n=draw(st.integers(4, 7)),
        iters=draw(st.integers(1, 4)), b=draw(gen.bounds(2)),
    )


@facet("C13", "helpers", others_case(), quick=120, rule="every case: a search or plot helper, its arguments compared before and after")
def c13_helpers(case):
    import pyswarms as ps
    from pyswarms.utils.plotters import plot_contour, plot_cost_history, plot_surface
    from pyswarms.utils.plotters.formatters import Animator, Designer, Mesher
    from pyswarms.utils.search import GridSearch, RandomSearch
    from props_utils import figures

    r = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"])
    b = gen.mk_bounds(case["b"])
    f = lambda x: (np.asarray(x, float) ** 2).sum(axis=1)  # noqa: E731
    grid = dict(c1=[0.5, 1.0], c2=[0.3, 0.6], w=[0.4, 0.9], k=[1, 3], p=2)
    hist = [r.normal(size=(case["n"], 2)) for _ in range(case["iters"])]
    costs = [float(v) for v in r.normal(size=case["iters"])]
    clamp = (np.array([-1.0, -2.0]), np.array([1.0, 2.0]))
    dim = 3 if case["what"] == "surface" else 2
    if dim == 3:
        hist = [r.normal(size=(case["n"], 3)) for _ in range(case["iters"])]
    limits = [(-1.0, 1.5)] * 3
    des = Designer(limits=limits[:dim], label=["a", "b", "c"], figsize=(3, 2))
    mesher, anim = Mesher(f, delta=0.25, limits=limits[:2]), Animator(interval=33)
    mark = [0.5] * dim
    args = [grid, hist, costs, b, clamp]
    before = copy.deepcopy(args)
    fields = [
        (o, k)
        for o, ks in (
            (des, ("figsize", "title_fontsize", "text_fontsize", "legend", "label", "limits")),
            (mesher, ("func", "delta", "limits", "levels", "alpha")),
            (anim, ("interval", "repeat_delay", "repeat")),
        )
        for k in ks
    ]
    had = [copy.deepcopy(getattr(o, k)) for o, k in fields]
    if case["what"] in ("grid", "random"):
        cls = GridSearch if case["what"] == "grid" else RandomSearch
        extra = () if case["what"] == "grid" else (3,)
        g = cls(ps.single.LocalBestPSO, case["n"], 2, grid, f, case["iters"], *extra, bounds=b, velocity_clamp=clamp)
        g.search()
        g.search(maximum=True)
    else:
        with figures():
            from props_utils import frame_reader

            for _ in range(2):  # the second use finds the formatters as they were
                if case["what"] == "cost":
                    plot_cost_history(costs, designer=des)
                elif case["what"] in ("contour", "surface"):
                    plot = plot_contour if dim == 2 else plot_surface
                    plot(hist, mesher=mesher, designer=des, animator=anim, mark=mark).save("x", writer=frame_reader())
                else:
                    mesher.compute_history_3d(hist)
        ensure(mark == [0.5] * dim, "the mark was modified: {}", mark)
        for (o, k), v in zip(fields, had):
            got = getattr(o, k)
            ok = same(v, got) if isinstance(v, np.ndarray) else v == got
            ensure(ok, "{} changed the caller's {}.{} from {} to {}", case["what"], type(o).__name__, k, v, got)
    for a, c in zip(before, args):
        if isinstance(a, dict):
            ensure(a == c, "{} changed {} to {}", case["what"], a, c)
        else:
            ensure(len(a) == len(c) and all(same(x, y) for x, y in zip(a, c)), "{} changed its argument {} to {}", case["what"], a, c)
    return [case["what"]]


# ---------------------------------------------------------------- C14
@st.composite
def reset_case(draw):
    s = draw(gen.spec(oh=True, ftol=True))
    if s["opt"] != "binary" and not s["bounds"] and draw(st.booleans()):
        s["center"] = draw(st.sampled_from([0.5, 2.0, -3.0, 100.0]))
    pre = []
    for _ in range(draw(st.integers(1, 3))):
        fail = draw(st.sampled_from([None, None, "ValueError", "RuntimeError", "KeyboardInterrupt"]))
        pre.append([draw(st.integers(1, 8)), draw(gen.seeds), draw(gen.objective()), fail, draw(st.integers(0, 7))])
        if draw(st.integers(0, 4)) == 0:
            pre.append("reset")
    return dict(spec=s, pre=pre, seeds=[draw(gen.seeds), draw(gen.seeds), draw(gen.seeds)], post=draw(gen.actions(max_calls=2, resets=False, max_iters=8)))


SWARM_KEYS = ["position", "velocity", "pbest_pos", "best_pos", "pbest_cost", "best_cost", "current_cost", "options", "n_particles", "dimensions"]


@facet(
    "C14",
    "reset",
    reset_case(),
    quick=2000,
    shards=4,
    rule="counted when the optimizer was used before reset() (always); tags: failed calls, early stops, and whether later runs are compared",
)
def c14_reset(case):
    from pyswarms.backend import create_swarm

    s, q = case["spec"], case["seeds"]
    np.random.seed(q[0])
    o = gen.mk_optimizer(s)
    conf = lambda x: copy.deepcopy(  # noqa: E731
        [x.options, x.velocity_clamp, x.init_pos, x.n_particles, x.dimensions, x.swarm_size, x.ftol, x.ftol_iter]
        + ([x.bounds, x.center, x.bh.strategy, x.oh.strategy] if s["opt"] != "binary" else [x.binary])
        + [x.vh.strategy, x.top.static, type(x.top).__name__]
    )
    before = conf(o)
    tags = set()
    for p in case["pre"]:
        if p == "reset":
            o.reset()
            tags.add("reset twice")
            continue
        iters, seed, obj, fail, at = p
        np.random.seed(seed)
        rec = gen.Recorder(gen.Objective(obj), s["n"], s["d"])
        if fail is not None and at < iters:
            rec.fail_at, rec.exc = at, {"ValueError": ValueError, "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt}[fail]("planned")
        try:
            o.optimize(rec, iters, verbose=False)
        except (ValueError, RuntimeError, KeyboardInterrupt) as exc:
            if str(exc) != "planned":
                raise
            tags.add("failed")
        else:
            if len(rec.X) < iters:
                tags.add("early stop")
    np.random.seed(q[1])
    o.reset()
    ra = rng_state()
    for h in gen.HISTS:
        v = getattr(o, h)
        ensure(isinstance(v, list) and len(v) == 0, "{} has {} entries after reset()", h, len(v))
    after = conf(o)
    for a, b in zip(before, after):
        if isinstance(a, tuple):
            ok = isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        elif isinstance(a, np.ndarray):
            ok = same(a, b)
        else:
            ok = a == b
        ensure(ok, "the configuration changed from {} to {}", a, b)
    np.random.seed(q[2])
    fresh = gen.mk_optimizer(s)
    np.random.seed(q[1])
    fresh.reset()
    ensure(rng_state() == ra, "reset() leaves another random state on a used optimizer")
    # as the constructor would: the same swarm create_swarm() gives for these arguments
    np.random.seed(q[1])
    kw = dict(n_particles=s["n"], dimensions=s["d"], init_pos=gen.mk_init(s), clamp=gen.mk_spec_clamp(s), options=gen.mk_options(s))
    if s["opt"] == "binary":
        ref = create_swarm(discrete=True, binary=True, **kw)
    else:
        ref = create_swarm(bounds=gen.mk_bounds(s["bounds"]), center=s.get("center", 1.0), **kw)
    for name, other in (("a new optimizer's", fresh.swarm), ("create_swarm()'s", ref)):
        for k in SWARM_KEYS:
            a, b = getattr(other, k), getattr(o.swarm, k)
            ok = a == b if isinstance(a, dict) else same(a, b)
            ensure(ok, "after reset() the swarm's {} is {} and {} is {}", k, b, name, a)
    if s["top"] == "vonneumann" or s["static"] and s["top"] in ("ring", "pyramid", "random"):
        tags.add("static")
        return sorted(tags) + [s["opt"]]
    for a in case["post"]:
        tr = []
        for x in (fresh, o):
            np.random.seed(a[2])
            ret = x.optimize(gen.Objective(a[3]), a[1], verbose=False)
            t = trace_of(x, ret)
            t["result"].append(np.array(rng_state()))
            tr.append(t)
        d = diff(*tr)
        ensure(d is None, "after reset() the optimizer differs from a new one: {}", d)
    return sorted(tags) + ["results", s["top"], s["opt"]]


@st.composite
def like_new_case(draw):
    s = draw(gen.spec(oh=True, ftol=True, statics=(False,)))
    return dict(spec=s, pre=[draw(st.integers(1, 6)), draw(gen.objective())], seed=draw(gen.seeds))


@facet("C14", "init", like_new_case(), quick=600, rule="every case: after a run and reset(), the initial swarm obeys the constructor's arguments")
def c14_init(case):
    s = case["spec"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    first = o.swarm
    o.optimize(gen.Objective(case["pre"][1]), case["pre"][0], verbose=False)
    np.random.seed(case["seed"])
    o.reset()
    sw = o.swarm
    ensure(sw is not first, "reset() keeps the swarm")
    x = gen.arr(sw.position, (s["n"], s["d"]), "position")
    v = gen.arr(sw.velocity, (s["n"], s["d"]), "velocity")
    if s["init"] is not None:
        ensure(np.array_equal(x, np.array(s["init"])), "reset() ignores init_pos: {}", x.tolist())
    elif s["opt"] == "binary":
        ensure(np.isin(x, (0, 1)).all(), "positions {} are not binary", x.tolist())
    elif s["bounds"] is not None:
        lo, hi = gen.bnd(s["bounds"])
        ensure((x >= lo).all() and (x <= hi).all(), "reset() puts particles out of bounds")
    if s["clamp"] is not None:
        lo, hi = gen.mk_clamp(s["clamp"])
        ensure((v >= lo).all() and (v <= hi).all(), "reset() ignores the clamp: {}", v.tolist())
    return [s["opt"], "init" if s["init"] is not None else "drawn"]


# ---------------------------------------------------------------- C27
INTISH = ["steps", "ints", "table", "const"]


class Transformed:
    def __init__(self, fn, t):
        self.fn, self.t = fn, t

    def __call__(self, x):
        c = np.asarray(self.fn(x), float)
        return apply_order(self.t, c)


def apply_order(t, c):
    kind = t["kind"]
    if kind == "scale":
        return c * 2.0 ** t["k"]
    if kind == "affine":  # exact on multiples of 1/4 below 2**40
        return c * 3.0 + t["k"]
    if kind == "cube":
        return np.array([float(v) if math.isinf(v) else float(int(round(v * 4)) ** 3) for v in c])
    if kind == "log":
        return np.log1p(c)
    if kind == "neg":  # a decreasing negative map of a positive cost: order kept
        return -1.0 / (1.0 + c)
    raise ValueError(kind)


@st.composite
def order_case(draw):
    s = draw(gen.spec(oh=True))
    kind = draw(st.sampled_from(["scale", "scale", "affine", "cube", "log", "neg"]))
    if kind == "scale":
        k = draw(st.sampled_from([-30, -3, -1, 1, 4, 20]))
        kinds = [o for o in gen.OBJ if o != "huge"]
    else:
        k = draw(st.sampled_from([-1e6, -5.0, 7.0, 1000.0]))
        kinds = INTISH
    acts = draw(gen.actions(kinds=tuple(kinds), max_iters=10))
    if kind in ("log", "neg"):  # keep table costs non-negative and few
        for a in acts:
            if a[0] == "opt" and a[3]["kind"] == "table":
                a[3].update(trend=0, levels=min(a[3]["levels"], 10))
    return dict(spec=s, actions=acts, t=dict(kind=kind, k=k))


@facet(
    "C27",
    "order",
    order_case(),
    quick=2000,
    shards=4,
    rule="counted when the particles move; costs are scaled by a power of two, or multiples of 1/4 are mapped by a strictly increasing function",
)
def c27_order(case):
    s, t = case["spec"], case["t"]
    exact = [True]

    def plain(desc):
        f = gen.Objective(desc)

        def g(x):
            c = np.asarray(f(x), float)
            fin = c[np.isfinite(c)]
            if t["kind"] != "scale" and len(fin) and (np.abs(fin).max() > 2 ** 16 or fin.min() < 0 and t["kind"] in ("log", "neg")):
                exact[0] = False
            return c

        return g

    _, a = run_trace(s, case["actions"], fn_of=plain)
    if not exact[0]:
        return None
    _, b = run_trace(s, case["actions"], fn_of=lambda desc: Transformed(gen.Objective(desc), t))
    for i, (x, y) in enumerate(zip(a, b)):
        for k in ("pos_history", "velocity_history", "position", "velocity"):
            d = diff({k: x[k]}, {k: y[k]})
            ensure(d is None, "with transformed costs, after step {}: {}", i, d)
        want = [apply_order(t, np.array([float(c)]))[0] for c in x["cost_history"]]
        got = [float(c) for c in y["cost_history"]]
        ensure(want == got, "with transformed costs, cost_history is {} instead of {}", got, want)
        if "result" in x:
            ensure(same(x["result"][1], y["result"][1]), "with transformed costs, the returned position is {} instead of {}", y["result"][1], x["result"][1])
    return [t["kind"], s["top"], s["opt"]] if any(moves([u]) for u in a) else None


@st.composite
def units_case(draw):
    bounded = draw(st.booleans())
    s = draw(
        gen.spec(
            opts=("global", "local", "general"), tops=("star", "ring", "vonneumann", "random"), bounded=bounded, clamp=True, oh=True,
            init=None if bounded else True,
        )
    )

    def plain(v):  # scaling subnormal numbers is not exact
        if isinstance(v, list):
            return [plain(u) for u in v]
        return 0.0 if abs(v) < 1e-150 else v

    if s["bounds"] is not None:
        for key in ("lo", "hi"):
            s["bounds"][key] = plain(s["bounds"][key])
    if s["init"] is not None:
        s["init"] = plain(s["init"])
    return dict(spec=s, actions=draw(gen.actions(max_iters=10, kinds=tuple(o for o in gen.OBJ if o != "huge"))), k=draw(st.sampled_from([-12, -3, -1, 1, 2, 5, 10])))


def scaled(s, m):
    def mul(v):
        return [mul(u) for u in v] if isinstance(v, list) else v * m

    t = dict(s)
    if s["bounds"] is not None:
        t["bounds"] = dict(s["bounds"], lo=mul(s["bounds"]["lo"]), hi=mul(s["bounds"]["hi"]))
    t["clamp"] = mul(s["clamp"])
    if s["init"] is not None:
        t["init"] = mul(s["init"])
    return t


@facet(
    "C27",
    "units",
    units_case(),
    quick=2000,
    shards=4,
    rule="counted when the particles move; space is scaled by a power of two, so that equality is exact",
)
def c27_units(case):
    s, m = case["spec"], 2.0 ** case["k"]
    _, a = run_trace(s, case["actions"])

    def fn_of(desc):
        f = gen.Objective(desc)
        return lambda x: f(np.asarray(x) / m)

    _, b = run_trace(scaled(s, m), case["actions"], fn_of=fn_of)
    for i, (x, y) in enumerate(zip(a, b)):
        for k in ("pos_history", "velocity_history", "position", "velocity"):
            d = diff({k: [v * m for v in x[k]]}, {k: y[k]})
            ensure(d is None, "with space scaled by {}, after step {}: {}", m, i, d)
        for k in ("cost_history", "mean_pbest_history", "mean_neighbor_history"):
            d = diff({k: x[k]}, {k: y[k]})
            ensure(d is None, "with space scaled by {}, after step {}: {}", m, i, d)
        if "result" in x:
            ensure(same(x["result"][1] * m, y["result"][1]), "with space scaled by {}, the returned position is {}", m, y["result"][1])
    tags = [s["top"], s["vh"]]
    if s["bounds"] is not None:
        tags.append(s["bh"])
    return tags if any(moves([u]) for u in a) else None


# ---------------------------------------------------------------- C28
@st.composite
def twin_case(draw):
    kind = draw(st.sampled_from(["global", "local", "vonneumann"]))
    if kind == "global":
        s = draw(gen.spec(opts=("global",), oh=True, ftol=True))
    elif kind == "local":
        s = draw(gen.spec(opts=("local",), oh=True, ftol=True))
    else:
        s = draw(gen.spec(opts=("general",), tops=("vonneumann",), oh=True, ftol=True))
    return dict(kind=kind, spec=s, actions=draw(gen.actions(max_iters=10)))


@facet(
    "C28",
    "twins",
    twin_case(),
    quick=2000,
    shards=4,
    rule="counted when the particles move; the same seeded history through two classes or topologies",
)
def c28_twins(case):
    s = case["spec"]
    t = dict(s, opt="general")
    if case["kind"] == "vonneumann":
        k = gen.delannoy(s["d"], s["options"]["r"])
        t["top"], t["static"] = "ring", True
        t["options"] = {q: v for q, v in s["options"].items() if q != "r"}
        t["options"]["k"] = k
    _, a = run_trace(s, case["actions"], seed_all=False)
    ra = rng_state()
    _, b = run_trace(t, case["actions"], seed_all=False)
    compare(a, b, {"global": "GeneralOptimizerPSO with Star", "local": "GeneralOptimizerPSO with Ring", "vonneumann": "a static Ring"}[case["kind"]])
    ensure(ra == rng_state(), "the twins leave different random states")
    return [case["kind"], "static" if s["static"] else "dynamic"] if any(moves([u]) for u in a) else None


@st.composite
def loop_case(draw):
    s = draw(gen.spec(opts=("global", "local", "general"), oh=True))
    return dict(
        spec=s, iters=draw(st.integers(1, 10)), seed=draw(gen.seeds), objective=draw(gen.objective()),
        style=draw(st.sampled_from(["topology", "operators", "documented", "defaults"])),
    )


@facet(
    "C28",
    "loop",
    loop_case(),
    quick=2000,
    shards=4,
    rule="counted when the particles move; the documented loop over the backend against optimize(), iteration by iteration",
)
def c28_loop(case):
    from pyswarms.backend import operators as P
    from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler

    s, style = case["spec"], case["style"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    sw = copy.deepcopy(o.swarm)
    np.random.seed(case["seed"])
    ret = o.optimize(gen.Objective(case["objective"]), case["iters"], verbose=False)
    ra = rng_state()

    bounds, clamp = gen.mk_bounds(s["bounds"]), gen.mk_spec_clamp(s)
    top = gen.mk_topology(s)
    bh, vh = BoundaryHandler(strategy=s["bh"]), VelocityHandler(strategy=s["vh"])
    oh = OptionsHandler(strategy=dict(s.get("oh") or {}))
    bh.memory = vh.memory = sw.position
    f = gen.Objective(case["objective"])
    topkw = {k: v for k, v in s["options"].items() if k in ("k", "p", "r")}
    np.random.seed(case["seed"])
    documented = style == "documented" and s["top"] == "star" and case["objective"]["kind"] not in ("table", "nans")
    sw.pbest_cost = np.full(s["n"], np.inf)
    X, costs = [], []
    for i in range(case["iters"]):
        sw.current_cost = np.array(f(sw.position))
        if documented:
            sw.pbest_cost = np.array(f(sw.pbest_pos))
        sw.pbest_pos, sw.pbest_cost = P.compute_pbest(sw)
        if documented:
            if np.min(sw.pbest_cost) < sw.best_cost or i == 0:
                sw.best_pos, sw.best_cost = top.compute_gbest(sw)
        else:
            sw.best_pos, sw.best_cost = top.compute_gbest(sw, **topkw)
        X.append(sw.position.copy())
        costs.append(float(sw.best_cost))
        sw.options = oh(s["options"], iternow=i, itermax=case["iters"])
        src = P if style == "operators" else top
        if style == "defaults" and s["vh"] == "unmodified":
            sw.velocity = top.compute_velocity(sw, clamp)
        else:
            sw.velocity = src.compute_velocity(sw, clamp, vh, bounds)
        if style == "defaults" and s["bh"] == "periodic":
            sw.position = top.compute_position(sw, bounds)
        else:
            sw.position = src.compute_position(sw, bounds, bh)
    for i in range(case["iters"]):
        ensure(same(o.pos_history[i], X[i]), "iteration {}: the optimizer's positions {} differ from the loop's {}", i, o.pos_history[i].tolist(), X[i].tolist())
        ensure(float(o.cost_history[i]) == costs[i], "iteration {}: the optimizer's best cost is {}, the loop's {}", i, o.cost_history[i], costs[i])
    ensure(len(o.cost_history) == case["iters"], "{} iterations", len(o.cost_history))
    ensure(same(o.swarm.position, sw.position) and same(o.swarm.velocity, sw.velocity), "the final swarms differ")
    ensure(float(ret[0]) == costs[-1], "the returned cost {} is not the loop's {}", ret[0], costs[-1])
    best = sw.pbest_cost.min()
    ensure(any(same(sw.pbest_pos[i], ret[1]) for i in range(s["n"]) if sw.pbest_cost[i] == best), "the returned position is not the loop's")
    ensure(ra == rng_state(), "the loop leaves another random state than optimize()")
    return [style, s["top"], s["opt"]] if case["iters"] > 1 and not same(X[0], X[-1]) else None
