"""User-defined topologies and optimizers (C32) and convergence (C33)."""
import os

import numpy as np
from hypothesis import strategies as st

import gen
from core import Violation, ensure, facet, probe
from gen import same
from props_meta import compare, moves, run_trace


# ================================================================ C32
def delegate(inner, s, log):
    """A user's topology, of a type of its own, that leaves the work to a built-in one."""
    from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler
    from pyswarms.backend.topology import Topology

    class Delegate(Topology):
        def __init__(self, static=False):
            super().__init__(static)

        def compute_gbest(self, swarm, **kwargs):
            log.append("gbest")
            return inner.compute_gbest(swarm, **kwargs)

        def compute_velocity(self, swarm, clamp=None, vh=VelocityHandler(strategy="unmodified"), bounds=None):
            log.append("velocity")
            return inner.compute_velocity(swarm, clamp, vh, bounds)

        def compute_position(self, swarm, bounds=None, bh=BoundaryHandler(strategy="periodic")):
            log.append("position")
            return inner.compute_position(swarm, bounds, bh)

    return Delegate(bool(s["static"]))


@st.composite
def delegate_case(draw):
    return dict(spec=draw(gen.spec(opts=("general",), oh=True, ftol=True)), actions=draw(gen.actions(max_iters=8)))


@facet(
    "C32",
    "delegate",
    delegate_case(),
    quick=2000,
    shards=4,
    rule="a topology of a user's type that delegates to a built-in one against that one; counted when the particles move",
)
def c32_delegate(case):
    s = case["spec"]
    log = []
    _, a = run_trace(s, case["actions"])
    _, b = run_trace(s, case["actions"], build=lambda s: gen.mk_optimizer(s, topology=delegate(gen.mk_topology(s), s, log)))
    compare(a, b, "a delegating topology")
    n = len([1 for v in log if v == "gbest"])
    want = 0
    prev = 0
    for act, t in zip(case["actions"], a[1:]):
        if act[0] == "reset":
            prev = 0
        else:
            want += len(t["cost_history"]) - prev
            prev = len(t["cost_history"])
    ensure(n == want, "compute_gbest was called {} times in {} iterations", n, want)
    return [s["top"]] if any(moves([u]) for u in a) else None


RULES = ["drift", "const", "draw", "jump"]


@st.composite
def scripted_case(draw):
    s = draw(gen.spec(opts=("general",), tops=("star",), oh=True))
    s["options"] = dict(s["options"])
    for k, v in draw(st.dictionaries(st.sampled_from(["k", "p", "r", "q", "alpha"]), st.sampled_from([1, 2, 0.5, 3]), max_size=3)).items():
        s["options"][k] = v
    return dict(
        spec=s,
        calls=[[draw(st.integers(1, 7)), draw(gen.seeds), draw(gen.objective())] for _ in range(draw(st.integers(1, 3)))],
        gbest=draw(st.sampled_from(["best", "centroid", "rows", "worst", "last"])),
        rule=draw(st.sampled_from(RULES)),
        order=draw(st.sampled_from(["C", "F"])),
    )


@facet(
    "C32",
    "scripted",
    scripted_case(),
    quick=2000,
    shards=4,
    rule="a user's topology with rules of its own (best: swarm's best, centroid, a row per particle, worst; steps of four kinds): what "
    "it is given and what becomes of its answers; counted when there are two iterations",
)
def c32_scripted(case):
    from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler
    from pyswarms.backend.topology import Topology

    s, n, d = case["spec"], case["spec"]["n"], case["spec"]["d"]
    clamp, bounds = gen.mk_spec_clamp(s), gen.mk_bounds(s["bounds"])
    rs = np.random.RandomState(3)
    log = []  # of the current call

    def equal(a, b):
        if a is None or b is None:
            return a is b
        return len(a) == len(b) == 2 and all(np.array_equal(u, v) for u, v in zip(a, b))

    class Mine(Topology):
        def compute_gbest(self, swarm, **kwargs):
            ensure(swarm is o.swarm, "compute_gbest was given another swarm")
            j = int(np.argmin(swarm.pbest_cost))
            pos, cost = swarm.pbest_pos[j].copy(), float(swarm.pbest_cost[j])
            if case["gbest"] == "centroid":
                pos = swarm.pbest_pos.mean(axis=0)
            elif case["gbest"] == "rows":
                pos = swarm.pbest_pos[::-1].copy()
            elif case["gbest"] == "worst":
                j = int(np.argmax(swarm.pbest_cost))
                pos, cost = swarm.pbest_pos[j].copy(), float(swarm.pbest_cost[j])
            elif case["gbest"] == "last":
                cost = float(swarm.current_cost[-1])
            cost = np.float64(cost)
            log.append(
                dict(
                    kw=kwargs, x=swarm.position.copy(), v=swarm.velocity.copy(), cost=np.array(swarm.current_cost),
                    pb=swarm.pbest_pos.copy(), pbc=swarm.pbest_cost.copy(), best=cost, pos=pos.copy(), steps=[],
                )
            )
            return pos, cost

        def compute_velocity(self, swarm, clamp_=None, vh=None, bounds_=None, **kw):
            got = dict(clamp=clamp_, vh=vh, bounds=bounds_)
            got.update(kw)
            e = log[-1]
            ensure(swarm is o.swarm and same(swarm.position, e["x"]), "compute_velocity was given another swarm")
            ensure(same(swarm.best_pos, e["pos"]) and same(swarm.best_cost, e["best"]), "the swarm carries the best {} {} instead of compute_gbest's {} {}", swarm.best_cost, swarm.best_pos, e["best"], e["pos"].tolist())
            ensure(equal(got["clamp"], clamp), "compute_velocity was given the clamp {} instead of {}", got["clamp"], clamp)
            ensure(equal(got["bounds"], bounds), "compute_velocity was given the bounds {} instead of {}", got["bounds"], bounds)
            ensure(isinstance(got["vh"], VelocityHandler) and got["vh"].strategy == s["vh"], "compute_velocity was given the handler {!r}", got["vh"])
            keys = set(s["options"])
            ensure(set(swarm.options) == keys, "the swarm's options are {} instead of {}", sorted(swarm.options), sorted(keys))
            for k in keys - set(s.get("oh") or {}):
                ensure(swarm.options[k] == s["options"][k], "option {} is {} instead of {}", k, swarm.options[k], s["options"][k])
            if case["rule"] == "drift":
                v = 0.25 * (swarm.best_pos - swarm.position)
            elif case["rule"] == "const":
                v = np.full((n, d), 0.125)
            else:
                v = rs.randint(-3, 4, (n, d)) / 8.0
            v = np.array(v, order=case["order"])
            e["steps"].append("velocity")
            e["newv"] = v.copy()
            return v

        def compute_position(self, swarm, bounds_=None, bh=None, **kw):
            got = dict(bounds=bounds_, bh=bh)
            got.update(kw)
            e = log[-1]
            ensure(same(swarm.velocity, e["newv"]), "compute_position was given the velocity {} instead of compute_velocity's {}", swarm.velocity.tolist(), e["newv"].tolist())
            ensure(equal(got["bounds"], bounds), "compute_position was given the bounds {} instead of {}", got["bounds"], bounds)
            ensure(isinstance(got["bh"], BoundaryHandler) and got["bh"].strategy == s["bh"], "compute_position was given the handler {!r}", got["bh"])
            x = rs.randint(-40, 41, (n, d)) / 4.0 if case["rule"] == "jump" else swarm.position + swarm.velocity
            x = np.array(x, order=case["order"])
            e["steps"].append("position")
            e["newx"] = x.copy()
            return x

    # the parameters of the built-in topologies are called clamp, vh, bounds, bh
    def renamed(f):
        def g(self, swarm, *a, **kw):
            kw = {k + "_" if k in ("clamp", "bounds") else k: v for k, v in kw.items()}
            return f(self, swarm, *a, **kw)

        return g

    Mine.compute_velocity = renamed(Mine.compute_velocity)
    Mine.compute_position = renamed(Mine.compute_position)

    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s, topology=Mine(static=False))
    tags = set()
    for iters, seed, obj in case["calls"]:
        del log[:]
        x, v = o.swarm.position.copy(), o.swarm.velocity.copy()
        c = gen.run_call(o, s, gen.Objective(obj), iters, seed=seed)
        ensure(len(c.X) == len(log) == iters, "{} evaluations and {} calls of compute_gbest in {} iterations", len(c.X), len(log), iters)
        pb, pbc = None, np.full(n, np.inf)
        for t, e in enumerate(log):
            ensure(same(c.X[t], x), "iteration {} evaluated {} instead of what compute_position returned, {}", t, c.X[t].tolist(), x.tolist())
            ensure(same(e["x"], x) and same(e["v"], v), "compute_gbest was given another position or velocity in iteration {}", t)
            ensure(same(np.where(np.isnan(e["cost"]), np.inf, e["cost"]), c.C[t]), "compute_gbest was given the costs {} instead of {}", e["cost"], c.C[t])
            better = c.C[t] < pbc
            if pb is None:
                pb = np.array(x, dtype=float)
            pb[better], pbc[better] = c.X[t][better], c.C[t][better]
            known = np.isfinite(pbc)
            ensure(same(e["pbc"], pbc) and same(e["pb"][known], pb[known]), "compute_gbest was given the personal bests {} {} instead of {} {}", e["pbc"], e["pb"].tolist(), pbc, pb.tolist())
            ensure(e["kw"] == s["options"], "compute_gbest was given the options {} instead of {}", e["kw"], s["options"])
            ensure(e["steps"] == ["velocity", "position"] or t == iters - 1, "iteration {} asked for {}", t, e["steps"])
            x, v = e.get("newx", x), e.get("newv", v)
        ensure(same(o.swarm.position, x) and same(o.swarm.velocity, v), "the swarm ends elsewhere than the topology put it")
        for h, key in (("cost_history", "best"), ("pos_history", "x"), ("velocity_history", "v")):
            got = gen.hist_slice(o, c, h)
            ensure(len(got) == iters and all(same(a, e[key]) for a, e in zip(got, log)), "{} does not hold the topology's values", h)
        ensure(same(c.cost, float(log[-1]["best"])), "optimize() returned the cost {} instead of {}", c.cost, log[-1]["best"])
        if np.isfinite(pbc).any():
            ensure(any(same(c.pos, pb[i]) for i in range(n) if pbc[i] == pbc.min()), "optimize() returned the position {}", c.pos.tolist())
        if iters > 1:
            tags.add(case["gbest"])
            tags.add(case["rule"])
    return sorted(tags) or None


@st.composite
def subclass_case(draw):
    what = draw(st.sampled_from(["continuous", "continuous", "binary", "permutation"]))
    s = draw(gen.spec(opts=("global",) if what == "continuous" else ("binary",), init=None if what != "permutation" else False))
    return dict(what=what, spec=s, actions=draw(gen.actions(max_iters=6)), seed=draw(gen.seeds))


@facet(
    "C32",
    "subclass",
    subclass_case(),
    quick=1200,
    shards=2,
    rule="a user's SwarmOptimizer with the documented loop against GlobalBestPSO, or a DiscreteSwarmOptimizer against its generator, "
    "with resets; counted when an optimize() took place",
)
def c32_subclass(case):
    import pyswarms as ps
    from pyswarms.backend import generators as G
    from pyswarms.backend import operators as P
    from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler
    from pyswarms.base import DiscreteSwarmOptimizer, SwarmOptimizer

    s, n, d = case["spec"], case["spec"]["n"], case["spec"]["d"]

    for base in (SwarmOptimizer, DiscreteSwarmOptimizer):
        half = type("Half", (base,), {})
        try:
            half(*((2, 2, {}) if base is SwarmOptimizer else (2, 2, True, {})))
        except TypeError:
            pass
        else:
            raise Violation("%s without optimize() could be instantiated" % base.__name__)

    def record(self, best):
        self._populate_history(
            self.ToHistory(
                best_cost=best, mean_pbest_cost=np.mean(self.swarm.pbest_cost), mean_neighbor_cost=best, position=self.swarm.position,
                velocity=self.swarm.velocity,
            )
        )

    if case["what"] == "continuous":

        class Mine(SwarmOptimizer):
            def optimize(self, objective_func, iters, n_processes=None, verbose=False, **kwargs):
                w, top = self.swarm, gen.mk_topology(s)
                bh, vh = BoundaryHandler(strategy=s["bh"]), VelocityHandler(strategy=s["vh"])
                bh.memory = vh.memory = w.position
                w.pbest_cost, w.pbest_pos = np.full(n, np.inf), w.position
                w.best_cost, w.best_pos = np.inf, np.array([])
                for _ in range(iters):
                    w.current_cost = P.compute_objective_function(w, objective_func, **kwargs)
                    w.pbest_pos, w.pbest_cost = P.compute_pbest(w)
                    w.best_pos, w.best_cost = top.compute_gbest(w)
                    record(self, w.best_cost)
                    w.velocity = top.compute_velocity(w, self.velocity_clamp, vh, self.bounds)
                    w.position = top.compute_position(w, self.bounds, bh)
                return w.best_cost, w.pbest_pos[w.pbest_cost.argmin()].copy()

        def build(s):
            return Mine(
                s["n"], s["d"], gen.mk_options(s), bounds=gen.mk_bounds(s["bounds"]), velocity_clamp=gen.mk_spec_clamp(s), init_pos=gen.mk_init(s)
            )

        acts = [["reset", case["seed"]]] + list(case["actions"])
        _, a = run_trace(s, acts)
        _, b = run_trace(s, acts, build=build)
        compare(a[1:], b[1:], "a SwarmOptimizer of one's own")
        ensure(isinstance(ps.single.GlobalBestPSO, type) and issubclass(ps.single.GlobalBestPSO, SwarmOptimizer), "GlobalBestPSO is no SwarmOptimizer")
        return ["continuous"] if any(moves([u]) for u in a) else None

    binary = case["what"] == "binary"

    class Own(DiscreteSwarmOptimizer):
        def optimize(self, objective_func, iters, n_processes=None, verbose=False, **kwargs):
            w = self.swarm
            for _ in range(iters):
                w.current_cost = P.compute_objective_function(w, objective_func, **kwargs)
                w.pbest_cost = np.array(w.current_cost)
                record(self, np.min(w.current_cost))
                w.position = np.random.permutation(w.position)
            return np.min(w.current_cost), w.position[0]

    kw = dict(binary=binary, velocity_clamp=gen.mk_spec_clamp(s))
    np.random.seed(s["seed"])
    o = Own(n, d, options=gen.mk_options(s), init_pos=gen.mk_init(s), **kw)
    done = False
    want = []
    np.random.seed(case["seed"])
    for act in [["reset", case["seed"]]] + list(case["actions"]):
        if act[0] == "reset":
            np.random.seed(act[1])
            o.reset()
            want = []
            np.random.seed(act[1])
            g = G.create_swarm(n, d, discrete=True, binary=binary, init_pos=gen.mk_init(s), clamp=gen.mk_spec_clamp(s), options=gen.mk_options(s))
            ensure(same(g.position, o.swarm.position) and same(g.velocity, o.swarm.velocity) and g.options == o.swarm.options, "reset() gives another swarm than create_swarm")
            if not binary:
                ensure((np.sort(o.swarm.position, axis=1) == np.arange(d)).all(), "positions {} are not permutations", o.swarm.position.tolist())
        else:
            rec = gen.Recorder(gen.Objective(act[3]), n, d)
            np.random.seed(act[2])
            o.optimize(rec, act[1])
            want += rec.X
            done = True
        for h in gen.HISTS:
            ensure(len(getattr(o, h)) == len(want), "{} has {} entries after {} iterations", h, len(getattr(o, h)), len(want))
        ensure(all(same(np.asarray(a, float), b) for a, b in zip(o.pos_history, want)), "pos_history is not what was recorded")
    return [case["what"]] if done else None


# ================================================================ C33
STEADY = ["nearest", "reflective", "shrink", "intermediate"]


@st.composite
def converge_case(draw):
    opt = draw(st.sampled_from(["global", "local", "star", "ring", "vonneumann", "random", "pyramid"]))
    d = draw(st.integers(2 if opt == "pyramid" else 1, 4))
    return dict(
        opt=opt,
        n=draw(st.sampled_from([16, 20, 30, 40])),
        d=d,
        seed=draw(gen.seeds),
        scale=draw(st.sampled_from([1e-3, 0.1, 1.0, 10.0, 1000.0])),
        far=draw(st.sampled_from([0.0, 1.0, 5.0, 50.0])),
        bounded=draw(st.integers(0, 2)) > 0,
        bh=draw(st.sampled_from(STEADY)),
        vh=draw(st.sampled_from(["unmodified", "invert", "zero"])),
        clamp=draw(st.sampled_from([0.5, 2.0])),
        static=draw(st.integers(0, 3)) == 0,
        k=draw(st.sampled_from([3, 5])),
        p=draw(st.sampled_from([1, 2])),
        shape=draw(st.sampled_from(["sphere", "abs", "ellipse", "quartic"])),
        edge=draw(st.integers(0, 5)) == 0,
        parts=draw(st.sampled_from([[300], [300], [100, 200], [1, 299], [60, 60, 180]])),
        best=draw(st.sampled_from([0.0, 0.0, -7.5, 1e4])),
    )


@facet(
    "C33",
    "convex",
    converge_case(),
    quick=400,
    shards=8,
    rule="300 iterations (in one call or several) of 16 to 40 particles on a convex function of up to 4 dimensions whose minimiser "
    "lies inside the bounds: the swarm's best comes within 1e-3 of the width of it; every case non-trivial",
)
def c33_convex(case):
    import pyswarms as ps
    from pyswarms.backend import topology as T

    n, d, sc, opt = case["n"], case["d"], case["scale"], case["opt"]
    r = np.random.RandomState(case["seed"] % 2 ** 31)
    mid = case["far"] * sc * r.uniform(-1, 1, d)
    lo, hi = mid - sc, mid + sc
    at = mid + sc * r.uniform(-0.6, 0.6, d)
    weights = np.ones(d) if case["shape"] != "ellipse" else 4.0 ** np.arange(d)
    opts = dict(w=0.729, c1=1.49, c2=1.49, k=case["k"], p=case["p"], r=1)
    kw = dict(velocity_clamp=(-case["clamp"] * sc, case["clamp"] * sc), bh_strategy=case["bh"])
    if case["bounded"]:
        kw.update(bounds=(lo, hi), vh_strategy=case["vh"])
    else:
        kw.update(init_pos=r.uniform(lo, hi, (n, d)))
    if case["static"] and opt in ("ring", "random", "pyramid"):
        kw["topology"] = {"ring": T.Ring, "random": T.Random, "pyramid": T.Pyramid}[opt](static=True)
    elif opt in ("star", "ring", "vonneumann", "random", "pyramid"):
        kw["topology"] = {"star": T.Star, "ring": T.Ring, "vonneumann": T.VonNeumann, "random": T.Random, "pyramid": T.Pyramid}[opt]()

    def f(x):
        u = (x - at) / sc
        if case["shape"] == "abs":
            return np.abs(u).sum(axis=1) + case["best"]
        if case["shape"] == "quartic":
            return (u ** 2).sum(axis=1) ** 2 + case["best"]
        return (weights * u ** 2).sum(axis=1) + case["best"]

    tol = 1e-2 if case["shape"] == "quartic" or case["best"] == 1e4 else 1e-3
    offs = []
    for attempt in range(3):  # about one search in two thousand gets stuck at a bound
        np.random.seed((case["seed"] + attempt) % 2 ** 32)
        if opt == "global":
            o = ps.single.GlobalBestPSO(n, d, opts, **kw)
        elif opt == "local":
            o = ps.single.LocalBestPSO(n, d, opts, static=case["static"], **kw)
        else:
            o = ps.single.GeneralOptimizerPSO(n, d, opts, **kw)
        for iters in case["parts"]:
            cost, pos = o.optimize(f, iters, verbose=False)
        offs.append(float(np.max(np.abs(np.asarray(pos) - at)) / sc))
        if offs[-1] <= tol:
            break
    ensure(min(offs) <= tol, "after 300 iterations the best position is {} half-widths from the minimiser, in three runs", offs)
    return [opt, case["shape"], case["bh"] if case["bounded"] else "unbounded"]


@st.composite
def onemax_case(draw):
    d = draw(st.integers(1, 16))
    return dict(
        d=d, n=draw(st.sampled_from([30, 40])), seed=draw(gen.seeds), k=draw(st.sampled_from([2, 5, 10])), p=draw(st.sampled_from([1, 2])),
        target=draw(st.lists(st.integers(0, 1), min_size=d, max_size=d)), parts=draw(st.sampled_from([[200], [50, 150]])),
        clamp=draw(st.sampled_from([None, [-4.0, 4.0]])), weighted=draw(st.booleans()),
    )


@facet(
    "C33",
    "bits",
    onemax_case(),
    quick=200,
    shards=4,
    rule="BinaryPSO finds a hidden bit string of up to 16 bits from the (weighted) number of wrong bits in 200 iterations; every case non-trivial",
)
def c33_bits(case):
    import pyswarms as ps

    n, d, target = case["n"], case["d"], np.array(case["target"])
    w = 1.0 + np.arange(d) if case["weighted"] else np.ones(d)
    costs = []
    for attempt in range(3):
        np.random.seed((case["seed"] + attempt) % 2 ** 32)
        o = ps.discrete.BinaryPSO(
            n, d, dict(c1=1.49, c2=1.49, w=0.729, k=case["k"], p=case["p"]), velocity_clamp=gen.mk_clamp(case["clamp"])
        )
        best = np.inf
        for iters in case["parts"]:
            cost, pos = o.optimize(lambda x: ((np.asarray(x) != target) * w).sum(axis=1), iters, verbose=False)
            best = min(best, float(cost))
        costs.append(best)
        if best == 0:
            break
    ensure(min(costs) == 0, "200 iterations do not find {} bits: costs {} in three runs", d, costs)
    return ["weighted" if case["weighted"] else "plain", "d>8" if d > 8 else "d<=8"]


# ================================================================ C34
def surroundings():
    """What the library shares with the rest of the process, apart from numpy's random state and log records."""
    import decimal
    import gc
    import locale
    import logging
    import multiprocessing as mp
    import os
    import random
    import signal
    import socket
    import sys
    import threading
    import warnings

    mine = logging.getLogger("somebody.else")
    return dict(
        errstate=np.geterr(),
        printoptions={k: v for k, v in np.get_printoptions().items() if k != "override_repr"},
        errcall=np.geterrcall(),
        random=random.getstate(),
        filters=list(warnings.filters),
        cwd=os.getcwd(),
        environ=dict(os.environ),
        umask_free=sorted(f for f in os.listdir(".") if not f.startswith("report.log")),
        threads=sorted(t.name for t in threading.enumerate() if not t.daemon),
        signals=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        stdout=(sys.stdout, sys.stderr, sys.stdin),
        hooks=(sys.excepthook, sys.displayhook),
        recursion=sys.getrecursionlimit(),
        locale=locale.setlocale(locale.LC_ALL),
        decimal=decimal.getcontext().prec,
        start=mp.get_start_method(allow_none=True),
        gc=(gc.isenabled(), gc.get_threshold()),
        sockets=socket.getdefaulttimeout(),
        bufsize=np.getbufsize(),
        raising=logging.raiseExceptions,
        logger=(mine.level, mine.disabled, list(mine.handlers), mine.propagate, logging.root.manager.disable),
    )


def changed(a, b):
    out = []
    for k in a:
        u, v = a[k], b[k]
        if k == "random":
            if u != v:
                out.append("Python's random state")
        elif u != v and not (k == "start" and u is None):  # chosen by Python when first asked
            out.append("%s: %s instead of %s" % (k, v, u))
    return out


@st.composite
def effects_case(draw):
    from props_meta import parts_case

    what = draw(st.sampled_from(["run", "run", "part", "function", "fail"]))
    case = dict(
        what=what,
        err=draw(st.sampled_from([{}, {"all": "warn"}, {"over": "warn", "invalid": "ignore"}, {"divide": "print"}])),
        opts=draw(st.sampled_from([{}, {"precision": 3}, {"threshold": 5, "suppress": True}, {"linewidth": 40}])),
        verbose=draw(st.integers(0, 4)) == 0,
    )
    if what in ("run", "fail"):
        case.update(spec=draw(gen.spec(oh=True, ftol=True)), actions=draw(gen.actions(max_iters=8)))
        if draw(st.integers(0, 5)) == 0 and "w" not in (case["spec"].get("oh") or {}):
            case["spec"]["options"]["w"] = draw(st.sampled_from([-500.0, 300.0, 40.0, -1e4]))  # velocities of any size
    elif what == "part":
        case.update(part=draw(parts_case()))
    else:
        case.update(seed=draw(gen.seeds), n=draw(st.integers(1, 6)), name=draw(st.integers(0, 99)))
    return case


@facet(
    "C34",
    "process",
    effects_case(),
    quick=2000,
    shards=4,
    rule="runs (also failing ones), generators, topologies, handlers, searches and benchmark functions between two snapshots of the "
    "process's settings, taken with generated settings in force; every case non-trivial",
)
def c34_process(case):
    import contextlib
    import io
    import logging

    from props_meta import part

    lg = logging.getLogger("somebody.else")
    if not lg.handlers:
        lg.addHandler(logging.NullHandler())
        lg.setLevel(17)
    lg.disabled, lg.propagate = False, True  # whatever an earlier case did to it
    old = np.seterr(**case["err"])
    oldp = np.get_printoptions()
    oldp.pop("override_repr", None)
    np.set_printoptions(**case["opts"])
    tags = [case["what"]]
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            before = surroundings()
            if case["what"] == "run":
                run_trace(case["spec"], case["actions"], verbose=case["verbose"])
                tags.append(case["spec"]["opt"])
            elif case["what"] == "fail":
                s = case["spec"]
                np.random.seed(s["seed"])
                o = gen.mk_optimizer(s)
                for act in case["actions"]:
                    if act[0] == "reset":
                        o.reset()
                        continue
                    rec = gen.Recorder(gen.Objective(act[3]), s["n"], s["d"])
                    rec.fail_at, rec.exc = act[2] % act[1], ArithmeticError("x")
                    try:
                        o.optimize(rec, act[1], verbose=case["verbose"])
                    except ArithmeticError:
                        pass
            elif case["what"] == "part":
                part(case["part"])
                tags.append(case["part"]["part"])
            else:
                from pyswarms.utils.functions import single_obj as fx

                names = sorted(k for k in fx.__dict__ if callable(fx.__dict__[k]) and getattr(fx.__dict__[k], "__module__", "") == fx.__name__)
                f = getattr(fx, names[case["name"] % len(names)])
                x = np.random.RandomState(case["seed"] % 2 ** 31).rand(case["n"], 2)
                state = np.random.get_state()[1].copy()
                try:
                    f(x)
                except ValueError:  # outside its domain
                    tags.append("outside")
                ensure(same(state, np.random.get_state()[1]), "{} changes numpy's random state", f.__name__)
            after = surroundings()
        diff = changed(before, after)
        ensure(not diff, "{} changed the process: {}", case["what"], "; ".join(diff))
    finally:
        np.seterr(**old)
        np.set_printoptions(**oldp)
    return tags


@st.composite
def workers_case(draw):
    from props_meta import pool_case

    case = draw(pool_case(max_calls=2))
    if draw(st.integers(0, 2)) == 0:
        case["k"] = case["spec"]["n"] + draw(st.integers(0, 4))
    case["mesh"] = draw(st.one_of(st.none(), st.none(), st.sampled_from(["history", "contour"])))
    return case


def sphere_of(x):
    return (np.asarray(x) ** 2).sum(axis=1)


@facet(
    "C34",
    "workers",
    workers_case(),
    quick=240,
    shards=8,
    rule="optimize(n_processes=k) on one optimizer, several calls, or a plot helper with processes: no worker is left when it has "
    "returned (10 s of grace); every case non-trivial",
)
def c34_workers(case):
    import multiprocessing as mp
    import time

    from props_meta import RowWise
    from props_utils import figures, frame_reader
    from pyswarms.utils.plotters import plot_contour
    from pyswarms.utils.plotters.formatters import Mesher

    s, k = case["spec"], case["k"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    old = {p.pid for p in mp.active_children()}

    def settled(before, what):
        end = time.time() + 10
        while {p.pid for p in mp.active_children()} - old and time.time() < end:
            time.sleep(0.01)
        left = {p.pid for p in mp.active_children()} - old
        ensure(not left, "{} worker processes are left after {}", len(left), what)
        diff = changed(before, surroundings())
        ensure(not diff, "{} changed the process: {}", what, "; ".join(diff))

    before = surroundings()
    if case["mesh"]:
        for iters, seed, _, _ in case["calls"]:
            x = np.random.RandomState(seed).rand(iters, s["n"], 2)
            m = Mesher(func=sphere_of, delta=0.5)
            if case["mesh"] == "history":
                m.compute_history_3d(list(x), n_processes=k)
            else:
                with figures():
                    plot_contour(pos_history=list(x), mesher=m, n_processes=k).save("x", writer=frame_reader())
            settled(before, "%s with n_processes=%d" % (case["mesh"], k))
        return [case["mesh"], "k=%d" % k]
    for iters, seed, obj, kws in case["calls"]:
        np.random.seed(seed)
        o.optimize(RowWise(obj, kws), iters, n_processes=k, verbose=False, **kws)
        settled(before, "optimize(n_processes=%d)" % k)
    return [s["opt"], "k=%d" % k]


# ---------------------------------------------------------------- one constructor on its own
def constructors():
    from pyswarms.backend import handlers as H, topology as T
    from pyswarms.backend.swarms import Swarm
    from pyswarms.utils.plotters.formatters import Animator, Designer, Mesher
    from pyswarms.utils.reporter import Reporter

    out = {c.__name__: c for c in (Designer, Animator, Reporter)}
    out["Mesher"] = lambda: Mesher(func=sphere_of)
    for t in ("Star", "Ring", "VonNeumann", "Pyramid", "Random"):
        for static in (False, True):
            if t not in ("Star", "VonNeumann"):
                out["%s %s" % (t, static)] = lambda t=t, static=static: getattr(T, t)(static=static)
            else:
                out[t] = getattr(T, t)
    for h, arg in (("BoundaryHandler", "nearest"), ("VelocityHandler", "invert"), ("OptionsHandler", {"w": "exp_decay"})):
        out[h] = lambda h=h, arg=arg: getattr(H, h)(strategy=arg)
    out["Swarm"] = lambda: Swarm(np.zeros((2, 2)), np.zeros((2, 2)))
    import pyswarms as ps
    from pyswarms.utils import search

    opts = {"c1": 0.5, "c2": 0.3, "w": 0.9, "k": 2, "p": 2}
    for o in ("GlobalBestPSO", "LocalBestPSO"):
        out[o] = lambda o=o: getattr(ps.single, o)(4, 2, dict(opts))
    out["BinaryPSO"] = lambda: ps.discrete.BinaryPSO(4, 2, dict(opts))
    out["GeneralOptimizerPSO"] = lambda top=T.Ring(): ps.single.GeneralOptimizerPSO(4, 2, dict(opts), top)
    for g in ("GridSearch", "RandomSearch"):
        grid = {"c1": [0.1, 0.2], "c2": [0.1, 0.2], "w": [0.1, 0.2], "k": [1, 3], "p": 1}
        extra = (2,) if g == "RandomSearch" else ()
        out[g] = lambda g=g, grid=grid, extra=extra: getattr(search, g)(ps.single.LocalBestPSO, 4, 2, grid, sphere_of, 1, *extra)
    return out


NAMES = [
    "Designer", "Animator", "Reporter", "Mesher", "Star", "VonNeumann", "Ring False", "Ring True", "Pyramid False", "Pyramid True",
    "Random False", "Random True", "BoundaryHandler", "VelocityHandler", "OptionsHandler", "Swarm", "GlobalBestPSO", "LocalBestPSO",
    "BinaryPSO", "GeneralOptimizerPSO", "GridSearch", "RandomSearch",
]


@st.composite
def construct_case(draw):
    return dict(
        name=draw(st.sampled_from(NAMES)), level=draw(st.sampled_from([0, 10, 17, 40])), propagate=draw(st.booleans()),
        err=draw(st.sampled_from([{}, {"all": "warn"}, {"over": "raise", "invalid": "ignore"}])),
    )


@facet("C34", "construct", construct_case(), quick=300, rule="every case: one object of the library is constructed, on its own, between two snapshots of the process")
def c34_construct(case):
    import logging

    make = constructors()[case["name"]]
    lg = logging.getLogger("somebody.else")
    if not lg.handlers:
        lg.addHandler(logging.NullHandler())
    lg.disabled, lg.propagate = False, case["propagate"]
    lg.setLevel(case["level"])
    old = np.seterr(**case["err"])
    try:
        before = surroundings()
        made = make()
        diff = changed(before, surroundings())
        ensure(not diff, "constructing a {} changed the process: {}", case["name"], "; ".join(diff))
        del made
    finally:
        np.seterr(**old)
        lg.setLevel(17)
        lg.propagate = True
    return [case["name"].split()[0]]


@probe("C34", "logging-reconfigured")
def logging_reconfigured():
    import logging
    import tempfile

    import pyswarms.backend.topology as T

    off = logging.getLogger("somebody.off")
    with tempfile.TemporaryDirectory() as tmp:
        h = logging.FileHandler(os.path.join(tmp, "mine.log"), mode="w")
        try:
            off.disabled = True
            h.handle(logging.LogRecord("x", 30, "f", 1, "one", (), None))
            T.Star()
            h.handle(logging.LogRecord("x", 30, "f", 1, "two", (), None))
            with open(os.path.join(tmp, "mine.log")) as f:
                lost = "two" not in f.read()
            back = not off.disabled
        finally:
            h.close()
            off.disabled = False
    if lost or back:
        return "lost records: %s, logger enabled again: %s" % (lost, back)
    return None
