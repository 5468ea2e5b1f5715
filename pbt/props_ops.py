"""Operators and handlers: C06-C09, C20, C21."""
import copy

import numpy as np
from hypothesis import strategies as st

import gen
import stats
from core import Violation, ensure, facet, probe
from gen import same

UNITSTEP = st.one_of(
    st.sampled_from([0.0, 0.5, 1.0, -0.25, 1.25, 2.0, -1.0, 3.0, -2.5, 1e-9, 1.0 + 1e-9, -1e-9]),
    st.floats(-4, 5),
    st.floats(-0.2, 1.2),
)


def close(a, b, scale, rtol=1e-11):
    return np.abs(np.asarray(a) - np.asarray(b)) <= rtol * (np.asarray(scale) + 1e-300)


# ================================================================ references
def ref_boundary(strategy, x, prev, lo, hi):
    """What the strategy makes of x (per coordinate); NaN where only a predicate
    is known ("random")."""
    low, high = x < lo, x > hi
    out = low | high
    rowout = out.any(axis=1)
    y = x.copy()
    w = hi - lo
    if strategy == "nearest":
        y = np.where(low, lo, np.where(high, hi, x))
    elif strategy == "reflective":
        t = np.mod(x - lo, 2 * w)
        t = w - np.abs(t - w)
        y = np.where(out, lo + t, x)
    elif strategy == "periodic":
        y = np.where(low, hi - np.mod(lo - x, w), np.where(high, lo + np.mod(x - hi, w), x))
    elif strategy == "intermediate":
        y = np.where(low, 0.5 * (prev + lo), np.where(high, 0.5 * (prev + hi), x))
    elif strategy == "shrink":
        step = x - prev
        with np.errstate(all="ignore"):
            s = np.where(low, (lo - prev) / step, np.where(high, (hi - prev) / step, 1.0))
        y = np.where(rowout[:, None], prev + s.min(axis=1)[:, None] * step, x)
    elif strategy == "random":
        y = np.where(rowout[:, None], np.nan, x)
    return y, out, rowout


def check_boundary(strategy, got, x, prev, lo, hi, what):
    """got = repaired x.  Returns tags."""
    want, out, rowout = ref_boundary(strategy, x, prev, lo, hi)
    gen.arr(got, x.shape, what)
    free = ~rowout[:, None] & np.ones_like(out) if strategy in ("random", "shrink") else ~out
    ensure(
        (got[free] == x[free]).all(),
        "{}: {} changed coordinates that need no repair: {} became {}",
        what,
        strategy,
        x[free & (got != x)][:3].tolist(),
        np.asarray(got)[free & (got != x)][:3].tolist(),
    )
    ensure(
        ((got >= lo) & (got <= hi)).all(),
        "{}: {} left a position outside the bounds: {} became {}",
        what,
        strategy,
        x.tolist(),
        np.asarray(got).tolist(),
    )
    scale = np.abs(prev) + np.abs(lo) + np.abs(hi) + (hi - lo)
    if strategy in ("reflective", "periodic"):
        scale = scale + np.abs(x)
    if strategy == "random":
        moved = rowout[:, None] & np.ones_like(out)
        ensure(
            (got[out] != x[out]).all(),
            "{}: random kept an out-of-bounds coordinate",
            what,
        )
        return moved
    w = hi - lo
    d = np.abs(got - want)
    if strategy == "periodic":
        d = np.minimum(d, np.abs(w - d))  # both bounds are the same point of the circle
    tol = 1e-9 * scale if strategy in ("reflective", "periodic", "shrink") else 1e-12 * scale
    bad = ~(d <= tol)
    ensure(
        not bad.any(),
        "{}: {} made {} of {} (previous {}), expected {} for bounds {}..{}",
        what,
        strategy,
        np.asarray(got)[bad.any(axis=1)][0].tolist() if bad.any() else 0,
        x[bad.any(axis=1)][0].tolist() if bad.any() else 0,
        prev[bad.any(axis=1)][0].tolist() if bad.any() else 0,
        want[bad.any(axis=1)][0].tolist() if bad.any() else 0,
        lo.tolist(),
        hi.tolist(),
    )
    return out


def clip(v, clamp):
    if clamp is None:
        return v
    lo, hi = clamp
    return np.where(v >= hi, hi, np.where(v <= lo, lo, v))


def ref_velocity(strategy, v, x, prev, bounds, clamp, z=0.5):
    if strategy == "unmodified":
        return clip(v, clamp)
    if strategy == "adjust":
        return clip(v if prev is None else x - prev, clamp)
    lo, hi = bounds
    out = ((x < lo) | (x > hi)).any(axis=1)[:, None]
    if strategy == "zero":
        return np.where(out, 0.0, clip(v, clamp))
    return clip(np.where(out, -z * v, v), clamp)


def swarm_of(x, v, pb=None, best=None, options=None, pbc=None, cur=None, best_cost=None):
    from pyswarms.backend.swarms import Swarm

    kw = {}
    if pb is not None:
        kw["pbest_pos"] = pb
    if best is not None:
        kw["best_pos"] = best
    if pbc is not None:
        kw["pbest_cost"] = pbc
    if cur is not None:
        kw["current_cost"] = cur
    if best_cost is not None:
        kw["best_cost"] = best_cost
    return Swarm(x, v, options=dict(options or {}), **kw)


def via(name):
    """The velocity and position operators, directly or through a topology."""
    from pyswarms.backend import operators as ops, topology as T

    if name == "ops":
        return (
            lambda s, clamp, vh, bounds: ops.compute_velocity(s, clamp, vh, bounds),
            lambda s, bounds, bh: ops.compute_position(s, bounds, bh),
        )
    top = {"star": T.Star, "ring": T.Ring, "vonneumann": T.VonNeumann, "pyramid": T.Pyramid, "random": T.Random}[name]()
    return (
        lambda s, clamp, vh, bounds: top.compute_velocity(s, clamp, vh, bounds),
        lambda s, bounds, bh: top.compute_position(s, bounds, bh),
    )


VIAS = ["ops", "star", "ring", "vonneumann", "pyramid", "random"]
coef = st.one_of(st.sampled_from([0.0, 0.5, 1.0, 2.0, 1.49618]), st.floats(0, 4))


# ================================================================ C06
@st.composite
def vel_case(draw):
    n, d = draw(st.integers(1, 8)), draw(st.integers(1, 5))
    return dict(
        x=draw(gen.rows(n, d)),
        v=draw(gen.rows(n, d)),
        pb=draw(gen.rows(n, d)),
        best=draw(gen.rows(1 if draw(st.booleans()) else n, d)),
        c1=draw(coef),
        c2=draw(coef),
        w=draw(st.one_of(coef, st.floats(-1, 0))),
        seed=draw(gen.seeds),
        via=draw(st.sampled_from(VIAS)),
        ints=draw(st.integers(0, 5)) == 0,
        keep=draw(st.booleans()),
        pad=draw(gen.pad),
        limits=draw(st.sampled_from([None, None, "bounds", "clamp", "both"])),
    )


@facet(
    "C06",
    "operator",
    vel_case(),
    quick=6000,
    shards=4,
    rule="compute_velocity and compute_position on arbitrary swarms against the interval law and x+v; "
    "non-trivial when an attraction term is non-zero",
)
def c06_operator(case):
    from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler

    x, v, pb = [gen.grow(np.array(case[k], float), case["pad"], i) for i, k in enumerate(("x", "v", "pb"))]
    best = np.array(case["best"], float)
    if len(best) > 1:
        best = gen.grow(best, case["pad"], 3)
    if case["ints"]:
        x = np.round(x).astype(int)
    n, d = x.shape
    if len(best) == 1 and n > 1 or len(best) == 1 and case["keep"]:
        best = best[0]
    c1, c2, w = case["c1"], case["c2"], case["w"]
    s = swarm_of(x, v, pb, best, dict(c1=c1, c2=c2, w=w))
    fv, fx = via(case["via"])
    copies = [a.copy() for a in (x, v, pb, best)]
    np.random.seed(case["seed"])
    # limits so wide that nothing is cut
    bounds = (np.full(d, -1e9), np.full(d, 1e9)) if case["limits"] in ("bounds", "both") else None
    clamp = (-1e9, 1e9) if case["limits"] in ("clamp", "both") else None
    nv = fv(s, clamp, VelocityHandler(strategy="unmodified"), bounds)
    gen.arr(nv, (n, d), "velocity")
    a, b = c1 * (pb - x), c2 * (best - x)
    L = w * v + np.minimum(0, a) + np.minimum(0, b)
    U = w * v + np.maximum(0, a) + np.maximum(0, b)
    tol = 1e-12 * (np.abs(w * v) + np.abs(a) + np.abs(b) + c1 * (np.abs(pb) + np.abs(x)) + c2 * (np.abs(best) + np.abs(x)))
    bad = ~((nv >= L - tol) & (nv <= U + tol))
    ensure(
        not bad.any(),
        "velocity {} is outside the interval [{}, {}] of w*v + c1*[0,1)*(pbest-x) + c2*[0,1)*(best-x)",
        np.asarray(nv)[bad][:3].tolist(),
        L[bad][:3].tolist(),
        U[bad][:3].tolist(),
    )
    for name, arr_, c in zip(("position", "velocity", "pbest_pos", "best_pos"), (s.position, s.velocity, s.pbest_pos, s.best_pos), copies):
        ensure(same(arr_, c), "compute_velocity changed swarm.{}", name)
    s.velocity = nv
    nvc = nv.copy()
    nx = fx(s, bounds, BoundaryHandler(strategy="periodic"))
    gen.arr(nx, (n, d), "position")
    ensure(close(nx, x + nv, np.abs(x) + np.abs(nv), 1e-14).all(), "position {} is not x + v = {}", nx.tolist(), (x + nv).tolist())
    ensure(same(s.position, copies[0]) and same(nv, nvc), "compute_position changed the swarm's position or velocity")
    live = (a != 0) | (b != 0)
    return [case["via"]] if live.any() else None


@st.composite
def dist_case(draw):
    return dict(
        seed=draw(gen.seeds),
        n=draw(st.sampled_from([60, 150, 300, 1, 2, 3, 7, 3000])),
        limits=draw(st.sampled_from([None, None, "bounds", "clamp", "both"])),
        vh=draw(st.sampled_from(["unmodified", "unmodified", "invert", "zero"])),
        d=draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.sampled_from([17, 33, 65, 100, 257, 1030]))),
        terms=draw(st.sampled_from(["c1", "c2", "both"])),
        local=draw(st.booleans()),
        via=draw(st.sampled_from(VIAS)),
        sign=draw(st.sampled_from([1.0, -1.0])),
    )


@facet(
    "C06",
    "uniform",
    dist_case(),
    quick=300,
    shards=2,
    rule="the random factors r1, r2 recovered from large swarms: uniform (KS), pairwise distinct, uncorrelated, and their sum "
    "triangular; every case non-trivial",
)
def c06_uniform(case):
    from pyswarms.backend.handlers import VelocityHandler

    n, d, g = case["n"], case["d"], case["sign"]
    x = np.zeros((n, d))
    pb = np.full((n, d), g)
    best = np.full((n, d) if case["local"] else (d,), g)
    t = case["terms"]
    opts = dict(c1=0.0 if t == "c2" else 1.0, c2=0.0 if t == "c1" else 1.0, w=0.0)
    fv, _ = via(case["via"])
    np.random.seed(case["seed"])
    bounds = (np.full(d, -9.0), np.full(d, 9.0))
    if case["vh"] == "unmodified" and case["limits"] not in ("bounds", "both"):
        bounds = None
    clamp = (-9.0, 9.0) if case["limits"] in ("clamp", "both") else None
    us = []
    for _ in range(2):
        part = []
        for _ in range(1 if n >= 60 else -(-60 // n)):  # small swarms: several updates
            s = swarm_of(x.copy(), np.zeros((n, d)), pb.copy(), best.copy(), opts)
            part.append(np.asarray(fv(s, clamp, VelocityHandler(strategy=case["vh"]), bounds)) * g)
            gen.arr(part[-1], (n, d), "velocity")
        us.append(np.concatenate(part))
    for u in us:
        if t == "both":
            ensure(((u >= 0) & (u < 2)).all(), "r1 + r2 outside [0, 2)")
            tri = np.where(u < 1, u * u / 2, 1 - (2 - u) ** 2 / 2)
            stats.uniform01(tri, "r1 + r2 (transformed)")
        else:
            ensure((u < 1).all(), "r = 1 occurred")
            stats.uniform01(u, "r of term " + t)
        stats.independent_matrix(u, "r of term " + t)
    stats.all_distinct(np.concatenate(us), "r over two updates")
    stats.uncorrelated(us[0], us[1], "r over two updates")
    return [t, case["via"], "large" if n >= 60 else "small"]


@st.composite
def joint_case(draw, **more):
    n, d = draw(st.sampled_from([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 3), (5, 2), (3, 4), (8, 1), (6, 3), (16, 1), (2, 70), (70, 2)]))
    return dict(seed=draw(gen.seeds), n=n, d=d, T=draw(st.sampled_from([300, 600])), **{k: draw(v) for k, v in more.items()})


@facet(
    "C06",
    "joint",
    joint_case(
        term=st.sampled_from(["c1", "c2"]), local=st.booleans(), via=st.sampled_from(VIAS),
        vh=st.sampled_from(["unmodified", "unmodified", "invert", "zero"]), limits=st.sampled_from([None, "bounds", "clamp", "both"]),
    ),
    quick=120,
    shards=4,
    rule="300 or 600 updates of one small swarm: the factors r of any two components are uncorrelated (also folded and by a later "
    "digit), within an update and from one update to the next; every case non-trivial",
)
def c06_joint(case):
    from pyswarms.backend.handlers import VelocityHandler

    n, d = case["n"], case["d"]
    opts = dict(c1=0.0, c2=0.0, w=0.0)
    opts[case["term"]] = 1.0
    fv, _ = via(case["via"])
    np.random.seed(case["seed"])
    bounds = (np.full(d, -9.0), np.full(d, 9.0)) if case["vh"] != "unmodified" or case["limits"] in ("bounds", "both") else None
    clamp = (-9.0, 9.0) if case["limits"] in ("clamp", "both") else None
    vh = VelocityHandler(strategy=case["vh"])
    best = np.ones((n, d) if case["local"] else (d,))
    us = []
    for _ in range(case["T"]):
        s = swarm_of(np.zeros((n, d)), np.zeros((n, d)), np.ones((n, d)), best.copy(), opts)
        us.append(np.asarray(fv(s, clamp, vh, bounds), float).ravel())
    us = np.array(us)
    stats.joint(us, "r of term " + case["term"])
    stats.uniform01(us, "r of term " + case["term"])
    for i in range(n * d):
        stats.uniform01(us[:, i], "r of term %s, component %d" % (case["term"], i))
    return [case["via"], case["term"]]


def knn_candidates(x, k, p):
    """For each particle (must, may): indices certainly / possibly among the k nearest."""
    diff = np.abs(x[:, None, :] - x[None, :, :])
    dist = diff.sum(axis=2) if p == 1 else np.sqrt((diff ** 2).sum(axis=2))
    scale = np.abs(x).max() + 1e-300
    must, may = [], []
    for i in range(len(x)):
        r = np.sort(dist[i])[k - 1]
        tol = 1e-12 * (r + scale)
        must.append(np.nonzero(dist[i] < r - tol)[0])
        may.append(np.nonzero(dist[i] <= r + tol)[0])
    return must, may


def best_candidates(must, may, k, cost):
    """Indices that can be the best of a k-neighbourhood containing `must` and
    otherwise chosen from `may`."""
    out = []
    for mu, ma in zip(must, may):
        free = k - len(mu)
        ties = np.setdiff1d(ma, mu)
        if len(ties) <= free:
            m = cost[ma].min()
            out.append(ma[cost[ma] == m])
            continue
        cm = cost[mu].min() if len(mu) else np.inf
        cand = [j for j in mu if cost[j] == cm]
        # a tie j can be the best when `free` ties of cost >= its own exist
        for j in ties:
            if cost[j] <= cm and (cost[ties] >= cost[j]).sum() >= free:
                cand.append(j)
        # all-of-must best is only possible when enough ties are not better
        if (cost[ties] >= cm).sum() < free:
            cand = [j for j in cand if j not in mu]
        out.append(np.array(sorted(cand), int))
    return out


class Track:
    """Model of pbest and of the admissible best positions along one call."""

    def __init__(self, s, o, x0_static):
        self.s, self.o, self.static_x = s, o, x0_static
        n = s["n"]
        self.pbc, self.pb = np.full(n, np.inf), None
        self.star = None

    def update(self, x, c):
        c = np.asarray(c, float)
        if self.pb is None:
            self.pb = x.astype(float).copy()
        better = c < self.pbc
        self.pb[better] = x[better]
        self.pbc[better] = c[better]

    def targets(self, x, nidx):
        """list (per particle) of admissible attractor positions (m, d)"""
        s = self.s
        n = s["n"]
        if s["top"] == "star":
            m = self.pbc.min()
            cand = self.pb[self.pbc == m]
            if self.star is None or m < self.star[0]:
                self.star = (m, cand.copy())
            return [self.star[1]] * n
        if s["top"] in ("ring", "vonneumann"):
            k = s["options"]["k"] if s["top"] == "ring" else gen.delannoy(s["d"], s["options"]["r"])
            base = self.static_x if (s["static"] or s["top"] == "vonneumann") else x
            if k == 1:
                return [self.pb[[i]] for i in range(n)]
            must, may = knn_candidates(base.astype(float), k, s["options"]["p"])
            return [self.pb[j] for j in best_candidates(must, may, k, self.pbc)]
        if s["top"] == "pyramid" and n <= s["d"] + 1:
            return [self.pb[self.pbc == self.pbc.min()]] * n
        res = []
        for i in range(n):
            idx = np.asarray(nidx[i])
            m = self.pbc[idx].min()
            res.append(self.pb[idx[self.pbc[idx] == m]])
        return res


class StateRecorder(gen.Recorder):
    """Also snapshots the neighbourhood and the swarm's bests at each evaluation."""

    def __init__(self, *a):
        super().__init__(*a)
        self.N, self.S = [], []

    def __call__(self, x, **kw):
        o = self.optimizer
        self.N.append(copy.deepcopy(o.top.neighbor_idx))
        self.S.append(
            (
                np.array(o.swarm.pbest_pos, copy=True),
                np.array(o.swarm.pbest_cost, copy=True),
                np.array(o.swarm.best_pos, copy=True),
            )
        )
        return super().__call__(x, **kw)


def law_check(s, t, c, i, x, nx, v, nv, cl, w, c1, c2):
    """One step of a run against the interval law."""
    tg = t.targets(x, c.rec.N[i + 1])
    a = c1 * (t.pb - x)
    for j in range(s["n"]):
        ok = np.zeros(s["d"], bool)
        okrow = False
        for b_pos in tg[j]:
            b = c2 * (b_pos - x[j])
            L = w * v[j] + np.minimum(0, a[j]) + np.minimum(0, b)
            U = w * v[j] + np.maximum(0, a[j]) + np.maximum(0, b)
            if cl is not None:
                L, U = clip(L, cl), clip(U, cl)
            tol = 1e-11 * (
                np.abs(w * v[j]) + c1 * (np.abs(t.pb[j]) + np.abs(x[j])) + c2 * (np.abs(b_pos) + np.abs(x[j])) + 1e-300
            )
            ok = (nv[j] >= L - tol) & (nv[j] <= U + tol)
            okrow = okrow or ok.all()
        ensure(
            okrow,
            "iteration {}, particle {}: velocity {} is impossible: x={}, v={}, pbest={}, admissible best positions {}, "
            "w={}, c1={}, c2={}",
            i + 1,
            j,
            nv[j].tolist(),
            x[j].tolist(),
            v[j].tolist(),
            t.pb[j].tolist(),
            [q.tolist() for q in tg[j]][:4],
            w,
            c1,
            c2,
        )


@st.composite
def law_case(draw):
    s = draw(
        gen.spec(
            opts=("global", "local", "general"),
            vh=["unmodified", "unmodified", "invert", "zero"],
            max_n=9,
            max_d=4,
        )
    )
    return dict(spec=s, actions=draw(gen.actions(max_iters=8)))


@facet(
    "C06",
    "run",
    law_case(),
    quick=3000,
    shards=8,
    rule="optimizer runs: every step against the interval law with model personal and neighbourhood bests (brute-force "
    "neighbours) and against x+v; non-trivial when a particle is attracted by another one's best",
)
def c06_run(case):
    s = case["spec"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    w, c1, c2 = [s["options"][k] for k in ("w", "c1", "c2")]
    cl = gen.mk_clamp(s["clamp"])
    lo, hi = gen.bnd(s["bounds"]) if s["bounds"] else (None, None)
    static_x = last = None
    live = False
    for act in case["actions"]:
        if act[0] == "reset":
            np.random.seed(act[1])
            o.reset()
            last = None
            continue
        fn = gen.Objective(act[3])
        rec = StateRecorder(fn, s["n"], s["d"])
        c = gen.run_call(o, s, fn, act[1], seed=act[2], rec=rec)
        if static_x is None:
            static_x = c.X[0]
        new = Track(s, o, static_x)
        for i in range(-1, len(c.X) - 1):
            if i < 0:  # the move between the previous call and this one
                if last is None:
                    continue
                t, x, v, cost = last
            else:
                t, x, v, cost = new, c.X[i], c.V[i], c.C[i]
            nx, nv = c.X[i + 1], c.V[i + 1]
            t.update(x, cost)
            law_check(s, t, c, i, x, nx, v, nv, cl, w, c1, c2)
            y = x + nv
            if lo is None:
                free = np.ones_like(y, bool)
            else:
                free = (y >= lo) & (y <= hi)
                if s["bh"] in ("random", "shrink"):
                    free &= free.all(axis=1)[:, None]
            ensure(
                close(nx, y, np.abs(x) + np.abs(nv), 1e-13)[free].all(),
                "iteration {}: the position is not x + v although no boundary is crossed",
                i + 1,
            )
            live = live or (c2 > 0 and np.abs(nv - w * v).max() > 0)
        last = (new, c.X[-1], c.V[-1], c.C[-1])
    return [s["top"], "bounded" if lo is not None else "unbounded"] if live else None


@st.composite
def rundist_case(draw):
    return dict(
        seed=draw(gen.seeds),
        opt=draw(st.sampled_from(["global", "local", "general"])),
        top=draw(st.sampled_from(["star", "ring", "vonneumann", "random"])),
        term=draw(st.sampled_from(["c1", "c2"])),
        bounded=draw(st.booleans()),
        k=draw(st.integers(2, 10)),
        calls=draw(st.integers(1, 2)),
    )


@facet(
    "C06",
    "run_uniform",
    rundist_case(),
    quick=120,
    shards=4,
    rule="runs with one attraction term only: the factors r of all steps of a run recovered from the histories are uniform and "
    "pairwise distinct; non-trivial when at least 500 factors were recovered",
)
def c06_run_uniform(case):
    n, d, iters = 60, 3, 8
    top = {"global": "star", "local": "ring"}.get(case["opt"], case["top"])
    o_ = dict(c1=0.0, c2=0.0, w=0.5)
    o_[case["term"]] = 0.7
    if top == "ring":
        o_.update(k=case["k"], p=2)
    if top == "random":
        o_.update(k=min(case["k"], 5))
    if top == "vonneumann":
        o_.update(p=2, r=1)
    s = dict(
        opt=case["opt"], top=top, static=False, n=n, d=d, options=o_, seed=case["seed"],
        bounds=dict(lo=[-1e6] * d, hi=[1e6] * d, **{"as": "array"}) if case["bounded"] else None,
        bh="nearest", vh="unmodified", clamp=None, init=None,
    )
    r0 = np.random.RandomState(case["seed"] ^ 0x5555)
    s["init"] = r0.uniform(-10, 10, (n, d)).tolist()
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    rs = []
    static_x = None
    for _ in range(case["calls"]):
        fn = gen.Objective(dict(kind="table", seed=case["seed"], levels=1000000, trend=0))
        rec = StateRecorder(fn, n, d)
        c = gen.run_call(o, s, fn, iters, rec=rec)
        static_x = c.X[0] if static_x is None else static_x
        t = Track(s, o, static_x)
        for i in range(len(c.X) - 1):
            t.update(c.X[i], c.C[i])
            u = c.V[i + 1] - 0.5 * c.V[i]
            if case["term"] == "c1":
                den = 0.7 * (t.pb - c.X[i])
            else:
                tg = t.targets(c.X[i], c.rec.N[i + 1])
                if any(len(q) != 1 for q in tg):
                    continue
                den = 0.7 * (np.array([q[0] for q in tg]) - c.X[i])
            m = np.abs(den) > 1e-3
            rs.append(u[m] / den[m])
    r = np.concatenate(rs) if rs else np.zeros(0)
    if len(r) < 500:
        return None
    stats.uniform01(r, "r of term %s over a run" % case["term"], slack=1e-7)
    stats.all_distinct(r, "r of term %s over a run" % case["term"], digits=9, allowed=6)
    return [top, case["term"]]


@probe("C06", "adjust-freeze")
def adjust_freeze():
    import pyswarms as ps

    np.random.seed(3)
    o = ps.single.GlobalBestPSO(5, 2, dict(c1=2.0, c2=2.0, w=0.9), vh_strategy="adjust")
    seen = []

    def f(x):
        seen.append(x.copy())
        return (x ** 2).sum(axis=1)

    o.optimize(f, 5, verbose=False)
    if all(same(x, seen[0]) for x in seen):
        return "the swarm never moves"
    return None


# ================================================================ C07
@st.composite
def bh_case(draw, strategies=tuple(gen.BH)):
    n, d = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    return dict(
        bh=draw(st.sampled_from(strategies)),
        b=draw(gen.bounds(d)),
        prime=draw(st.one_of(st.none(), gen.rows(n, d, gen.unit))),
        start=draw(gen.rows(n, d, gen.unit)),
        calls=draw(st.lists(gen.rows(n, d, UNITSTEP), min_size=1, max_size=4)),
        relative=draw(st.booleans()),
        far=draw(st.sampled_from([1, 1, 1, 1, 1e3, 1e9, 1e17, 1e30, 1e150])),
        pad=draw(gen.pad),
        seed=draw(gen.seeds),
    )


@facet(
    "C07",
    "handler",
    bh_case(),
    quick=8000,
    shards=6,
    rule="sequences of calls on one handler against reference repairs; non-trivial when a coordinate is out of bounds",
)
def c07_handler(case):
    from pyswarms.backend.handlers import BoundaryHandler

    lo, hi = gen.bnd(case["b"])
    w = hi - lo
    salt = [0]

    def frac(fr):
        salt[0] += 1
        return gen.grow(np.array(fr, float), case["pad"], salt[0])

    def at(fr):
        return lo + frac(fr) * w

    bh = BoundaryHandler(strategy=case["bh"])
    np.random.seed(case["seed"])
    if case["prime"] is not None:
        prev = np.clip(at(case["prime"]), lo, hi)
        bh.memory = prev.copy()
    else:
        start = np.clip(at(case["start"]), lo, hi)
        prev = bh(start.copy(), gen.mk_bounds(case["b"]))
        gen.arr(prev, start.shape, "repaired position")
        ensure(same(prev, start), "{} changed a position inside the bounds", case["bh"])
        prev = prev.copy()
    hit = set()
    for k, fr in enumerate(case["calls"]):
        fr = frac(fr)
        fr = np.where((fr < 0) | (fr > 1), fr * case["far"], fr)
        x = lo + fr * w if not case["relative"] else prev + fr * w
        got = bh(x.copy(), gen.mk_bounds(case["b"]))
        m = check_boundary(case["bh"], got, x, prev, lo, hi, "call %d" % (k + 1))
        prev = np.array(got, copy=True)
        if np.any(m):
            hit.add(case["bh"])
            if k:
                hit.add("later")
            if (m.sum(axis=1) > 1).any():
                hit.add("several-axes")
            if ((x < lo).any(axis=1) & (x > hi).any(axis=1)).any():
                hit.add("both-sides")
    return sorted(hit)


def fractions_of(r, n, d, lo=-2.0, hi=3.0):
    """(n, d) fractions of the range, some rows inside, some outside in a few coordinates."""
    m = r.uniform(0, 1, (n, d))
    out = (r.uniform(size=(n, d)) < r.choice([0.03, 0.2, 0.6])) & (r.uniform(size=(n, 1)) < 0.7)
    return np.where(out, r.uniform(lo, hi, (n, d)), m).round(6).tolist()


WIDTHS = [5, 8, 9, 11, 16, 17, 20, 33]


@st.composite
def bh_wide(draw):
    n, d, seed = draw(st.sampled_from([1, 2, 3, 7])), draw(st.sampled_from(WIDTHS)), draw(gen.seeds)
    r = np.random.RandomState(seed % 2 ** 32)
    return dict(
        bh=draw(st.sampled_from(gen.BH)), b=draw(gen.bounds(d)), prime=draw(st.sampled_from([None, fractions_of(r, n, d, 0.0, 1.0)])),
        start=fractions_of(r, n, d, 0.0, 1.0), calls=[fractions_of(r, n, d) for _ in range(draw(st.integers(1, 3)))],
        relative=False, far=1, pad=draw(gen.pad), seed=seed,
    )


@facet("C07", "wide", bh_wide(), quick=600, shards=4, rule="as for handler, in 5 to 33 dimensions")
def c07_wide(case):
    return c07_handler(case)


@st.composite
def bhr_case(draw):
    d = draw(st.integers(1, 5))
    return dict(
        seed=draw(gen.seeds),
        b=draw(gen.bounds(d)),
        side=draw(st.sampled_from(["low", "high", "mixed"])),
        axes=draw(st.integers(1, d)),
        n=draw(st.sampled_from([60, 200, 60, 200, 3000])),
    )


@facet(
    "C07",
    "random_dist",
    bhr_case(),
    quick=300,
    shards=2,
    rule="many particles out of bounds on one or both sides: the positions drawn by 'random' are uniform within the bounds in "
    "every dimension and pairwise distinct; every case non-trivial",
)
def c07_random(case):
    from pyswarms.backend.handlers import BoundaryHandler

    lo, hi = gen.bnd(case["b"])
    n, d = case["n"], len(lo)
    r = np.random.RandomState(case["seed"])
    x = lo + r.uniform(0.1, 0.9, (n, d)) * (hi - lo)
    for i in range(n):
        for j in r.permutation(d)[: case["axes"]]:
            up = case["side"] == "high" or case["side"] == "mixed" and r.randint(2)
            x[i, j] = hi[j] + (hi - lo)[j] if up else lo[j] - (hi - lo)[j]
    np.random.seed(case["seed"])
    bh = BoundaryHandler(strategy="random")
    got = np.asarray(bh(x.copy(), gen.mk_bounds(case["b"])))
    gen.arr(got, x.shape, "repaired position")
    u = (got - lo) / (hi - lo)
    for j in range(d):
        stats.uniform01(u[:, j], "random: dimension %d" % j, slack=1e-9)
    stats.all_distinct(np.round(u, 10), "random", allowed=1)
    stats.uncorrelated(u[1:], u[:-1], "random: neighbouring particles")
    if d > 1:
        stats.uncorrelated(u[:, 1:], u[:, :-1], "random: neighbouring dimensions")
    return [case["side"]]


@facet(
    "C07",
    "random_joint",
    joint_case(side=st.sampled_from(["low", "high", "mixed"]), shift=st.sampled_from([0.0, -3.0, 100.0]), width=st.sampled_from([1.0, 0.1, 7.5])),
    quick=60,
    shards=2,
    rule="300 or 600 repairs of a small swarm outside the bounds by 'random': no two components are dependent, within a repair or "
    "from one to the next; every case non-trivial",
)
def c07_random_joint(case):
    from pyswarms.backend.handlers import BoundaryHandler

    n, d = case["n"], case["d"]
    lo = np.full(d, case["shift"])
    hi = lo + case["width"]
    r = np.random.RandomState(case["seed"])
    up = r.randint(0, 2, (n, d)) if case["side"] == "mixed" else np.full((n, d), int(case["side"] == "high"))
    x = np.where(up == 1, hi + 0.5 * case["width"], lo - 0.5 * case["width"])
    np.random.seed(case["seed"])
    bh = BoundaryHandler(strategy="random")
    u = np.array([np.ravel(bh(x.copy(), (lo, hi))) for _ in range(case["T"])])
    u = (u - case["shift"]) / case["width"]
    stats.joint(u, "random")
    for i in range(n * d):
        stats.uniform01(u[:, i], "random: component %d" % i, slack=1e-9)
    return [case["side"]]


@st.composite
def bhrun_case(draw):
    s = draw(gen.spec(opts=("global", "local", "general"), tops=("star", "ring", "random"), bounded=True, max_n=7, max_d=3, oh=True))
    return dict(spec=s, actions=draw(gen.actions(max_iters=8)))


@facet(
    "C07",
    "run",
    bhrun_case(),
    quick=3000,
    shards=8,
    rule="bounded optimizer runs: each evaluated position is the strategy's repair of x+v with the previous position x; "
    "non-trivial when a repair happened",
)
def c07_run(case):
    s = case["spec"]
    lo, hi = gen.bnd(s["bounds"])
    hit = set()
    for o, a, c in gen.run_actions(s, case["actions"]):
        if c is None:
            continue
        for i in range(len(c.X) - 1):
            x = c.X[i]
            y = x + c.V[i + 1]
            m = check_boundary(s["bh"], c.X[i + 1], y, x, lo, hi, "iteration %d" % (i + 1))
            if np.any(m):
                hit.update([s["bh"], s["top"]])
    return sorted(hit)


# ================================================================ C08
@st.composite
def vh_case(draw):
    n, d = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    frac = st.one_of(
        st.sampled_from([0.0, 0.5, 1.0, 0.25, 1.5, -0.5, 0.75, 1.0 + 1e-9, -1e-9]),
        st.floats(0, 1),
        st.floats(-1, 2),
    )
    vh = draw(st.sampled_from(gen.VH))
    return dict(
        vh=vh,
        b=draw(gen.bounds(d)),
        clamp=draw(st.one_of(st.none(), gen.clamp_for(d, draw(st.sampled_from([1.0, 10.0]))))),
        z=draw(st.sampled_from([None, None, 0.5, 1.0, 0.1, 0.0, 2.0])),
        prime=draw(st.one_of(st.none(), gen.rows(n, d, frac))),
        calls=draw(
            st.lists(st.fixed_dictionaries(dict(v=gen.rows(n, d), x=gen.rows(n, d, frac))), min_size=1, max_size=4)
        ),
        update=draw(st.sampled_from([None, "ops", "star", "ring", "pyramid", "random", "vonneumann"])),
        w=draw(st.sampled_from([1.0, 0.5, 0.9, -1.0])),
        nobounds=draw(st.booleans()),
        pad=draw(gen.pad),
    )


@facet(
    "C08",
    "handler",
    vh_case(),
    quick=9000,
    shards=8,
    rule="sequences of calls on one velocity handler, directly or through compute_velocity with c1=c2=0 (whose unrepaired "
    "velocity is w*v), against the documented repair; non-trivial when the repair or the clamp changes something",
)
def c08_handler(case):
    from pyswarms.backend.handlers import VelocityHandler

    lo, hi = gen.bnd(case["b"])
    clamp = gen.mk_clamp(case["clamp"])
    strategy = case["vh"]
    vh = VelocityHandler(strategy=strategy)
    prev = None
    if case["prime"] is not None:
        prev = lo + gen.grow(np.array(case["prime"], float), case["pad"]) * (hi - lo)
        vh.memory = prev.copy()
    tags = set()
    for salt, call in enumerate(case["calls"]):
        x = lo + gen.grow(np.array(call["x"], float), case["pad"], 1 + 2 * salt) * (hi - lo)
        v = gen.grow(np.array(call["v"], float), case["pad"], 2 + 2 * salt)
        z = 0.5 if case["z"] is None or case["update"] else case["z"]
        bounds = gen.mk_bounds(case["b"])
        if strategy in ("unmodified", "adjust") and case["nobounds"]:
            bounds = None
        if case["update"]:
            w = case["w"]
            pb = x + 1.0
            s = swarm_of(x.copy(), v.copy(), pb, (x[0] - 3.0).copy(), dict(c1=0.0, c2=0.0, w=w))
            fv, _ = via(case["update"])
            got = fv(s, gen.mk_clamp(case["clamp"]), vh, bounds)
            base = w * v
            tags.add("via-operator")
        else:
            kw = dict(position=x.copy(), bounds=bounds)
            if case["z"] is not None:
                kw["z"] = case["z"]
            got = vh(v.copy(), gen.mk_clamp(case["clamp"]), **kw)
            base = v
        gen.arr(got, v.shape, "velocity")
        want = ref_velocity(strategy, base, x, prev, (lo, hi), clamp, z)
        scale = np.abs(base) + np.abs(want) + (np.abs(x) + np.abs(prev) if prev is not None else 0)
        bad = ~close(got, want, scale, 1e-13)
        ensure(
            not bad.any(),
            "{}: velocity {} at position {} (previous {}), clamp {}, bounds {}..{} gave {}, expected {}",
            strategy,
            base[bad.any(axis=1)][:1].tolist(),
            x[bad.any(axis=1)][:1].tolist(),
            None if prev is None else prev[bad.any(axis=1)][:1].tolist(),
            case["clamp"],
            lo.tolist(),
            hi.tolist(),
            np.asarray(got)[bad.any(axis=1)][:1].tolist(),
            want[bad.any(axis=1)][:1].tolist(),
        )
        if strategy == "adjust":
            prev = x
        if not same(want, base):
            tags.add(strategy)
            if clamp is not None:
                tags.add("clamped")
            o_ = ((x < lo) | (x > hi)).any(axis=1)
            if o_.any() and not o_.all():
                tags.add("mixed-in-out")
    return sorted(tags) if strategy in tags or (strategy == "unmodified" and clamp is None) else None


@st.composite
def adj_case(draw):
    s = draw(gen.spec(opts=("binary", "binary", "global", "local"), vh=["adjust"], max_n=8, max_d=4))
    return dict(spec=s, actions=draw(gen.actions(max_iters=10)))


@st.composite
def vh_wide(draw):
    n, d, seed = draw(st.sampled_from([1, 2, 3, 7])), draw(st.sampled_from(WIDTHS)), draw(gen.seeds)
    r = np.random.RandomState(seed % 2 ** 32)
    return dict(
        vh=draw(st.sampled_from(gen.VH)), b=draw(gen.bounds(d)), clamp=draw(st.one_of(st.none(), gen.clamp_for(d, 1.0))),
        z=draw(st.sampled_from([None, 1.0, 0.1])), prime=draw(st.sampled_from([None, fractions_of(r, n, d)])),
        calls=[dict(v=r.normal(size=(n, d)).round(6).tolist(), x=fractions_of(r, n, d)) for _ in range(draw(st.integers(1, 3)))],
        update=draw(st.sampled_from([None, "ops", "star", "ring"])), w=1.0, nobounds=draw(st.booleans()), pad=draw(gen.pad),
    )


@facet("C08", "wide", vh_wide(), quick=600, shards=4, rule="as for handler, in 5 to 33 dimensions")
def c08_wide(case):
    return c08_handler(case)


@facet(
    "C08",
    "adjust_run",
    adj_case(),
    quick=1500,
    shards=4,
    rule="runs with vh_strategy='adjust': every velocity is the clamped difference of the last two positions (zero in the first "
    "update of a call); non-trivial when some difference is non-zero",
)
def c08_adjust_run(case):
    s = case["spec"]
    cl = gen.mk_clamp(s["clamp"])
    moved = False
    for o, a, c in gen.run_actions(s, case["actions"]):
        if c is None:
            continue
        prev = c.X[0]
        for i in range(len(c.X) - 1):
            want = clip((c.X[i] - prev).astype(float), cl)
            ensure(
                close(c.V[i + 1], want, np.abs(want) + np.abs(prev), 1e-12).all(),
                "iteration {}: velocity {} is not the clamped difference {}",
                i + 1,
                c.V[i + 1].tolist(),
                want.tolist(),
            )
            moved = moved or (c.X[i] != prev).any()
            prev = c.X[i]
    # continuous optimizers never move with this strategy (known finding of C06)
    return [s["opt"]] if moved else None


# ================================================================ C09
SCHED = ["exp_decay", "lin_variation", "nonlin_mod", "random"]


def sched_values(strategy, start, end, t, T, d1, d2, n):
    """Admissible values (d1's default is 0.2 in the code, 2 in the docs)."""
    if strategy == "lin_variation":
        return [end + (start - end) * (T - t) / T]
    if strategy == "nonlin_mod":
        return [end + (start - end) * (float(T - t) / T) ** (1.2 if n is None else n)]
    if strategy == "exp_decay":
        d1s = [0.2, 2.0] if d1 is None else [d1]
        q = 7.0 if d2 is None else d2
        return [(start - end - d) * np.exp(1.0 / (1.0 + q * t / T)) for d in d1s]
    raise ValueError(strategy)


def default_end(opt, start):
    return {"w": 0.4, "c1": 0.8 * start["c1"], "c2": start["c2"]}[opt]


@st.composite
def oh_case(draw):
    val = st.one_of(st.sampled_from([0.5, 1.0, 2.0, 0.9, 0.0, 2.5]), st.floats(-2, 4))
    start = dict(c1=draw(val), c2=draw(val), w=draw(val))
    if draw(st.booleans()):
        start.update(k=draw(st.integers(1, 10)), p=draw(st.sampled_from([1, 2])))
    keys = draw(st.lists(st.sampled_from(["c1", "c2", "w"]), unique=True))
    strategy = {k: draw(st.sampled_from(SCHED)) for k in sorted(keys)}
    T = draw(st.one_of(st.integers(1, 200), st.integers(1, 200), st.sampled_from([1001, 5000, 65537, 10 ** 6])))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        c = dict(t=draw(st.integers(0, T)), T=T, seed=draw(gen.seeds))
        e = {k: draw(val) for k in sorted(draw(st.lists(st.sampled_from(["c1", "c2", "w"]), unique=True)))}
        if draw(st.booleans()):
            c["end_opts"] = e
        for k, vals in (("d1", [0.0, 0.2, 2.0, 1.0]), ("d2", [7, 1, 0, 3.5]), ("n", [1.2, 1.0, 2.0, 0.5])):
            if draw(st.integers(0, 3)) == 0:
                c[k] = draw(st.sampled_from(vals))
        calls.append(c)
    extra = draw(st.booleans()) and "k" in start
    return dict(start=start, strategy=strategy, calls=calls, kstrat=draw(st.sampled_from(SCHED)) if extra else None)


@facet(
    "C09",
    "handler",
    oh_case(),
    quick=9000,
    shards=4,
    rule="OptionsHandler on generated start options, strategies, iterations and overrides against the documented formulas; "
    "non-trivial when some option has a strategy",
)
def c09_handler(case):
    from pyswarms.backend.handlers import OptionsHandler

    start = dict(case["start"])
    strategy = dict(case["strategy"])
    if case["kstrat"]:
        strategy["k"] = case["kstrat"]
    oh = OptionsHandler(strategy=dict(strategy))
    tags = set()
    for c in case["calls"]:
        kw = {k: c[k] for k in ("d1", "d2", "n") if k in c}
        ends = dict(c.get("end_opts", {}))
        if case["kstrat"]:
            ends["k"] = 3.0  # options other than c1, c2, w have no default end value
        if ends or "end_opts" in c:
            kw["end_opts"] = dict(ends)
        given = dict(start)
        np.random.seed(c["seed"])
        got = oh(given, iternow=c["t"], itermax=c["T"], **kw)
        ensure(given == start, "the caller's options were modified: {}", given)
        ensure(isinstance(got, dict) and set(got) == set(start), "options {} became {}", sorted(start), got)
        if "end_opts" in kw:
            ensure(kw["end_opts"] == ends, "end_opts was modified")
        for k in start:
            if k not in strategy:
                ensure(got[k] == start[k], "option {} has no strategy but changed from {} to {}", k, start[k], got[k])
                continue
            tags.add(strategy[k])
            if strategy[k] == "random":
                e = ends.get(k, start[k] + 1)
                a, b = min(start[k], e), max(start[k], e)
                ensure(a - 1e-12 <= got[k] <= b + 1e-12, "random: option {} = {} outside [{}, {}]", k, got[k], a, b)
                continue
            e = ends[k] if k in ends else default_end(k, start)
            want = sched_values(strategy[k], start[k], e, c["t"], c["T"], c.get("d1"), c.get("d2"), c.get("n"))
            ensure(
                any(abs(got[k] - v) <= 1e-10 * (abs(v) + abs(start[k]) + abs(e) + 1e-3) for v in want),
                "{}: option {} (start {}, end {}) at iteration {} of {} with {} is {}, expected {}",
                strategy[k],
                k,
                start[k],
                e,
                c["t"],
                c["T"],
                kw,
                got[k],
                want,
            )
    return sorted(tags)


@facet(
    "C09",
    "random_dist",
    st.fixed_dictionaries(
        dict(
            seed=gen.seeds,
            start=st.sampled_from([0.0, 0.5, 2.0, -1.0, 0, 1, 2, -1]),
            end=st.sampled_from([None, 0.25, 3.0, -4.0, 3, 4, -2]),
            opt=st.sampled_from(["c1", "c2", "w"]),
            order=st.permutations(["c1", "c2", "w"]),
            m=st.sampled_from([300, 300, 5000]),
        )
    ),
    quick=100,
    shards=2,
    rule="300 or 5000 draws of the random strategy are uniform between start and end and distinct; every case non-trivial",
)
def c09_random(case):
    from pyswarms.backend.handlers import OptionsHandler

    start = dict(c1=1.5, c2=1.5, w=1.5)
    start[case["opt"]] = case["start"]
    oh = OptionsHandler(strategy={case["opt"]: "random"})
    kw = {} if case["end"] is None else dict(end_opts={case["opt"]: case["end"]})
    e = case["start"] + 1 if case["end"] is None else case["end"]
    np.random.seed(case["seed"])
    m = case["m"]
    vals = np.array([oh(dict(start), iternow=i, itermax=m, **kw)[case["opt"]] for i in range(m)])
    u = (vals - case["start"]) / (e - case["start"])
    stats.uniform01(u, "random strategy")
    stats.all_distinct(u, "random strategy")
    # all options at once
    oh = OptionsHandler(strategy={k: "random" for k in case["order"]})
    kw = {} if case["end"] is None else dict(end_opts={k: case["end"] for k in start})
    start = {k: case["start"] for k in start}
    us = []
    for i in range(600):
        got = oh(dict(start), iternow=i, itermax=600, **kw)
        us.append([(got[k] - case["start"]) / (e - case["start"]) for k in ("c1", "c2", "w")])
    us = np.array(us)
    for j, k in enumerate(("c1", "c2", "w")):
        stats.uniform01(us[:, j], "random strategy, " + k)
    stats.joint(us, "random strategy for c1, c2 and w")
    return True


@st.composite
def ohrun_case(draw):
    opt = draw(st.sampled_from(["global", "local", "general"]))
    top = {"global": "star", "local": "ring"}.get(opt) or draw(st.sampled_from(["star", "ring", "random", "vonneumann", "pyramid"]))
    others = {k: draw(st.sampled_from(SCHED)) for k in sorted(draw(st.lists(st.sampled_from(["c1", "c2"]), unique=True)))}
    return dict(
        opt=opt,
        top=top,
        w=draw(st.sampled_from([0.9, 0.5, 1.2, 0.7])),
        strat=draw(st.sampled_from(SCHED)),
        others=others,
        calls=draw(st.lists(st.integers(2, 12), min_size=1, max_size=3)),
        seed=draw(gen.seeds),
        reset=draw(st.booleans()),
        bounded=draw(st.booleans()),
        verbose=draw(st.integers(0, 9)) == 0,
    )


def oh_spec(case, n, d, options):
    s = dict(
        opt=case["opt"], top=case["top"], static=False, n=n, d=d, options=options, seed=case["seed"],
        bounds=dict(lo=[-1e9] * d, hi=[1e9] * d, **{"as": "array"}) if case.get("bounded") else None,
        bh="nearest", vh="unmodified", clamp=None,
    )
    if case["top"] == "ring":
        options.update(k=2, p=2)
    if case["top"] == "vonneumann":
        options.update(p=2, r=1 if n > 2 * d + 1 else 0)
    if case["top"] == "random":
        options.update(k=2)
    r0 = np.random.RandomState(case["seed"] ^ 0x1234)
    s["init"] = r0.uniform(-10, 10, (n, d)).tolist()
    return s


@facet(
    "C09",
    "run_w",
    ohrun_case(),
    quick=2500,
    shards=4,
    rule="runs with c1=c2=0, where v' = w_t*v exactly: the inertia of every iteration of every call against the schedule; "
    "non-trivial when a call has at least 3 iterations",
)
def c09_run_w(case):
    n, d = 5, 2
    opts = dict(c1=0.0, c2=0.0, w=case["w"])
    s = oh_spec(case, n, d, opts)
    # a schedule for an option that starts at 0 has end 0 as well; exp_decay of it
    # would be -d1*exp(..) and `random` in [0, 1): not used here
    s["oh"] = dict({k: v for k, v in case["others"].items() if v in ("lin_variation", "nonlin_mod")}, w=case["strat"])
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    for k, T in enumerate(case["calls"]):
        if k and case["reset"]:
            o.reset()
        c = gen.run_call(o, s, gen.Objective(dict(kind="sphere", c=0.0)), T, verbose=case["verbose"])
        ensure(dict(o.options) == opts, "the optimizer's options became {}", o.options)
        rnd = []
        for t in range(len(c.X) - 1):
            v, nv = c.V[t], c.V[t + 1]
            m = np.abs(v) > 1e-200
            if not m.any():
                continue
            if case["strat"] == "random":
                r = nv[m] / v[m]
                ensure(np.ptp(r) <= 1e-9, "one iteration used several inertia values")
                ensure(case["w"] - 1e-9 <= r[0] <= case["w"] + 1 + 1e-9, "random inertia {} outside [{}, {}]", r[0], case["w"], case["w"] + 1)
                rnd.append(round(float(r[0]), 8))
                continue
            want = sched_values(case["strat"], case["w"], 0.4, t, T, None, None, None)
            ensure(
                any(close(nv, w * v, np.abs(v), 1e-9).all() for w in want),
                "call {} of {} iterations, iteration {}: the inertia used is {}, scheduled {}",
                k,
                T,
                t,
                (nv[m] / v[m])[0],
                want,
            )
        ensure(len(rnd) < 3 or len(set(rnd)) > 1, "the random inertia never changed: {}", rnd)
    return [case["strat"], case["top"]] if max(case["calls"]) >= 3 else None


@st.composite
def ohrun_c_case(draw):
    opt = draw(st.sampled_from(["global", "general", "local"]))
    which = draw(st.sampled_from(["c1", "c2"]))
    return dict(
        opt=opt,
        top={"global": "star", "local": "ring"}.get(opt, "star"),
        which=which,
        c=draw(st.sampled_from([2.0, 0.5, 3.0])),
        strat=draw(st.sampled_from(SCHED)),
        calls=draw(st.lists(st.integers(3, 6), min_size=1, max_size=2)),
        seed=draw(gen.seeds),
        wstrat=draw(st.sampled_from([None, "lin_variation", "nonlin_mod"])),
    )


@facet(
    "C09",
    "run_c",
    ohrun_c_case(),
    quick=200,
    shards=4,
    rule="runs of 250 particles with a single attraction term: the largest factor c*r of every iteration lies in "
    "(0.97*c_t, c_t] for the scheduled c_t; every case non-trivial",
)
def c09_run_c(case):
    n, d = 250, 4
    opts = dict(c1=0.0, c2=0.0, w=0.5)
    opts[case["which"]] = case["c"]
    s = oh_spec(case, n, d, opts)
    if case["top"] == "ring":
        opts["k"] = n - 1
    s["oh"] = {case["which"]: case["strat"]}
    if case["wstrat"]:
        s["oh"]["w"] = case["wstrat"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    start = dict(opts)
    checked = 0
    for k, T in enumerate(case["calls"]):
        # costs rise over the call: personal and global bests stay at the first positions
        c = gen.run_call(o, s, gen.Objective(dict(kind="table", seed=case["seed"] + k, levels=1000000, trend=1000000)), T)
        x0, c0 = c.X[0], c.C[0]
        best = x0[np.nonzero(c0 == c0.min())[0]]
        for t in range(1, len(c.X) - 1):
            w = opts["w"]
            if case["wstrat"]:
                w = sched_values(case["wstrat"], w, 0.4, t, T, None, None, None)[0]
            u = c.V[t + 1] - w * c.V[t]
            if case["which"] == "c1":
                den = x0 - c.X[t]
            else:
                # ring with k = n-1: only particles whose best neighbour is certain
                if len(best) > 1:
                    # all particles see some particle of lowest cost; ambiguous which
                    continue
                den = best[0] - c.X[t]
            m = np.abs(den) > 1e-6
            if case["top"] == "ring" and case["which"] == "c2":
                # leave out the particles that do not have the best one among their k
                far = np.argmax(((c.X[t][:, None, :] - c.X[t][None, :, :]) ** 2).sum(axis=2), axis=1)
                bi = int(np.argmin(c0))
                m &= (far != bi)[:, None]
            r = u[m] / den[m]
            if len(r) < 600:
                continue
            checked += 1
            if case["strat"] == "random":
                ensure(
                    r.min() > -1e-6 and 0.97 * case["c"] < r.max() <= case["c"] + 1 + 1e-6,
                    "random: iteration {} of call {} uses factors {}..{}, scheduled within [0, c), {} <= c < {}",
                    t,
                    k,
                    float(r.min()),
                    float(r.max()),
                    case["c"],
                    case["c"] + 1,
                )
                continue
            want = sched_values(case["strat"], case["c"], default_end(case["which"], start), t, T, None, None, None)
            # a scheduled value may be negative (exp_decay): the factors then span (c_t, 0]
            ensure(
                any(
                    (r.min() >= -1e-6 and 0.97 * q <= r.max() <= q + 1e-6)
                    if q >= 0
                    else (r.max() <= 1e-6 and 1.0 * q - 1e-6 <= r.min() <= 0.97 * q)
                    for q in want
                ),
                "{}: iteration {} of call {} ({} iterations) uses factors {}..{} for {}, scheduled {}",
                case["strat"],
                t,
                k,
                T,
                float(r.min()),
                float(r.max()),
                case["which"],
                want,
            )
    return [case["strat"], case["which"]] if checked else None


# ================================================================ C20
costs = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, float("inf"), -float("inf"), 1e300, -1e300, 1.0 + 1e-15]),
    st.integers(-3, 3).map(float),
    st.floats(-100, 100, allow_nan=False),
)


def enc(v):
    return [c if np.isfinite(c) else str(float(c)) for c in v]


def dec(v):
    return np.array([float(c) for c in v], float)


@st.composite
def pbest_case(draw):
    n, d = draw(st.integers(1, 7)), draw(st.integers(1, 4))
    steps = draw(
        st.lists(
            st.fixed_dictionaries(
                dict(x=gen.rows(n, d), c=st.lists(st.one_of(costs, costs, costs, st.just(float("nan"))), min_size=n, max_size=n).map(enc))
            ),
            min_size=1,
            max_size=5,
        )
    )
    return dict(
        pb=draw(gen.rows(n, d)),
        pbc=enc(draw(st.one_of(st.just([float("inf")] * n), st.lists(costs, min_size=n, max_size=n)))),
        steps=steps,
        intx=draw(st.integers(0, 5)) == 0,
        intc=draw(st.integers(0, 5)) == 0,
        pad=draw(gen.pad),
    )


@facet(
    "C20",
    "operator",
    pbest_case(),
    quick=9000,
    shards=4,
    rule="sequences of compute_pbest against a per-particle model; non-trivial when in one update some particles improve and "
    "others do not",
)
def c20_operator(case):
    from pyswarms.backend import operators as ops

    pb, pbc = gen.grow(np.array(case["pb"], float), case["pad"]), gen.grow(dec(case["pbc"]), case["pad"])
    if case["intc"] and (np.abs(pbc) < 1e15).all():  # personal-best costs of an integer type
        pbc = np.ceil(pbc).astype(int)
    mixed, tie = False, False
    for salt, st_ in enumerate(case["steps"]):
        x = gen.grow(np.array(st_["x"], float), case["pad"], 2 * salt + 1)
        c = gen.grow(dec(st_["c"]), case["pad"], 2 * salt + 2)
        if case["intx"]:
            x = np.round(x).astype(int)
        s = swarm_of(x.copy(), np.zeros(x.shape), pb.copy(), pbc=pbc.copy(), cur=c.copy())
        gp, gc = ops.compute_pbest(s)
        gen.arr(gp, x.shape, "pbest_pos")
        gen.arr(gc, c.shape, "pbest_cost")
        ensure(
            same(s.position, x) and same(s.pbest_pos, pb) and same(s.pbest_cost, pbc) and same(s.current_cost, c),
            "compute_pbest modified its swarm",
        )
        for i in range(len(x)):
            better = c[i] < pbc[i]
            wp, wc = (x[i], c[i]) if better else (pb[i], pbc[i])
            ensure(
                gc[i] == wc and (gp[i] == wp).all(),
                "particle {}: position {} cost {!r}, personal best {} cost {!r} gave {} cost {!r}",
                i,
                x[i].tolist(),
                float(c[i]),
                pb[i].tolist(),
                float(pbc[i]),
                gp[i].tolist(),
                float(gc[i]),
            )
            tie = tie or c[i] == pbc[i]
        b = c < pbc
        mixed = mixed or (b.any() and not b.all())
        # results are new arrays: writing into them must not reach the swarm
        pb, pbc = gp.astype(float).copy(), gc.astype(float).copy()
    return ["mixed"] + (["tie"] if tie else []) if mixed else None


@facet(
    "C20",
    "run",
    st.fixed_dictionaries(dict(spec=gen.spec(oh=True, ftol=True, max_n=8), actions=gen.actions(max_iters=8))),
    quick=3000,
    shards=8,
    rule="optimizer runs: swarm.pbest_pos and pbest_cost at every evaluation and at the end against the earliest lowest-cost "
    "position per particle; non-trivial when some particle keeps an older personal best",
)
def c20_run(case):
    s = case["spec"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    kept = False
    for act in case["actions"]:
        if act[0] == "reset":
            np.random.seed(act[1])
            o.reset()
            continue
        fn = gen.Objective(act[3])
        rec = StateRecorder(fn, s["n"], s["d"])
        c = gen.run_call(o, s, fn, act[1], seed=act[2], rec=rec)
        pb, pbc = c.X[0].astype(float).copy(), np.full(s["n"], np.inf)
        for i in range(len(c.X)):
            cur = np.asarray(c.C[i], float)
            b = cur < pbc
            kept = kept or (i > 0 and (~b).any())
            pb[b], pbc[b] = c.X[i][b], cur[b]
            got = rec.S[i + 1] if i + 1 < len(c.X) else (o.swarm.pbest_pos, o.swarm.pbest_cost, None)
            ensure(
                np.shape(got[0]) == pb.shape and (np.asarray(got[0]) == pb).all(),
                "after iteration {}: pbest_pos is {}, the model says {}",
                i,
                np.asarray(got[0]).tolist(),
                pb.tolist(),
            )
            ensure(
                np.shape(got[1]) == pbc.shape and (np.asarray(got[1]) == pbc).all(),
                "after iteration {}: pbest_cost is {}, the model says {}",
                i,
                np.asarray(got[1]).tolist(),
                pbc.tolist(),
            )
    return [s["opt"], s["top"]] if kept else None


# ================================================================ C21
@facet(
    "C21",
    "binary",
    st.fixed_dictionaries(
        dict(
            spec=gen.spec(opts=("binary",), max_n=10, max_d=6, ftol=True, w=st.sampled_from([0.9, 0.5, 0.0, 5.0, 100.0, -3.0])),
            actions=gen.actions(max_iters=12),
        )
    ),
    quick=4000,
    shards=6,
    rule="BinaryPSO runs over options (also exploding inertia), clamps and calls: 0/1 matrices everywhere and certain bits for "
    "extreme velocities; non-trivial when the bits changed",
)
def c21_binary(case):
    s = case["spec"]
    tags = set()

    def bits(x, what):
        gen.arr(x, (s["n"], s["d"]), what, kind="fiub")
        ensure(np.isin(x, (0, 1)).all(), "{} is not binary: {}", what, np.asarray(x).tolist())

    for o, a, c in gen.run_actions(s, case["actions"]):
        bits(np.asarray(o.swarm.position), "the swarm's position")
        if c is None:
            continue
        ensure(np.isin(c.pos, (0, 1)).all(), "the returned position is not binary: {}", c.pos.tolist())
        for i, x in enumerate(c.X):
            bits(x, "iteration %d" % i)
            if i:
                v = c.V[i]
                ensure((x[v > 50] == 1).all(), "a bit with velocity > 50 was not set")
                ensure((x[v < -50] == 0).all(), "a bit with velocity < -50 was set")
                if (np.abs(v) > 50).any():
                    tags.add("extreme")
                if not same(x, c.X[i - 1]):
                    tags.add("changed")
        for x in o.pos_history:
            bits(np.asarray(x), "pos_history")
    return sorted(tags) if "changed" in tags else None


@st.composite
def bindist_case(draw):
    n = draw(st.sampled_from([40, 120, 40, 120, 500]))
    d = draw(st.sampled_from([1, 3, 12]))
    clamps = [None, None, [-4.0, 4.0], [-1.0, 0.5], [-0.1, 6.0]]
    if draw(st.integers(0, 7)) == 7:
        n, d = draw(st.sampled_from([[150, 60], [1500, 5], [40, 300], [300, 70]]))
        # small differences of the probability show in this many bits
        clamps = [None, [-0.04, 0.045], [-0.04, 0.003], [-3.0, 3.27]]
    return dict(
        seed=draw(gen.seeds),
        n=n,
        d=d,
        c1=draw(st.sampled_from([0.0, 1.5, 3.0])),
        c2=draw(st.sampled_from([0.0, 1.5, 3.0])),
        w=draw(st.sampled_from([0.9, 0.0, 1.0, -0.8])),
        k=draw(st.sampled_from([1, 5, 30])),
        clamp=draw(st.sampled_from(clamps)),
        iters=draw(st.sampled_from([6, 12])),
        calls=draw(st.integers(1, 2)),
    )


@facet(
    "C21",
    "sigmoid",
    bindist_case(),
    quick=240,
    shards=8,
    rule="large BinaryPSO runs: residuals bit - 1/(1+exp(-v)) sum to zero overall, per velocity band, row and column, and are "
    "uncorrelated between particles, dimensions and iterations; every case non-trivial",
)
def c21_sigmoid(case):
    n, d = case["n"], case["d"]
    s = dict(
        opt="binary", top="ring", static=False, n=n, d=d,
        options=dict(c1=case["c1"], c2=case["c2"], w=case["w"], k=case["k"], p=2),
        seed=case["seed"], vh="unmodified", clamp=case["clamp"], init=None,
    )
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    B, P = [], []
    for _ in range(case["calls"]):
        fn = gen.Objective(dict(kind="table", seed=case["seed"], levels=1000, trend=0))
        c = gen.run_call(o, s, fn, case["iters"])
        for i in range(1, len(c.X)):
            B.append(c.X[i].astype(float))
            P.append(1 / (1 + np.exp(-c.V[i])))
    B, P = np.array(B), np.array(P)
    ensure(np.isin(B, (0, 1)).all(), "positions are not binary")
    stats.bernoulli(B, P, "all bits")
    for a, b in ((0, 0.2), (0.2, 0.4), (0.4, 0.5), (0.5, 0.6), (0.6, 0.8), (0.8, 1.01)):
        m = (P >= a) & (P < b)
        stats.bernoulli(B[m], P[m], "bits of probability %.1f-%.1f" % (a, b))
    if case["clamp"] is not None:
        for e in case["clamp"]:
            m = np.abs(P - 1 / (1 + np.exp(-e))) < 1e-12
            stats.bernoulli(B[m], P[m], "bits at the velocity limit %r" % e)
    for j in range(d):
        stats.bernoulli(B[:, :, j], P[:, :, j], "dimension %d" % j)
    for i in range(len(B)):
        stats.bernoulli(B[i], P[i], "update %d" % (i + 1))
    for i in (0, 1, n // 2, n - 1):
        stats.bernoulli(B[:, i], P[:, i], "particle %d" % i, min_var=12)
    R, V = B - P, P * (1 - P)
    stats.products(R[:, 1:], R[:, :-1], V[:, 1:], V[:, :-1], "neighbouring particles")
    stats.products(R[:, 2:], R[:, :-2], V[:, 2:], V[:, :-2], "particles at distance 2")
    if d > 1:
        stats.products(R[:, :, 1:], R[:, :, :-1], V[:, :, 1:], V[:, :, :-1], "neighbouring dimensions")
    stats.products(R[1:], R[:-1], V[1:], V[:-1], "successive updates")
    # the same threshold used for several particles shows in any pair of rows
    S, Q = R.sum(axis=1), V.sum(axis=1)
    z = (S ** 2).sum(axis=0).sum() / max(Q.sum(), 1e-9)
    m = S.size
    ensure(abs(z - 1) * np.sqrt(m / 2.0) < 9 or Q.sum() < 200, "bits of different particles are dependent (variance ratio {:.2f})", float(z))
    return ["clamped" if case["clamp"] else "free"]


@facet(
    "C21",
    "joint",
    joint_case(
        w=st.sampled_from([0.0, 0.9]), k=st.integers(1, 20), calls=st.integers(1, 2),
        c=st.sampled_from([0.0, 0.0, 1.5]), vh=st.sampled_from(["unmodified", "adjust"]), clamp=st.sampled_from([None, [-4.0, 4.0], [-0.5, 0.5]]),
    ),
    quick=80,
    shards=4,
    rule="a small swarm over 300 or 600 iterations: the residuals bit - 1/(1+exp(-v)) of any two components are uncorrelated, within an "
    "update and from one to the next; every case non-trivial",
)
def c21_joint(case):
    n, d = case["n"] + 1, case["d"]
    s = dict(
        opt="binary", top="ring", static=False, n=n, d=d,
        options=dict(c1=case["c"], c2=case["c"], w=case["w"], k=min(case["k"], n - 1), p=2),
        seed=case["seed"], vh=case["vh"], clamp=case["clamp"], init=None,
    )
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    R, V, B = [], [], []
    for _ in range(case["calls"]):
        c = gen.run_call(o, s, gen.Objective(dict(kind="table", seed=case["seed"], levels=1000, trend=0)), case["T"])
        for i in range(1, len(c.X)):
            p = 1 / (1 + np.exp(-c.V[i]))
            R.append((c.X[i] - p).ravel())
            V.append((p * (1 - p)).ravel())
            B.append(c.X[i].ravel())
    R, V = np.array(R), np.array(V)
    stats.residuals(R, V, "bits")
    if case["c"] == 0 and case["w"] == 0 and case["vh"] == "unmodified":
        stats.joint(np.array(B), "bits at velocity zero")
    return [case["vh"], "c%g" % case["c"]]
