"""Properties of whole optimizer runs: C01-C05, C10, C30."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import gen
from core import Violation, ensure, facet
from gen import run_actions, same


# ---------------------------------------------------------------- shared oracles
def check_result(c):
    """C01 on one finished call."""
    ensure(len(c.X) > 0, "the objective was never called")
    allc = np.concatenate([np.asarray(v, float) for v in c.C])
    allx = np.concatenate(c.X)
    m = np.min(allc)
    ensure(
        c.cost == m,
        "returned cost {!r} but the lowest cost evaluated in this call is {!r}",
        c.cost,
        float(m),
    )
    hit = (allc == c.cost) & (allx == c.pos).all(axis=1)
    ensure(
        hit.any(),
        "returned position {} with cost {!r} was never evaluated with that cost in this call",
        c.pos.tolist(),
        c.cost,
    )


def check_cost_histories(o, s, c):
    """C02 on one finished call."""
    n_it = len(c.X)
    best, pb = np.inf, np.full(s["n"], np.inf)
    for h in ("cost_history", "mean_pbest_history", "mean_neighbor_history"):
        ensure(
            len(gen.hist_slice(o, c, h)) == n_it,
            "{} got {} entries for {} iterations",
            h,
            len(gen.hist_slice(o, c, h)),
            n_it,
        )
    ch = [float(gen.arr(v, (), "cost_history entry")) for v in gen.hist_slice(o, c, "cost_history")]
    mp = [float(gen.arr(v, (), "mean_pbest_history entry")) for v in gen.hist_slice(o, c, "mean_pbest_history")]
    mn = [float(gen.arr(v, (), "mean_neighbor_history entry")) for v in gen.hist_slice(o, c, "mean_neighbor_history")]
    for i in range(n_it):
        cur = np.asarray(c.C[i], float)
        best = min(best, cur.min())
        pb = np.minimum(pb, cur)
        ensure(ch[i] == best, "cost_history entry {} is {!r}, the running minimum is {!r}", i, ch[i], float(best))
        mean = pb.mean()
        scale = np.abs(pb[np.isfinite(pb)]).max() if np.isfinite(pb).any() else 1.0
        if np.isinf(mean):
            ensure(mp[i] == mean, "mean_pbest_history entry {} is {!r} instead of {!r}", i, mp[i], float(mean))
        else:
            ensure(
                abs(mp[i] - mean) <= 1e-9 * scale,
                "mean_pbest_history entry {} is {!r}, the mean personal best is {!r}",
                i,
                mp[i],
                float(mean),
            )
        ensure(
            mn[i] >= best - 1e-9 * abs(best) and (np.isinf(mean) or mn[i] <= mean + 1e-9 * scale)
            or mn[i] == best,
            "mean_neighbor_history entry {} is {!r}, outside [{!r}, {!r}]",
            i,
            mn[i],
            float(best),
            float(mean),
        )
        if s["top"] == "star":
            ensure(mn[i] == best, "star: mean_neighbor_history entry {} is {!r}, the best cost {!r}", i, mn[i], float(best))
    ensure(ch[-1] == c.cost, "last cost_history entry {!r} is not the returned cost {!r}", ch[-1], c.cost)


def check_posvel_history(o, s, c, expect=None):
    n_it = len(c.X) if expect is None else expect
    ph, vh = gen.hist_slice(o, c, "pos_history"), gen.hist_slice(o, c, "velocity_history")
    ensure(len(ph) == n_it, "pos_history got {} entries for {} iterations", len(ph), n_it)
    ensure(len(vh) == n_it, "velocity_history got {} entries for {} iterations", len(vh), n_it)
    shape = (s["n"], s["d"])
    for i in range(n_it):
        gen.arr(ph[i], shape, "pos_history[%d]" % i)
        gen.arr(vh[i], shape, "velocity_history[%d]" % i)
        ensure(same(ph[i], c.X[i]), "pos_history[{}] differs from the positions evaluated at iteration {}", i, i)
        ensure(same(vh[i], c.V[i]), "velocity_history[{}] differs from the velocities at iteration {}", i, i)


@st.composite
def run_case(draw, act=None, **kw):
    return dict(spec=draw(gen.spec(**kw)), actions=draw(gen.actions(**(act or {}))))


#: small swarms, long histories
LONG = run_case(
    oh=True, max_n=5, max_d=2, tame=True, clamp=None,
    act=dict(max_calls=2, lengths=[66, 101, 129, 150, 205, 257, 300, 3], kinds=("table", "rugged", "holes", "sphere", "signed")),
)


#: histories beyond any plausible buffer
VERYLONG = run_case(
    opts=("global", "local"), oh=False, max_n=3, max_d=1, tame=True,
    act=dict(max_calls=2, resets=False, lengths=[1025, 1300, 2100, 700, 4200], kinds=("table", "rugged", "sphere", "signed")),
)


#: matrices of hundreds to thousands of components
WIDE = run_case(
    oh=True, min_n=30, max_n=70, max_d=9, tame=True,
    act=dict(max_calls=2, lengths=[2, 5, 52, 66, 101], kinds=("table", "rugged", "holes", "sphere", "signed")),
)


#: many calls on one optimizer
CALLS = run_case(oh=True, ftol=True, max_n=6, max_d=3, tame=True, act=dict(max_calls=24, min_calls=7, max_iters=4))


def tags_of(s, calls, extra=()):
    t = [s["top"], s["opt"]]
    if len(calls) > 1:
        t.append("multi-call")
    return t + list(extra)


# ---------------------------------------------------------------- C01
@facet(
    "C01",
    "run",
    run_case(oh=True, ftol=True),
    quick=4000,
    shards=8,
    rule="sequences of optimize()/reset() on a random optimizer configuration and objective; "
    "non-trivial when a later iteration improved on the first one, or several calls were made",
)
def c01_run(case):
    s = case["spec"]
    kept, calls, improved, extra = [], [], False, set()
    for o, a, c in run_actions(s, case["actions"]):
        if c is None:
            extra.add("reset")
            continue
        check_result(c)
        for i, (obj, copy) in enumerate(kept):
            ensure(same(obj, copy), "the position returned by call {} changed during a later call", i)
        kept.append((c.pos_obj, c.pos))
        calls.append(c)
        allc = np.array([np.asarray(v, float) for v in c.C])
        improved = improved or allc.min() < allc[0].min()
        if np.isinf(allc).any():
            extra.add("inf")
        if (allc == allc.min()).sum() > 1:
            extra.add("ties")
        # the result is the caller's own: writing into it reaches nothing else
        before = [np.array(v, copy=True) for v in (o.swarm.pbest_pos, o.swarm.position, o.pos_history[-1])]
        if isinstance(c.pos_obj, np.ndarray) and c.pos_obj.flags.writeable:
            c.pos_obj[...] = 1 if s["opt"] == "binary" else 113
            after = [o.swarm.pbest_pos, o.swarm.position, o.pos_history[-1]]
            ensure(
                all(same(x, y) for x, y in zip(before, after)),
                "the returned position is shared with the optimizer's state",
            )
            c.pos_obj[...] = c.pos
    if not (improved or len(calls) > 1):
        return None
    return tags_of(s, calls, extra)


@facet("C01", "long", LONG, quick=60, shards=2, rule="as for run, with calls of up to 300 iterations")
def c01_long(case):
    return c01_run(case)


@facet("C01", "verylong", VERYLONG, quick=12, shards=4, rule="as for run, with calls of 700 to 4200 iterations")
def c01_verylong(case):
    return c01_run(case)


@facet("C01", "wide", WIDE, quick=60, shards=4, rule="as for run, with matrices of 30 to 600 components and calls of up to 101 iterations")
def c01_wide(case):
    return c01_run(case)


@facet("C01", "calls", CALLS, quick=240, shards=4, rule="as for run, with 7 to 24 calls (or resets) on one optimizer")
def c01_calls(case):
    return c01_run(case)


# ---------------------------------------------------------------- C02
@facet(
    "C02",
    "run",
    run_case(oh=True, ftol=True),
    quick=4000,
    shards=8,
    rule="as for C01; non-trivial when a call had several iterations with differing best costs, or several calls were made",
)
def c02_run(case):
    s = case["spec"]
    calls, nt = [], False
    lens = 0
    for o, a, c in run_actions(s, case["actions"]):
        if c is None:
            for h in gen.HISTS:
                ensure(getattr(o, h) == [], "{} is not empty after reset()", h)
            lens = 0
            continue
        ensure(c.before["cost_history"] == lens, "cost_history changed between calls")
        check_cost_histories(o, s, c)
        lens += len(c.X)
        calls.append(c)
        nt = nt or len({float(np.min(v)) for v in c.C}) > 1
    if not (nt or len(calls) > 1):
        return None
    return tags_of(s, calls)


@facet("C02", "long", LONG, quick=60, shards=2, rule="as for run, with calls of up to 300 iterations")
def c02_long(case):
    return c02_run(case)


@facet("C02", "verylong", VERYLONG, quick=12, shards=4, rule="as for run, with calls of 700 to 4200 iterations")
def c02_verylong(case):
    return c02_run(case)


@facet("C02", "wide", WIDE, quick=60, shards=4, rule="as for run, with matrices of 30 to 600 components and calls of up to 101 iterations")
def c02_wide(case):
    return c02_run(case)


@facet("C02", "calls", CALLS, quick=240, shards=4, rule="as for run, with 7 to 24 calls (or resets) on one optimizer")
def c02_calls(case):
    return c02_run(case)


# ---------------------------------------------------------------- C03
@facet(
    "C03",
    "run",
    run_case(oh=True, ftol=True),
    quick=4000,
    shards=8,
    rule="as for C01, comparing every history entry with copies taken when the objective was called; "
    "non-trivial when the swarm moved or several calls were made",
)
def c03_run(case):
    s = case["spec"]
    calls, moved = [], False
    log_x, log_v = [], []
    for o, a, c in run_actions(s, case["actions"]):
        if c is None:
            log_x, log_v = [], []
            for h in gen.HISTS:
                ensure(getattr(o, h) == [], "{} is not empty after reset()", h)
            continue
        check_posvel_history(o, s, c)
        log_x += c.X
        log_v += c.V
        ensure(len(o.pos_history) == len(log_x), "pos_history has {} entries, expected {}", len(o.pos_history), len(log_x))
        ensure(len(o.velocity_history) == len(log_v), "velocity_history has {} entries, expected {}", len(o.velocity_history), len(log_v))
        for i in range(len(log_x)):
            ensure(same(o.pos_history[i], log_x[i]), "recorded pos_history[{}] changed later", i)
            ensure(same(o.velocity_history[i], log_v[i]), "recorded velocity_history[{}] changed later", i)
        calls.append(c)
        moved = moved or (len(c.X) > 1 and not same(c.X[0], c.X[-1]))
    if not (moved or len(calls) > 1):
        return None
    return tags_of(s, calls, ["vh:" + s["vh"]])


@facet("C03", "long", LONG, quick=60, shards=2, rule="as for run, with calls of up to 300 iterations")
def c03_long(case):
    return c03_run(case)


@facet("C03", "verylong", VERYLONG, quick=12, shards=4, rule="as for run, with calls of 700 to 4200 iterations")
def c03_verylong(case):
    return c03_run(case)


@facet("C03", "wide", WIDE, quick=60, shards=4, rule="as for run, with matrices of 30 to 600 components and calls of up to 101 iterations")
def c03_wide(case):
    return c03_run(case)


@facet("C03", "calls", CALLS, quick=240, shards=4, rule="as for run, with 7 to 24 calls (or resets) on one optimizer")
def c03_calls(case):
    return c03_run(case)


# ---------------------------------------------------------------- C04
def check_in(x, lo, hi, what):
    ensure(
        (lo <= x).all() and (x <= hi).all(),
        "{} leaves the bounds {}..{}: {}",
        what,
        lo.tolist(),
        hi.tolist(),
        np.asarray(x)[((x < lo) | (x > hi)).any(axis=-1)][:3].tolist() if np.ndim(x) == 2 else np.asarray(x).tolist(),
    )


@facet(
    "C04",
    "run",
    run_case(opts=("global", "local", "general"), bounded=True, oh=True, ftol=True, max_n=10, act=dict(max_iters=15)),
    quick=5000,
    shards=8,
    rule="bounded runs with every handler, clamp, topology and bound location; non-trivial when an unrepaired step "
    "x+v would have left the bounds",
)
def c04_run(case):
    s = case["spec"]
    lo, hi = gen.bnd(s["bounds"])
    left = False
    for o, a, c in run_actions(s, case["actions"]):
        if c is None:
            check_in(o.swarm.position, lo, hi, "the swarm after reset()")
            continue
        for i, x in enumerate(c.X):
            check_in(x, lo, hi, "iteration %d (bh=%s)" % (i, s["bh"]))
        for i, x in enumerate(o.pos_history):
            check_in(np.asarray(x), lo, hi, "pos_history[%d]" % i)
        check_in(c.pos, lo, hi, "the returned position")
        check_in(np.asarray(o.swarm.position), lo, hi, "the swarm's position after the call")
        for x, v in zip(c.X[:-1], c.V[1:]):
            y = x + v
            left = left or ((y < lo) | (y > hi)).any()
    if not left:
        return None
    return ["bh:" + s["bh"], s["top"], "as:" + s["bounds"]["as"]]


@facet(
    "C04",
    "long",
    run_case(
        opts=("global", "local", "general"), bounded=True, oh=True, max_n=5, max_d=2, tame=True,
        act=dict(max_calls=2, lengths=[66, 101, 150, 257], kinds=("table", "rugged", "holes")),
    ),
    quick=60,
    shards=2,
    rule="as for run, with calls of up to 257 iterations",
)
def c04_long(case):
    return c04_run(case)


@st.composite
def initial_case(draw):
    d = draw(st.integers(1, 5))
    lo, hi = [], []
    for _ in range(d):
        a = draw(st.one_of(st.floats(-1e9, 1e9, allow_nan=False), st.sampled_from(gen.LO), st.sampled_from([999.99, -123456.789, 1e15, 0.1])))
        w = draw(st.sampled_from([1.0, 1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 1e5]))
        b = a + max(abs(a), 1e-3) * w
        if not b > a:
            b = float(np.nextafter(a, np.inf))
        lo.append(a)
        hi.append(b)
    return dict(
        b=dict(lo=lo, hi=hi, **{"as": draw(st.sampled_from(["array", "list"]))}),
        n=draw(st.sampled_from([1, 5, 400, 400, 2000])),
        seed=draw(gen.seeds),
        via=draw(st.sampled_from(["generate", "create", "global", "local", "general"])),
        reset=draw(st.booleans()),
    )


@facet(
    "C04",
    "initial",
    initial_case(),
    quick=600,
    shards=2,
    rule="the initial positions of up to 2000 particles in wide and extremely narrow ranges far from zero; non-trivial when 400 "
    "particles or more are drawn",
)
def c04_initial(case):
    import pyswarms as ps
    from pyswarms.backend import create_swarm
    from pyswarms.backend.generators import generate_swarm
    from pyswarms.backend.topology import Star

    lo, hi = gen.bnd(case["b"])
    n, d, via = case["n"], len(lo), case["via"]
    b = gen.mk_bounds(case["b"])
    np.random.seed(case["seed"])
    if via == "generate":
        x = generate_swarm(n, d, bounds=b)
    elif via == "create":
        x = create_swarm(n, d, bounds=b).position
    else:
        o = dict(c1=1.0, c2=1.0, w=0.5, k=1, p=2)
        if via == "global":
            opt = ps.single.GlobalBestPSO(n, d, o, bounds=b)
        elif via == "local":
            opt = ps.single.LocalBestPSO(n, d, o, bounds=b) if n > 1 else ps.single.GlobalBestPSO(n, d, o, bounds=b)
        else:
            opt = ps.single.GeneralOptimizerPSO(n, d, o, Star(), bounds=b)
        if case["reset"]:
            opt.reset()
        x = opt.swarm.position
    gen.arr(x, (n, d), "position")
    check_in(x, lo, hi, "the initial position (%s)" % via)
    return [via] if n >= 400 else None


@st.composite
def repair_case(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(1, 6))
    b = draw(gen.bounds(d))
    return dict(
        b=b,
        bh=draw(st.sampled_from(gen.BH)),
        start=draw(gen.rows(n, d, gen.unit)),
        steps=draw(
            st.lists(
                gen.rows(n, d, st.one_of(st.sampled_from([0.0, 0.1, -0.1, 1.0, -1.0, 0.5, -0.5, 3.0, -7.5, 2.0, -2.0, 1e-9]), st.floats(-20, 20))),
                min_size=1,
                max_size=4,
            )
        ),
        seed=draw(gen.seeds),
        pad=draw(gen.pad),
    )


@facet(
    "C04",
    "repair",
    repair_case(),
    quick=6000,
    shards=5,
    rule="sequences of steps (in units of the width) repaired by a primed handler; non-trivial when a step leaves the bounds",
)
def c04_repair(case):
    from pyswarms.backend.handlers import BoundaryHandler

    b = case["b"]
    lo, hi = gen.bnd(b)
    fr = gen.grow(np.array(case["start"], float), case["pad"])
    x = np.clip(lo + fr * (hi - lo), lo, hi)
    bh = BoundaryHandler(strategy=case["bh"])
    bh.memory = x
    np.random.seed(case["seed"])
    left = False
    for salt, st_ in enumerate(case["steps"]):
        y = x + gen.grow(np.array(st_, float), case["pad"], 1 + salt) * (hi - lo)
        left = left or ((y < lo) | (y > hi)).any()
        x = bh(y.copy(), gen.mk_bounds(b))
        gen.arr(x, y.shape, "repaired position")
        check_in(x, lo, hi, "the position repaired by " + case["bh"])
        x = x.copy()
    return ["bh:" + case["bh"]] if left else None


# ---------------------------------------------------------------- C05
@facet(
    "C05",
    "run",
    run_case(clamp=True, oh=True, max_n=10, act=dict(max_iters=10)),
    quick=5000,
    shards=8,
    rule="clamped runs of every optimizer; non-trivial when some velocity component sits at a limit",
)
def c05_run(case):
    s = case["spec"]
    cl, ch = [np.asarray(v, float) for v in gen.mk_clamp(s["clamp"])]
    tol = 1e-9 * (1 + np.maximum(np.abs(cl), np.abs(ch)))
    at = False

    def inside(v, what):
        ensure(
            ((v >= cl - tol) & (v <= ch + tol)).all(),
            "{}: velocities {} are outside the clamp {}",
            what,
            np.asarray(v)[((v < cl - tol) | (v > ch + tol)).any(axis=1)][:2].tolist(),
            s["clamp"],
        )

    for o, a, c in run_actions(s, case["actions"]):
        if c is None:
            inside(o.swarm.velocity, "after reset()")
            continue
        for i, v in enumerate(c.V):
            inside(v, "iteration %d (vh=%s)" % (i, s["vh"]))
            at = at or ((v == cl) | (v == ch)).any()
        for i, v in enumerate(o.velocity_history):
            inside(np.asarray(v), "velocity_history[%d]" % i)
        inside(np.asarray(o.swarm.velocity), "after the call")
        if s["opt"] != "binary" and s["bounds"] is None:
            for i in range(1, len(c.X)):
                step = c.X[i] - c.X[i - 1]
                t = tol + 1e-9 * (np.abs(c.X[i]) + np.abs(c.X[i - 1]))
                ensure(
                    ((step >= cl - t) & (step <= ch + t)).all(),
                    "step {} changes a coordinate by more than the clamp {} allows",
                    i,
                    s["clamp"],
                )
    return ["vh:" + s["vh"], s["opt"]] if at else None


@facet(
    "C05",
    "long",
    run_case(clamp=True, oh=True, max_n=5, max_d=2, tame=True, act=dict(max_calls=2, lengths=[66, 101, 150, 257], kinds=("table", "rugged", "holes"))),
    quick=60,
    shards=2,
    rule="as for run, with calls of up to 257 iterations",
)
def c05_long(case):
    return c05_run(case)


@st.composite
def vh_case(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(1, 5))
    b = draw(gen.bounds(d))
    k = draw(st.integers(1, 3))
    frac = st.one_of(st.sampled_from([0.0, 0.5, 1.0, 1.5, -0.5, 1.0 + 1e-9]), st.floats(-1, 2))
    return dict(
        b=b,
        vh=draw(st.sampled_from(gen.VH)),
        clamp=draw(gen.clamp_for(d)),
        calls=[
            dict(v=draw(gen.rows(n, d, gen.real)), x=draw(gen.rows(n, d, frac)))
            for _ in range(k)
        ],
        primed=draw(st.booleans()),
        pad=draw(gen.pad),
    )


@facet(
    "C05",
    "handler",
    vh_case(),
    quick=6000,
    shards=5,
    rule="velocity handlers called directly, particles in and out of bounds; non-trivial when the clamp cuts a component",
)
def c05_handler(case):
    from pyswarms.backend.handlers import VelocityHandler

    lo, hi = gen.bnd(case["b"])
    cl, ch = [np.asarray(v, float) for v in gen.mk_clamp(case["clamp"])]
    vh = VelocityHandler(strategy=case["vh"])
    if case["primed"]:
        vh.memory = lo + gen.grow(np.array(case["calls"][0]["x"], float), case["pad"]) * 0.5
    cut = False
    for salt, call in enumerate(case["calls"]):
        v = gen.grow(np.array(call["v"], float), case["pad"], 1 + salt)
        x = lo + gen.grow(np.array(call["x"], float), case["pad"], 9 + salt) * (hi - lo)
        out = vh(v.copy(), gen.mk_clamp(case["clamp"]), position=x.copy(), bounds=gen.mk_bounds(case["b"]))
        gen.arr(out, v.shape, "velocity")
        ensure(
            ((out >= cl) & (out <= ch)).all(),
            "{} returned {} outside the clamp {}",
            case["vh"],
            out.tolist(),
            case["clamp"],
        )
        cut = cut or ((out == cl) | (out == ch)).any()
    return ["vh:" + case["vh"]] if cut else None


# ---------------------------------------------------------------- C10
class Scripted:
    """Costs by call index: script[i] is the swarm's cost vector (cyclic) / 4."""

    def __init__(self, script, n):
        self.script, self.n, self.i = script, n, 0

    def __call__(self, x):
        row = self.script[self.i % len(self.script)]
        off = self.i // len(self.script)
        self.i += 1
        return np.array([row[j % len(row)] / 4.0 for j in range(self.n)])


def model_iterations(script, iters, ftol, ftol_iter):
    if ftol == "-inf":
        return iters
    f = Fraction(*ftol)
    best, prev, run = None, None, 0  # run: small deltas in a row
    for i in range(iters):
        cur = min(Fraction(v, 4) for v in script[i % len(script)])
        prev, best = best, cur if best is None else min(best, cur)
        small = prev is not None and abs(best - prev) < f * (1 + abs(prev))
        run = run + 1 if small else 0
        if i >= ftol_iter and run >= ftol_iter:
            return i + 1
    return iters


@st.composite
def stop_case(draw):
    s = draw(gen.spec(oh=True, max_n=6, max_d=3))
    ftol = draw(st.sampled_from(["-inf", [0, 1], [-1, 1], [1, 1024], [1, 64], [1, 8], [1, 4], [1, 2], [1, 1], [8, 1]]))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        iters = draw(st.integers(1, 20))
        style = draw(st.integers(0, 2))
        if style == 0:  # plateaus and drops
            lvl, script = draw(st.integers(0, 400)), []
            for _ in range(iters):
                lvl -= draw(st.sampled_from([0, 0, 0, 0, 1, 2, 7, 50]))
                script.append([lvl + j for j in draw(st.lists(st.integers(0, 9), min_size=1, max_size=3))])
                m = min(script[-1])
                if draw(st.booleans()):
                    script[-1][0] = lvl
        elif style == 1:
            script = [[v] for v in draw(st.lists(st.integers(-40, 40), min_size=iters, max_size=iters))]
        else:
            script = draw(
                st.lists(st.lists(st.integers(-8, 8), min_size=1, max_size=3), min_size=iters, max_size=iters)
            )
        calls.append(dict(iters=iters, script=script, seed=draw(gen.seeds), verbose=draw(st.integers(0, 9)) == 0))
    s["ftol_iter"] = draw(st.integers(1, 6))
    return dict(spec=s, ftol=ftol, calls=calls, reset=draw(st.booleans()))


@facet(
    "C10",
    "stop",
    stop_case(),
    quick=5000,
    shards=8,
    rule="scripted dyadic cost sequences (exact arithmetic) against a rational-number model of the stopping rule, over "
    "several calls; non-trivial when ftol is finite and a call stops early, or all iterations are performed although "
    "single deltas were small, or ftol is left at its default",
)
def c10_stop(case):
    s = dict(case["spec"])
    if case["ftol"] != "-inf":
        s["ftol"] = case["ftol"][0] / case["ftol"][1]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    tags = set()
    for k, call in enumerate(case["calls"]):
        if k and case["reset"]:
            o.reset()
        script = [[row[j % len(row)] for j in range(s["n"])] for row in call["script"]]
        fn = Scripted(script, s["n"])
        c = gen.run_call(o, s, fn, call["iters"], seed=call["seed"], verbose=call["verbose"])
        want = model_iterations(script, call["iters"], case["ftol"], s["ftol_iter"])
        ensure(
            len(c.X) == want,
            "call {}: {} iterations performed, expected {} (iters={}, ftol={}, ftol_iter={})",
            k,
            len(c.X),
            want,
            call["iters"],
            case["ftol"],
            s["ftol_iter"],
        )
        ensure(
            len(gen.hist_slice(o, c, "cost_history")) == want,
            "call {}: {} history entries, expected {}",
            k,
            len(gen.hist_slice(o, c, "cost_history")),
            want,
        )
        if want < call["iters"]:
            tags.add("early")
        elif case["ftol"] == "-inf":
            tags.add("default")
        elif call["iters"] > s["ftol_iter"]:
            tags.add("full")
        if want < call["iters"] and k:
            tags.add("early-in-later-call")
    return sorted(tags) + [s["opt"]] if tags else None


@st.composite
def long_stop_case(draw):
    s = draw(gen.spec(oh=True, max_n=5, max_d=2, tame=True))
    calls = []
    for _ in range(draw(st.integers(1, 2))):
        iters = draw(st.sampled_from([40, 65, 130, 250]))
        r = np.random.RandomState(draw(gen.seeds))
        drop = draw(st.sampled_from([0.02, 0.1, 0.3]))
        lvl = np.cumsum(-1 * (r.rand(iters) < drop) * r.choice([1, 2, 7, 50], iters)) + 300
        script = [[int(v), int(v) + int(r.randint(9))] for v in lvl]
        calls.append(dict(iters=iters, script=script, seed=draw(gen.seeds), verbose=False))
    s["ftol_iter"] = draw(st.sampled_from([1, 8, 15, 30, 64, 100]))
    ftol = draw(st.sampled_from(["-inf", [1, 1024], [1, 64], [1, 8], [1, 2]]))
    return dict(spec=s, ftol=ftol, calls=calls, reset=draw(st.booleans()))


@facet(
    "C10",
    "long",
    long_stop_case(),
    quick=160,
    shards=2,
    rule="as for stop, with calls of up to 250 iterations and ftol_iter up to 100",
)
def c10_long(case):
    return c10_stop(case)


@st.composite
def verylong_stop_case(draw):
    s = draw(gen.spec(oh=False, min_n=1, max_n=2, max_d=2, tame=True))
    iters = draw(st.sampled_from([1030, 2100, 2600, 5100]))
    r = np.random.RandomState(draw(gen.seeds))
    ftol_iter = draw(st.sampled_from([1, 30, 100, 400, 1100]))
    # steady descent, then a plateau that may be long enough to stop on
    flat = draw(st.sampled_from([0, ftol_iter // 2, ftol_iter + 5, ftol_iter + 40]))
    lvl = np.cumsum(-r.choice([1, 2, 3], iters))
    at = int(r.randint(iters // 2, iters))
    lvl[at : at + flat] = lvl[at]
    lvl = np.minimum.accumulate(lvl)
    s["ftol_iter"] = ftol_iter
    calls = [dict(iters=iters, script=[[int(v)] for v in lvl], seed=draw(gen.seeds), verbose=False)]
    return dict(spec=s, ftol=draw(st.sampled_from(["-inf", [1, 2**30], [1, 2**20]])), calls=calls, reset=False)


@facet(
    "C10",
    "verylong",
    verylong_stop_case(),
    quick=48,
    shards=6,
    rule="as for stop, with one call of 1030 to 5100 iterations, a plateau late in it and ftol_iter up to 1100",
)
def c10_verylong(case):
    return c10_stop(case)


# ---------------------------------------------------------------- C30
class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


EXC = {
    "boom": lambda: Boom("x", 3),
    "base": lambda: BoomBase("stop"),
    "key": lambda: KeyError("c1"),
    "attr": lambda: AttributeError("no attribute"),
    "value": lambda: ValueError("bad"),
    "type": lambda: TypeError("bad"),
    "index": lambda: IndexError(3),
    "kbd": lambda: KeyboardInterrupt(),
    "stopiter": lambda: StopIteration(4),
    "arith": lambda: ZeroDivisionError("div"),
    "fp": lambda: FloatingPointError("underflow"),
    "overflow": lambda: OverflowError("big"),
    "memory": lambda: MemoryError(),
    "os": lambda: FileNotFoundError(2, "gone", "model.bin"),
    "runtime": lambda: RuntimeError("r"),
    "assert": lambda: AssertionError("a"),
    "linalg": lambda: np.linalg.LinAlgError("singular"),
    "exit": lambda: SystemExit(3),
    "genexit": lambda: GeneratorExit(),
    "timeout": lambda: TimeoutError("slow"),
    "unicode": lambda: UnicodeDecodeError("utf8", b"x", 0, 1, "bad"),
    "warning": lambda: RuntimeWarning("w"),
    "notimpl": lambda: NotImplementedError(),
    "args": lambda: ValueError(),
}


@st.composite
def fail_case(draw):
    s = draw(gen.spec(oh=True, ftol=True, max_n=6, max_d=3))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        iters = draw(st.integers(1, 8))
        calls.append(
            dict(
                iters=iters,
                fail=draw(st.integers(0, iters - 1)),
                exc=draw(st.sampled_from(sorted(EXC))),
                obj=draw(gen.objective()),
                seed=draw(gen.seeds),
                verbose=draw(st.integers(0, 9)) == 0,
            )
        )
    return dict(
        spec=s,
        calls=calls,
        then=dict(iters=draw(st.integers(1, 6)), obj=draw(gen.objective()), seed=draw(gen.seeds)),
        reset_seed=draw(gen.seeds),
        direct=draw(st.booleans()),
    )


@facet(
    "C30",
    "fail",
    fail_case(),
    quick=4000,
    shards=8,
    rule="every optimizer with an objective that raises one of 24 exceptions at a generated evaluation, repeatedly, then a "
    "full call and a reset; non-trivial when a failure happened after at least one completed iteration",
)
def c30_fail(case):
    s = case["spec"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    tags = set()
    total = []
    for call in case["calls"]:
        fn = gen.Objective(call["obj"])
        rec = gen.Recorder(fn, s["n"], s["d"])
        exc = EXC[call["exc"]]()
        rec.fail_at, rec.exc = call["fail"], exc
        before = {h: len(getattr(o, h)) for h in gen.HISTS}
        try:
            c = gen.run_call(o, s, fn, call["iters"], seed=call["seed"], rec=rec, verbose=call["verbose"])
        except Violation:
            raise
        except BaseException as got:
            if rec.exc is not exc or rec.fail_at is not None:
                raise  # an exception of pyswarms itself
            ensure(got is exc, "the objective raised {!r} but optimize() raised {!r}", exc, got)
            done = len(rec.X)
            ensure(done == call["fail"], "harness: {} evaluations", done)
            for h in gen.HISTS:
                ensure(
                    len(getattr(o, h)) - before[h] == done,
                    "{} got {} entries from a call that completed {} iterations before it failed",
                    h,
                    len(getattr(o, h)) - before[h],
                    done,
                )
            c = gen.Call()
            c.before, c.X, c.V = before, rec.X, rec.V
            check_posvel_history(o, s, c, expect=done)
            if done:
                tags.add("after-iterations")
                costs = [float(np.min(v)) for v in rec.C]
                ensure(
                    [float(v) for v in gen.hist_slice(o, c, "cost_history")]
                    == [min(costs[: i + 1]) for i in range(done)],
                    "cost_history of the failed call is not its running minimum",
                )
            tags.add("exc:" + call["exc"])
        else:
            # ended (by ftol) before the failing evaluation
            ensure(rec.fail_at is not None, "optimize() swallowed the objective's {!r}", exc)
            check_result(c)
    if case["direct"]:
        t = case["then"]
        c = gen.run_call(o, s, gen.Objective(t["obj"]), t["iters"], seed=t["seed"])
        check_result(c)
        check_cost_histories(o, s, c)
        check_posvel_history(o, s, c)
    # after reset(): like new
    np.random.seed(case["reset_seed"])
    o.reset()
    for h in gen.HISTS:
        ensure(getattr(o, h) == [], "{} is not empty after reset()", h)
    np.random.seed(1)
    fresh = gen.mk_optimizer(s)
    np.random.seed(case["reset_seed"])
    fresh.reset()
    ensure(same(o.swarm.position, fresh.swarm.position), "reset() after a failure: other positions than a new optimizer")
    ensure(same(o.swarm.velocity, fresh.swarm.velocity), "reset() after a failure: other velocities than a new optimizer")
    t = case["then"]
    if not (s["static"] and s["top"] in ("ring", "random", "pyramid")) and s["top"] != "vonneumann":
        ca = gen.run_call(o, s, gen.Objective(t["obj"]), t["iters"], seed=t["seed"])
        cb = gen.run_call(fresh, s, gen.Objective(t["obj"]), t["iters"], seed=t["seed"])
        ensure(
            len(ca.X) == len(cb.X) and all(same(x, y) for x, y in zip(ca.X, cb.X)) and ca.cost == cb.cost and same(ca.pos, cb.pos),
            "after a failure and reset() the run differs from a new optimizer's",
        )
    return sorted(tags) if "after-iterations" in tags else None
