"""Generators and configuration errors: C19, C29."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss

import gen
import stats
from core import Violation, ensure, facet
from gen import same

centers = st.one_of(st.none(), st.sampled_from([1.0, 0.5, 2.0, -1.0, 10]), st.just("array"))


def mk_center(c, d, seed):
    if c is None:
        return 1.0
    if c == "array":
        return np.random.RandomState(seed).choice([0.5, 1.0, 2.0, -3.0, 10.0], d)
    return c


# ================================================================ C19
@st.composite
def create_case(draw):
    n, d = draw(st.integers(1, 9)), draw(st.integers(1, 6))
    big = draw(st.integers(0, 23))
    if big == 22:
        d = draw(st.sampled_from([8, 12, 30, 65, 130, 300]))
    if big == 23:
        n = draw(st.sampled_from([17, 33, 65, 129, 200]))
    kind = draw(st.sampled_from(["cont", "cont", "binary", "perm"]))
    case = dict(n=n, d=d, kind=kind, seed=draw(gen.seeds), via=draw(st.sampled_from(["create", "direct", "global", "local", "general"])))
    case["resets"] = draw(st.integers(0, 2))
    case["clamp"] = draw(st.one_of(st.none(), gen.clamp_for(d, draw(st.sampled_from([1.0, 30.0]))), int_clamp(d)))
    if case["clamp"] is not None and draw(st.booleans()):
        sh = draw(st.sampled_from([0.0, 5.0, -20.0]))  # limits need not contain zero here
        case["clamp"] = [[v + sh for v in c] if isinstance(c, list) else c + sh for c in case["clamp"]]
    if kind == "cont":
        case["bounds"] = draw(st.one_of(st.none(), gen.bounds(d)))
        case["center"] = draw(centers)
        case["init"] = draw(st.one_of(st.none(), gen.init_desc(n, d, case["bounds"], True)))
    elif kind == "binary":
        case["init"] = draw(st.one_of(st.none(), gen.rows(min(n, 6), d, st.integers(0, 1))))
    else:
        case["init"] = draw(st.one_of(st.none(), gen.rows(min(n, 6), d, st.integers(0, 9))))
    case["options"] = draw(
        st.one_of(
            st.none(),
            st.dictionaries(st.sampled_from(["c1", "c2", "w", "k", "p", "x"]), st.sampled_from([0.5, 1, 2, 0.9])),
        )
    )
    return case


@facet(
    "C19",
    "create",
    create_case(),
    quick=6000,
    shards=6,
    rule="create_swarm and the single generators over sizes, bounds, centers, clamps, init_pos and options: shape, range, exact "
    "init_pos and swarm attributes; non-trivial when n*d > 1",
)
def c19_create(case):
    from pyswarms.backend import generators as G

    n, d, kind = case["n"], case["d"], case["kind"]
    init = None if case["init"] is None else gen.grow(np.array(case["init"]), dict(n=n, seed=case["seed"] % 1000))
    given = None if init is None else init.copy()
    clamp = gen.mk_clamp(case["clamp"])
    np.random.seed(case["seed"])
    kw = {}
    if kind == "cont":
        center = mk_center(case["center"], d, case["seed"])
        kw = dict(bounds=gen.mk_bounds(case["bounds"]))
        if case["center"] is not None:
            kw["center"] = center
    if case["via"] not in ("create", "direct") and kind != "perm":
        if kind == "binary":
            import pyswarms as ps

            o = ps.discrete.BinaryPSO(n, d, dict(c1=1, c2=1, w=1, k=1, p=2), init_pos=init, velocity_clamp=clamp)
        else:
            o = mk_opt(case["via"], n, d, init_pos=init, velocity_clamp=clamp, **kw)
        for _ in range(case.get("resets", 0)):
            o.reset()
        s = o.swarm
        pos, vel = s.position, s.velocity
        ensure(s.n_particles == n and s.dimensions == d, "the swarm has n_particles={}, dimensions={} instead of {}, {}", s.n_particles, s.dimensions, n, d)
        ensure(s.best_cost == np.inf and np.size(s.best_pos) == 0, "a new swarm already has a best: {} {}", s.best_cost, s.best_pos)
    elif case["via"] != "direct":
        if kind != "cont":
            kw.update(discrete=True, binary=kind == "binary")
        if case["options"] is not None:
            kw["options"] = dict(case["options"])
        s = G.create_swarm(n, d, init_pos=init, clamp=clamp, **kw)
        pos, vel = s.position, s.velocity
        ensure(s.n_particles == n and s.dimensions == d, "the swarm has n_particles={}, dimensions={} instead of {}, {}", s.n_particles, s.dimensions, n, d)
        ensure(s.options == (case["options"] or {}), "the swarm's options are {} instead of {}", s.options, case["options"])
        ensure(same(s.pbest_pos, pos), "pbest_pos does not start at the initial positions")
        ensure(s.best_cost == np.inf and np.size(s.best_pos) == 0, "a new swarm already has a best: {} {}", s.best_cost, s.best_pos)
        ensure(np.size(s.pbest_cost) == 0 and np.size(s.current_cost) == 0, "a new swarm already has costs")
    else:
        vel = G.generate_velocity(n, d, clamp=clamp)
        if kind == "cont":
            pos = G.generate_swarm(n, d, init_pos=init, **kw)
        else:
            pos = G.generate_discrete_swarm(n, d, binary=kind == "binary", init_pos=init)
    gen.arr(pos, (n, d), "position")
    gen.arr(vel, (n, d), "velocity")
    cl, ch = (0.0, 1.0) if clamp is None else clamp
    tol = 1e-9 * (1 + np.abs(cl) + np.abs(ch))
    ensure(((vel >= cl - tol) & (vel <= ch + tol)).all(), "velocity {} outside {}..{}", vel.tolist(), cl, ch)
    if given is not None:
        ensure(same(pos, given), "positions {} instead of init_pos {}", np.asarray(pos).tolist(), given.tolist())
        ensure(same(init, given), "init_pos was modified")
    elif kind == "cont":
        lo, hi = (np.zeros(d), np.ones(d)) if case["bounds"] is None else gen.bnd(case["bounds"])
        a, b = lo * center, hi * center
        a, b = np.minimum(a, b), np.maximum(a, b)
        t = 1e-12 * (np.abs(a) + np.abs(b)) if case["center"] not in (None, 1.0) else 0.0
        ensure(((pos >= a - t) & (pos <= b + t)).all(), "positions {} outside {}..{}", np.asarray(pos).tolist(), a.tolist(), b.tolist())
    elif kind == "binary":
        ensure(np.isin(pos, (0, 1)).all(), "binary positions {}", np.asarray(pos).tolist())
    else:
        ensure((np.sort(pos, axis=1) == np.arange(d)).all(), "rows are not permutations of 0..{}: {}", d - 1, np.asarray(pos).tolist())
    return [kind, case["via"], "init" if given is not None else "drawn"] if n * d > 1 else None


@st.composite
def int_clamp(draw, d):
    """A clamp of Python or numpy integers."""
    pair = st.tuples(st.integers(-9, 3), st.integers(1, 12)).map(lambda p: [p[0], p[0] + p[1]])
    if draw(st.booleans()):
        return draw(pair)
    ps = [draw(pair) for _ in range(d)]
    return [[p[0] for p in ps], [p[1] for p in ps]]


@st.composite
def cdist_case(draw):
    d = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6), st.sampled_from([17, 40, 70])))
    return dict(
        d=d,
        n=draw(st.sampled_from([80, 300, 80, 300, 5000 if d < 10 else 1100])),
        seed=draw(gen.seeds),
        bounds=draw(st.one_of(st.none(), gen.bounds(d))),
        center=draw(centers),
        clamp=draw(st.one_of(st.none(), gen.clamp_for(d), int_clamp(d))),
        via=draw(st.sampled_from(["create", "direct", "global", "local", "general"])),
    )


def mk_opt(opt, n, d, **kw):
    import pyswarms as ps

    o = dict(c1=1, c2=1, w=1, k=1, p=2)
    if opt == "global":
        return ps.single.GlobalBestPSO(n, d, o, **kw)
    if opt == "local":
        return ps.single.LocalBestPSO(n, d, o, **kw)
    return ps.single.GeneralOptimizerPSO(n, d, o, ps.backend.topology.Ring(), **kw)


@facet(
    "C19",
    "uniform",
    cdist_case(),
    quick=300,
    shards=3,
    rule="large swarms: positions and velocities uniform in every dimension (KS), pairwise distinct, uncorrelated and different "
    "between draws; every case non-trivial",
)
def c19_uniform(case):
    from pyswarms.backend import generators as G

    n, d = case["n"], case["d"]
    center = mk_center(case["center"], d, case["seed"])
    lo, hi = (np.zeros(d), np.ones(d)) if case["bounds"] is None else gen.bnd(case["bounds"])
    clamp = gen.mk_clamp(case["clamp"])
    cl, ch = (0.0, 1.0) if clamp is None else clamp
    np.random.seed(case["seed"])
    out = []
    o = None
    for _ in range(2):
        if case["via"] == "create":
            s = G.create_swarm(n, d, bounds=gen.mk_bounds(case["bounds"]), center=center, clamp=clamp)
            pos, vel = s.position, s.velocity
        elif case["via"] == "direct":
            pos = G.generate_swarm(n, d, bounds=gen.mk_bounds(case["bounds"]), center=center)
            vel = G.generate_velocity(n, d, clamp=clamp)
        else:
            if o is None:
                o = mk_opt(case["via"], n, d, bounds=gen.mk_bounds(case["bounds"]), center=center, velocity_clamp=clamp)
            else:
                o.reset()
            pos, vel = o.swarm.position, o.swarm.velocity
        gen.arr(pos, (n, d), "position")
        gen.arr(vel, (n, d), "velocity")
        u = (pos / center - lo) / (hi - lo)
        v = (vel - cl) / (np.asarray(ch) - cl)
        for j in range(d):
            stats.uniform01(u[:, j], "position, dimension %d" % j, slack=1e-7)
            stats.uniform01(v[:, j], "velocity, dimension %d" % j, slack=1e-7)
        for m, name in ((u, "positions"), (v, "velocities")):
            stats.all_distinct(m, name, digits=10, allowed=1)
            stats.uncorrelated(m[1:], m[:-1], name + ": neighbouring particles")
            if d > 1:
                stats.uncorrelated(m[:, 1:], m[:, :-1], name + ": neighbouring dimensions")
        stats.uncorrelated(u, v, "positions and velocities")
        out += [u, v]
    stats.all_distinct(np.concatenate(out), "two draws", digits=10, allowed=2)
    return [case["via"]]


@st.composite
def cjoint_case(draw):
    n, d = draw(st.sampled_from([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 3), (5, 2), (3, 4), (8, 1), (6, 3), (16, 1)]))
    return dict(
        seed=draw(gen.seeds), n=n, d=d, T=draw(st.sampled_from([300, 600])),
        what=draw(st.sampled_from(["swarm", "velocity", "create", "reset", "binary", "permutation"])),
        opt=draw(st.sampled_from(["global", "local", "general"])),
        bounded=draw(st.booleans()), center=draw(st.sampled_from([1.0, 2.0])),
        clamp=draw(st.sampled_from([None, [-1.0, 1.0], [0.0, 0.5], [-1, 1], [0, 3]])),
    )


@facet(
    "C19",
    "joint",
    cjoint_case(),
    quick=160,
    shards=4,
    rule="300 or 600 draws of one small swarm: no two components are dependent, within a draw or from one to the next; every case "
    "non-trivial",
)
def c19_joint(case):
    from pyswarms.backend import generators as G

    n, d, what, clamp = case["n"], case["d"], case["what"], gen.mk_clamp(case["clamp"])
    b = None
    if case["bounded"]:
        b = (np.full(d, -3), np.full(d, 5)) if case["seed"] % 3 == 0 else (np.full(d, -3.0), np.full(d, 5.0))
    if what == "permutation" and d == 1:
        d = 2
    np.random.seed(case["seed"])
    o = mk_opt(case["opt"], n, d, bounds=b, center=case["center"], velocity_clamp=clamp) if what == "reset" else None
    out, group = [], None
    for _ in range(case["T"]):
        if what == "swarm":
            v = np.ravel(G.generate_swarm(n, d, bounds=b, center=case["center"]))
        elif what == "velocity":
            v = np.ravel(G.generate_velocity(n, d, clamp=clamp))
        elif what in ("create", "reset"):
            if what == "create":
                s = G.create_swarm(n, d, bounds=b, center=case["center"], clamp=clamp)
            else:
                o.reset()
                s = o.swarm
            lo, w = (0.0, 1.0) if b is None else (-3.0, 8.0)
            cl, cw = (0.0, 1.0) if clamp is None else (clamp[0], clamp[1] - clamp[0])
            v = np.concatenate([np.ravel((s.position / case["center"] - lo) / w), np.ravel((s.velocity - cl) / cw)])
        else:
            v = np.ravel(G.generate_discrete_swarm(n, d, binary=what == "binary"))
            if what == "permutation":
                group = np.repeat(np.arange(n), d)
        out.append(v)
    stats.joint(np.array(out), what, group)
    return [what]


@facet(
    "C19",
    "discrete",
    st.fixed_dictionaries(
        dict(
            seed=gen.seeds,
            d=st.one_of(st.integers(1, 7), st.integers(1, 7), st.sampled_from([17, 33, 65, 130])),
            n=st.sampled_from([150, 600, 150, 600, 6000]),
            binary=st.booleans(),
            via=st.sampled_from(["create", "direct", "optimizer"]),
        )
    ),
    quick=240,
    shards=2,
    rule="large discrete swarms: fair independent bits, or uniform independent permutations; non-trivial when d > 1 or binary",
)
def c19_discrete(case):
    from pyswarms.backend import generators as G
    import pyswarms as ps

    n, d, binary = case["n"], case["d"], case["binary"]
    np.random.seed(case["seed"])
    if case["via"] == "create":
        pos = G.create_swarm(n, d, discrete=True, binary=binary).position
    elif case["via"] == "direct" or not binary:
        pos = G.generate_discrete_swarm(n, d, binary=binary)
    else:
        pos = ps.discrete.BinaryPSO(n, d, dict(c1=1, c2=1, w=1, k=2, p=2)).swarm.position
    pos = gen.arr(pos, (n, d), "position")
    if binary:
        ensure(np.isin(pos, (0, 1)).all(), "binary positions outside 0, 1")
        P = np.full((n, d), 0.5)
        stats.bernoulli(pos, P, "bits")
        for j in range(d):
            stats.bernoulli(pos[:, j], P[:, j], "bits of dimension %d" % j, min_var=30)
        R, V = pos - 0.5, np.full((n, d), 0.25)
        for lag in (1, 2):
            stats.products(R[lag:], R[:-lag], V[lag:], V[:-lag], "particles at distance %d" % lag, min_var=8)
        if d > 1:
            stats.products(R[:, 1:], R[:, :-1], V[:, 1:], V[:, :-1], "neighbouring dimensions", min_var=8)
        return ["binary"]
    ensure((np.sort(pos, axis=1) == np.arange(d)).all(), "rows are not permutations of 0..{}", d - 1)
    if d == 1:
        return None
    for j in range(d):
        cnt = np.bincount(pos[:, j], minlength=d)
        p = ss.chisquare(cnt).pvalue
        ensure(p > 1e-10, "position {}: the values occur {} times (chi-square p={:.2g})", j, cnt.tolist(), float(p))
    if d <= 4:
        perms = {q: 0 for q in itertools.permutations(range(d))}
        for row in pos:
            perms[tuple(int(v) for v in row)] += 1
        p = ss.chisquare(list(perms.values())).pvalue
        ensure(p > 1e-10, "the permutations occur {} times (chi-square p={:.2g})", list(perms.values()), float(p))
    eq = (pos[1:] == pos[:-1])
    stats.bernoulli(eq[:, 0], np.full(n - 1, 1.0 / d), "equal values in neighbouring rows", min_var=15)
    return ["permutation"]


# ================================================================ C29
def expect(exc, fn, what):
    """fn() must raise exc (exactly this documented class or a subclass)."""
    try:
        fn()
    except exc:
        return
    except Exception as got:
        raise Violation("%s raised %s: %s instead of %s" % (what, type(got).__name__, got, exc.__name__))
    raise Violation("%s was accepted instead of raising %s" % (what, exc.__name__))


def run_short(s, **over):
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s, **over)
    fn = gen.Objective(dict(kind="sphere", c=0.0))
    o.optimize(lambda x: fn(x), 2, verbose=False)
    return o


CONT = ("global", "local", "general")


@st.composite
def bad_case(draw):
    kind = draw(
        st.sampled_from(
            [
                "init_oob",
                "init_shape",
                "bounds_len",
                "clamp_len",
                "ftol_iter",
                "binary_init",
                "topology",
                "missing_opt",
                "missing_kp",
                "bh",
                "vh",
                "oh",
            ]
        )
    )
    opts = CONT
    bounded = None
    if kind in ("binary_init",):
        opts = ("binary",)
    if kind in ("clamp_len", "ftol_iter", "missing_opt", "vh"):
        opts = CONT + ("binary",)
    if kind == "missing_kp":
        opts = ("local", "binary")
    if kind == "topology":
        opts = ("general",)
    if kind in ("init_oob", "bounds_len", "bh"):
        bounded = True
    s = draw(gen.spec(opts=opts, bounded=bounded, init=True if kind in ("init_oob", "init_shape") else None, max_n=7, max_d=4))
    case = dict(spec=s, kind=kind)
    n, d = s["n"], s["d"]
    if kind == "init_oob":
        case["at"] = [draw(st.integers(0, n - 1)), draw(st.integers(0, d - 1))]
        case["by"] = draw(st.sampled_from(["ulp", 0.001, 1.0, 1e6]))
        case["up"] = draw(st.booleans())
    if kind == "init_shape":
        case["shape"] = draw(st.sampled_from(["rows+1", "cols+1", "T", "flat", "row", "rows-1", "cols-1", "3d"]))
    if kind in ("bounds_len", "clamp_len"):
        case["delta"] = draw(st.sampled_from([-1, 1, 2]))
        case["which"] = draw(st.sampled_from(["lo", "hi", "both"]))
    if kind == "ftol_iter":
        case["value"] = draw(st.sampled_from([0, -1, -5, 1.5, 2.0, 0.5, -0.5]))
    if kind == "binary_init":
        case["values"] = draw(
            st.lists(st.integers(-3, 5), min_size=n * d, max_size=n * d)
        )
    if kind == "topology":
        case["value"] = draw(st.sampled_from(["none", "str", "class", "object", "dict", "int"]))
    if kind in ("missing_opt",):
        case["key"] = draw(st.sampled_from(["c1", "c2", "w"]))
    if kind == "missing_kp":
        case["key"] = draw(st.sampled_from(["k", "p"]))
    if kind in ("bh", "vh", "oh"):
        case["name"] = draw(st.sampled_from(["", "Nearest", "neares", "unknown", "adjust_", "memory", "strategies", "None"]))
    return case


@facet(
    "C29",
    "optimizers",
    bad_case(),
    quick=3000,
    shards=6,
    rule="optimizer configurations with exactly one generated defect, which must raise the documented error, while the same "
    "configuration without it runs; non-trivial when the defect is present",
)
def c29_optimizers(case):
    import pyswarms as ps
    from pyswarms.backend.topology import Star

    s, kind = case["spec"], case["kind"]
    n, d = s["n"], s["d"]
    run_short(s)  # the valid neighbour
    what = "%s for %s" % (kind, s["opt"])

    def build(**over):
        np.random.seed(s["seed"])
        return gen.mk_optimizer(s, **over)

    if kind == "init_oob":
        lo, hi = gen.bnd(s["bounds"])
        i, j = case["at"]
        init = np.array(s["init"], float)
        edge = hi[j] if case["up"] else lo[j]
        init[i, j] = edge
        run_short(s, init_pos=init.copy())  # on the bound: accepted
        if case["by"] == "ulp":
            init[i, j] = np.nextafter(edge, np.inf if case["up"] else -np.inf)
        else:
            init[i, j] = edge + (case["by"] if case["up"] else -case["by"])
        expect(ValueError, lambda: build(init_pos=init), "init_pos[%d, %d] = %r outside the bounds %r" % (i, j, init[i, j], edge))
    elif kind == "init_shape":
        init = np.array(s["init"], float)
        sh = case["shape"]
        if sh == "rows+1":
            bad = np.vstack([init, init[:1]])
        elif sh == "cols+1":
            bad = np.hstack([init, init[:, :1]])
        elif sh == "rows-1":
            bad = init[:-1]
        elif sh == "cols-1":
            bad = init[:, :-1]
        elif sh == "T":
            bad = init.T
        elif sh == "flat":
            bad = init.ravel()
        elif sh == "row":
            bad = init[0]
        else:
            bad = init[:, :, None]
        if bad.shape == (n, d):
            return None
        if s["bounds"] is not None and bad.shape[-1:] != (d,):
            s = dict(s, bounds=None, vh="unmodified")
        expect(ValueError, lambda: build(init_pos=bad), "init_pos of shape %s for (%d, %d)" % (bad.shape, n, d))
    elif kind == "bounds_len":
        lo, hi = gen.bnd(s["bounds"])

        def cut(v, on):
            if not on:
                return v
            m = d + case["delta"]
            return np.concatenate([v, v])[:m] if m <= 2 * d else np.tile(v, 3)[:m]

        b = (cut(lo, case["which"] != "hi"), cut(hi, case["which"] != "lo"))
        if s["bounds"]["as"] == "list":
            b = (list(b[0]), list(b[1]))
        if d + case["delta"] == 0:
            b = (np.zeros(0), np.zeros(0))
        expect(ValueError, lambda: build(bounds=b), "bounds of lengths %d, %d for %d dimensions" % (len(b[0]), len(b[1]), d))
    elif kind == "clamp_len":
        m = d + case["delta"]
        if m <= 1 or d == 1:
            return None  # broadcasts
        expect(ValueError, lambda: build(velocity_clamp=(np.full(m, -1.0), np.full(m, 1.0))), "clamp of length %d for %d dimensions" % (m, d))
    elif kind == "ftol_iter":
        expect(AssertionError, lambda: build(ftol_iter=case["value"]), "ftol_iter=%r" % case["value"])
        build(ftol_iter=1)
    elif kind == "binary_init":
        init = np.array(case["values"]).reshape(n, d)
        if len(np.unique(init)) <= 2:
            return None
        expect(ValueError, lambda: build(init_pos=init), "init_pos %s" % init.tolist())
        build(init_pos=(init > 0) * 1)
        build(init_pos=np.ones((n, d), int))
        build(init_pos=np.zeros((n, d), int))
    elif kind == "topology":
        bad = dict(none=None, str="star", object=object(), dict={}, int=1)
        bad["class"] = Star
        expect(TypeError, lambda: build(topology=bad[case["value"]]), "topology=%r" % (bad[case["value"]],))
    elif kind == "missing_opt":
        o = dict(s["options"])
        del o[case["key"]]
        s2 = dict(s, options=o)
        expect(KeyError, lambda: run_short(s2), "options without " + case["key"])
    elif kind == "missing_kp":
        o = dict(s["options"])
        del o[case["key"]]
        expect(KeyError, lambda: build(options=o), "options without " + case["key"])
    elif kind == "bh":
        expect(KeyError, lambda: run_short(dict(s, bh=case["name"])), "bh_strategy=%r" % case["name"])
    elif kind == "vh":
        expect(KeyError, lambda: run_short(dict(s, vh=case["name"])), "vh_strategy=%r" % case["name"])
    elif kind == "oh":
        expect(KeyError, lambda: run_short(dict(s, oh={"w": case["name"]})), "oh_strategy={'w': %r}" % case["name"])
    return [kind, s["opt"]]


@st.composite
def backend_bad(draw):
    return dict(
        kind=draw(
            st.sampled_from(
                [
                    "swarm_field",
                    "pbest_arg",
                    "velocity_arg",
                    "position_arg",
                    "gbest_arg",
                    "handler_bh",
                    "handler_vh",
                    "vh_kwargs",
                    "oh_kwargs",
                    "gen_types",
                    "gen_bounds",
                    "gen_init",
                    "discrete_init",
                    "velocity_opts",
                    "search_opt",
                    "search_n",
                ]
            )
        ),
        n=draw(st.integers(2, 6)),
        d=draw(st.integers(2, 4)),
        pick=draw(st.integers(0, 11)),
        top=draw(st.sampled_from(["star", "ring", "vonneumann", "pyramid", "random"])),
        strat=draw(st.sampled_from(gen.VH)),
        seed=draw(gen.seeds),
    )


@facet(
    "C29",
    "backend",
    backend_bad(),
    quick=3000,
    shards=2,
    rule="backend and search calls with one generated defect, and their valid counterparts; every case non-trivial",
)
def c29_backend(case):
    from pyswarms.backend import generators as G, operators as ops, topology as T
    from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
    from pyswarms.backend.swarms import Swarm
    from pyswarms.utils.search import GridSearch, RandomSearch
    import pyswarms as ps

    k, n, d, pick = case["kind"], case["n"], case["d"], case["pick"]
    r = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"])
    x, v = r.uniform(size=(n, d)), r.uniform(size=(n, d))
    full = dict(c1=0.5, c2=0.5, w=0.5)
    bad = [None, 5, "swarm", [1, 2], {}, 2.5, object()][pick % 7]
    if k == "swarm_field":
        fields = ["position", "velocity", "pbest_pos", "best_pos", "pbest_cost", "current_cost", "options", "best_cost", "n_particles", "dimensions"]
        f = fields[pick % len(fields)]
        kw = dict(position=x, velocity=v)
        Swarm(**kw)
        wrong = dict(options=[1], best_cost="low", n_particles=2.5, dimensions="3").get(f, x.tolist())
        if f in ("position", "velocity"):
            # n_particles etc. are derived from position: give them
            kw.update(n_particles=n, dimensions=d, pbest_pos=x)
        kw[f] = wrong
        expect(TypeError, lambda: Swarm(**kw), "Swarm(%s=%r)" % (f, wrong))
        return [k]
    if k == "pbest_arg":
        expect(AttributeError, lambda: ops.compute_pbest(bad), "compute_pbest(%r)" % (bad,))
        return [k]
    if k == "velocity_arg":
        expect(AttributeError, lambda: ops.compute_velocity(bad, None, VelocityHandler("unmodified"), None), "compute_velocity(%r)" % (bad,))
        return [k]
    if k == "position_arg":
        expect(AttributeError, lambda: ops.compute_position(bad, None, BoundaryHandler("nearest")), "compute_position(%r)" % (bad,))
        return [k]
    if k == "gbest_arg":
        top = {"star": T.Star, "ring": T.Ring, "vonneumann": T.VonNeumann, "pyramid": T.Pyramid, "random": T.Random}[case["top"]]()
        kw = {"ring": dict(p=2, k=1), "vonneumann": dict(p=2, r=0), "random": dict(k=1)}.get(case["top"], {})
        expect(AttributeError, lambda: top.compute_gbest(bad, **kw), "%s.compute_gbest(%r)" % (case["top"], bad))
        s = Swarm(x, v, pbest_cost=r.uniform(size=n), best_cost=np.inf)
        top.compute_gbest(s, **kw)
        return [k]
    if k == "velocity_opts":
        key = ["c1", "c2", "w"][pick % 3]
        o = {q: 0.5 for q in full if q != key}
        s = Swarm(x, v, options=o, best_pos=x[0])
        expect(KeyError, lambda: ops.compute_velocity(s, None, VelocityHandler("unmodified"), None), "compute_velocity without " + key)
        s = Swarm(x, v, options=full, best_pos=x[0])
        ops.compute_velocity(s, None, VelocityHandler("unmodified"), None)
        return [k]
    if k in ("handler_bh", "handler_vh"):
        name = ["x", "", "Periodic", "Zero", "strategy", "memory"][pick % 6]
        b = (np.zeros(d), np.ones(d))
        if k == "handler_bh":
            expect(KeyError, lambda: BoundaryHandler(strategy=name)(x, b), "BoundaryHandler(%r)" % name)
        else:
            expect(KeyError, lambda: VelocityHandler(strategy=name)(v, None, position=x, bounds=b), "VelocityHandler(%r)" % name)
        return [k]
    if k == "vh_kwargs":
        b = (np.zeros(d), np.ones(d))
        strat = case["strat"]
        vh = VelocityHandler(strategy=strat)
        if strat == "unmodified":
            vh(v.copy(), None)
        elif strat == "adjust":
            expect(KeyError, lambda: vh(v.copy(), None), "adjust without position")
        else:
            expect(KeyError, lambda: vh(v.copy(), None, position=x), strat + " without bounds")
            expect(KeyError, lambda: vh(v.copy(), None, bounds=b), strat + " without position")
            vh(v.copy(), None, position=x, bounds=b)
        return [k]
    if k == "oh_kwargs":
        strat = ["exp_decay", "lin_variation", "nonlin_mod"][pick % 3]
        oh = OptionsHandler(strategy={"w": strat})
        expect(KeyError, lambda: oh(dict(full), iternow=1), strat + " without itermax")
        expect(KeyError, lambda: oh(dict(full), itermax=10), strat + " without iternow")
        oh(dict(full), iternow=1, itermax=10)
        expect(KeyError, lambda: OptionsHandler(strategy={"w": "what"})(dict(full), iternow=1, itermax=2), "OptionsHandler({'w': 'what'})")
        return [k]
    if k == "gen_types":
        val = [2.0, "3", 1.5, "abc"][pick % 4]
        args = (val, d) if pick % 2 else (n, val)
        expect(TypeError, lambda: G.generate_swarm(*args), "generate_swarm%r" % (args,))
        expect(TypeError, lambda: G.generate_velocity(*args), "generate_velocity%r" % (args,))
        expect(TypeError, lambda: G.generate_discrete_swarm(*args), "generate_discrete_swarm%r" % (args,))
        expect(TypeError, lambda: G.generate_discrete_swarm(*args, binary=True), "generate_discrete_swarm%r" % (args,))
        return [k]
    if k == "gen_bounds":
        which = pick % 5
        if which == 0:
            expect(TypeError, lambda: G.generate_swarm(n, d, bounds=0.5), "bounds=0.5")
        else:
            m = [d - 1, d + 1, d + 2, 1][which - 1]
            if m == d:
                return None
            b = (np.zeros(m), np.ones(m))
            if pick > 5:
                b = (np.zeros(d), np.ones(m))
            expect(ValueError, lambda: G.generate_swarm(n, d, bounds=b), "bounds of lengths %d, %d" % (len(b[0]), len(b[1])))
        G.generate_swarm(n, d, bounds=(np.zeros(d), np.ones(d)))
        return [k]
    if k == "gen_init":
        b = (np.zeros(d), np.ones(d))
        G.generate_swarm(n, d, bounds=b, init_pos=x)
        y = x.copy()
        y[pick % n, pick % d] = [-1e-9, 1 + 1e-9, -5.0, 7.0][pick % 4]
        expect(ValueError, lambda: G.generate_swarm(n, d, bounds=b, init_pos=y), "init_pos outside the bounds")
        G.generate_swarm(n, d, init_pos=y)
        if n != d:
            expect(ValueError, lambda: G.generate_swarm(d, n, init_pos=y), "init_pos of shape %s" % (y.shape,))
        return [k]
    if k == "discrete_init":
        y = r.randint(0, 2, (n, d))
        G.generate_discrete_swarm(n, d, binary=True, init_pos=y)
        y[0, 0], y[0, 1], y[1, 0] = 0, 1, 2
        expect(ValueError, lambda: G.generate_discrete_swarm(n, d, binary=True, init_pos=y), "binary init_pos %s" % y.tolist())
        G.generate_discrete_swarm(n, d, binary=False, init_pos=y)
        return [k]
    f = gen.Objective(dict(kind="sphere", c=0.0))
    so = dict(c1=[0.5], c2=[0.5], w=[0.5], k=1, p=2)
    ro = dict(c1=[0.5, 1], c2=[0.5, 1], w=[0.5, 1], k=[1, n], p=2)
    if k == "search_opt":
        b2 = [None, 5, "GlobalBestPSO", f][pick % 4]
        expect(TypeError, lambda: GridSearch(b2, n, d, so, f, 2), "GridSearch(%r)" % (b2,))
        expect(TypeError, lambda: RandomSearch(b2, n, d, ro, f, 2, n_selection_iters=2), "RandomSearch(%r)" % (b2,))
        GridSearch(ps.single.LocalBestPSO, n, d, so, f, 2)
        return [k]
    if k == "search_n":
        b2 = [2.0, "2", None, [2], 0.5][pick % 5]
        expect(TypeError, lambda: RandomSearch(ps.single.LocalBestPSO, n, d, ro, f, 2, n_selection_iters=b2), "n_selection_iters=%r" % (b2,))
        RandomSearch(ps.single.LocalBestPSO, n, d, ro, f, 2, n_selection_iters=3)
        return [k]
    raise AssertionError(k)
