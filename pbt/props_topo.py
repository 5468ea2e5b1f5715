"""Topologies: C15-C18."""
import numpy as np
from hypothesis import strategies as st
from scipy.sparse.csgraph import connected_components

import gen
import stats
from core import Violation, ensure, facet
from gen import same
from props_ops import StateRecorder, best_candidates, costs, dec, enc, knn_candidates, swarm_of


# ---------------------------------------------------------------- generated swarms
@st.composite
def positions(draw, n, d):
    """JSON for an (n, d) matrix: explicit rows or a seeded description."""
    if n * d <= 24 and draw(st.booleans()):
        elem = draw(
            st.sampled_from([st.integers(-2, 2).map(float), gen.dyadic, gen.real, st.floats(-5, 5, width=32)])
        )
        return dict(rows=draw(gen.rows(n, d, elem)))
    return dict(m=draw(gen.matrix_desc()))


def mk_positions(p, n, d):
    if "rows" in p:
        return np.array(p["rows"], float)
    return gen.seeded_matrix(p["m"], n, d)


@st.composite
def cost_vec(draw, n):
    if n <= 12 and draw(st.booleans()):
        return enc(draw(st.lists(costs, min_size=n, max_size=n)))
    return dict(seed=draw(gen.seeds), levels=draw(st.sampled_from([2, 5, 1000000])))


def mk_costs(c, n):
    if isinstance(c, dict):
        return np.random.RandomState(c["seed"]).randint(0, c["levels"], n) / 2.0
    return dec(c)


@st.composite
def calls(draw, n, d, max_calls=4):
    return draw(
        st.lists(
            st.fixed_dictionaries(dict(x=positions(n, d), c=cost_vec(n), seed=gen.seeds)),
            min_size=1,
            max_size=max_calls,
        )
    )


def mk_swarm(call, n, d):
    x = mk_positions(call["x"], n, d)
    c = mk_costs(call["c"], n)
    # personal bests are told apart by their position: row i is 1000*i + something
    pb = 1000.0 * (1 + np.arange(n))[:, None] + np.random.RandomState(call["seed"]).randint(0, 50, (n, d))
    # the particles have moved on from their personal bests: current costs are not lower
    cur = c + np.random.RandomState(call["seed"] + 1).randint(0, 4, n)
    s = swarm_of(x.copy(), np.zeros((n, d)), pb.copy(), pbc=c.copy(), cur=cur)
    return s, x, c, pb


def again(call, s, x, c, pb, old):
    """In some cases the same swarm object comes back with new contents, written into the matrices it had."""
    if old is None or call["seed"] % 3 or old.position.shape != x.shape or not old.position.flags.writeable:
        return s
    for a, b in ((old.position, s.position), (old.pbest_pos, s.pbest_pos), (old.pbest_cost, s.pbest_cost)):
        if a.dtype != b.dtype:
            return s
    for a, b in ((old.position, s.position), (old.pbest_pos, s.pbest_pos), (old.pbest_cost, s.pbest_cost)):
        a[...] = b
    old.current_cost = s.current_cost
    return old


def rows_of(best_pos, n, d, pb):
    """Index of the personal best given to every particle."""
    bp = np.asarray(best_pos)
    if bp.shape == (d,):
        bp = np.tile(bp, (n, 1))
    gen.arr(bp, (n, d), "best_pos")
    out = []
    for i in range(n):
        j = np.nonzero((pb == bp[i]).all(axis=1))[0]
        ensure(len(j) == 1, "particle {} was given {}, which is nobody's personal best", i, bp[i].tolist())
        out.append(int(j[0]))
    return out


def untouched(s, x, c, pb):
    ensure(
        same(s.position, x) and same(s.pbest_pos, pb) and same(s.pbest_cost, c),
        "compute_gbest modified the swarm",
    )


def check_cost(best_cost, c):
    v = float(gen.arr(best_cost, (), "best_cost"))
    ensure(v == c.min(), "best_cost is {!r}, the swarm's lowest personal best cost is {!r}", v, float(c.min()))


def idx_lists(neighbor_idx, n, what="neighbor_idx"):
    ensure(neighbor_idx is not None and len(neighbor_idx) == n, "{} has no entry per particle", what)
    out = []
    for i in range(n):
        row = np.atleast_1d(np.asarray(neighbor_idx[i]))
        ensure(row.ndim == 1 and row.dtype.kind in "iu", "{}[{}] is {}", what, i, row)
        ensure(((row >= 0) & (row < n)).all(), "{}[{}] has invalid entries: {}", what, i, row.tolist())
        out.append(row)
    return out


def check_best_of(rows, lists, c, include_self=None):
    """rows[i] must have the lowest cost among lists[i] and belong to it."""
    for i, (j, l) in enumerate(zip(rows, lists)):
        ensure(j in l, "particle {} follows {}, not one of its neighbours {}", i, j, l.tolist())
        ensure(
            c[j] == c[l].min(),
            "particle {} follows {} of cost {!r} although its neighbours {} have costs {}",
            i,
            j,
            float(c[j]),
            l.tolist(),
            c[l].tolist(),
        )


def check_connected(lists, n):
    a = np.zeros((n, n), int)
    for i, l in enumerate(lists):
        a[i, l] = 1
    k = connected_components(a, directed=False, return_labels=False)
    ensure(k == 1, "the neighbourhood graph has {} components: {}", int(k), [l.tolist() for l in lists])
    return a


# ================================================================ C15
@st.composite
def ring_case(draw):
    big = draw(st.integers(0, 29))
    n = draw(st.integers(15, 60)) if big % 5 == 0 else draw(st.integers(1, 12))
    if big == 29:
        n = draw(st.sampled_from([101, 129, 200, 257, 400]))
    d = draw(st.integers(1, 4))
    vn = draw(st.integers(0, 3)) == 0
    case = dict(n=n, d=d, p=draw(st.sampled_from([1, 2])))
    if vn:
        r = draw(st.integers(0, 3))
        while gen.delannoy(d, r) > n:
            r -= 1
        case.update(top="vonneumann", r=r)
    else:
        case.update(top="ring", k=draw(st.integers(1, n)), static=draw(st.booleans()))
    case["calls"] = draw(calls(n, d))
    if draw(st.integers(0, 4)) == 0:
        case["scale"] = draw(st.sampled_from([2.0 ** 40, 2.0 ** -40, 1e12, 2.0 ** 100, 2.0 ** -100]))
    return case


@facet(
    "C15",
    "gbest",
    ring_case(),
    quick=6000,
    shards=8,
    rule="sequences of compute_gbest with changing positions and costs against brute-force neighbours (any choice among "
    "equidistant ones admitted); non-trivial when 1 < k and a particle follows another one",
)
def c15_gbest(case):
    from pyswarms.backend import topology as T

    n, d, p = case["n"], case["d"], case["p"]
    if case["top"] == "ring":
        top, k, static = T.Ring(static=case["static"]), case["k"], case["static"]
        kw = dict(p=p, k=k)
    else:
        top, k, static = T.VonNeumann(), gen.delannoy(d, case["r"]), True
        kw = dict(p=p, r=case["r"])
    first_x, first_idx = None, None
    tags, old = set(), None
    for call in case["calls"]:
        s, x, c, pb = mk_swarm(call, n, d)
        if case.get("scale"):
            x = x * case["scale"]
            s.position = x.copy()
        old = s = again(call, s, x, c, pb, old)
        np.random.seed(call["seed"])
        bp, bc = top.compute_gbest(s, **kw)
        untouched(s, x, c, pb)
        if first_x is None or not static:
            first_x = x
        rows = rows_of(bp, n, d, pb)
        check_cost(bc, c)
        must, may = knn_candidates(first_x, k, p)
        cand = best_candidates(must, may, k, c)
        for i in range(n):
            ensure(
                rows[i] in cand[i],
                "particle {} at {} follows {} (cost {!r}); its {} nearest under p={} are {} plus {} of {}, admissible: {}",
                i,
                first_x[i].tolist(),
                rows[i],
                float(c[rows[i]]),
                k,
                p,
                must[i].tolist(),
                k - len(must[i]),
                np.setdiff1d(may[i], must[i]).tolist(),
                cand[i].tolist(),
            )
        lists = idx_lists(top.neighbor_idx, n)
        for i, l in enumerate(lists):
            ensure(
                len(l) == k and len(set(l.tolist())) == k,
                "neighbor_idx[{}] = {} does not list {} different particles",
                i,
                l.tolist(),
                k,
            )
            ensure(
                set(must[i].tolist()) <= set(l.tolist()) <= set(may[i].tolist()),
                "neighbor_idx[{}] = {} are not the {} nearest particles {}",
                i,
                l.tolist(),
                k,
                may[i].tolist(),
            )
        if k > 1:
            check_best_of(rows, lists, c)
        now = [sorted(l.tolist()) for l in lists]
        if static and first_idx is not None:
            ensure(now == first_idx, "the neighbours of a static topology changed from {} to {}", first_idx, now)
            tags.add("static-later")
        first_idx = now
        if any(r != i for i, r in enumerate(rows)):
            tags.add("follows")
        if any(len(a) > k for a in may):
            tags.add("ties")
    return sorted(tags) + [case["top"], "p%d" % p] if "follows" in tags else None


@facet(
    "C15",
    "delannoy",
    st.fixed_dictionaries(dict(d=st.integers(0, 7), r=st.integers(0, 6))),
    quick=200,
    rule="VonNeumann.delannoy against the closed form; non-trivial when d and r are positive",
)
def c15_delannoy(case):
    from pyswarms.backend.topology import VonNeumann

    got = VonNeumann.delannoy(case["d"], case["r"])
    want = gen.delannoy(case["d"], case["r"])
    ensure(got == want, "delannoy({}, {}) = {}, expected {}", case["d"], case["r"], got, want)
    return case["d"] > 0 and case["r"] > 0


# ================================================================ C16
@st.composite
def random_case(draw):
    n = draw(st.integers(15, 40)) if draw(st.integers(0, 4)) == 0 else draw(st.integers(2, 14))
    if draw(st.integers(0, 59)) == 0:
        n = draw(st.sampled_from([65, 101, 129, 200]))
    d = draw(st.integers(1, 3))
    k = draw(st.integers(1, n - 1))
    if draw(st.booleans()):
        k = min(k, draw(st.integers(1, 3)))  # few neighbours: often disconnected at first
    return dict(n=n, d=d, k=k, static=draw(st.booleans()), calls=draw(calls(n, d)))


@facet(
    "C16",
    "gbest",
    random_case(),
    quick=6000,
    shards=8,
    rule="sequences of compute_gbest with changing swarms: validity of the neighbourhood graph, best neighbour, static/dynamic; "
    "non-trivial when not everybody is everybody's neighbour",
)
def c16_gbest(case):
    from pyswarms.backend.topology import Random

    n, d, k = case["n"], case["d"], case["k"]
    top = Random(static=case["static"])
    first = old = None
    tags = set()
    graphs = []
    for call in case["calls"]:
        s, x, c, pb = mk_swarm(call, n, d)
        old = s = again(call, s, x, c, pb, old)
        np.random.seed(call["seed"])
        bp, bc = top.compute_gbest(s, k=k)
        untouched(s, x, c, pb)
        rows = rows_of(bp, n, d, pb)
        check_cost(bc, c)
        lists = idx_lists(top.neighbor_idx, n)
        for i, l in enumerate(lists):
            sl = set(l.tolist())
            ensure(i in sl, "particle {} is not its own neighbour: {}", i, l.tolist())
            ensure(len(sl) == len(l), "neighbor_idx[{}] repeats a particle: {}", i, l.tolist())
            ensure(len(sl) >= k + 1, "particle {} has {} other neighbours, fewer than k={}", i, len(sl) - 1, k)
        check_connected(lists, n)
        check_best_of(rows, lists, c)
        now = [sorted(l.tolist()) for l in lists]
        if case["static"] and first is not None:
            ensure(now == first, "the neighbours of a static topology changed")
            tags.add("static-later")
        first = now
        graphs.append(now)
        if any(len(l) < n for l in lists):
            tags.add("partial")
    return sorted(tags) + ["k1" if k == 1 else "k>1"] if "partial" in tags else None


@facet(
    "C16",
    "random",
    st.fixed_dictionaries(
        dict(
            seed=gen.seeds,
            n=st.sampled_from([8, 12, 40, 8, 12, 40, 130]),
            k=st.sampled_from([2, 3]),
            d=st.integers(1, 2),
            static=st.booleans(),
        )
    ),
    quick=60,
    shards=4,
    rule="80 redraws: every pair gets connected at some time, successive graphs differ, and 40 particles with k=3 have at most "
    "n*k connections; every case non-trivial",
)
def c16_random(case):
    from pyswarms.backend.topology import Random

    n, k, d = case["n"], case["k"], case["d"]
    np.random.seed(case["seed"])
    x = np.random.RandomState(case["seed"]).uniform(size=(n, d))
    c = np.arange(n, dtype=float)
    seen = np.zeros((n, n), int)
    graphs = []
    draws = 80 if n <= 12 else 400 if n == 40 else 60
    if n == 130:
        k *= 8
    top = Random(static=False)
    for t in range(draws):
        if case["static"]:
            top = Random(static=True)  # a new instance draws anew
        s = swarm_of(x.copy(), np.zeros((n, d)), x.copy(), pbc=c.copy(), cur=c.copy())
        top.compute_gbest(s, k=k)
        a = np.zeros((n, n), int)
        for i, l in enumerate(idx_lists(top.neighbor_idx, n)):
            a[i, l] = 1
        graphs.append(a.tobytes())
        u = a | a.T
        edges = (u.sum() - n) // 2
        if n == 40 and k == 3:
            ensure(edges <= n * k, "{} connections between {} particles with k={}", int(edges), n, k)
        seen += u
    ensure(len(set(graphs)) == draws, "only {} different graphs in {} draws", len(set(graphs)), draws)
    off = seen[~np.eye(n, dtype=bool)]
    # P(a given pair is not drawn in one graph) <= (1 - k/(n-1))^2
    miss = (1 - k / (n - 1.0)) ** (2 * draws) * n * n
    if miss < 1e-9:
        ensure((off > 0).all(), "some pairs were never connected in {} draws", draws)
    return ["n%d" % n]


@facet(
    "C16",
    "uniform",
    st.fixed_dictionaries(
        dict(
            seed=gen.seeds,
            nk=st.sampled_from([[10, 4], [10, 5], [14, 4], [20, 5], [9, 4], [65, 8]]),
            d=st.integers(1, 2),
            static=st.booleans(),
            sort=st.booleans(),
        )
    ),
    quick=40,
    shards=4,
    rule="400 graphs of enough connections not to need repair: every pair is connected with probability 1-(1-k/(n-1))^2, "
    "independently of disjoint pairs and of the graph before; every case non-trivial",
)
def c16_uniform(case):
    from pyswarms.backend.topology import Random

    (n, k), d, T = case["nk"], case["d"], 400
    np.random.seed(case["seed"])
    r = np.random.RandomState(case["seed"])
    x = r.uniform(size=(n, d))
    c = np.arange(n, dtype=float) if case["sort"] else r.uniform(size=n)
    if case["sort"]:
        x = np.sort(x, axis=0)
    iu = np.triu_indices(n, 1)
    top = Random(static=False)
    E = []
    for _ in range(T):
        if case["static"]:
            top = Random(static=True)
        s = swarm_of(x.copy(), np.zeros((n, d)), x.copy(), pbc=c.copy(), cur=c.copy())
        top.compute_gbest(s, k=k)
        a = np.zeros((n, n))
        for i, l in enumerate(idx_lists(top.neighbor_idx, n)):
            a[i, l] = 1
        E.append(np.maximum(a, a.T)[iu])
    E = np.array(E)
    p = 1 - (1 - k / (n - 1.0)) ** 2
    cnt = E.sum(axis=0)
    z = (cnt - T * p) / np.sqrt(T * p * (1 - p))
    w = np.abs(z).argmax()
    ensure(
        abs(z[w]) < 7.4,
        "particles {} and {} are connected in {} of {} graphs with k={}, expected {:.1f} (z={:.2f})",
        int(iu[0][w]), int(iu[1][w]), int(cnt[w]), T, k, T * p, float(z[w]),
    )
    R, V = E - p, np.full(E.shape, p * (1 - p))
    a, b = iu
    disjoint = (a[:, None] != a) & (a[:, None] != b) & (b[:, None] != a) & (b[:, None] != b)
    stats.residuals(R, V, "connections", pairs=disjoint)
    return ["n%d" % n, "static" if case["static"] else "dynamic"]


# ================================================================ C17
@st.composite
def pyramid_case(draw):
    d = draw(st.integers(2, 4))
    size = draw(st.integers(0, 3))
    n = draw(st.integers(1, d + 1)) if size == 0 else draw(st.integers(d + 2, 14)) if size < 3 else draw(st.integers(12, 40))
    return dict(n=n, d=d, static=draw(st.booleans()), calls=draw(calls(n, d, 3)))


@facet(
    "C17",
    "gbest",
    pyramid_case(),
    quick=4000,
    shards=8,
    rule="sequences of compute_gbest on swarms of 1..40 particles incl. lattices, duplicates, converged and far-off swarms; "
    "non-trivial when someone follows another particle",
)
def c17_gbest(case):
    from pyswarms.backend.topology import Pyramid

    n, d = case["n"], case["d"]
    top = Pyramid(static=case["static"])
    first = old = None
    tags = set()
    for call in case["calls"]:
        s, x, c, pb = mk_swarm(call, n, d)
        old = s = again(call, s, x, c, pb, old)
        np.random.seed(call["seed"])
        bp, bc = top.compute_gbest(s)
        untouched(s, x, c, pb)
        rows = rows_of(bp, n, d, pb)
        check_cost(bc, c)
        lists = idx_lists(top.neighbor_idx, n)
        if n <= d + 1:
            for i in range(n):
                ensure(
                    set(lists[i].tolist()) | {i} == set(range(n)),
                    "{} particles in {} dimensions: particle {} only knows {}",
                    n,
                    d,
                    i,
                    lists[i].tolist(),
                )
                ensure(c[rows[i]] == c.min(), "particle {} follows {}, which has not the lowest cost", i, rows[i])
            tags.add("few")
        else:
            a = check_connected(lists, n)
            for i in range(n):
                ensure(len(set(lists[i].tolist()) - {i}) > 0, "particle {} has no neighbours", i)
            off = (a != a.T)
            ensure(not off.any(), "the neighbourhood is not symmetric at {}", np.argwhere(off)[:3].tolist())
            check_best_of(rows, lists, c)
            tags.add("many")
        now = [sorted(set(l.tolist())) for l in lists]
        if case["static"] and first is not None:
            ensure(now == first, "the neighbours of a static topology changed")
            tags.add("static-later")
        first = now
        if any(r != i for i, r in enumerate(rows)):
            tags.add("follows")
        if len(np.unique(x, axis=0)) < n:
            tags.add("duplicates")
    return sorted(tags) if "follows" in tags else None


@facet(
    "C17",
    "geometry",
    st.fixed_dictionaries(
        dict(
            seed=gen.seeds,
            n=st.integers(6, 60),
            d=st.sampled_from([2, 3, 4, 2, 3, 4, 5, 6, 7]),
            scale=st.sampled_from([10.0, 100.0, 1000.0, 1.0, 1e-3, 1e-9, 1e-150, 1e6, 1e13, 1e100]),
            shift=st.sampled_from([0.0, 100.0, -1000.0]),
            static=st.booleans(),
            moves=st.integers(1, 3),
            # two particles on either side of all the others
            sandwich=st.booleans(),
        )
    ),
    quick=800,
    shards=4,
    rule="well-separated random swarms at scales from 1e-150 to 1e100: each particle is connected to its nearest one, and the graph is the Delaunay "
    "graph of the current (static: first) positions, but for edges that come or go when the positions are perturbed by a thousandth; every case with n > d+1 non-trivial",
)
def c17_geometry(case):
    from pyswarms.backend.topology import Pyramid
    from scipy.spatial import Delaunay

    n, d = case["n"], case["d"]
    if d > 4:
        n = d + 2 + n % 7
    if n <= d + 1:
        return None
    r = np.random.RandomState(case["seed"])
    top = Pyramid(static=case["static"])
    base = None

    def delaunay(u):
        b = np.zeros((n, n), bool)
        for simplex in Delaunay(u - u.mean(axis=0)).simplices:
            for p in simplex:
                b[p, simplex] = True
        np.fill_diagonal(b, False)
        return b

    for t in range(case["moves"]):
        u = r.uniform(-1, 1, (n, d))
        if case["sandwich"]:
            u[2:, 0] *= 0.05
            u[:2] = u[2:].mean(axis=0) + r.uniform(-0.02, 0.02, (2, d))
            u[:2, 0] = [-1.7, 1.7]
            u *= 0.5
        x = (u + case["shift"]) * case["scale"]
        c = r.uniform(size=n)
        s = swarm_of(x.copy(), np.zeros((n, d)), x.copy(), pbc=c.copy(), cur=c.copy())
        top.compute_gbest(s)
        if base is None or not case["static"]:
            base = x
        a = np.zeros((n, n), bool)
        for i, l in enumerate(idx_lists(top.neighbor_idx, n)):
            a[i, l] = True
        np.fill_diagonal(a, False)
        unit = base / case["scale"]
        dist = np.sqrt(((unit[:, None] - unit[None]) ** 2).sum(axis=2))
        np.fill_diagonal(dist, np.inf)
        for i in range(n):
            o = np.argsort(dist[i])
            if dist[i, o[1]] - dist[i, o[0]] > 0.01:
                ensure(a[i, o[0]], "particle {} is not connected to its nearest one {}", i, int(o[0]))
        seen = [delaunay(unit)]
        seen += [delaunay(unit + r.uniform(-1e-3, 1e-3, (n, d))) for _ in range(16)]
        must, may = np.all(seen, axis=0), np.any(seen, axis=0)
        ensure(not (must & ~a).any(), "the Delaunay triangulation connects {}, the topology does not", np.argwhere(must & ~a)[:4].tolist())
        ensure(not (a & ~may).any(), "the topology connects {}, the Delaunay triangulation does not", np.argwhere(a & ~may)[:4].tolist())
    return ["static" if case["static"] else "dynamic"]


# ================================================================ C18
@st.composite
def star_case(draw):
    n, d = draw(st.integers(1, 8)), draw(st.integers(1, 4))
    if draw(st.integers(0, 15)) == 15:
        n = draw(st.sampled_from([17, 33, 65, 129]))
    cs = []
    for c in draw(calls(n, d, 5)):
        c["fresh"] = draw(st.booleans())
        cs.append(c)
    return dict(
        n=n,
        d=d,
        calls=cs,
        rec=draw(st.one_of(st.none(), costs.map(lambda v: enc([v])[0]))),
        mono=draw(st.booleans()),
    )


@facet(
    "C18",
    "gbest",
    star_case(),
    quick=9000,
    shards=6,
    rule="sequences of compute_gbest on one swarm whose recorded best is kept as the optimizers do, with ties and infinite "
    "costs; non-trivial when a later call keeps or improves the recorded best",
)
def c18_gbest(case):
    from pyswarms.backend.topology import Star

    n, d = case["n"], case["d"]
    top = Star()
    rec_cost, rec_pos = np.inf, np.array([])
    if case["rec"] is not None:
        rec_cost, rec_pos = float(dec([case["rec"]])[0]), np.full(d, -77.0)
    tags = set()
    prevc = None
    for k, call in enumerate(case["calls"]):
        if call["fresh"]:
            top = Star()
        s, x, c, pb = mk_swarm(call, n, d)
        if case["mono"] and prevc is not None:
            c = np.minimum(c, prevc)
            s.pbest_cost = c.copy()
        prevc = c
        s.best_cost, s.best_pos = rec_cost, rec_pos.copy()
        bp, bc = top.compute_gbest(s)
        untouched(s, x, c, pb)
        v = float(gen.arr(bc, (), "best_cost"))
        m = c.min()
        if m < rec_cost or rec_pos.size == 0:
            ensure(v == m, "best_cost is {!r}, the lowest personal best {!r} improves on {!r}", v, float(m), rec_cost)
            bp = gen.arr(bp, (d,), "best_pos")
            j = np.nonzero((pb == bp).all(axis=1))[0]
            ensure(len(j) == 1 and c[j[0]] == m, "best_pos {} is no personal best of cost {!r} (costs {})", bp.tolist(), float(m), c.tolist())
            tags.add("improves" if k else "first")
        else:
            ensure(v == rec_cost, "best_cost is {!r} although the recorded {!r} was not improved on (lowest {!r})", v, rec_cost, float(m))
            ensure(same(bp, rec_pos), "best_pos changed from {} to {} without an improvement", rec_pos.tolist(), np.asarray(bp).tolist())
            tags.add("tie" if m == rec_cost else "keeps")
        lists = idx_lists(top.neighbor_idx, n)
        ensure(all(set(l.tolist()) | {i} == set(range(n)) for i, l in enumerate(lists)), "not everybody is everybody's neighbour")
        rec_cost, rec_pos = v, np.array(bp, float, copy=True)
        if np.isinf(c).any():
            tags.add("inf")
    return sorted(tags) if tags & {"improves", "tie", "keeps"} else None


@facet(
    "C18",
    "run",
    st.fixed_dictionaries(
        dict(
            spec=gen.spec(opts=("global", "general"), tops=("star",), oh=True, ftol=True, max_n=8),
            actions=gen.actions(max_iters=10),
        )
    ),
    quick=3000,
    shards=8,
    rule="runs with the star topology: swarm.best_pos is one position, of the lowest cost so far in the call, and only changes "
    "when the best cost improves; non-trivial when it improved after the first iteration",
)
def c18_run(case):
    s = case["spec"]
    np.random.seed(s["seed"])
    o = gen.mk_optimizer(s)
    imp = False
    for act in case["actions"]:
        if act[0] == "reset":
            np.random.seed(act[1])
            o.reset()
            continue
        fn = gen.Objective(act[3])
        rec = StateRecorder(fn, s["n"], s["d"])
        c = gen.run_call(o, s, fn, act[1], seed=act[2], rec=rec)
        best, bpos = np.inf, None
        for i in range(len(c.X)):
            cur = np.asarray(c.C[i], float)
            got = rec.S[i + 1][2] if i + 1 < len(c.X) else np.asarray(o.swarm.best_pos)
            got = np.atleast_2d(got)
            ensure(got.shape[1:] == (s["d"],) and (got == got[0]).all(), "particles are attracted to different positions: {}", got.tolist())
            got = got[0]
            if bpos is None or cur.min() < best:
                imp = imp or bpos is not None
                best = cur.min()
                cand = c.X[i][cur == best]
                ensure((cand == got).all(axis=1).any(), "iteration {}: the best position is {}, expected one of {}", i, got.tolist(), cand.tolist())
                bpos = got.copy()
            else:
                ensure((bpos == got).all(), "iteration {}: the best position moved without an improvement", i)
    return [s["opt"]] if imp else None
