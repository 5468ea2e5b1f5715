"""C25 hyper-parameter searches, C26 plots, C31 the reporter."""
import contextlib
import io
import itertools
import logging
import math
import os
import re
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import gen
import stats
from core import Violation, ensure, facet


# ---------------------------------------------------------------- C25
def recording_optimizer(scores, runs):
    """A class with the optimizers' constructor and optimize() signatures whose
    i-th run has the i-th scripted score."""

    class Scripted:
        def __init__(self, n_particles, dimensions, options, bounds=None, velocity_clamp=None, **kw):
            self.rec = dict(
                n=n_particles, d=dimensions, options=options, bounds=bounds, clamp=velocity_clamp, extra=kw, runs=0
            )
            runs.append(self.rec)
            self.score = scores[(len(runs) - 1) % len(scores)]

        def optimize(self, objective_func, iters, n_processes=None, verbose=True, **kw):
            self.rec.update(fn=objective_func, iters=iters, kw=kw, runs=self.rec["runs"] + 1, score=self.score,
                            opts_then=dict(self.rec["options"]))
            return (self.score, np.zeros(self.rec["d"]))

    return Scripted


score = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 5.5, 1e300, -1e300]),
    st.floats(-1e6, 1e6, allow_nan=False),
    st.integers(-5, 5).map(float),
    st.sampled_from([math.inf, math.inf, -math.inf]),
)


@st.composite
def setting(draw):
    d = draw(st.integers(1, 4))
    return dict(
        n=draw(st.integers(1, 50)),
        d=d,
        bounds=draw(st.one_of(st.none(), gen.bounds(d))),
        clamp=draw(st.one_of(st.none(), gen.clamp_for(d))),
        pass_clamp=draw(st.booleans()),
        iters=draw(st.integers(1, 200)),
        maximum=draw(st.sampled_from([None, False, True])),
    )


VALUES = {
    "c1": [0.5, 1, 1.5, 2.0, 2.5, 0, -1.0],
    "c2": [0.3, 1, 1.5, 2.0, 6, 0],
    "w": [0.4, 0.9, 1, 0.0],
    "k": [1, 2, 3, 5, 11],
    "p": [1, 2],
    "r": [0, 1, 2],
}


@st.composite
def grid_case(draw):
    keys = draw(st.sampled_from([["c1", "c2", "w"], ["c1", "c2", "w", "k", "p"], ["w", "c1", "c2", "r", "p"], ["p", "k", "w", "c2", "c1"]]))
    keys = draw(st.permutations(keys))
    opts, size = [], 1
    big = draw(st.integers(0, 19)) == 19
    for k in keys:
        if big and k in ("c1", "c2", "w"):
            m = draw(st.integers(4, 9))
            vals = [(j + 1) * 0.25 for j in range(m)]
            opts.append([k, vals])
            size *= m
            continue
        vals = draw(st.lists(st.sampled_from(VALUES[k]), min_size=1, max_size=3, unique=True))
        if draw(st.booleans()) and size * len(vals) <= (48 if not big else 1500):
            opts.append([k, vals])
            size *= len(vals)
        else:
            opts.append([k, vals[0]])
    return dict(
        setting=draw(setting()),
        options=opts,
        # used cyclically
        scores=draw(
            st.lists(score, min_size=min(size, 61), max_size=min(size, 61))
            if not big or draw(st.booleans()) else st.lists(score, min_size=1, max_size=2)
        ),
        size=size,
        twice=draw(st.booleans()),
    )


def freeze(o):
    return tuple(sorted((k, v) for k, v in o.items()))


def check_search(case, cls, kind, options, extra, twice, want_set):
    s = case["setting"]
    runs = []
    bounds, clamp = gen.mk_bounds(s["bounds"]), gen.mk_clamp(s["clamp"])

    def objective(x):
        raise AssertionError

    kw = dict(bounds=bounds)
    if s["pass_clamp"]:
        kw["velocity_clamp"] = clamp
    g = cls(recording_optimizer(case["scores"], runs), s["n"], s["d"], options, objective, s["iters"], *extra, **kw)
    copy = {k: list(v) if isinstance(v, list) else v for k, v in options.items()}
    for _ in range(2 if twice else 1):
        del runs[:]
        ret = g.search() if s["maximum"] is None else g.search(maximum=s["maximum"])
        ensure(isinstance(ret, tuple) and len(ret) == 2, "search() returned {!r}", ret)
        best, opts = ret
        for r in runs:
            ensure(r["runs"] == 1, "an optimizer of the search was run {} times", r["runs"])
            ensure(r["n"] == s["n"] and r["d"] == s["d"], "ran with {} particles in {} dimensions instead of {}, {}", r["n"], r["d"], s["n"], s["d"])
            ensure(r["bounds"] is bounds or (bounds is not None and gen.same(r["bounds"], bounds)), "ran with bounds {} instead of {}", r["bounds"], bounds)
            wanted = clamp if s["pass_clamp"] else (0, 1)
            ensure(
                r["clamp"] is wanted
                or (wanted is not None and r["clamp"] is not None and len(r["clamp"]) == 2 and all(gen.same(a, b) for a, b in zip(r["clamp"], wanted))),
                "ran with velocity_clamp {} instead of {}", r["clamp"], wanted,
            )
            ensure(r["fn"] is objective and r["iters"] == s["iters"], "ran another objective or {} iterations instead of {}", r["iters"], s["iters"])
            ensure(not r["extra"] and not r["kw"], "ran with unexpected arguments {} {}", r["extra"], r["kw"])
            ensure(isinstance(r["options"], dict), "options are a {}", type(r["options"]).__name__)
        want_set(runs)
        sc = [r["score"] for r in runs]
        want = max(sc) if s["maximum"] else min(sc)
        ensure(best == want, "search({}) returned the score {} of {}", s["maximum"], best, sc)
        made = [freeze(r["opts_then"]) for r in runs if r["score"] == want]
        ensure(freeze(opts) in made, "the returned options {} did not produce the score {}; {} did", opts, best, made[0])
        ensure(g.best_score == best and freeze(g.best_options) == freeze(opts), "best_score/best_options are {} {}", g.best_score, g.best_options)
        ensure(options == copy, "the options argument was changed to {}", options)
    return runs


@facet(
    "C25",
    "grid",
    grid_case(),
    quick=1200,
    rule="counted when the product has two or more combinations (tags: number of lists, tied scores)",
)
def c25_grid(case):
    from pyswarms.utils.search import GridSearch

    options = {k: list(v) if isinstance(v, list) else v for k, v in case["options"]}
    lists = [v if isinstance(v, list) else [v] for _, v in case["options"]]
    want = sorted(freeze(dict(zip([k for k, _ in case["options"]], c))) for c in itertools.product(*lists))

    def want_set(runs):
        got = sorted(freeze(r["opts_then"]) for r in runs)
        ensure(len(runs) == case["size"], "{} runs instead of {}", len(runs), case["size"])
        ensure(got == want, "the combinations run are {} instead of {}", got, want)
        ensure(
            all([type(v) for _, v in a] == [type(v) for _, v in b] for a, b in zip(got, want)),
            "the types of option values changed",
        )

    check_search(case, GridSearch, "grid", options, (), case["twice"], want_set)
    if case["size"] < 2:
        return None
    n = sum(isinstance(v, list) for _, v in case["options"])
    tags = ["lists=%d" % n, "max" if case["setting"]["maximum"] else "min"]
    if len(set(case["scores"])) < len(case["scores"]):
        tags.append("ties")
    return tags


@st.composite
def ranges(draw):
    o = {}
    for k in ("c1", "c2", "w"):
        a = draw(st.sampled_from([0.0, 1, 0.5, 2.5, -3.0, 10]))
        w = draw(st.sampled_from([1.0, 0.01, 5, 100.0]))
        o[k] = [a, a + w]
    a = draw(st.integers(1, 12))
    o["k"] = [a, a + draw(st.integers(1, 8))]
    o["p"] = draw(st.sampled_from([1, 2]))
    return o


@st.composite
def random_case(draw):
    m = draw(st.one_of(st.integers(1, 20), st.sampled_from([1, 50])))
    o = draw(ranges())
    order = draw(st.permutations(sorted(o)))
    return dict(
        setting=draw(setting()),
        options=[[k, o[k]] for k in order],
        m=m,
        scores=draw(st.lists(score, min_size=1, max_size=12)),
        seed=draw(gen.seeds),
        twice=draw(st.booleans()),
    )


def check_ranges(o, options):
    ensure(sorted(o) == ["c1", "c2", "k", "p", "w"], "a combination has the keys {}", sorted(o))
    for k in ("c1", "c2", "w"):
        ensure(options[k][0] <= o[k] < options[k][1] or o[k] == options[k][0], "{}={} is not within {}", k, o[k], options[k])
    ensure(isinstance(o["k"], (int, np.integer)), "k={!r} is not an integer", o["k"])
    ensure(options["k"][0] <= o["k"] < options["k"][1], "k={} is not in [{}, {})", o["k"], *options["k"])
    ensure(o["p"] == options["p"], "p={} instead of {}", o["p"], options["p"])


@facet(
    "C25",
    "random",
    random_case(),
    quick=1000,
    rule="counted when two or more combinations are drawn",
)
def c25_random(case):
    from pyswarms.utils.search import RandomSearch

    options = {k: list(v) if isinstance(v, list) else v for k, v in case["options"]}
    m = case["m"]

    seen = []

    def want_set(runs):
        ensure(len(runs) == m, "{} runs instead of {}", len(runs), m)
        for r in runs:
            check_ranges(r["opts_then"], options)
            # real numbers drawn again are other numbers
            c = (r["opts_then"]["c1"], r["opts_then"]["c2"], r["opts_then"]["w"])
            ensure(c not in seen, "the combination {} is drawn twice", r["opts_then"])
            seen.append(c)

    np.random.seed(case["seed"])
    check_search(case, RandomSearch, "random", options, (m,), case["twice"], want_set)
    return [("max" if case["setting"]["maximum"] else "min")] if m > 1 else None


@st.composite
def spread_case(draw):
    o = draw(ranges())
    return dict(options=[[k, o[k]] for k in sorted(o)], seed=draw(gen.seeds), m=draw(st.sampled_from([300, 600, 4000])))


@facet("C25", "spread", spread_case(), quick=120, rule="every case: 300 or more combinations, tested for covering the given ranges")
def c25_spread(case):
    from pyswarms.utils.search import RandomSearch

    options = {k: list(v) if isinstance(v, list) else v for k, v in case["options"]}
    runs = []
    np.random.seed(case["seed"])
    RandomSearch(recording_optimizer([1.0], runs), 5, 2, options, lambda x: x, 1, case["m"]).search()
    u = []
    for k in ("c1", "c2", "w"):
        lo, hi = options[k]
        v = np.array([r["options"][k] for r in runs], float)
        stats.uniform01(v, k, lo, hi)
        u.append((v - lo) / (hi - lo))
    u = np.array(u).T
    stats.independent_matrix(u, "the drawn c1, c2, w")
    stats.joint(u, "the drawn c1, c2, w")
    lo, hi = options["k"]
    ks = np.array([r["options"]["k"] for r in runs])
    counts = np.array([(ks == v).sum() for v in range(lo, hi)])
    ensure(counts.sum() == len(ks), "k outside [{}, {})", lo, hi)
    e = len(ks) / (hi - lo)
    if hi - lo > 1:
        sd = math.sqrt(e * (1 - 1 / (hi - lo)))
        ensure((np.abs(counts - e) < 7.5 * sd).all(), "k is drawn {} times from {}..{}", counts.tolist(), lo, hi - 1)
    return True


@st.composite
def real_case(draw):
    n = draw(st.integers(4, 10))
    grid = draw(st.booleans())
    opts = dict(c1=[0.5, 1.0], c2=[0.3, 2.0], w=[0.4, 0.9], k=[1, 3], p=draw(st.sampled_from([1, 2])))
    return dict(
        grid=grid, n=n, d=draw(st.integers(1, 3)), options=opts, seed=draw(gen.seeds), iters=draw(st.integers(1, 4)),
        maximum=draw(st.booleans()), bounded=draw(st.booleans()), opt=draw(st.sampled_from(["local", "global", "binary"])),
    )


@facet("C25", "real", real_case(), quick=40, rule="every case: a search over a real optimizer class whose every run is recorded")
def c25_real(case):
    import pyswarms as ps
    from pyswarms.utils.search import GridSearch, RandomSearch

    base = {"local": ps.single.LocalBestPSO, "global": ps.single.GlobalBestPSO, "binary": ps.discrete.BinaryPSO}[case["opt"]]
    log = []

    class Recorded(base):
        def __init__(self, n_particles, dimensions, options, bounds=None, velocity_clamp=None):
            self.given = dict(options)
            if case["opt"] == "binary":
                super().__init__(n_particles, dimensions, options, velocity_clamp=velocity_clamp)
            else:
                super().__init__(n_particles, dimensions, options, bounds, velocity_clamp=velocity_clamp)

        def optimize(self, objective_func, iters, **kw):
            ret = super().optimize(objective_func, iters, verbose=False, **kw)
            log.append((self.given, ret[0], iters, [float(v) for v in self.cost_history]))
            return ret

    b = None
    if case["bounded"] and case["opt"] != "binary":
        b = (np.full(case["d"], -2.0), np.full(case["d"], 3.0))
    np.random.seed(case["seed"])
    f = lambda x: ((np.asarray(x, float) - 0.7) ** 2).sum(axis=1)  # noqa: E731
    args = (Recorded, case["n"], case["d"], dict(case["options"]), f, case["iters"])
    g = GridSearch(*args, bounds=b) if case["grid"] else RandomSearch(*args, 5, bounds=b)
    best, opts = g.search(maximum=case["maximum"])
    ensure(len(log) == (16 if case["grid"] else 5), "{} runs", len(log))
    sc = [r[1] for r in log]
    want = max(sc) if case["maximum"] else min(sc)
    ensure(best == want, "the best score is {}, the search returned {}", want, best)
    ensure(any(r[1] == want and freeze(r[0]) == freeze(opts) for r in log), "the returned options did not produce the returned score")
    ensure(all(r[2] == case["iters"] and len(r[3]) == case["iters"] for r in log), "a run had another number of iterations")
    return ["grid" if case["grid"] else "random", case["opt"]]


# ---------------------------------------------------------------- C26
@contextlib.contextmanager
def figures():
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt

    plt.close("all")
    try:
        yield plt
    finally:
        plt.close("all")


def frame_reader():
    from matplotlib.animation import AbstractMovieWriter

    class Reader(AbstractMovieWriter):
        """Reads the figure back at every frame of the animation."""

        def setup(self, fig, outfile, dpi=None):
            self.fig, self.outfile, self.dpi, self.frames = fig, outfile, dpi, []

        def grab_frame(self, **kw):
            self.frames.append(read_axes(self.fig))

        def finish(self):
            pass

        @property
        def frame_size(self):
            return (1, 1)

    return Reader()


def read_axes(fig):
    out = []
    for ax in fig.axes:
        marks = []
        for c in ax.collections:
            if hasattr(c, "_offsets3d"):
                o = [np.ma.filled(np.ma.asarray(v, float), np.nan) for v in c._offsets3d]
                marks.append(np.array(np.broadcast_arrays(*o)).T.copy())
            elif type(c).__name__ == "PathCollection":
                marks.append(np.array(np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)))
        e = dict(
            name=ax.name, marks=marks, title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
            xlim=ax.get_xlim(), ylim=ax.get_ylim(),
        )
        if ax.name == "3d":
            e.update(zlabel=ax.get_zlabel(), zlim=ax.get_zlim())
        out.append(e)
    return out


text = st.sampled_from(["", "x", "Cost History", "a b", "Trajectory!", "iterations"])


@st.composite
def designer_desc(draw, dims_):
    if draw(st.integers(0, 2)) == 0:
        return None
    lim = []
    for _ in range(dims_):
        a = draw(st.sampled_from([-1.0, 0.0, -5.12, 2.0, 100.0, -0.25]))
        lim.append([a, a + draw(st.sampled_from([1.0, 0.5, 10.0, 3.0]))])
    return dict(
        limits=lim,
        label=[draw(text) for _ in range(3)],
        legend=draw(st.sampled_from(["Cost", "Best", "L1"])),
        figsize=draw(st.sampled_from([[10, 8], [3, 2]])),
        title_fontsize=draw(st.sampled_from(["large", 12, 7.5])),
        text_fontsize=draw(st.sampled_from(["medium", 9])),
    )


def mk_designer(dd):
    from pyswarms.utils.plotters.formatters import Designer

    if dd is None:
        return None
    return Designer(
        limits=[tuple(v) for v in dd["limits"]],
        label=list(dd["label"]),
        legend=dd["legend"],
        figsize=tuple(dd["figsize"]),
        title_fontsize=dd["title_fontsize"],
        text_fontsize=dd["text_fontsize"],
    )


@st.composite
def cost_plot_case(draw):
    n = draw(st.integers(1, 40))
    return dict(
        pad=draw(gen.pad),
        costs=draw(st.lists(st.one_of(gen.real, st.just(math.inf)), min_size=n, max_size=n)),
        how=draw(st.sampled_from(["list", "array", "np64", "tuple"])),
        designer=draw(designer_desc(2)),
        title=draw(st.one_of(st.none(), text)),
        own_ax=draw(st.booleans()),
        times=draw(st.sampled_from([1] * 9 + [7, 60, 130, 700])),
    )


@facet("C26", "costs", cost_plot_case(), quick=250, rule="counted when the history has two or more entries")
def c26_costs(case):
    from pyswarms.utils.plotters import plot_cost_history

    h = gen.grow(np.array(case["costs"], float), case["pad"]).tolist() * case["times"]
    data = {"list": list(h), "array": np.array(h), "np64": [np.float64(v) for v in h], "tuple": tuple(h)}[case["how"]]
    with figures() as plt:
        ax = None
        if case["own_ax"]:
            _, ax = plt.subplots(1, 1)
        kw = {} if case["title"] is None else dict(title=case["title"])
        got = plot_cost_history(cost_history=data, ax=ax, designer=mk_designer(case["designer"]), **kw)
        if ax is not None:
            ensure(got is ax, "did not draw on the given axes")
        ensure(len(got.lines) == 1, "drew {} lines", len(got.lines))
        x, y = (np.asarray(v, float) for v in got.lines[0].get_data())
        ensure(np.array_equal(x, np.arange(len(h))), "x data {} ... ({} points) for {} iterations", x.tolist()[:20], len(x), len(h))
        ensure(np.array_equal(y, np.array(h, float)), "y data {} instead of {}", y.tolist()[:20], h[:20])
        ensure(got.get_title() == (case["title"] if case["title"] is not None else "Cost History"), "title {!r}", got.get_title())
        dd = case["designer"] or dict(label=["Iterations", "Cost"], legend="Cost")
        ensure([got.get_xlabel(), got.get_ylabel()] == dd["label"][:2], "labels {!r} {!r}", got.get_xlabel(), got.get_ylabel())
        ensure(got.get_legend() is not None and [t.get_text() for t in got.get_legend().get_texts()] == [dd["legend"]], "legend")
        if case["designer"] and not case["own_ax"]:
            ensure(list(got.figure.get_size_inches()) == case["designer"]["figsize"], "figure size {}", got.figure.get_size_inches())
        ensure(list(data) == h, "the history was modified")
    return [case["how"]] if len(h) > 1 else None


MESH_FN = ["sphere", "lin", "rosen"]


def mesh_sphere(x):
    return (x ** 2.0).sum(axis=1)


def mesh_lin(x):
    return 3.0 * x[:, 0] - x[:, 1]


def mesh_rosen(x):
    return 100 * (x[:, 1] - x[:, 0] ** 2) ** 2 + (1 - x[:, 0]) ** 2


MESH = dict(sphere=mesh_sphere, lin=mesh_lin, rosen=mesh_rosen)


@st.composite
def mesh_desc(draw):
    def lim():
        a = draw(st.sampled_from([-1.0, 0.0, -2.5, 3.0]))
        return [a, a + draw(st.sampled_from([1.0, 2.0, 0.75]))]

    return dict(
        fn=draw(st.sampled_from(MESH_FN)),
        delta=draw(st.sampled_from([0.25, 0.125, 0.1, 0.3])),
        limits=[lim(), lim()],
        np_=draw(st.sampled_from([None, None, None, None, None, 1, 2, 3])),
    )


@st.composite
def anim_case(draw, surface):
    iters, n = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    d = 3 if surface else 2
    return dict(
        iters=iters,
        n=n,
        hist=draw(gen.matrix_desc(kinds=("uniform", "normal", "grid", "dup"))),
        as_list=draw(st.booleans()),
        designer=draw(designer_desc(d)),
        mesh=draw(st.one_of(st.none(), mesh_desc())),
        mark=draw(st.one_of(st.none(), st.lists(gen.dyadic, min_size=d, max_size=d))),
        title=draw(st.one_of(st.none(), text)),
        canvas=draw(st.booleans()),
        used=draw(st.sampled_from([None, None, "limits", "plot", "title"])),
        interval=draw(st.one_of(st.none(), st.sampled_from([10, 80, 333]))),
    )


def history_of(case, d):
    h = gen.seeded_matrix(case["hist"], case["iters"] * case["n"], d).reshape(case["iters"], case["n"], d)
    if case["as_list"]:
        return [np.array(v) for v in h]
    return h


def mk_mesher(m, record=None):
    from pyswarms.utils.plotters.formatters import Mesher

    return Mesher(
        func=MESH[m["fn"]], delta=m["delta"], limits=[tuple(v) for v in m["limits"]], levels=np.arange(-2.0, 12.0, 0.5)
    )


def check_mesh(m, args):
    x, y, z = (np.asarray(v, float) for v in args[:3])
    if x.ndim == 1 and y.ndim == 1:
        x, y = np.meshgrid(x, y)
    ensure(x.shape == y.shape == z.shape and z.ndim == 2, "mesh shapes {} {} {}", x.shape, y.shape, z.shape)
    want = MESH[m["fn"]](np.stack([x.ravel(), y.ravel()], axis=1)).reshape(x.shape)
    ensure(
        np.allclose(z, want, rtol=1e-12, atol=1e-12),
        "the mesh does not carry the objective's values: {} instead of {} at ({}, {})",
        *(lambda i: (float(z[i]), float(want[i]), float(x[i]), float(y[i])))(np.unravel_index(np.abs(z - want).argmax(), z.shape)),
    )
    for axis, v in ((0, x), (1, y)):
        u = np.unique(np.round(v, 9))
        lo, hi = m["limits"][axis]
        ensure(abs(u[0] - lo) < 1e-6 and u[-1] <= hi + 1e-6 and u[-1] >= hi - m["delta"] - 1e-6, "mesh covers {}..{} instead of {}..{}", u[0], u[-1], lo, hi)
        ensure(len(u) < 2 or np.allclose(np.diff(u), m["delta"], atol=1e-6), "the mesh is not spaced by {}: {}", m["delta"], u.tolist())


def check_animation(case, d, plot, kind):
    from pyswarms.utils.plotters.formatters import Animator
    from matplotlib.axes import Axes
    from mpl_toolkits.mplot3d import Axes3D

    hist = history_of(case, d)
    keep = [np.array(v) for v in hist]
    meshes = []
    target, name = (Axes3D, "plot_surface") if d == 3 else (Axes, "contour")
    original = getattr(target, name)

    def spy(self, *a, **k):
        meshes.append(a)
        return original(self, *a, **k)

    with figures() as plt:
        kw = {}
        fig = None
        if case["canvas"]:
            fig, ax = plt.subplots(1, 1)
            if case.get("used") == "limits":
                ax.set_xlim(-7.0, 9.0)
                ax.set_ylim(-11.0, 13.0)
            elif case.get("used") == "plot":
                ax.plot([-50.0, 70.0], [20.0, -30.0])
            elif case.get("used") == "title":
                ax.set_title("before")
                ax.set_xlabel("before")
                ax.set_ylabel("before")
            kw["canvas"] = (fig, ax)
        if case["title"] is not None:
            kw["title"] = case["title"]
        if case["mark"] is not None:
            kw["mark"] = tuple(case["mark"])
        if case["designer"]:
            kw["designer"] = mk_designer(case["designer"])
        if case["interval"] is not None:
            kw["animator"] = Animator(interval=case["interval"])
        if case["mesh"]:
            kw["mesher"] = mk_mesher(case["mesh"])
            if case["mesh"]["np_"] is not None:
                kw["n_processes"] = case["mesh"]["np_"]
        setattr(target, name, spy)
        try:
            anim = plot(pos_history=hist, **kw)
            reader = frame_reader()
            anim.save("x", writer=reader)
        finally:
            setattr(target, name, original)
        frames = reader.frames
        if fig is not None:
            ensure(reader.fig is fig, "did not draw on the given figure")
        ensure(len(frames) == case["iters"], "{} frames for {} iterations", len(frames), case["iters"])
        dd = case["designer"] or dict(limits=[(-1, 1)] * 3, label=["x-axis", "y-axis", "z-axis"])
        for i, f in enumerate(frames):
            axes = [a for a in f if a["name"] == ("3d" if d == 3 else "rectilinear")]
            ensure(axes, "frame {} has no axes of the right kind", i)
            a = axes[-1]
            found = [m for m in a["marks"] if m.shape == keep[i].shape and np.array_equal(m, keep[i])]
            ensure(
                len(found) >= 1,
                "frame {} draws {} instead of the positions {}",
                i, [m.tolist() for m in a["marks"]], keep[i].tolist(),
            )
            ensure(len(a["marks"]) == (2 if case["mark"] is not None else 1), "frame {} has {} sets of markers", i, len(a["marks"]))
            if case["mark"] is not None:
                ensure(
                    any(m.shape == (1, d) and np.array_equal(m[0], case["mark"]) for m in a["marks"]),
                    "frame {} lacks the mark {}: {}", i, case["mark"], [m.tolist() for m in a["marks"]],
                )
            ensure(a["title"] == (case["title"] if case["title"] is not None else "Trajectory"), "title {!r}", a["title"])
            for j, ax_ in enumerate("xyz"[:d]):
                ensure(a[ax_ + "label"] == dd["label"][j], "{} label {!r} instead of {!r}", ax_, a[ax_ + "label"], dd["label"][j])
                ensure(
                    np.allclose(a[ax_ + "lim"], dd["limits"][j], rtol=1e-9, atol=1e-9),
                    "{} limits {} instead of {} in frame {}", ax_, a[ax_ + "lim"], dd["limits"][j], i,
                )
        if case["mesh"]:
            ensure(len(meshes) == 1, "the mesh was drawn {} times", len(meshes))
            check_mesh(case["mesh"], meshes[0])
        ensure(all(np.array_equal(a, b) for a, b in zip(hist, keep)) and len(hist) == len(keep), "the history was modified")
        want = case["interval"] if case["interval"] is not None else 80
        ensure(anim._interval == want, "interval {} instead of {}", anim._interval, want)
    if case["iters"] < 2:
        return None
    return ["mesh" if case["mesh"] else "no mesh", "mark" if case["mark"] is not None else "no mark", "canvas" if case["canvas"] else "own"]


@facet("C26", "contour", anim_case(False), quick=110, shards=2, rule="counted when the history has two or more iterations; every frame of the animation is read back")
def c26_contour(case):
    from pyswarms.utils.plotters import plot_contour

    return check_animation(case, 2, plot_contour, "contour")


@facet("C26", "surface", anim_case(True), quick=70, shards=2, rule="counted when the history has two or more iterations; every frame of the animation is read back")
def c26_surface(case):
    from pyswarms.utils.plotters import plot_surface

    return check_animation(case, 3, plot_surface, "surface")


@st.composite
def long_case(draw):
    d = draw(st.sampled_from([2, 2, 3]))
    case = draw(anim_case(d == 3))
    case.update(d=d, iters=draw(st.sampled_from([11, 51, 101, 120, 150])), n=draw(st.integers(1, 3)), mesh=None)
    if draw(st.integers(0, 2)) == 0:
        case.update(iters=draw(st.integers(1, 2)), n=draw(st.sampled_from([51, 101, 260])))
    return case


@facet("C26", "long", long_case(), quick=12, shards=4, rule="every case: a history of 11 to 150 iterations, or a swarm of 51 to 260 particles")
def c26_long(case):
    from pyswarms.utils.plotters import plot_contour, plot_surface

    check_animation(case, case["d"], plot_surface if case["d"] == 3 else plot_contour, "")
    return ["frames" if case["iters"] > 2 else "particles"]


@st.composite
def history3d_case(draw, pools):
    iters, n = draw(st.integers(1, 8)), draw(st.integers(1, 9))
    return dict(
        iters=iters,
        n=n,
        hist=draw(gen.matrix_desc(kinds=("uniform", "normal", "grid", "dup"))),
        as_list=draw(st.booleans()),
        fn=draw(st.sampled_from(MESH_FN)),
        np_=draw(st.sampled_from([1, 2, 3, 4])) if pools else None,
    )


def check_history3d(case):
    from pyswarms.utils.plotters.formatters import Mesher

    hist = history_of(case, 2)
    keep = np.array(hist)
    m = Mesher(func=MESH[case["fn"]])
    out = m.compute_history_3d(hist) if case["np_"] is None else m.compute_history_3d(hist, n_processes=case["np_"])
    out = gen.arr(out, (case["iters"], case["n"], 3), "compute_history_3d()")
    ensure(np.array_equal(out[:, :, :2], keep), "the positions changed")
    want = np.array([MESH[case["fn"]](p) for p in keep])
    ensure(np.allclose(out[:, :, 2], want, rtol=1e-12, atol=1e-12), "the appended values are {} instead of {}", out[:, :, 2].tolist(), want.tolist())
    ensure(np.array_equal(np.array(hist), keep), "the history was modified")
    if case["iters"] * case["n"] < 2:
        return None
    return ["n%%k=%s" % ("0" if case["np_"] and case["n"] % case["np_"] == 0 else "x") if case["np_"] else "serial"]


@facet("C26", "history3d", history3d_case(False), quick=600, rule="counted when there are two or more positions")
def c26_history3d(case):
    return check_history3d(case)


@facet("C26", "history3d_pool", history3d_case(True), quick=60, rule="counted when there are two or more positions; evaluated in worker processes")
def c26_history3d_pool(case):
    return check_history3d(case)


@st.composite
def from_run_case(draw):
    s = draw(gen.spec(opts=("global", "local"), max_n=6, max_d=2, bounded=True))
    s["d"] = 2
    return dict(seed=draw(gen.seeds), n=draw(st.integers(2, 6)), iters=draw(st.integers(1, 6)), opt=draw(st.sampled_from(["global", "local"])))


@facet("C26", "of_a_run", from_run_case(), quick=30, rule="every case: the histories of an optimizer run are plotted and read back")
def c26_run(case):
    import pyswarms as ps
    from pyswarms.utils.plotters import plot_contour, plot_cost_history
    from pyswarms.utils.functions.single_obj import sphere

    np.random.seed(case["seed"])
    o = dict(c1=0.5, c2=0.3, w=0.9)
    if case["opt"] == "local":
        opt = ps.single.LocalBestPSO(case["n"], 2, dict(o, k=1, p=2))
    else:
        opt = ps.single.GlobalBestPSO(case["n"], 2, o)
    opt.optimize(sphere, case["iters"], verbose=False)
    with figures():
        ax = plot_cost_history(opt.cost_history)
        ensure(np.array_equal(ax.lines[0].get_ydata(), np.array(opt.cost_history)), "cost history plotted differently")
        a = plot_contour(opt.pos_history)
        r = frame_reader()
        a.save("x", writer=r)
        ensure(len(r.frames) == case["iters"], "{} frames", len(r.frames))
        for i, f in enumerate(r.frames):
            ensure(np.array_equal(f[0]["marks"][-1], opt.pos_history[i]), "frame {} differs from the history", i)
    return [case["opt"]]


# ---------------------------------------------------------------- C31
class Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append(record)


@contextlib.contextmanager
def logging_sandbox():
    """A scratch directory as cwd, logging enabled, everything restored."""
    root = logging.getLogger()
    saved = root.handlers[:], root.level
    envs = os.environ.pop("LOG_CFG", None)
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="rep.", dir=cwd)
    out, err = io.StringIO(), io.StringIO()
    root.handlers = []
    logging.disable(logging.NOTSET)
    os.chdir(tmp)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield tmp, out, err
    finally:
        logging.disable(logging.CRITICAL)
        os.chdir(cwd)
        os.environ.pop("LOG_CFG", None)
        if envs is not None:
            os.environ["LOG_CFG"] = envs
        for h in root.handlers:
            if h not in saved[0]:
                h.close()
        root.handlers, root.level = saved[0], saved[1]
        root.setLevel(saved[1])
        shutil.rmtree(tmp, ignore_errors=True)


def read(path):
    for h in logging.getLogger().handlers:
        h.flush()
    if not os.path.exists(path):
        return ""
    with open(path, encoding="utf8") as f:
        return f.read()


COUNTER = itertools.count()
LEVELS = [10, 20, 30, 40, 50]
MSG = st.text(alphabet="abcXYZ 0123-_:.é", min_size=1, max_size=20).map(lambda t: "<" + t + ">")


@st.composite
def log_case(draw):
    return dict(
        own=draw(st.booleans()),
        level=draw(st.sampled_from([10, 20, 30, 40, 1, 25, 50])),
        calls=draw(
            st.lists(
                st.tuples(MSG, st.sampled_from([None, 1, 5, 9, 15, 25, 35, 60] + LEVELS), st.lists(st.sampled_from(["a", 3, 2.5]), max_size=2)),
                min_size=1, max_size=5,
            )
        ),
    )


@facet("C31", "log", log_case(), quick=500, rule="counted when at least one message passes the logger's level; tagged when another does not")
def c31_log(case):
    from pyswarms.utils.reporter import Reporter

    with logging_sandbox() as (tmp, out, err):
        k = next(COUNTER)
        lg = logging.getLogger("pbt.own%d" % k)
        other = logging.getLogger("pbt.other%d" % k)
        rep = Reporter(logger=lg) if case["own"] else Reporter()
        target = rep.logger
        if case["own"]:
            ensure(target is lg, "the reporter does not use the given logger")
        watch, elsewhere = Capture(), Capture()
        target.addHandler(watch)
        other.addHandler(elsewhere)
        old = target.level
        target.setLevel(case["level"])
        try:
            want = []
            for msg, lvl, args in case["calls"]:
                full = msg + "".join(" %s" for _ in args)
                if lvl is None:
                    rep.log(full) if not args else rep.log(full, logging.INFO, *args)
                else:
                    rep.log(full, lvl, *args) if args else rep.log(full, lvl=lvl)
                lvl = logging.INFO if lvl is None else lvl
                if lvl >= case["level"]:
                    want.append((lvl, msg + "".join(" %s" % a for a in args)))
            got = [(r.levelno, r.getMessage()) for r in watch.records]
            ensure(got == want, "logged {} instead of {}", got, want)
            ensure(all(r.name == target.name for r in watch.records), "logged by another logger")
            ensure(not elsewhere.records, "another logger received {}", [r.getMessage() for r in elsewhere.records])
            # at INFO and above the default configuration writes them to its file
            lines = read(os.path.join(tmp, "report.log")).splitlines()
            loud = [m for lvl, m in want if lvl >= 20]
            ensure(
                len(lines) == len(loud) and all(a.endswith(" - " + m) for a, m in zip(lines, loud)),
                "the log file has {} for {}", lines, loud,
            )
        finally:
            target.removeHandler(watch)
            other.removeHandler(elsewhere)
            target.setLevel(old)
        if not want:
            return None
        return ["own" if case["own"] else "default", "all" if len(want) == len(case["calls"]) else "filtered"]


@st.composite
def print_case(draw):
    return dict(
        printer=draw(st.booleans()),
        calls=draw(
            st.lists(
                st.tuples(MSG, st.integers(-3, 4), st.one_of(st.none(), st.integers(-3, 4))), min_size=1, max_size=6
            )
        ),
    )


@facet("C31", "print", print_case(), quick=500, rule="counted when some message must show and another must not")
def c31_print(case):
    import pprint
    from pyswarms.utils.reporter import Reporter

    with logging_sandbox() as (tmp, out, err):
        shown = []

        class P:
            def pprint(self, m):
                shown.append(m)

        own = io.StringIO()
        if case["printer"]:
            rep = Reporter(printer=P())
        else:
            rep = Reporter(printer=pprint.PrettyPrinter(stream=own))
        want = []
        for msg, verb, thr in case["calls"]:
            if thr is None:
                rep.print(msg, verb)
            else:
                rep.print(msg, verb, threshold=thr)
            if verb > (thr or 0):
                want.append(msg)
        if case["printer"]:
            ensure(shown == want, "showed {} instead of {}", shown, want)
        else:
            ensure(own.getvalue().split("\n")[:-1] == [repr(m) for m in want], "showed {!r} instead of {}", own.getvalue(), want)
        return ["mixed"] if want and len(want) < len(case["calls"]) else None


@st.composite
def pbar_case(draw):
    n = draw(st.integers(1, 60))
    if draw(st.integers(0, 7)) == 7:
        n = draw(st.sampled_from([101, 256, 1001, 1500, 4097, 20000, 100001, 131072, 250000]))
    return dict(
        iters=n,
        desc=draw(st.one_of(st.none(), st.sampled_from(["job", "pyswarms.single"]))),
        hooks=draw(
            st.lists(
                st.tuples(
                    st.integers(0, n - 1),
                    st.sampled_from(["best_cost", "v", "loss_1"]),
                    st.one_of(gen.real, st.integers(-1000, 1000), st.sampled_from(["ok", "a1"])),
                ),
                max_size=4,
            )
        ),
    )


@facet("C31", "pbar", pbar_case(), quick=400, rule="counted when there are two or more iterations; tagged when hook() is used")
def c31_pbar(case):
    from pyswarms.utils.reporter import Reporter

    with logging_sandbox() as (tmp, out, err):
        rep = Reporter()
        bar = rep.pbar(case["iters"], desc=case["desc"]) if case["desc"] else rep.pbar(case["iters"])
        seen = []
        hooks = {}
        for i, k, v in case["hooks"]:
            hooks.setdefault(i, []).append((k, v))
        for i in bar:
            seen.append(i)
            for k, v in hooks.get(i, []):
                rep.hook(**{k: v})
                line = re.split("[\r\n]", err.getvalue())[-1]
                m = re.search(re.escape(k) + r"=([^,\r\n\]]*)", line)
                ensure(m is not None, "hook({}={!r}) is not shown: {!r}", k, v, line[-200:])
                shown = m.group(1).strip()
                if isinstance(v, str):
                    ensure(shown == v, "hook({}={!r}) shows {!r}", k, v, shown)
                else:
                    ensure(abs(float(shown) - v) <= 0.006 * abs(v), "hook({}={!r}) shows {!r}", k, v, shown)
        ensure(
            seen == list(range(case["iters"])), "the bar of {} iterations yields {} values: {} .. {}",
            case["iters"], len(seen), seen[:30], seen[-3:],
        )
        last = re.split("[\r\n]", err.getvalue().rstrip("\r\n"))[-1]
        ensure("%d/%d" % (case["iters"], case["iters"]) in last, "the finished bar shows {!r}", last)
        if case["desc"]:
            ensure(case["desc"] in last, "the bar lacks its description: {!r}", last)
        return ["hook" if case["hooks"] else "plain"] if case["iters"] > 1 else None


YAML = """version: 1
disable_existing_loggers: False
formatters:
  one:
    format: 'FMT%(levelno)s:%(message)s'
handlers:
  file:
    class: logging.FileHandler
    level: {hlevel}
    formatter: one
    filename: {path}
    encoding: utf8
root:
  level: {rlevel}
  handlers: [file]
"""


@st.composite
def config_case(draw):
    return dict(
        source=draw(st.sampled_from(["none", "yaml", "env", "missing", "missing_env", "both"])),
        log_path=draw(st.booleans()),
        hlevel=draw(st.sampled_from(["DEBUG", "INFO", "ERROR"])),
        rlevel=draw(st.sampled_from(["DEBUG", "INFO", "WARNING"])),
        msgs=draw(st.lists(st.tuples(MSG, st.sampled_from(LEVELS)), min_size=1, max_size=4)),
        again=draw(st.booleans()),
    )


@facet("C31", "config", config_case(), quick=500, rule="every case: what a record at each level does under the configuration (tags: its source)")
def c31_config(case):
    from pyswarms.utils.reporter import Reporter

    with logging_sandbox() as (tmp, out, err):
        k = next(COUNTER)
        lg = logging.getLogger("pbt.cfg%d" % k)
        src = case["source"]

        def write(name, path):
            with open(os.path.join(tmp, name), "w", encoding="utf8") as f:
                f.write(YAML.format(hlevel=case["hlevel"], rlevel=case["rlevel"], path=os.path.join(tmp, path)))
            return os.path.join(tmp, name)

        kw = dict(logger=lg)
        default_file = os.path.join(tmp, "report.log")
        if case["log_path"]:
            default_file = os.path.join(tmp, "mine.log")
            kw["log_path"] = default_file
        if src in ("yaml", "both"):
            kw["config_path"] = write("a.yaml", "a.log")
        if src in ("env", "both"):
            os.environ["LOG_CFG"] = write("b.yaml", "b.log")
        if src == "missing":
            kw["config_path"] = os.path.join(tmp, "none.yaml")
        if src == "missing_env":
            os.environ["LOG_CFG"] = os.path.join(tmp, "none.yaml")
        rep = Reporter(**kw)
        if case["again"]:
            rep = Reporter(**kw)
        for m, lvl in case["msgs"]:
            rep.log(m, lvl=lvl)
        if src in ("none", "missing", "missing_env"):
            text_ = read(default_file)
            lines = text_.splitlines()
            want = [(m, l) for m, l in case["msgs"] if l >= 20]
            ensure(len(lines) == len(want), "the default log file has {} lines for {} records at INFO or above", len(lines), len(want))
            for line, (m, l) in zip(lines, want):
                ensure(line.endswith(" - " + m) and logging.getLevelName(l) in line and lg.name in line, "the log file has {!r} for {!r} at {}", line, m, l)
            shown = err.getvalue()
            for m, l in want:
                ensure(m in shown, "{!r} is not shown on the console by default", m)
            ensure(len(shown.splitlines()) == len(want), "the console shows {} lines for {} records", len(shown.splitlines()), len(want))
            if not case["log_path"]:
                ensure(os.path.exists(default_file), "no report.log in the working directory")
        else:
            path = os.path.join(tmp, "b.log" if src == "env" else "a.log")
            low = max(getattr(logging, case["hlevel"]), getattr(logging, case["rlevel"]))
            want = ["FMT%d:%s" % (l, m) for m, l in case["msgs"] if l >= low]
            got = read(path).splitlines()
            ensure(got == want, "the configured file has {} instead of {}", got, want)
            ensure(not read(default_file), "the default log file was written in spite of a configuration")
            if src == "both":
                ensure(not read(os.path.join(tmp, "b.log")), "the environment's configuration was used instead of the given one")
        return [src]


@st.composite
def verbose_case(draw):
    s = draw(gen.spec(max_n=8, max_d=3, ftol=True))
    return dict(spec=s, iters=draw(st.integers(1, 8)), seed=draw(gen.seeds), objective=draw(gen.objective(("sphere", "linear", "signed", "rugged", "const", "ints"))), verbose=draw(st.booleans()))


FLOAT = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf)")


@facet("C31", "optimizer", verbose_case(), quick=400, rule="every case: the records and progress bar of one optimizer run (tags: verbose or quiet)")
def c31_optimizer(case):
    s = case["spec"]
    with logging_sandbox() as (tmp, out, err):
        lg = logging.getLogger("pyswarms")
        cap = Capture()
        lg.addHandler(cap)
        try:
            np.random.seed(s["seed"])
            o = gen.mk_optimizer(s)
            np.random.seed(case["seed"])
            del cap.records[:]
            err.truncate(0)
            err.seek(0)
            cost, pos = o.optimize(gen.Objective(case["objective"]), case["iters"], verbose=case["verbose"])
        finally:
            lg.removeHandler(cap)
        loud = [r for r in cap.records if r.levelno >= logging.INFO]
        if not case["verbose"]:
            ensure(not loud, "verbose=False logs {}", [r.getMessage() for r in loud])
            ensure(err.getvalue() == "" and out.getvalue() == "", "verbose=False writes {!r}", (out.getvalue() + err.getvalue())[:200])
            return ["quiet", s["opt"]]
        values = [float(v) for r in loud for v in FLOAT.findall(r.getMessage())]
        c = float(cost)
        ensure(
            any(v == c or abs(v - c) <= 1e-6 * abs(c) for v in values),
            "verbose=True does not report the returned best cost {}: {}", c, [r.getMessage() for r in loud],
        )
        for v in np.ravel(pos):
            ensure(
                any(abs(float(v) - w) <= 1e-6 * abs(float(v)) + 1e-7 for w in values),
                "verbose=True does not report the returned best position {}: {}", np.ravel(pos).tolist(), [r.getMessage() for r in loud],
            )
        ensure(
            case["iters"] in values, "verbose=True does not announce the {} iterations: {}", case["iters"], [r.getMessage() for r in loud],
        )
        bars = [l for l in re.split("[\r\n]", err.getvalue()) if re.search(r"\b\d+/%d\b" % case["iters"], l)]
        ensure(bars, "verbose=True shows no progress bar: {!r}", err.getvalue()[-200:])
        bar = bars[-1]
        if "ftol" not in s:
            ensure(re.search(r"\b%d/%d\b" % (case["iters"], case["iters"]), bar), "the finished progress bar shows {!r}", bar[-200:])
        shown = [float(v) for v in re.findall(r"=\s*(-?(?:inf|\d[\d.]*(?:e[-+]?\d+)?))", bar)]
        ensure(any(v == c or abs(v - c) <= 0.006 * abs(c) for v in shown), "the progress bar does not show the best cost {}: {!r}", c, bar[-200:])
        return ["verbose", s["opt"]]
