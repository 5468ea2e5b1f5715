"""Strategies for plain-JSON cases, and functions that materialise them."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Violation, ensure

# ---------------------------------------------------------------- numbers
seeds = st.integers(0, 2 ** 31 - 1)

#: "nice" reals: shrink towards 0, contain repeated values, halves and oddities
NICE = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.1, -0.3, 3.0, 1.0 / 3.0, -7.25, 10.0, 1e-3, -1e-3, 100.0]
nice = st.sampled_from(NICE)
dyadic = st.integers(-16, 16).map(lambda i: i / 4.0)
real = st.one_of(
    nice,
    dyadic,
    st.floats(-10, 10, allow_nan=False, width=32),
    st.floats(-1000, 1000, allow_nan=False),
)
unit = st.one_of(
    st.sampled_from([0.0, 0.5, 1.0, 0.25, 0.1, 0.9, 1e-9, 1 - 1e-9]),
    st.floats(0, 1, allow_nan=False),
)


def rows(n, d, elem=real):
    return st.lists(
        st.lists(elem, min_size=d, max_size=d), min_size=n, max_size=n
    )


#: occasionally a case is padded to a large swarm: {"n", "seed"}; None otherwise
pad = st.integers(0, 11).flatmap(
    lambda i: st.none()
    if i < 11
    else st.fixed_dictionaries(dict(n=st.sampled_from([17, 33, 65, 101, 129, 200]), seed=st.integers(0, 999)))
)


def grow(m, p, salt=0):
    """The matrix (or vector) m, padded below with rows whose entries are drawn from
    the entries of the same column."""
    m = np.asarray(m)
    if not p or len(m) >= p["n"]:
        return m
    r = np.random.RandomState(p["seed"] + 1000 * salt)
    idx = r.randint(0, len(m), (p["n"] - len(m),) + m.shape[1:])
    extra = np.take_along_axis(m, idx, axis=0)
    return np.concatenate([m, extra])


def seeded_matrix(desc, n, d):
    """Materialise {"seed", "kind", "scale"} as an (n, d) matrix."""
    r = np.random.RandomState(desc["seed"])
    kind = desc["kind"]
    if kind == "uniform":
        m = r.uniform(-1, 1, (n, d))
    elif kind == "normal":
        m = r.normal(size=(n, d))
    elif kind == "grid":
        m = r.randint(-3, 4, (n, d)) / 2.0
    elif kind == "dup":
        base = r.uniform(-1, 1, (max(1, n // 2), d))
        m = base[r.randint(0, len(base), n)]
    elif kind == "const":
        m = np.zeros((n, d)) + r.uniform(-1, 1, d)
    else:
        raise ValueError(kind)
    return m * desc.get("scale", 1.0) + desc.get("shift", 0.0)


@st.composite
def matrix_desc(draw, kinds=("uniform", "normal", "grid", "dup", "const")):
    return dict(
        seed=draw(seeds),
        kind=draw(st.sampled_from(kinds)),
        scale=draw(st.sampled_from([1.0, 2.0, 0.01, 10.0, 1000.0])),
        shift=draw(st.sampled_from([0.0, 0.0, 1.0, -5.0, 100.0])),
    )


# ---------------------------------------------------------------- bounds
LO = [0.0, -1.0, 1.0, -5.12, 2.0, -0.1, 1.0 / 3.0, 100.0, -1000.0, 0.7]
WIDTH = [1.0, 2.0, 0.5, 10.24, 0.1, 3.0, 1.0 / 3.0, 100.0, 0.01, 1e4]


@st.composite
def bounds(draw, d, widths=tuple(WIDTH)):
    """{"lo": [...], "hi": [...], "as": "array"|"list"} with lo < hi"""
    lo = [draw(st.one_of(st.sampled_from(LO), st.floats(-50, 50, allow_nan=False))) for _ in range(d)]
    if draw(st.booleans()):
        lo = [lo[0]] * d
        w = [draw(st.sampled_from(widths))] * d
    else:
        w = [draw(st.sampled_from(widths)) for _ in range(d)]
    hi = [a + b for a, b in zip(lo, w)]
    for i in range(d):
        if not hi[i] > lo[i]:
            hi[i] = lo[i] + 1.0
    kind = draw(st.sampled_from(["array", "array", "array", "list", "list", "tuple", "readonly", "int", "intlist", "uint8", "float32"]))
    if kind in ("int", "intlist", "uint8"):  # whole numbers
        lo = [float(math.floor(a)) for a in lo]
        hi = [a + max(1.0, float(round(b - a))) for a, b in zip(lo, hi)]
        if kind == "uint8":
            lo = [abs(a) % 200 for a in lo]
            hi = [min(a + max(1.0, w // 2), 255.0) for a, w in zip(lo, w)]
    if kind == "float32":
        lo = [float(np.float32(a)) for a in lo]
        hi = [float(np.float32(a)) for a in hi]
        hi = [b if b > a else a + 1 for a, b in zip(lo, hi)]
        hi = [float(np.float32(a)) for a in hi]
    return dict(lo=lo, hi=hi, **{"as": kind})


def typed(v, kind):
    """The values of v held in another type, order or kind of memory; float64 where
    that type cannot hold them."""
    a = np.array(v)
    if kind in ("int", "uint8", "int8", "float32", "bool"):
        with np.errstate(all="ignore"):
            b = a.astype(kind)
            return b if np.array_equal(b.astype(float), a.astype(float)) else a
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        big = np.repeat(np.repeat(a, 2, axis=0), 3, axis=-1) if a.ndim > 1 else np.repeat(a, 2)
        return big[::2, ::3] if a.ndim > 1 else big[::2]
    if kind == "readonly":
        a.flags.writeable = False
    return a


def mk_bounds(b):
    if b is None:
        return None
    kind = b["as"]
    if kind == "list":
        return (list(b["lo"]), list(b["hi"]))
    if kind == "tuple":
        return (tuple(b["lo"]), tuple(b["hi"]))
    if kind == "intlist":
        return ([int(v) if v == int(v) else v for v in b["lo"]], [int(v) if v == int(v) else v for v in b["hi"]])
    return (typed(b["lo"], kind), typed(b["hi"], kind))


def bnd(b):
    return np.array(b["lo"], float), np.array(b["hi"], float)


# ---------------------------------------------------------------- objectives
# Row-wise deterministic objectives described by JSON.
OBJ = ["sphere", "linear", "rugged", "steps", "const", "holes", "allinf", "signed", "huge", "ints", "table", "pits", "nans"]


@st.composite
def objective(draw, kinds=tuple(OBJ)):
    kind = draw(st.sampled_from(kinds))
    o = dict(kind=kind)
    if draw(st.integers(0, 4)) == 4:
        o["buf"] = True
    if kind in ("sphere", "rugged", "holes", "signed", "pits", "nans"):
        o["c"] = draw(st.sampled_from([0.0, 0.5, 1.0, -3.0, 4.0]))
    if kind == "linear":
        o["a"] = draw(st.sampled_from([1.0, -1.0, 0.0]))
    if kind == "steps":
        o["q"] = draw(st.sampled_from([1.0, 4.0, 0.25]))
    if kind == "table":
        o["seed"] = draw(seeds)
        o["levels"] = draw(st.sampled_from([2, 3, 10, 1000000]))
        o["trend"] = draw(st.sampled_from([0, 0, 1, -1]))
    return o


class Objective:
    """Callable on (n, d) matrices; `call` counts evaluations for kind "table",
    whose costs depend on the call's index and not on the position. With "buf" it
    returns the same array every time, overwritten by the next evaluation."""

    def __init__(self, o):
        self.o, self.call, self.buf = o, 0, None
        self.rs = np.random.RandomState(o["seed"]) if o["kind"] == "table" else None

    def __call__(self, x):
        c = self.costs(x)
        if not self.o.get("buf"):
            return c
        if self.buf is None or self.buf.shape != c.shape:
            self.buf = c
        self.buf[...] = c
        return self.buf

    def costs(self, x):
        x = np.asarray(x, float)
        o, k = self.o, self.o["kind"]
        self.call += 1
        if k == "sphere":
            return ((x - o["c"]) ** 2).sum(axis=1)
        if k == "linear":
            return o["a"] * x.sum(axis=1) + 0.5 * x[:, 0]
        if k == "rugged":
            y = x - o["c"]
            return (y ** 2 - 10 * np.cos(3 * y) + 10).sum(axis=1)
        if k == "steps":
            return np.floor(np.abs(x).sum(axis=1) * o["q"])
        if k == "const":
            return np.full(len(x), 3.25)
        if k == "holes":
            s = ((x - o["c"]) ** 2).sum(axis=1)
            return np.where(np.floor(np.abs(x).sum(axis=1) * 7) % 3 == 0, np.inf, s)
        if k == "pits":
            s = ((x - o["c"]) ** 2).sum(axis=1)
            return np.where(np.floor(np.abs(x).sum(axis=1) * 5) % 7 == 3, -np.inf, s)
        if k == "nans":
            s = ((x - o["c"]) ** 2).sum(axis=1)
            return np.where(np.floor(np.abs(x).sum(axis=1) * 5) % 3 == 1, np.nan, s)
        if k == "allinf":
            return np.full(len(x), np.inf)
        if k == "signed":
            return np.sin(x - o["c"]).sum(axis=1) * 5 - 2
        if k == "huge":
            return -1e300 * np.cos(x).mean(axis=1)
        if k == "ints":
            return np.floor(np.abs(x).sum(axis=1) * 3).clip(0, 1e15).astype(np.int64)
        if k == "table":
            v = self.rs.randint(0, o["levels"], len(x)) * 0.25
            return v + o["trend"] * self.call
        raise ValueError(k)


# ---------------------------------------------------------------- swarm runs
OPTIMIZERS = ["global", "local", "general", "binary"]
TOPOLOGIES = ["star", "ring", "vonneumann", "pyramid", "random"]
BH = ["nearest", "reflective", "shrink", "random", "intermediate", "periodic"]
VH = ["unmodified", "invert", "zero", "adjust"]


def delannoy(d, r):
    return sum(math.comb(d, i) * math.comb(r, i) * 2 ** i for i in range(min(d, r) + 1))


coeff = st.sampled_from([0.5, 1.0, 2.0, 1.49, 0.0, 0.3, 3.0])
inertia = st.sampled_from([0.9, 0.5, 0.4, 0.0, 1.0, 0.729])


@st.composite
def clamp_for(draw, d, scale=1.0):
    mags = [0.5, 1.0, 0.1, 4.0, 0.01]

    def pair():
        lo = -draw(st.sampled_from(mags + [0.0])) * scale
        hi = draw(st.sampled_from(mags)) * scale
        return lo, hi

    if draw(st.booleans()):
        lo, hi = pair()
        return [lo, hi]
    ps = [pair() for _ in range(d)]
    mixed = draw(st.integers(0, 11))
    if mixed == 0:
        return [min(p[0] for p in ps), [p[1] for p in ps]]
    if mixed == 1:
        return [[p[0] for p in ps], max(p[1] for p in ps)]
    return [[p[0] for p in ps], [p[1] for p in ps]]


def mk_clamp(c):
    if c is None:
        return None
    return tuple(np.array(v) if isinstance(v, list) else v for v in c)


@st.composite
def spec(
    draw,
    opts=tuple(OPTIMIZERS),
    tops=tuple(TOPOLOGIES),
    bounded=None,
    vh=None,
    bh=None,
    clamp=None,
    max_n=12,
    max_d=4,
    oh=False,
    ftol=False,
    init=None,
    statics=(False, True),
    widths=tuple(WIDTH),
    min_n=1,
    options=None,
    w=inertia,
    tame=False,
):
    """The constructor arguments of an optimizer, as JSON.

    bounded/clamp/init: None = drawn, True/False = forced; tame: without a clamp
    the options are such that even hundreds of iterations cannot overflow."""
    opt = draw(st.sampled_from(opts))
    top, static = None, False
    if opt == "global":
        top = "star"
    elif opt in ("local", "binary"):
        top = "ring"
        static = draw(st.sampled_from(statics)) if opt == "local" else False
    else:
        top = draw(st.sampled_from(tops))
        static = draw(st.sampled_from(statics))
    big = draw(st.integers(0, 23)) if max_n >= 6 else 0
    d = draw(st.integers(2 if top == "pyramid" else 1, max_d))
    if big == 22 and top in ("star", "ring") and max_d >= 3:
        d = draw(st.sampled_from([5, 8, 12, 30]))
    lo_n = {"star": 1, "ring": 1, "vonneumann": 1, "pyramid": 1, "random": 3}[top]
    r = None
    if top == "vonneumann":
        r = draw(st.sampled_from([0, 1, 1, 2]))
        while r and delannoy(d, r) >= max_n:
            r -= 1
        lo_n = max(lo_n, delannoy(d, r))
    lo_n = max(lo_n, min_n)
    n = draw(st.integers(lo_n, max(max_n, lo_n)))
    if big == 23:
        n = max(n, draw(st.sampled_from([17, 33, 65, 101, 129])))
    o = dict(c1=draw(coeff), c2=draw(coeff), w=draw(w))
    if top == "ring":
        o["k"] = draw(st.integers(1, n))
        o["p"] = draw(st.sampled_from([1, 2]))
    if top == "vonneumann":
        o["r"] = r
        o["p"] = draw(st.sampled_from([1, 2]))
    if top == "random":
        o["k"] = draw(st.integers(1, max(1, n - 2)))
    if options:
        o.update(options)
    s = dict(opt=opt, top=top, static=static, n=n, d=d, options=o, seed=draw(seeds))
    cont = opt != "binary"
    b = None
    if cont:
        isb = draw(st.booleans()) if bounded is None else bounded
        if isb:
            b = draw(bounds(d, widths=widths))
        s["bounds"] = b
        s["bh"] = draw(st.sampled_from(bh or BH))
    vhs = vh or (VH if cont else ["unmodified", "adjust"])
    if cont and b is None:
        vhs = [v for v in vhs if v not in ("invert", "zero")] or ["unmodified"]
    if not cont:
        vhs = [v for v in vhs if v in ("unmodified", "adjust")] or ["unmodified"]
    s["vh"] = draw(st.sampled_from(vhs))
    isc = draw(st.booleans()) if clamp is None else clamp
    scale = 1.0
    if b is not None:
        scale = min(h - l for l, h in zip(b["lo"], b["hi"]))
        scale = min(scale, 10.0)
    s["clamp"] = draw(clamp_for(d, scale)) if isc else None
    isi = draw(st.sampled_from([False, False, True])) if init is None else init
    s["init"] = draw(init_desc(n, d, b, cont)) if isi else None
    if ftol and draw(st.integers(0, 3)) == 0:
        s["ftol"] = draw(st.sampled_from([1e-3, 0.5, 4.0]))
        s["ftol_iter"] = draw(st.integers(1, 4))
    if oh and cont and draw(st.booleans()):
        keys = draw(st.lists(st.sampled_from(["c1", "c2", "w"]), unique=True, min_size=1))
        s["oh"] = {k: draw(st.sampled_from(["exp_decay", "lin_variation", "random", "nonlin_mod"])) for k in sorted(keys)}
    if draw(st.integers(0, 2)) == 0:
        kinds = ["float", "int", "float32", "fortran", "strided", "readonly"] + (["uint8", "bool"] if not cont else ["uint8"])
        s["types"] = dict(init=draw(st.sampled_from(kinds)), clamp=draw(st.sampled_from(["float", "int", "readonly"])), options=draw(st.sampled_from(["float", "int", "float64"])))
    if tame and s["clamp"] is None:
        for k in ("c1", "c2"):
            o[k] = min(o[k], 1.49)
        s["oh"] = {k: v for k, v in s.get("oh", {}).items() if v not in ("exp_decay", "random")}
    return s


@st.composite
def init_desc(draw, n, d, b, cont):
    m, p = n, None
    if n > 16:
        m, p = 6, dict(n=n, seed=draw(st.integers(0, 999)))
    if not cont:
        return grow(draw(rows(m, d, st.integers(0, 1))), p).tolist()
    if b is not None:
        fr = grow(draw(rows(m, d, unit)), p).tolist()
        if b["as"] in ("int", "intlist", "uint8") and draw(st.booleans()):
            return [[float(round(l + f * (h - l))) for f, l, h in zip(row, b["lo"], b["hi"])] for row in fr]
        return [
            [min(max(l + f * (h - l), l), h) for f, l, h in zip(row, b["lo"], b["hi"])]
            for row in fr
        ]
    kind = draw(st.integers(0, 4))
    if kind == 0:
        return grow(draw(rows(m, d, st.integers(0, 255).map(float))), p).tolist()
    if kind < 3:
        return grow(draw(rows(m, d, st.one_of(dyadic, nice))), p).tolist()
    return grow(draw(rows(m, d, real)), p).tolist()


def mk_init(s):
    if s.get("init") is None:
        return None
    return typed(s["init"], s.get("types", {}).get("init"))


def mk_options(s):
    kind = s.get("types", {}).get("options")
    out = {}
    for k, v in s["options"].items():
        if k in ("c1", "c2", "w"):
            v = int(v) if kind == "int" and v == int(v) else np.float64(v) if kind == "float64" else v
        out[k] = v
    return out


def mk_spec_clamp(s):
    kind = s.get("types", {}).get("clamp")
    c = mk_clamp(s["clamp"])
    if c is None or kind is None:
        return c

    def one(v):
        if isinstance(v, np.ndarray):
            return typed(v, kind)
        if kind == "int" and v == int(v):
            return int(v)
        return np.float32(v) if kind == "float32" and float(np.float32(v)) == v else v

    return tuple(one(v) for v in c)


def mk_topology(s):
    from pyswarms.backend import topology as T

    name = s["top"]
    if name == "star":
        return T.Star()
    if name == "vonneumann":
        return T.VonNeumann()
    cls = {"ring": T.Ring, "pyramid": T.Pyramid, "random": T.Random}[name]
    return cls(static=s["static"])


def mk_optimizer(s, **over):
    """Build the optimizer of a spec (numpy must be seeded by the caller)."""
    import pyswarms as ps

    kw = dict(
        n_particles=s["n"],
        dimensions=s["d"],
        options=mk_options(s),
        velocity_clamp=mk_spec_clamp(s),
        vh_strategy=s["vh"],
        init_pos=mk_init(s),
    )
    if "ftol" in s:
        kw["ftol"] = s["ftol"]
    if "ftol_iter" in s:
        kw["ftol_iter"] = s["ftol_iter"]
    if s["opt"] != "binary":
        kw.update(bounds=mk_bounds(s["bounds"]), bh_strategy=s["bh"])
        if s.get("oh"):
            kw["oh_strategy"] = dict(s["oh"])
        if "center" in s:
            kw["center"] = s["center"]
    if s["opt"] == "local":
        kw["static"] = s["static"]
    if s["opt"] == "general":
        kw["topology"] = mk_topology(s)
    kw.update(over)
    cls = {
        "global": ps.single.GlobalBestPSO,
        "local": ps.single.LocalBestPSO,
        "general": ps.single.GeneralOptimizerPSO,
        "binary": ps.discrete.BinaryPSO,
    }[s["opt"]]
    return cls(**kw)


# ---------------------------------------------------------------- observing runs
def arr(x, shape, what, kind="fiub"):
    """x as an array of the given shape, or a Violation."""
    try:
        a = np.asarray(x)
    except Exception as exc:
        raise Violation("%s is not an array: %r" % (what, exc))
    ensure(
        a.shape == tuple(shape),
        "{} has shape {} instead of {}",
        what,
        a.shape,
        tuple(shape),
    )
    ensure(a.dtype.kind in kind, "{} has dtype {}", what, a.dtype)
    return a


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f")


class Recorder:
    """Wraps an objective: keeps copies of what it was given and returned, and of
    the swarm's velocity at that moment. A NaN is lower than nothing: it is kept as
    an infinite cost."""

    def __init__(self, fn, n, d):
        self.fn, self.n, self.d = fn, n, d
        self.X, self.C, self.V, self.KW = [], [], [], []
        self.optimizer = None
        self.fail_at = None
        self.exc = None

    def __call__(self, x, /, **kwargs):
        if self.fail_at is not None and len(self.X) == self.fail_at:
            self.fail_at = None
            raise self.exc
        ensure(isinstance(x, np.ndarray), "the objective was given a {}", type(x).__name__)
        ensure(
            x.shape == (self.n, self.d),
            "the objective was given shape {} instead of {}",
            x.shape,
            (self.n, self.d),
        )
        ensure(x.dtype.kind in "fiub", "the objective was given dtype {}", x.dtype)
        self.X.append(np.array(x, dtype=float))
        self.KW.append(dict(kwargs))
        if self.optimizer is not None:
            self.V.append(np.array(self.optimizer.swarm.velocity, copy=True))
        c = self.fn(x)
        self.C.append(np.where(np.isnan(c), np.inf, c))
        return c


HISTS = ["cost_history", "mean_pbest_history", "mean_neighbor_history", "pos_history", "velocity_history"]


def hist_copy(o):
    return {h: [np.array(v, copy=True) for v in getattr(o, h)] for h in HISTS}


class Call:
    """One optimize() call: the recorder's slice, the result, histories after."""

    pass


def run_call(o, s, fn, iters, seed=None, rec=None, verbose=False, **kw):
    if seed is not None:
        np.random.seed(seed)
    rec = rec or Recorder(fn, s["n"], s["d"])
    rec.optimizer = o
    c = Call()
    c.before = {h: len(getattr(o, h)) for h in HISTS}
    ret = o.optimize(rec, iters, verbose=verbose, **kw)
    ensure(isinstance(ret, tuple) and len(ret) == 2, "optimize() returned {!r}", type(ret))
    c.ret = ret
    c.cost = float(arr(ret[0], (), "returned cost"))
    c.pos = arr(ret[1], (s["d"],), "returned position").copy()
    c.pos_obj = ret[1]
    c.X, c.C, c.V = rec.X, rec.C, rec.V
    c.iters = len(rec.X)
    c.rec = rec
    return c


def hist_slice(o, c, name):
    h = getattr(o, name)
    ensure(isinstance(h, list), "{} is a {}", name, type(h).__name__)
    return h[c.before[name]:]


def run_actions(s, actions, obj_of=None):
    """Interpret actions on a fresh optimizer; yields (optimizer, action, Call).

    actions: ["opt", iters, seed, objective] or ["reset", seed]"""
    np.random.seed(s["seed"])
    o = mk_optimizer(s)
    for a in actions:
        if a[0] == "reset":
            np.random.seed(a[1])
            o.reset()
            yield o, a, None
        else:
            fn = Objective(a[3])
            yield o, a, run_call(o, s, fn, a[1], seed=a[2])


@st.composite
def actions(draw, kinds=tuple(OBJ), max_calls=3, max_iters=12, resets=True, min_calls=1, lengths=None):
    n = draw(st.integers(min_calls, max_calls))
    out = []
    for i in range(n):
        if resets and i > 0 and draw(st.integers(0, 3)) == 0:
            out.append(["reset", draw(seeds)])
        iters = draw(st.integers(1, max_iters) if lengths is None else st.sampled_from(lengths))
        if lengths is None and max_iters >= 6 and n == 1 and draw(st.integers(0, 47)) == 47:
            iters = draw(st.sampled_from([21, 40, 64, 101, 130]))
        out.append(["opt", iters, draw(seeds), draw(objective(kinds))])
    return out
