"""C22 C23 benchmark functions, C24 the cost decorator."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
from core import Violation, ensure, facet

PI = math.pi

# Every function: published formula on a list of floats, returning (value,
# magnitude of the terms that were added up) -- the latter bounds rounding.


def f_ackley(x):
    d = len(x)
    a = -20.0 * math.exp(-0.2 * math.sqrt(sum(v * v for v in x) / d))
    b = -math.exp(sum(math.cos(2 * PI * v) for v in x) / d)
    return a + b + 20.0 + math.e, 50.0


def f_beale(p):
    x, y = p
    v = (1.5 - x + x * y) ** 2 + (2.25 - x + x * y * y) ** 2 + (2.625 - x + x * y ** 3) ** 2
    return v, 1 + sum((3 + abs(x) + abs(x * y ** k)) ** 2 for k in (1, 2, 3))


def f_booth(p):
    x, y = p
    return (x + 2 * y - 7) ** 2 + (2 * x + y - 5) ** 2, 4000.0


def f_bukin6(p):
    x, y = p
    return 100 * math.sqrt(abs(y - 0.01 * x * x)) + 0.01 * abs(x + 10), 300.0


def f_crossintray(p):
    x, y = p
    e = math.exp(abs(100 - math.hypot(x, y) / PI))
    return -0.0001 * (abs(math.sin(x) * math.sin(y) * e) + 1) ** 0.1, 3.0


def f_easom(p):
    x, y = p
    return -math.cos(x) * math.cos(y) * math.exp(-((x - PI) ** 2 + (y - PI) ** 2)), 1.0


def f_eggholder(p):
    x, y = p
    v = -(y + 47) * math.sin(math.sqrt(abs(x / 2 + (y + 47))))
    v -= x * math.sin(math.sqrt(abs(x - (y + 47))))
    return v, 1200.0


def f_goldstein(p):
    x, y = p
    a = 1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)
    b = 30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)
    ax, ay = abs(x), abs(y)
    A = 1 + (ax + ay + 1) ** 2 * (19 + 14 * ax + 3 * x * x + 14 * ay + 6 * ax * ay + 3 * y * y)
    B = 30 + (2 * ax + 3 * ay) ** 2 * (18 + 32 * ax + 12 * x * x + 48 * ay + 36 * ax * ay + 27 * y * y)
    return a * b, abs(a) * B + A * abs(b)


def f_himmelblau(p):
    x, y = p
    return (x * x + y - 11) ** 2 + (x + y * y - 7) ** 2, (x * x + abs(y) + 11) ** 2 + (abs(x) + y * y + 7) ** 2


def f_holdertable(p):
    x, y = p
    e = math.exp(abs(1 - math.hypot(x, y) / PI))
    return -abs(math.sin(x) * math.cos(y) * e), 1 + e


def f_levi(p):
    w = [1 + (v - 1) / 4.0 for v in p]
    v = math.sin(PI * w[0]) ** 2
    for u in w[:-1]:
        v += (u - 1) ** 2 * (1 + 10 * math.sin(PI * u + 1) ** 2)
    v += (w[-1] - 1) ** 2 * (1 + math.sin(2 * PI * w[-1]) ** 2)
    return v, 200.0


def f_matyas(p):
    x, y = p
    return 0.26 * (x * x + y * y) - 0.48 * x * y, 1 + 0.26 * (x * x + y * y) + 0.48 * abs(x * y)


def f_rastrigin(x):
    return 10.0 * len(x) + sum(v * v - 10 * math.cos(2 * PI * v) for v in x), 60.0 * len(x)


def f_rosenbrock(x):
    v, m = 0.0, 1.0
    for a, b in zip(x[:-1], x[1:]):
        v += 100 * (b - a * a) ** 2 + (1 - a) ** 2
        m += 100 * (abs(b) + a * a) ** 2 + (1 + abs(a)) ** 2
    return v, m


def f_schaffer2(p):
    x, y = p
    n = math.sin(x * x - y * y) ** 2 - 0.5
    return 0.5 + n / (1 + 0.001 * (x * x + y * y)) ** 2, 10.0


def f_sphere(x):
    v = sum(u * u for u in x)
    return v, 1 + v


def f_threehump(p):
    x, y = p
    v = 2 * x * x - 1.05 * x ** 4 + x ** 6 / 6 + x * y + y * y
    return v, 1 + 2 * x * x + 1.05 * x ** 4 + x ** 6 / 6 + abs(x * y) + y * y


def box(a, b):
    return [(a, b), (a, b)]


# name -> (reference, domain per coordinate or one pair for any d or None,
#          minimisers, minimum, tolerance of the minimum)
X1 = 1.349406608602084
H1, H2 = 8.05502347573655, 9.664590019241274
HIM = [(3.0, 2.0), (-2.805118, 3.131312), (-3.779310, -3.283186), (3.584428, -1.848126)]
FX = {
    "ackley": (f_ackley, (-32.0, 32.0), 0.0, 0.0, 1e-9),
    "beale": (f_beale, box(-4.5, 4.5), [(3.0, 0.5)], 0.0, 1e-9),
    "booth": (f_booth, box(-10.0, 10.0), [(1.0, 3.0)], 0.0, 1e-9),
    "bukin6": (f_bukin6, [(-15.0, -5.0), (-3.0, 3.0)], [(-10.0, 1.0)], 0.0, 1e-5),
    "crossintray": (
        f_crossintray,
        box(-10.0, 10.0),
        [(a * X1, b * X1) for a in (1, -1) for b in (1, -1)],
        -2.0626118708,
        1e-8,
    ),
    "easom": (f_easom, box(-100.0, 100.0), [(PI, PI)], -1.0, 1e-9),
    "eggholder": (f_eggholder, box(-512.0, 512.0), [(512.0, 404.2319)], -959.6407, 1e-3),
    "goldstein": (f_goldstein, box(-2.0, 2.0), [(0.0, -1.0)], 3.0, 1e-9),
    "himmelblau": (f_himmelblau, box(-5.0, 5.0), HIM, 0.0, 1e-9),
    "holdertable": (
        f_holdertable,
        box(-10.0, 10.0),
        [(a * H1, b * H2) for a in (1, -1) for b in (1, -1)],
        -19.208502567886,
        1e-8,
    ),
    "levi": (f_levi, box(-10.0, 10.0), [(1.0, 1.0)], 0.0, 1e-9),
    "matyas": (f_matyas, box(-10.0, 10.0), [(0.0, 0.0)], 0.0, 1e-9),
    "rastrigin": (f_rastrigin, (-5.12, 5.12), 0.0, 0.0, 1e-9),
    "rosenbrock": (f_rosenbrock, None, 1.0, 0.0, 1e-9),
    "schaffer2": (f_schaffer2, box(-100.0, 100.0), [(0.0, 0.0)], 0.0, 1e-9),
    "sphere": (f_sphere, None, 0.0, 0.0, 1e-9),
    "threehump": (f_threehump, box(-5.0, 5.0), [(0.0, 0.0)], 0.0, 1e-9),
}
NAMES = sorted(FX)
# minimisers documented to a few decimals attain the minimum to this error
AT_MIN = {"himmelblau": 1e-7, "eggholder": 1e-3}


def fn(name):
    from pyswarms.utils.functions import single_obj

    return getattr(single_obj, name)


def any_d(name):
    return not isinstance(FX[name][1], list)


def dom(name, d):
    box_ = FX[name][1]
    if box_ is None:
        return [(-1e3, 1e3)] * d
    return box_ if isinstance(box_, list) else [box_] * d


def minimisers(name, d):
    m = FX[name][2]
    return [tuple([m] * d)] if isinstance(m, float) else m


def tolerance(name, p, mag):
    t = 1e-11 * mag
    if name == "bukin6":
        r = abs(p[1] - 0.01 * p[0] * p[0])
        t += 100 * (math.sqrt(r + 1e-15) - math.sqrt(max(0.0, r - 1e-15)))
    return t


def as_vector(out, n, what):
    ensure(isinstance(out, np.ndarray), "{} returned a {}", what, type(out).__name__)
    if isinstance(out, np.ma.MaskedArray):
        ensure(not np.ma.getmaskarray(out).any(), "{} returned masked entries", what)
    out = np.asarray(out)
    ensure(out.shape == (n,), "{} returned shape {} for {} particles", what, out.shape, n)
    ensure(out.dtype.kind in "fiu", "{} returned dtype {}", what, out.dtype)
    return out.astype(float)


@st.composite
def point(draw, name, d):
    """A point of the domain (coordinates as floats)."""
    box_ = dom(name, d)
    kind = draw(st.sampled_from(["any", "any", "any", "nice", "edge", "min", "wide"]))
    if kind == "min":
        m = draw(st.sampled_from(minimisers(name, d)))
        e = draw(st.sampled_from([0.0, 0.0, 1e-6, -1e-3, 0.1]))
        p = [v + e for v in m]
    elif kind == "edge":
        p = [draw(st.sampled_from([a, b, (a + b) / 2, 0.0])) for a, b in box_]
    elif kind == "nice":
        p = [draw(gen.nice) for _ in range(d)]
    elif kind == "wide" and FX[name][1] is None:
        p = [draw(st.floats(-1e6, 1e6, allow_nan=False)) for _ in range(d)]
        return p
    else:
        p = [draw(st.floats(a, b, allow_nan=False)) for a, b in box_]
    return [min(max(v, a), b) for v, (a, b) in zip(p, box_)]


def dims(draw, name):
    if not any_d(name):
        return 2
    return draw(st.integers(1 if name != "rosenbrock" else 2, 8))


@st.composite
def value_case(draw):
    name = draw(st.sampled_from(NAMES))
    d = dims(draw, name)
    n = draw(st.integers(1, 9))
    m = [draw(point(name, d)) for _ in range(n)]
    ints = draw(st.integers(0, 4)) == 0
    if ints:
        m = [[int(math.ceil(a)) if math.ceil(a) <= b else int(math.floor(a)) for a, (_, b) in zip(r, dom(name, d))] for r in m]
    return dict(
        fn=name,
        rows=m,
        layout=draw(st.sampled_from(["C", "C", "F", "view"])),
        perm=draw(st.permutations(list(range(n)))),
        ints=ints,
        take=draw(st.integers(0, n - 1)),
    )


def lay(rows_, layout, ints=False):
    a = np.array(rows_, dtype=np.int64 if ints else float)
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "view":
        big = np.full((2 * a.shape[0], a.shape[1] + 2), 7, dtype=a.dtype)
        big[::2, 1:-1] = a
        return big[::2, 1:-1]
    return a


@facet(
    "C22",
    "values",
    value_case(),
    quick=4000,
    shards=2,
    rule="every matrix is in the function's domain; counted when two rows differ, or there is one row (tags: name, size, layout)",
)
def c22_values(case):
    name, ref = case["fn"], FX[case["fn"]][0]
    f = fn(name)
    x = lay(case["rows"], case["layout"], case["ints"])
    keep = x.copy()
    n, d = x.shape
    out = as_vector(f(x), n, name)
    ensure(np.array_equal(x, keep), "{} modified its input", name)
    want, tol = [], []
    for i, r in enumerate(case["rows"]):
        v, mag = ref([float(u) for u in r])
        want.append(v)
        tol.append(tolerance(name, r, mag))
        ensure(
            abs(out[i] - v) <= tol[i],
            "{}({}) is {!r}, its formula gives {!r} (row {} of {})",
            name, list(r), float(out[i]), v, i, n,
        )
    tol = np.array(tol)
    # the same rows in another order, alone, twice, and again
    perm = case["perm"]
    o = as_vector(f(x[perm]), n, name)
    ensure((np.abs(o - out[perm]) <= tol[perm]).all(), "{}: values change with the rows' order", name)
    i = case["take"]
    o = as_vector(f(x[i:i + 1]), 1, name)
    ensure(abs(o[0] - out[i]) <= tol[i], "{}: the value of a row changes when it is alone: {!r} {!r}", name, float(o[0]), float(out[i]))
    o = as_vector(f(np.concatenate([x, x[i:i + 1]])), n + 1, name)
    ensure(
        (np.abs(o[:n] - out) <= tol).all() and abs(o[n] - out[i]) <= tol[i],
        "{}: values change when a row is added", name,
    )
    o = as_vector(f(x), n, name)
    ensure((np.abs(o - out) <= tol).all(), "{}: repeated calls disagree", name)
    ensure(np.array_equal(x, keep), "{} modified its input", name)
    if n > 1 and len({tuple(r) for r in case["rows"]}) == 1:
        return None
    return [name, "n=1" if n == 1 else "n>1", case["layout"], "ints" if case["ints"] else "floats"]


@st.composite
def mixed_case(draw):
    calls = []
    for _ in range(draw(st.integers(2, 6))):
        name = draw(st.sampled_from(NAMES))
        d = dims(draw, name)
        calls.append([name, [draw(point(name, d)) for _ in range(draw(st.integers(1, 4)))]])
    return dict(calls=calls, again=draw(st.lists(st.integers(0, len(calls) - 1), min_size=1, max_size=4)))


@facet(
    "C22",
    "history",
    mixed_case(),
    quick=1000,
    rule="every case: calls of several functions and matrices, some repeated, each against the formula",
)
def c22_history(case):
    mats = [np.array(r, float) for _, r in case["calls"]]
    outs = []
    order = list(range(len(mats))) + list(case["again"])
    kept = {}
    for j in order:
        name, r = case["calls"][j]
        out = fn(name)(mats[j])
        vec = as_vector(out, len(r), name)
        for i, row in enumerate(r):
            v, mag = FX[name][0](row)
            ensure(abs(vec[i] - v) <= tolerance(name, row, mag), "{}({}) is {!r} instead of {!r} after {} other calls", name, row, float(vec[i]), v, len(outs))
        outs.append((out, vec.copy()))
    # what earlier calls returned is not overwritten by later ones
    for out, copy in outs:
        ensure(np.array_equal(np.asarray(out, float), copy), "a returned vector changed during later calls")
    return ["repeat" if case["again"] else "once"]


@st.composite
def bulk_case(draw):
    # one function, or each of those defined in d dimensions in turn
    name = draw(st.sampled_from(NAMES + ["*"] * 12))
    d = 2 if name != "*" and not any_d(name) else draw(st.sampled_from([2, 2, 3, 10, 31, 64]))
    return dict(fn=name, d=d, n=draw(st.sampled_from([10, 33, 100, 257, 600, 1030, 2500] if d <= 10 else [10, 33, 100, 257])), seed=draw(gen.seeds), grid=draw(st.booleans()))


@facet("C22", "bulk", bulk_case(), quick=400, shards=4, rule="every case: seeded matrices of 10-2500 rows over the whole domain, for one function or each in turn; every row against the formula")
def c22_bulk(case):
    if case["fn"] == "*":
        names = [f for f in NAMES if any_d(f) or case["d"] == 2]
        for f in names:
            c22_bulk(dict(case, fn=f))
        return ["each", "n=%d" % case["n"]]
    name, n, d = case["fn"], case["n"], case["d"]
    r = np.random.RandomState(case["seed"])
    lo = np.array([a for a, _ in dom(name, d)])
    hi = np.array([b for _, b in dom(name, d)])
    u = r.randint(0, 9, (n, d)) / 8.0 if case["grid"] else r.uniform(0, 1, (n, d))
    x = np.clip(lo + u * (hi - lo), lo, hi)
    keep = x.copy()
    out = as_vector(fn(name)(x), n, name)
    ensure(np.array_equal(x, keep), "{} modified its input", name)
    for i in range(n):
        row = [float(v) for v in keep[i]]
        v, mag = FX[name][0](row)
        ensure(abs(out[i] - v) <= tolerance(name, row, mag), "{}({}) is {!r}, its formula gives {!r} (row {} of {})", name, row, float(out[i]), v, i, n)
    return [name, "n=%d" % n]


INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "bool"]


@st.composite
def typed_case(draw, outside=False):
    name = draw(st.sampled_from([f for f in NAMES if FX[f][1] is not None] if outside else NAMES))
    d = dims(draw, name)
    t = draw(st.sampled_from(INTS))
    tlo, thi = (0, 1) if t == "bool" else (max(np.iinfo(t).min, -(10**5)), min(np.iinfo(t).max, 10**5))
    box = [(max(math.ceil(a), tlo), min(math.floor(b), thi)) for a, b in dom(name, d)]
    if any(a > b for a, b in box):  # bukin6's first coordinate is negative
        t, box = "int16", [(math.ceil(a), math.floor(b)) for a, b in dom(name, d)]
        tlo, thi = -(2**15), 2**15 - 1
    n = draw(st.integers(1, 4))
    m = [[draw(st.one_of(st.integers(a, b), st.sampled_from([a, b]))) for a, b in box] for _ in range(n)]
    if outside:
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, d - 1))
        a, b = dom(name, d)[j]
        far = [v for v in (tlo, thi, math.floor(a) - 1, math.ceil(b) + 1, tlo + 1) if tlo <= v <= thi and not a <= v <= b]
        if not far:
            return dict(fn=name, rows=m, type=t, out=False)
        m[i][j] = draw(st.sampled_from(far))
    return dict(fn=name, rows=m, type=t, out=outside)


@facet("C22", "types", typed_case(), quick=1500, rule="every case: a matrix of integers of 8 to 64 bits, signed or not, or of booleans; every row against the formula")
def c22_types(case):
    name, n = case["fn"], len(case["rows"])
    x = np.array(case["rows"], dtype=case["type"])
    out = as_vector(fn(name)(x), n, name)
    ensure(np.array_equal(x, np.array(case["rows"], dtype=case["type"])), "{} modified its input", name)
    for i, row in enumerate(case["rows"]):
        row = [float(v) for v in row]
        v, mag = FX[name][0](row)
        ensure(abs(out[i] - v) <= tolerance(name, row, mag), "{}({} as {}) is {!r}, its formula gives {!r}", name, row, case["type"], float(out[i]), v)
    return [name, case["type"]]


@facet("C23", "types", typed_case(outside=True), quick=1000, rule="matrices of integer types, counted when they have one coordinate outside the domain")
def c23_types(case):
    name = case["fn"]
    x = np.array(case["rows"], dtype=case["type"])
    try:
        out = fn(name)(x)
    except ValueError:
        ensure(case["out"], "{} rejected {} as {}", name, case["rows"], case["type"])
        return [name, case["type"]]
    ensure(not case["out"], "{} accepted {} as {}", name, case["rows"], case["type"])
    as_vector(out, len(x), name)
    return None


# ---------------------------------------------------------------- C23
@st.composite
def lower_case(draw):
    name = draw(st.sampled_from(NAMES))
    d = dims(draw, name)
    return dict(
        fn=name,
        d=d,
        rows=[draw(point(name, d)) for _ in range(draw(st.integers(1, 5)))],
        seed=draw(gen.seeds),
        near=draw(st.sampled_from([None, 0.0, 0.01, 0.3])),
    )


@facet(
    "C23",
    "minimum",
    lower_case(),
    quick=1000,
    shards=2,
    rule="every case: documented minimisers are evaluated, and a descent from drawn points looks for a lower one",
)
def c23_minimum(case):
    name, d = case["fn"], case["d"]
    f = fn(name)
    low, eps = FX[name][3], FX[name][4]
    mins = minimisers(name, d)
    v = as_vector(f(np.array(mins, float)), len(mins), name)
    at = AT_MIN.get(name, eps)
    for p, u in zip(mins, v):
        ensure(abs(u - low) <= at, "{} is {!r} at its documented minimiser {}, not {!r}", name, float(u), list(p), low)
    # search: shrinking random steps from the given points
    r = np.random.RandomState(case["seed"])
    lo = np.array([a for a, _ in dom(name, d)])
    hi = np.array([b for _, b in dom(name, d)])
    x = np.clip(np.array(case["rows"], float), lo, hi)
    if case["near"] is not None:
        m = np.array(mins[int(r.randint(len(mins)))])
        x = np.clip(np.concatenate([x, [m + case["near"] * r.normal(size=d)]]), lo, hi)
    fx = as_vector(f(x), len(x), name)
    step = (hi - lo) / 4
    for _ in range(25):
        cand = np.clip(x[:, None, :] + step * r.uniform(-1, 1, (len(x), 6, d)), lo, hi)
        fc = as_vector(f(cand.reshape(-1, d)), cand.shape[0] * 6, name).reshape(len(x), 6)
        best = fc.argmin(axis=1)
        k = np.arange(len(x))
        better = fc[k, best] < fx
        x[better] = cand[k, best][better]
        fx[better] = fc[k, best][better]
        step = step * 0.7
    i = int(fx.argmin())
    ensure(fx[i] >= low - eps, "{}({}) is {!r}, below the documented minimum {!r}", name, x[i].tolist(), float(fx[i]), low)
    return [name]


@st.composite
def accept_case(draw):
    name = draw(st.sampled_from(NAMES))
    d = dims(draw, name)
    rows_ = [draw(point(name, d)) for _ in range(draw(st.integers(1, 5)))]
    for i in range(len(rows_)):
        for j in range(d):
            k = draw(st.integers(0, 5))
            if k < 2:
                rows_[i][j] = dom(name, d)[j][k]
    return dict(fn=name, rows=rows_)


def edges(name, rows_):
    d = len(rows_[0])
    box_ = dom(name, d)
    return any(v in box_[j] for r in rows_ for j, v in enumerate(r))


@facet(
    "C23",
    "accept",
    accept_case(),
    quick=2500,
    rule="every matrix lies in the documented domain; tagged when a coordinate is exactly on its boundary",
)
def c23_accept(case):
    name = case["fn"]
    x = np.array(case["rows"], float)
    try:
        out = fn(name)(x)
    except (ValueError, IndexError) as exc:
        raise Violation("%s rejected the in-domain points %s: %s: %s" % (name, case["rows"], type(exc).__name__, exc))
    out = as_vector(out, len(x), name)
    ensure(np.isfinite(out).all(), "{} returned {} inside its domain", name, out.tolist())
    return [name, "edge" if edges(name, case["rows"]) else "inside"]


BOUNDED = [n for n in NAMES if FX[n][1] is not None]
TWO = [n for n in NAMES if not any_d(n)]


@st.composite
def reject_case(draw):
    name = draw(st.sampled_from(BOUNDED))
    d = dims(draw, name)
    rows_ = [draw(point(name, d)) for _ in range(draw(st.integers(1, 6)))]
    i = draw(st.integers(0, len(rows_) - 1))
    j = draw(st.integers(0, d - 1))
    a, b = dom(name, d)[j]
    how = draw(st.sampled_from(["ulp", "tiny", "small", "far", "inf"]))
    up = draw(st.booleans())
    e = {"tiny": 1e-9, "small": draw(st.sampled_from([0.01, 0.5, 1.0])), "far": 1e6, "inf": math.inf}.get(how)
    if how == "ulp":
        v = math.nextafter(b, math.inf) if up else math.nextafter(a, -math.inf)
    else:
        v = b + e if up else a - e
    rows_[i][j] = v
    return dict(fn=name, rows=rows_, where=[i, j, how, "above" if up else "below"])


@facet(
    "C23",
    "reject",
    reject_case(),
    quick=2500,
    rule="every case: exactly one coordinate of one row lies outside the documented domain",
)
def c23_reject(case):
    name = case["fn"]
    x = np.array(case["rows"], float)
    try:
        out = fn(name)(x)
    except ValueError:
        return [name] + case["where"][2:]
    except Exception as exc:
        raise Violation("%s raised %s instead of ValueError for %s" % (name, type(exc).__name__, case["rows"]))
    raise Violation("%s accepted %s (row %d, coordinate %d is outside) and returned %s" % (name, case["rows"], case["where"][0], case["where"][1], np.asarray(out).tolist()))


@st.composite
def dims_case(draw):
    name = draw(st.sampled_from(TWO))
    d = draw(st.sampled_from([1, 3, 4, 5, 8]))
    n = draw(st.integers(1, 5))
    box_ = dom(name, 2)
    lo, hi = max(a for a, _ in box_), min(b for _, b in box_)
    if lo > hi:  # bukin6: the intervals are disjoint, use alternating coordinates
        lo = hi = None
    m = [
        [draw(st.floats(*(box_[j % 2]), allow_nan=False)) if lo is None else draw(st.floats(lo, hi, allow_nan=False)) for j in range(d)]
        for _ in range(n)
    ]
    return dict(fn=name, rows=m)


@facet("C23", "dimensions", dims_case(), quick=500, rule="every matrix has a number of columns other than two")
def c23_dims(case):
    name = case["fn"]
    x = np.array(case["rows"], float)
    try:
        out = fn(name)(x)
    except IndexError:
        return [name, "d=%d" % x.shape[1]]
    except Exception as exc:
        raise Violation("%s raised %s instead of IndexError for %d dimensions" % (name, type(exc).__name__, x.shape[1]))
    raise Violation("%s accepted %d dimensions and returned %s" % (name, x.shape[1], np.asarray(out).tolist()))


# ---------------------------------------------------------------- C24
SCALARS = ["float", "np64", "int", "npint", "zerod", "mixed", "inf", "long", "np32", "bool"]
NONSCALARS = ["list1", "list2", "array1", "arrayd", "arrayn", "tuple", "matrix", "one_row"]


@st.composite
def cost_case(draw):
    n, d = draw(st.integers(1, 7)), draw(st.integers(1, 5))
    kw = draw(
        st.dictionaries(
            st.sampled_from(["a", "b", "x0", "particles_", "n_particles", "cost_func"]),
            st.one_of(gen.nice, st.text(max_size=3), st.lists(gen.nice, max_size=2)),
            max_size=3,
        )
    )
    m = draw(gen.rows(n, d))
    if draw(st.integers(0, 3)) == 0:
        m = [[float(round(min(max(v, -1e6), 1e6))) for v in r] for r in m]
    return dict(
        rows=m,
        dtype=draw(st.sampled_from(["float", "float", "int"])),
        kwargs=kw,
        kind=draw(st.sampled_from(SCALARS)),
        weights=[draw(gen.nice) for _ in range(d)],
        name=draw(st.sampled_from(["f", "my_cost", "cost_dec", "particles"])),
        doc=draw(st.sampled_from([None, "", "What it does.", "line\n\n  more"])),
        layout=draw(st.sampled_from(["C", "F", "view"])),
        again=draw(st.booleans()),
        pad=draw(gen.pad) if draw(st.integers(0, 39)) else dict(n=draw(st.sampled_from([130, 300, 600, 1100])), seed=draw(gen.seeds) % 1000),
    )


def scalar_of(kind, weights, row, i):
    v = float(sum(a * float(b) for a, b in zip(weights, row))) + 0.25 * float(row[0]) ** 2
    if kind == "int":
        return int(math.floor(v))
    if kind == "npint":
        return np.int64(math.floor(v))
    if kind == "np64":
        return np.float64(v)
    if kind == "zerod":
        return np.array(v)
    if kind == "long":  # a type with more digits, for some rows
        return np.longdouble(v) / 3 if math.floor(v) % 2 else v
    if kind == "np32":
        return np.float32(max(min(v, 1e30), -1e30))
    if kind == "bool":
        return v > 0
    if kind == "mixed":
        return int(math.floor(v)) if math.floor(v) % 2 else v
    if kind == "inf":
        return math.inf if v > 0 else v
    return v


@facet(
    "C24",
    "vector",
    cost_case(),
    quick=2000,
    shards=2,
    rule="counted when there are two or more different rows (tags: the kind of scalar, keyword arguments)",
)
def c24_vector(case):
    import pyswarms
    from pyswarms.utils.decorators import cost

    ints = case["dtype"] == "int"
    m = gen.grow(np.array(case["rows"], float), case["pad"]).tolist()
    m = [[int(round(min(max(v, -1e6), 1e6))) for v in r] for r in m] if ints else m
    x = lay(m, case["layout"], ints)
    keep = x.copy()
    n, d = x.shape
    calls = []

    def f(row, **kwargs):
        ensure(isinstance(row, np.ndarray) and row.shape == (d,), "the function was given {!r}, not a row", type(row))
        calls.append((row.copy(), dict(kwargs)))
        ensure(
            list(kwargs) == list(case["kwargs"]) and all(kwargs[k] is case["kwargs"][k] for k in kwargs),
            "the function was given the keyword arguments {} instead of {}", kwargs, case["kwargs"],
        )
        return scalar_of(case["kind"], case["weights"], row, 0)

    f.__name__, f.__doc__ = case["name"], case["doc"]
    ensure(pyswarms.cost is cost, "pyswarms.cost is not the decorator")
    g = pyswarms.cost(f)
    ensure(g.__name__ == case["name"], "the decorated function is called {!r}", g.__name__)
    ensure(g.__doc__ == case["doc"], "the decorated function's docstring is {!r}", g.__doc__)
    want = [float(scalar_of(case["kind"], case["weights"], r, i)) for i, r in enumerate(keep)]
    for _ in range(2 if case["again"] else 1):
        del calls[:]
        out = g(x, **case["kwargs"])
        ensure(isinstance(out, np.ndarray) and out.shape == (n,), "returned {!r}", out)
        ensure([float(v) for v in out] == want, "returned {} instead of {}", out.tolist(), want)
        given = [r.tobytes() for r, _ in calls]
        ensure(
            given == [np.ascontiguousarray(r).tobytes() for r in keep],
            "{} calls for {} particles, or with other rows, or in another order", len(given), n,
        )
        ensure(np.array_equal(x, keep), "the particles were modified")
    if len({tuple(r) for r in m}) < 2:
        return None
    return [case["kind"], "kwargs" if case["kwargs"] else "plain", "ints" if ints else "floats"]


@st.composite
def nonscalar_case(draw):
    return dict(
        n=draw(st.integers(1, 6)),
        d=draw(st.integers(1, 4)),
        kind=draw(st.sampled_from(NONSCALARS)),
        row=draw(st.integers(0, 5)),
        seed=draw(gen.seeds),
    )


@facet("C24", "nonscalar", nonscalar_case(), quick=600, rule="every case: the function returns an array or sequence for all rows, or for one")
def c24_nonscalar(case):
    import pyswarms

    n, d, kind = case["n"], case["d"], case["kind"]
    x = np.random.RandomState(case["seed"]).uniform(-1, 1, (n, d))
    bad = case["row"] % n
    key = x[bad].tobytes()

    def f(row):
        v = float(row.sum())
        return {
            "list1": [v],
            "list2": [v, v],
            "array1": np.array([v]),
            "arrayd": np.array(row),
            "arrayn": np.full(n, v),
            "tuple": (v, v),
            "matrix": np.full((2, 2), v),
            "one_row": [v, v] if row.tobytes() == key else v,
        }[kind]

    try:
        out = pyswarms.cost(f)(x)
    except ValueError:
        return [kind, "n=1" if n == 1 else "n>1"]
    except Exception as exc:
        raise Violation("raised %s instead of ValueError for a function returning %s" % (type(exc).__name__, kind))
    raise Violation("accepted a function returning %s and returned %r" % (kind, out))


@st.composite
def in_run_case(draw):
    s = draw(gen.spec(opts=("global", "local", "general"), max_n=8, max_d=3))
    return dict(spec=s, iters=draw(st.integers(1, 6)), seed=draw(gen.seeds), c=draw(gen.nice))


@facet("C24", "inrun", in_run_case(), quick=300, rule="every case: an optimizer run with a decorated objective against the same run with a vectorised one")
def c24_inrun(case):
    import pyswarms

    s = case["spec"]

    def scalar(x, c=0.0):
        """doc"""
        v = 0.0
        for u in x:
            v += (float(u) - c) ** 2
        return v

    def vector(x, c=0.0):
        out = np.zeros(len(x))
        for j in range(x.shape[1]):
            out += np.array([(float(u) - c) ** 2 for u in x[:, j]])
        return out

    res = []
    for f in (pyswarms.cost(scalar), vector):
        np.random.seed(s["seed"])
        o = gen.mk_optimizer(s)
        np.random.seed(case["seed"])
        r = o.optimize(f, case["iters"], verbose=False, c=case["c"])
        res.append((r, o))
    (a, oa), (b, ob) = res
    ensure(gen.same(a[0], b[0]) and gen.same(a[1], b[1]), "the decorated objective gave {} and the vectorised one {}", a, b)
    for h in gen.HISTS:
        ensure(
            len(getattr(oa, h)) == len(getattr(ob, h)) and all(gen.same(p, q) for p, q in zip(getattr(oa, h), getattr(ob, h))),
            "{} differs between the decorated and the vectorised objective", h,
        )
    return [s["opt"]]
