"""Statistical decisions with negligible false-alarm probability.

Every test is run on a sample that is a function of the case's seed; with the
thresholds below a correct implementation fails with probability < 1e-8 per test."""
import numpy as np
from scipy import stats as ss

from core import ensure

P_MIN = 1e-10
Z_MAX = 6.8


def uniform01(r, what, lo=0.0, hi=1.0, slack=1e-9):
    r = np.asarray(r, float).ravel()
    ensure(np.isfinite(r).all(), "{}: not finite", what)
    w = hi - lo
    ensure(
        (r >= lo - slack * w).all() and (r <= hi + slack * w).all(),
        "{}: values {}..{} outside [{}, {})",
        what,
        float(r.min()),
        float(r.max()),
        lo,
        hi,
    )
    if len(r) >= 30:
        p = ss.kstest((r - lo) / w, "uniform").pvalue
        ensure(p > P_MIN, "{}: {} draws are not uniform (Kolmogorov-Smirnov p={:.3g})", what, len(r), float(p))


def all_distinct(r, what, digits=None, allowed=0):
    r = np.asarray(r, float).ravel()
    if digits is not None:
        r = np.round(r, digits)
    rep = len(r) - len(np.unique(r))
    # chance repetitions among values with this resolution
    cells = 2.0 ** 52 if digits is None else 10.0 ** digits
    allowed = max(allowed, int(ss.poisson.isf(1e-11, len(r) ** 2 / (2 * cells))))
    ensure(rep <= allowed, "{}: {} of {} draws repeat another one: not drawn independently", what, rep, len(r))


def uncorrelated(a, b, what):
    """a, b: paired samples; under independence z ~ N(0, 1)."""
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    if len(a) < 50 or a.std() == 0 or b.std() == 0:
        return
    z = np.corrcoef(a, b)[0, 1] * np.sqrt(len(a))
    ensure(abs(z) < Z_MAX, "{}: correlated (z={:.2f}, {} pairs)", what, float(z), len(a))


def independent_matrix(u, what):
    """u: (n, d) matrix of supposedly independent continuous draws."""
    all_distinct(u, what)
    if u.shape[0] > 1:
        uncorrelated(u[1:], u[:-1], what + ": neighbouring rows")
    if u.shape[1] > 1:
        uncorrelated(u[:, 1:], u[:, :-1], what + ": neighbouring columns")


def joint(u, what, group=None, z_max=7.4):
    """u: (T, m) with T independent repetitions of m supposedly independent draws:
    no two components are correlated, within a repetition or with the next one, as they
    are, folded about the middle, or by their second digit. group: components with the
    same label are not compared with each other within a repetition."""
    u = np.asarray(u, float)
    T, m = u.shape
    group = np.arange(m) if group is None else np.asarray(group)
    lo, hi = u.min(), u.max()
    if T < 100 or lo == hi:
        return
    t = (u - lo) / (hi - lo)
    feats = [t, np.abs(t - 0.5)]
    if len(np.unique(u)) > 50:
        feats.append((t * 8) % 1)
    F = np.concatenate([f for f in feats if f.std() > 0], axis=1)
    col = np.tile(np.arange(m), F.shape[1] // m)
    keep = F.std(axis=0) > 0
    F, col = F[:, keep], col[keep]
    F = (F - F.mean(axis=0)) / F.std(axis=0)
    same_group = group[col][:, None] == group[col][None, :]
    for lag, C in ((0, F.T @ F), (1, F[1:].T @ F[:-1])):
        z = C / np.sqrt(T)
        if lag == 0:
            z = np.where(same_group, 0.0, z)
        i, j = np.unravel_index(np.abs(z).argmax(), z.shape)
        ensure(
            abs(z[i, j]) < z_max,
            "{}: component {} and component {}{} are dependent (z={:.2f}, {} repetitions)",
            what, int(col[i]), int(col[j]), " of the repetition before" if lag else "", float(z[i, j]), T,
        )


def residuals(R, V, what, z_max=7.4, min_var=30.0, pairs=None):
    """R: (T, m) residuals of independent draws with variances V: no two components are
    correlated within a repetition, nor any with any of the repetition before."""
    for lag in (0, 1):
        a, b = (R, R) if lag == 0 else (R[1:], R[:-1])
        va, vb = (V, V) if lag == 0 else (V[1:], V[:-1])
        num, var = a.T @ b, va.T @ vb
        z = np.where(var > min_var, num / np.sqrt(np.maximum(var, 1e-300)), 0.0)
        if lag == 0:
            np.fill_diagonal(z, 0.0)
            if pairs is not None:
                z = np.where(pairs, z, 0.0)
        i, j = np.unravel_index(np.abs(z).argmax(), z.shape)
        ensure(
            abs(z[i, j]) < z_max,
            "{}: component {} and component {}{} are dependent (z={:.2f}, {} repetitions)",
            what, int(i), int(j), " of the repetition before" if lag else "", float(z[i, j]), len(R),
        )


def bernoulli(bits, p, what, min_var=40.0):
    """bits independent with probabilities p: test the sum of residuals."""
    bits, p = np.asarray(bits, float).ravel(), np.asarray(p, float).ravel()
    var = (p * (1 - p)).sum()
    res = (bits - p).sum()
    sure = (p < 1e-14) & (bits == 1) | (p > 1 - 1e-14) & (bits == 0)
    ensure(not sure.any(), "{}: a bit of probability ~0 occurred", what)
    if var < min_var:
        return False
    z = res / np.sqrt(var)
    ensure(
        abs(z) < Z_MAX,
        "{}: {} of {} bits are set, expected {:.1f} (z={:.2f})",
        what,
        int(bits.sum()),
        len(bits),
        float(p.sum()),
        float(z),
    )
    return True


def products(ra, rb, va, vb, what, min_var=40.0):
    """Paired residuals with variances va, vb: zero mean product if independent."""
    num = (np.asarray(ra) * np.asarray(rb)).sum()
    var = (np.asarray(va) * np.asarray(vb)).sum()
    if var < min_var:
        return False
    z = num / np.sqrt(var)
    ensure(abs(z) < Z_MAX, "{}: correlated bits (z={:.2f})", what, float(z))
    return True
