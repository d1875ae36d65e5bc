"""C22 - identities of the matrix and numeric utilities."""
import math
from fractions import Fraction

import numpy as np

CASES = dict(quick=400, thorough=20000)
RULE = ("random covariance matrices (1-40 rows, full and low rank, badly scaled, zero variances, zero matrices, integer, Fortran order), variations (none, equal, one-sided, "
        "two-sided, crossing, zero bins, integer contents), x*log(y/x) on grids with y within 1 ulp .. 1e300 of x, splits of arrays and lists into random sizes; every "
        "result checked against its defining identity with exact or extended arithmetic; non-trivial = every case; signature = sizes and kinds")
REQUIRED = ["correlations", "zero_variances", "round_trips", "low_rank", "variation_covs", "one_sided_variations", "xlogyx_near", "xlogyx_far", "xlogyx_zero",
            "splits", "open_splits", "ids", "rejections_observed", "integer_matrices", "equal_variations", "integer_nominals", "prefix_names", "xlogyx_broadcast"]
ASSUMPTIONS = ["tolerances of 1e-12 relative (correlations), 1e-13 relative (x log(y/x))"]


def log_ratio(y, x):
    """log(y/x) to better than double precision relative accuracy."""
    r = Fraction(y) / Fraction(x)
    d = r - 1
    if abs(d) < Fraction(1, 1000):
        # log1p series with exact d: enough terms for 1e-18
        s, t = Fraction(0), d
        for k in range(1, 8):
            s += t / k if k % 2 else -t / k
            t *= d
        return float(s)
    m = math.frexp(float(y))[1] - math.frexp(float(x))[1]
    q = Fraction(y) / Fraction(x) / Fraction(2) ** m
    return math.fsum([m * math.log(2.0), math.log(float(q))])


def cov_matrix(ctx, rng):
    n = int(rng.choice([1, 2, 3, 8, 20, 40]))
    kind = str(rng.choice(["full", "lowrank", "scaled", "zeros", "diag", "int", "allzero"], p=[0.25, 0.15, 0.2, 0.2, 0.08, 0.08, 0.04]))
    a = rng.normal(0, 1, (n, n + 2 if kind != "lowrank" else 1))
    C = a @ a.T
    if kind == "lowrank":
        ctx.ev("low_rank")
    if kind == "scaled":
        s = 10 ** rng.uniform(-7, 7, n)
        C = C * np.outer(s, s)
    elif kind == "diag":
        C = np.diag(np.diag(C))
    elif kind == "zeros":
        z = rng.random(n) < 0.4
        C[z] = 0
        C[:, z] = 0
    elif kind == "allzero":
        C = np.zeros((n, n))
    elif kind == "int":
        a = rng.integers(-4, 5, (n, n + 2))
        C = a @ a.T + np.eye(n, dtype=int)
        ctx.ev("integer_matrices")
    C = (C + C.T) / 2 if kind != "int" else C
    if rng.random() < 0.3:
        C = np.asfortranarray(C)
    return kind, C


def case(ctx, i):
    from templatefitter import utility as ut
    from templatefitter.utility import id_to_index
    rng = ctx.rng
    sig = []
    with np.errstate(all="ignore"):
        for _ in range(4):
            kind, C = cov_matrix(ctx, rng)
            n = len(C)
            C0 = C.copy()
            R = np.array(ut.cov2corr(C), dtype=float)
            ctx.same(C, C0, "cov2corr-changes-input")
            v = np.diag(C0).astype(float)
            want = np.zeros((n, n))
            for a in range(n):
                for b in range(n):
                    if v[a] > 0 and v[b] > 0:
                        want[a, b] = C0[a, b] / math.sqrt(v[a]) / math.sqrt(v[b])
            ctx.close(R, want, "correlation", rtol=1e-11, atol=1e-13, kind=kind)
            ctx.close(np.diag(R), (v > 0).astype(float), "correlation-diagonal", rtol=0, atol=1e-12)
            ctx.ev("correlations")
            ctx.ev("zero_variances", int(np.sum(v == 0)))
            v1 = v.copy()
            back = np.array(ut.corr2cov(R, v1), dtype=float)
            ctx.same(v1, v, "corr2cov-changes-input")
            sc = np.sqrt(np.outer(v, v))
            ctx.check(np.all(np.abs(back - C0) <= 1e-11 * sc), "round-trip", f"{np.max(np.abs(back - C0))}", kind=kind)
            # and starting from correlations
            var = 10 ** rng.uniform(-5, 5, n)
            R0 = R.copy()
            D = np.array(ut.corr2cov(R, var), dtype=float)
            ctx.same(R, R0, "corr2cov-changes-input")
            ctx.close(D, R * np.sqrt(np.outer(var, var)), "covariance", rtol=1e-11, atol=1e-300)
            ctx.ev("round_trips")
            sig.append((kind, n))

            # variations
            n = int(rng.choice([1, 2, 6, 30]))
            nom = rng.uniform(0, 100, n)
            vk = str(rng.choice(["two", "one", "cross", "none", "zero", "equal", "some-equal"]))
            s = rng.normal(0, 10, n)
            up = nom + s
            down = nom - s * rng.uniform(0.5, 1.5, n)
            if vk == "one":
                down = nom + s * rng.uniform(0.1, 1.5, n)
                ctx.ev("one_sided_variations")
            elif vk == "cross":
                down = nom + rng.normal(0, 10, n)
            elif vk == "none":
                up, down = nom.copy(), nom.copy()
            elif vk == "equal":       # both variations shift to the same side by the same amount
                down = up.copy()
                ctx.ev("equal_variations")
            elif vk == "some-equal":
                down = np.where(rng.random(n) < 0.5, up, down)
            elif vk == "zero":
                k = rng.random(n) < 0.5
                nom[k] = up[k] = down[k] = 0
            if rng.random() < 0.25:    # contents of unweighted histograms given as integers
                nom = np.rint(nom).astype(rng.choice([np.int64, np.int32]))
                ctx.ev("integer_nominals")
            ins = [nom.copy(), up.copy(), down.copy()]
            V = np.array(ut.get_systematic_cov_mat(nom, up, down))
            for a, b in zip((nom, up, down), ins):
                ctx.same(a, b, "variation-changes-input")
            avg = (np.abs(up - nom) + np.abs(down - nom)) / 2
            sg = np.where(up < down, -1.0, 1.0)
            ctx.close(V, np.outer(sg * avg, sg * avg), "variation-covariance", rtol=1e-12, atol=1e-300, kind=vk)
            ctx.same(V, V.T, "variation-not-symmetric")
            ctx.close(np.diag(V), avg ** 2, "variation-diagonal", rtol=1e-12, atol=1e-300)
            if n > 1:
                w = np.linalg.eigvalsh(V)
                ctx.check(w[0] >= -1e-10 * max(w[-1], 1e-300) and abs(w[-2]) <= 1e-10 * max(w[-1], 1e-300), "variation-not-rank-one", f"{w}")
            ctx.ev("variation_covs")
            sig.append((vk, n))

        # x log(y/x)
        x = np.concatenate([10 ** rng.uniform(-30, 30, 20), rng.integers(1, 10 ** 6, 10).astype(float), np.zeros(4), [1e-90, 1.0, 1e15]])
        m = len(x)
        rel = np.where(rng.random(m) < 0.6, rng.normal(0, 1, m) * 10 ** rng.uniform(-16, -2, m), 0)
        y = np.where(rel != 0, x * (1 + rel), x * 10 ** rng.uniform(-20, 20, m))
        y = np.where(x == 0, 10 ** rng.uniform(-5, 5, m), y)
        y[-3:] = [1e-90, np.nextafter(1.0, 2), np.nextafter(1e15, 0)]
        x0, y0 = x.copy(), y.copy()
        got = np.array(ut.xlogyx(x, y), dtype=float)
        ctx.same(x, x0, "xlogyx-changes-input")
        ctx.same(y, y0, "xlogyx-changes-input")
        for a, b, g in zip(x, y, got):
            a, b, g = float(a), float(b), float(g)
            if a == 0:
                ctx.check(g == 0, "xlogyx-zero", f"{g} for x=0, y={b}")
                ctx.ev("xlogyx_zero")
                continue
            w = a * log_ratio(b, a)
            ctx.check(abs(g - w) <= 1e-13 * abs(w) + 1e-300, "xlogyx", f"{g} instead of {w}", x=a, y=b)
            ctx.ev("xlogyx_near" if abs(b / a - 1) < 1e-2 else "xlogyx_far")
        k = int(rng.integers(m - 3))
        ctx.close(ut.xlogyx(x[k], y[k]), got[k], "xlogyx-scalar", rtol=1e-14, atol=0)
        X = x[:30].reshape(5, 6)
        G = ut.xlogyx(X, y[:6])
        ctx.check(np.shape(G) == (5, 6), "xlogyx-shape")
        ctx.close(G[0], got[:6], "xlogyx-broadcast", rtol=1e-14, atol=0)
        ctx.ev("xlogyx_broadcast")

    # splitting
    n = int(rng.integers(0, 60))
    a = rng.normal(0, 1, n) if rng.random() < 0.7 else list(range(n))
    sizes, left = [], n
    while left > 0 and rng.random() < 0.85:
        k = int(rng.integers(0, left + 1))
        sizes.append(k)
        left -= k
    if rng.random() < 0.4:
        sizes.append(None)
        ctx.ev("open_splits")
    out = list(ut.array_split_into(a, list(sizes)))
    pos = 0
    ctx.check(len(out) == len(sizes), "split-number", f"{len(out)} parts for {sizes}")
    for o, k in zip(out, sizes):
        end = n if k is None else pos + k
        ctx.same(np.asarray(o, dtype=float), np.asarray(a[pos:end], dtype=float), "split-content", sizes=sizes)
        pos = end
    ctx.ev("splits")

    # names and indices
    names = [f"p{k}" for k in rng.permutation(int(rng.integers(1, 13)))]
    if rng.random() < 0.5:      # names contained in each other, in any order
        names = [str(q) for q in rng.permutation(["b_yield", "bb_yield", "b_yield_2", "b", "b_", "yield", "b_yield_22"])]
        ctx.ev("prefix_names")
    for k, q in enumerate(names):
        ctx.check(id_to_index(names, q) == k and id_to_index(names, k) == k, "id-to-index", f"{q} {k}")
        ctx.ev("ids")
    for bad in ("nope", len(names), -1, 1.0, None, "p", "b_yiel", ["p0"]):
        ctx.raises(Exception, lambda: id_to_index(names, bad), "unknown-id-accepted", f"{bad!r}")
    ctx.seen(tuple(sig), n, tuple(sizes))
    ctx.describe(kinds=sig, split=(n, sizes))
