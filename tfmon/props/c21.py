"""C21 - goodness-of-fit statistics and p-values against exact summation and the closed-form chi-square tail."""
import math

import numpy as np

from .. import ref

CASES = dict(quick=400, thorough=20000)
RULE = ("random data and expectations (1-400 and 6000 bins, 1D and 2D, integer and float, with empty data bins, equal, close and far apart, tiny and up to 1e9 "
        "counts), degrees of freedom 1-10000; statistics recomputed with fsum, tail probabilities from the finite series of the incomplete gamma "
        "function; ordering of p-values along sequences of growing deviation; inputs watched for changes; non-trivial = statistic above zero; "
        "signature = input class and size")
REQUIRED = ["pearson", "cowan", "empty_bins", "all_bins_empty", "equal_inputs", "nearly_equal_inputs", "integer_inputs", "two_dim_inputs", "tiny_p_values",
            "large_p_values", "odd_dof", "even_dof", "monotonic_pairs", "large_counts", "general_chi2"]
ASSUMPTIONS = ["expectations are positive for the Pearson statistic", "statistics within 1e-9 of the summed magnitudes, p-values within 1e-8 relative (1e-6 below 1e-100) given the statistic"]


def upper_tail(x, dof):
    """P(chi2_dof > x) by the finite series, in logarithms."""
    if x <= 0:
        return 1.0
    h = x / 2
    terms = []
    if dof % 2:
        base = math.erfc(math.sqrt(h))
        if base > 0:
            terms.append(math.log(base))
        else:   # asymptotic expansion of erfc
            z = math.sqrt(h)
            terms.append(-h - math.log(z * math.sqrt(math.pi)) + math.log1p(-1 / (2 * h) + 3 / (4 * h * h)))
        k = 0.5
    else:
        terms.append(-h)
        k = 1.0
    while k < dof / 2:
        terms.append(k * math.log(h) - h - math.lgamma(k + 1))
        k += 1
    m = max(terms)
    return math.exp(m + math.log(math.fsum(math.exp(t - m) for t in terms)))


def inputs(ctx, rng):
    two = rng.random() < 0.2
    shape = (int(rng.integers(1, 12)), int(rng.integers(1, 12))) if two else (int(rng.choice([1, 2, 5, 20, 100, 400, 6000], p=[.17, .17, .17, .17, .16, .12, .04])),)
    if two:
        ctx.ev("two_dim_inputs")
    kind = str(rng.choice(["poisson", "sparse", "empty", "equal", "near", "far", "large", "float", "tiny"]))
    nu = rng.uniform(0.3, 60, shape)
    if kind == "sparse":
        nu = rng.uniform(0.01, 2, shape)
    elif kind == "large":
        nu = rng.uniform(1e5, 1e9, shape)
        ctx.ev("large_counts")
    elif kind == "tiny":
        nu = 10 ** rng.uniform(-12, 0, shape)
    d = rng.poisson(nu).astype(float)
    if kind == "empty":
        d[...] = 0
        ctx.ev("all_bins_empty")
    elif kind == "equal":
        nu = np.maximum(d, 1.0)
        d = nu.copy()
        ctx.ev("equal_inputs")
    elif kind == "near":
        d = np.maximum(d, 1.0)
        nu = d * (1 + rng.normal(0, 10.0 ** rng.uniform(-14, -3), shape))
        ctx.ev("nearly_equal_inputs")
    elif kind == "far":
        d = rng.poisson(nu * rng.uniform(0.1, 6)).astype(float)
    elif kind == "float":
        d = nu * rng.uniform(0, 2, shape)
    if kind in ("poisson", "sparse", "far", "large") and rng.random() < 0.5:
        d = d.astype(rng.choice([np.int64, np.int32]))
        ctx.ev("integer_inputs")
        if rng.random() < 0.3:
            nu = np.maximum(np.rint(nu), 1).astype(np.int64)
    ctx.ev("empty_bins", int(np.sum(d == 0)))
    return kind, d, nu


def case(ctx, i):
    from templatefitter import stats
    rng = ctx.rng
    classes = []
    for _ in range(6):
        kind, d, nu = inputs(ctx, rng)
        dof = int(rng.choice([1, 2, 3, max(1, d.size - 1), d.size, int(rng.integers(1, 401)), int(10 ** rng.uniform(2.5, 4))], p=[.15, .15, .15, .15, .15, .15, .1]))
        fd, fn = d.astype(float), nu.astype(float)
        d0, nu0 = d.copy(), nu.copy()
        want = {}
        pt = [(a - b) ** 2 / b for a, b in zip(fd.ravel(), fn.ravel())]
        want["pearson"] = (math.fsum(pt), math.fsum(pt) * 1e-11 + 1e-300)
        ct = [2 * ref.poisson_term(a, b) for a, b in zip(fd.ravel(), fn.ravel())]
        want["cowan"] = (math.fsum(ct), 1e-14 * math.fsum(np.ravel(fd + fn)) * 4)
        for name, fn_ in (("pearson", stats.pearson_chi2_test), ("cowan", stats.cowan_binned_likelihood_gof)):
            got = fn_(d, nu, dof)
            ctx.check(len(got) == 3, name + ":number-of-values")
            c, r, p = (float(v) for v in got)
            w, tol = want[name]
            info = dict(kind=kind, bins=d.size, dof=dof)
            ctx.check(abs(c - w) <= 1e-9 * abs(w) + tol, name + ":statistic", f"{c} instead of {w}", **info)
            ctx.check(abs(r - c / dof) <= 1e-12 * (1 + abs(r)), name + ":per-dof", f"{r} instead of {c / dof}", **info)
            ctx.check(0 <= p <= 1, name + ":p-value-range", f"{p}", **info)
            q = upper_tail(c, dof)
            rel = 1e-8 if q > 1e-100 else 1e-6
            ctx.check(abs(p - q) <= rel * q + 1e-290, name + ":p-value", f"{p} instead of {q} for {c}", **info)
            ctx.ev("tiny_p_values", int(0 < p < 1e-20))
            ctx.ev("large_p_values", int(p > 0.9))
            ctx.ev(name)
            ctx.ev("odd_dof" if dof % 2 else "even_dof")
            classes.append((kind, d.shape, dof, w > 0))
        ctx.same(d, d0, "data-changed")
        ctx.same(nu, nu0, "expectation-changed")
        # growing deviations: growing statistics, falling p-values
        last = None
        base = np.maximum(fn, 0.5)
        step = rng.uniform(0.1, 1, base.shape) * np.sqrt(base)
        fun = stats.pearson_chi2_test if rng.random() < 0.5 else stats.cowan_binned_likelihood_gof
        for t in np.sort(rng.uniform(0.05, 6, 4)):
            c, _, p = fun(base + t * step, base, dof)
            if last is not None:
                ctx.check(c > last[0] * (1 - 1e-9) and p <= last[1] * (1 + 1e-9), "not-monotonic", f"{last} then {c, p}", dof=dof)
                ctx.ev("monotonic_pairs")
            last = (c, p)
        # chi-square with given uncertainties
        u = rng.uniform(0.1, 5, d.shape)
        c, r, p = stats.default_chi2_test(fd, fn, u, dof)
        w = math.fsum(((a - b) / e) ** 2 for a, b, e in zip(fd.ravel(), fn.ravel(), u.ravel()))
        ctx.check(abs(c - w) <= 1e-9 * w + 1e-300 and abs(r - c / dof) <= 1e-12 * (1 + r), "general:statistic", f"{c} instead of {w}")
        q = upper_tail(float(c), dof)
        ctx.check(abs(p - q) <= (1e-8 if q > 1e-100 else 1e-6) * q + 1e-290, "general:p-value", f"{p} instead of {q}")
        ctx.ev("general_chi2")
    ctx.seen(tuple(classes))
    ctx.describe(classes=classes[:6])
