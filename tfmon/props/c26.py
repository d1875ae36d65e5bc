"""C26 - the likelihood at its boundaries: empty bins, vanishing expectations, huge and nearly equal counts, convexity."""
import math

import numpy as np

from .. import gen
from .c06 import channel_args

CASES = dict(quick=400, thorough=20000)
RULE = ("random models with bins empty in one, several or all templates, wholly empty templates, contents from 1e-6 to 1e12 and yields of 0, 1e-200 to "
        "1e15; data absent, equal to the expectation, equal up to relative 1e-14..1e-2, in bins without expectation, Poissonian, fractional, huge; each "
        "evaluated at many boundary parameter vectors through the cost function and the channels and compared term by term in extended precision; convexity and "
        "quadratic-form identities on random chords; non-trivial = a boundary situation was reached; signature = contents, data mode and situations")
REQUIRED = ["values", "empty_data_bins", "zero_expectation_bins", "zero_zero_bins", "infinite_values", "asimov_zeros", "near_equal_values",
            "large_count_values", "empty_templates", "convex_chords", "infinite_chords", "quadratic_identities", "constraint_terms", "two_dim_models",
            "zero_yields", "tiny_yields", "huge_yields", "all_zero_models", "channel_values", "negative_expectations"]
ASSUMPTIONS = ["at negative expectations only values in bins with data are judged, and only that they are not finite", "rounding allowance: 1e-12 of |expectation - data| summed over the bins plus 1e-12 of the value"]


def term(n, nu):
    """nu - n - n log(nu/n) with full relative precision."""
    n, nu = float(n), float(nu)
    if n == 0:
        return nu
    if nu == 0:
        return math.inf
    if 0.5 < nu / n < 2:
        d = (nu - n) / n
        if abs(d) < 1e-2:     # n (d - log(1+d)) by its series, free of cancellation
            s, t = 0.0, d * d
            for k in range(2, 14):
                s += t / k if k % 2 == 0 else -t / k
                t *= d
            return n * s
        return n * (d - math.log1p(d))
    return (nu - n) - n * (math.log(nu) - math.log(n))


def boundary_spec(ctx, rng):
    scale = 10.0 ** float(rng.choice([-6, 0, 0, 2, 3, 3, 6, 9, 12]))
    s = gen.rand_spec(rng, bins=(1, 7), max_channels=3, max_proc=3, data=False, variations=False, constraints=False, n_events=(20, 200))
    kinds = []
    for ch in s.channels:
        shape = [len(e) - 1 for e in ch["edges"]]
        n = int(np.prod(shape))
        dead = rng.random(n) < float(rng.choice([0, 0, 0.3, 0.6]))       # bins empty in all templates
        for t in ch["templates"]:
            c = rng.uniform(0.05, 1, n) * scale * 10
            z = rng.choice(["full", "holes", "empty"], p=[0.5, 0.4, 0.1])
            if z == "holes":
                c[rng.random(n) < 0.5] = 0
            c[dead] = 0
            if z == "empty":
                c[:] = 0
            if not c.any():
                ctx.ev("empty_templates")
                z = "empty"
            kinds.append(str(z))
            t.update(kind="binned", counts=c.reshape(shape), errors=(np.sqrt(c) * rng.uniform(0.2, 1.2) + rng.choice([0, 0.1])).reshape(shape), variations=[])
    ctx.ev("two_dim_models", int(any(c["dim"] == 2 for c in s.channels)))
    return s, scale, kinds


def put_data(ctx, rng, s, rm, x):
    mode = str(rng.choice(["none", "asimov", "near", "dead", "poisson", "float", "huge", "mixed"]))
    for ch in s.channels:
        nu = rm.expectation(x, ch["name"])
        if mode == "none":
            d = np.zeros_like(nu)
        elif mode == "asimov":
            d = nu.copy()
        elif mode == "near":
            d = nu * (1 + 10.0 ** rng.uniform(-14, -2) * rng.normal(0, 1, nu.shape).clip(-2, 2))
        elif mode == "dead":
            d = np.where(nu == 0, rng.integers(0, 3, nu.shape), 0).astype(float)
        elif mode == "poisson":
            d = rng.poisson(np.minimum(nu, 1e15)).astype(float)
        elif mode == "float":
            d = nu * rng.uniform(0, 2, nu.shape)
        elif mode == "huge":
            d = rng.integers(10 ** 12, 10 ** 15, nu.shape).astype(float)
        else:
            d = np.where(rng.random(nu.shape) < 0.4, 0, nu * rng.choice([1.0, 0.5, 1 + 1e-9], nu.shape))
        ch["data"] = d.reshape([len(e) - 1 for e in ch["edges"]])
    return mode


def want(rm, x, inv):
    lay, _ = rm.layout()
    terms, tol, flags = [], 0.0, dict(empty=0, zero=0, zz=0, neg=0)
    for c in rm.channels.values():
        nu = rm.expectation(x, c.name)
        d = np.ravel(c.data)
        if np.any(nu < 0) or not np.all(np.isfinite(nu)):
            flags["neg"] += 1
            continue
        flags["empty"] += int(np.sum((d == 0) & (nu > 0)))
        flags["zero"] += int(np.sum((d > 0) & (nu == 0)))
        flags["zz"] += int(np.sum((d == 0) & (nu == 0)))
        terms += [term(n, m) for n, m in zip(d, nu)]
        tol += 1e-12 * float(np.sum(np.abs(nu - d) + 4e-15 * nu))
        for p, t in c.templates.items():
            th = x[lay[c.name, p]]
            g = 0.5 * float(th @ inv[c.name, p] @ th)
            terms.append(g)
            tol += 1e-9 * 0.5 * float(np.abs(th) @ np.abs(inv[c.name, p]) @ np.abs(th))
    for p, (v, e) in rm.constraints.items():
        k = 0.5 * (x[rm.processes.index(p)] - v) ** 2 / e ** 2
        terms.append(k)
        tol += 1e-10 * k
    v = math.inf if any(t == math.inf for t in terms) else math.fsum(terms)
    return v, tol + (1e-12 * abs(v) if math.isfinite(v) else 0) + 1e-300, flags


def observe(ctx, m, rm, nll, x, inv, key="value"):
    v, tol, flags = want(rm, x, inv)
    if flags["neg"]:
        def judged(nu, d):      # (a rounded ratio of zero says nothing about the sign)
            return (nu < -1e-6 * np.max(np.abs(x))) & (d > 1e-9 * np.abs(nu))
        some = any(np.any(judged(rm.expectation(x, c.name), np.ravel(c.data))) for c in rm.channels.values())
        lost = any(np.any((rm.expectation(x, c.name) < 0) & (np.ravel(c.data) > 0) & ~judged(rm.expectation(x, c.name), np.ravel(c.data))) for c in rm.channels.values())
        if some and not lost:
            got = nll(np.array(x))      # events where fewer than none are expected: no value that could be a minimum
            ctx.check(not np.isfinite(got) and got != -math.inf, "finite-at-negative-expectation", f"{got}", x=x)
            ctx.ev("negative_expectations")
        return None, None
    got = nll(np.array(x))
    ctx.check(not np.isnan(got), "nan", f"{got}", x=x, want=v, data=[c.data for c in rm.channels.values()])
    ctx.check(got != -math.inf, "minus-infinity", f"{got}", x=x, want=v)
    if v == math.inf:
        ctx.check(got == math.inf, "data-without-expectation", f"{got} instead of infinity", x=x)
        ctx.ev("infinite_values")
    else:
        ctx.check(abs(got - v) <= tol, key, f"{got} instead of {v} (allowed {tol})", x=x)
    if not rm.constraints:
        ctx.check(got >= -tol, "negative", f"{got}", x=x, allowed=tol)
    ctx.ev("values")
    ctx.ev("empty_data_bins", flags["empty"])
    ctx.ev("zero_expectation_bins", flags["zero"])
    ctx.ev("zero_zero_bins", flags["zz"])
    parts = 0.0
    for name, ch in m.channels.items():
        y, th = channel_args(rm, x, name)
        p = ch.nll_contribution(y, th)
        ctx.check(not np.isnan(p) and p != -math.inf, "channel-nan", f"{name}: {p}")
        parts = parts + p
        ctx.ev("channel_values")
    if not rm.constraints:
        ctx.check(parts == got or abs(parts - got) <= tol, "sum-of-channels", f"{parts} {got}")
    return got, tol


def case(ctx, i):
    rng = ctx.rng
    with np.errstate(all="ignore"):
        s, scale, kinds = boundary_spec(ctx, rng)
        rm = s.reference()
        n0 = len(rm.processes)
        base = np.concatenate([10 * scale * rng.uniform(1, 50, n0), np.zeros(rm.npar - n0)])
        mode = put_data(ctx, rng, s, rm, base)
        rm = s.reference()
        inv = rm.inv_cache()
        m = s.build()
        nll = m.create_nll()
        situ = set()

        # expectation equal to the data
        v, tol = observe(ctx, m, rm, nll, base, inv)
        if mode == "asimov":
            ctx.check(abs(v) <= tol, "asimov-not-zero", f"{v}")
            ctx.ev("asimov_zeros")
        if mode == "near":
            ctx.ev("near_equal_values")
        if scale >= 1e9 or mode == "huge":
            ctx.ev("large_count_values")
        situ.add((mode, v == math.inf))

        # boundary vectors
        for k in range(8):
            x = base.copy()
            what = str(rng.choice(["zero", "allzero", "tiny", "huge", "scaled", "nearby", "nui", "negative"]))
            j = rng.integers(0, n0, int(rng.integers(1, n0 + 1)))
            if what == "zero":
                x[j] = 0
                ctx.ev("zero_yields")
            elif what == "allzero":
                x[:n0] = 0
                ctx.ev("zero_yields")
            elif what == "tiny":
                x[j] = 10.0 ** rng.uniform(-200, -5)
                ctx.ev("tiny_yields")
            elif what == "huge":
                x[j] = 10.0 ** rng.uniform(10, 15)
                ctx.ev("huge_yields")
            elif what == "negative":
                x[j] *= -rng.uniform(0.01, 3)
            elif what == "scaled":
                x[:n0] *= rng.uniform(0, 3, n0)
            elif what == "nearby":
                x[:n0] *= 1 + 10.0 ** rng.uniform(-14, -3) * rng.normal(0, 1, n0)
                ctx.ev("near_equal_values")
            if what == "nui" or rng.random() < 0.3:
                x[n0:] = rng.normal(0, 0.3, rm.npar - n0)
            v, _ = observe(ctx, m, rm, nll, x, inv)
            if v is not None:
                situ.add((what, v == math.inf))

        # convexity in the yields
        for _ in range(4):
            th = np.zeros(rm.npar - n0) if rng.random() < 0.5 else rng.normal(0, 0.2, rm.npar - n0)
            a = np.concatenate([base[:n0] * rng.choice([0, 1e-6, 1, 1], n0) * rng.uniform(0, 3, n0), th])
            b = np.concatenate([base[:n0] * rng.choice([0, 1e-3, 1, 10], n0) * rng.uniform(0, 3, n0), th])
            l = rng.uniform(0.05, 0.95)
            c = np.concatenate([l * a[:n0] + (1 - l) * b[:n0], th])
            r = [observe(ctx, m, rm, nll, q, inv) for q in (a, b, c)]
            if any(q[0] is None for q in r):
                continue
            (fa, ta), (fb, tb), (fc, tc) = r
            if fa == math.inf or fb == math.inf:
                ctx.ev("infinite_chords")
            else:
                ctx.check(fc <= l * fa + (1 - l) * fb + ta + tb + tc, "not-convex", f"{fc} between {fa} and {fb}", a=a, b=b, part=l)
            ctx.ev("convex_chords")

        # without events the nuisance terms are all that is left: a quadratic form
        for ch in s.channels:
            ch["data"] = np.zeros([len(e) - 1 for e in ch["edges"]])
        m0 = s.build()
        f = m0.create_nll()
        z = np.zeros(rm.npar)
        ctx.check(f(z) == 0, "empty-model-not-zero", f"{f(z)}")
        ctx.ev("all_zero_models")
        a, b = (np.concatenate([np.zeros(n0), rng.normal(0, 0.1, rm.npar - n0)]) for _ in range(2))
        fa, fb, fp, fm, f2 = (float(f(q)) for q in (a, b, a + b, a - b, 2 * a))
        big = max(abs(q) for q in (fa, fb, fp, fm, f2)) * (1 + max(np.abs(c).sum() for c in inv.values())) * 1e-10 + 1e-300
        ctx.check(abs(f2 - 4 * fa) <= big, "not-quadratic", f"{f2} {fa}")
        ctx.check(abs(fp + fm - 2 * fa - 2 * fb) <= big, "not-quadratic", f"{fp} {fm} {fa} {fb}")
        ctx.check(min(fa, fb, fp, fm) >= 0, "negative-nuisance-term", f"{fa} {fb} {fp} {fm}")
        ctx.ev("quadratic_identities")

        # a constraint adds its term, also where the rest vanishes or is infinite
        p = str(rng.choice(s.processes))
        v, e = float(rng.choice([0.0, 10.0, base[0]])), float(10 ** rng.uniform(-2, 3))
        s.constraints.append((p, v, e))
        rm2 = s.reference()
        mc = s.build()
        fc = mc.create_nll()
        for x in (z, base):
            observe(ctx, mc, rm2, fc, x, inv, key="constrained-value")
            ctx.ev("constraint_terms")
    ctx.seen(round(math.log10(scale)), tuple(kinds), tuple(sorted(map(str, situ))))
    ctx.describe(scale=scale, templates=kinds, data=mode, situations=sorted(map(str, situ)))
