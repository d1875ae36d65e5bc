"""C05 - accumulation of template covariances over histories of systematics."""
import numpy as np

from .. import gen, ref
from .c01 import container
from .c04 import template_case

CASES = dict(quick=700, thorough=10000)
RULE = ("random 1D/2D templates (uniform and not, empty bins), 1-6 operations out of: variation of weights (two-sided, one-sided, crossing, "
        "zero, normalisation; arrays, lists, series), covariance matrices, matrices of wrong shape, later modification of passed matrices; "
        "all matrices compared after each; non-trivial = two or more contributions; signature = binning, kind, sequence of operations")
REQUIRED = ["variations", "matrices", "rejected_matrices", "inverse_checks", "order_checks", "negative_signs"]


def make_var(rng, spec, ch, t):
    """Raw variation input: event columns with up/down weights."""
    if t["kind"] == "binned" or rng.random() < 0.3:
        mids = [(a[1:] + a[:-1]) / 2 for a in ch["edges"]]
        g = np.meshgrid(*mids, indexing="ij")
        d, w = [x.ravel() for x in g], spec.ref_content(ch, t)[0].ravel().copy()
    else:
        d = [np.array(a) for a in t["data"]]
        w = np.ones(len(d[0])) if t["weights"] is None else np.array(t["weights"], dtype=float)
    n = len(w)
    kind = str(rng.choice(["two", "one", "cross", "free", "norm", "zero"]))
    s = rng.uniform(0.02, 0.3)
    r = np.clip(rng.normal(0, 1, n), -2, 2)
    e0 = ch["edges"][0]
    u = (d[0] - e0[0]) / (e0[-1] - e0[0]) - 0.5
    if kind == "two":
        up, dn = w * (1 + s * u), w * (1 - s * u)
    elif kind == "one":
        up, dn = w * (1 + s * u), w * (1 + 0.3 * s * u)
    elif kind == "cross":
        up, dn = w * (1 + s * np.sin(9 * u)), w * (1 - 0.5 * s * np.sin(9 * u))
    elif kind == "free":
        up, dn = w * (1 + s * r), w * (1 + s * r[::-1])
    elif kind == "norm":
        up, dn = w * (1 + s), w * (1 - s / 2)
    else:
        up, dn = w.copy(), w.copy()
    return d, up, dn, kind


def case(ctx, i):
    rng = ctx.rng
    spec = gen.Spec()
    ch, t, kind = template_case(rng, empty_ok=False)
    while t.get("no_variations"):
        ch, t, kind = template_case(rng, empty_ok=False)
    T, R = spec.template(ch, t, False), spec.ref_template(ch, t, False)
    nom, n = R.counts, R.nbins
    history = []

    def compare(op):
        C = R.cov
        d = np.sqrt(np.diag(C))
        at = 1e-9 * np.outer(d, d)
        ctx.close(T.cov_mat, C, "covariance", rtol=1e-8, atol=at, msg=op)
        mats = T.cov_mats
        ctx.check(len(mats) == len(R.contributions), "contributions", f"{len(mats)} listed, {len(R.contributions)} added after {op}")
        for a, b in zip(mats, R.contributions):
            ctx.close(a, b, "contributions", rtol=1e-8, atol=at, msg=op)
        corr = R.corr
        ctx.close(T.corr, corr, "correlation", rtol=1e-7, atol=1e-8, msg=op)
        cond = np.linalg.cond(corr)
        if cond < 1e8:
            ctx.close(np.asarray(T.corr) @ np.asarray(T.inv_corr_mat), np.eye(n), "inverse-correlation", atol=1e-8 * max(1, cond / 10), msg=op)
            ctx.close(T.inv_corr_mat, np.linalg.inv(corr), "inverse-correlation", rtol=1e-6, atol=1e-8 * cond, msg=op)
            ctx.ev("inverse_checks")
        # the relative errors, seen through errors and fractions
        T.reset()
        ctx.close(np.ravel(T.errors), np.where(nom != 0, d, 0), "relative-errors", rtol=1e-7, atol=1e-9 * (1 + np.abs(nom).sum()), msg=op)
        th = rng.normal(0, 0.3, n)
        r = np.array(R.raw(th))
        if abs(r.sum()) > 0.05 * np.abs(r).sum():
            ctx.close(T.fractions(th), R.fractions(th), "relative-errors:fractions", rtol=1e-7, atol=1e-9, msg=op)

    compare("start")
    applied = []
    for step in range(int(rng.integers(12, 30)) if n < 20 and rng.random() < 0.04 else int(rng.integers(1, 7))):
        op = str(rng.choice(["variation", "variation", "matrix", "bad"]))
        if op == "variation":
            d, up, dn, vk = make_var(rng, spec, ch, t)
            binned = (lambda w: ref.bin1d(d[0], w, ch["edges"][0])[0]) if ch["dim"] == 1 else (lambda w: ref.bin2d(d[0], d[1], w, *ch["edges"])[0].ravel())
            hu, hd = binned(up), binned(dn)
            tie = (hu != hd) & (np.abs(hu - hd) <= 1e-10 * (np.abs(hu) + np.abs(hd)))
            if tie.any():
                continue   # the sign is decided by rounding
            ck = str(rng.choice(["array", "list", "series", "readonly"]))
            dd = [container(rng, a, ck) for a in d]
            a, b = container(rng, up, ck), container(rng, dn, ck)
            T.add_variation(dd[0] if ch["dim"] == 1 else tuple(dd), a, b)
            ctx.same(np.asarray(a), up, "input-modified"); ctx.same(np.asarray(b), dn, "input-modified")
            for p, q in zip(dd, d):
                ctx.same(np.asarray(p), q, "input-modified")
            R.add(ref.variation_cov(nom, hu, hd))
            applied.append(("v", d, up, dn))
            ctx.ev("variations"); ctx.ev("negative_signs", int((hu < hd).any()))
            history.append(vk)
        elif op == "matrix":
            m = rng.normal(0, 0.1, (n, n)) * (np.abs(nom)[:, None] + 0.5)
            m = m @ m.T / n
            given = m.copy()
            T.add_cov_mat(given)
            ctx.same(given, m, "input-modified:matrix")
            given[:] = 1e9   # must not matter any more
            R.add(m)
            applied.append(("m", m))
            ctx.ev("matrices")
            history.append("m")
        else:
            bad = [np.ones((n + 1, n + 1)), np.ones((n, n + 1)), np.ones(n), np.ones((1, n, n))][int(rng.integers(4))]
            ctx.raises(Exception, lambda: T.add_cov_mat(bad), "wrong-shape-accepted")
            ctx.ev("rejected_matrices")
            history.append("bad")
        compare(f"step {step} {history[-1]}")
    if len(applied) >= 2:
        T2 = spec.template(ch, t, False)
        for k in rng.permutation(len(applied)):
            a = applied[k]
            if a[0] == "m":
                T2.add_cov_mat(a[1].copy())
            else:
                T2.add_variation(a[1][0] if ch["dim"] == 1 else tuple(a[1]), a[2], a[3])
        s = np.sqrt(np.diag(R.cov))
        ctx.close(T2.cov_mat, T.cov_mat, "order-dependence", rtol=1e-8, atol=1e-9 * np.outer(s, s))
        ctx.ev("order_checks")
        ctx.seen(ch["dim"], ch["bins"], ch["uniform"], kind, tuple(history))
    # a second template of the same histogram is untouched by all of this
    T3 = spec.template(ch, t, False)
    ctx.close(T3.cov_mat, R.contributions[0], "shared-state", rtol=1e-9, atol=1e-15)
    ctx.check(len(T3.cov_mats) == 1, "shared-state")
    ctx.describe(dim=ch["dim"], bins=ch["bins"], uniform=ch["uniform"], kind=kind, history=history)
