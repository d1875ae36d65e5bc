"""C16 - profile scans: grid, conditional minima, parabola, completeness, independence of workers."""
from multiprocessing.sharedctypes import RawArray

import numpy as np

from .. import fits
from ..core import quiet
from ..fits import TOL

CASES = dict(quick=180, thorough=1800)
RULE = ("small well-posed random models (1-2 channels, 1-3 processes), scans of yields and nuisances by name and by index with 2-8 points, widths of "
        "0.3-2.5 sigma, 1-4 workers, with and without subtracted minimum and fixed nuisances, with both minimisers, from displaced states and with "
        "data replaced after the fitter was made; grid compared with the fitted value and error, each value with an independent conditional "
        "minimisation of the reference likelihood, parabola recomputed; repeated scans with another number of workers and with injected failures of chosen points; non-trivial = at least two "
        "finite points; signature = model, parameter, scan settings")
REQUIRED = ["long_scans", "large_yields", "scans:iminuit", "scans:scipy", "points_compared", "parabolas", "worker_comparisons", "subtracted", "not_subtracted", "yield_scans",
            "nuisance_scans", "fixed_nuisances", "displaced_starts", "complete_scans", "stale_fitters", "by_index", "by_name", "even_points", "odd_points", "failed_points", "fixed_nuisances:switch"]
ASSUMPTIONS = ["conditional minima are compared with twice the tolerance of the minima (0.01 Minuit, 0.02 SLSQP, in likelihood units)",
               "missing points are judged where all expectations stay positive along the independent profile"]


class Failing:
    """Lets every minimisation fail that starts with parameter k at one of the given values: without an exception where the
    minimiser reports failures in its result, with its documented exception otherwise. Seen from forked workers as well;
    the shared flags tell at which points a failure really was produced."""

    def __init__(self, k, points):
        self.k, self.points, self.hit = k, np.array(points, dtype=float), RawArray("b", max(len(points), 1))

    def __enter__(self):
        import templatefitter.minimizer as tm
        self.saved = [(c, c.minimize) for c in (tm.IMinuitMinimizer, tm.ScipyMinimizer)]
        for cls, orig in self.saved:
            def minimize(mz, *a, _orig=orig, _cls=cls, **kw):
                x0 = a[0] if a else kw.get("initial_params", kw.get("initial_param_values"))
                at = np.flatnonzero(np.abs(self.points - x0[self.k]) <= 1e-9 * (1 + abs(x0[self.k]))) if x0 is not None else []
                r = _orig(mz, *a, **kw)
                if len(at):
                    for n in at:
                        self.hit[n] = 1
                    if _cls is tm.ScipyMinimizer:
                        raise RuntimeError("injected: not successful")
                    return tm.MinimizeResult(r.fcn_min_val, r.params, False)
                return r
            cls.minimize = minimize
        return self.hit

    def __exit__(self, *_):
        for cls, orig in self.saved:
            cls.minimize = orig


def case(ctx, i):
    from templatefitter import TemplateFitter
    rng = ctx.rng
    s, rm = fits.fit_spec(ctx, rng, data="toy", max_par=14, max_proc=3, eff=str(rng.choice(["any", "sum1", "default", "tiny"])), max_cond=25)
    if s is None:
        ctx.ev("no_model")
        return
    n0, names = len(s.processes), rm.names
    f = rm.fast_nll()
    mid = str(rng.choice(fits.MINIMIZERS))
    tol = 2 * TOL[mid]
    fixnui = n0 > 1 and rng.random() < 0.25
    free = np.ones(rm.npar, bool)
    k = int(rng.integers(n0)) if fixnui or rng.random() < 0.65 else int(rng.integers(n0, rm.npar))
    m = s.build()
    x0 = fits.start_vector(rm)
    if rng.random() < 0.4:
        x0 = np.concatenate([x0[:n0] * rng.uniform(0.85, 1.15, n0), rng.normal(0, 0.15, rm.npar - n0)])
        m.update_parameters(x0.copy())
        ctx.ev("displaced_starts")
    switch = fixnui and rng.random() < 0.4       # by the fitter's switch instead of the argument
    if fixnui:
        free[n0:] = False
        ctx.ev("fixed_nuisances:switch" if switch else "fixed_nuisances")
    if rng.random() < 0.25:
        m.add_data(**{c["name"]: s.data_hist(c, rng.poisson(np.maximum(np.array(c["data"]), 1) * 1.5)) for c in s.channels})
        fitter = TemplateFitter(m, mid)
        m.add_data(**{c["name"]: s.data_hist(c) for c in s.channels})
        ctx.ev("stale_fitters")
    else:
        fitter = TemplateFitter(m, mid)
    if switch:
        fitter.fix_nui_params()
    if rng.random() < 0.3:
        fits.do_fit(m, mid, fitter, update_templates=False, fix_nui_params=fixnui)
    nominal = fits.do_fit(m, mid, TemplateFitter(m, mid), update_templates=False, fix_nui_params=fixnui)
    if nominal is None:
        ctx.ev("failed_fits:" + mid)
        return
    val, unc = (float(v) for v in nominal.params[k])
    npts = int(rng.integers(9, 70)) if i % 25 == 9 else int(rng.integers(2, 9))
    ctx.ev("long_scans", int(npts > 8))
    sigma = float(rng.choice([0.3, 1.0, 2.0, 2.5]))
    sub = bool(rng.random() < 0.5)
    kw = dict(num_points=npts, sigma=sigma, subtract_min=sub)
    if fixnui and not switch:
        kw["fix_nui_params"] = True
    pid = k if rng.random() < 0.5 else names[k]
    ctx.ev("by_index" if pid == k else "by_name")
    ncpu = int(rng.choice([1, 2, 3, 4] if rng.random() < 0.93 else [6, 9, 16]))
    ctx.log(mid, names[k], npts, sigma, sub, ncpu)
    with quiet():
        try:
            pts, vals, par = (np.array(a, dtype=float) for a in fitter.profile(pid, num_cpu=ncpu, **kw))
        except RuntimeError:
            ctx.ev("failed_profiles")
            return
    ctx.ev("scans:" + mid)
    ctx.ev("yield_scans" if k < n0 else "nuisance_scans")
    ctx.ev("subtracted" if sub else "not_subtracted")
    ctx.ev("even_points" if npts % 2 == 0 else "odd_points")
    info = dict(parameter=names[k], minimizer=mid, settings=kw, start=x0)
    ctx.check(pts.shape == vals.shape == par.shape == (npts,), "shapes", f"{pts.shape} {vals.shape} {par.shape} for {npts} points")
    # grid
    c, u = (pts[0] + pts[-1]) / 2, (pts[-1] - pts[0]) / 2 / sigma
    ctx.close(pts, np.linspace(pts[0], pts[-1], npts), "points-not-equidistant", rtol=1e-9, atol=1e-9 * (1 + abs(c)))
    ctx.check(u > 0, "points-not-ascending", got=pts)
    ctx.check(abs(c - val) < 0.02 * unc and abs(u - unc) < 0.02 * unc, "points-not-around-the-fitted-value",
              f"centre {c} width {u}, fitted {val} +- {unc}", **info)
    # nominal minimum and parabola
    fmin, best = fits.reminimise(f, np.array(nominal.params.values), fits.scales(rm, x0), free)
    off = 0.0 if sub else nominal.fcn_min_val
    ctx.close(par, (pts - val) ** 2 / (2 * unc ** 2) + off, "parabola", rtol=1e-2 if sub else 1e-6, atol=0.05 * max(sigma, 1), **info)
    ctx.close(par, (pts - c) ** 2 / (2 * u ** 2) + off, "parabola", rtol=1e-6, atol=1e-6, **info)
    ctx.ev("parabolas")
    # conditional minima
    cond = free.copy()
    cond[k] = False
    base = fmin if sub else 0.0
    good = True
    for j in np.argsort(np.abs(pts - best[k])):
        y = best.copy()
        y[k] = pts[j]
        if not np.isfinite(f(y)):
            good = False
            continue
        want, yb = fits.reminimise(f, y, fits.scales(rm, x0), cond)
        nu = np.concatenate([rm.expectation(yb, ch["name"]) for ch in s.channels])
        good &= bool(nu.min() > 0.5 and (yb[:n0] > 0).all())
        if not np.isfinite(vals[j]):
            ctx.ev("missing_points")
            continue
        got = vals[j] + (nominal.fcn_min_val if sub else 0)
        ctx.check(abs(got - want) <= tol + 1e-6 * abs(want), "not-the-conditional-minimum", f"{names[k]} = {pts[j]}: {got} instead of {want}", best=yb, **info)
        ctx.check(vals[j] >= (0 if sub else nominal.fcn_min_val) - tol, "below-the-nominal-minimum", f"{vals[j]}", **info)
        if abs(pts[j] - val) < 1e-3 * unc:
            ctx.check(abs(got - nominal.fcn_min_val) < tol, "not-zero-at-the-fitted-value", f"{got} {nominal.fcn_min_val}", **info)
            ctx.ev("central_points")
        ctx.ev("points_compared")
    if good:
        ctx.check(np.all(np.isfinite(vals)), "missing-points", f"{vals}", **info)
        ctx.ev("complete_scans")
    # points at which the minimisation fails are missing, and only those
    if rng.random() < 0.4:
        bad = [j for j in rng.permutation(npts)[:int(rng.integers(1, npts + 1))] if abs(pts[j] - x0[k]) > 1e-6 * (1 + abs(x0[k])) and abs(pts[j] - val) > 1e-6 * unc]
        with Failing(k, pts[bad]) as hit, quiet():
            p2, v2, h2 = fitter.profile(pid, num_cpu=ncpu, **kw)
        ctx.close(p2, pts, "points-depend-on-failures", rtol=1e-9, atol=1e-9, **info)
        ctx.close(h2, par, "parabola-depends-on-failures", rtol=1e-7, atol=1e-6, **info)
        for n, j in enumerate(bad):
            if hit[n]:
                ctx.check(np.isnan(v2[j]), "failed-point-has-a-value", f"{v2[j]} at {pts[j]} although the minimisation failed", **info)
                ctx.ev("failed_points")
        ok = [j for j in range(npts) if j not in bad]
        ctx.close(np.nan_to_num(v2[ok], nan=-1e9), np.nan_to_num(vals[ok], nan=-1e9), "values-depend-on-failures-elsewhere", rtol=1e-7, atol=1e-6, **info)
    # the number of workers and the identifier make no difference
    if rng.random() < 0.5:
        with quiet():
            p2, v2, h2 = fitter.profile(k if pid != k else names[k], num_cpu=ncpu % 4 + 1, **kw)
        ctx.close(p2, pts, "points-depend-on-workers", rtol=1e-9, atol=1e-9, **info)
        ctx.close(np.nan_to_num(v2, nan=-1e9), np.nan_to_num(vals, nan=-1e9), "values-depend-on-workers", rtol=1e-7, atol=1e-6, **info)
        ctx.close(h2, par, "parabola-depends-on-workers", rtol=1e-7, atol=1e-6, **info)
        ctx.ev("worker_comparisons")
    if np.isfinite(vals).sum() > 1:
        ctx.seen(str(s.summary()), names[k], str(kw), mid)
    ctx.describe(model=s.summary(), parameter=names[k], minimizer=mid, settings=kw, points=pts, values=vals)
