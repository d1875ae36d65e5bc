"""C17 - significances: likelihood ratio against an independent calculation, invariances, degenerate cases."""
import numpy as np

from .. import fits
from ..core import quiet
from ..fits import TOL

CASES = dict(quick=130, thorough=2500)
RULE = ("well-posed random models with one hardly present, moderately or strongly present process (data drawn from the model, or depleted so that the "
        "best-fit yield is negative), tested with both minimisers from several start states, on fresh, used and stale fitters, with and without fixed "
        "nuisances, fixed parameters, a bound on the tested yield and bounds (active or not) on other yields; values compared with two independent minimisations of the reference likelihood, "
        "with each other and between minimisers; non-trivial = a compared value; signature = model, process, settings")
REQUIRED = ["large_yields", "values:iminuit", "values:scipy", "reference_comparisons", "negative_yields:iminuit", "negative_yields:scipy", "small_significances", "large_significances", "repeated_calls",
            "displaced_starts", "agreements", "fixed_nuisances", "fixed_nuisances:switch", "displaced_fixed_nuisances", "fixed_other_yields", "bounded_tested_yield", "bounded_other_yields", "active_bounds", "stale_fitters", "multi_channel_models"]
ASSUMPTIONS = ["squared significances are compared within 0.01 + 8 likelihood tolerances (0.05 Minuit, 0.09 SLSQP) + 0.2 %",
               "workloads keep the expectation positive with the tested process absent (every process elsewhere populated), where the likelihood ratio exists"]


def significance(fitter, process, **kw):
    with quiet():
        try:
            return fitter.get_significance(process, **kw)
        except RuntimeError:
            return None


def case(ctx, i):
    from templatefitter import TemplateFitter
    rng = ctx.rng
    s, rm = fits.fit_spec(ctx, rng, max_par=16, all_present=True, force_proc=int(rng.choice([2, 2, 3])), eff=str(rng.choice(["any", "sum1", "default", "tiny"])), max_cond=25)
    if s is None:
        ctx.ev("no_model")
        return
    n0, names = len(s.processes), rm.names
    k = int(rng.integers(n0))
    proc = s.processes[k]
    s.constraints = [c for c in s.constraints if c[0] != proc]
    kind = str(rng.choice(["small", "small", "large", "depleted"]))
    truth = fits.model_data(rng, s, rm, small=k)
    if kind == "large":
        truth = fits.model_data(rng, s, rm)
    elif kind == "depleted":     # less data than the other processes alone give, where the tested process would be
        rm = s.reference()
        truth[k] = 0
        truth[k] = -fits.sigmas(rm, truth)[k] * rng.uniform(0.5, 3)
        for c in s.channels:
            b = rm.expectation(truth, c["name"])
            c["data"] = np.rint(np.maximum(b, 0)).reshape([len(e) - 1 for e in c["edges"]])
    rm = s.reference()
    f = rm.fast_nll()
    free = np.ones(rm.npar, bool)
    fixnui = rng.random() < 0.25
    switch = fixnui and rng.random() < 0.4
    if fixnui:
        free[n0:] = False
        ctx.ev("fixed_nuisances:switch" if switch else "fixed_nuisances")
        far = np.where(np.arange(rm.npar) < n0, 0, rng.normal(0, 1.2, rm.npar)) if rng.random() < 0.5 else np.zeros(rm.npar)
    fixed = []
    if n0 > 1 and rng.random() < 0.25:
        j = int(rng.choice([a for a in range(n0) if a != k]))
        free[j] = False
        fixed = [j]
        ctx.ev("fixed_other_yields")
    sig = fits.sigmas(rm, np.maximum(truth, 0), free)
    base = np.maximum(truth, 0)
    base[k] = max(base[k], (2 if kind != "depleted" else 0.3) * sig[k])
    if fixnui and far.any():      # fixed away from their nominal values
        y = base + far
        y[k] = 0
        if np.isfinite(f(base + far)) and np.isfinite(f(y)):
            base = base + far
            ctx.ev("displaced_fixed_nuisances")
    bound = None
    if rng.random() < 0.25 and kind != "depleted":     # a bound on the tested yield restricts the fit, not the hypothesis
        lo = float(rng.choice([0.0, 0.1 * sig[k]]))
        bound = (lo, float(rng.choice([1e3, 1e5])) * sig[k] + 100)
        ctx.ev("bounded_tested_yield")
    b = [(None, None)] * rm.npar
    if bound:
        b[k] = bound
    other = None
    free_others = [a for a in range(n0) if a != k and a not in fixed]
    if free_others and rng.random() < 0.35 and kind != "depleted":
        # a bound on another yield, which may be active in either minimisation: it restricts both
        j = int(rng.choice(free_others))
        c, w = float(max(truth[j], 0)), float(sig[j])
        other = (j, (c - w * float(rng.choice([0.3, 2, 8])), c + w * float(rng.choice([0.3, 1, 4]))))
        b[j] = other[1]
        base[j] = min(max(base[j], b[j][0] + 0.05 * w), b[j][1] - 0.05 * w)
        ctx.ev("bounded_other_yields")
    bounded = bound is not None or other is not None
    out = {}
    values = []
    for n, mid in enumerate([*rng.permutation(fits.MINIMIZERS), rng.choice(fits.MINIMIZERS)]):
        mid = str(mid)
        start = base.copy()
        if n:
            start[free] = (base * np.concatenate([rng.uniform(0.85, 1.15, n0), np.ones(rm.npar - n0)]) + np.where(np.arange(rm.npar) < n0, 0, rng.normal(0, 0.1, rm.npar)))[free]
            ctx.ev("displaced_starts")
        if bound:
            start[k] = min(max(start[k], bound[0] + 0.05 * sig[k]), bound[1])
        if other:
            start[other[0]] = min(max(start[other[0]], other[1][0] + 0.02 * sig[other[0]]), other[1][1] - 0.02 * sig[other[0]])
        m = s.build()
        m.update_parameters(start.copy())
        if rng.random() < 0.25:
            m.add_data(**{c["name"]: s.data_hist(c, np.array(c["data"]) * 2 + 3) for c in s.channels})
            fitter = TemplateFitter(m, mid)
            m.add_data(**{c["name"]: s.data_hist(c) for c in s.channels})
            ctx.ev("stale_fitters")
        else:
            fitter = TemplateFitter(m, mid)
        for j in fixed:
            fitter.set_parameter_fixed(j if rng.random() < 0.5 else names[j])
        if bound:
            fitter.set_parameter_bounds(k if rng.random() < 0.5 else names[k], bound)
        if other:
            fitter.set_parameter_bounds(other[0] if rng.random() < 0.5 else names[other[0]], other[1])
        kw = dict(fix_nui_params=True) if fixnui and not switch else {}
        if switch:
            fitter.fix_nui_params()
        if rng.random() < 0.7:
            kw["verbose"] = False
        got = significance(fitter, proc, **kw)
        ctx.log(mid, got)
        if got is None:
            ctx.ev("failed:" + mid)
            ctx.ev("failed:" + mid + ":" + kind + (":displaced" if n else ""))
            continue
        got = float(got)
        ctx.check(np.isfinite(got) and got >= 0, "not-a-finite-non-negative-number", f"{mid}: {got}")
        x0 = start
        val, xb = fits.reminimise(f, x0, fits.scales(rm, x0), free, b if bounded else None)
        cond = free.copy()
        cond[k] = False
        null = np.inf
        for y in (xb.copy(), x0.copy()):
            y[k] = 0
            if np.isfinite(f(y)):
                null = min(null, fits.reminimise(f, y, fits.scales(rm, x0), cond, b if other else None)[0])
        if not np.isfinite(null):
            ctx.ev("no_null_hypothesis")
            continue
        ctx.ev("active_bounds", int(other is not None and min(abs(xb[other[0]] - q) for q in other[1]) < 1e-3 * sig[other[0]]))
        info = dict(other_bound=other, process=proc, minimizer=mid, start=start, best=xb, kind=kind, bound=bound, fixed=fixed, fixnui=fixnui, model=s.summary())
        if xb[k] < -0.1 * sig[k]:
            ctx.check(got == 0, "negative-yield-has-significance", f"{mid}: {got} with best-fit yield {xb[k]} +- {sig[k]}", **info)
            ctx.ev("negative_yields:" + mid)
        elif xb[k] > 0.15 * sig[k]:
            q = max(0.0, 2 * (null - val))
            ctx.check(abs(got ** 2 - q) <= 0.01 + 8 * TOL[mid] + 2e-3 * q, "not-the-likelihood-ratio", f"{mid}: {got} instead of {np.sqrt(q)}", **info)
            ctx.ev("reference_comparisons")
            ctx.ev("small_significances" if q < 9 else "large_significances")
            out[mid] = got
        ctx.ev("values:" + mid)
        values.append(got)
        ctx.ev("values:" + mid + ":" + kind + (":displaced" if n else ""))
        if rng.random() < 0.5:      # again, after other calculations
            if rng.random() < 0.5:
                fits.do_fit(m, mid, fitter, update_templates=False, fix_nui_params=fixnui, get_hesse=False)
            if rng.random() < 0.3:
                significance(fitter, s.processes[(k + 1) % n0], **kw)
            again = significance(fitter, proc, **kw)
            ctx.check(again is not None and abs(again - got) < 1e-6 * (1 + got), "depends-on-previous-calls", f"{mid}: {got} then {again}", **info)
            ctx.ev("repeated_calls")
    ctx.check(values or kind != "small", "no-significance-for-a-well-posed-model", "every attempt with either minimiser fails", model=s.summary())
    if len(out) == 2:
        a, c = out["iminuit"], out["scipy"]
        ctx.check(abs(a ** 2 - c ** 2) <= 0.02 + 8 * sum(TOL.values()) + 4e-3 * a ** 2, "minimisers-disagree", f"{out}")
        ctx.ev("agreements")
    if values:
        ctx.seen(str(s.summary()), proc, kind, fixnui, tuple(fixed), bound, other)
    ctx.describe(model=s.summary(), process=proc, kind=kind, significances=values, bound=bound, other_bound=other, fixed=fixed, fixed_nuisances=fixnui)
