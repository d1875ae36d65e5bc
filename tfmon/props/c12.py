"""C12 - reported minima: genuine, reproducible, agreed by both minimisers and by equivalent models; Asimov closure."""
import numpy as np

from .. import fits, gen
from ..fits import TOL
from .c08 import map_vector, permuted

CASES = dict(quick=130, thorough=2500)
RULE = ("well-posed random models (1-2 channels, 1-3 processes, 1D/2D, systematics, constraints) with toy, displaced or Asimov data and the shipped "
        "example, fitted with both minimisers from nominal and displaced start values; every reported minimum is re-evaluated (code and reference), "
        "compared with start values, 60 neighbouring points and an independent minimisation of the reference likelihood; repeated fits, stale "
        "fitters, minimiser passes that end early, permuted twins, Asimov closure; non-trivial = successful fit; signature = model structure and data kind")
REQUIRED = ["hard_starts", "many_parameters", "large_yields", "successful_fits:iminuit", "successful_fits:scipy", "minima_reevaluated", "neighbours_checked", "independent_minima", "agreements",
            "repeated_fits", "twin_fits", "asimov_closures", "stale_fitters", "constrained_models", "multi_channel_models", "systematic_models", "realistic_models", "negative_yields"]
ASSUMPTIONS = ["minima are compared with tolerances of 5e-3 (Minuit) and 1e-2 (SLSQP) in units of the log likelihood, where 0.5 is one standard deviation"]


def case(ctx, i):
    rng = ctx.rng
    kind = str(rng.choice(["toy", "toy", "far", "asimov", "closure", "negative"])) if i else "toy"
    if i % 60 == 0:
        s = gen.realistic_spec(rng, nbins=int(rng.integers(4, 7)))
        rm = s.reference()
        kind = "realistic"
        ctx.ev("realistic_models")
    else:
        kw = dict(max_par=110, max_channels=5, max_proc=4, force_channels=int(rng.integers(3, 6)), force_proc=int(rng.integers(2, 5))) if i % 30 == 7 else {}
        s, rm = fits.fit_spec(ctx, rng, data="toy", eff=str(rng.choice(["any", "sum1", "default", "tiny"])), **kw)
        ctx.ev("many_parameters", int(s is not None and rm.npar > 40))
        if s is None:
            ctx.ev("no_model")
            return
    if kind == "negative" and len(s.processes) < 2:
        kind = "toy"
    n0 = len(s.processes)
    truth = None
    if kind == "far":
        fits.model_data(rng, s, rm, "toy", 0.4, 2.0)
    elif kind == "negative":    # less data than the other processes alone give, where one of them would be
        k = int(rng.integers(n0))
        s.constraints = [c for c in s.constraints if c[0] != s.processes[k]]
        rm = s.reference()
        z = np.concatenate([fits.start_yields(rm), np.zeros(rm.npar - n0)])
        z[k] = 0
        z[k] = -fits.sigmas(rm, z)[k] * rng.uniform(0.5, 2.5)
        for c in s.channels:
            b = rm.expectation(z, c["name"])
            if np.min(b) < 3:
                kind = "toy"
                continue
            c["data"] = np.rint(b).reshape([len(e) - 1 for e in c["edges"]])
    elif kind in ("asimov", "closure"):
        y = fits.start_yields(rm) * (1 if kind == "asimov" else rng.uniform(0.4, 2.0, n0))
        truth = np.concatenate([y, np.zeros(rm.npar - n0)])
        s.constraints = [(p, float(y[s.processes.index(p)]), e) for p, v, e in s.constraints]
    m0 = s.build(data=truth is None)
    if truth is not None:
        m0.update_parameters(truth.copy())
        A = m0.generate_asimov_dataset()
        for c in s.channels:
            c["data"] = np.array(A[c["name"]].bin_counts)
        m0.reset_parameters()
    rm = s.reference()
    f = rm.fast_nll()
    found = {}
    start = None
    if kind == "asimov" or rng.random() < 0.5:
        w = 0.2 if kind == "asimov" else 0.5
        start = np.concatenate([fits.start_yields(rm) * rng.uniform(1 - w, 1 + w, n0), rng.normal(0, w / 3, rm.npar - n0)])
    for mid in fits.MINIMIZERS:
        from templatefitter import TemplateFitter
        m = s.build()
        if start is not None:
            m.update_parameters(start.copy())
        stale = rng.random() < 0.25
        if stale:   # the fitter exists before the data it has to fit
            other = {c["name"]: s.data_hist(c, rng.poisson(np.maximum(np.array(c["data"]), 1) * 2)) for c in s.channels}
            m.add_data(**other)
            fitter = TemplateFitter(m, mid)
            if rng.random() < 0.5:
                fits.do_fit(m, mid, fitter, update_templates=False)
            m.add_data(**{c["name"]: s.data_hist(c) for c in s.channels})
            ctx.ev("stale_fitters")
        else:
            fitter = TemplateFitter(m, mid)
        x0 = np.array(m.create_nll().x0)
        upd = bool(rng.random() < 0.5)
        kw = dict(update_templates=upd, get_hesse=bool(rng.random() < 0.3) and (rm.npar < 40 or mid == "iminuit"))
        if mid == "iminuit" and rng.random() < 0.25:      # a pass of the minimiser ends early: reported minima are genuine all the same
            with fits.InterruptedPasses([int(rng.integers(2, 120)), int(rng.choice([0, 0, 0, 60]))]) as stop:
                r = fits.do_fit(m, mid, fitter, **kw)
            interrupted = stop.seen > 0
            ctx.ev("interrupted_passes", stop.seen)
            ctx.ev("minima_after_interruption", int(interrupted and r is not None))
        else:
            interrupted = False
            r = fits.do_fit(m, mid, fitter, **kw)
        ctx.log(mid, kind, None if r is None else r.fcn_min_val)
        if r is None:
            ctx.ev("failed_fits:" + mid)
            # an honest failure is no violation, except where the start is close to the known solution
            ctx.check(kind != "asimov" or interrupted, "asimov-fit-fails", f"{mid} does not converge on the Asimov data of a well-posed model", model=s.summary())
            continue
        ctx.ev("successful_fits:" + mid)
        x = np.array(r.params.values, dtype=float)
        ctx.check(list(r.params.names) == rm.names, "names", got=r.params.names)
        ctx.check(x.shape == (rm.npar,) and np.all(np.isfinite(x)), "parameters-not-finite", got=x)
        sc = rm.nll_scale(x)
        nll = m.create_nll()
        ctx.close(r.fcn_min_val, nll(x), "minimum-is-not-the-likelihood-at-the-parameters", rtol=1e-9, atol=1e-10 * sc)
        ctx.close(r.fcn_min_val, f(x), "minimum-vs-reference", rtol=1e-7, atol=1e-8 * sc)
        ctx.ev("minima_reevaluated")
        ctx.check(r.fcn_min_val <= f(x0) + 1e-6 + 1e-9 * sc, "minimum-above-start", got=r.fcn_min_val, start=f(x0))
        step = fits.scales(rm, x)
        for _ in range(60):
            d = rng.normal(0, 1, rm.npar) * step * float(rng.choice([1e-2, 0.1, 0.5, 1.0]))
            if rng.random() < 0.5:
                mask = np.zeros(rm.npar, bool)
                mask[rng.integers(rm.npar)] = True
                d = np.where(mask, d, 0)
            v = f(x + d)
            if np.isfinite(v):
                ctx.check(v >= r.fcn_min_val - TOL[mid], "neighbour-below-minimum", f"{mid}: {v} < {r.fcn_min_val}", model=s.summary())
                ctx.ev("neighbours_checked")
        best, xb = fits.reminimise(f, x, step)
        if kind in ("far", "negative") and np.any(np.abs(x[n0:]) > 5):
            # started far from the solution, the minimiser went many standard deviations into the region where templates are
            # negative: another basin of the likelihood (the data were made with nuisances of zero), about which nothing is claimed
            ctx.ev("other_basins")
            continue
        ctx.check(best >= r.fcn_min_val - TOL[mid], "independent-minimum-is-lower", f"{mid}: {best} < {r.fcn_min_val}", model=s.summary(), x=x, better=xb)
        ctx.ev("independent_minima")
        ctx.ev("negative_yields", int(np.any(xb[:n0] < 0)))
        for lim in (1e-5, 1e-4, 1e-3, 1e-2):
            ctx.ev(f"excess_{mid}>{lim}", int(r.fcn_min_val - best > lim))
        sig = fits.sigmas(rm, xb)[:n0]
        found[mid] = (r.fcn_min_val, x)
        if truth is not None:
            ctx.check(abs(r.fcn_min_val) < TOL[mid], "asimov-minimum-not-zero", f"{mid}: {r.fcn_min_val}")
            ctx.close(x[:n0] / sig, truth[:n0] / sig, "asimov-yields", rtol=0, atol=(2.2 * TOL[mid]) ** 0.5, msg=mid)
            ctx.ev("asimov_closures")
        # again: same fitter, from wherever the model is now
        r2 = fits.do_fit(m, mid, fitter, update_templates=True, get_hesse=False)
        if r2 is not None:
            ctx.close(r2.fcn_min_val, r.fcn_min_val, "repeated-fit-differs", rtol=0, atol=TOL[mid])
            ctx.close(np.asarray(r2.params.values)[:n0] / sig, x[:n0] / sig, "repeated-fit-other-yields", rtol=0, atol=2 * (2.2 * TOL[mid]) ** 0.5)
            ctx.ev("repeated_fits")
        ctx.seen(str(s.summary()), kind)
    if len(found) == 2:
        (a, xa), (b, xb) = found["iminuit"], found["scipy"]
        ctx.close(a, b, "minimisers-disagree", rtol=0, atol=TOL["scipy"])
        ctx.ev("agreements")
    if "iminuit" in found:
        hard_starts(ctx, rng, s, rm, f)
    if found and (n0 > 1 or len(s.channels) > 1):
        mid = str(rng.choice(sorted(found)))
        q, pm, cm = permuted(rng, s)
        mq = q.build()
        r = fits.do_fit(mq, mid, get_hesse=False)
        if r is not None:
            ctx.close(r.fcn_min_val, found[mid][0], "equivalent-model-other-minimum", rtol=0, atol=TOL[mid])
            y = map_vector(s, q, pm, cm, found[mid][1])
            k = fits.sigmas(q.reference(), y)[:n0]
            ctx.close(np.asarray(r.params.values)[:n0] / k, y[:n0] / k, "equivalent-model-other-yields", rtol=0, atol=2 * (2.2 * TOL[mid]) ** 0.5)
            ctx.ev("twin_fits")
    ctx.describe(model=s.summary(), data=kind, minima={k: v[0] for k, v in found.items()})


def hard_starts(ctx, rng, s, rm, f):
    """Passes that end early on the way from far away: what is reported as a success is a minimum all the same."""
    n0 = len(s.processes)
    for _ in range(12 if rm.npar < 40 else 1):
        m = s.build()
        m.update_parameters(np.concatenate([fits.start_yields(rm) * 10 ** rng.uniform(-1, 1, n0), rng.normal(0, float(rng.choice([0.2, 0.6])), rm.npar - n0)]))
        with fits.InterruptedPasses([int(rng.integers(2, 60)), int(rng.choice([0, 0, 0, 40]))]) as stop:
            r = fits.do_fit(m, "iminuit", update_templates=False, get_hesse=bool(rng.random() < 0.5))
        if r is None or not stop.seen:
            ctx.ev("hard_starts:honest_failure")
            continue
        x = np.array(r.params.values, dtype=float)
        if np.any(np.abs(x[n0:]) > 5):
            ctx.ev("other_basins")
            continue
        best, xb = fits.reminimise(f, x, fits.scales(rm, x))
        ctx.check(best >= r.fcn_min_val - TOL["iminuit"], "early-end-is-reported-as-minimum", f"{r.fcn_min_val} instead of {best}", x=x, better=xb)
        ctx.ev("hard_starts")
