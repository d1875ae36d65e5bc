"""C14 - reported covariance, errors and correlations against the curvature of the reference likelihood."""
import numpy as np

from .. import fits, ref

CASES = dict(quick=120, thorough=2000)
COV = {"iminuit": 0.012, "scipy": 0.008}
RULE = ("well-posed random models fitted with both minimisers, free or with random parameters / all nuisances fixed; the covariance is compared with "
        "the inverse numerical Hessian (Richardson-extrapolated) of the reference likelihood over the free parameters, in units of the "
        "uncertainties; zero rows, symmetry, positive definiteness, errors, correlations, access by name and index; non-trivial = successful fit; "
        "signature = model, minimiser, fixed set")
REQUIRED = ["many_parameters", "large_yields", "covariances:iminuit", "covariances:scipy", "with_fixed", "with_fixed_nuisances", "entries_checked", "agreements", "access_checks", "bounded_fits", "printed_tables"]
ASSUMPTIONS = ["Hessian agreement within 3 % (Minuit) and 1 % (numdifftools) of the uncertainties"]


def curvature(f, x, sig, free):
    """inverse Hessian over the free parameters, embedded"""
    k = np.flatnonzero(free)

    def g(u):
        y = np.array(x)
        y[k] = u
        return f(y)
    # probes of 0.2 sigma and 0.1 sigma conditional widths
    H = ref.hessian(g, np.array(x)[k], 0.2 * sig[k])
    C = np.zeros((len(x), len(x)))
    C[np.ix_(k, k)] = np.linalg.inv(H)
    return C, H


def printed(ctx, text, names, x, E):
    """The printed table: every parameter in order, with its number, name, value and error."""
    rows = [l for l in text.splitlines() if l.strip()]
    at = 0
    for k, n in enumerate(names):
        for j in range(at, len(rows)):
            f = rows[j].replace("|", " ").split()
            if " ".join(n.split()) in (" ".join(f[1:-2]), " ".join(f[:-2])):
                break
        else:
            ctx.check(False, "printed-table", f"{n} not printed (in order)", text=text[:1500])
        at = j + 1
        num = [float(v) for v in f if _number(v)]
        close = lambda a, b: abs(a - b) <= 1e-4 * abs(b) + 1e-4
        ctx.check(any(v == k for v in num[:1]) or str(k) in f, "printed-number", f"{n}: {rows[j]}")
        ctx.check(len(num) >= 2 and close(num[-2], x[k]) and close(num[-1], E[k]), "printed-values", f"{n}: {rows[j]}", value=x[k], error=E[k])
    ctx.ev("printed_tables")


def _number(v):
    try:
        float(v)
        return True
    except ValueError:
        return False


def case(ctx, i):
    rng = ctx.rng
    from templatefitter import TemplateFitter
    many = i % 20 == 7
    kw = dict(max_par=90, max_channels=4, force_channels=3, force_proc=int(rng.integers(2, 4))) if many else dict(max_par=22)
    s, rm = fits.fit_spec(ctx, rng, eff=str(rng.choice(["any", "sum1", "default", "tiny"])), max_cond=25, **kw)
    if s is None:
        ctx.ev("no_model")
        return
    f, n0, n = rm.fast_nll(), len(s.processes), rm.npar
    mode = str(rng.choice(["free", "fix", "fix", "nui"]))
    free = np.ones(n, bool)
    fixed = []
    if mode == "fix":
        fixed = [int(k) for k in rng.permutation(n)[:int(rng.integers(1, max(2, n // 2)))]]
        free[fixed] = False
        ctx.ev("with_fixed")
    elif mode == "nui":
        free[n0:] = False
        ctx.ev("with_fixed_nuisances")
    out = {}
    for mid in fits.MINIMIZERS if n < 40 else ("iminuit",):
        ctx.ev("many_parameters", int(n > 40))
        m = s.build()
        fitter = TemplateFitter(m, mid)
        for k in fixed:
            fitter.set_parameter_fixed(k if rng.random() < 0.5 else rm.names[k])
        if rng.random() < 0.25:      # bounds far away change nothing
            x0 = fits.start_vector(rm)
            k = int(rng.integers(n0))
            fitter.set_parameter_bounds(rm.names[k], (float(x0[k] * 0.01), float(x0[k] * 5 + 10)))
            ctx.ev("bounded_fits")
        r = fits.do_fit(m, mid, fitter, update_templates=bool(rng.random() < 0.5), fix_nui_params=mode == "nui")
        if r is None:
            ctx.ev("failed_fits:" + mid)
            continue
        p = r.params
        x, C, E, R = (np.array(v, dtype=float) for v in (p.values, p.covariance, p.errors, p.correlation))
        ctx.check(C.shape == (n, n) and R.shape == (n, n) and E.shape == (n,), "shapes", f"{C.shape} {R.shape} {E.shape} for {n}")
        ctx.check(np.all(np.isfinite(C)) and np.all(np.isfinite(R)) and np.all(np.isfinite(E)), "not-finite", mid, cov=C)
        ctx.check(np.all(C[~free] == 0) and np.all(C[:, ~free] == 0) and np.all(E[~free] == 0), "fixed-parameters-have-uncertainty", mid, errors=E, fixed=fixed)
        d = np.sqrt(np.maximum(np.diag(C), 0))
        ctx.check(np.all(np.diag(C)[free] > 0), "non-positive-variance", mid, var=np.diag(C))
        safe = np.where(d > 0, d, 1)
        ctx.check(np.max(np.abs(C - C.T) / np.outer(safe, safe)) < 1e-6, "not-symmetric", mid)
        ctx.close(E, d, "errors-are-not-the-diagonal", rtol=2e-2 if mid == "iminuit" else 1e-9, atol=1e-12, msg=mid)
        k = np.flatnonzero(free)
        Cf = C[np.ix_(k, k)] / np.outer(d[k], d[k])
        ctx.check(np.min(np.linalg.eigvalsh((Cf + Cf.T) / 2)) > 0, "not-positive-definite", mid)
        ctx.close(R, ref.correlation(C), "correlation", rtol=1e-6, atol=1e-9, msg=mid)
        sig = fits.sigmas(rm, x, free)
        want, H = curvature(f, x, sig, free)
        wd = np.sqrt(np.diag(want)[k])
        if np.linalg.cond(H * np.outer(wd, wd)) > 1e4 or not np.all(np.isfinite(wd)):
            ctx.ev("skipped_ill_conditioned")
            continue
        diff = np.max(np.abs(C[np.ix_(k, k)] - want[np.ix_(k, k)]) / np.outer(wd, wd))
        for lim in (0.003, 0.01, 0.03, 0.1):
            ctx.ev(f"cov_{mid}>{lim}", int(diff > lim))
        ctx.check(diff < COV[mid], "covariance-is-not-the-inverse-curvature", f"{mid}: largest deviation {diff} in units of the uncertainties",
                  errors=E[k], want=wd, fixed=fixed, model=s.summary())
        ctx.ev("entries_checked", len(k) ** 2)
        ctx.ev("covariances:" + mid)
        for j in rng.permutation(n)[:6]:
            j = int(j)
            for pid in (j, rm.names[j]):
                ctx.check(p.get_param_value(pid) == x[j] and p.get_param_error(pid) == E[j] and tuple(p[pid]) == (x[j], E[j]), "access", f"{pid}")
                ctx.check(p.param_id_to_index(pid) == j, "access-index")
                ctx.ev("access_checks")
        printed(ctx, str(p), rm.names, x, E)
        out[mid] = (x, C, wd)
        ctx.seen(str(s.summary()), mid, tuple(fixed), mode)
    if len(out) == 2:
        k = np.flatnonzero(free)
        (xa, Ca, wd), (xb, Cb, _) = out["iminuit"], out["scipy"]
        ctx.check(np.max(np.abs(Ca - Cb)[np.ix_(k, k)] / np.outer(wd, wd)) < 2 * (COV["iminuit"] + COV["scipy"]), "minimisers-disagree")
        ctx.ev("agreements")
    ctx.describe(model=s.summary(), fixed=fixed, mode=mode)
