"""C13 - fixed parameters and bounds in fits, profiles, significances and on minimisers."""
import numpy as np

from .. import fits
from ..core import quiet
from ..fits import TOL

CASES = dict(quick=240, thorough=2500)
RULE = ("well-posed random models; random sets of parameters fixed by name or index (none to all but one), all nuisances fixed by argument or switch, "
        "one- and two-sided bounds that are active or inactive on yields, single or all nuisances, at displaced start values, in fits, repeated fits, "
        "profile scans, significances and bare minimisers of both kinds; values at the restrictions are read back, the remaining minimisation is "
        "compared with an independent restricted minimisation; non-trivial = at least one restriction; signature = model and restrictions")
REQUIRED = ["large_yields", "fits:iminuit", "fits:scipy", "fixed_checked", "bounds_checked", "active_bounds", "several_fixed", "nuisances_fixed:argument",
            "nuisances_fixed:switch", "nuisance_limits", "restricted_minima", "profiles", "significances", "rejections_observed", "released",
            "displaced_starts", "far_starts", "bounds_replaced", "fixed_by_index", "fixed_by_name", "second_fits", "zero_bounds", "many_channels", "other_fitters"]
ASSUMPTIONS = ["restricted minima are compared with tolerances of 5e-3 (Minuit) and 1e-2 (SLSQP) in units of the log likelihood",
               "a fit that reports failure is not judged beyond its rejection"]


class Plan:
    """Restrictions to be set on a fitter, with their meaning on the parameter vector."""

    def __init__(self, ctx, rng, rm, x0, sig, best, keep=None):
        names, n0, n = rm.names, len(rm.processes), rm.npar
        self.ctx, self.names, self.x0, self.sig = ctx, names, x0, sig
        self.free = np.ones(n, bool)
        self.fix, self.bound, self.limits = [], [], None
        self.arg = self.switch = False
        mode = str(rng.choice(["none", "one", "some", "many", "arg", "switch"], p=[0.15, 0.2, 0.25, 0.15, 0.15, 0.1]))
        ks = []
        if mode == "one":
            ks = [int(rng.integers(n))]
        elif mode == "some":
            ks = [int(k) for k in rng.permutation(n)[:int(rng.integers(2, max(3, n // 3 + 1)))]]
        elif mode == "many":
            ks = [int(k) for k in rng.permutation(n)[:n - int(rng.integers(1, 4))]]
        elif mode == "arg":
            self.arg = True
        elif mode == "switch":
            self.switch = True
        if mode in ("arg", "switch"):
            self.free[n0:] = False
            if n0 > 1 and rng.random() < 0.4:
                ks = [int(rng.integers(n0))]
        ks = [k for k in ks if k != keep]
        if len(ks) == n:
            ks = ks[:-1]
        for k in ks:
            by = "index" if rng.random() < 0.5 else "name"
            self.fix.append((np.int64(k) if rng.random() < 0.2 else k) if by == "index" else names[k])
            self.free[k] = False
            ctx.ev("fixed_by_" + by)
        if len(ks) > 1:
            ctx.ev("several_fixed")
        if not self.free.any():
            self.free[:] = True
            self.fix = []
            self.arg = self.switch = False
        if self.arg:
            ctx.ev("nuisances_fixed:argument")
        if self.switch:
            ctx.ev("nuisances_fixed:switch")
        self.b = [(None, None)] * n
        if rng.random() < 0.25 and not (self.arg or self.switch):
            w = float(rng.uniform(0.05, 1.5))
            if rng.random() < 0.6 and np.abs(x0[n0:]).max() < 0.4:       # most of them are active
                w = max(0.02, 1.06 * float(np.abs(x0[n0:]).max()))
            lo, hi = -w, w
            if np.all(np.abs(x0[n0:]) < 0.95 * w):
                self.limits = (lo, hi)
                for k in range(n0, n):
                    self.b[k] = self.limits
                ctx.ev("nuisance_limits")
        crossing = {k for k in range(n0, n) if x0[k] * best[k] < 0 and abs(best[k]) > 0.2 * sig[k] and abs(x0[k]) > 0.02}
        chosen = list(rng.permutation(n)[:int(rng.choice([0, 1, 1, 2]))])
        for k in sorted(crossing & {k for k in range(n) if self.free[k]})[:1]:
            if rng.random() < 0.5:
                chosen.append(-k)
        for k in chosen:
            forced = k < 0
            k = -int(k) if forced else int(k) if rng.random() < 0.6 else int(rng.integers(n0))
            active = forced or rng.random() < 0.5
            s = sig[k]
            side = 1 if best[k] > x0[k] else -1
            if active and abs(best[k] - x0[k]) > 0.2 * s:    # the bound lies between start and unrestricted minimum
                edge = x0[k] + (best[k] - x0[k]) * rng.uniform(0.3, 0.8)
                if k in crossing:        # a bound of exactly zero is a bound
                    edge = 0.0
                    ctx.ev("zero_bounds")
                far = x0[k] - side * 5 * s
                lo, hi = (far, edge) if side > 0 else (edge, far)
                if rng.random() < 0.4:
                    lo, hi = (None, hi) if side > 0 else (lo, None)
            else:
                lo, hi = min(x0[k], best[k]) - 6 * s, max(x0[k], best[k]) + 6 * s
            lo, hi = None if lo is None else float(lo), None if hi is None else float(hi)
            self.bound.append((k if rng.random() < 0.5 else names[k], (lo, hi)))
            self.b[k] = (lo, hi)
            if k == keep:
                self.b[k] = (lo, hi)
        # settings made twice for the same parameter through different identifiers are left out
        seen = {}
        for pid, v in self.bound:
            seen[names.index(pid) if isinstance(pid, str) else pid] = (pid, v)
        self.bound = list(seen.values())

    def other(self, pid):
        return self.names.index(pid) if isinstance(pid, str) else self.names[pid]

    def apply(self, rng, fitter):
        todo = [("f", p) for p in self.fix] + [("b", p) for p in self.bound]
        for pid, _ in self.bound:      # earlier settings of the same parameters, by either identifier, are replaced
            for q in ([pid, self.other(pid)] * 2)[:int(rng.choice([0, 0, 1, 2, 3]))]:
                k = self.names.index(q) if isinstance(q, str) else q
                far = self.x0[k] + float(rng.choice([-1, 1])) * self.sig[k] * float(rng.choice([0.01, 3]))
                fitter.set_parameter_bounds(q, (float(far), float(far + self.sig[k])) if rng.random() < 0.7 else (None, None))
                self.ctx.ev("bounds_replaced")
        for k in rng.permutation(len(todo)):
            what, p = todo[k]
            if what == "f":
                fitter.set_parameter_fixed(p)
            else:
                fitter.set_parameter_bounds(*p)
        if self.switch:
            fitter.fix_nui_params()

    @property
    def has_bounds(self):
        return any(b != (None, None) for b in self.b)

    def describe(self):
        return dict(fixed=self.fix, bounds=self.bound, nuisances=("arg" if self.arg else "switch" if self.switch else None), limits=self.limits)


def obeys(ctx, x, x0, plan, names, what):
    for k in range(len(x)):
        if not plan.free[k]:
            ctx.check(abs(x[k] - x0[k]) <= 1e-8 * (1 + abs(x0[k])), f"fixed-parameter-moved:{what}", f"{names[k]}: {x0[k]} -> {x[k]}", plan=plan.describe())
            ctx.ev("fixed_checked")
        else:
            lo, hi = plan.b[k]
            tol = 1e-9 * (1 + abs(x[k]))
            ctx.check((lo is None or x[k] >= lo - tol) and (hi is None or x[k] <= hi + tol), f"bound-violated:{what}",
                      f"{names[k]} = {x[k]} outside {lo, hi}", plan=plan.describe())
            if (lo, hi) != (None, None):
                ctx.ev("bounds_checked")
                ctx.ev("active_bounds", int(any(v is not None and abs(x[k] - v) < 1e-3 * (1 + abs(v)) for v in (lo, hi))))


def restricted(f, x0, rm, plan, extra_fixed=(), unbounded=()):
    free = plan.free.copy()
    free[list(extra_fixed)] = False
    b = [(None, None) if k in unbounded else v for k, v in enumerate(plan.b)]
    b = b if any(v != (None, None) for k, v in enumerate(b) if free[k]) else None
    return fits.reminimise(f, x0, fits.scales(rm, x0), free, b)


def case(ctx, i):
    from templatefitter import TemplateFitter
    from templatefitter.minimizer import minimizer_factory
    rng = ctx.rng
    what = ["fit", "fit", "profile", "significance", "significance", "minimizer"][i % 6]
    kw = dict(all_present=True, force_proc=int(rng.choice([2, 2, 3]))) if what == "significance" else {}   # the tested process is nowhere alone
    many = what == "fit" and rng.random() < 0.3       # restrictions of a model of many channels
    if many:
        kw = dict(force_channels=int(rng.integers(3, 5)), max_channels=4, force_proc=int(rng.integers(1, 3)))
    s, rm = fits.fit_spec(ctx, rng, max_par=44 if many else 20, max_proc=3, eff=str(rng.choice(["any", "sum1", "default", "tiny"])), **kw)
    if s is None:
        ctx.ev("no_model")
        return
    n0, names = len(s.processes), rm.names
    kk = int(rng.integers(n0)) if what == "significance" or rng.random() < 0.7 else int(rng.integers(rm.npar))
    if what == "significance":
        s.constraints = [c for c in s.constraints if c[0] != s.processes[kk]]
        truth = fits.model_data(rng, s, rm, small=kk)
        rm = s.reference()
    f = rm.fast_nll()
    xn = fits.start_vector(rm)
    _, best = fits.reminimise(f, xn, fits.scales(rm, xn))
    sig = fits.sigmas(rm, best)
    x0 = xn.copy()
    if rng.random() < 0.6:
        x0 = np.concatenate([xn[:n0] * rng.uniform(0.8, 1.2, n0), rng.normal(0, 0.2, rm.npar - n0)])
        if rng.random() < 0.2:
            far = x0 + np.where(np.arange(rm.npar) < n0, 0, rng.normal(0, 1.2, rm.npar))
            if np.isfinite(f(far)):
                x0 = far
                ctx.ev("far_starts")
        ctx.ev("displaced_starts")
    if what == "significance":
        x0[kk] = truth[kk] * rng.uniform(0.5, 1.5) + 2 * fits.sigmas(rm, truth)[kk]
    mid = str(rng.choice(fits.MINIMIZERS))
    m = s.build()
    m.update_parameters(x0.copy())
    ctx.close(m.create_nll().x0, x0, "start-values", rtol=1e-9, atol=1e-9)
    fitter = TemplateFitter(m, mid)
    tol = TOL[mid]
    ctx.ev("many_channels", int(len(s.channels) > 2))
    plan = Plan(ctx, rng, rm, x0, sig, best, keep=kk if what in ("profile", "significance") else None)
    ctx.log(what, mid, plan.describe())

    if what in ("fit", "profile") and rng.random() < 0.4:      # restrictions of another fitter of the same model are its own
        other = TemplateFitter(m, str(rng.choice(fits.MINIMIZERS)))
        k = int(rng.integers(rm.npar))
        other.set_parameter_fixed(k if rng.random() < 0.5 else names[k])
        other.set_parameter_bounds(names[int(rng.integers(rm.npar))], (float(x0[k]), float(x0[k])  + 0.01))
        if rng.random() < 0.5:
            other.fix_nui_params()
        ctx.ev("other_fitters")
    if what == "fit":
        plan.apply(rng, fitter)
        for rep in range(2):
            kw = dict(update_templates=False, get_hesse=False)
            if plan.arg:
                kw["fix_nui_params"] = True
            if plan.limits:
                kw["nui_param_limits"] = plan.limits
            r = fits.do_fit(m, mid, fitter, **kw)
            if r is None:
                ctx.ev("failed_fits:" + mid)
                break
            x = np.array(r.params.values)
            obeys(ctx, x, x0, plan, names, "fit")
            val, xb = restricted(f, x0, rm, plan)
            slack = 3 * tol if plan.has_bounds else tol
            ctx.check(r.fcn_min_val <= val + slack, "remaining-parameters-not-minimised", f"{mid}: {r.fcn_min_val} > {val}", plan=plan.describe(), x=x, better=xb)
            ctx.ev("restricted_minima")
            ctx.ev("fits:" + mid)
            if rep == 0 and rng.random() < 0.6:    # the restrictions stay in force, at the new start values
                x0 = np.concatenate([x0[:n0] * rng.uniform(0.98, 1.02, n0), x0[n0:] + rng.normal(0, 0.02, rm.npar - n0)])
                for k, (lo, hi) in enumerate(plan.b):
                    x0[k] = min(max(x0[k], -np.inf if lo is None else lo), np.inf if hi is None else hi)
                m.update_parameters(x0.copy())
                ctx.ev("second_fits")
            else:
                break
    elif what == "profile":
        plan.apply(rng, fitter)
        plan.limits = None
        plan.b = [(None, None)] * rm.npar
        for pid, v in plan.bound:
            plan.b[names.index(pid) if isinstance(pid, str) else pid] = v
        if not plan.free[kk]:
            kk = int(np.flatnonzero(plan.free)[0])
        with quiet():
            try:
                pts, vals, _ = fitter.profile(kk if rng.random() < 0.5 else names[kk], num_cpu=2, num_points=3, sigma=1.0, subtract_min=False,
                                              fix_nui_params=plan.arg)
            except RuntimeError:
                ctx.ev("failed_profiles")
                return
        val, xb = restricted(f, x0, rm, plan)
        for p, v in zip(pts, vals):
            if not np.isfinite(v):
                continue
            y = xb.copy()
            y[kk] = p
            want, _ = restricted(f, y, rm, plan, [kk], [kk])
            ctx.close(v, want, "profile-ignores-restrictions", rtol=0, atol=4 * tol, plan=plan.describe(), parameter=names[kk], point=float(p))
            ctx.ev("restricted_minima")
        ctx.ev("profiles")
    elif what == "significance":
        plan.apply(rng, fitter)
        plan.limits = None
        plan.b = [(None, None)] * rm.npar
        for pid, v in plan.bound:
            plan.b[names.index(pid) if isinstance(pid, str) else pid] = v
        if not plan.free[kk]:
            return
        zero = x0.copy(); zero[kk] = 0
        if not np.isfinite(f(zero)):
            return
        with quiet():
            try:
                got = float(fitter.get_significance(s.processes[kk], verbose=0, fix_nui_params=plan.arg))
            except RuntimeError:
                ctx.ev("failed_significances")
                return
        val, xb = restricted(f, x0, rm, plan)
        y = xb.copy(); y[kk] = 0
        null = min(restricted(f, y, rm, plan, [kk], [kk])[0], restricted(f, zero, rm, plan, [kk], [kk])[0])
        q = max(0.0, 2 * (null - val))
        if xb[kk] > 3 * sig[kk] * 0.05:
            ctx.check(abs(got ** 2 - q) <= 0.01 + 8 * tol + 2e-3 * q, "significance-ignores-restrictions", f"{mid}: {got} instead of {np.sqrt(max(q, 0))}",
                      plan=plan.describe(), process=s.processes[kk])
        ctx.ev("significances")
    else:
        nll = m.create_nll()
        mz = minimizer_factory(mid, nll, nll.param_names)
        for bad in ("no such parameter", rm.npar, -1, 1.5, None):
            ctx.raises(Exception, lambda: mz.set_param_fixed(bad), "unknown-parameter-fixed")
            ctx.raises(Exception, lambda: mz.set_param_bounds(bad, (0, 1)), "unknown-parameter-bounded")
        bad = [lambda ff: ff.set_parameter_fixed("no such parameter"), lambda ff: ff.set_parameter_fixed(rm.npar + 3),
               lambda ff: ff.set_parameter_bounds("nope", (0, 1)), lambda ff: ff.set_parameter_bounds(-1, (0, 1))][int(rng.integers(4))]

        def unknown():
            ff = TemplateFitter(s.build(), mid)
            with quiet():
                bad(ff)
                ff.do_fit(verbose=0, get_hesse=False)
        ctx.raises(Exception, unknown, "unknown-parameter-accepted-by-fitter")
        ks = [int(k) for k in rng.permutation(rm.npar)[:int(rng.integers(1, rm.npar))]]
        for k in ks:
            mz.set_param_fixed(k if rng.random() < 0.5 else names[k])
        plan.free[:] = True
        plan.free[ks] = False
        plan.b = [(None, None)] * rm.npar
        try:
            with quiet():
                r = mz.minimize(x0.copy(), get_hesse=False, verbose=0)
                if not r.succes:
                    return
                obeys(ctx, r.params.values, x0, plan, names, "minimizer")
                val, xb = restricted(f, x0, rm, plan)
                ctx.check(r.fcn_min_val <= val + tol, "remaining-parameters-not-minimised", f"{mid} minimiser: {r.fcn_min_val} > {val}", fixed=ks)
                mz.release_params()
                r = mz.minimize(x0.copy(), get_hesse=False, verbose=0)
        except RuntimeError:
            ctx.ev("failed_fits:" + mid)
            return
        if r.succes:
            val, xb = fits.reminimise(f, x0, fits.scales(rm, x0))
            ctx.check(r.fcn_min_val <= val + tol, "released-parameters-still-fixed", f"{mid}: {r.fcn_min_val} > {val}", fixed=ks)
            ctx.ev("released")
    if plan.fix or plan.bound or plan.arg or plan.switch or plan.limits or what == "minimizer":
        ctx.seen(str(s.summary()), what, mid, str(plan.describe()))
    ctx.describe(model=s.summary(), minimizer=mid, calculation=what, restrictions=plan.describe())
