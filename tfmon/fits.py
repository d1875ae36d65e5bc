"""Shared pieces of the fit monitors: well-posed models, independent minimisation, tolerances.

The likelihood is in units where 0.5 is one standard deviation, so differences are judged in likelihood units:
Minuit stops at an estimated distance of 1e-4, SLSQP as soon as one step changes the likelihood by less than 1e-6 (which
leaves up to some 1e-2 in badly conditioned directions); TOL stays clear of the largest excess seen in sweeps on the
unchanged tree.
"""
import numpy as np
from scipy.optimize import minimize

from . import gen, ref
from .core import quiet

TOL = {"iminuit": 5e-3, "scipy": 1e-2}
MINIMIZERS = ("iminuit", "scipy")


def fit_spec(ctx, rng, data="toy", max_par=30, max_channels=2, max_proc=3, constraints=True, max_cond=60, dims=(1, 1, 1, 2), **kw):
    """Well-posed random model: separated shapes, populated bins, moderate uncertainties, conditioned correlations."""
    from .props.c06 import conditioned, tag_model
    for _ in range(20):
        s = gen.rand_spec(rng, fit=True, bins=(3, 8), max_channels=max_channels, max_proc=max_proc, dims=dims, n_events=(300, 1500),
                          allow_empty_bins=False, data=False, constraints=constraints, **kw)
        rm = s.reference()
        if rm.npar > max_par or not conditioned(rm):
            continue
        # bins per channel must be able to resolve its processes
        if any(c.nbins < len(c.templates) + 1 for c in rm.channels.values()):
            continue
        if max(np.linalg.cond(t.corr) for c in rm.channels.values() for t in c.templates.values()) > 1e5:
            continue
        if identifiability(rm) > max_cond:
            continue
        if data:
            model_data(rng, s, rm, data)
            rm = s.reference()
        tag_model(ctx, s)
        ctx.ev("large_yields", int(max(start_yields(rm)) > 1e5))
        return s, rm
    return None, None


def model_data(rng, s, rm, kind="toy", lo=0.8, hi=1.25, small=None):
    """Data drawn from (or equal to) the model's own expectation at displaced yields; returns the generating parameters."""
    n0 = len(s.processes)
    x = start_vector(rm)
    x[:n0] *= rng.uniform(lo, hi, n0)
    x[n0:] = 0
    if small is not None:     # a process that is hardly there, for moderate significances
        F = fisher(rm, np.where(np.arange(len(x)) == small, 0, x))
        x[small] = np.sqrt(np.linalg.inv(F)[small, small]) * rng.uniform(-1, 6)
        x[small] = max(x[small], 0)
    for c in s.channels:
        nu = rm.expectation(x, c["name"]).reshape([len(e) - 1 for e in c["edges"]])
        c["data"] = nu if kind == "asimov" else rng.poisson(nu).astype(float)
    return x


def fisher(rm, x):
    """Expected information matrix at x (Gauss-Newton form of the Hessian; exact for Asimov data)."""
    lay, npar = rm.layout()
    F = np.zeros((npar, npar))
    for c in rm.channels.values():
        nu = np.maximum(rm.expectation(x, c.name), 1e-6)
        J = jacobian(rm, x, c.name)
        F += J.T @ (J / nu[:, None])
        for p, t in c.templates.items():
            F[lay[c.name, p], lay[c.name, p]] += t.inv_corr
    for p, (v, e) in rm.constraints.items():
        k = rm.processes.index(p)
        F[k, k] += 1 / e ** 2
    return F


def jacobian(rm, x, name):
    """Analytic derivative of a channel's expectation with respect to all parameters: (bins, npar)."""
    lay, npar = rm.layout()
    c = rm.channels[name]
    J = np.zeros((c.nbins, npar))
    for p, t in c.templates.items():
        k, sl = rm.processes.index(p), lay[name, p]
        th = np.asarray(x[sl], dtype=float)
        if not np.any(t.counts):
            continue
        raw = t.counts * (1 + th * t.eps)
        S = raw.sum()
        J[:, k] += c.eff[p] * raw / S
        d = t.counts * t.eps
        J[:, sl] += x[k] * c.eff[p] * (np.diag(d) / S - np.outer(raw, d) / S ** 2)
    return J


def identifiability(rm):
    """Condition number of the correlation matrix of the yields (nuisances profiled) at the nominal state."""
    F = fisher(rm, start_vector(rm))
    if np.linalg.cond(F / np.sqrt(np.outer(np.diag(F), np.diag(F)))) > 1e10:
        return np.inf
    n0 = len(rm.processes)
    return np.linalg.cond(ref.correlation(np.linalg.inv(F)[:n0, :n0]))


def sigmas(rm, x, free=None):
    """Expected uncertainties of the parameters at x (zero for fixed ones)."""
    F = fisher(rm, x)
    free = np.ones(len(x), bool) if free is None else np.asarray(free)
    out = np.zeros(len(x))
    out[free] = np.sqrt(np.maximum(np.diag(np.linalg.inv(F[np.ix_(free, free)])), 0))
    return out


def start_yields(rm):
    out = []
    for p in rm.processes:
        y = [(c.templates[p].yield_, c.eff[p]) for c in rm.channels.values() if p in c.templates]
        out.append(sum(a for a, _ in y) / sum(b for _, b in y))
    return np.array(out)


def start_vector(rm):
    return np.concatenate([start_yields(rm), rm.nui()])


def scales(rm, x):
    """Typical sizes of the parameters (uncertainties) for numerical derivatives."""
    eff = np.array([sum(c.eff[p] for c in rm.channels.values() if p in c.templates) for p in rm.processes])
    eff = np.where(eff > 0, np.minimum(eff, 1), 1)
    y = np.abs(x[:len(rm.processes)])
    return np.concatenate([np.sqrt(y * eff + 1) / eff, np.ones(len(x) - len(rm.processes))])


def reminimise(f, x, scale, free=None, bounds=None):
    """Independent minimum over the free entries, starting at x: BFGS / L-BFGS-B on scaled parameters with restarts."""
    x = np.array(x, dtype=float)
    free = np.ones(len(x), bool) if free is None else np.asarray(free)
    if not free.any():
        return float(f(x)), x
    s = np.asarray(scale)[free]

    def g(u):
        y = x.copy()
        y[free] = u * s
        v = f(y)
        return v if np.isfinite(v) else 1e30
    best, u = None, x[free] / s
    b = None
    if bounds is not None:
        b = [(None if lo is None else lo / k, None if hi is None else hi / k) for (lo, hi), k in zip([bounds[i] for i in np.flatnonzero(free)], s)]
    for r in range(3):
        if b is None:
            res = minimize(g, u, method="BFGS", options=dict(gtol=1e-6, maxiter=400))
        else:
            res = minimize(g, u, method="L-BFGS-B", bounds=b, options=dict(ftol=1e-13, gtol=1e-6, maxiter=1000, maxfun=100000))
        done = best is not None and best - res.fun < 1e-7
        if best is None or res.fun < best:
            best, u = res.fun, res.x
        if done:
            break
    y = x.copy()
    y[free] = u * s
    return float(best), y


class InterruptedPasses:
    """Limits the function calls of chosen migrad passes, as if the call limit had been reached in a hard problem."""

    def __init__(self, limits):
        self.limits, self.seen = limits, 0

    def __enter__(self):
        import templatefitter.minimizer as tm
        self.saved = getattr(tm, "Minuit", None)
        if self.saved is not None:
            tm.Minuit = MinuitProxy(self)
        return self

    def __exit__(self, *_):
        import templatefitter.minimizer as tm
        if self.saved is not None:
            tm.Minuit = self.saved


class MinuitProxy:
    """Stands in for the Minuit class and for its instances."""

    def __init__(self, plan, obj=None):
        self.__dict__.update(_plan=plan, _obj=obj, _passes=0)

    def __call__(self, *a, **kw):
        return MinuitProxy(self._plan, self._plan.saved(*a, **kw))

    def __getattr__(self, name):
        v = getattr(self._plan.saved if self._obj is None else self._obj, name)
        if self._obj is None and name.startswith("from_"):
            return lambda *a, **kw: MinuitProxy(self._plan, v(*a, **kw))
        if name == "migrad":
            def migrad(*a, **kw):
                k = self._passes
                self.__dict__["_passes"] = k + 1
                if k < len(self._plan.limits) and self._plan.limits[k]:
                    self._plan.seen += 1
                    a, kw = (), dict(kw, ncall=self._plan.limits[k])
                return v(*a, **kw)
            return migrad
        return v

    def __setattr__(self, name, value):
        setattr(self._obj, name, value)


def do_fit(m, mid, fitter=None, **kw):
    """Runs a fit through the public interface. Returns the result, or None when the fit reports failure."""
    from templatefitter import TemplateFitter
    kw.setdefault("verbose", 0)
    with quiet():
        f = fitter or TemplateFitter(m, mid)
        try:
            r = f.do_fit(**kw)
        except RuntimeError:
            return None
    return r if r.succes else None
