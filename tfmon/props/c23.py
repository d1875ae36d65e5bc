"""C23 - both minimisers on generic problems with known optima, over histories on one minimiser object."""
import itertools

import numpy as np

from ..core import quiet

CASES = dict(quick=400, thorough=6000)
RULE = ("random smooth convex objectives (quadratic, log-cosh, Poisson, exponential) of 1-6 parameters at random scales with known optimum, value and "
        "Hessian; random histories of fix (name/index, repeated), release, bound (active, inactive, one-sided, removed), minimise (with and without "
        "uncertainties, extra arguments, error definitions) on one minimiser of each kind, with rejected accesses and failing, NaN, infinite and unbounded "
        "objectives in between; the restricted optimum is solved independently; non-trivial = a minimisation under at least one restriction or after a "
        "failure; signature = objective, dimension and history")
REQUIRED = ["minimised:iminuit", "minimised:scipy", "covariances:iminuit", "covariances:scipy", "fixed_by_name", "fixed_by_index", "all_fixed", "released",
            "bounded:active", "bounded:inactive", "bounds_removed", "without_hesse", "failures:nan", "failures:inf", "failures:raises", "failures:unbounded",
            "failures_reported", "minimised_after_failure", "rejections_observed", "accesses", "extra_arguments", "error_definitions", "factory",
            "objective:quadratic", "objective:logcosh", "objective:poisson", "objective:exponential", "list_starts", "zero_bounds", "hesse_matrices"]
ASSUMPTIONS = ["minima agree within 2e-3 (Minuit) and 3e-2 (SLSQP) in units of half a standard deviation squared; covariances within 3% of the uncertainties where no bound is active",
               "a failure that is reported (exception or unsuccessful result) is accepted for the injected faults only"]
FTOLS = dict(iminuit=2e-3, scipy=3e-2)   # SLSQP uses one-sided numerical gradients and stops at small steps


class Boom(Exception):
    pass


class Objective:
    """f(x) = c + sum_k h_k(u_k), u = B (x - m) / s, with known gradient, Hessian and unrestricted minimum m."""

    def __init__(self, rng, kind, n):
        self.kind, self.n = kind, n
        self.s = 10 ** rng.uniform(-0.5, 1.5, n)
        self.m = self.s * rng.normal(0, 4, n)
        near = rng.random(n) < 0.3      # optima close to zero, where bounds are often set
        self.m[near] = self.s[near] * (rng.uniform(0.5, 3, n) * rng.choice([-1, 1], n))[near]
        self.c = float(rng.choice([0.0, 1.0, rng.normal(0, 100)]))
        q, _ = np.linalg.qr(rng.normal(0, 1, (n, n)))
        B = q @ np.diag(10 ** rng.uniform(-0.4, 0.4, n)) @ np.linalg.qr(rng.normal(0, 1, (n, n)))[0]
        if rng.random() < 0.2:
            B = np.diag(10 ** rng.uniform(-0.3, 0.3, n))
        self.B = B / self.s
        if kind == "poisson":    # yields m > 0 with shapes; sum nu - n log nu, expectation == data at the optimum
            self.m = rng.uniform(200, 2000, n)
            P = rng.dirichlet(np.ones(n + 3) * 0.5, n).T * 0.6 + 0.4 * np.eye(n + 3, n)
            self.P = P / P.sum(axis=0)
            self.data = self.P @ self.m
            self.s = np.sqrt(np.diag(np.linalg.inv(self.hess(self.m))))
        self.mode, self.calls, self.shift = None, 0, 0.0

    def value(self, x, shift=None):
        x = np.asarray(x, dtype=float) - (self.shift if shift is None else shift) * self.s
        if self.kind == "poisson":
            nu = self.P @ x
            with np.errstate(all="ignore"):
                t = nu - self.data + self.data * np.log(self.data / nu)
            return self.c + float(np.sum(t)) if np.all(nu > 0) else self.c + 1e6 * (1 + float(np.sum(np.abs(nu[nu <= 0]))))
        u = self.B @ (x - self.m)
        if self.kind == "quadratic":
            return self.c + 0.5 * float(u @ u)
        if self.kind == "logcosh":
            a = np.abs(u / 2)
            return self.c + 4 * float(np.sum(a + np.log1p(np.exp(-2 * a)) - np.log(2)))
        k = np.clip(0.3 * u, -50, 50)
        return self.c + float(np.sum(np.exp(k) - 1 - k)) / 0.09

    def hess(self, x):
        x = np.asarray(x, dtype=float) - getattr(self, "shift", 0.0) * self.s
        if self.kind == "poisson":
            nu = self.P @ x
            return self.P.T @ (self.P * (self.data / nu ** 2)[:, None])
        u = self.B @ (x - self.m)
        if self.kind == "quadratic":
            d = np.ones_like(u)
        elif self.kind == "logcosh":
            d = 1 / np.cosh(u / 2) ** 2
        else:
            d = np.exp(0.3 * u)
        return self.B.T @ (self.B * d[:, None])

    def grad(self, x):
        x = np.asarray(x, dtype=float) - self.shift * self.s
        if self.kind == "poisson":
            nu = self.P @ x
            return self.P.T @ (1 - self.data / nu)
        u = self.B @ (x - self.m)
        if self.kind == "quadratic":
            d = u
        elif self.kind == "logcosh":
            d = 2 * np.tanh(u / 2)
        else:
            d = (np.exp(0.3 * u) - 1) / 0.3
        return self.B.T @ d

    @property
    def best(self):
        return self.m + self.shift * self.s

    def __call__(self, x, *args):
        self.calls += 1
        if self.mode is not None:
            what, after = self.mode
            if self.calls > after:
                if what == "raises":
                    raise Boom("objective fails")
                if what == "nan":
                    return float("nan")
                if what == "inf":
                    return float("inf")
                if what == "unbounded":
                    return -float(np.sum(np.asarray(x) / self.s))
        return self.value(x, args[0] if args else None)

    def optimum(self, x0, fixed, bounds):
        """Restricted minimum by damped Newton steps over every active set of the bounds."""
        n = self.n
        b = [k for k in range(n) if not fixed[k] and bounds[k] != (None, None)]
        best = None
        for act in itertools.product((0, 1, 2), repeat=len(b)):
            x, hold = self.best.copy(), np.array(fixed)
            x[hold] = np.asarray(x0, float)[hold]
            ok = True
            for k, a in zip(b, act):
                if a:
                    if bounds[k][a - 1] is None:
                        ok = False
                        break
                    x[k], hold[k] = bounds[k][a - 1], True
            if not ok:
                continue
            x = self.newton(x, ~hold)
            if x is None:       # the reference has not found the minimum
                return None
            if any((bounds[k][0] is not None and x[k] < bounds[k][0] - 1e-9 * self.s[k]) or
                                (bounds[k][1] is not None and x[k] > bounds[k][1] + 1e-9 * self.s[k]) for k in b):
                continue
            v = self.value(x)
            if best is None or v < best[0]:
                best = (v, x, any(act))
        return best

    def newton(self, x, free):
        f = np.ix_(free, free)
        if not free.any():
            return x
        for _ in range(200):
            g = self.grad(x)[free]
            if np.max(np.abs(g) * self.s[free]) < 1e-10:
                return x
            step = np.linalg.solve(self.hess(x)[f], -g)
            t, v = 1.0, self.value(x)
            while t > 1e-8:
                y = x.copy()
                y[free] += t * step
                if self.value(y) <= v:
                    break
                t /= 2
            if t <= 1e-8:
                break
            x = y
        return x if np.max(np.abs(self.grad(x)[free]) * self.s[free]) < 1e-3 else None


class Machine:
    """One minimiser with the expected state of its restrictions."""

    def __init__(self, ctx, rng, kind, obj, names):
        from templatefitter.minimizer import minimizer_factory
        self.ctx, self.rng, self.kind, self.obj, self.names = ctx, rng, kind, obj, names
        self.n = len(names)
        spell = str(rng.choice([kind, kind.upper(), kind.capitalize()]))
        self.m = minimizer_factory(spell, obj, list(names))
        ctx.ev("factory")
        self.fixed = np.zeros(self.n, bool)
        self.bounds = [(None, None)] * self.n
        self.kept = []
        self.failed = False

    def pid(self, k):
        return int(k) if self.rng.random() < 0.5 else self.names[k]

    def fix(self):
        ctx, rng = self.ctx, self.rng
        ks = np.arange(self.n) if rng.random() < 0.08 else rng.permutation(self.n)[:int(rng.integers(1, max(2, self.n)))]
        for k in ks:
            p = self.pid(k)
            self.m.set_param_fixed(p)
            ctx.ev("fixed_by_" + ("name" if isinstance(p, str) else "index"))
            self.fixed[k] = True
            ctx.log("fix", p)

    def release(self):
        self.m.release_params()
        self.fixed[:] = False
        self.ctx.ev("released")
        self.ctx.log("release")

    def bound(self):
        rng, o = self.rng, self.obj
        k = int(rng.integers(self.n))
        if rng.random() < 0.25:
            b = (None, None)
            self.ctx.ev("bounds_removed")
        else:
            best, s = o.best[k], o.s[k]
            a = best + s * rng.uniform(0.5, 3) * rng.choice([-1, 1])
            if o.kind != "poisson" and 0.4 * s < abs(best) < 3.5 * s and rng.random() < 0.6:
                a = 0.0
                self.ctx.ev("zero_bounds")
            w = abs(a - best) + s * rng.uniform(1, 3)
            b = (a, a + 2 * w) if rng.random() < 0.5 else (a - 2 * w, a)
            z = rng.random()
            if z < 0.25:
                b = (b[0], None)
            elif z < 0.5:
                b = (None, b[1])
            if o.kind == "poisson" and b[0] is not None and b[0] < 0:
                b = (0.0, b[1])
        p = self.pid(k)
        self.m.set_param_bounds(p, b)
        self.bounds[k] = b
        self.ctx.log("bounds", p, b)

    def start(self, near=False):
        rng, o = self.rng, self.obj
        x0 = o.best + o.s * rng.normal(0, 0.5 if near else 2.5, self.n)
        if o.kind == "poisson":
            x0 = np.maximum(x0, 0.3 * o.m)
        for k, (lo, hi) in enumerate(self.bounds):
            e = o.s[k] * rng.uniform(0.2, 1)
            if lo is not None and x0[k] <= lo + 0.1 * o.s[k]:
                x0[k] = lo + min(e, (hi - lo) / 2 if hi is not None else e)
            if hi is not None and x0[k] >= hi - 0.1 * o.s[k]:
                x0[k] = hi - min(e, (hi - lo) / 2 if lo is not None else e)
        return x0

    def call(self, x0, **kw):
        """Runs the minimiser; returns the result or the exception it raised."""
        rng = self.rng
        start = [float(v) for v in x0] if rng.random() < 0.2 else np.array(x0)
        if isinstance(start, list):
            self.ctx.ev("list_starts")
        keep = np.array(start)
        self.obj.calls = 0
        try:
            with quiet():
                r = self.m.minimize(start, **(dict(verbose=0, **kw) if self.kind == "iminuit" else kw))
        except Exception as e:  # judged by the caller
            return e
        finally:
            self.ctx.same(np.array(start), keep, "start-values-changed")
        return r

    def minimise(self):
        ctx, rng, o = self.ctx, self.rng, self.obj
        x0 = self.start()
        hesse = rng.random() < 0.75
        kw, args, errordef = dict(), (), 0.5
        if not hesse:
            kw["get_hesse"] = False
            ctx.ev("without_hesse")
        o.shift = 0.0
        if self.kind == "scipy" and rng.random() < 0.3:
            o.shift = float(rng.normal(0, 0.3))
            kw["additional_args"] = (o.shift,)
            ctx.ev("extra_arguments")
        if self.kind == "iminuit" and rng.random() < 0.3:
            errordef = float(rng.choice([0.5, 1.0, 2.0]))
            kw["errordef"] = errordef
            ctx.ev("error_definitions")
        opt = o.optimum(x0, self.fixed, self.bounds)
        if opt is None:
            o.shift = 0.0
            return
        v, x, active = opt
        if v > o.c + 1e5:
            o.shift = 0.0
            return
        ctx.log("minimise", self.kind, x0, kw)
        r = self.call(x0, **kw)
        info = dict(objective=o.kind, kind=self.kind, fixed=self.fixed, bounds=self.bounds, start=x0, optimum=x, value=v, shift=o.shift)
        for again in range(3):     # the backends may give up, very rarely; not again and again from starts close to the optimum
            if not (isinstance(r, RuntimeError) or (not isinstance(r, Exception) and not r.succes)):
                break
            ctx.ev("gave_up")
            x0 = np.where(self.fixed, x0, x + 0.3 ** again * (np.asarray(x0) - x) * 0.5)
            r = self.call(x0, **kw)
        if isinstance(r, Exception):
            raise r
        ctx.check(r.succes is True or r.succes is np.True_ or r.succes == True, "convex-problem-not-solved", f"{r}", **info)  # noqa: E712
        ctx.ev("minimised:" + self.kind)
        ctx.ev("objective:" + o.kind)
        if self.failed:
            ctx.ev("minimised_after_failure")
        got = np.array(r.params.values, dtype=float)
        ctx.close(r.fcn_min_val, o.value(got), "reported-value", rtol=1e-9, atol=1e-9, **info)
        ctx.close(got[self.fixed], np.asarray(x0)[self.fixed], "fixed-parameter-moved", rtol=1e-9, atol=1e-9, **info)
        if self.fixed.all():
            ctx.ev("all_fixed")
        for k, (lo, hi) in enumerate(self.bounds):
            if (lo, hi) != (None, None) and not self.fixed[k]:
                e = 1e-6 * o.s[k]
                ctx.check((lo is None or got[k] >= lo - e) and (hi is None or got[k] <= hi + e), "bound-violated", f"{k} {got[k]} {lo} {hi}", **info)
                ctx.ev("bounded:active" if (active and (x[k] == lo or x[k] == hi)) else "bounded:inactive")
        ctx.check(r.fcn_min_val <= v + FTOLS[self.kind] * errordef / 0.5, "not-the-minimum", f"{r.fcn_min_val - v} above the minimum", got=got, **info)
        ctx.check(r.fcn_min_val >= v - 1e-5 * max(1, abs(v)), "below-the-minimum", f"{r.fcn_min_val - v}", got=got, **info)
        d = (got - x)[~self.fixed]
        H = o.hess(x)[np.ix_(~self.fixed, ~self.fixed)]
        if not active and d.size:
            ctx.check(d @ H @ d <= 4 * FTOLS[self.kind] * max(errordef / 0.5, 1) + 1e-6, "values-not-at-the-optimum", f"{d @ H @ d}", got=got, **info)
        near_bound = any(b is not None and not self.fixed[k] and abs(x[k] - b) < 0.3 * o.s[k] for k in range(self.n) for b in self.bounds[k])
        if hesse and not near_bound:
            want = np.zeros((self.n, self.n))
            f = np.ix_(~self.fixed, ~self.fixed)
            if d.size:
                want[f] = np.linalg.inv(o.hess(got)[f]) * errordef * 2
            C = np.array(r.params.covariance, dtype=float)
            sg = np.sqrt(np.diag(want))
            ctx.check(C.shape == want.shape, "covariance-shape", f"{C.shape}", **info)
            bounded = self.kind == "iminuit" and any(self.bounds[k] != (None, None) and not self.fixed[k] for k in range(self.n))
            tol = 0.03 if not bounded else 0.15   # Minuit's internal parameters are non-linear in bounded ones
            ctx.check(np.all(np.abs(C - want) <= tol * np.outer(sg, sg) + 1e-300), "covariance", f"{C} instead of {want}", **info)
            E = np.array(r.params.errors, dtype=float)
            ctx.check(E.shape == (self.n,) and np.all(E[self.fixed] == 0) and np.all(E[~self.fixed] > 0), "errors", f"{E}", **info)
            if not bounded:    # (Minuit averages the two sides of bounded parameters)
                ctx.close(E, np.sqrt(np.maximum(np.diag(C), 0)), "errors", rtol=1e-4, atol=1e-12 * np.max(sg, initial=0), **info)
            with np.errstate(all="ignore"):
                R = np.nan_to_num(C / np.sqrt(np.outer(np.diag(C), np.diag(C))))
            ctx.close(r.params.correlation, R, "correlation", rtol=1e-9, atol=1e-9, **info)
            ctx.ev("covariances:" + self.kind)
        # the minimiser shows the same as the result
        ctx.same(self.m.param_values, got, "minimiser-state")
        ctx.close(self.m.fcn_min_val, r.fcn_min_val, "minimiser-state", rtol=0, atol=0)
        if hesse:
            ctx.same(self.m.param_errors, r.params.errors, "minimiser-state")
            ctx.same(self.m.param_covariance, r.params.covariance, "minimiser-state")
            ctx.same(self.m.param_correlation, r.params.correlation, "minimiser-state")
        self.access(r.params)
        self.access(self.m.params)
        self.kept.append((r, [np.array(q, copy=True) for q in (r.params.values, r.params.errors, r.params.covariance, r.params.correlation)], r.fcn_min_val))
        o.shift = 0.0

    def access(self, p):
        ctx, rng = self.ctx, self.rng
        ctx.check(list(p.names) == list(self.names) and p.num_params == self.n, "parameter-names", f"{p.names}")
        for k in range(self.n):
            for q in (k, self.names[k]):
                ctx.same(p.get_param_value(q), p.values[k], "access-by-id", f"{q!r}")
                ctx.same(p.get_param_error(q), p.errors[k], "access-by-id", f"{q!r}")
                ctx.same(np.array(p[q]), np.array([p.values[k], p.errors[k]]), "access-by-id", f"{q!r}")
                ctx.check(p.param_id_to_index(q) == k, "access-by-id", f"{q!r}")
                ctx.ev("accesses", 4)
        s = str(p)
        ctx.check(all(q in s for q in self.names), "parameters-not-shown", s)
        for bad in ("nope", self.n, -1, self.n + 3, 0.0, None):
            for g in (p.get_param_value, p.get_param_error, p.param_id_to_index, p.__getitem__, self.m.set_param_fixed,
                      lambda q: self.m.set_param_bounds(q, (0, 1))):
                if rng.random() < 0.3:
                    ctx.raises(Exception, lambda: g(bad), "unknown-parameter-accepted", f"{bad!r}")

    def setters(self):
        """Assignments of wrong length are rejected and change nothing, ones of the right length are taken over."""
        from templatefitter.minimizer import Parameters
        ctx, rng, n = self.ctx, self.rng, self.n
        p = Parameters(list(self.names))
        ctx.same(p.values, np.zeros(n), "initial-parameters")
        ctx.same(p.covariance, np.zeros((n, n)), "initial-parameters")
        v, e = rng.normal(0, 1, n), rng.uniform(0, 1, n)
        p.values, p.errors = v.copy(), e.copy()
        for bad in (n + 1, n - 1, 0, 2 * n):
            if bad == n:
                continue
            ctx.raises(ValueError, lambda: setattr(p, "values", np.ones(bad)), "wrong-length-accepted", f"{bad} of {n}")
            ctx.raises(ValueError, lambda: setattr(p, "errors", np.ones(bad)), "wrong-length-accepted", f"{bad} of {n}")
        ctx.same(p.values, v, "rejected-assignment-changed-values")
        ctx.same(p.errors, e, "rejected-assignment-changed-values")
        self.access(p)

    def wrong_start(self):
        x0 = self.start()
        bad = np.concatenate([x0, [1.0]]) if self.rng.random() < 0.5 or self.n == 1 else x0[:-1]
        r = self.call(bad)
        self.ctx.check(isinstance(r, Exception), "wrong-length-accepted", f"{len(bad)} start values for {self.n} parameters: {r}")
        self.ctx.ev("rejections_observed")

    def failing(self):
        ctx, rng, o = self.ctx, self.rng, self.obj
        what = str(rng.choice(["nan", "inf", "raises", "unbounded"]))
        after = 0 if rng.random() < 0.6 or what == "unbounded" else int(rng.integers(1, 12))
        if self.fixed.all() and what == "unbounded":
            return
        if what == "unbounded" and any(b != (None, None) for b in self.bounds):
            return
        x0 = self.start()
        o.mode = (what, after)
        opt = o.optimum(x0, self.fixed, self.bounds)
        ctx.log("failing", what, after)
        r = self.call(x0)
        reached = o.calls > after
        o.mode = None
        if not reached:
            return
        ctx.ev("failures:" + what)
        if what == "unbounded":     # no minimum to find: only a disturbance of the history, the verdict is the backend's
            self.failed = True
            return
        if isinstance(r, Exception):
            if what == "raises" and not isinstance(r, (Boom, RuntimeError, SystemError)):
                raise r
            ctx.ev("failures_reported")
        elif not r.succes:
            ctx.ev("failures_reported")
        else:
            v = np.array(r.params.values, dtype=float)
            ok = np.isfinite(r.fcn_min_val) and np.all(np.isfinite(v)) and opt is not None and abs(r.fcn_min_val - opt[0]) < FTOLS[self.kind] + 1e-5 * abs(opt[0]) and abs(o.value(v) - r.fcn_min_val) < 1e-6 * max(1, abs(r.fcn_min_val))
            ctx.check(ok, "failure-reported-as-success", f"{what} after {after} calls: {r.fcn_min_val} at {v}, errors {r.params.errors}",
                      kind=self.kind, objective=o.kind, start=x0, optimum=opt)
        self.failed = True

    def curvature(self):
        """The Hesse matrix of a function at a point, also after the function has changed."""
        from templatefitter.minimizer import ScipyMinimizer
        ctx, rng, o = self.ctx, self.rng, self.obj
        x = o.best + o.s * rng.normal(0, 0.3, self.n)
        if o.kind == "poisson":
            x = np.maximum(x, 0.5 * o.m)
        for how in (0, 1):
            o.shift = 0.0 if how == 0 else float(rng.uniform(0.2, 0.6)) * (o.kind != "poisson")
            want = o.hess(x)
            y = x.copy()
            got = np.asarray(ScipyMinimizer.calculate_hesse_matrix(o, y if rng.random() < 0.7 else tuple(y), (o.shift,) if rng.random() < 0.4 else ()))
            ctx.same(y, x, "point-changed")
            sc = np.sqrt(np.diag(want))
            ctx.check(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-3 * np.outer(sc, sc)), "hesse-matrix", f"{got} instead of {want}", objective=o.kind, point=x, shift=o.shift)
            ctx.ev("hesse_matrices")
        o.shift = 0.0

    def unchanged(self):
        for r, arrays, v in self.kept:
            for a, b in zip(arrays, (r.params.values, r.params.errors, r.params.covariance, r.params.correlation)):
                self.ctx.same(b, a, "earlier-result-changed")
            self.ctx.check(r.fcn_min_val == v, "earlier-result-changed")


def case(ctx, i):
    rng = ctx.rng
    kind = ("quadratic", "logcosh", "poisson", "exponential")[i % 4]
    n = int(rng.choice([1, 2, 2, 3, 4, 6]))
    obj = Objective(rng, kind, n)
    names = [f"par_{k}" for k in rng.permutation(n)] if rng.random() < 0.4 else \
        [str(q) for q in rng.permutation(["b_yield", "b_yield_2", "b", "bb_yield", "b_", "b_yield_22"])[:n]] if rng.random() < 0.5 else [f"{'abcdef'[k]} yield" for k in range(n)]
    hist = []
    with np.errstate(all="ignore"):
        for mk in ("iminuit", "scipy"):
            from templatefitter.minimizer import minimizer_factory
            M = Machine(ctx, rng, mk, obj, names)
            hist.append(mk)
            M.access(M.m.params)
            for _ in range(int(rng.integers(4, 11))):
                op = str(rng.choice(["fix", "release", "bound", "minimise", "failing", "setters", "wrong"], p=[0.2, 0.1, 0.15, 0.36, 0.12, 0.04, 0.03]))
                hist.append(op)
                dict(fix=M.fix, release=M.release, bound=M.bound, minimise=M.minimise, failing=M.failing, setters=M.setters, wrong=M.wrong_start)[op]()
            if rng.random() < 0.5:
                M.release()
            M.minimise()
            M.unchanged()
            if mk == "scipy" and rng.random() < 0.4:
                M.curvature()
    ctx.raises(Exception, lambda: minimizer_factory("nope", obj, list(names)), "unknown-minimiser-accepted")
    ctx.seen(kind, n, tuple(hist))
    ctx.describe(objective=kind, parameters=n, history=hist)
