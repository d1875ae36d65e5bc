"""C20 - post-fit bin covariances against Gaussian propagation with the analytic Jacobian of the reference model."""
import numpy as np

from .. import fits, gen
from .c06 import tag_model
from .c11 import full_snapshot, same_snapshot

CASES = dict(quick=200, thorough=3000)
RULE = ("random models (1-3 channels, 1D/2D, processes missing in channels, permuted orders, systematics, empty bins); parameters and covariances from "
        "real fits of both minimisers (free, with fixed parameters or nuisances) and synthetic ones (dense, low-rank, diagonal, zero rows); propagated "
        "covariance of every channel compared with J C J^T for the analytic Jacobian over all fit parameters; bin counts from channel parameters compared "
        "with the templates; in any state of the templates; non-trivial = covariance with off-diagonal entries; signature = model and covariance kind")
REQUIRED = ["channels_compared", "real_fits:iminuit", "real_fits:scipy", "synthetic:dense", "synthetic:lowrank", "synthetic:diagonal", "synthetic:zero-rows",
            "uncertainties_compared", "bin_counts_compared", "after_update", "multi_channel_models", "missing_process_models", "two_dim_models",
            "reordered_channels", "fixed_parameters", "purity_checks"]
ASSUMPTIONS = ["agreement within 1e-5 of the bin uncertainties (the code differentiates numerically)"]


def synthetic(rng, x, kind):
    n = len(x)
    s = np.concatenate([np.abs(x)]) * rng.uniform(0.01, 0.2, n) + rng.uniform(0.01, 1, n)
    if kind == "dense":
        a = rng.normal(0, 1, (n, n + 3))
        R = a @ a.T
        d = np.sqrt(np.diag(R))
        C = R / np.outer(d, d)
    elif kind == "lowrank":
        a = rng.normal(0, 1, (n, 2))
        C = a @ a.T
    elif kind == "diagonal":
        C = np.eye(n)
    else:
        a = rng.normal(0, 1, (n, n + 3))
        C = a @ a.T / n
        z = rng.random(n) < 0.4
        C[z] = 0
        C[:, z] = 0
    return C * np.outer(s, s)


def compare(ctx, m, s, rm, params, key, **info):
    x, C = np.array(params.values, dtype=float), np.array(params.covariance, dtype=float)
    for c in s.channels:
        n = c["name"]
        ch = m.channels[n]
        got = np.array(ch.propagate_parameter_uncertainties(params), dtype=float)
        J = fits.jacobian(rm, x, n)
        want = J @ C @ J.T
        want = (want + want.T) / 2
        d = np.sqrt(np.maximum(np.diag(want), 0))
        ctx.check(got.shape == want.shape, key + ":shape", f"{got.shape}")
        # numerical differentiation error: relative to the largest gradient contributions
        scale = np.outer(d, d) + 1e-5 * np.max(d) * (d[:, None] + d[None, :]) + 1e-10 * np.max(d) ** 2
        A = np.abs(J) + 1e-10 * (1 + np.max(np.abs(rm.expectation(x, n))))
        mag = A @ np.abs(C) @ A.T       # rounding of the derivatives and of the sums themselves
        scale = scale + 1e-9 * np.max(mag) + 1e-300
        dev = np.max(np.abs(got - want) / scale)
        ctx.check(dev < 1e-4, key, f"channel {n}: deviation {dev}", got=np.sqrt(np.abs(np.diag(got))), want=d, channel=n, **info)
        ctx.check(np.max(np.abs(got - got.T) / scale) < 1e-6, key + ":not-symmetric", n)
        ctx.check(np.all(np.diag(got) >= -1e-9 * scale.diagonal()), key + ":negative-variance", n)
        u = np.array(ch.get_post_fit_bin_uncertainty(params), dtype=float)
        ctx.close(u, d, key + ":uncertainty", rtol=1e-4, atol=1e-5 * np.max(d) + 1e-6 * np.sqrt(np.max(mag)) + 1e-12, channel=n, **info)
        ctx.ev("channels_compared")
        ctx.ev("uncertainties_compared", len(u))
        order = [s.processes.index(t["process"]) for t in c["templates"]]
        ctx.ev("reordered_channels", int(order != sorted(order) or order != list(range(len(s.processes)))))


def channel_values(s, rm, x, c):
    lay, _ = rm.layout()
    return np.concatenate([[x[s.processes.index(t["process"])] for t in c["templates"]]] + [x[lay[c["name"], t["process"]]] for t in c["templates"]])


def counts(ctx, m, s, rm, x, templates):
    for c in s.channels:
        ch = m.channels[c["name"]]
        v = channel_values(s, rm, x, c)
        w = v.copy()
        got = np.ravel(ch.bin_counts_from_param_values(v))
        ctx.close(got, rm.expectation(x, c["name"]), "bin-counts-from-parameters", rtol=1e-9, atol=1e-9, channel=c["name"])
        ctx.same(v, w, "parameters-changed")
        if templates:
            tot = sum(np.ravel(t.values) for t in ch.templates.values())
            ctx.close(got, tot, "bin-counts-differ-from-templates", rtol=1e-9, atol=1e-9, channel=c["name"])
        ctx.ev("bin_counts_compared")


def case(ctx, i):
    from templatefitter import TemplateFitter
    from templatefitter.minimizer import Parameters
    rng = ctx.rng
    if i % 3 == 0:
        s, rm = fits.fit_spec(ctx, rng, data="toy", max_par=26, max_proc=3, eff=str(rng.choice(["any", "sum1", "default"])), max_cond=25, max_channels=3)
        if s is None:
            ctx.ev("no_model")
            return
        mid = str(rng.choice(fits.MINIMIZERS))
        m = s.build()
        fitter = TemplateFitter(m, mid)
        mode = str(rng.choice(["free", "fix", "nui"]))
        if mode == "fix":
            for k in rng.permutation(rm.npar)[:int(rng.integers(1, max(2, rm.npar // 2)))]:
                fitter.set_parameter_fixed(int(k))
        upd = bool(rng.random() < 0.6)
        r = fits.do_fit(m, mid, fitter, update_templates=upd, fix_nui_params=mode == "nui")
        if r is None:
            ctx.ev("failed_fits:" + mid)
            return
        if mode != "free":
            ctx.ev("fixed_parameters")
        before = full_snapshot(m)
        cov = np.array(r.params.covariance)
        compare(ctx, m, s, rm, r.params, "propagation", minimizer=mid, mode=mode, model=s.summary())
        same_snapshot(ctx, before, full_snapshot(m), "propagation-changes-the-model")
        ctx.same(r.params.covariance, cov, "propagation-changes-the-result")
        ctx.ev("purity_checks")
        counts(ctx, m, s, rm, np.array(r.params.values), upd)
        ctx.ev("after_update", int(upd))
        ctx.ev("real_fits:" + mid)
        if not upd and rng.random() < 0.5:      # the state of the templates makes no difference
            m.update_parameters(np.array(r.params.values) * 1.1)
            compare(ctx, m, s, rm, r.params, "propagation-depends-on-the-state", model=s.summary())
        ctx.seen(str(s.summary()), mid, mode)
        ctx.describe(model=s.summary(), minimizer=mid, mode=mode)
        return
    s = gen.rand_spec(rng, bins=(1, 6), n_events=(20, 300), data="toy", eff=str(rng.choice(["any", "any", "default"])))
    rm = s.reference()
    if rm.npar > 110:
        ctx.ev("too_large")
        return
    tag_model(ctx, s)
    m = s.build(data=bool(rng.random() < 0.5))
    names = list(rm.names)
    kinds = []
    for rep in range(2):
        x = gen.rand_params(rng, rm, spread=0.5)
        kind = str(rng.choice(["dense", "lowrank", "diagonal", "zero-rows"]))
        p = Parameters(names)
        p.values = x.copy()
        p.covariance = synthetic(rng, x, kind)
        p.errors = np.sqrt(np.diag(p.covariance))
        if rng.random() < 0.5:
            m.update_parameters(gen.rand_params(rng, rm))
        before = full_snapshot(m)
        compare(ctx, m, s, rm, p, "propagation", kind=kind, model=s.summary())
        same_snapshot(ctx, before, full_snapshot(m), "propagation-changes-the-model")
        ctx.same(p.values, x, "propagation-changes-the-parameters")
        ctx.ev("purity_checks")
        m.update_parameters(x.copy())
        counts(ctx, m, s, rm, x, True)
        ctx.ev("synthetic:" + kind)
        kinds.append(kind)
    ctx.seen(str(s.summary()), tuple(kinds))
    ctx.describe(model=s.summary(), covariances=kinds)
