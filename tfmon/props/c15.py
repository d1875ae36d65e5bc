"""C15 - side effects of fits, scans and significances; results are snapshots."""
import numpy as np

from .. import fits, gen
from ..core import quiet
from .c11 import full_snapshot, same_snapshot

CASES = dict(quick=150, thorough=2500)
RULE = ("random histories of fits with and without template update, profile scans, significances, bare minimisations, parameter updates, resets and "
        "data additions on one model and one fitter; deep snapshots of all templates and data before and after every calculation, every returned "
        "result is kept and compared with the copy taken when it was returned after each later step; non-trivial = at least one update and one "
        "later calculation; signature = model and history")
REQUIRED = ["large_yields", "fits_with_update", "fits_without_update", "profiles", "significances", "minimizations", "results_watched", "states_compared",
            "start_values_watched", "data_watched", "changes_between"]
ASSUMPTIONS = ["calculations that report failure are only required to leave data and, without update, templates unchanged"]


def copy_result(r):
    p = r.params
    return (float(r.fcn_min_val), bool(r.succes), list(p.names), np.array(p.values), np.array(p.errors), np.array(p.covariance), np.array(p.correlation))


def case(ctx, i):
    from templatefitter import TemplateFitter
    from templatefitter.minimizer import minimizer_factory
    rng = ctx.rng
    s, rm = fits.fit_spec(ctx, rng, data="toy", max_par=14, max_proc=3, eff=str(rng.choice(["any", "sum1", "default", "tiny"])), dims=(1, 1, 1, 1, 2))
    if s is None:
        ctx.ev("no_model")
        return
    n0 = len(s.processes)
    mid = str(rng.choice(fits.MINIMIZERS))
    m = s.build()
    x0 = fits.start_vector(rm)
    fitter = TemplateFitter(m, mid)
    data = {c["name"]: np.array(c["data"], dtype=float) for c in s.channels}
    kept, hist, updated, later = [], [], False, False
    mz = None

    def keep(r, what):
        kept.append((r, copy_result(r), what))

    def watch(after):
        for r, c, what in kept:
            g = copy_result(r)
            ctx.check(g[:3] == c[:3], "result-changed-later", f"result of {what} after {after}")
            for k, u, v in zip(("values", "errors", "covariance", "correlation"), g[3:], c[3:]):
                ctx.same(u, v, "result-changed-later", msg=f"{k} of {what} after {after}")
            ctx.ev("results_watched")
        for n, d in data.items():
            ctx.same(np.asarray(m.channels[n].data_bin_counts, dtype=float), d, "data-changed", msg=f"{n} after {after}")
            ctx.ev("data_watched")

    for step in range(int(rng.integers(4, 8))):
        op = str(rng.choice(["fit+", "fit+", "fit-", "fit-", "profile", "significance", "minimize", "minimize", "update", "reset", "data", "yield"]))
        hist.append(op)
        ctx.log(op)
        before = full_snapshot(m)
        if op in ("fit+", "fit-"):
            kw = dict(get_hesse=bool(rng.random() < 0.6), fix_nui_params=bool(rng.random() < 0.2))
            if op == "fit-" or rng.random() < 0.5:
                kw["update_templates"] = op == "fit+"
            r = fits.do_fit(m, mid, fitter if rng.random() < 0.7 else None, **kw)
            if op == "fit-":
                same_snapshot(ctx, before, full_snapshot(m), "fit-without-update-changes-the-model")
                ctx.ev("states_compared")
                ctx.ev("fits_without_update")
            if r is None:
                ctx.ev("failed_fits:" + mid)
                if op == "fit+":    # whatever a failed fit leaves behind, the next steps start from a defined state
                    m.reset_parameters()
                continue
            keep(r, op)
            if op == "fit+":
                x = np.array(r.params.values)
                lay, _ = rm.layout()
                for c in s.channels:
                    tot = 0
                    for t in c["templates"]:
                        T, k = m.channels[c["name"]].templates[t["process"]], s.processes.index(t["process"])
                        ctx.close(T.yield_param, x[k] * t["eff"], "template-yield-after-update", rtol=1e-12, atol=1e-12, channel=c["name"], process=t["process"])
                        ctx.same(np.asarray(T.nui_params, dtype=float), x[lay[c["name"], t["process"]]], "template-nuisances-after-update", channel=c["name"])
                        tot = tot + np.ravel(T.values)
                    ctx.close(tot, rm.expectation(x, c["name"]), "expectation-after-update", rtol=1e-9, atol=1e-9)
                ctx.close(m.create_nll().x0, x, "model-not-at-the-fitted-values", rtol=1e-9, atol=1e-9)
                ctx.close(m.create_nll()(m.create_nll().x0), r.fcn_min_val, "model-not-at-the-minimum", rtol=1e-7, atol=1e-6)
                ctx.ev("fits_with_update")
                updated = True
            else:
                later |= updated
        elif op in ("profile", "significance"):
            with quiet():
                try:
                    if op == "profile":
                        k = int(rng.integers(rm.npar))
                        p, v, h = fitter.profile(k if rng.random() < 0.5 else rm.names[k], num_cpu=int(rng.choice([1, 2])), num_points=2,
                                                 sigma=float(rng.choice([0.5, 1.0])), subtract_min=bool(rng.random() < 0.5))
                    else:
                        fitter.get_significance(str(rng.choice(s.processes)), verbose=0)
                except RuntimeError:
                    ctx.ev("failed_" + op)
            same_snapshot(ctx, before, full_snapshot(m), f"{op}-changes-the-model")
            ctx.ev("states_compared")
            ctx.ev("profiles" if op == "profile" else "significances")
            later |= updated
        elif op == "minimize":
            nll = m.create_nll()
            if mz is None or rng.random() < 0.4:
                mz = minimizer_factory(mid, nll, nll.param_names)
            start = np.array(nll.x0)
            start[:n0] *= rng.uniform(0.9, 1.1, n0)
            if rng.random() < 0.4:
                mz.set_param_fixed(int(rng.integers(rm.npar)))
            else:
                mz.release_params()
            s0 = start.copy()
            try:
                with quiet():
                    r = mz.minimize(start, get_hesse=bool(rng.random() < 0.5), verbose=0)
                keep(r, op)
            except RuntimeError:
                pass
            ctx.same(start, s0, "start-values-changed")
            same_snapshot(ctx, before, full_snapshot(m), "minimize-changes-the-model")
            ctx.ev("start_values_watched")
            ctx.ev("minimizations")
            later |= updated
        elif op == "update":
            x = x0.copy()
            x[:n0] *= rng.uniform(0.8, 1.2, n0)
            x[n0:] = rng.normal(0, 0.2, rm.npar - n0)
            y = x.copy()
            m.update_parameters(x)
            ctx.same(x, y, "start-values-changed")
        elif op == "reset":
            m.reset_parameters()
        elif op == "yield":
            k = int(rng.integers(n0))
            m.set_yield(s.processes[k], float(x0[k] * rng.uniform(0.8, 1.2)))
        elif op == "data":
            new = {c["name"]: rng.poisson(rm.channels[c["name"]].total.reshape(data[c["name"]].shape)).astype(float) for c in s.channels}
            m.add_data(**{c["name"]: s.data_hist(c, new[c["name"]]) for c in s.channels})
            data = new
            fitter = TemplateFitter(m, mid)
            mz = None
        if op in ("update", "reset", "yield", "data"):
            ctx.ev("changes_between")
        watch(op)
    if later:
        ctx.seen(str(s.summary()), tuple(hist), mid)
    ctx.describe(model=s.summary(), minimizer=mid, history=hist)
