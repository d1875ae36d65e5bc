"""A deterministic analysis program: everything the library computes for one specification, as a flat list of labelled numbers.

Run in the monitored process, in fresh interpreters (python -m tfmon.program SEED...), in threads and in forked workers; the
same specification must give the same numbers everywhere.
"""
import json
import sys

import numpy as np


def build_spec(key):
    from . import fits

    class Sink:
        def ev(self, *a, **k):
            pass
    rng = np.random.default_rng(key)
    s, rm = fits.fit_spec(Sink(), rng, data="toy", max_par=15, dims=(1, 1, 2))
    return s, rm, rng


def run(s, rm, rng, model=None, toys=True, mids=("iminuit", "scipy"), out=None):
    """Returns [(label, value), ...]; values are floats, strings or lists of them."""
    from templatefitter import TemplateFitter
    from templatefitter.stats import cowan_binned_likelihood_gof, pearson_chi2_test
    out = [] if out is None else out
    m = s.build() if model is None else model
    nll = m.create_nll()
    out.append(("names", list(nll.param_names)))
    out.append(("channels", list(m.channels)))
    out.append(("x0", nll.x0.tolist()))
    for c in m.channels.values():
        for p, t in c.templates.items():
            out.append((f"template:{c.name}:{p}", np.concatenate([np.ravel(t.values), np.ravel(t.errors), np.ravel(t.cov_mat)]).tolist()))
            out.append((f"inv_corr:{c.name}:{p}", np.ravel(t.inv_corr_mat).tolist()))
    n0 = len(rm.processes)
    for k in range(3):
        x = np.array(nll.x0) * np.concatenate([rng.uniform(0.7, 1.4, n0), np.ones(rm.npar - n0)])
        x[n0:] = rng.normal(0, 0.7, rm.npar - n0)
        out.append((f"nll{k}", float(nll(x))))
    if toys:
        T = m.generate_toy_dataset()
        out.append(("toy", np.concatenate([np.ravel(T[c].bin_counts) for c in m.channels]).tolist()))
    A = m.generate_asimov_dataset()
    out.append(("asimov", np.concatenate([np.ravel(A[c].bin_counts) for c in m.channels]).tolist()))
    x0 = np.array(nll.x0)
    for mid in mids:
        try:
            r = TemplateFitter(m, mid).do_fit(verbose=0, update_templates=True)
        except RuntimeError:
            r = None
        ok = bool(r is not None and r.succes)
        out.append((f"success:{mid}", [float(ok)]))
        if ok:
            out.append((f"minimum:{mid}", float(r.fcn_min_val)))
            out.append((f"fit:{mid}", np.asarray(r.params.values).tolist()))
            out.append((f"errors:{mid}", np.asarray(r.params.errors).tolist()))
            for c in m.channels.values():
                out.append((f"post_fit:{mid}:{c.name}", np.ravel(c.get_post_fit_bin_uncertainty(r.params)).tolist()))
                nu = np.ravel(sum(t.values for t in c.templates.values()))
                d = np.ravel(c.data_bin_counts)
                out.append((f"gof:{mid}:{c.name}", [float(v) for v in (*pearson_chi2_test(d, nu, 3), *cowan_binned_likelihood_gof(d, nu, 3))]))
            p = rm.processes[-1]
            m.update_parameters(x0.copy())
            try:
                out.append((f"significance:{mid}", float(TemplateFitter(m, mid).get_significance(p, verbose=0))))
            except RuntimeError:
                out.append((f"significance:{mid}", -1.0))
        m.update_parameters(x0.copy())
    return out


RTOL = dict(nll=1e-10, template=1e-12, inv_corr=1e-9, asimov=1e-12, x0=1e-12)


def compare(ctx, got, want, key):
    """Names, data sets and evaluated numbers agree to rounding; fits within their own tolerance (a hundredth of an error)."""
    ctx.check([a for a, _ in got] == [a for a, _ in want], key + ":other-steps", got=[a for a, _ in got], want=[a for a, _ in want])
    errs = {a: np.asarray(v) for a, v in want if a.startswith("errors:")}
    for (a, g), (_, w) in zip(got, want):
        if not a.startswith(("names", "channels")):     # undefined (negative expectations) is the same answer as undefined
            g, w = np.atleast_1d(np.array(g, dtype=float)), np.atleast_1d(np.array(w, dtype=float))
            both = np.isnan(g) & np.isnan(w) if g.shape == w.shape else False
            g, w = np.where(both, 0.0, g), np.where(both, 0.0, w)
        kind = a.split(":")[0].rstrip("0123456789") if not a.startswith("x0") else "x0"
        if kind in ("names", "channels"):
            ctx.check(list(g) == list(w), f"{key}:{kind}", got=g, want=w)
        elif kind in ("toy", "success"):
            ctx.same(g, w, f"{key}:{kind}")
        elif kind in RTOL:
            ctx.close(g, w, f"{key}:{kind}", rtol=RTOL[kind], atol=1e-9 if kind == "nll" else 1e-12)
        elif kind == "fit":
            sg = errs["errors:" + a.split(":")[1]]
            sg = np.where(np.isfinite(sg) & (sg > 1e-9), sg, 1.0)
            ctx.close(np.asarray(g) / sg, np.asarray(w) / sg, f"{key}:{kind}", rtol=0, atol=1e-2)
        elif kind == "minimum":
            ctx.close(g, w, f"{key}:{kind}", rtol=0, atol=1e-4)
        elif kind == "significance":
            ctx.close(g, w, f"{key}:{kind}", rtol=1e-3, atol=2e-2)
        else:
            ctx.close(g, w, f"{key}:{kind}", rtol=2e-2, atol=1e-6)
        ctx.ev("compared_steps")


def main(argv):
    """Prior use of the library (another specification) first if asked for; prints the numbers of the specification of the key."""
    import contextlib
    import io
    import warnings
    from . import env
    env.setup_import_path()
    job = json.loads(argv[1])
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for k in job["prior"]:
            np.random.seed(k[0])
            run(*build_spec(k), mids=("scipy",))
        s, rm, rng = build_spec(job["key"])
        np.random.seed(job["np_seed"])
        out = run(s, rm, rng)
    print(json.dumps(out))


if __name__ == "__main__":
    main(sys.argv)
