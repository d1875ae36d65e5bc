"""C18 - toy studies under injected failures: completeness, freshness, no traces of failed attempts, availability, pulls."""
import numpy as np
from scipy import stats

from .. import fits, study
from ..core import quiet

CASES = dict(quick=160, thorough=3000)
RULE = ("well-posed random models in random states (nominal, displaced yields, non-zero nuisances) with instrumented data generation and likelihood; random "
        "schedules of injected failures (RuntimeErrors while generating, adding data, creating or evaluating the likelihood; likelihoods that are not a number) with 2-14 experiments and 1-4 allowed "
        "tries, both minimisers, consecutive studies, aborted studies; every result vector is compared with an independent fit of the data recorded for "
        "its attempt; non-trivial = study with at least one injected failure or two studies; signature = model, schedule")
REQUIRED = ["long_studies", "long_failure_rows", "many_tries", "large_yields", "studies_completed:iminuit", "studies_completed:scipy", "studies_aborted", "experiments_refitted", "faults:generate", "faults:add", "faults:create",
            "faults:call", "faults:nan", "retries_observed", "unavailable_checks", "unavailable_during_study", "pulls_checked", "aliasing_probes", "second_studies",
            "uncertainties_checked", "displaced_states", "after_abort_studies"]
ASSUMPTIONS = ["fitted yields are compared within the likelihood tolerances of the fit monitors, uncertainties within 3 %",
               "faults are RuntimeErrors, the failure signal the study documents"]


def unavailable(ctx, st, process, key):
    for fn in (lambda: st.result_parameters, lambda: st.result_uncertainties, lambda: st.get_toy_results(process), lambda: st.get_toy_result_pulls(process)):
        ctx.raises(RuntimeError, fn, key)
    ctx.ev("unavailable_checks")


def case(ctx, i):
    from templatefitter import ToyStudy
    rng = ctx.rng
    s, rm = fits.fit_spec(ctx, rng, max_par=26, max_proc=4, eff=str(rng.choice(["any", "sum1", "default", "tiny"])), max_cond=15, data="asimov")
    if s is None:
        ctx.ev("no_model")
        return
    n0, names = len(s.processes), rm.names
    m = s.build(cls=study.recording_class(), data=bool(rng.random() < 0.5))
    x = fits.start_vector(rm)
    if rng.random() < 0.6:
        x = np.concatenate([x[:n0] * rng.uniform(0.7, 1.3, n0), rng.normal(0, 0.3, rm.npar - n0) * (rng.random() < 0.6)])
        m.update_parameters(x.copy())
        rm.update(x)
        ctx.ev("displaced_states")
    mid = str(rng.choice(fits.MINIMIZERS))
    st = ToyStudy(m, mid if rng.random() < 0.7 else mid.upper())
    proc = str(rng.choice(s.processes))
    unavailable(ctx, st, proc, "results-before-any-study")
    state0 = study.state_of(m)
    aborted_before = False
    log = []
    for rep in range(int(rng.choice([1, 2, 2]))):
        n_exp, tries = int(rng.integers(2, 15)), int(rng.integers(1, 5))
        p = float(rng.choice([0.0, 0.15, 0.35]))
        if rep == 0 and i % 40 == 11:
            n_exp = int(rng.integers(60, 160))
            ctx.ev("long_studies")
        elif rng.random() < 0.1:
            tries, p = int(rng.integers(5, 13)), float(rng.choice([0.6, 0.85]))
            ctx.ev("many_tries")
        sched = [str(rng.choice(study.FAULTS)) if rng.random() < p else None for _ in range(n_exp * tries)]
        if tries >= 5 and rng.random() < 0.6:      # a long row of failures, which the allowed tries just suffice for
            k = int(rng.integers(tries - 2, tries))
            sched[:k] = [str(rng.choice(study.FAULTS)) for _ in range(k)]
            sched[k] = None
            ctx.ev("long_failure_rows", int(k > 7))
        good, completes, total = study.simulate(sched, n_exp, tries)
        rec = study.Recorder()
        rec.schedule = sched
        m.recorder = rec
        inside = []

        def probe():
            if len(rec.attempts) in (1, 3, total):
                for fn in (lambda: st.result_parameters, lambda: st.get_toy_results(proc)):
                    try:
                        inside.append(np.shape(fn()))
                    except RuntimeError:
                        inside.append(None)
        rec.on_generate = probe
        raised = None
        with quiet():
            try:
                st.do_experiments(n_exp=n_exp, max_tries=tries)
            except RuntimeError as e:
                raised = e
        m.recorder = None
        ctx.log(n_exp, tries, [a["fault"] for a in rec.attempts], repr(raised))
        log.append((n_exp, tries, tuple(sched[:total])))
        info = dict(n_exp=n_exp, max_tries=tries, faults=[a["fault"] for a in rec.attempts], minimizer=mid, model=s.summary())
        for a in rec.attempts:
            if a["fault"]:
                ctx.ev("faults:" + a["fault"])
        ctx.check(all(v is None for v in inside), "results-available-during-a-study", f"{inside}", **info)
        ctx.ev("unavailable_during_study", int(len(inside) > 0))
        for j, a in enumerate(rec.attempts):      # every toy comes from the model the study was started with
            for k, (y, th) in a["state"].items():
                ctx.check(y == state0[k][0] and np.array_equal(th, state0[k][1]), "toys-from-another-model", f"{k} in attempt {j}", **info)
        end = study.state_of(m)
        ctx.check(all(end[k][0] == state0[k][0] and np.array_equal(end[k][1], state0[k][1]) for k in state0), "study-changes-the-templates", **info)
        honest = len(rec.attempts) != total
        if honest:
            ctx.ev("genuine_fit_failures")
        if not honest:
            ctx.check((raised is None) == completes, "abort-not-as-scheduled", f"raised {raised!r}, expected completion: {completes}", **info)
        if honest and raised is None:
            ctx.check(len(rec.attempts) > total, "toy-not-drawn-again", f"{len(rec.attempts)} data sets drawn, at least {total} needed", **info)
        elif honest:      # aborted elsewhere than scheduled: the last tries must have failed for reasons of their own
            ctx.check(len(rec.attempts) >= tries, "aborted-too-early", f"{len(rec.attempts)} data sets drawn, {tries} tries allowed", **info)
            for a in rec.attempts[-tries:]:
                if a["fault"] is None:
                    m.add_data(**{c["name"]: s.data_hist(c, a["data"][c["name"]]) for c in s.channels})
                    ctx.check(fits.do_fit(m, mid, update_templates=False, fix_nui_params=True) is None, "aborted-without-failures",
                              f"a toy among the last {tries} of {len(rec.attempts)} attempts can be fitted", **info)
                    ctx.ev("genuine_failures_confirmed")
        if raised is not None:
            unavailable(ctx, st, proc, "results-of-an-aborted-study")
            ctx.ev("studies_aborted")
            ctx.check(honest or len(rec.attempts) == total, "attempts", f"{len(rec.attempts)} instead of {total}", **info)
            aborted_before = True
            continue
        P, U = np.array(st.result_parameters), np.array(st.result_uncertainties)
        ctx.check(P.shape == (n_exp, rm.npar) and U.shape == (n_exp, rm.npar), "number-of-results", f"{P.shape} {U.shape} for {n_exp} experiments", **info)
        if honest:      # a fit of its own failed: results belong to a subsequence of the undisturbed attempts
            good = [k for k, a in enumerate(rec.attempts) if a["fault"] is None]
            ctx.check(len(good) > n_exp, "attempts", f"{len(rec.attempts)} attempts, {total} scheduled", **info)
        else:
            ctx.check(len(rec.attempts) == total, "attempts", f"{len(rec.attempts)} instead of {total}", **info)
        fits_ = {}

        def matches(e, k):
            if k not in fits_:
                fits_[k] = study.refit(s, rm, rec.attempts[k]["data"], x)
            f, fmin, xb, sg = fits_[k]
            for c in s.channels:
                rm.channels[c["name"]].data = rec.attempts[k]["data"][c["name"]]
            return np.array_equal(P[e, n0:], x[n0:]) and rm.fast_nll()(P[e]) <= fmin + fits.TOL[mid], xb, sg
        pos = 0
        for e in range(n_exp):
            while True:
                ctx.check(pos < len(good), "result-not-from-its-toy", f"experiment {e} fits none of the remaining toys", **info)
                ok, xb, sg = matches(e, good[pos])
                pos += 1
                if ok or not honest:
                    break
            ctx.check(ok, "result-not-from-its-toy", f"experiment {e}: {P[e, :n0]} instead of {xb[:n0]}", nuisances=P[e, n0:], start=x, **info)
            ctx.check(np.all(U[e, n0:] == 0), "fixed-nuisance-has-uncertainty", **info)
            ctx.close(U[e, :n0], sg, "uncertainties", rtol=0.03, **info)
            ctx.ev("experiments_refitted")
            ctx.ev("uncertainties_checked", n0)
        # fresh toys, drawn from the model
        dat = [np.concatenate([np.ravel(a["data"][c["name"]]) for c in s.channels]) for a in rec.attempts if a["data"] is not None]
        nu = np.concatenate([np.ravel(rm.channels[c["name"]].total) for c in s.channels])
        ctx.check(len({d.tobytes() for d in dat}) == len(dat), "toy-used-twice", **info)
        tot = np.sum(dat, axis=0)
        for mu, t in zip(len(dat) * nu, tot):
            q = 2 * min(stats.poisson.cdf(t, mu), stats.poisson.sf(t - 1, mu))
            ctx.check(q > 1e-10, "toys-not-from-the-model", f"{t} events for {mu}", **info)
        # access
        for k in range(n0):
            a, b = st.get_toy_results(s.processes[k])
            ctx.same(a, P[:, k], "results-of-process")
            ctx.same(b, U[:, k], "results-of-process")
            pull = np.array(st.get_toy_result_pulls(s.processes[k]))
            ctx.close(pull, (P[:, k] - x[k]) / U[:, k], "pulls", rtol=1e-9, atol=1e-9, process=s.processes[k], **info)
            ctx.ev("pulls_checked", n_exp)
        ctx.raises(Exception, lambda: st.get_toy_results("no such process"), "unknown-process")
        # neither handed-out arrays nor later calculations touch the stored results
        a = st.result_parameters
        a[...] = -1
        b, c = st.get_toy_results(proc)
        b[...] = -2
        c[...] = -3
        ctx.same(st.result_parameters, P, "results-alias")
        ctx.same(st.result_uncertainties, U, "results-alias")
        fits.do_fit(m, mid, update_templates=False)
        ctx.same(st.result_parameters, P, "results-changed-by-later-fit")
        ctx.ev("aliasing_probes")
        ctx.ev("studies_completed:" + mid)
        ctx.ev("retries_observed", total - len(good) if not honest else 0)
        ctx.ev("second_studies", int(rep > 0))
        ctx.ev("after_abort_studies", int(aborted_before))
    if len(log) > 1 or any(f for l in log for f in l[2]):
        ctx.seen(str(s.summary()), tuple(log))
    ctx.describe(model=s.summary(), minimizer=mid, studies=log)
