"""C19 - linearity tests: points, generation at each point's yield, number of experiments, statistics per point."""
import numpy as np
from scipy import stats

from .. import fits, study
from ..core import quiet

CASES = dict(quick=120, thorough=2000)
RULE = ("well-posed random models in displaced states, linearity tests of random processes with 1-5 points and 2-9 experiments per point over random "
        "ranges (also descending and of width zero), with scheduled failures, both minimisers, repeated with other processes; the model state at every "
        "recorded data generation, and an independent fit of every recorded toy, give the expected means and deviations; non-trivial = more than one "
        "point; signature = model, process, settings")
REQUIRED = ["long_tests", "large_yields", "tests:iminuit", "tests:scipy", "points_checked", "generations_checked", "experiments_refitted", "failures_injected", "displaced_states",
            "second_tests", "statistical_checks", "other_processes_at_nominal", "scatter_checks"]
ASSUMPTIONS = ["means and standard deviations are compared within 0.005 expected uncertainties", "toy totals and means alarm at probabilities of 1e-10 and 8 sigma"]


def case(ctx, i):
    from templatefitter import ToyStudy
    rng = ctx.rng
    s, rm = fits.fit_spec(ctx, rng, max_par=24, max_proc=3, eff=str(rng.choice(["any", "sum1", "default", "tiny"])), max_cond=15, data="asimov")
    if s is None:
        ctx.ev("no_model")
        return
    n0 = len(s.processes)
    m = s.build(cls=study.recording_class(), data=bool(rng.random() < 0.5))
    nominal = {(c["name"], t["process"]): (rm.channels[c["name"]].templates[t["process"]].original, t["eff"]) for c in s.channels for t in c["templates"]}
    if rng.random() < 0.7:      # where the model stood before makes no difference
        x = fits.start_vector(rm)
        m.update_parameters(np.concatenate([x[:n0] * rng.uniform(0.5, 1.5, n0), rng.normal(0, 0.3, rm.npar - n0)]))
        ctx.ev("displaced_states")
    mid = str(rng.choice(fits.MINIMIZERS))
    st = ToyStudy(m, mid)
    for rep in range(int(rng.choice([1, 1, 2]))):
        proc = str(rng.choice(s.processes))
        k = s.processes.index(proc)
        rm.reset()
        y0 = fits.start_yields(rm)[k]
        npt, nex = int(rng.integers(1, 6)), int(rng.integers(2, 10))
        if i % 30 == 11:
            npt, nex = [(npt, int(rng.integers(30, 80))), (int(rng.integers(10, 30)), nex)][int(rng.integers(2))]
            ctx.ev("long_tests")
        lim = [float(v) for v in y0 * np.sort(rng.uniform(0.4, 1.8, 2))]
        shape = rng.random()
        if shape < 0.15:
            lim = lim[::-1]
        elif shape < 0.25:
            lim[1] = lim[0]
        if rng.random() < 0.2:
            lim = tuple(lim)
        p = float(rng.choice([0, 0, 0.15]))
        rec = study.Recorder()
        rec.schedule = [str(rng.choice(study.FAULTS)) if rng.random() < p else None for _ in range(npt * nex * 3)]
        m.recorder = rec
        with quiet():
            pts, mean, dev = st.do_linearity_test(proc, lim, n_points=npt, n_exp=nex)
        m.recorder = None
        ctx.log(proc, lim, npt, nex, [a["fault"] for a in rec.attempts])
        info = dict(process=proc, limits=lim, n_points=npt, n_exp=nex, minimizer=mid, model=s.summary())
        ctx.check(np.shape(pts) == np.shape(mean) == np.shape(dev) == (npt,), "shapes", f"{np.shape(pts)} {np.shape(mean)} {np.shape(dev)}", **info)
        want = np.linspace(lim[0], lim[1], npt)
        ctx.close(pts, want, "points", rtol=1e-9, atol=1e-9, **info)
        ctx.ev("failures_injected", sum(a["fault"] is not None for a in rec.attempts))
        good = [a for a in rec.attempts if a["fault"] is None]
        honest = len(good) != npt * nex
        if honest:
            ctx.ev("genuine_fit_failures")
            ctx.check(len(good) > npt * nex, "number-of-experiments", f"{len(good)} instead of {npt * nex}", **info)
        # the state of every data generation
        owner, j, count = [], 0, 0
        for a in rec.attempts:
            if not honest and count == nex:
                j, count = j + 1, 0
            elif honest:        # attribute by the generated yield
                c, q = next((cq for cq in a["state"] if cq[1] == proc))
                j = int(np.argmin(np.abs(a["state"][c, q][0] - want * nominal[c, q][1])))
            point = want[min(j, npt - 1)]
            for (c, q), (y, th) in a["state"].items():
                orig, eff = nominal[c, q]
                if q == proc:
                    ctx.check(abs(y - point * eff) <= 1e-9 * (1 + abs(y)), "generated-at-another-yield", f"{c}/{q}: {y} instead of {point * eff} at point {j}", **info)
                else:
                    ctx.check(abs(y - orig) <= 1e-9 * (1 + abs(y)), "other-process-not-at-nominal-yield", f"{c}/{q}: {y} instead of {orig} at point {j}", **info)
                    ctx.ev("other_processes_at_nominal")
                ctx.check(not np.any(th), "generated-with-nuisances", f"{c}/{q}", **info)
            ctx.ev("generations_checked")
            owner.append(j)
            count += a["fault"] is None
        if honest:
            continue
        # fits of the recorded toys
        rm.reset()
        start = fits.start_vector(rm)
        start[n0:] = 0
        got, sig = np.zeros((npt, nex)), []
        seen = np.zeros(npt, int)
        for a, j in zip(rec.attempts, owner):
            if a["fault"]:
                continue
            start[k] = want[j]
            f, fmin, xb, sg = study.refit(s, rm, a["data"], start)
            got[j, seen[j]] = xb[k]
            seen[j] += 1
            sig.append(sg[k])
            ctx.ev("experiments_refitted")
        u = float(np.mean(sig))
        for c in s.channels:
            rm.channels[c["name"]].data = None
        ctx.close(mean, got.mean(axis=1), "means", rtol=0, atol=0.005 * u, sigma=u, **info)
        ctx.close(dev, got.std(axis=1), "deviations", rtol=0, atol=0.005 * u, sigma=u, **info)
        ctx.ev("points_checked", npt)
        # statistics of the toys at every point
        for j in range(npt):
            rm.reset()
            rm.set_yield(proc, want[j])
            data = [a["data"] for a, o in zip(rec.attempts, owner) if o == j and a["data"] is not None]
            for c in s.channels:
                nu = np.ravel(rm.channels[c["name"]].total) * len(data)
                for mu, t in zip(nu, np.sum([np.ravel(d[c["name"]]) for d in data], axis=0)):
                    q = 2 * min(stats.poisson.cdf(t, mu), stats.poisson.sf(t - 1, mu))
                    ctx.check(q > 1e-10, "toys-not-at-the-point", f"{t} events for {mu} at {want[j]}", **info)
                    ctx.ev("statistical_checks")
            consistent = all(abs(nominal[c, q][0] / nominal[c, q][1] - fits.start_yields(rm)[s.processes.index(q)]) < 1e-6 * nominal[c, q][0] + 1e-9
                             for c, q in nominal if q != proc)
            unconstrained = not s.constraints
            if consistent and unconstrained:
                ctx.check(abs(mean[j] - want[j]) < (8 / np.sqrt(nex) + 0.3) * u, "means-do-not-scatter-around-the-points", f"{mean[j]} at {want[j]} +- {u}", **info)
                ctx.ev("scatter_checks")
        ctx.ev("tests:" + mid)
        ctx.ev("second_tests", int(rep > 0))
        if npt > 1:
            ctx.seen(str(s.summary()), proc, tuple(lim), npt, nex, mid)
    ctx.describe(model=s.summary(), process=proc, limits=lim, points=npt, experiments=nex, means=mean, deviations=dev)
