"""C27 - results are functions of the inputs alone: fresh interpreters, threads, forks, and no traces in global state."""
import gc
import json
import locale
import logging
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import threading
import time
import warnings

import numpy as np

from .. import env, fits, gen, program

CASES = dict(quick=56, thorough=900)
CASE_TIMEOUT = 300
BAD = ("failing_fit", "bad_data", "bad_events", "bad_matrix", "bad_profile", "bad_minimum", "bad_significance", "bad_study")
RANDOM = ("toy", "study", "linearity", "bad_study")
RULE = ("an analysis program (histograms, templates, likelihoods, data sets, fits with both minimisers, significance, goodness of fit, propagation) on a random "
        "well-posed model is run alone, then again (a) in fresh interpreters with another hash seed, working directory, locale and prior use of the library, (b) in 3-6 "
        "threads at once, one model each, with a thread switch every few microseconds, plus several threads evaluating one model, (c) in forked "
        "workers on inherited and pickled models; and (d) histories of 12-24 API calls, some of which fail, with numpy's and python's random state, error "
        "state, warning filters, rcParams, options, environment, signal handlers, working directory, open files, threads and child processes compared after every call")
REQUIRED = ["fresh_interpreters", "threaded_programs", "thread_switches_overlapping", "shared_evaluations", "forked_programs", "footprints", "failing_calls",
            "random_state_untouched", "compared_steps", "pickled_models"]
ASSUMPTIONS = ["fits are compared to a hundredth of their uncertainty across processes: bit-wise equality is not claimed",
               "root logger configuration and matplotlib figures are not part of the monitored global state"]


def case(ctx, i):
    return (footprint, threads, footprint, forks, threads, fresh, footprint, forks)[i % 8](ctx, i)


def _key(ctx, k):
    return [int(ctx.seed) & 0xFFFFFFFF, 27, int(ctx.index), k]


# -- (a) fresh interpreters -------------------------------------------------------------------
def fresh(ctx, i):
    rng = ctx.rng
    key = _key(ctx, 0)
    seed = int(rng.integers(2 ** 31))
    s, rm, r = program.build_spec(key)
    if s is None:
        ctx.ev("no_model")
        return
    np.random.seed(seed)
    mine = program.run(s, rm, r)
    for k in range(2):
        prior = [_key(ctx, 100 + j) for j in range(int(rng.integers(0, 2) if k == 0 else 1))]
        d = os.path.join(os.getcwd(), f"w{os.getpid()}-{i}-{k}")
        os.makedirs(d, exist_ok=True)
        e = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2 ** 31))), TZ=str(rng.choice(["UTC", "Asia/Tokyo", "America/Lima"])),
                 LANG=str(rng.choice(["C", "C.UTF-8", "POSIX"])), COLUMNS=str(int(rng.integers(1, 200))))
        p = subprocess.run([env.PYTHON, "-m", "tfmon.program", json.dumps(dict(key=key, np_seed=seed, prior=prior))],
                           cwd=d, env=e, capture_output=True, text=True, timeout=200)
        ctx.check(p.returncode == 0, "fresh-interpreter:fails", p.stderr[-1500:])
        ctx.check(not os.listdir(d), "fresh-interpreter:leaves-files", got=os.listdir(d))
        other = json.loads(p.stdout.strip().splitlines()[-1])
        program.compare(ctx, other, json.loads(json.dumps(mine)), "fresh-interpreter")
        ctx.ev("fresh_interpreters")
        ctx.ev("with_prior_use", len(prior))
    ctx.seen("fresh", str(s.summary()))
    ctx.describe(kind="fresh", model=s.summary(), steps=len(mine))


# -- (b) threads -----------------------------------------------------------------------------
def threads(ctx, i):
    rng = ctx.rng
    jobs = []
    twin = rng.random() < 0.6       # models of the same names, shapes and another content: the ones shared state would mix up
    for k in range(int(rng.integers(3, 7))):
        if twin and jobs:
            s = jobs[0][0].clone()
            for c in s.channels:
                c["data"] = rng.permutation(np.ravel(c["data"])).reshape(np.shape(c["data"]))
                for t in c["templates"]:
                    cnt = np.array(s.ref_content(c, t)[0]) * rng.uniform(0.7, 1.4, np.shape(c["data"]))
                    t.update(kind="binned", counts=cnt, errors=np.sqrt(cnt), weights=None, variations=[v for v in t["variations"] if v["kind"] == "cov"])
            rm = s.reference()
        else:
            s, rm, _ = program.build_spec(_key(ctx, k))
        if s is not None:
            jobs.append((s, rm, _key(ctx, 50 + k)))
    if len(jobs) < 2:
        ctx.ev("no_model")
        return
    mids = ("scipy",) if rng.random() < 0.5 else ("iminuit", "scipy")
    alone = [program.run(s, rm, np.random.default_rng(k), toys=False, mids=mids) for s, rm, k in jobs]
    # one more model, only evaluated, by all threads at once
    big = max(jobs, key=lambda j: (len(j[0].channels), len(j[0].processes)))
    m = big[0].build()
    nll, names = m.create_nll(), big[1]
    pts = [gen.rand_params(rng, names) for _ in range(40)]
    vals = [nll(x) for x in pts]
    together, evaluated, errors, spans = [None] * len(jobs), [None] * len(jobs), [], [None] * len(jobs)
    barrier = threading.Barrier(len(jobs))

    def work(k):
        try:
            s, rm, key = jobs[k]
            barrier.wait(60)
            t0 = time.monotonic()
            together[k] = program.run(s, rm, np.random.default_rng(key), toys=False, mids=mids)
            barrier.wait(120)
            order = np.random.default_rng(key).permutation(len(pts))
            got = np.full((15, len(pts)), np.nan)
            for rep in range(len(got)):
                for j in order:
                    got[rep, j] = nll(pts[j])
            evaluated[k] = got
            spans[k] = (t0, time.monotonic())
        except BaseException as e:  # noqa
            errors.append(f"{type(e).__name__}: {e}")
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(200)
    finally:
        sys.setswitchinterval(old)
    ctx.check(not errors, "threads:fail", str(errors[:3]))
    ctx.check(all(t is not None for t in together), "threads:unfinished")
    for k in range(len(jobs)):
        program.compare(ctx, together[k], alone[k], "threads")
        ctx.close(evaluated[k], np.tile(vals, (len(evaluated[k]), 1)), "threads:shared-model", rtol=1e-10, atol=1e-9)
        ctx.ev("threaded_programs")
        ctx.ev("shared_evaluations", evaluated[k].size)
    ctx.ev("thread_switches_overlapping", sum(a[0] < b[1] and b[0] < a[1] for n, a in enumerate(spans) for b in spans[:n]))
    ctx.seen("threads", len(jobs), twin, str(jobs[0][0].summary()))
    ctx.describe(kind="threads", threads=len(jobs), twin=twin, model=jobs[0][0].summary())


# -- (c) forked workers -------------------------------------------------------------------------
_INHERITED = {}


def _forked(job):
    k, how, key, mids = job
    s, rm, m = _INHERITED[k]
    if how == "own":
        m = None
    elif how != "inherited":
        import pickle
        m = pickle.loads(how)
    return program.run(s, rm, np.random.default_rng(key), model=m, toys=False, mids=mids)


def forks(ctx, i):
    import pickle
    rng = ctx.rng
    _INHERITED.clear()
    jobs, alone = [], {}
    mids = (str(rng.choice(fits.MINIMIZERS)),)
    for k in range(2):
        s, rm, _ = program.build_spec(_key(ctx, k))
        if s is None:
            continue
        m = s.build()
        _INHERITED[k] = (s, rm, m)
        key = _key(ctx, 60 + k)
        before = [t.params.copy() for c in m.channels.values() for t in c.templates.values()]
        alone[k] = (program.run(s, rm, np.random.default_rng(key), toys=False, mids=mids), before)
        for how in ("own", "inherited", pickle.dumps(m)):
            jobs.append((k, how, key, mids))
    if not jobs:
        ctx.ev("no_model")
        return
    jobs = [jobs[j] for j in rng.permutation(len(jobs))]
    with multiprocessing.get_context("fork").Pool(3) as pool:
        res = pool.map(_forked, jobs, chunksize=1)
    for (k, how, _, _), r in zip(jobs, res):
        program.compare(ctx, r, alone[k][0], "forks")
        ctx.ev("forked_programs")
        ctx.ev("pickled_models", int(isinstance(how, bytes)))
    for k, (_, before) in alone.items():
        m = _INHERITED[k][2]
        for t, b in zip((t for c in m.channels.values() for t in c.templates.values()), before):
            ctx.same(t.params, b, "forks:parent-changed")
    ctx.seen("forks", [str(v[0].summary()) for v in _INHERITED.values()])
    ctx.describe(kind="forks", jobs=len(jobs))
    _INHERITED.clear()


# -- (d) footprints ------------------------------------------------------------------------------
def world():
    import matplotlib
    import pandas as pd
    np_state = np.random.get_state()
    return dict(
        numpy_random=(np_state[0], np_state[1].tobytes(), *np_state[2:]),
        python_random=random.getstate(),
        numpy_errors=tuple(sorted(np.geterr().items())),
        numpy_print=tuple(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        warning_filters=tuple(map(repr, warnings.filters)),
        rc=tuple(sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams))),
        pandas=(pd.get_option("mode.chained_assignment"), pd.get_option("display.max_rows"), pd.get_option("display.precision")),
        environment=tuple(sorted(os.environ.items())),
        cwd=os.getcwd(), files=tuple(sorted(os.listdir("."))),
        signals=tuple((int(n), signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE)),
        start_method=multiprocessing.get_start_method(), collector=gc.isenabled(), umask=umask(), locale=locale.setlocale(locale.LC_ALL),
        import_path=tuple(sys.path), timezone=time.tzname, logging_off=logging.root.manager.disable, log_level=logging.root.level, log_handlers=tuple(map(id, logging.root.handlers)),
        recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), streams=(id(sys.stdout), id(sys.stderr)), hook=sys.excepthook,
        threads=tuple(sorted(t.name for t in threading.enumerate() if not t.daemon)),
    )


def umask():
    u = os.umask(0o77)
    os.umask(u)
    return u


def settle():
    """Children of a closed pool may need a moment."""
    end = time.time() + 10
    while multiprocessing.active_children() and time.time() < end:
        time.sleep(0.02)
    return len(multiprocessing.active_children())


def footprint(ctx, i):
    import matplotlib.pyplot as plt
    from templatefitter import TemplateFitter, ToyStudy
    from templatefitter.stats import cowan_binned_likelihood_gof, pearson_chi2_test
    from templatefitter.histograms import Hist1d
    rng = ctx.rng
    s, rm, _ = program.build_spec(_key(ctx, 0))
    if s is None:
        ctx.ev("no_model")
        return
    d = f"f{os.getpid()}-{i}"
    os.makedirs(d, exist_ok=True)
    home = os.getcwd()
    os.chdir(d)
    saved_err = np.geterr()
    saved_env = dict(os.environ)
    saved_filters = list(warnings.filters)
    try:
        # settings of the user's which must survive
        np.seterr(divide=str(rng.choice(["ignore", "warn"])), invalid=str(rng.choice(["ignore", "warn"])), over=str(rng.choice(["ignore", "warn"])))
        for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS", "MPLBACKEND", "TZ"):
            v = str(rng.choice(["keep", "unset", "3"]))
            if v == "unset":
                os.environ.pop(k, None)
            elif v == "3" and k.endswith("THREADS"):
                os.environ[k] = "3"
        m = s.build()
        x0 = np.array(m.create_nll().x0)
        n0 = len(rm.processes)
        hist = [c for c in m.channels.values()]
        fig, ax = plt.subplots()        # pyplot's own start-up effects are not the library's
        ax.hist([0.5, 1.5], bins=[0, 1, 2])
        plt.close(fig)
        one = [c for c in hist if len(c.bins) == 1]

        def fit(**kw):
            return TemplateFitter(m, str(rng.choice(fits.MINIMIZERS))).do_fit(verbose=int(rng.integers(0, 2)), update_templates=bool(rng.random() < 0.5), **kw)

        def failing_fit():
            fast = TemplateFitter(m, str(rng.choice(fits.MINIMIZERS)))
            fast.set_parameter_fixed("no such parameter")
            fast.do_fit(verbose=0)

        def bad_data():
            c = hist[0]
            m.add_data(**{c.name: Hist1d(3, (1e6, 2e6))})

        def bad_events():
            Hist1d(3, (0.0, 1.0), data=np.array([0.2, 0.3]), weights=np.ones(3))

        def bad_matrix():
            next(iter(hist[0].templates.values())).add_cov_mat(np.ones((1, 2)))

        def broken_likelihood():
            x = x0.copy()
            x[:n0] = -x[:n0]
            x[n0:] = rng.normal(0, 50, len(x) - n0)
            m.create_nll()(x)

        def stacked():
            f, a = plt.subplots()
            one[0].plot_stacked_on(a)
            plt.close(f)

        def post_fit():
            r = TemplateFitter(m, str(rng.choice(fits.MINIMIZERS))).do_fit(verbose=0)
            m.update_parameters(x0.copy())
            hist[0].get_post_fit_bin_uncertainty(r.params)
            if one:
                f, a = plt.subplots()
                one[0].plot_post_fit_stacked_on(a, r.params, post_fit_uncertainties=str(rng.choice(["propagate", "scale"])))
                plt.close(f)

        def plots():
            f, a = plt.subplots()
            t = next(iter(hist[int(rng.integers(len(hist)))].templates.values()))
            if len(t.bins) == 1:
                t.plot_on(a)
            else:
                getattr(t, str(rng.choice(["plot_x_projection_on", "plot_y_projection_on"])))(a)
                t.plot_on(f, a)
            plt.close(f)

        def bad_profile():
            how = int(rng.integers(3))
            f = TemplateFitter(m, str(rng.choice(fits.MINIMIZERS)))
            if how == 0:
                f.profile(f"{rm.processes[0]}_yield", num_cpu=int(rng.choice([0, -1])), num_points=2)
            elif how == 1:
                f.profile("no such parameter", num_cpu=1, num_points=2)
            else:
                f.profile(f"{rm.processes[0]}_yield", num_cpu=1, num_points=-1)

        def bad_minimum():
            from templatefitter.minimizer import minimizer_factory
            minimizer_factory("scipy", [lambda x: float(np.sum(x)), lambda x: float("nan")][int(rng.integers(2))], ["a", "b"]).minimize(np.array([1.0, 2.0]))

        def bad_significance():
            TemplateFitter(m, str(rng.choice(fits.MINIMIZERS))).get_significance("no such process", verbose=0)

        def bad_study():
            ToyStudy(m, str(rng.choice(fits.MINIMIZERS))).do_experiments(2, max_tries=0)

        def linearity():
            y = float(x0[0])
            ToyStudy(m, str(rng.choice(fits.MINIMIZERS))).do_linearity_test(rm.processes[0], (0.5 * y, 1.5 * y), n_points=2, n_exp=2)
            m.update_parameters(x0.copy())

        def old_stack():
            import pandas as pd
            from templatefitter.templates_legacy import StackedTemplate
            st = StackedTemplate("stack", "x", 4, (0.0, 4.0))
            for n in ("a", "b"):
                st.create_template(n, pd.DataFrame(dict(x=rng.uniform(0, 4, 30), weight=rng.uniform(0.5, 2, 30))))
            f, a = plt.subplots()
            st.plot_on(a)
            plt.close(f)
            st.update_parameters(np.arange(10.0), np.ones(10))
            st.reset_parameters()

        def profile():
            TemplateFitter(m, str(rng.choice(fits.MINIMIZERS))).profile(f"{rm.processes[0]}_yield", num_cpu=2, num_points=3)

        def stats():
            n, nu = rng.poisson(5, 6).astype(float), rng.uniform(0, 8, 6)
            nu[0] = 0
            pearson_chi2_test(n, nu, 3)
            cowan_binned_likelihood_gof(n, nu, 3)

        def study():
            ToyStudy(m, str(rng.choice(fits.MINIMIZERS))).do_experiments(2)

        ops = dict(fit=fit, fit_fixed=lambda: fit(fix_nui_params=True), significance=lambda: TemplateFitter(m, str(rng.choice(fits.MINIMIZERS))).get_significance(rm.processes[0], verbose=0),
                   likelihood=lambda: m.create_nll()(x0), broken_likelihood=broken_likelihood, asimov=m.generate_asimov_dataset, rebuild=s.build,
                   toy=m.generate_toy_dataset, study=study, profile=profile, reset=lambda: m.update_parameters(x0.copy()), stats=stats,
                   failing_fit=failing_fit, bad_data=bad_data, bad_events=bad_events, bad_matrix=bad_matrix, post_fit=post_fit, plots=plots, bad_profile=bad_profile, bad_minimum=bad_minimum,
                   bad_significance=bad_significance, bad_study=bad_study, linearity=linearity, old_stack=old_stack)
        if one:
            ops["plot"] = stacked
        names = list(ops)
        for step in range(int(rng.integers(12, 25))):
            op = names[int(rng.integers(len(names)))]
            np_before = world()
            try:
                ops[op]()
                failed = False
            except Exception as e:      # noqa
                failed = True
                if not isinstance(e, (RuntimeError, ValueError)) and op not in BAD:
                    raise
            if op in BAD:
                ctx.check(failed, "misuse-accepted", op)
                ctx.ev("failing_calls")
            ctx.check(settle() == 0, "footprint:child-processes", op, left=len(multiprocessing.active_children()))
            after = world()
            for k, v in np_before.items():
                if k == "numpy_random" and op in RANDOM:
                    ctx.ev("random_state_used", int(after[k] != v))
                    continue
                ctx.check(after[k] == v, f"footprint:{k}", f"changed by {op}")
            ctx.ev("footprints")
            ctx.ev("random_state_untouched", int(op not in RANDOM))
            ctx.log(op, failed)
            if op in ("fit", "fit_fixed"):
                m.update_parameters(x0.copy())
        ctx.seen("footprint", tuple(t[0] for t in ctx.trace[-8:]))
        ctx.describe(kind="footprint", ops=[t[0] for t in ctx.trace], model=s.summary())
    finally:
        np.seterr(**saved_err)
        os.environ.clear()
        os.environ.update(saved_env)
        warnings.filters[:] = saved_filters
        os.chdir(home)
