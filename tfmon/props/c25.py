"""C25 - the legacy histograms, templates, stacks and their likelihood."""
import math

import numpy as np

from .. import gen, ref

CASES = dict(quick=300, thorough=8000)
RULE = ("random histories of fills (events in, outside and on edges; weights of every kind; lists, series, empty samples), scalings and assignments on "
        "the legacy equal-width, 1D and 2D histograms, compared with exact sums after every operation; random legacy templates and stacks (1-5 templates, "
        "1-10 bins, empty bins, empty templates, covariance additions, parameter updates, resets) with values, errors, fractions, Asimov and toy data, "
        "likelihood and drawn artists compared with the written definitions; non-trivial = at least two operations; signature = histories")
REQUIRED = ["fills:container", "fills:1d", "fills:2d", "scalings", "projections", "binned_constructions", "empty_fills", "list_weights", "integer_weights",
            "edge_events", "templates", "stacks", "covariances_added", "updates", "resets", "asimov", "toys", "likelihoods", "empty_data_bins",
            "empty_templates", "single_bin", "plots", "rejections_observed", "foreign_templates", "toy_means", "series_input", "filled_at_construction", "buffers_refilled"]
ASSUMPTIONS = ["events within 1e-3 bin widths above the last edge are not generated", "poisson averages are judged within 6 standard deviations"]


def weighted(ctx, rng, n):
    import pandas as pd
    w, kind = gen.rand_weights(rng, n)
    ref_w = np.ones(n) if w is None else np.asarray(w, dtype=float)
    if w is not None:
        if kind in ("i8", "int"):
            ctx.ev("integer_weights")
        z = rng.random()
        if z < 0.2:
            w = [x for x in w.tolist()]
            ctx.ev("list_weights")
        elif z < 0.35:
            w = pd.Series(w, index=rng.permutation(n) + 5)
            ctx.ev("series_input")
    return w, ref_w


def events(ctx, rng, edges, n):
    x = gen.rand_events(rng, edges, n)
    ctx.ev("edge_events", int(np.isin(x, edges).sum()))
    return x


class State:
    """Exact content: per bin lists of weights, kept as (sum, sum of squares, entries) of exact sums."""

    def __init__(self, shape):
        self.c, self.e, self.k = np.zeros(shape), np.zeros(shape), np.zeros(shape)
        self.size = 0.0

    def add(self, c, e, k):
        self.c, self.e, self.k = self.c + c, self.e + e, self.k + k


def compare(ctx, h, st, kind):
    tol = 1e-12 * (1 + st.size)
    ctx.close(h.bin_counts, st.c, f"{kind}-counts", rtol=1e-10, atol=tol)
    ctx.close(h.bin_errors_sq, st.e, f"{kind}-errors", rtol=1e-10, atol=1e-300)
    ctx.close(h.bin_errors, np.sqrt(st.e), f"{kind}-errors", rtol=1e-10, atol=1e-150)


def container(ctx, rng, hist):
    from templatefitter.histogram_legacy import Histogram
    nb = int(rng.integers(1, 9))
    edges, _ = gen.edges_for(rng, nb, True)
    lim = (float(edges[0]), float(edges[-1]))
    st = State(nb)
    h = Histogram(nb, lim)
    if rng.random() < 0.3:
        n = int(rng.choice([1, 5, 60]))
        x = events(ctx, rng, edges, n)
        w, rw = weighted(ctx, rng, n)
        h = Histogram(nb, lim, x, w)
        c, e, _ = ref.bin1d(x, rw, edges)
        k, _, _ = ref.bin1d(x, np.ones(n), edges)
        st.add(c, e, k)
        st.size += float(np.abs(rw).sum())
        ctx.ev("filled_at_construction")
    for _ in range(int(rng.integers(1, 6))):
        if rng.random() < 0.25:
            c = float(rng.choice([2.0, 0.5, -1.0, 0.0, rng.uniform(0.1, 3)]))
            h.scale(c)
            st.c, st.e = st.c * c, st.e * c * c
            ctx.ev("scalings")
            hist.append(("scale", c))
        else:
            n = int(rng.choice([0, 1, 5, 60], p=[0.1, 0.1, 0.3, 0.5]))
            x = events(ctx, rng, edges, n)
            w, rw = weighted(ctx, rng, n)
            x0 = x.copy()
            h.fill(x.tolist() if rng.random() < 0.3 else x, w)
            ctx.same(x, x0, "fill-changes-data")
            c, e, _ = ref.bin1d(x, rw, edges)
            k, _, _ = ref.bin1d(x, np.ones(n), edges)
            st.add(c, e, k)
            st.size += float(np.abs(rw).sum())
            if n and rng.random() < 0.3:
                compare(ctx, h, st, "container")
                if rng.random() < 0.6:
                    x[:] = events(ctx, rng, edges, n)
                h.fill(x, w)
                c, e, _ = ref.bin1d(x, rw, edges)
                k, _, _ = ref.bin1d(x, np.ones(n), edges)
                st.add(c, e, k)
                st.size += float(np.abs(rw).sum())
                ctx.ev("buffers_refilled")
            ctx.ev("fills:container")
            ctx.ev("empty_fills", int(n == 0))
            hist.append(("fill", n))
        compare(ctx, h, st, "container")
        ctx.close(h.bin_entries, st.k, "entries", rtol=0, atol=0)
    ctx.close(h.bin_edges, edges, "edges", rtol=1e-12, atol=1e-12)
    ctx.close(h.bin_mids, (edges[1:] + edges[:-1]) / 2, "mids", rtol=1e-12, atol=1e-12 * np.ptp(edges))
    ctx.close(h.bin_width, (lim[1] - lim[0]) / nb, "width", rtol=1e-9, atol=0)
    ctx.check(h.nbins == nb and tuple(h.limits) == lim and h.lower_limit == lim[0] and h.upper_limit == lim[1], "container-geometry")
    with np.errstate(all="ignore"):
        ok = (st.c != 0) & (st.e > 0)
        r = np.asarray(h.bin_rel_errors)
        ctx.close(r[ok], (np.sqrt(st.e) / np.where(ok, st.c, 1))[ok], "relative-errors", rtol=1e-6, atol=1e-12)
    ctx.raises(ValueError, lambda: h.fill(edges, np.ones(len(edges) + 1)), "mismatched-weights-accepted")
    before = np.array(h.bin_counts)
    ctx.close(before, st.c, "rejected-fill-changed-content", rtol=1e-10, atol=1e-12 * (1 + st.size))
    new = rng.uniform(0, 5, nb)
    h.bin_counts = new.copy()
    h.bin_errors = np.sqrt(new)
    ctx.same(h.bin_counts, new, "assigned-counts")
    ctx.close(h.bin_errors_sq, new, "assigned-errors", rtol=1e-12)
    ctx.check("Bin Counts" in str(h), "shown", str(h))


def hist1d(ctx, rng, hist):
    import pandas as pd
    from templatefitter.histogram_legacy import Hist1d
    nb = int(rng.integers(1, 9))
    edges, uniform = gen.edges_for(rng, nb)
    st = State(nb)
    direct = rng.random() < 0.3          # content handed over at construction
    if direct:
        n = int(rng.choice([1, 5, 60]))
        x = events(ctx, rng, edges, n)
        w, rw = weighted(ctx, rng, n)
        if uniform and rng.random() < 0.6:
            h = Hist1d(nb, (float(edges[0]), float(edges[-1])), x, w)
        else:
            h = Hist1d(edges.copy(), data=x, weights=w)
        c, e, _ = ref.bin1d(x, rw, edges)
        st.add(c, e, 0)
        st.size += float(np.abs(rw).sum())
        compare(ctx, h, st, "hist1d")
        ctx.ev("filled_at_construction")
    elif uniform and rng.random() < 0.6:
        h = Hist1d(nb, (float(edges[0]), float(edges[-1])))
    elif rng.random() < 0.35:
        c, e = rng.uniform(0, 50, nb), rng.uniform(0, 5, nb)
        if rng.random() < 0.3:
            c = np.round(c).astype(int)
        given = rng.random() < 0.5
        h = Hist1d.from_binned_data(edges.copy(), c, e if given else None)
        st.add(c.astype(float), e ** 2 if given else c.astype(float), 0)
        st.size = float(c.sum())
        c0 = h.bin_counts.copy()
        c[:] = 77
        e[:] = 99
        ctx.same(h.bin_counts, c0, "binned-input-shared")
        compare(ctx, h, st, "hist1d")
        ctx.ev("binned_constructions")
    else:
        h = Hist1d(edges.copy() if rng.random() < 0.7 else [float(v) for v in edges])
    for _ in range(int(rng.integers(1, 5))):
        n = int(rng.choice([0, 1, 5, 60], p=[0.1, 0.1, 0.3, 0.5]))
        x = events(ctx, rng, edges, n)
        w, rw = weighted(ctx, rng, n)
        h.fill(pd.Series(x) if rng.random() < 0.2 and n else x, w)
        c, e, _ = ref.bin1d(x, rw, edges)
        st.add(c, e, 0)
        st.size += float(np.abs(rw).sum())
        if n and rng.random() < 0.3:        # the same buffer once more, with other content
            compare(ctx, h, st, "hist1d")
            if rng.random() < 0.6:
                x[:] = events(ctx, rng, edges, n)
            h.fill(x, w)
            c, e, _ = ref.bin1d(x, rw, edges)
            st.add(c, e, 0)
            st.size += float(np.abs(rw).sum())
            ctx.ev("buffers_refilled")
        compare(ctx, h, st, "hist1d")
        ctx.ev("fills:1d")
        ctx.ev("empty_fills", int(n == 0))
        hist.append(("1d", n))
    ctx.close(h.bin_edges, edges, "edges", rtol=1e-12, atol=1e-12)
    ctx.close(h.bin_mids, (edges[1:] + edges[:-1]) / 2, "mids", rtol=1e-12, atol=1e-12 * np.ptp(edges))
    ctx.close(h.bin_width, edges[1] - edges[0], "width", rtol=1e-9, atol=0)
    ctx.check(h.num_bins == nb, "number-of-bins", f"{h.num_bins}")


def hist2d(ctx, rng, hist):
    from templatefitter.histogram_legacy import Hist2d
    nb = (int(rng.integers(1, 6)), int(rng.integers(1, 6)))
    u = bool(rng.random() < 0.5)
    es = [gen.edges_for(rng, n, u)[0] for n in nb]
    st = State(nb)
    kw = {}
    if rng.random() < 0.3:
        n = int(rng.choice([1, 6, 80]))
        d = np.column_stack([events(ctx, rng, e, n) for e in es])
        w, rw = weighted(ctx, rng, n)
        kw = dict(data=d, weights=w)
        c, e, _ = ref.bin2d(d[:, 0], d[:, 1], rw, *es)
        st.add(c, e, 0)
        st.size += float(np.abs(rw).sum())
        ctx.ev("filled_at_construction")
    h = Hist2d(nb, [(float(e[0]), float(e[-1])) for e in es], **kw) if u else Hist2d([e.copy() for e in es], **kw)
    if kw:
        compare(ctx, h, st, "hist2d")
    for _ in range(int(rng.integers(1, 5))):
        n = int(rng.choice([0, 1, 6, 80], p=[0.1, 0.1, 0.3, 0.5]))
        d = np.column_stack([events(ctx, rng, e, n) for e in es]) if n else np.zeros((0, 2))
        w, rw = weighted(ctx, rng, n)
        h.fill(d, w)
        c, e, _ = ref.bin2d(d[:, 0], d[:, 1], rw, *es)
        st.add(c, e, 0)
        st.size += float(np.abs(rw).sum())
        compare(ctx, h, st, "hist2d")
        ctx.ev("fills:2d")
        ctx.ev("empty_fills", int(n == 0))
        tol = 1e-12 * (1 + st.size)
        for f, ax in ((h.x_projection, 1), (h.y_projection, 0)):
            if rng.random() < 0.8:
                v, s = f()
                ctx.close(v, st.c.sum(axis=ax), "projection-values", rtol=1e-9, atol=tol)
                ctx.close(s, np.sqrt(st.e.sum(axis=ax)), "projection-errors", rtol=1e-9, atol=1e-150)
                ctx.ev("projections")
        hist.append(("2d", n))
    ctx.close(h.x_edges, es[0], "edges", rtol=1e-12, atol=1e-12)
    ctx.close(h.y_edges, es[1], "edges", rtol=1e-12, atol=1e-12)
    ctx.check(tuple(h.num_bins) == nb, "number-of-bins")
    ctx.close(h.xlimits, [es[0][0], es[0][-1]], "limits", rtol=1e-12)
    ctx.close(h.ylimits, [es[1][0], es[1][-1]], "limits", rtol=1e-12)


def frame(ctx, rng, lim, nb, wname):
    import pandas as pd
    n = int(rng.integers(20, 300))
    edges = np.linspace(*lim, nb + 1)
    x = gen.rand_events(rng, edges, n)
    kind = rng.choice(["wide", "narrow", "outside"], p=[0.6, 0.33, 0.07])
    if kind == "narrow":
        x = np.where(x > edges[nb // 2], edges[0] + 0.01 * np.ptp(edges), x)
    elif kind == "outside":
        x = edges[-1] + np.ptp(edges) * rng.uniform(0.1, 1, n)
    w = rng.uniform(0.2, 1.8, n)
    df = pd.DataFrame({"var": x, wname: w}, index=rng.permutation(n))
    c, e, _ = ref.bin1d(x, w, edges)
    return df, ref.RefTemplate(c, e), math.sqrt(math.fsum(e))


def nll_value(tmpl, d, x):
    n, nb = len(tmpl), len(d)
    nu = np.zeros(nb)
    g = 0.0
    for k, t in enumerate(tmpl):
        th = x[n + k * nb:n + (k + 1) * nb]
        nu = nu + x[k] * t.fractions(th)
        g += 0.5 * float(th @ t.inv_corr @ th)
    if np.any(nu < 0):
        return None, nu, g
    return math.fsum([ref.poisson_term(a, b) for a, b in zip(d, nu)] + [g]) if np.all((nu > 0) | (d == 0)) else math.inf, nu, g


def stack(ctx, rng, hist):
    from templatefitter.histogram_legacy import Hist1d
    from templatefitter.templates_legacy import StackedTemplate, Template
    nb = int(rng.choice([1, 2, 4, 10]))
    ctx.ev("single_bin", int(nb == 1))
    lo = float(rng.choice([0, -2, 1.5]))
    lim = (lo, lo + float(rng.choice([1, 3, 10])))
    edges = np.linspace(*lim, nb + 1)
    S = StackedTemplate("stack", "var", nb, lim)
    nt = int(rng.integers(1, 6))
    names = [str(s) for s in rng.permutation(gen.NAMES)[:nt]]
    tmpl, objs, perr = [], [], []
    for k, name in enumerate(names):
        wname = str(rng.choice(["weight", "w2"]))
        df, rt, err0 = frame(ctx, rng, lim, nb, wname)
        keep = df.copy()
        if rng.random() < 0.5:
            T = Template(name, "var", nb, lim, df, wname)
            S.add_template(name, T)
        else:
            S.create_template(name, df, wname)
            T = S[name]
        ctx.check(S[name] is T or np.array_equal(S[name].values(), T.values()), "template-by-id")
        ctx.same(df.values, keep.values, "input-frame-changed")
        ctx.ev("templates")
        ctx.ev("empty_templates", int(not rt.counts.any()))
        tmpl.append(rt)
        objs.append(T)
        perr.append([err0, np.ones(nb)])
    perr0 = [[a, b.copy()] for a, b in perr]
    for bad in (dict(variable="other"), dict(nb=nb + 1), dict(lim=(lim[0], lim[1] + 1))):
        df, _, _ = frame(ctx, rng, bad.get("lim", lim), bad.get("nb", nb), "weight")
        F = Template("foreign", bad.get("variable", "var"), bad.get("nb", nb), bad.get("lim", lim),
                     df.rename(columns={"var": bad.get("variable", "var")}))
        ctx.raises(ValueError, lambda: S.add_template("foreign", F), "foreign-template-accepted", str(bad))
        ctx.ev("foreign_templates")
    ctx.ev("stacks")
    ctx.check(S.num_templates == nt and list(S.template_names) == names, "stack-content", f"{S.template_names}")

    def observe():
        tot, e2 = np.zeros(nb), np.zeros(nb)
        for T, t in zip(objs, tmpl):
            sc = abs(t.yield_) + 1e-12
            ctx.close(T.values(), t.values, "template-values", rtol=1e-9, atol=1e-12 * sc)
            ctx.close(T.errors(), t.errors, "template-errors", rtol=1e-9, atol=1e-12 * sc)
            f = T.fractions(t.nui)
            if t.counts.any():
                ctx.close(np.sum(f), 1.0, "fractions-not-normalised", rtol=1e-12, atol=0)
            ctx.close(f, t.fractions(t.nui), "fractions", rtol=1e-9, atol=1e-13)
            ctx.close(T.cov_mat, t.cov, "covariance", rtol=1e-10, atol=1e-300)
            ctx.close(T.corr_mat, t.corr, "correlation", rtol=1e-9, atol=1e-12)
            ctx.close(T.inv_corr_mat @ t.corr, np.eye(nb), "inverse-correlation", rtol=0, atol=1e-7)
            ctx.close(T.yield_param_values, t.yield_, "yield", rtol=1e-12, atol=1e-12)
            ctx.close(np.broadcast_to(T.nui_param_values, (nb,)), t.nui, "nuisances", rtol=0, atol=0)
            tot, e2 = tot + t.values, e2 + t.errors ** 2
        sc = 1e-12 * (1 + sum(abs(t.yield_) for t in tmpl))
        ctx.close(S.values(), tot, "stack-values", rtol=1e-9, atol=sc)
        ctx.close(S.errors(), np.sqrt(e2), "stack-errors", rtol=1e-9, atol=sc)
        ctx.close(S.yield_param_values, [t.yield_ for t in tmpl], "stack-yields", rtol=1e-12, atol=1e-12)
        ctx.close(np.reshape(S.nui_param_values, (nt, nb)), [t.nui for t in tmpl], "stack-nuisances", rtol=0, atol=0)
        ctx.close(S.yield_param_errors, [p[0] for p in perr], "stack-yield-errors", rtol=1e-9, atol=1e-12)
        ctx.close(np.reshape(S.nui_param_errors, (nt, nb)), [p[1] for p in perr], "stack-nuisance-errors", rtol=0, atol=0)
        th = rng.normal(0, 0.2, nt * nb)
        ctx.close(S.fractions(th), [t.fractions(a) for t, a in zip(tmpl, np.split(th, nt))], "stack-fractions", rtol=1e-9, atol=1e-12)
        for a, b in zip(S.inv_corr_mats, tmpl):
            ctx.close(a @ b.corr, np.eye(nb), "inverse-correlation", rtol=0, atol=1e-7)
        return tot

    tot = observe()
    for _ in range(int(rng.integers(2, 7))):
        op = str(rng.choice(["cov", "update", "reset", "asimov", "toy", "nll", "plot", "one"]))
        hist.append(op)
        k = int(rng.integers(nt))
        if op == "cov":
            a = rng.normal(0, 0.1, (nb, nb)) * (tmpl[k].counts + 0.01)[:, None]
            C = a @ a.T + np.diag((0.02 * tmpl[k].counts) ** 2)
            C0 = C.copy()
            if np.linalg.cond(ref.correlation(tmpl[k].cov + C)) > 1e6:
                continue
            objs[k].add_covariance_matrix(C)
            ctx.same(C, C0, "covariance-input-changed")
            tmpl[k].add(C0)
            C[:] = 5
            ctx.ev("covariances_added")
        elif op == "update":
            y = np.array([abs(t.original) * rng.uniform(0.2, 2) + 1 for t in tmpl])
            th = rng.normal(0, 0.3, nt * nb)
            e = rng.uniform(0.1, 5, nt + nt * nb)
            S.update_parameters(np.concatenate([y, th]), e)
            for t, p, v, a, b, q in zip(tmpl, perr, y, np.split(th, nt), e[:nt], np.split(e[nt:], nt)):
                t.yield_, t.nui, p[0], p[1] = float(v), a.copy(), float(b), q.copy()
            ctx.ev("updates")
        elif op == "one":
            v = float(rng.uniform(0, 300))
            objs[k].yield_param_values = v
            tmpl[k].yield_ = v
            th = rng.normal(0, 0.3, nb)
            objs[k].nui_param_values = th.copy()
            tmpl[k].nui = th
            ctx.ev("updates")
        elif op == "reset":
            if rng.random() < 0.5:
                S.reset_parameters()
                ks = range(nt)
            else:
                objs[k].reset_parameters()
                ks = [k]
            for j in ks:
                tmpl[j].reset()
                perr[j] = [perr0[j][0], perr0[j][1].copy()]
            ctx.ev("resets")
        elif op == "asimov":
            for o, want in ((S, tot), (objs[k], tmpl[k].values)):
                sc = 1e-9 * (1 + abs(want).sum())
                if np.any(want < 0):
                    continue
                h = o.generate_asimov_dataset()
                ctx.close(h.bin_counts, want, "asimov", rtol=1e-9, atol=sc)
                ctx.close(h.bin_edges, edges, "asimov-edges", rtol=1e-12, atol=1e-12)
                h = o.generate_asimov_dataset(integer_values=True)
                v = np.asarray(h.bin_counts)
                ctx.check(np.all(v == np.rint(v)) and np.all(np.abs(v - want) <= 0.5 + sc), "asimov-integers", f"{v} {want}")
                ctx.ev("asimov")
        elif op == "toy":
            for o, want in ((S, tot), (objs[k], tmpl[k].values)):
                want = np.asarray(want)
                if np.any(want < 0):
                    continue
                ts = np.array([o.generate_toy_dataset().bin_counts for _ in range(30)])
                ctx.check(ts.shape == (30, nb), "toy-shape", f"{ts.shape}")
                ctx.check(np.all(ts == np.rint(ts)) and np.all(ts >= 0), "toy-not-counts", f"{ts[:3]}")
                ctx.check(np.all(ts[:, want == 0] == 0), "toy-without-expectation", f"{ts[:3]}")
                big = want * 30 > 50
                pull = (ts.mean(axis=0) - want)[big] / np.sqrt(want[big] / 30)
                ctx.check(np.all(np.abs(pull) < 6), "toy-mean", f"{pull}")
                ctx.ev("toy_means", int(big.sum()))
                ctx.check(not big.any() or want[big].max() < 5 or len(np.unique(ts[:, big], axis=0)) > 1, "toys-repeat", f"{ts[:3]}")
                ctx.ev("toys")
        elif op == "nll":
            d = np.maximum(tot, 0)
            mode = str(rng.choice(["toy", "asimov", "sparse", "zero"]))
            d = dict(toy=lambda: rng.poisson(d).astype(float), asimov=lambda: d, sparse=lambda: rng.poisson(np.minimum(d * 0.02, 2)).astype(float),
                     zero=lambda: np.zeros(nb))[mode]()
            ctx.ev("empty_data_bins", int(np.sum(d == 0)))
            f = S.create_nll(Hist1d.from_binned_data(edges, d))
            ctx.check(list(f.param_names)[:nt] == [f"{q}_yield" for q in names] and len(f.param_names) == nt * (nb + 1), "parameter-names", f"{f.param_names}")
            ctx.close(f.x0, np.concatenate([[t.yield_ for t in tmpl]] + [t.nui for t in tmpl]), "start-values", rtol=1e-12, atol=1e-12)
            for z in range(4):
                x = np.concatenate([np.array([abs(t.original) * rng.uniform(0.2, 2) + 1 for t in tmpl]), rng.normal(0, [0, 0.3, 0.1, 0.3][z], nt * nb)])
                want, nu, g = nll_value(tmpl, d, x)
                if np.any(nu < 0):
                    continue
                x0 = x.copy()
                got = f(x)
                ctx.same(x, x0, "argument-modified")
                ctx.close(got, want, "likelihood", rtol=1e-9, atol=1e-11 * (1 + np.sum(nu) + np.sum(d)) + 1e-8 * g, mode=mode)
                ctx.ev("likelihoods")
        else:
            plots(ctx, rng, S, objs, tmpl, names, edges)
        tot = observe()


def plots(ctx, rng, S, objs, tmpl, names, edges):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from .c24 import bars, steps
    k = int(rng.integers(len(objs)))
    for o, ts in ((objs[k], [tmpl[k]]), (S, tmpl)):
        fig, ax = plt.subplots()
        o.plot_on(ax)
        level = np.zeros(len(edges) - 1)
        got = steps(ax)
        ctx.check(len(got) == len(ts), "drawn-histograms", f"{len(got)} for {len(ts)} templates")
        scale = 1 + sum(abs(t.yield_) for t in ts)
        for (base, top, label), t in zip(got, ts):
            ctx.close(base, level, "drawn-bases", rtol=1e-9, atol=1e-9 * scale)
            level = level + t.values
            ctx.close(top, level, "drawn-levels", rtol=1e-9, atol=1e-9 * scale)
        if len(ts) > 1 or o is S:
            ctx.check([g[2] for g in got] == list(names), "drawn-labels", f"{[g[2] for g in got]}")
        err = np.sqrt(sum(t.errors ** 2 for t in ts))
        b = bars(ax)
        ctx.check(len(b) == len(level), "drawn-band", f"{len(b)} bars")
        b = np.array(b)
        ctx.close(b[:, 0], edges[:-1], "drawn-band-position", rtol=1e-9, atol=1e-9)
        ctx.close(b[:, 1], edges[1:], "drawn-band-position", rtol=1e-9, atol=1e-9)
        ctx.close(b[:, 2], level - err, "drawn-band", rtol=1e-9, atol=1e-9 * scale)
        ctx.close(b[:, 3], level + err, "drawn-band", rtol=1e-9, atol=1e-9 * scale)
        plt.close(fig)
    ctx.ev("plots")


def case(ctx, i):
    rng = ctx.rng
    hist = []
    container(ctx, rng, hist)
    hist1d(ctx, rng, hist)
    hist2d(ctx, rng, hist)
    stack(ctx, rng, hist)
    ctx.seen(str(hist))
    ctx.describe(history=hist)
