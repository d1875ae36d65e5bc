"""C24 - what the plots draw, read back from the matplotlib artists."""
import numpy as np

from .. import fits, gen
from .c06 import tag_model
from .c11 import full_snapshot, same_snapshot

CASES = dict(quick=240, thorough=4000)
RULE = ("random 1D and 2D templates and channels (uniform and non-uniform edges, single bins, empty bins, negative weights, zero and negative yields, systematics, "
        "displaced yields and nuisances, with and without data, colours and pretty labels) drawn on real axes; the polygons, bars, error bars, "
        "meshes, legend entries and axis labels are read back and compared with the reference model; post-fit bands for synthetic and fitted "
        "covariances in both modes; axes are reused; non-trivial = displaced state; signature = model and kind of plot")
REQUIRED = ["template1d_plots", "template2d_plots", "x_projections", "y_projections", "stacked_plots", "post_fit:propagate", "post_fit:scale",
            "data_points", "no_data_plots", "bands", "labels", "nonuniform_plots", "single_bin_plots", "purity_checks", "rejections_observed",
            "displaced_states", "weighted_data", "fitted_plots", "axis_labels", "colours", "negative_yields", "stack_colours"]
ASSUMPTIONS = ["artists are judged by their geometry and labels, not by pixels", "post-fit bands agree within 1e-4 (the code differentiates numerically)"]


# -- reading artists ---------------------------------------------------------------
def crossings(xy, x):
    """y values at which a closed polygon crosses the vertical line at x."""
    out = []
    n = len(xy)
    for k in range(n):
        (x0, y0), (x1, y1) = xy[k], xy[(k + 1) % n]
        if (x0 <= x < x1) or (x1 <= x < x0):
            out.append(y0 + (y1 - y0) * (x - x0) / (x1 - x0))
    return out


def steps(ax, edges=None):
    """All filled step histograms of an axis in drawing order from bottom to top: (bases, tops, label)."""
    from matplotlib.patches import Polygon, StepPatch
    out = []
    for p in ax.patches:
        if isinstance(p, StepPatch):
            v, e, b = p.get_data()
            v = np.array(v, dtype=float)
            out.append((np.broadcast_to(np.asarray(0.0 if b is None else b, dtype=float), v.shape).copy(), v, p.get_label(), np.array(e)))
        elif isinstance(p, Polygon):
            xy = np.asarray(p.get_xy(), dtype=float)
            e = np.unique(xy[:, 0])
            ys = [crossings(xy, (a + b) / 2) for a, b in zip(e[:-1], e[1:])]
            if any(len(y) != 2 for y in ys):
                out.append((np.full(len(ys), np.nan), np.full(len(ys), np.nan), p.get_label(), e))
                continue
            # the outline runs along the tops first
            out.append((np.array([y[1] for y in ys]), np.array([y[0] for y in ys]), p.get_label(), e))
    if len(out) > 1:
        # the bottom one starts at zero, every other one where its predecessor ends
        rest, chain, level = list(out)[::-1], [], None
        level = np.zeros_like(rest[0][0])
        while rest:
            for k, q in enumerate(rest):
                if q[0].shape == level.shape and np.allclose(q[0], level, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(level)))):
                    break
            else:
                k = 0
            q = rest.pop(k)
            chain.append(q)
            level = q[1]
        out = chain
    return [q[:3] for q in out]


def step_edges(ax):
    from matplotlib.patches import Polygon, StepPatch
    return [np.array(p.get_data()[1]) if isinstance(p, StepPatch) else np.unique(np.asarray(p.get_xy())[:, 0])
            for p in ax.patches if isinstance(p, (Polygon, StepPatch))]


def bars(ax):
    """All rectangles of an axis as (x0, x1, y0, y1), from left to right."""
    from matplotlib.patches import Rectangle
    out = []
    for p in ax.patches:
        if isinstance(p, Rectangle):
            x, w, y, h = p.get_x(), p.get_width(), p.get_y(), p.get_height()
            out.append((min(x, x + w), max(x, x + w), min(y, y + h), max(y, y + h)))
    return sorted(out)


def points(ax):
    """Error bars of an axis: list of (x, y, low, high)."""
    out = []
    for c in ax.containers:
        if type(c).__name__ != "ErrorbarContainer":
            continue
        line, _, segs = c.lines
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        lo, hi = np.full(len(x), np.nan), np.full(len(x), np.nan)
        for col in segs:
            for k, s in enumerate(col.get_segments()):
                s = np.asarray(s)
                if np.allclose(s[0, 0], s[1, 0]):
                    lo[k], hi[k] = s[:, 1].min(), s[:, 1].max()
        out.append((x, y, lo, hi))
    return out


def legend(ax):
    return list(ax.get_legend_handles_labels()[1])


# -- oracles -------------------------------------------------------------------------
def check_band(ctx, ax, edges, total, err, scale, key, rtol=1e-9):
    b = np.array(bars(ax))
    ctx.check(b.shape == (len(total), 4), key + "-missing", f"{b.shape} for {len(total)} bins")
    w = np.ptp(edges)
    ctx.close(b[:, 0], edges[:-1], key + "-position", rtol=1e-9, atol=1e-9 * w)
    ctx.close(b[:, 1], edges[1:], key + "-position", rtol=1e-9, atol=1e-9 * w)
    e = np.abs(err)
    a = 1e-9 * scale + rtol * e
    for k in range(len(total)):
        ctx.check(abs(b[k, 2] - (total[k] - e[k])) <= a[k] and abs(b[k, 3] - (total[k] + e[k])) <= a[k], key,
                  f"bin {k}: {b[k, 2:]} instead of {total[k] - e[k]}, {total[k] + e[k]}", total=total, err=err)
    ctx.ev("bands")


def check_edges(ctx, ax, edges):
    for e in step_edges(ax):
        ctx.close(e, edges, "drawn-edges", rtol=1e-9, atol=1e-9 * np.ptp(edges))


def check_single(ctx, ax, edges, values, errors, label, key):
    got = steps(ax)
    ctx.check(len(got) == 1, key + "-number", f"{len(got)}")
    base, top, lab = got[0]
    scale = 1e-6 + float(np.max(np.abs(values))) + float(np.max(np.abs(errors)))
    check_edges(ctx, ax, edges)
    ctx.close(base, np.zeros(len(values)), key + "-base", atol=1e-9 * scale)
    ctx.close(top, values, key + "-levels", rtol=1e-9, atol=1e-9 * scale)
    ctx.check(label in legend(ax), key + "-label", f"{legend(ax)} without {label}")
    ctx.ev("labels")
    check_band(ctx, ax, edges, values, errors, scale, key + "-band")


def check_stack(ctx, ax, edges, parts, labels, err, key, rtol=1e-9):
    got = steps(ax)
    ctx.check(len(got) == len(parts), key + "-number", f"{len(got)} of {len(parts)} templates")
    bylabel = {g[2]: g for g in got}
    total = np.zeros(len(edges) - 1)
    scale = 1e-6 + sum(float(np.max(np.abs(p))) for p in parts)
    check_edges(ctx, ax, edges)
    for p, l in zip(parts, labels):
        ctx.check(l in bylabel, key + "-labels", f"{list(bylabel)} without {l}")
        base, top, _ = bylabel[l]
        ctx.close(base, total, key + "-base", rtol=1e-9, atol=1e-9 * scale, msg=l)
        total = total + p
        ctx.close(top, total, key + "-levels", rtol=1e-9, atol=1e-9 * scale, msg=l)
    leg = legend(ax)
    ctx.check(all(l in leg for l in labels), key + "-labels", f"{leg}")
    ctx.ev("labels", len(labels))
    check_band(ctx, ax, edges, total, err, scale, key + "-band", rtol)


def check_data(ctx, ax, edges, d, e):
    ps = points(ax)
    if d is None:
        ctx.check(not ps, "data-drawn-without-data", f"{len(ps)}")
        ctx.ev("no_data_plots")
        return
    ctx.check(len(ps) == 1, "data-not-drawn", f"{len(ps)}")
    x, y, lo, hi = ps[0]
    s = 1 + float(np.max(np.abs(d)))
    ctx.close(x, (edges[1:] + edges[:-1]) / 2, "data-positions", rtol=1e-9, atol=1e-9 * np.ptp(edges))
    ctx.close(y, d, "data-values", rtol=1e-12, atol=1e-12 * s)
    ctx.close(lo, d - e, "data-errors", rtol=1e-9, atol=1e-9 * s)
    ctx.close(hi, d + e, "data-errors", rtol=1e-9, atol=1e-9 * s)
    ctx.check("Data" in legend(ax), "data-label", f"{legend(ax)}")
    ctx.ev("data_points", len(d))


def decorate(ctx, rng, ts):
    """Colours and labels; returns the label expected for every template."""
    out = []
    some = rng.random() < 0.5
    for k, t in enumerate(ts):
        if rng.random() < 0.5:
            t.pretty_label = f"pretty {k} $x_{k}$"
        if some:
            t.color = f"C{k}" if rng.random() < 0.5 else str(rng.choice(["black", "gold", "#123456", "0.4"]))
            ctx.ev("colours")
        out.append(t.pretty_label if t.pretty_label is not None else t.name)
    return out


def colour_ok(ctx, ax, t):
    import matplotlib.colors as mc
    from matplotlib.patches import Polygon
    if t.color is not None:
        p = [q for q in ax.patches if isinstance(q, Polygon)]
        ctx.check(any(mc.to_rgba(q.get_facecolor())[:3] == mc.to_rgba(t.color)[:3] for q in p), "colour", f"{t.color}")


def stack_colours(ctx, ax, ts, labels):
    """Templates with a colour are drawn in it."""
    import matplotlib.colors as mc
    from matplotlib.patches import Polygon, StepPatch
    faces = {q.get_label(): mc.to_rgba(q.get_facecolor())[:3] for q in ax.patches if isinstance(q, (Polygon, StepPatch))}
    for t, l in zip(ts, labels):
        if t.color is not None and l in faces:
            ctx.check(faces[l] == mc.to_rgba(t.color)[:3], "stack-colour", f"{l}: {faces[l]} instead of {t.color}")
            ctx.ev("stack_colours")


def template_plots(ctx, rng, plt):
    s = gen.rand_spec(rng, bins=(1, 9), max_channels=1, max_proc=1, data=False, constraints=False, n_events=(20, 300))
    ch = s.channels[0]
    t = ch["templates"][0]
    if t["kind"] == "fill" and t["weights"] is not None and rng.random() < 0.2:
        t["weights"] = t["weights"] - 0.3
        t["variations"] = []
    T = s.template(ch, t)
    rt = s.ref_template(ch, t)
    if not rt.counts.any() or abs(np.sum(rt.counts)) < 1e-3 * np.sum(np.abs(rt.counts)):
        return
    label = decorate(ctx, rng, [T])[0]
    variables = ["var"] if ch["dim"] == 1 else ["vx", "vy"]
    if rng.random() < 0.5:
        if ch["dim"] == 1:
            T.pretty_variable = variables[0] = "nice variable"
        else:
            T.x_pretty_var, T.y_pretty_var = variables[:] = ["nice x", "nice y"]
    if rng.random() < 0.75:
        rt.yield_ = float(rng.choice([0.0, 1.0, rt.original * rng.uniform(0.2, 3)]))
        rt.nui = rng.normal(0, 0.2, rt.nbins)
        T.params = np.concatenate([[rt.yield_], rt.nui])
        ctx.ev("displaced_states")
    before = [np.array(a) for a in (T.params, T.values, T.errors, T.cov_mat)]
    ctx.ev("nonuniform_plots", int(not ch["uniform"]))
    ctx.ev("single_bin_plots", int(rt.nbins == 1))
    e = ch["edges"]
    v, err = rt.values.reshape([len(a) - 1 for a in e]), rt.errors.reshape([len(a) - 1 for a in e])
    if ch["dim"] == 1:
        fig, ax = plt.subplots()
        T.plot_on(ax)
        check_single(ctx, ax, e[0], v, err, label, "template")
        ctx.check(ax.get_xlabel() == variables[0], "axis-label", ax.get_xlabel())
        colour_ok(ctx, ax, T)
        ctx.ev("template1d_plots")
        ctx.ev("axis_labels")
    else:
        fig, ax = plt.subplots()
        T.plot_on(fig, ax)
        mesh = [c for c in ax.collections if type(c).__name__ == "QuadMesh"]
        ctx.check(len(mesh) == 1, "mesh-number", f"{len(mesh)}")
        A = np.ma.filled(np.ma.asarray(mesh[0].get_array(), dtype=float), np.nan)
        X = np.asarray(mesh[0].get_coordinates())
        A = A.reshape(X.shape[0] - 1, X.shape[1] - 1)
        ctx.close(X[0, :, 0], e[0], "mesh-x-edges", rtol=1e-9, atol=1e-9 * np.ptp(e[0]))
        ctx.close(X[:, 0, 1], e[1], "mesh-y-edges", rtol=1e-9, atol=1e-9 * np.ptp(e[1]))
        ctx.close(A.T, v, "mesh-values", rtol=1e-9, atol=1e-9 * (1e-6 + np.max(np.abs(v))))
        ctx.check(ax.get_xlabel() == variables[0] and ax.get_ylabel() == variables[1], "axis-label", f"{ax.get_xlabel()} {ax.get_ylabel()}")
        ctx.check(ax.get_title() == label, "mesh-title", ax.get_title())
        ctx.ev("template2d_plots")
        for f, axis, var in ((T.plot_x_projection_on, 1, 0), (T.plot_y_projection_on, 0, 1)):
            fig2, a2 = plt.subplots()
            f(a2)
            check_single(ctx, a2, e[var], v.sum(axis=axis), np.sqrt((err ** 2).sum(axis=axis)), label, "projection")
            ctx.check(a2.get_xlabel() == variables[var], "axis-label", a2.get_xlabel())
            ctx.ev("x_projections" if var == 0 else "y_projections")
            ctx.ev("axis_labels")
            ctx.ev("single_bin_plots", int(len(e[var]) == 2))
    for a, b in zip(before, (T.params, T.values, T.errors, T.cov_mat)):
        ctx.same(a, b, "plotting-changes-the-template")
    ctx.ev("purity_checks")
    plt.close("all")


def channel_plots(ctx, rng, plt, fitted):
    from templatefitter import TemplateFitter
    from templatefitter.histograms import Hist1d
    from templatefitter.minimizer import Parameters
    from .c20 import synthetic
    if fitted:
        s, rm = fits.fit_spec(ctx, rng, data="toy", max_par=26, max_proc=3, max_cond=25, dims=(1,))
        if s is None:
            return None
    else:
        s = gen.rand_spec(rng, bins=(1, 9), max_channels=2, max_proc=4, dims=(1, 1, 1, 2), data="toy", constraints=False, n_events=(20, 300),
                          eff=str(rng.choice(["any", "default"])))
        tag_model(ctx, s)
        rm = s.reference()
        if rm.npar > 70:
            return None
    with_data = fitted or rng.random() < 0.7
    m = s.build(data=with_data)
    derr = {}
    if with_data:
        for c in s.channels:
            derr[c["name"]] = np.sqrt(np.ravel(c["data"]))
        if not fitted and rng.random() < 0.4 and all(c["dim"] == 1 for c in s.channels):      # data with its own errors
            m = s.build(data=False)
            hs = {}
            for c in s.channels:
                derr[c["name"]] = rng.uniform(0.1, 6, len(c["data"]))
                hs[c["name"]] = Hist1d.from_binned_data(np.array(c["data"]), np.array(c["edges"][0]), derr[c["name"]].copy())
            m.add_data(**hs)
            ctx.ev("weighted_data")
    if fitted:
        mid = str(rng.choice(fits.MINIMIZERS))
        with np.errstate(all="ignore"):
            r = fits.do_fit(m, mid, TemplateFitter(m, mid), update_templates=True)
        if r is None:
            return None
        p = r.params
        x = np.array(p.values, dtype=float)
        ctx.ev("fitted_plots")
    else:
        x = gen.rand_params(rng, rm, spread=0.4)
        if rng.random() < 0.25:     # a fit may have returned a negative yield
            x[int(rng.integers(len(s.processes)))] *= -rng.uniform(0.1, 1)
            ctx.ev("negative_yields")
        p = Parameters(list(rm.names))
        p.values = x.copy()
        p.covariance = synthetic(rng, x, str(rng.choice(["dense", "diagonal", "lowrank"])))
        p.errors = np.sqrt(np.diag(p.covariance))
        m.update_parameters(x.copy())
        ctx.ev("displaced_states")
    rm.update(x)
    C, E = np.array(p.covariance), np.array(p.errors)
    lay, _ = rm.layout()
    before = full_snapshot(m)
    for c in s.channels:
        n = c["name"]
        ch = m.channels[n]
        if c["dim"] == 2:
            fig, ax = plt.subplots()
            ctx.raises(NotImplementedError, lambda: ch.plot_stacked_on(ax), "2d-channel-plotted")
            ctx.raises(NotImplementedError, lambda: ch.plot_post_fit_stacked_on(ax, p), "2d-channel-plotted")
            plt.close(fig)
            continue
        rc = rm.channels[n]
        labels = decorate(ctx, rng, list(ch.templates.values()))
        if len(set(labels)) < len(labels):
            continue
        parts = [t.values for t in rc.templates.values()]
        edges = c["edges"][0]
        d = np.array(c["data"]) if with_data else None
        ctx.ev("nonuniform_plots", int(not c["uniform"]))
        ctx.ev("single_bin_plots", int(len(edges) == 2))
        # before the fit
        fig, ax = plt.subplots()
        ch.plot_stacked_on(ax)
        check_stack(ctx, ax, edges, parts, labels, np.sqrt(sum(t.errors ** 2 for t in rc.templates.values())), "stack")
        stack_colours(ctx, ax, list(ch.templates.values()), labels)
        ctx.check("Uncertainty" in legend(ax), "band-label", f"{legend(ax)}")
        check_data(ctx, ax, edges, d, derr.get(n))
        ctx.ev("stacked_plots")
        # after the fit
        J = fits.jacobian(rm, x, n)
        prop = np.sqrt(np.maximum(np.diag(J @ C @ J.T), 0))
        scaled = np.sqrt(sum((E[lay[n, q]] * t.errors) ** 2 for q, t in rc.templates.items()))
        for mode, err in (("propagate", prop), ("scale", scaled)):
            fig, ax = plt.subplots()
            if mode == "propagate" and rng.random() < 0.5:
                ch.plot_post_fit_stacked_on(ax, p)
            else:
                ch.plot_post_fit_stacked_on(ax, p, post_fit_uncertainties=mode)
            floor = 1e-5 * np.max(err) + 1e-6 * np.max(np.abs(J) @ np.abs(E)) if mode == "propagate" else 0
            check_post(ctx, ax, edges, parts, labels, err, floor, mode)
            check_data(ctx, ax, edges, d, derr.get(n))
            ctx.ev("post_fit:" + mode)
        plt.close("all")
    same_snapshot(ctx, before, full_snapshot(m), "plotting-changes-the-model")
    ctx.same(p.values, x, "plotting-changes-the-result")
    ctx.same(p.covariance, C, "plotting-changes-the-result")
    ctx.same(p.errors, E, "plotting-changes-the-result")
    ctx.ev("purity_checks")
    return s


def check_post(ctx, ax, edges, parts, labels, err, floor, mode):
    """As check_stack with the allowance of the numerical propagation."""
    b = np.array(bars(ax))
    ctx.check(b.shape == (len(err), 4), "post-fit-band-missing", f"{b.shape}")
    half = (b[:, 3] - b[:, 2]) / 2
    ctx.check(np.all(np.abs(half - err) <= (2e-4 if mode == "propagate" else 1e-9) * err + floor + 1e-9 * (1e-6 + np.max(np.abs(parts)))),
              "post-fit-band", f"{mode}: {half} instead of {err}")
    check_stack(ctx, ax, edges, parts, labels, half, "post-fit")


def case(ctx, i):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rng = ctx.rng
    kinds = []
    with np.errstate(all="ignore"):
        for _ in range(2):
            template_plots(ctx, rng, plt)
        s = channel_plots(ctx, rng, plt, fitted=i % 4 == 0)
    plt.close("all")
    if s is not None:
        ctx.seen(str(s.summary()))
        ctx.describe(model=s.summary(), fitted=i % 4 == 0)
