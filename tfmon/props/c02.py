"""C02 - 2D histogram filling and projections."""
import numpy as np

from .. import gen, ref
from .c01 import container, freeze, rounding

CASES = dict(quick=800, thorough=12000)
RULE = ("random rectangular binnings (1-8 x 1-8 cells, uniform ints+ranges or edges, different per axis), 0-800 (some 10^4-3*10^5) events with on-edge and outside "
        "values per axis, all weight kinds, histories of 1-5 fills interleaved with projections; non-trivial = an event inside; "
        "signature = binning, weight kind, splits")
REQUIRED = ["fills", "projections", "events_inside", "events_outside", "large_samples", "edges_reused", "undefined_values", "buffers_refilled"]
ASSUMPTIONS = ["events in the strip just above the last edge are not generated (scipy rounds there)"]


def case(ctx, i):
    from templatefitter.histograms import Hist1d, Hist2d
    rng = ctx.rng
    nbs = tuple(int(v) for v in rng.choice([1, 2, 3, 4, 5, 8], 2))
    if rng.random() < 0.03:
        nbs = tuple(int(v) for v in rng.permutation([rng.integers(20, 150), rng.choice([1, 4, 12, 40])]))
    uniform = bool(rng.random() < 0.5)
    ex, ey = (gen.edges_for(rng, n, uniform)[0] for n in nbs)
    n = int(rng.choice([0, 1, 5, 40, 200, 800], p=[.03, .07, .15, .35, .3, .1]))
    if rng.random() < 0.02:
        n = int(10 ** rng.uniform(4, 5.5))
        ctx.ev("large_samples")
    x, y = gen.rand_events(rng, ex, n), gen.rand_events(rng, ey, n)
    w, wkind = gen.rand_weights(rng, n)
    form = str(rng.choice(["int", "edges", "edges-list"])) if uniform else str(rng.choice(["edges", "edges-list"]))
    rg = tuple((e[0].item(), e[-1].item()) for e in (ex, ey))
    ekinds = [str(k) for k in rng.choice(["array", "array", "list", "series"], 2)]
    edges_as_given = lambda: (tuple if form == "edges" else list)(container(rng, e, k) for e, k in zip((ex, ey), ekinds))
    given = (tuple(map(np.int64, nbs)) if rng.random() < 0.2 else nbs) if form == "int" else edges_as_given()
    make = lambda **k: Hist2d(given, range=rg if form == "int" else None, **k)
    chunks = np.array_split(np.arange(n), int(rng.integers(1, 6 if n < 10000 else 4)))
    h = None
    ctor = rng.random() < 0.5
    for k, idx in enumerate(chunks):
        kind = str(rng.choice(["list", "series", "array", "strided", "readonly", "stacked"]))
        d = np.array([x[idx], y[idx]]) if kind == "stacked" else tuple(container(rng, a[idx], kind) for a in (x, y))
        ww = None if w is None else container(rng, w[idx], str(rng.choice(["list", "series", "array"])))
        bd, bw = [freeze(a) for a in d], freeze(ww)
        if k == 0 and ctor:
            h = make(data=d, weights=ww)
        else:
            h = make() if h is None else h
            if w is None and rng.random() < 0.5:
                h.fill(d)
            else:
                h.fill(d, ww)
        ctx.ev("fills")
        if form != "int" and k == 0 and rng.random() < 0.4:     # the caller uses his edges for something else
            for a, e, kind in zip(given, (ex, ey), ekinds):
                ctx.same(np.array(a), e, "input-modified:edges")
                for j in range(len(a) if kind != "series" else 0):
                    a[j] = a[j] * 0.5 + 3
            given = edges_as_given()
            ctx.ev("edges_reused")
        for a, b in zip(d, bd):
            ctx.same(a, b, "input-modified:data")
        if ww is not None:
            ctx.same(ww, bw, "input-modified:weights")
        upto = np.concatenate(chunks[:k + 1]).astype(int)
        wv = np.ones(len(upto)) if w is None else np.asarray(w, dtype=float)[upto]
        c, e2, inside = ref.bin2d(x[upto], y[upto], wv, h.x_edges, h.y_edges)
        r2 = 1e-6 if wkind == "f32" else 0
        rel = rounding(len(upto))
        s1, s2 = rel * np.abs(wv).sum() + 1e-300, rel * (wv ** 2).sum() + 1e-300
        ctx.close(h.bin_counts, c, "counts", rtol=0, atol=s1, step=k)
        ctx.close(h.bin_errors_sq, e2, "errors-squared", rtol=r2, atol=s2, step=k)
        if rng.random() < 0.6 or k == len(chunks) - 1:
            before = (h.bin_counts.copy(), h.bin_errors_sq.copy())
            px, py = h.x_projection(), h.y_projection()
            ctx.ev("projections", 2)
            for p, axis, e in ((px, 1, ex), (py, 0, ey)):
                ctx.check(isinstance(p, Hist1d), "projection-type", type(p).__name__)
                ctx.close(p.bin_counts, c.sum(axis=axis), "projection-counts", rtol=1e-12, atol=s1, axis="xy"[1 - axis])
                ctx.close(p.bin_errors_sq, e2.sum(axis=axis), "projection-errors", rtol=max(r2, 1e-12), atol=s2, axis="xy"[1 - axis])
                ctx.close(p.bin_edges, e, "projection-edges", rtol=1e-12, atol=1e-12)
                ctx.check(p.num_bins == len(e) - 1 and p.shape == (len(e) - 1,), "projection-geometry")
            p.fill([ex[0].item()], [5.0])   # a projection is its own histogram
            ctx.same(h.bin_counts, before[0], "projection-aliases-counts")
            ctx.same(h.bin_errors_sq, before[1], "projection-aliases-errors")
    for a, e in zip(h.bin_edges, (ex, ey)):
        ctx.close(a, e, "edges", rtol=1e-12, atol=1e-12)
    if form != "int":
        for a, e in zip(given, (ex, ey)):
            ctx.same(np.array(a), e, "input-modified:edges")
    if n and rng.random() < 0.3:        # undefined and infinite values are in no bin
        before = (h.bin_counts.copy(), h.bin_errors_sq.copy())
        odd = rng.choice([np.nan, np.inf, -np.inf, 1e300], 2)
        good = np.array([(ex[0] + ex[1]) / 2, (ey[0] + ey[1]) / 2])
        h.fill((np.array([odd[0], good[0], odd[1], good[0]]), np.array([good[1], odd[1], odd[0], good[1]])), None if w is None else np.full(4, 0.75))
        v = 1.0 if w is None else 0.75
        before[0][0, 0] += v
        before[1][0, 0] += v ** 2
        ctx.close(h.bin_counts, before[0], "undefined-values", atol=s1, values=odd)
        ctx.close(h.bin_errors_sq, before[1], "undefined-values:errors", rtol=r2, atol=s2, values=odd)
        h = make()
        h.fill((x, y), w)
        ctx.ev("undefined_values")
    if n and n <= 1000 and rng.random() < 0.3:       # the same buffers serve several fills
        g, tot = make(), [0, 0]
        d, bw = (x.copy(), y.copy()), None if w is None else w.copy()
        for step in range(3):
            if step:
                for a in (d[0], d[1], bw):
                    if a is not None and rng.random() < 0.4:
                        a[:] = rng.permutation(a)
            g.fill(d, bw)
            c, e2, _ = ref.bin2d(d[0], d[1], np.ones(n) if bw is None else np.asarray(bw, dtype=float), g.x_edges, g.y_edges)
            tot = [tot[0] + c, tot[1] + e2]
            ctx.close(g.bin_counts, tot[0], "refilled-buffer", rtol=0, atol=4 * s1, step=step)
            ctx.close(g.bin_errors_sq, tot[1], "refilled-buffer:errors", rtol=r2, atol=4 * s2, step=step)
            ctx.ev("buffers_refilled")
    perm = rng.permutation(n)
    g = make()
    g.fill((x[perm], y[perm]), None if w is None else w[perm])
    ctx.close(g.bin_counts, h.bin_counts, "split-or-order-dependence", atol=2 * s1)
    ctx.close(g.bin_errors_sq, h.bin_errors_sq, "split-or-order-dependence:errors", rtol=r2, atol=2 * s2)
    ctx.ev("events_inside", inside); ctx.ev("events_outside", n - inside)
    if inside:
        ctx.seen(nbs, form, wkind, tuple(map(len, chunks)))
    ctx.describe(bins=nbs, form=form, ranges=rg, events=n, inside=inside, weights=wkind, fills=len(chunks))
