"""C01 - 1D histogram filling: monitor of conservation over fill histories."""
import numpy as np

from .. import gen, ref

CASES = dict(quick=1200, thorough=20000)
RULE = ("random binnings (1-30 bins, ints+range / 1-tuple / edges; uniform and not), event samples of 0-2000 (some of 10^4-6*10^5) events including events exactly on "
        "edges, outside, far outside; 9 weight kinds; each history splits the sample into 1-6 fills with permutation and mixed containers; "
        "non-trivial = at least one event inside and one non-empty fill; signature = binning, weight kind, split, containers")
REQUIRED = ["fills", "events_inside", "events_outside", "events_on_edges", "metamorphic_runs", "large_samples", "edges_reused", "undefined_values", "buffers_refilled"]
ASSUMPTIONS = ["events in the strip (last edge, last edge + 0.1% of the range) are not generated: scipy's binning rounds there",
               "single precision event values are kept away from the edges (scipy rounds the edges to the data's precision)"]


def container(rng, a, kind):
    import pandas as pd
    if a is None:
        return None
    if kind == "list":
        return [v.item() for v in a]
    if kind == "series":
        return pd.Series(a, index=rng.permutation(len(a)) + 17) if len(a) else pd.Series(a, dtype=float)
    if kind == "strided":
        b = np.empty(2 * len(a), dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if kind == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy()


def freeze(obj):
    return None if obj is None else np.array(obj, copy=True)


def rounding(n):
    """Bound on the relative rounding of a sum of n terms, in units of the sum of magnitudes."""
    return 1e-13 + 4e-16 * n


def case(ctx, i):
    from templatefitter.histograms import Hist1d
    rng = ctx.rng
    nb = int(rng.choice([1, 2, 3, 5, 8, 10, 17, 30, int(rng.integers(40, 1500))], p=[.13, .13, .12, .12, .12, .12, .12, .11, .03]))
    edges, uniform = gen.edges_for(rng, nb)
    n = int(rng.choice([0, 1, 2, 7, 40, 150, 600, 2000], p=[.04, .06, .08, .15, .27, .25, .1, .05]))
    if rng.random() < 0.02:
        n = int(10 ** rng.uniform(4, 5.8))      # samples of the size of an analysis
        ctx.ev("large_samples")
    x = gen.rand_events(rng, edges, n)
    dkind = str(rng.choice(["f64", "f64", "f64", "f32", "int"]))
    if dkind == "int":
        x = np.clip(np.rint(x), -2 ** 31, 2 ** 31).astype(int)
    elif dkind == "f32":
        # scipy compares single precision samples with single precision edges: stay clear of the edges
        tiny = 1e-2 * np.diff(edges).min()
        for _ in range(2):
            k = np.searchsorted(edges, x)
            close = np.minimum(np.abs(x - edges[np.minimum(k, nb)]), np.abs(x - edges[np.maximum(k - 1, 0)])) < tiny
            x = np.where(close, x + 2.5 * tiny, x)
        x = x.astype(np.float32)
    xf = x.astype(float)
    strip = (xf > edges[-1]) & (xf < edges[-1] + 1e-3 * (edges[-1] - edges[0]))
    x = np.where(strip, np.array(np.ceil(edges[-1]) + 2 + (edges[-1] - edges[0]), dtype=x.dtype), x).astype(x.dtype)
    w, wkind = gen.rand_weights(rng, n)

    form = str(rng.choice(["int", "tuple", "edges", "edges"])) if uniform else "edges"
    rg = (edges[0].item(), edges[-1].item())
    ekind = str(rng.choice(["array", "array", "list", "series", "readonly"])) if form == "edges" else "none"
    nbt = np.int64(nb) if rng.random() < 0.2 else nb
    given = nbt if form == "int" else (nbt,) if form == "tuple" else container(rng, edges, ekind)
    make = lambda **k: Hist1d(given, range=None if form == "edges" else rg, **k)
    chunks = np.array_split(np.arange(n), int(rng.integers(1, 7 if n < 10000 else 4)))
    kinds = [str(k) for k in rng.choice(["list", "series", "array", "strided", "readonly"], len(chunks))]
    ctx.log("bins", form, nb, rg, "n", n, "weights", wkind, "data", dkind, "chunks", [len(c) for c in chunks], kinds)

    h = None
    first_in_ctor = rng.random() < 0.5
    reuse = int(rng.integers(0, len(chunks))) if form == "edges" and ekind in ("array", "list") and rng.random() < 0.5 else None
    for k, (idx, kind) in enumerate(zip(chunks, kinds)):
        d = container(rng, x[idx], kind)
        wk = str(rng.choice(["same", "array", "list"]))
        ww = None if w is None else container(rng, w[idx], kind if wk == "same" else wk)
        bd, bw = freeze(d), freeze(ww)
        if k == 0 and first_in_ctor:
            h = make(data=d, weights=ww)
        else:
            h = make() if h is None else h
            if w is None and rng.random() < 0.5:
                h.fill(d)
                ctx.ev("fills_without_weight_argument")
            else:
                h.fill(d, ww)
        ctx.ev("fills")
        if k == reuse:      # the caller uses his edges for something else: the histogram keeps its own
            ctx.same(given, edges, "input-modified:edges")
            for j in range(len(given)):
                given[j] = given[j] * 0.5 + 3
            ctx.ev("edges_reused")
        ctx.same(d, bd, "input-modified:data")
        if ww is not None:
            ctx.same(ww, bw, "input-modified:weights")
        # online: conservation after every fill (prefix property)
        upto = np.concatenate(chunks[:k + 1]).astype(int)
        wv = np.ones(len(upto)) if w is None else np.asarray(w, dtype=float)[upto]
        ctx.close(h.bin_edges, edges, "edges", rtol=1e-12, atol=1e-12 * abs(rg[1] - rg[0]))
        c, e2, inside = ref.bin1d(x[upto], wv, h.bin_edges)
        rel = rounding(len(upto))
        ctx.close(h.bin_counts, c, "counts", rtol=0, atol=rel * (1e-300 + np.abs(wv).sum()), step=k)
        ctx.close(h.bin_errors_sq, e2, "errors-squared", rtol=1e-6 if wkind == "f32" else 0, atol=rel * (1e-300 + (wv ** 2).sum()), step=k)
    if form == "edges":
        if reuse is None:
            ctx.same(np.array(given), edges, "input-modified:edges")
        given = container(rng, edges, ekind)
    on = int(np.isin(x.astype(float), h.bin_edges).sum())
    ctx.ev("events", n); ctx.ev("events_inside", inside); ctx.ev("events_outside", n - inside); ctx.ev("events_on_edges", on)

    # metamorphic: one permuted fill gives the same histogram
    perm = rng.permutation(n)
    g = make()
    g.fill(x[perm], None if w is None else w[perm])
    ctx.ev("metamorphic_runs")
    wv = np.ones(n) if w is None else np.asarray(w, dtype=float)
    rel = 2 * rounding(n)
    ctx.close(g.bin_counts, h.bin_counts, "split-or-order-dependence", rtol=0, atol=rel * (1e-300 + np.abs(wv).sum()))
    ctx.close(g.bin_errors_sq, h.bin_errors_sq, "split-or-order-dependence:errors", rtol=1e-6 if wkind == "f32" else 0, atol=rel * (1e-300 + (wv ** 2).sum()))
    ctx.close(h.bin_errors ** 2, h.bin_errors_sq, "errors-vs-squared")
    # the same buffers serve several fills, unchanged and with other content
    if n and n <= 2000 and rng.random() < 0.4:
        g, wv, tot = make(), np.ones(n) if w is None else np.asarray(w, dtype=float), [0, 0]
        size = int(rng.integers(1, n + 1))
        bx, bw = x[:size].copy(), None if w is None else w[:size].copy()
        for step in range(int(rng.integers(2, 5))):
            sel = rng.integers(0, n, size)
            what = str(rng.choice(["same", "events", "weights", "both"])) if step else "both"
            if what in ("events", "both"):
                bx[:] = x[sel]
            if bw is not None and what in ("weights", "both"):
                bw[:] = w[sel]
            g.fill(bx, bw)
            c, e2, _ = ref.bin1d(bx, np.ones(size) if bw is None else np.asarray(bw, dtype=float), g.bin_edges)
            tot = [tot[0] + c, tot[1] + e2]
            ctx.close(g.bin_counts, tot[0], "refilled-buffer", rtol=0, atol=8 * rounding(size) * (1e-300 + size * np.abs(wv).max()), step=(step, what))
            ctx.close(g.bin_errors_sq, tot[1], "refilled-buffer:errors", rtol=1e-6 if wkind == "f32" else 0,
                      atol=8 * rounding(size) * (1e-300 + size * (wv ** 2).max()), step=(step, what))
            ctx.ev("buffers_refilled")
    # undefined and infinite values are in no bin
    if n and rng.random() < 0.3:
        before = (np.array(h.bin_counts), np.array(h.bin_errors_sq))
        odd = rng.choice([np.nan, np.inf, -np.inf, 1e300, -1e300], int(rng.integers(1, 4)))
        some = np.concatenate([odd, x[:1].astype(float)])
        h.fill(some, None if w is None else np.full(len(some), 0.75))
        c1, s1, _ = ref.bin1d(x[:1].astype(float), np.full(1, 1.0 if w is None else 0.75), h.bin_edges)
        ctx.close(h.bin_counts, before[0] + c1, "undefined-values", rtol=1e-9, atol=1e-9 * (1 + np.abs(wv).sum()), values=odd)
        ctx.close(h.bin_errors_sq, before[1] + s1, "undefined-values:errors", rtol=1e-9, atol=1e-9 * (1 + (wv ** 2).sum()), values=odd)
        ctx.ev("undefined_values", len(odd))
    if inside and n:
        ctx.seen(nb, form, ekind, uniform, wkind, dkind, tuple(len(c) for c in chunks), tuple(kinds))
    ctx.describe(bins=nb, form=form, range=rg, events=n, inside=inside, on_edges=on, weights=wkind, fills=len(chunks), containers=kinds)
