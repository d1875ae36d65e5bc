"""C03 - histograms from binned content; geometry of every histogram."""
import numpy as np

from .. import gen, ref

CASES = dict(quick=800, thorough=12000)
RULE = ("random 1D/2D contents (float, integer, zero, large) on uniform/non-uniform edges with and without errors, followed by 0-3 fills; "
        "plus empty and filled histograms for the geometry; signature = dimension, binning, content kind, errors given, later fills")
REQUIRED = ["from_binned", "fills_after_binned", "geometry_checks", "empty_histograms", "sources_overwritten"]


def geometry(ctx, h, edges, dim):
    ctx.ev("geometry_checks")
    es = [h.bin_edges] if dim == 1 else list(h.bin_edges)
    shape = tuple(len(e) - 1 for e in edges)
    for a, e in zip(es, edges):
        ctx.close(a, e, "edges", rtol=1e-12, atol=1e-12)
    ctx.check(len(es) == len(edges), "edges")
    ctx.check(tuple(h.shape) == shape, "shape", f"{h.shape} != {shape}")
    nb = (h.num_bins,) if dim == 1 else tuple(h.num_bins)
    ctx.check(nb == shape, "num-bins", f"{nb} != {shape}")
    ctx.check(np.shape(h.bin_counts) == shape and np.shape(h.bin_errors_sq) == shape and np.shape(h.bin_errors) == shape, "content-shape")
    rg = (h.range,) if dim == 1 else tuple(h.range)
    for r, e in zip(rg, edges):
        ctx.check(len(r) == 2 and abs(r[0] - e[0]) < 1e-12 * (1 + abs(e[0])) and abs(r[1] - e[-1]) < 1e-12 * (1 + abs(e[-1])), "range", f"{h.range}")
    mids = [h.bin_mids] if dim == 1 else list(h.bin_mids)
    wid = [h.bin_widths] if dim == 1 else list(h.bin_widths)
    for m, w, e in zip(mids, wid, edges):
        ctx.close(m, [(a + b) / 2 for a, b in zip(e[:-1], e[1:])], "mids", rtol=1e-12, atol=1e-12)
        ctx.close(w, [b - a for a, b in zip(e[:-1], e[1:])], "widths", rtol=1e-9, atol=1e-12)
    with np.errstate(invalid="ignore"):
        ctx.close(h.bin_errors, np.sqrt(np.array(h.bin_errors_sq, dtype=float)), "errors-vs-squared", rtol=1e-12)
    if dim == 2:
        ctx.same(h.x_edges, es[0], "x-edges"); ctx.same(h.y_edges, es[1], "y-edges")
        ctx.check(tuple(h.xrange) == tuple(h.range[0]) and tuple(h.yrange) == tuple(h.range[1]), "xy-range")


def case(ctx, i):
    from templatefitter.histograms import Hist1d, Hist2d
    rng = ctx.rng
    dim = int(rng.choice([1, 2]))
    nbs = [int(v) for v in rng.choice([1, 2, 3, 5, 9], dim)]
    if rng.random() < 0.03:
        nbs[int(rng.integers(dim))] = int(rng.integers(20, 400))
    uniform = bool(rng.random() < 0.5)
    edges = [gen.edges_for(rng, n, uniform)[0] for n in nbs]
    shape = tuple(nbs)
    cls = Hist1d if dim == 1 else Hist2d
    conv = lambda a: a.tolist() if rng.random() < 0.3 else a.copy()      # edges as arrays and as lists
    pack = lambda e: conv(e[0]) if dim == 1 else (tuple if rng.random() < 0.5 else list)([conv(a) for a in e])

    # an empty one
    by_int = uniform and rng.random() < 0.5
    rg = tuple((e[0].item(), e[-1].item()) for e in edges)
    h0 = cls(nbs[0] if dim == 1 else tuple(nbs), range=rg[0] if dim == 1 else rg) if by_int else cls(pack(edges))
    ctx.check(h0.is_empty is True, "is-empty", "fresh histogram not empty")
    ctx.same(h0.bin_counts, np.zeros(shape), "empty-counts"); ctx.same(h0.bin_errors_sq, np.zeros(shape), "empty-errors")
    geometry(ctx, h0, edges, dim)
    ctx.ev("empty_histograms")

    kind = str(rng.choice(["float", "int", "int32", "zero", "large", "sparse"]))
    c = dict(float=lambda: rng.uniform(0, 50, shape), int=lambda: rng.poisson(20, shape), int32=lambda: rng.poisson(3, shape).astype(np.int32),
             zero=lambda: np.zeros(shape), large=lambda: rng.uniform(1e8, 1e9, shape), sparse=lambda: rng.poisson(0.4, shape).astype(float))[kind]()
    ek = str(rng.choice(["none", "given", "int", "zero"]))
    e = None if ek == "none" else rng.uniform(0, 5, shape) if ek == "given" else rng.integers(0, 4, shape) if ek == "int" else np.zeros(shape)
    ce = pack(edges)
    ci, ei = c.copy(), None if e is None else e.copy()
    with_kw = rng.random() < 0.5
    h = cls.from_binned_data(bin_counts=ci, bin_edges=ce, bin_errors=ei) if with_kw else \
        (cls.from_binned_data(ci, ce) if e is None and rng.random() < 0.5 else cls.from_binned_data(ci, ce, ei))
    ctx.ev("from_binned")
    ctx.check(h.is_empty is False, "is-empty", "histogram with content reported empty")
    ctx.close(h.bin_counts, c, "counts", rtol=0, atol=0)
    want_e = np.sqrt(c.astype(float)) if e is None else e.astype(float)
    ctx.close(h.bin_errors, want_e, "errors", rtol=1e-12)
    ctx.close(h.bin_errors_sq, want_e ** 2, "errors-squared", rtol=1e-12)
    geometry(ctx, h, edges, dim)

    def sources_untouched(when):
        ctx.same(ci, c, "source-modified:counts", when)
        if e is not None:
            ctx.same(ei, e, "source-modified:errors", when)
        for a, b in zip([ce] if dim == 1 else ce, edges):
            ctx.same(np.array(a), b, "source-modified:edges", when)

    nf = int(rng.integers(0, 4))
    ec, ee = c.astype(float), want_e ** 2
    for k in range(nf):
        n = int(rng.choice([0, 1, 30]))
        d = [gen.rand_events(rng, a, n) for a in edges]
        w, wk = gen.rand_weights(rng, n)
        wv = np.ones(n) if w is None else np.asarray(w, dtype=float)
        if dim == 1:
            h.fill(d[0], w); a, b, _ = ref.bin1d(d[0], wv, edges[0])
        else:
            h.fill((d[0], d[1]), w); a, b, _ = ref.bin2d(d[0], d[1], wv, *edges)
        ctx.ev("fills_after_binned")
        ec, ee = ec + a, ee + b
        ctx.close(h.bin_counts, ec, "fill-after-binned", atol=1e-7 * (1 + np.abs(wv).sum()) * 1e-2)
        ctx.close(h.bin_errors_sq, ee, "fill-after-binned:errors", rtol=1e-6, atol=1e-8 * (1 + (wv ** 2).sum()))
        sources_untouched(f"after fill {k}")
        geometry(ctx, h, edges, dim)
    # mutate the sources: the histogram must not follow
    snap = (np.array(h.bin_counts), np.array(h.bin_errors_sq))
    ci += 1
    if ei is not None:
        ei += 1
    for a in [ce] if dim == 1 else ce:
        for j in range(len(a)):
            a[j] = a[j] * 2 + 1
    geometry(ctx, h, edges, dim)
    ctx.ev("sources_overwritten")
    ctx.same(h.bin_counts, snap[0], "follows-source:counts"); ctx.same(h.bin_errors_sq, snap[1], "follows-source:errors")
    # fills: whatever the events were, the histogram counts as filled and reports the exact content
    how = str(rng.choice(["on-edge", "outside", "outside", "cancelling", "zero-weight", "no-events"]))
    w = None
    if how == "on-edge":
        d = [a[:1] for a in edges]
    elif how in ("outside", "no-events"):
        k = 0 if how == "no-events" else int(rng.integers(1, 5))
        d = [np.full(k, a[0] - (a[-1] - a[0]) if rng.random() < 0.5 else a[-1] + (a[-1] - a[0])) for a in edges]
        w = None if rng.random() < 0.5 else rng.uniform(0.1, 3, k)
    else:
        d = [np.full(2, (a[0] + a[1]) / 2) for a in edges]
        w = np.array([2.5, -2.5]) if how == "cancelling" else np.zeros(2)
    h0.fill(d[0] if dim == 1 else tuple(d), w)
    want = [np.zeros(shape), np.zeros(shape)]
    first = (0,) * dim
    if how == "on-edge":
        want[0][first] = want[1][first] = 1
    elif how == "cancelling":
        want[1][first] = 12.5
    if how != "no-events":
        ctx.check(h0.is_empty is False, "is-empty", f"filled histogram reported empty ({how})")
    ctx.close(h0.bin_counts, want[0], "counts-after-fill", msg=how)
    ctx.close(h0.bin_errors_sq, want[1], "errors-after-fill", msg=how)
    geometry(ctx, h0, edges, dim)
    ctx.ev("fills_" + how)
    ctx.seen(dim, shape, uniform, kind, ek, nf)
    ctx.describe(dim=dim, shape=shape, uniform=uniform, content=kind, errors=ek, later_fills=nf)
