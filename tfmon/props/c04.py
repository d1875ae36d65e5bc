"""C04 - template fractions, values and errors against the documented formula, over state histories."""
import numpy as np

from .. import gen, ref

CASES = dict(quick=800, thorough=12000)
RULE = ("random 1D/2D templates (filled, weighted, binned; with empty bins, negative content, single bins, completely empty), 0-3 systematic "
        "contributions, then 6-15 operations (yield, nuisances, all parameters, reset, more systematics, pure evaluation); after each one values, "
        "errors and fractions are compared with the reference; non-trivial = a comparison at non-zero nuisances; signature = binning, kind, systematics")
REQUIRED = ["state_checks", "fractions_evaluated", "empty_templates", "resets", "variations", "negative_content", "negative_totals", "small_shifts"]


def template_case(rng, empty_ok=True):
    """(channel dict, template dict, kind)"""
    dim = int(rng.choice([1, 1, 2]))
    bins = int(rng.choice([1, 2, 3, 6, 12])) if dim == 1 else tuple(int(v) for v in rng.choice([1, 2, 3, 5], 2))
    if rng.random() < 0.03:
        bins = int(rng.integers(20, 120)) if dim == 1 else (int(rng.integers(8, 14)), int(rng.integers(2, 10)))
    ch = gen.make_channel(rng, "ch", dim, bins, bool(rng.random() < 0.5))
    t = gen.make_template(rng, ch, "p", 1.0, int(rng.choice([5, 60, 500])))
    kind = t["kind"]
    r = rng.random()
    shape = tuple(len(e) - 1 for e in ch["edges"])
    if empty_ok and r < 0.08:
        t.update(kind="binned", counts=np.zeros(shape), errors=np.zeros(shape), weights=None)
        kind = "empty"
    elif r < 0.18:
        c = rng.normal(20, 15, shape)
        c[0] += 200
        if r < 0.11:       # more content subtracted than added
            c = -c
        t.update(kind="binned", counts=c, errors=rng.uniform(0.5, 4, shape), weights=None)
        t.pop("no_variations", None)
        kind = "negative"
    return ch, t, kind


def theta(rng, R, kind):
    n = R.nbins
    if kind == "zero":
        return np.zeros(n)
    if kind == "one-hot":
        x = np.zeros(n)
        x[rng.integers(n)] = rng.normal()
        return x
    return rng.normal(0, 3 if kind == "wide" else 1, n)


def well_conditioned(R, th):
    r = np.array(R.raw(th))
    return not np.any(R.counts) or abs(r.sum()) > 0.02 * np.abs(r).sum()


def case(ctx, i):
    rng = ctx.rng
    spec = gen.Spec()
    ch, t, kind = template_case(rng)
    T, R = spec.template(ch, t, False), spec.ref_template(ch, t, False)
    shape = tuple(len(e) - 1 for e in ch["edges"])
    is_empty = not np.any(R.counts)
    ctx.ev("empty_templates", int(is_empty))
    ctx.ev("negative_content", int(bool((R.counts < 0).any())))
    ctx.ev("negative_totals", int(R.counts.sum() < 0))

    def add_variation():
        if t.get("no_variations") or is_empty:
            return
        v = gen.make_variation(rng, spec, ch, t)
        spec.apply_variation(T, ch, v)
        R.add(spec.ref_variation(ch, t, v, R.counts))
        ctx.ev("variations")
        ctx.log("variation", v["kind"])

    def state(op):
        ctx.ev("state_checks")
        ctx.check(np.shape(T.values) == shape and np.shape(T.errors) == shape, "shape", op)
        ctx.close(T.yield_param, R.yield_, "yield", op=op)
        ctx.close(T.nui_params, R.nui, "nuisances", op=op)
        ctx.close(T.params, np.concatenate([[R.yield_], R.nui]), "params", op=op)
        if not well_conditioned(R, R.nui):
            return
        sc = 1e-12 * (abs(R.yield_) + 1e-300)
        ctx.close(np.ravel(T.values), R.values, "values", rtol=1e-8, atol=100 * sc, op=op)
        ctx.close(np.ravel(T.errors), R.errors, "errors", rtol=1e-7, atol=100 * sc, op=op)
        if np.any(R.nui) and not is_empty:
            ctx.seen(ch["dim"], shape, kind, ch["uniform"], len(R.contributions))

    for _ in range(int(rng.choice([0, 0, 1, 2]))):
        add_variation()
    state("initial")
    for step in range(int(rng.integers(6, 16))):
        op = str(rng.choice(["fractions", "fractions", "fractions", "nui", "nui", "yield", "params", "reset", "variation"]))
        ctx.log(op)
        if op == "fractions":
            th = theta(rng, R, str(rng.choice(["zero", "one-hot", "normal", "wide"])))
            if well_conditioned(R, th):
                b = th.copy()
                f = T.fractions(th)
                ctx.ev("fractions_evaluated")
                ctx.same(th, b, "argument-modified")
                ctx.check(np.shape(f) == (R.nbins,), "shape", "fractions")
                want = R.fractions(th)
                ctx.close(f, want, "fractions", rtol=1e-9, atol=1e-11)
                if is_empty:
                    ctx.same(f, np.zeros(R.nbins), "empty-template")
                else:
                    ctx.close(np.sum(f), 1.0, "normalisation", rtol=1e-9)
                    if not th.any():
                        ctx.close(f, R.counts / R.counts.sum(), "nominal-shape", rtol=1e-9, atol=1e-11)
                ctx.same(T.fractions(th), f, "not-repeatable")
                if rng.random() < 0.5 and not is_empty:      # small shifts matter as well: minimisers differentiate numerically
                    h = float(10 ** rng.uniform(-9, -2))
                    d = h * rng.normal(0, 1, R.nbins) * (rng.random(R.nbins) < rng.choice([0.3, 1]))
                    got = np.asarray(T.fractions(th + d)) - f
                    # shift of w_b / sum(w) written without cancellation
                    w, dw = np.array(R.raw(th)), R.counts * d * R.eps
                    exp = (dw - want * dw.sum()) / (w.sum() + dw.sum())
                    if well_conditioned(R, th + d):
                        ctx.close(got, exp, "small-shift", rtol=1e-6, atol=1e-14 * (1 + np.abs(w).sum() / abs(w.sum())) ** 2, shift=d)
                        ctx.ev("small_shifts")
        elif op == "nui":
            th = theta(rng, R, str(rng.choice(["zero", "one-hot", "normal", "normal"])))
            T.nui_params = th.copy()
            R.nui = th
        elif op == "yield":
            v = [float(rng.uniform(0, 1e4)), 0.0, int(rng.integers(0, 500)), -3.5, float(rng.uniform(0, 1e-3))][int(rng.integers(5))]
            T.yield_param = v
            R.yield_ = float(v)
        elif op == "params":
            p = np.concatenate([[rng.uniform(1, 500)], theta(rng, R, "normal")])
            T.params = p.copy()
            R.yield_, R.nui = p[0], p[1:].copy()
        elif op == "reset":
            T.reset()
            R.reset()
            ctx.ev("resets")
        else:
            add_variation()
        state(op)
    # wrong shapes are rejected without an effect
    for bad in (np.zeros(R.nbins + 1), np.zeros((R.nbins, 1))):
        def setter(b=bad):
            T.nui_params = b
        ctx.raises(Exception, setter, "wrong-shape-accepted")
    state("after rejection")
    ctx.describe(dim=ch["dim"], bins=ch["bins"], kind=kind, uniform=ch["uniform"], systematics=len(R.contributions) - 1)
