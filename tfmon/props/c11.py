"""C11 - Asimov and toy data sets: representation of the current expectation, Poisson statistics, no side effects."""
import numpy as np
from scipy import stats

from .. import gen
from .c06 import tag_model
from .c08 import templates

CASES = dict(quick=240, thorough=3000)
RULE = ("random models moved to random states by updates, yield settings, data additions and resets; at each state Asimov data (plain and integer) "
        "against the reference expectation, and recorded toy data sets (300-1500 draws in a third of the cases) against exact Poisson tail "
        "probabilities (p < 1e-10 is a violation), dispersion, correlations between bins, channels and successive draws; seeds replayed; outputs "
        "mutated to reveal aliasing; non-trivial = non-zero nuisances; signature = model and state sequence")
REQUIRED = ["asimov_checked", "integer_asimov_checked", "toys_recorded", "toy_bins", "tail_tests", "dispersion_tests", "correlation_tests", "seed_replays",
            "aliasing_probes", "multi_channel_models", "two_dim_models", "zero_bins"]
ASSUMPTIONS = ["statistical monitors alarm at a probability of 1e-10 per test under exact Poisson statistics"]


def full_snapshot(m):
    out = {}
    for n, c in m.channels.items():
        for p, t in c.templates.items():
            out[n, p] = (np.array(t.params), np.array(t.cov_mat), np.array(t.values), np.array(t.inv_corr_mat))
        out[n] = (np.array(c.data_bin_counts),) if c.has_data else ()
    return out


def same_snapshot(ctx, a, b, key):
    ctx.check(a.keys() == b.keys(), key, "structure")
    for k in a:
        for u, v in zip(a[k], b[k]):
            ctx.same(u, v, key, msg=str(k))


def edges_match(ctx, h, ch, key):
    e = [h.bin_edges] if ch["dim"] == 1 else list(h.bin_edges)
    for g, w in zip(e, ch["edges"]):
        ctx.close(g, w, key, rtol=1e-12, atol=1e-12)


def case(ctx, i):
    rng = ctx.rng
    heavy = i % 3 == 0
    s = gen.rand_spec(rng, data="toy", bins=(1, 6) if heavy else (1, 9), n_events=(20, 300), eff=str(rng.choice(["any", "sum1", "default"])))
    tag_model(ctx, s)
    m, rm = s.build(), s.reference()
    m2 = s.build()
    hist = []
    nontrivial = False
    for step in range(1 if heavy else 5):
        op = str(rng.choice(["initial", "update", "update", "yield", "reset", "data"])) if not heavy else str(rng.choice(["initial", "update", "yield"]))
        if op == "update":
            x = gen.rand_params(rng, rm)
            if rng.random() < 0.2:
                x[:len(s.processes)] = np.where(rng.random(len(s.processes)) < 0.5, 0.0, x[:len(s.processes)])
            m.update_parameters(x.copy()); m2.update_parameters(x.copy()); rm.update(x)
            nontrivial = True
        elif op == "yield":
            p, v = str(rng.choice(s.processes)), float(rng.choice([0.0, 0.3, 5.0, 40.0, 900.0, 1e6, 1e11]) * rng.uniform(0.5, 1))
            m.set_yield(p, v); m2.set_yield(p, v); rm.set_yield(p, v)
        elif op == "reset":
            m.reset_parameters(); m2.reset_parameters(); rm.reset()
        elif op == "data":
            m.add_data(**m.generate_toy_dataset())
        hist.append(op)
        ctx.log(op)
        before = full_snapshot(m)
        want = {c["name"]: rm.channels[c["name"]].total.reshape([len(e) - 1 for e in c["edges"]]) for c in s.channels}
        for integer in (False, True):
            A = m.generate_asimov_dataset(integer_values=integer) if integer or rng.random() < 0.5 else m.generate_asimov_dataset()
            ctx.check(sorted(A) == sorted(want), "asimov-channels")
            for c in s.channels:
                n = c["name"]
                h = A[n] if rng.random() < 0.7 else m.channels[n].generate_asimov_dataset(*([integer] if integer or rng.random() < 0.5 else []))
                b = np.asarray(h.bin_counts)
                ctx.check(b.shape == want[n].shape, "asimov-shape")
                if integer:
                    ctx.check(np.all(b == np.rint(b)), "asimov-not-integer", got=b)
                    ctx.check(np.all(np.abs(b - want[n]) <= 0.5 + 1e-9 * (1 + np.abs(want[n]))), "asimov-rounding", got=b, want=want[n])
                    ctx.ev("integer_asimov_checked")
                else:
                    ctx.close(b, want[n], "asimov", rtol=1e-9, atol=1e-10, state=hist[-6:])
                    ctx.ev("asimov_checked")
                ctx.close(h.bin_errors_sq, b, "asimov-errors", rtol=1e-9, atol=1e-12)
                ctx.ev("zero_bins", int(np.sum(b == 0)))
                edges_match(ctx, h, c, "asimov-binning")
                # mutation of what was handed out must not reach the model
                mid = [(e[1:] + e[:-1]) / 2 for e in c["edges"]]
                g = [a.ravel() for a in np.meshgrid(*mid, indexing="ij")]
                h.fill(g[0] if c["dim"] == 1 else tuple(g), np.full(len(g[0]), 3.0))
                h.bin_counts[...] = -4.0
                ctx.ev("aliasing_probes")
        seed = int(rng.integers(2 ** 31))
        np.random.seed(seed)
        t1, t2 = m.generate_toy_dataset(), m.generate_toy_dataset()
        np.random.seed(seed)
        u1, u2 = m2.generate_toy_dataset(), m2.generate_toy_dataset()
        ctx.check(sorted(t1) == sorted(want), "toy-channels")
        distinct, info = False, 0.0
        for c in s.channels:
            n = c["name"]
            ctx.same(t1[n].bin_counts, u1[n].bin_counts, "toy-not-reproducible-from-seed")
            ctx.same(t2[n].bin_counts, u2[n].bin_counts, "toy-not-reproducible-from-seed")
            distinct |= not np.array_equal(t1[n].bin_counts, t2[n].bin_counts)
            info += float(np.sum(np.log1p(2 * np.maximum(want[n], 0)))) / 2
            for h in (t1[n], t2[n]):
                b = np.asarray(h.bin_counts, dtype=float)
                ctx.check(b.shape == want[n].shape and np.all(b >= 0) and np.all(b == np.rint(b)), "toy-not-counts", got=b)
                ctx.close(h.bin_errors_sq, b, "toy-errors", rtol=1e-9, atol=1e-12)
                ctx.close(h.bin_errors, np.sqrt(b), "toy-errors", rtol=1e-9, atol=1e-12)
                edges_match(ctx, h, c, "toy-binning")
                for mu, v in zip(want[n].ravel(), b.ravel()):
                    ctx.check(mu != 0 or v == 0, "toy-in-empty-bin")
        ctx.ev("seed_replays")
        if info > 25:       # two equal draws then have a probability below e-25
            ctx.check(distinct, "successive-toys-identical")
        for c in s.channels:
            t1[c["name"]].bin_counts[...] = 99
        same_snapshot(ctx, before, full_snapshot(m), "generation-changes-the-model")
        if heavy:
            statistics(ctx, rng, m, s, want)
            same_snapshot(ctx, before, full_snapshot(m), "generation-changes-the-model")
    if nontrivial:
        ctx.seen(str(s.summary()), tuple(hist), heavy)
    ctx.describe(model=s.summary(), states=hist)


def statistics(ctx, rng, m, s, want):
    K = int(rng.choice([300, 1500]))
    order = [c["name"] for c in s.channels]
    nu = np.concatenate([want[n].ravel() for n in order])
    X = np.array([np.concatenate([np.ravel(t[n].bin_counts) for n in order]) for t in (m.generate_toy_dataset() for _ in range(K))], dtype=float)
    ctx.ev("toys_recorded", K)
    ctx.ev("toy_bins", X.size)
    lim = 1e-10
    tot = X.sum(axis=0)
    for mu, t in zip(K * nu, tot):
        p = 2 * min(stats.poisson.cdf(t, mu), stats.poisson.sf(t - 1, mu))
        ctx.check(p > lim, "toy-mean", f"sum of {K} draws is {t}, expected {mu}", p=p)
        ctx.ev("tail_tests")
    grand = 2 * min(stats.poisson.cdf(tot.sum(), K * nu.sum()), stats.poisson.sf(tot.sum() - 1, K * nu.sum()))
    ctx.check(grand > lim, "toy-mean:total", p=grand)
    big = nu * K > 30
    if big.any():
        c2 = np.sum((tot[big] - K * nu[big]) ** 2 / (K * nu[big]))
        ctx.check(stats.chi2.sf(c2, big.sum()) > lim / 100, "toy-mean:global", chi2=c2, bins=int(big.sum()))
    # dispersion per bin, of the totals, and of the whole data set
    use = nu > 0.5
    if not use.any():
        return
    Z = (X[:, use] - nu[use]) / np.sqrt(nu[use])
    def disp(z2, mu, what):
        var = 2 + 1 / mu
        z = np.sum(z2 - 1) / np.sqrt(np.sum(np.broadcast_to(var, z2.shape)))
        ctx.check(abs(z) < 8.5, "toy-dispersion:" + what, f"{z} standard deviations")
        ctx.ev("dispersion_tests")
    disp(Z ** 2, nu[use], "all-bins")
    for k in np.flatnonzero(use):
        disp(((X[:, k] - nu[k]) ** 2 / nu[k]), nu[k], "bin")
    N = nu.sum()
    disp((X.sum(axis=1) - N) ** 2 / N, N, "total")
    pos = 0
    for n in order:
        k = want[n].size
        mu = want[n].sum()
        if mu > 0.5:
            disp((X[:, pos:pos + k].sum(axis=1) - mu) ** 2 / mu, mu, "channel")
        pos += k

    # correlations: every product below has mean 0 and variance 1
    def corr(prod, what):
        z = prod.sum() / np.sqrt(prod.size)
        ctx.check(abs(z) < 8, "toy-correlation:" + what, f"{z} standard deviations")
        ctx.ev("correlation_tests")
    corr(Z[1:] * Z[:-1], "successive-draws")
    if Z.shape[1] > 1:
        corr(Z[:, 1:] * Z[:, :-1], "neighbouring-bins")
        for a, b in [rng.choice(Z.shape[1], 2, replace=False) for _ in range(6)]:
            corr(Z[:, a] * Z[:, b], "bins")
    sizes = np.cumsum([0] + [want[n].size for n in order])
    if len(order) > 1:
        for a in range(len(order) - 1):
            k = min(want[order[a]].size, want[order[a + 1]].size)
            A, B = X[:, sizes[a]:sizes[a] + k], X[:, sizes[a + 1]:sizes[a + 1] + k]
            ma, mb = nu[sizes[a]:sizes[a] + k], nu[sizes[a + 1]:sizes[a + 1] + k]
            ok = (ma > 0.5) & (mb > 0.5)
            if ok.any():
                corr((A[:, ok] - ma[ok]) / np.sqrt(ma[ok]) * (B[:, ok] - mb[ok]) / np.sqrt(mb[ok]), "channels")
