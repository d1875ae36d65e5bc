"""C28 - equivalent descriptions of one analysis: same likelihood, same fit, same uncertainties, same significance."""
import numpy as np

from .. import fits, gen
from ..core import quiet
from ..fits import TOL
from .c06 import conditioned
from .c08 import map_vector, permuted

CASES = dict(quick=320, thorough=5000)
RULE = ("random models, each described in several equivalent ways (units and origin of the observables, mirrored and swapped axes, template weights "
        "in other units, efficiencies and yields in other units, two-dimensional channels unrolled, bins rearranged, systematics summed beforehand, "
        "processes and channels without any content added, reordered and relabelled, and the legacy stack): likelihoods at mapped points to rounding, data sets, and - on "
        "well-posed models - minima, yields, uncertainties, significances, post-fit bins and goodness of fit of real fits; non-trivial = a description that "
        "differs from the first; signature = descriptions and model structure")
KINDS = ["units", "origin", "mirror", "transpose", "weights", "efficiency", "unroll", "rearrange", "summed", "ghost_process", "ghost_channel", "reorder"]
REQUIRED = ["like:" + k for k in KINDS] + ["fit:" + k for k in KINDS] + ["like:legacy", "fit:legacy", "points", "fits_compared", "significances_compared", "compositions",
                                                                     "asimov_compared", "errors_compared"]
ASSUMPTIONS = ["fits are compared within the tolerances of C12; descriptions in which rounding moves an event across an edge are left out"]


# -- descriptions: each returns (other spec, map of the parameter vector) or None where it does not apply ---------------------
def frozen(s):
    """The same model from binned content and covariance matrices."""
    q = s.clone()
    for c, d in zip(q.channels, s.channels):
        for t, u in zip(c["templates"], d["templates"]):
            cnt, e2 = s.ref_content(d, u)
            cov = [dict(kind="cov", cov=np.array(s.ref_variation(d, u, v, np.ravel(cnt)))) for v in u["variations"]]
            t.update(kind="binned", counts=np.array(cnt, dtype=float), errors=np.sqrt(e2), weights=None, variations=cov)
    return q


def same_content(s, q, back=lambda c, a: a):
    for c, d in zip(s.channels, q.channels):
        for t, u in zip(c["templates"], d["templates"]):
            a, b = s.ref_content(c, t), q.ref_content(d, u)
            if not (np.allclose(a[0], back(d, b[0]), rtol=1e-12, atol=0) and np.allclose(a[1], back(d, b[1]), rtol=1e-12, atol=0)):
                return False
            for v, w in zip(t["variations"], u["variations"]):
                if v["kind"] == "var":
                    from .. import ref
                    f = lambda sp, ch, x: (ref.bin1d(x["data"][0], x["up"], ch["edges"][0])[0] if ch["dim"] == 1 else ref.bin2d(x["data"][0], x["data"][1], x["up"], *ch["edges"])[0])  # noqa
                    if not np.allclose(f(s, c, v), back(d, f(q, d, w)), rtol=1e-12, atol=0):
                        return False
    return True


def remap(s, f, g=None):
    """Applies f(axis edges or events, channel, axis) everywhere."""
    q = s.clone()
    for k, c in enumerate(q.channels):
        es = [f(np.array(e), k, a) for a, e in enumerate(c["edges"])]
        c["edges"] = es
        rg = tuple((float(e[0]), float(e[-1])) for e in es)
        c["range"] = rg[0] if c["dim"] == 1 else rg
        if c["uniform"]:
            c["edges"] = [np.linspace(*r, len(e)) for r, e in zip(rg, es)]
        for t in c["templates"]:
            if t.get("data") is not None:
                t["data"] = [(g or f)(np.array(x), k, a) for a, x in enumerate(t["data"])]
            for v in t["variations"]:
                if v["kind"] == "var":
                    v["data"] = [(g or f)(np.array(x), k, a) for a, x in enumerate(v["data"])]
    return q


def units(rng, s):
    z = {(k, a): 2.0 ** int(rng.integers(-12, 13)) for k in range(len(s.channels)) for a in range(2)}
    q = remap(s, lambda x, k, a: x * z[k, a])
    return (q, lambda x: x) if same_content(s, q) else None


def origin(rng, s):
    z = {(k, a): (float(rng.uniform(0.2, 5)), float(rng.normal(0, 30))) for k in range(len(s.channels)) for a in range(2)}
    q = remap(s, lambda x, k, a: x * z[k, a][0] + z[k, a][1])
    return (q, lambda x: x) if same_content(s, q) else None


def shuffled(s, q, f):
    """Maps the nuisances of every template by f(channel index, array in the shape of the channel)."""
    rm = s.reference()
    lay = rm.layout()[0]

    def g(x):
        y = np.array(x, dtype=float)
        for k, c in enumerate(s.channels):
            shape = tuple(len(e) - 1 for e in c["edges"])
            for t in c["templates"]:
                sl = lay[c["name"], t["process"]]
                y[sl] = np.ravel(f(k, np.reshape(x[sl], shape)))
        return y
    return g


def covs(q, f):
    """Permutes covariance matrices of frozen specs like flattened content; content and data by f itself."""
    for k, c in enumerate(q.channels):
        shape = tuple(len(e) - 1 for e in c["edges"])
        idx = np.ravel(f(k, np.arange(int(np.prod(shape))).reshape(shape)))
        for t in c["templates"]:
            for v in t["variations"]:
                if v["kind"] == "cov":
                    v["cov"] = np.array(v["cov"])[np.ix_(idx, idx)]
            if t["kind"] == "binned":
                t["counts"], t["errors"] = np.array(f(k, np.array(t["counts"]))), np.array(f(k, np.array(t["errors"])))
        if c["data"] is not None:
            c["data"] = np.array(f(k, np.array(c["data"])))


def mirror(rng, s):
    z = {(k, a): bool(rng.random() < 0.6 or (k, a) == (0, 0)) for k in range(len(s.channels)) for a in range(2)}
    flip = lambda k, arr: np.flip(arr, axis=[a for a in range(arr.ndim) if z[k, a]])  # noqa
    q = s.clone()
    covs(q, flip)
    q = remap(q, lambda e, k, a: -e[::-1] if z[k, a] else e, lambda x, k, a: -x if z[k, a] else x)
    names = {id(c): k for k, c in enumerate(q.channels)}
    if not same_content(s, q, lambda d, arr: flip(names[id(d)], arr)):
        return None
    return q, shuffled(s, q, flip)


def transpose(rng, s):
    if not any(c["dim"] == 2 for c in s.channels):
        return None
    q = s.clone()
    f = lambda k, arr: arr.T  # noqa
    covs(q, f)
    for c in q.channels:
        if c["dim"] == 2:
            c["edges"], c["range"], c["bins"] = c["edges"][::-1], c["range"][::-1], c["bins"][::-1]
            for t in c["templates"]:
                if t.get("data") is not None:
                    t["data"] = t["data"][::-1]
                for v in t["variations"]:
                    if v["kind"] == "var":
                        v["data"] = v["data"][::-1]
    return q, shuffled(s, q, f)


def factor(rng, orders):
    """Units differ by a little or by many orders of magnitude."""
    return float(rng.uniform(0.3, 3) if rng.random() < 0.4 else 10 ** rng.uniform(-orders, orders))


def weights(rng, s):
    """Simulated samples of another equivalent luminosity: shapes and relative uncertainties stay."""
    q = s.clone()
    small = rng.random() < 0.5      # all of them tiny
    for c in q.channels:
        for t in c["templates"]:
            k = 10 ** rng.uniform(-10, -5) if small else factor(rng, 9)
            if t["kind"] == "binned":
                t["counts"], t["errors"] = np.array(t["counts"]) * k, np.array(t["errors"]) * k
            else:
                t["weights"] = (np.ones(len(t["data"][0])) if t["weights"] is None else np.array(t["weights"], dtype=float)) * k
            for v in t["variations"]:
                if v["kind"] == "cov":
                    v["cov"] = np.array(v["cov"]) * k * k
                else:
                    v["up"], v["down"] = np.array(v["up"]) * k, np.array(v["down"]) * k
    # the 1e-14 given to bins of zero error does not scale
    for c in s.channels:
        for t in c["templates"]:
            if np.any(s.ref_content(c, t)[1] == 0):
                return None
    return q, lambda x: x


def efficiency(rng, s):
    q = s.clone()
    k = {p: factor(rng, 4) for p in s.processes}
    if rng.random() < 0.5:      # a yield counted in such a unit that it is below one
        p = str(rng.choice(s.processes))
        tot = sum(float(np.sum(s.ref_content(c, t)[0])) for c in s.channels for t in c["templates"] if t["process"] == p)
        eff = sum(t["eff"] for c in s.channels for t in c["templates"] if t["process"] == p)
        if tot > 0 and eff > 0:
            k[p] = tot / eff * float(rng.uniform(1.5, 50))
    for c in q.channels:
        for t in c["templates"]:
            t["eff"] = t["eff"] * k[t["process"]]
    q.constraints = [(p, v / k[p], e / k[p]) for p, v, e in q.constraints]
    f = np.array([1 / k[p] for p in s.processes])

    def g(x):
        y = np.array(x, dtype=float)
        y[:len(f)] *= f
        return y
    return q, g


def unroll(rng, s):
    if not any(c["dim"] == 2 for c in s.channels):
        return None
    q = frozen(s)
    for c in q.channels:
        if c["dim"] == 2:
            n = int(np.prod([len(e) - 1 for e in c["edges"]]))
            c.update(dim=1, bins=n, edges=[np.linspace(0.0, n, n + 1)], range=(0.0, float(n)), uniform=True)
            for t in c["templates"]:
                t["counts"], t["errors"] = np.ravel(t["counts"]), np.ravel(t["errors"])
            c["data"] = np.ravel(c["data"])
    return q, lambda x: x


def rearrange(rng, s):
    q = frozen(s)
    perm = {k: [rng.permutation(len(e) - 1) for e in c["edges"]] for k, c in enumerate(s.channels)}
    f = lambda k, arr: np.array(arr)[np.ix_(*perm[k])]  # noqa
    covs(q, f)
    return q, shuffled(s, q, f)


def summed(rng, s):
    if not any(len(t["variations"]) > 1 for c in s.channels for t in c["templates"]):
        return None
    q = frozen(s)
    for c in q.channels:
        for t in c["templates"]:
            if len(t["variations"]) > 1:
                t["variations"] = [dict(kind="cov", cov=sum(v["cov"] for v in t["variations"]))]
    return q, lambda x: x


def ghost_process(rng, s):
    """A process without a single event: contributes nothing."""
    q = s.clone()
    pos = int(rng.integers(len(q.processes) + 1))
    q.processes.insert(pos, "ghost")
    k = int(rng.integers(len(q.channels)))
    c = q.channels[k]
    shape = tuple(len(e) - 1 for e in c["edges"])
    c["templates"].insert(int(rng.integers(len(c["templates"]) + 1)),
                          dict(process="ghost", eff=1.0, label="ghost", kind="binned", counts=np.zeros(shape), errors=np.zeros(shape), weights=None, data=None, variations=[]))
    return q, extended(s, q)


def ghost_channel(rng, s):
    """A channel which no process reaches and in which nothing was seen."""
    q = s.clone()
    c = gen.make_channel(rng, "ghost", 1, int(rng.integers(1, 5)), True)
    for p in rng.permutation(s.processes)[:int(rng.integers(1, len(s.processes) + 1))]:
        cnt = rng.uniform(3, 50, c["bins"])
        c["templates"].append(dict(process=str(p), eff=0.0, label="g", kind="binned", counts=cnt, errors=np.sqrt(cnt), weights=None, data=None, variations=[]))
    c["data"] = np.zeros(c["bins"])
    q.channels.insert(int(rng.integers(len(q.channels) + 1)), c)
    return q, extended(s, q)


def extended(s, q):
    a, b = s.reference(), q.reference()
    la, lb = a.layout()[0], b.layout()[0]

    def g(x):
        y = np.zeros(b.npar)
        for k, p in enumerate(s.processes):
            y[q.processes.index(p)] = x[k]
        for key, sl in la.items():
            y[lb[key]] = x[sl]
        return y
    return g


def reorder(rng, s):
    q, pm, cm = permuted(rng, s)
    return q, lambda x: map_vector(s, q, pm, cm, x)


MAKE = {f.__name__: f for f in (units, origin, mirror, transpose, weights, efficiency, unroll, rearrange, summed, ghost_process, ghost_channel, reorder)}


def describe_otherwise(rng, s, names):
    """Applies the named changes one after the other; returns (spec, map, applied names)."""
    q, maps, done = s, [], []
    for n in names:
        r = MAKE[n](rng, q)
        if r is not None:
            q = r[0]
            maps.append(r[1])
            done.append(n)

    def g(x):
        for f in maps:
            x = f(x)
        return x
    return q, g, done


# -- observations -----------------------------------------------------------------------------
def likelihoods(ctx, rng, s, q, g, done, npoints=4):
    m, n = s.build(), q.build()
    rm = s.reference()
    a, b = m.create_nll(), n.create_nll()
    lay, _ = rm.layout()
    for _ in range(npoints):
        x = gen.rand_params(rng, rm, spread=float(rng.choice([0, 0.5, 1.0])))
        va, vb = a(x), b(g(x))
        quad = sum(np.abs(x[sl]) @ np.abs(t.inv_corr) @ np.abs(x[sl]) for c in rm.channels.values() for p, t in c.templates.items() for sl in [lay[c.name, p]])
        cons = sum(0.5 * ((x[rm.processes.index(p)] - v) / e) ** 2 for p, (v, e) in rm.constraints.items())
        ctx.close(vb, va, "likelihood:" + "+".join(done), rtol=1e-8, atol=1e-9 * rm.nll_scale(x) + 1e-7 * quad + 1e-9 * cons, model=s.summary())
        ctx.ev("points")
    # what the model expects, too
    m.update_parameters(x.copy())
    n.update_parameters(g(x))
    A, B = m.generate_asimov_dataset(), n.generate_asimov_dataset()
    if not ({"reorder", "ghost_channel"} & set(done)):
        for c, d in zip(s.channels, q.channels):
            u, v = np.sort(np.ravel(A[c["name"]].bin_counts)), np.sort(np.ravel(B[d["name"]].bin_counts))
            ctx.close(v, u, "asimov:" + "+".join(done), rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(u))))
            ctx.ev("asimov_compared")
    ctx.close(sum(np.sum(h.bin_counts) for h in B.values()), sum(np.sum(h.bin_counts) for h in A.values()), "asimov-total", rtol=1e-8, atol=1e-8)
    return m, n


def results(m, mid, rng_p, fix):
    """One fit and everything read from it."""
    from templatefitter import TemplateFitter
    from templatefitter.stats import cowan_binned_likelihood_gof
    r = fits.do_fit(m, mid, update_templates=True, fix_nui_params=fix)
    if r is None:
        return None
    out = dict(minimum=float(r.fcn_min_val), x=np.array(r.params.values, dtype=float), errors=np.array(r.params.errors, dtype=float))
    tot = [np.ravel(sum(t.values for t in c.templates.values())) for c in m.channels.values()]
    out["gof"] = sum(cowan_binned_likelihood_gof(np.ravel(c.data_bin_counts), nu, 1)[0] for c, nu in zip(m.channels.values(), tot))
    with quiet():
        try:
            f = TemplateFitter(m, mid)
            if fix:
                f.fix_nui_params()
            out["z"] = {p: float(f.get_significance(p, verbose=0)) for p in rng_p}
        except RuntimeError:
            out["z"] = None
    return out


def fitted(ctx, rng, s, rm, q, g, done, m, n):
    mid = str(rng.choice(fits.MINIMIZERS))
    fix = bool(rng.random() < 0.45)
    x0 = fits.start_vector(rm)
    m.update_parameters(x0.copy())
    y0 = np.array(g(x0))
    n.update_parameters(y0.copy())
    n0, n1 = len(s.processes), len(q.processes)
    sig = rng.random() < 0.5 or "efficiency" in done
    p = int(rng.integers(n0))
    if "efficiency" in done and rng.random() < 0.7:
        p = int(np.argmin(np.array(g(x0))[[int(np.flatnonzero(np.array(g(np.eye(rm.npar)[k]))[:n1])[0]) for k in range(n0)]]))
    pos = {}
    for k in range(n0):     # where each yield of s is found in q
        e = np.zeros(rm.npar)
        e[k] = 1.0
        pos[k] = int(np.flatnonzero(np.array(g(e))[:n1])[0])
    ghost = "ghost_process" in done
    if ghost and mid == "iminuit":
        mid = "scipy" if not sig else mid
    a = results(m, mid, [s.processes[p]] if sig else [], fix)
    if ghost:       # its yield is undetermined: fixed, as a user would have to
        from templatefitter import TemplateFitter
        f = TemplateFitter(n, mid)
        f.set_parameter_fixed("ghost_yield" if "ghost_yield" in n.create_nll().param_names else [k for k in range(n1) if k not in pos.values()][0])
        r = fits.do_fit(n, mid, f, fix_nui_params=fix)
        b = None if r is None else dict(minimum=float(r.fcn_min_val), x=np.array(r.params.values, dtype=float), errors=np.array(r.params.errors, dtype=float), z=None, gof=None)
    else:
        b = results(n, mid, [q.processes[pos[p]]] if sig else [], fix)
    if a is None or b is None:
        ctx.ev("failed_fits")
        return
    if np.any(np.abs(a["x"][n0:]) > 5) or np.any(np.abs(b["x"][n1:]) > 5):
        ctx.ev("other_basins")
        return
    tag = "+".join(done)
    ctx.close(b["minimum"], a["minimum"], "minimum:" + tag, rtol=0, atol=TOL[mid], model=s.summary())
    want = np.array(g(a["x"]))
    free = np.concatenate([np.ones(n0, bool), np.full(rm.npar - n0, not fix)])
    sg = np.array(g(fits.sigmas(rm, a["x"], free)))
    for k in range(n0):
        j = pos[k]
        ctx.close(b["x"][j] / sg[j], want[j] / sg[j], "yield:" + tag, rtol=0, atol=2 * (2.2 * TOL[mid]) ** 0.5, model=s.summary())
    ea = np.array(g(a["errors"]))
    if np.all(np.isfinite(a["errors"])) and np.all(np.isfinite(b["errors"])):
        for k in range(n0):
            j = pos[k]
            ctx.close(b["errors"][j], ea[j], "uncertainty:" + tag, rtol=0.1, atol=0.02 * sg[j], model=s.summary())
        ctx.ev("errors_compared")
    if a["gof"] is not None and b["gof"] is not None:
        # at two minima within the tolerance the Poisson part alone may move by some of their distance
        ctx.close(b["gof"], a["gof"], "goodness-of-fit:" + tag, rtol=0.02, atol=2 * (2 * TOL[mid] * (1 + abs(a["gof"]))) ** 0.5)
    if sig and a.get("z") and b.get("z"):
        za, zb = (list(v["z"].values())[0] for v in (a, b))
        if min(za, zb) > 8 and not fix:     # templates without the process cannot describe the data: several minima far from the start
            ctx.ev("excluded_hypotheses")
        else:
            ctx.close(zb ** 2, za ** 2, "significance:" + tag, rtol=0, atol=8 * TOL[mid] + 1e-6 * za ** 2)
            ctx.ev("significances_compared")
            ctx.ev("significances_of_small_yields", int(min(abs(a["x"][p]), abs(b["x"][pos[p]])) < 1))
    for k in done:
        ctx.ev("fit:" + k)
    ctx.ev("fits_compared")


# -- the legacy stack --------------------------------------------------------------------------
def legacy(ctx, rng):
    import pandas as pd
    from templatefitter.histogram_legacy import Hist1d as LHist
    from templatefitter.minimizer import minimizer_factory
    from templatefitter.templates_legacy import StackedTemplate
    s, rm = fits.fit_spec(ctx, rng, data="toy", max_par=24, max_channels=1, dims=(1,), uniform=True, eff="default", constraints=False)
    if s is None:
        ctx.ev("no_model")
        return
    c = s.channels[0]
    for t in c["templates"]:
        if t["kind"] == "binned":      # events at the middle of the bins carrying the content
            e = c["edges"][0]
            cnt = np.array(t["counts"])
            parts = [(mid, w) for mid, w in zip((e[1:] + e[:-1]) / 2, cnt) for _ in range(max(1, int(w)))]
            t.update(kind="fill", data=[np.array([a for a, _ in parts])], weights=np.array([w / max(1, int(w)) for _, w in parts]))
        w = np.ones(len(t["data"][0])) if t["weights"] is None else np.array(t["weights"], dtype=float)
        t["weights"] = w
        cnt = s.ref_content(c, t)[0]
        t["variations"] = [dict(kind="cov", cov=np.array(s.ref_variation(c, t, v, np.ravel(cnt)))) for v in t["variations"]]
    # the stack knows processes in the order of its templates
    s.processes = [t["process"] for t in c["templates"]]
    rm = s.reference()
    if not conditioned(rm):
        ctx.ev("no_model")
        return
    st = StackedTemplate("stack", "x", c["bins"], c["range"])
    for t in c["templates"]:
        st.create_template(t["process"], pd.DataFrame(dict(x=t["data"][0], weight=t["weights"])))
        for v in t["variations"]:
            st[t["process"]].add_covariance_matrix(np.array(v["cov"]))
    data = LHist.from_binned_data(np.array(c["edges"][0]), np.array(c["data"], dtype=float))
    old = st.create_nll(data)
    m = s.build()
    new = m.create_nll()
    ctx.check([n for n in old.param_names][:len(s.processes)] == list(new.param_names)[:len(s.processes)], "legacy:names", got=old.param_names)
    ctx.close(old.x0, new.x0, "legacy:x0", rtol=1e-9, atol=1e-12)
    lay, _ = rm.layout()
    for _ in range(5):
        x = gen.rand_params(rng, rm, spread=float(rng.choice([0, 0.5, 1])))
        quad = sum(np.abs(x[sl]) @ np.abs(t.inv_corr) @ np.abs(x[sl]) for ch in rm.channels.values() for p, t in ch.templates.items() for sl in [lay[ch.name, p]])
        ctx.close(old(x), new(x), "likelihood:legacy", rtol=1e-8, atol=1e-9 * rm.nll_scale(x) + 1e-7 * quad)
        ctx.ev("points")
    ctx.ev("like:legacy")
    mid = str(rng.choice(fits.MINIMIZERS))
    a = fits.do_fit(m, mid, update_templates=True)
    with quiet():
        try:
            b = minimizer_factory(mid, old, old.param_names).minimize(old.x0, verbose=0)
        except RuntimeError:
            b = None
    if a is None or b is None or not b.succes or np.any(np.abs(np.asarray(a.params.values)[len(s.processes):]) > 5):
        ctx.ev("failed_fits")
        return
    ctx.close(b.fcn_min_val, a.fcn_min_val, "minimum:legacy", rtol=0, atol=TOL[mid])
    n0 = len(s.processes)
    sg = fits.sigmas(rm, np.asarray(a.params.values))[:n0]
    ctx.close(np.asarray(b.params.values)[:n0] / sg, np.asarray(a.params.values)[:n0] / sg, "yield:legacy", rtol=0, atol=2 * (2.2 * TOL[mid]) ** 0.5)
    if np.all(np.isfinite(a.params.errors)) and np.all(np.isfinite(b.params.errors)):
        ctx.close(np.asarray(b.params.errors)[:n0], np.asarray(a.params.errors)[:n0], "uncertainty:legacy", rtol=0.1, atol=1e-9)
    st.update_parameters(np.array(b.params.values), np.array(b.params.errors))
    tot = np.ravel(sum(t.values for t in m.channels[c["name"]].templates.values()))
    ctx.close(st.values(), tot, "post-fit:legacy", rtol=0.05, atol=0.05 * np.max(tot))
    ctx.ev("fit:legacy")
    ctx.seen("legacy", str(s.summary()))
    ctx.describe(kind="legacy", model=s.summary())


def case(ctx, i):
    rng = ctx.rng
    if i % 8 == 7:
        return legacy(ctx, rng)
    fit = i % 2 == 0
    names = [KINDS[(i // 2) % len(KINDS)]]
    if rng.random() < 0.5:
        names += [str(k) for k in rng.permutation([k for k in KINDS if k not in names])[:int(rng.integers(1, 3))]]
        names = [str(k) for k in rng.permutation(names)]
    two = {"transpose", "unroll"} & set(names)
    for _ in range(8):
        if fit:
            s, rm = fits.fit_spec(ctx, rng, data="toy", max_par=26, dims=(2,) if two else (1, 1, 2), max_channels=2)
        else:
            s = gen.rand_spec(rng, data=str(rng.choice(["toy", "float", "sparse"])), bins=(1, 7), n_events=(30, 300), dims=(2, 1) if two else (1, 2),
                              eff=str(rng.choice(["any", "one", "sum1"])))
            rm = s.reference()
            if not conditioned(rm):
                continue
        if s is None:
            continue
        q, g, done = describe_otherwise(rng, s, names)
        if done:
            break
    else:
        ctx.ev("no_model")
        return
    if not conditioned(q.reference()):
        ctx.ev("no_model")
        return
    m, n = likelihoods(ctx, rng, s, q, g, done)
    for k in done:
        ctx.ev("like:" + k)
    ctx.ev("compositions", int(len(done) > 1))
    if fit:
        fitted(ctx, rng, s, rm, q, g, done, m, n)
    ctx.seen(tuple(done), str(s.summary()), fit)
    ctx.describe(changes=done, model=s.summary(), fitted=fit)
