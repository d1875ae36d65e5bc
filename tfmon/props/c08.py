"""C08 - parameter layout: names, start values and effects refer to the same quantity; permutation invariance."""
import numpy as np

from .. import gen
from .c06 import conditioned, tag_model

CASES = dict(quick=300, thorough=5000)
RULE = ("random models (arbitrary template/process/channel order, missing processes, 1D/2D); names and start values against the layout rule, "
        "single-entry perturbations of up to 14 parameters with the response of every channel and template, layout of updates, and "
        "relabelled/reordered twins; non-trivial = several channels or processes; signature = model structure")
REQUIRED = ["layouts", "start_values", "perturbations", "foreign_responses_checked", "permuted_twins", "missing_process_models", "multi_channel_models",
            "order_differs", "many_bins"]


def per_channel(m, x):
    """Expectation of every channel as a function of the full vector, through the model's own splitting."""
    ys, ths = m.generate_per_channel_parameters(x)
    return {n: c.bin_counts_from_param_values(np.concatenate([y, t])) for (n, c), y, t in zip(m.channels.items(), ys, ths)}


def permuted(rng, s):
    """A relabelled and reordered twin plus the names its parameters correspond to."""
    q = s.clone()
    relabel = rng.random() < 0.5
    pm = {p: (f"P{k}x" if relabel else p) for k, p in enumerate(s.processes)}
    cm = {c["name"]: (f"C{k}y" if relabel else c["name"]) for k, c in enumerate(s.channels)}
    q.processes = [pm[p] for p in rng.permutation(s.processes)]
    q.channels = [q.channels[k] for k in rng.permutation(len(q.channels))]
    for c in q.channels:
        c["name"] = cm[c["name"]]
        c["templates"] = [c["templates"][k] for k in rng.permutation(len(c["templates"]))]
        for t in c["templates"]:
            t["process"] = pm[t["process"]]
    q.constraints = [(pm[p], v, e) for p, v, e in (q.constraints[k] for k in rng.permutation(len(q.constraints)))]
    return q, pm, cm


def map_vector(s, q, pm, cm, x):
    """x of model s rewritten for model q."""
    a, b = s.reference(), q.reference()
    la, lb = a.layout()[0], b.layout()[0]
    y = np.zeros(b.npar)
    for k, p in enumerate(s.processes):
        y[q.processes.index(pm[p])] = x[k]
    for (c, p), sl in la.items():
        y[lb[cm[c], pm[p]]] = x[sl]
    return y


def case(ctx, i):
    rng = ctx.rng
    many = rng.random() < 0.15      # indices of more than one digit
    s = gen.rand_spec(rng, data=str(rng.choice(["toy", "float"])), bins=(11, 14) if many else (1, 6), eff="any",
                      force_channels=int(rng.choice([1, 1, 2] if many else [1, 2, 2, 3])),
                      force_proc=int(rng.choice([1, 2] if many else [1, 2, 3, 3, 4])), n_events=(30, 200), dims=(1,) if many else (1, 2))
    ctx.ev("many_bins", int(many))
    if rng.random() < 0.1:
        gen.rare_process(rng, s)
        ctx.ev("rare_processes")
    if len({(c["name"] + "_" + t["process"]) for c in s.channels for t in c["templates"]}) < sum(len(c["templates"]) for c in s.channels):
        return   # concatenated labels collide
    tag_model(ctx, s)
    ctx.ev("order_differs", int(any([t["process"] for t in c["templates"]] != [p for p in s.processes if p in [t["process"] for t in c["templates"]]] for c in s.channels)))
    m, rm = s.build(), s.reference()
    nll = m.create_nll()
    names = nll.param_names
    ctx.check(list(names) == rm.names, "names", got=list(names), want=rm.names)
    ctx.check((m.num_processes, m.num_channels, m.num_nui_params) == (len(s.processes), len(s.channels), rm.npar - len(s.processes)), "numbers",
              f"{m.num_processes} {m.num_channels} {m.num_nui_params}")
    ctx.check(tuple(m.processes) == tuple(s.processes) and list(m.channels) == [c["name"] for c in s.channels], "orders")
    for c in s.channels:
        ch = m.channels[c["name"]]
        ps = [t["process"] for t in c["templates"]]
        nb = int(np.prod([len(e) - 1 for e in c["edges"]]))
        ctx.check(list(ch.processes) == ps == list(ch.templates) and (ch.num_templates, ch.num_bins, ch.num_nui_params) == (len(ps), nb, nb * len(ps)), "channel-layout", c["name"])
        ctx.check({p: ch.efficiencies[p] for p in ps} == {t["process"]: t["eff"] for t in c["templates"]} and len(ch.efficiencies) == len(ps), "efficiencies", c["name"])
        for p in ps:
            ctx.check(tuple(ch[p].shape) == tuple(len(e) - 1 for e in c["edges"]) and ch[p].num_bins == nb, "template-layout", p)
    ctx.ev("layouts")
    n0 = len(s.processes)

    def x0_ok(when):
        x0 = nll.x0
        ctx.check(np.shape(x0) == (rm.npar,), "start-values-shape", when)
        want = []
        for p in s.processes:
            y = [(c.templates[p].yield_, c.eff[p]) for c in rm.channels.values() if p in c.templates]
            want.append(sum(a for a, _ in y) / sum(b for _, b in y))
        ctx.close(x0[:n0], want, "start-values:yields", rtol=1e-9, msg=when)
        ctx.close(x0[n0:], rm.nui(), "start-values:nuisances", rtol=1e-12, msg=when)
        ctx.ev("start_values")
        return x0

    x0_ok("initial")
    x = gen.rand_params(rng, rm)
    m.update_parameters(x.copy()); rm.update(x)
    ctx.close(x0_ok("after update"), x, "start-values:round-trip", rtol=1e-9)
    for name, e in per_channel(m, nll.x0).items():
        ctx.close(e, sum(np.ravel(t.values) for t in m.channels[name].templates.values()), "start-values-do-not-reproduce-the-model", rtol=1e-8, atol=1e-9)
    for k, p in enumerate(s.processes):
        v = float(rng.uniform(1, 900)) * int(rng.choice([1, 1, 1, -1, 0]))
        ctx.ev("negative_yields", int(v < 0))
        m.set_yield(p, v); rm.set_yield(p, v)
        ctx.close(x0_ok("after set_yield")[k], v, "start-values:set-yield", rtol=1e-9)

    # effects of single entries
    lay, npar = rm.layout()
    base = per_channel(m, x)
    owner = {}
    for (c, p), sl in lay.items():
        for k in range(sl.start, sl.stop):
            owner[k] = (c, p, k - sl.start)
    ks = list(range(n0)) + [int(k) for k in rng.permutation(np.arange(n0, npar))[:10]]
    for k in ks:
        y = x.copy()
        y[k] += (0.2 * abs(y[k]) + 1) if k < n0 else 0.01
        new = per_channel(m, y)
        ctx.ev("perturbations")
        for name, e in new.items():
            c = rm.channels[name]
            d = e - base[name]
            if k < n0:
                p = s.processes[k]
                want = (y[k] - x[k]) * c.eff[p] * c.templates[p].fractions(x[lay[name, p]]) if p in c.templates else np.zeros(c.nbins)
                affected = p in c.templates
            else:
                cc, p, b = owner[k]
                affected = cc == name
                want = np.zeros(c.nbins)
                if affected:
                    t = c.templates[p]
                    want = x[s.processes.index(p)] * c.eff[p] * (t.fractions(y[lay[name, p]]) - t.fractions(x[lay[name, p]]))
            if not affected:
                ctx.same(e, base[name], "entry-affects-another-channel", parameter=names[k], channel=name)
                ctx.ev("foreign_responses_checked")
            ctx.close(d, want, "entry-has-wrong-effect", rtol=1e-6, atol=1e-9 * (1 + np.abs(base[name]).sum()), parameter=names[k], channel=name)
        # the update reaches exactly the named template
        if k >= n0:
            m.update_parameters(x.copy()); before = {kk: t.params.copy() for kk, t in templates(m)}
            m.update_parameters(y.copy())
            for kk, t in templates(m):
                diff = np.flatnonzero(np.asarray(t.params) != before[kk])
                ctx.check(list(diff) == ([1 + owner[k][2]] if kk == owner[k][:2] else []), "update-reaches-wrong-parameter", f"{names[k]} changed {kk} at {diff}")
    # twins
    if conditioned(rm):
        q, pm, cm = permuted(rng, s)
        mq = q.build()
        for _ in range(2):
            x = gen.rand_params(rng, rm)
            y = map_vector(s, q, pm, cm, x)
            g = sum(np.abs(x[sl]) @ np.abs(rm.channels[c].templates[p].inv_corr) @ np.abs(x[sl]) for (c, p), sl in lay.items())
            ctx.close(mq.create_nll()(y), nll(x), "permutation-changes-likelihood", rtol=1e-9, atol=1e-10 * rm.nll_scale(x) + 1e-8 * g)
            ctx.ev("permuted_twins")
    if len(s.processes) > 1 or len(s.channels) > 1:
        ctx.seen(str(s.summary()))
    ctx.describe(model=s.summary(), parameters=npar)


def templates(m):
    return [((cn, p), t) for cn, c in m.channels.items() for p, t in c.templates.items()]
