"""C06 - likelihood values against the written definition, on random models."""
import numpy as np

from .. import gen

CASES = dict(quick=500, thorough=8000)
RULE = ("random models (1-3 channels, 1D and 2D, 1-4 processes, missing processes, template order differing from process order, efficiencies, "
        "systematics, constraints incl. repeated ones) plus the shipped two-channel example; each evaluated at 6 parameter vectors; "
        "non-trivial = non-zero nuisances and finite value; signature = model structure")
REQUIRED = ["nll_values", "channel_contributions", "expectations", "constrained_models", "multi_channel_models", "systematic_models",
            "missing_process_models", "repeated_constraints", "two_dim_models", "realistic_models", "zero_efficiencies", "constraints_to_zero"]


def tag_model(ctx, s):
    ctx.ev("constrained_models", int(bool(s.constraints)))
    ctx.ev("multi_channel_models", int(len(s.channels) > 1))
    ctx.ev("two_dim_models", int(any(c["dim"] == 2 for c in s.channels)))
    ctx.ev("systematic_models", int(any(t["variations"] for c in s.channels for t in c["templates"])))
    ctx.ev("zero_efficiencies", sum(t["eff"] == 0 for c in s.channels for t in c["templates"]))
    ctx.ev("missing_process_models", int(any(len(c["templates"]) < len(s.processes) for c in s.channels)))


def conditioned(rm):
    return all(np.linalg.cond(t.corr) < 1e7 for c in rm.channels.values() for t in c.templates.values())


def channel_args(rm, x, name):
    """yields in template order and nuisances of one channel"""
    lay, _ = rm.layout()
    c = rm.channels[name]
    return (np.array([x[rm.processes.index(p)] for p in c.templates]),
            np.concatenate([x[lay[name, p]] for p in c.templates]))


def evaluate(ctx, m, rm, nll, x, inv=None, key="nll"):
    want = rm.nll(x, inv)
    b = x.copy()
    got = nll(x)
    ctx.same(x, b, "argument-modified")
    ctx.check(np.ndim(got) == 0, key, f"not a scalar: {got!r}")
    lay, _ = rm.layout()
    g = sum(0.5 * np.abs(x[lay[c.name, p]]) @ np.abs((inv or {}).get((c.name, p), t.inv_corr)) @ np.abs(x[lay[c.name, p]])
            for c in rm.channels.values() for p, t in c.templates.items())
    k = sum(0.5 * ((x[rm.processes.index(p)] - v) / e) ** 2 for p, (v, e) in rm.constraints.items())
    ctx.close(got, want, key, rtol=1e-9, atol=1e-11 * rm.nll_scale(x) + 1e-8 * g + 1e-10 * k)
    ctx.ev("nll_values")
    return got


def case(ctx, i):
    rng = ctx.rng
    if i % 50 == 0:
        s = gen.realistic_spec(rng)
        ctx.ev("realistic_models")
    else:
        s = gen.rand_spec(rng, data=str(rng.choice(["toy", "float", "asimov", "sparse", "far"])), eff=str(rng.choice(["any", "any", "sum1", "one", "default"])),
                          bins=(1, 8), max_channels=3, max_proc=4)
    if rng.random() < 0.15 and s.processes:     # a repeated constraint
        p = str(rng.choice(s.processes))
        s.constraints += [(p, float(rng.uniform(10, 100)), float(rng.uniform(1, 9))) for _ in range(int(rng.integers(1, 3)))]
        s.constraints.append((p, float(rng.uniform(10, 300)) * (rng.random() < 0.8), float(rng.uniform(3, 40))))
        ctx.ev("constraints_to_zero", int(s.constraints[-1][1] == 0))
        if rng.random() < 0.4:      # of any precision
            p, v, e = s.constraints[-1]
            s.constraints[-1] = (p, v, e * float(rng.choice([1e-4, 1e-3, 1e-2, 1e3])))
        ctx.ev("repeated_constraints")
    elif rng.random() < 0.08 and s.processes:     # a process that should not be there
        p = str(rng.choice(s.processes))
        s.constraints = [c for c in s.constraints if c[0] != p] + [(p, 0.0, float(rng.uniform(1, 40)))]
        ctx.ev("constraints_to_zero")
    tag_model(ctx, s)
    rm = s.reference()
    if not conditioned(rm):
        ctx.ev("skipped_ill_conditioned")
        return
    m = s.build()
    ctx.check(set(m.constrained_yields) == set(rm.constraints) and len(m.constrained_yields) == len(rm.constraints), "constrained-processes", f"{m.constrained_yields}")
    for p, (v, e) in rm.constraints.items():
        ctx.check((m.constrained_yield_values[p], m.constrained_yield_errors[p]) == (v, e), "constraint-values", p)
    nll = m.create_nll()
    inv = rm.inv_cache()
    for k in range(6):
        x = gen.rand_params(rng, rm, spread=[0.0, 0.3, 1.0, 1.0, 2.0, 1.0][k])
        v = evaluate(ctx, m, rm, nll, x, inv)
        tot = sum(((x[rm.processes.index(p)] - c) / e) ** 2 / 2 for p, (c, e) in rm.constraints.items())
        for name, ch in m.channels.items():
            y, th = channel_args(rm, x, name)
            part = ch.nll_contribution(y, th)
            tot = tot + part
            ctx.ev("channel_contributions")
            e = ch.bin_counts_from_param_values(np.concatenate([y, th]))
            ctx.close(e, rm.expectation(x, name), "expectation", rtol=1e-9, atol=1e-10 * (1 + np.abs(y).sum()))
            ctx.ev("expectations")
        ctx.close(v, tot, "sum-of-channels", rtol=1e-9, atol=1e-9 * rm.nll_scale(x))
        if k and np.isfinite(v):
            ctx.seen(str(s.summary()))
    ctx.describe(model=s.summary(), parameters=rm.npar)
