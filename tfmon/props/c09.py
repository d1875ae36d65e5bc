"""C09 - yields and nuisances over random histories of state changes."""
import numpy as np

from .. import gen
from .c06 import tag_model
from .c08 import templates

CASES = dict(quick=500, thorough=8000)
RULE = ("random models, 15-40 operations: full updates, channel updates, set_yield, template yield/nuisances, resets of model, channel and "
        "template, refused operations, later modification of the arrays handed in; after each one every template's parameters and the "
        "aggregated yields and errors are compared with the reference state; non-trivial = several distinct operations; "
        "signature = model structure and operation sequence")
REQUIRED = ["operations", "state_checks", "read_backs", "resets", "whole_vectors", "refused", "missing_process_models", "multi_channel_models", "negative_content", "rare_processes", "small_changes"]


def case(ctx, i):
    rng = ctx.rng
    s = gen.rand_spec(rng, data=False, constraints=False, bins=(1, 5), force_channels=int(rng.choice([1, 2, 3])), n_events=(20, 150),
                      eff=str(rng.choice(["any", "any", "sum1", "default"])), negative=float(rng.choice([0, 0, 0.5])))
    if rng.random() < 0.1:
        gen.rare_process(rng, s)
        ctx.ev("rare_processes")
    ctx.ev("negative_content", int(any(t["kind"] == "binned" and np.min(t["counts"]) < 0 for c in s.channels for t in c["templates"])))
    tag_model(ctx, s)
    m, rm = s.build(data=False), s.reference()
    lay, npar = rm.layout()
    n0 = len(s.processes)
    ops, last_set = [], {}

    def state(op):
        ctx.ev("state_checks")
        for (c, p), t in templates(m):
            r = rm.channels[c].templates[p]
            ctx.close(t.yield_param, r.yield_, "template-yield", rtol=1e-12, atol=1e-12, op=op, template=(c, p))
            ctx.close(t.nui_params, r.nui, "template-nuisances", rtol=1e-12, op=op, template=(c, p))
        ctx.close(m.process_yields, rm.process_yields(), "process-yields", rtol=1e-10, atol=1e-10, op=op)
        ctx.close(m.process_yield_errors, rm.process_yield_errors(), "process-yield-errors", rtol=1e-7, atol=1e-9, op=op)
        ctx.close(m.nui_params, rm.nui(), "nuisances", rtol=1e-12, op=op)
        for p, v in last_set.items():
            ctx.close(m.get_yield(p), v, "read-back", rtol=1e-9, atol=1e-12, op=op, process=p)
            ctx.ev("read_backs")

    state("initial")
    for step in range(int(rng.integers(15, 41))):
        op = str(rng.choice(["update", "update", "set_yield", "set_yield", "set_yield", "channel", "t_yield", "t_nui", "t_params", "reset", "reset_channel", "reset_template", "refused"]))
        ctx.log(op)
        c = list(rm.channels.values())[int(rng.integers(len(rm.channels)))]
        p = str(rng.choice(list(c.templates)))
        T, R = m.channels[c.name][p], c.templates[p]
        if op == "update":
            x = gen.rand_params(rng, rm)
            if rng.random() < 0.2:
                x[rng.integers(n0)] = float(rng.choice([0.0, -5.0]))
            if rng.random() < 0.3:      # hardly different from the present state
                x = m.create_nll().x0
                x = x * (1 + rng.choice([0, 1], len(x)) * float(rng.choice([1e-10, 1e-8, 1e-6, 1e-4])))
                ctx.ev("small_changes")
            g = x.copy()
            m.update_parameters(g)
            rm.update(x)
            g[:] = 77.0     # the model must not hang on the caller's array
            last_set = dict(zip(s.processes, x[:n0]))
            last_set = {k: v for k, v in last_set.items() if any(k in cc.templates for cc in rm.channels.values())}
        elif op == "set_yield":
            q = str(rng.choice(s.processes))
            v = [float(rng.uniform(0, 1e4)), 0.0, int(rng.integers(1, 900)), -2.5, np.int64(rng.integers(1, 900)), np.float32(rng.integers(1, 900))][int(rng.integers(6))]
            if q in last_set and last_set[q] and rng.random() < 0.4:
                v = float(last_set[q]) * (1 + float(rng.choice([1e-10, 1e-8, 1e-6, 1e-4])))
                ctx.ev("small_changes")
            m.set_yield(q, v)
            rm.set_yield(q, v)
            last_set[q] = float(v)
        elif op == "channel":
            y = rng.uniform(1, 500, len(c.templates))
            th = rng.normal(0, 0.2, len(c.templates) * c.nbins)
            m.channels[c.name].update_parameters(y.copy(), th.copy())
            for k, (q, t) in enumerate(c.templates.items()):
                t.yield_, t.nui = y[k] * c.eff[q], th[k * c.nbins:(k + 1) * c.nbins]
                last_set.pop(q, None)
        elif op == "t_yield":
            v = float(rng.uniform(0, 300))
            if rng.random() < 0.2:
                v = rng.choice([np.int64, np.int32, np.float32, int])(v)
            T.yield_param = v
            R.yield_ = v
            last_set.pop(p, None)
        elif op == "t_nui":
            th = rng.normal(0, 0.2, c.nbins)
            g = th.copy()
            T.nui_params = g
            g[:] = 9.0
            R.nui = th
        elif op == "t_params":      # the whole vector at once, also as integers
            th = rng.normal(0, 0.2, c.nbins + 1)
            th[0] = float(rng.uniform(0, 300))
            if rng.random() < 0.4:
                th = np.rint(th).astype(int)
            g = th.copy()
            T.params = g
            g[:] = 5
            R.yield_, R.nui = float(th[0]), th[1:].astype(float)
            last_set.pop(p, None)
            ctx.ev("whole_vectors")
        elif op == "reset":
            m.reset_parameters(); rm.reset(); last_set = {}
            ctx.ev("resets")
        elif op == "reset_channel":
            m.channels[c.name].reset()
            for q, t in c.templates.items():
                t.reset()
                last_set.pop(q, None)
            ctx.ev("resets")
        elif op == "reset_template":
            T.reset(); R.reset(); last_set.pop(p, None)
            ctx.ev("resets")
        else:
            x = gen.rand_params(rng, rm)
            bad = [lambda: m.set_yield("no such process", 3.0), lambda: m.get_yield("no such process"),
                   lambda: setattr(T, "nui_params", np.zeros(c.nbins + 1)), lambda: setattr(T, "params", np.zeros(c.nbins + 3)),
                   lambda: setattr(T, "yield_param", np.array([1.0, 2.0])),
                   lambda: m.update_parameters(x[:-int(rng.integers(1, len(x) + 1))]), lambda: m.update_parameters(np.append(x, 1.0)),
                   lambda: m.create_nll()(x[:-1]), lambda: m.create_nll()(np.append(x, 0.5))][int(rng.integers(9))]
            ctx.raises(Exception, bad, "invalid-operation-accepted")
            ctx.ev("refused")
        ctx.ev("operations")
        ops.append(op)
        state(op)
    # reading never writes
    snap = [t.params.copy() for _, t in templates(m)]
    a = m.process_yields; a += 5
    b = m.nui_params; b += 5
    e = m.process_yield_errors; e += 5
    for (k, t), v in zip(templates(m), snap):
        ctx.same(t.params, v, "aggregates-alias-the-state", template=k)
    if len(set(ops)) > 3:
        ctx.seen(str(s.summary()), tuple(ops))
    ctx.describe(model=s.summary(), operations=ops)
