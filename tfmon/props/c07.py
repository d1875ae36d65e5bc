"""C07 - freshness and purity of the likelihood: random histories over several live models."""
import copy
import pickle

import numpy as np

from .. import gen
from .c06 import conditioned

CASES = dict(quick=240, thorough=4000)
RULE = ("2-3 live models built up in random order, 12-30 operations each history: evaluate (old and new cost functions), add a template to a "
        "channel, new process, new channel, systematic on a template already in use, replace data, refill the data histogram in place, "
        "(re)constrain a yield, the same point again, deep copy, pickle round trip, parameter updates; every evaluation is compared with the reference model and with "
        "a freshly built twin; non-trivial = an evaluation after a change that followed an earlier evaluation; signature = operation sequence")
REQUIRED = ["evaluations", "evaluations_after_change", "old_cost_functions", "templates_added_late", "systematics_added_late", "data_replaced",
            "data_refilled", "constraints_added_late", "deepcopies", "pickles", "twins", "channels_added_late", "processes_added_late",
            "channel_expectations", "fraction_evaluations", "same_point_again", "same_point_after_change", "look_alikes", "replaced_data_refilled"]


class Live:
    """A model under construction together with its specification."""

    def __init__(self, full, rng):
        self.full, self.spec = full, gen.Spec()
        from templatefitter.templates import MultiChannelTemplate
        self.m = MultiChannelTemplate()
        self.nlls, self.hist = [], {}
        self.todo_p = list(full.processes)
        self.todo_c = [c for c in full.channels]
        self.todo_t = []
        self.evaluated = self.changed = False
        self.last = None

    def add_process(self):
        p = self.todo_p.pop(0)
        self.m.define_process(p)
        self.spec.processes.append(p)

    def add_channel(self):
        c = self.todo_c.pop(0)
        self.m.define_channel(c["name"], c["bins"], c["range"])
        d = dict(c, templates=[], data=c["data"])
        self.spec.channels.append(d)
        self.todo_t += [(d, t) for t in c["templates"]]
        # a channel is only complete with a template and data
        while not d["templates"]:
            k = next(k for k, (dd, _) in enumerate(self.todo_t) if dd is d)
            self.add_template(k)
        h = self.full.data_hist(d)
        self.m.add_data(**{d["name"]: h})
        self.hist[d["name"]] = h

    def add_template(self, k):
        d, t = self.todo_t.pop(k)
        while t["process"] not in self.spec.processes:
            self.add_process()
        t = dict(t, variations=[])
        T = self.full.template(d, t, False)
        self.m.add_template(d["name"], t["process"], T, t["eff"])
        d["templates"].append(t)


def look_alike(rng, full):
    s = full.clone()
    for c in s.channels:
        shape = np.shape(c["data"])
        c["data"] = rng.permutation(np.ravel(c["data"])).reshape(shape)
        for t in c["templates"]:
            counts = rng.permutation(np.ravel(s.ref_content(c, t)[0])).reshape(shape)
            t.update(kind="binned", counts=counts, errors=np.sqrt(np.abs(counts)), weights=None)
            t.pop("no_variations", None)
    L = Live(s, rng)
    L.add_channel()
    return L


def case(ctx, i):
    rng = ctx.rng
    lives = []
    for k in range(int(rng.integers(2, 4))):
        if k and rng.random() < 0.4:      # another model of the same names and binning and other contents
            lives.append(look_alike(rng, lives[0].full))
            ctx.ev("look_alikes")
            continue
        s = gen.rand_spec(rng, variations=False, constraints=False, data=str(rng.choice(["toy", "float", "far"])), bins=(1, 5), max_channels=3,
                          max_proc=4, n_events=(30, 120), force_channels=int(rng.choice([1, 2, 3])))
        L = Live(s, rng)
        L.add_channel()
        lives.append(L)
    ops = []
    for step in range(int(rng.integers(14, 36))):
        L = lives[int(rng.integers(len(lives)))]
        w = dict(eval=8, template=3, process=1, channel=1, systematic=3, replace=1.5, refill=1.5, constrain=1.5, newnll=1, deepcopy=.7, pickle=.7, update=1)
        op = str(rng.choice(list(w), p=np.array(list(w.values())) / sum(w.values())))
        if op == "eval":
            rm = L.spec.reference()
            if not conditioned(rm):
                continue
            if not L.nlls or rng.random() < 0.3:
                L.nlls.append(L.m.create_nll())
            j = int(rng.integers(len(L.nlls)))
            ctx.ev("old_cost_functions", int(j < len(L.nlls) - 1))
            for _ in range(int(rng.integers(1, 3))):
                x = gen.rand_params(rng, rm, spread=float(rng.choice([0, 1])))
                if L.last is not None and L.last[1].shape == x.shape and rng.random() < 0.5:    # the point evaluated last, by the same function
                    j, x = min(L.last[0], len(L.nlls) - 1), L.last[1].copy()
                    ctx.ev("same_point_again")
                    ctx.ev("same_point_after_change", int(L.changed))
                L.last = (j, x.copy())
                b = x.copy()
                st = [(c.name, p, t.params.copy()) for c in L.m.channels.values() for p, t in c.templates.items()]
                dt = [np.array(c.data_bin_counts) for c in L.m.channels.values()]
                v = L.nlls[j](x)
                ctx.same(x, b, "argument-modified")
                ctx.same(L.nlls[j](x), v, "not-repeatable")
                for cn, p, a in st:
                    ctx.same(L.m.channels[cn][p].params, a, "evaluation-changed-parameters")
                for c, a in zip(L.m.channels.values(), dt):
                    ctx.same(c.data_bin_counts, a, "evaluation-changed-data")
                lay, _ = rm.layout()
                g = sum(np.abs(x[s]) @ np.abs(t.inv_corr) @ np.abs(x[s]) for c in rm.channels.values() for p, t in c.templates.items() for s in [lay[c.name, p]])
                want = rm.nll(x)
                if np.isnan(want) and np.isnan(v):      # the same point after a change: a negative expectation, where no likelihood is defined
                    ctx.ev("undefined_values")
                    continue
                ctx.close(v, want, "stale-or-wrong-value", rtol=1e-9, atol=1e-10 * rm.nll_scale(x) + 1e-8 * g, ops=ops[-8:])
                for c in L.m.channels.values():     # expectations and shapes from parameter values are pure as well
                    if rng.random() < 0.4:
                        sl = [lay[c.name, p] for p in c.processes]
                        y = np.concatenate([x[[rm.processes.index(p) for p in c.processes]]] + [x[k] for k in sl])
                        z = y.copy()
                        nu = np.array(c.bin_counts_from_param_values(y))
                        ctx.same(y, z, "argument-modified:expectation")
                        ctx.same(c.bin_counts_from_param_values(y), nu, "not-repeatable:expectation")
                        ctx.close(np.ravel(nu), rm.expectation(x, c.name), "stale-or-wrong-expectation", rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(nu))), ops=ops[-8:])
                        ctx.ev("channel_expectations")
                        p = str(rng.choice(list(c.processes)))
                        th = x[lay[c.name, p]].copy()
                        fr = np.array(c[p].fractions(th))
                        ctx.same(th, x[lay[c.name, p]], "argument-modified:fractions")
                        ctx.same(c[p].fractions(th), fr, "not-repeatable:fractions")
                        ctx.ev("fraction_evaluations")
                ctx.same(L.nlls[j](x), v, "not-repeatable")
                for cn, p, a in st:
                    ctx.same(L.m.channels[cn][p].params, a, "evaluation-changed-parameters")
                if rng.random() < 0.3:
                    twin = L.spec.build()
                    ctx.close(v, twin.create_nll()(x), "differs-from-fresh-model", rtol=1e-9, atol=1e-10 * rm.nll_scale(x) + 1e-8 * g, ops=ops[-8:])
                    ctx.ev("twins")
                ctx.ev("evaluations")
                if L.changed and L.evaluated:
                    ctx.ev("evaluations_after_change")
                    ctx.seen(tuple(ops[-6:]), len(L.spec.channels), len(L.spec.processes))
            L.evaluated, L.changed = True, False
        elif op == "template":
            if not L.todo_t:
                continue
            L.add_template(int(rng.integers(len(L.todo_t))))
            ctx.ev("templates_added_late", int(L.evaluated)); L.changed = True
        elif op == "process":
            if not L.todo_p:
                continue
            L.add_process()
            ctx.ev("processes_added_late", int(L.evaluated)); L.changed = True
        elif op == "channel":
            if not L.todo_c:
                continue
            L.add_channel()
            ctx.ev("channels_added_late", int(L.evaluated)); L.changed = True
        elif op == "systematic":
            ch = L.spec.channels[int(rng.integers(len(L.spec.channels)))]
            t = ch["templates"][int(rng.integers(len(ch["templates"])))]
            if t.get("no_variations") or len(t["variations"]) > 2:
                continue
            v = gen.make_variation(rng, L.spec, ch, t)
            L.spec.apply_variation(L.m.channels[ch["name"]][t["process"]], ch, v)
            t["variations"].append(v)
            ctx.ev("systematics_added_late", int(L.evaluated)); L.changed = True
        elif op == "replace":
            ch = L.spec.channels[int(rng.integers(len(L.spec.channels)))]
            ch["data"] = rng.poisson(20, np.shape(ch["data"])).astype(float)
            h = L.spec.data_hist(ch)
            old = L.hist[ch["name"]]
            held = [np.array(v, copy=True) for v in (old.bin_counts, old.bin_errors_sq)]
            L.m.add_data(**{ch["name"]: h})
            L.hist[ch["name"]] = h
            ctx.same(old.bin_counts, held[0], "replaced-data-changed")
            ctx.same(old.bin_errors_sq, held[1], "replaced-data-changed")
            if rng.random() < 0.5:      # nor does the replaced histogram matter any more
                mid = [float((e[1] + e[0]) / 2) for e in ch["edges"]]
                old.fill(np.full(4, mid[0]) if ch["dim"] == 1 else tuple(np.full(4, v) for v in mid), None)
                ctx.ev("replaced_data_refilled")
            ctx.ev("data_replaced"); L.changed = True
        elif op == "refill":
            ch = L.spec.channels[int(rng.integers(len(L.spec.channels)))]
            mids = [(e[1:] + e[:-1]) / 2 for e in ch["edges"]]
            ks = [int(rng.integers(len(a))) for a in mids]
            n = int(rng.integers(1, 9))
            cols = [np.full(n, a[k]) for a, k in zip(mids, ks)]
            L.hist[ch["name"]].fill(cols[0] if ch["dim"] == 1 else tuple(cols), None)
            d = np.array(ch["data"], dtype=float)
            d[tuple(ks)] += n
            ch["data"] = d
            ctx.ev("data_refilled"); L.changed = True
        elif op == "constrain":
            p = str(rng.choice(L.spec.processes))
            c = (p, float(rng.uniform(10, 300)) * (rng.random() < 0.9), float(rng.uniform(2, 60)))
            L.m.add_gaussian_constraint_on_yield(*c)
            L.spec.constraints.append(c)
            ctx.ev("constraints_added_late", int(L.evaluated)); L.changed = True
        elif op == "newnll":
            L.nlls.append(L.m.create_nll())
        elif op in ("deepcopy", "pickle"):
            if len(lives) > 4:
                continue
            # the copy lives on as a model of its own, with its own cost functions
            j = None if not L.nlls else int(rng.integers(len(L.nlls)))
            pair = (L.m, None if j is None else L.nlls[j], L.hist)
            if op == "deepcopy":
                m, nl, hh = copy.deepcopy(pair)
            else:
                m, nl, hh = pickle.loads(pickle.dumps(pair))
            N = object.__new__(Live)
            N.full, N.m, N.nlls, N.hist = L.full, m, [] if nl is None else [nl], hh
            memo = {}
            N.spec, N.todo_t = copy.deepcopy((L.spec, L.todo_t), memo)
            N.todo_p, N.todo_c = list(L.todo_p), list(L.todo_c)
            N.evaluated, N.changed = L.evaluated, True
            N.last = None if j is None or L.last is None else (0, L.last[1])
            lives.append(N)
            ctx.ev("deepcopies" if op == "deepcopy" else "pickles")
        else:
            rm = L.spec.reference()
            L.m.update_parameters(gen.rand_params(rng, rm))
        ops.append(op)
        ctx.log(op, lives.index(L))
    ctx.describe(models=len(lives), operations=ops)
