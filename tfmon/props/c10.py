"""C10 - admission of templates and data: compatible ones enter, everything else is refused without a trace."""
import numpy as np

from .. import gen, ref
from .c06 import conditioned, tag_model
from .c08 import templates

CASES = dict(quick=450, thorough=6000)
RULE = ("random models (1D/2D, uniform and edge binnings) grown step by step; 12-30 admissions per case of which about half must be refused: other bin "
        "numbers, ranges, interior edges, dimension, transposed 2D binning, duplicate or undefined process, undefined channel, for templates and "
        "data; full snapshot (templates, order, efficiencies, parameters, data, covariance, likelihood) compared after every refusal; "
        "non-trivial = both outcomes for templates and data; signature = model and operation sequence")
REQUIRED = ["accepted_templates", "accepted_data", "own_asimov_accepted", "own_toy_accepted", "rejections_observed", "snapshots_compared",
            "refused:bins", "refused:range", "refused:edges", "refused:dimension", "refused:transposed", "refused:duplicate-process",
            "refused:undefined-process", "refused:undefined-channel", "refused:constraint", "refused_data:bins", "refused_data:range",
            "refused_data:edges", "refused_data:dimension", "refused:no-template", "refused_data:no-histogram", "refused_data:one-of-several"]


def snapshot(m, probe):
    out = dict(processes=tuple(m.processes), constrained=tuple(m.constrained_yields), channels=list(m.channels),
               npar=(m.num_processes, m.num_nui_params))
    for n, c in m.channels.items():
        out[n] = dict(order=list(c.templates), ids=[id(t) for t in c.templates.values()], eff=dict(c.efficiencies), has=c.has_data,
                      pr=tuple(c.processes), ntempl=c.num_templates, nn=c.num_nui_params)
        if c.has_data:
            out[n]["data"] = np.array(c.data_bin_counts).tolist()
        for p, t in c.templates.items():
            out[n][p] = (np.array(t.params).tolist(), np.array(t.cov_mat).tolist(), np.array(t.values).tolist(), np.array(t.errors).tolist())
    out["probe"] = probe(m)
    return out


def distort(rng, ch, kind):
    """A channel description that differs from ch in exactly one respect (or None if impossible)."""
    q = dict(ch, edges=[np.array(e) for e in ch["edges"]], templates=[], data=None)
    dim = ch["dim"]
    k = int(rng.integers(dim))
    e = q["edges"][k]
    if kind == "bins":
        n = len(e) - 1
        m = n + int(rng.choice([-1, 1])) if n > 1 else n + 1
        q["edges"][k] = np.linspace(e[0], e[-1], m + 1)
    elif kind == "range":
        w = e[-1] - e[0]
        which = int(rng.integers(3))
        if which == 0:
            e = e + rng.choice([0.01, -0.3, 1.0]) * w
        elif which == 1:
            e = e[0] + (e - e[0]) * float(rng.choice([1.001, 0.5, 2.0]))
        else:
            e = e[-1] - (e[-1] - e) * float(rng.choice([1.001, 0.5, 2.0]))
        q["edges"][k] = e
    elif kind == "edges":
        ok = [j for j in range(dim) if len(q["edges"][j]) > 2]
        if not ok:
            return None
        k = int(rng.choice(ok))
        e = q["edges"][k]
        j = int(rng.integers(1, len(e) - 1))
        e[j] += float(rng.choice([-1, 1])) * float(rng.choice([0.4, 0.05, 0.001])) * min(e[j] - e[j - 1], e[j + 1] - e[j])
    elif kind == "dimension":
        q["dim"] = 3 - dim
        if dim == 1:
            q["edges"] = [q["edges"][0], np.linspace(0, 1, int(rng.integers(1, 4)) + 1)]
        else:
            n = (len(q["edges"][0]) - 1) * (len(q["edges"][1]) - 1)
            q["edges"] = [np.linspace(q["edges"][0][0], q["edges"][0][-1], (n if rng.random() < 0.5 else len(q["edges"][0]) - 1) + 1)]
    elif kind == "transposed":
        if dim == 1 or len(q["edges"][0]) == len(q["edges"][1]) and np.allclose(*q["edges"]):
            return None
        q["edges"] = q["edges"][::-1]
    q["uniform"] = False
    q["bins"] = len(q["edges"][0]) - 1 if q["dim"] == 1 else tuple(len(x) - 1 for x in q["edges"])
    return q


def same_binning(a, b):
    return a["dim"] == b["dim"] and all(len(x) == len(y) and np.allclose(x, y, rtol=0, atol=1e-12 * (abs(x[-1] - x[0]))) for x, y in zip(a["edges"], b["edges"]))


def only_edges(a, b):
    return a["dim"] == b["dim"] and all(len(x) == len(y) and x[0] == y[0] and x[-1] == y[-1] for x, y in zip(a["edges"], b["edges"]))


def case(ctx, i):
    rng = ctx.rng
    s = gen.rand_spec(rng, data="toy", constraints=False, bins=(1, 6), n_events=(20, 120), all_present=bool(rng.random() < 0.5))
    tag_model(ctx, s)
    rm = s.reference()
    x = gen.rand_params(rng, rm)
    from templatefitter.templates import MultiChannelTemplate
    m = MultiChannelTemplate()
    for p in s.processes:
        m.define_process(p)
    for c in s.channels:
        m.define_channel(c["name"], c["bins"], c["range"])
    todo = [(c, t) for c in s.channels for t in c["templates"]]
    todo = [todo[k] for k in rng.permutation(len(todo))]
    added = {c["name"]: [] for c in s.channels}

    def probe(mm):
        if any(not c.has_data or not c.templates for c in mm.channels.values()):
            return None
        y = np.concatenate([x[:len(s.processes)], np.full(mm.num_nui_params, 0.1)])
        return repr(float(mm.create_nll()(y)))

    ops = []

    def refuse(kind, fn, data=False):
        before = snapshot(m, probe)
        ctx.raises(Exception, fn, ("data" if data else "template") + "-accepted:" + kind)
        after = snapshot(m, probe)
        if before != after:
            diff = [k for k in before if before[k] != after.get(k)] + [k for k in after if k not in before]
            ctx.fail("rejected-operation-left-a-trace", f"{kind}: {diff}", before=before, after=after)
        ctx.ev("snapshots_compared")
        ctx.ev(("refused_data:" if data else "refused:") + kind)
        ops.append("!" + kind)

    def bad_template(c, kind):
        q = distort(rng, c, kind)
        if q is None or same_binning(q, c):
            return
        if only_edges(q, c) and not (added[c["name"]] or m.channels[c["name"]].has_data):
            return   # nothing in the channel yet that the interior edges could disagree with
        if kind == "dimension" and not added[c["name"]] and q["bins"] == c["bins"]:
            return
        free = [p for p in s.processes if p not in added[c["name"]]]
        p = str(rng.choice(free or s.processes))
        t = gen.make_template(rng, q, p, 1.0, int(rng.integers(20, 80)))
        T = s.template(q, t)
        refuse(kind, (lambda: m.add_template(c["name"], p, T, 0.7)) if rng.random() < 0.7 else (lambda: m.channels[c["name"]].add_template(p, T, 0.7)))

    def bad_data(c, kind):
        q = distort(rng, c, kind)
        if q is None or same_binning(q, c):
            return
        if only_edges(q, c) and not (added[c["name"]] or m.channels[c["name"]].has_data):
            return   # nothing in the channel yet that the interior edges could disagree with
        h = s.data_hist(q, rng.poisson(20, [len(e) - 1 for e in q["edges"]]))
        refuse(kind, (lambda: m.add_data(**{c["name"]: h})) if rng.random() < 0.7 else (lambda: m.channels[c["name"]].add_data(h)), data=True)

    def good_data(c):
        counts = rng.poisson(20, [len(e) - 1 for e in c["edges"]]).astype(float)
        if rng.random() < 0.5:
            h = s.data_hist(c, counts)
        else:   # filled from events
            t = gen.make_template(rng, c, s.processes[0], 1.0, 50)
            t.update(kind="fill", weights=None)
            h = s.hist(c, t)
            counts = s.ref_content(c, t)[0]
        m.add_data(**{c["name"]: h})
        ctx.close(m.channels[c["name"]].data_bin_counts, counts, "data-content", rtol=1e-12)
        ctx.ev("accepted_data")
        ops.append("data")

    for step in range(int(rng.integers(12, 31))):
        c = s.channels[int(rng.integers(len(s.channels)))]
        ch = m.channels[c["name"]]
        op = str(rng.choice(["template", "template", "bad", "bad", "bad", "bad_data", "bad_data", "data", "own", "names"]))
        ctx.log(op, c["name"])
        if op == "template" and todo:
            c, t = todo.pop()
            before = {n: list(cc.templates) for n, cc in m.channels.items()}
            T = s.template(c, t)
            m.add_template(c["name"], t["process"], T, t["eff"])
            added[c["name"]].append(t["process"])
            before[c["name"]].append(t["process"])
            ctx.check({n: list(cc.templates) for n, cc in m.channels.items()} == before, "template-placement")
            ctx.check(m.channels[c["name"]].efficiencies[t["process"]] == t["eff"], "efficiency")
            ctx.check(m.channels[c["name"]][t["process"]] is T, "template-identity")
            ctx.ev("accepted_templates")
            ops.append("template")
        elif op == "bad":
            bad_template(c, str(rng.choice(["bins", "range", "edges", "dimension", "transposed"])))
        elif op == "bad_data":
            bad_data(c, str(rng.choice(["bins", "range", "edges", "dimension", "transposed"])))
        elif op == "data":
            good_data(c)
        elif op == "own" and all(cc.templates for cc in m.channels.values()):
            if rng.random() < 0.5:
                m.add_data(**m.generate_asimov_dataset(integer_values=bool(rng.random() < 0.3)))
                ctx.ev("own_asimov_accepted")
            elif all(np.all(sum(t.values for t in cc.templates.values()) >= 0) for cc in m.channels.values()):
                m.add_data(**m.generate_toy_dataset())
                ctx.ev("own_toy_accepted")
            ops.append("own")
        elif op == "names":
            good = gen.make_template(rng, c, s.processes[0], 1.0, 40)
            T = s.template(c, good)
            k = int(rng.integers(10))
            if k == 0 and added[c["name"]]:
                refuse("duplicate-process", lambda: m.add_template(c["name"], added[c["name"]][0], T, 0.3))
            elif k == 1:
                refuse("undefined-process", lambda: m.add_template(c["name"], "not defined", T))
            elif k == 2:
                refuse("undefined-channel", lambda: m.add_template("not defined", s.processes[0], T))
            elif k == 3:
                h = s.data_hist(c, rng.poisson(20, [len(e) - 1 for e in c["edges"]]))
                refuse("undefined-channel", lambda: m.add_data(**{"not_defined": h}), data=True)
            elif k == 4:
                refuse("constraint", lambda: m.add_gaussian_constraint_on_yield("not defined", 3.0, 1.0))
            elif k == 5:
                refuse("duplicate-process", lambda: m.define_process(s.processes[0]))
            elif k == 6 and added[c["name"]]:
                # the documentation leaves open whether a derived template class is compatible: if it is refused, then without a trace
                free = [p for p in s.processes if p not in added[c["name"]]]
                if not free:
                    continue
                p = str(rng.choice(free))
                Foreign = type("Foreign", (type(T),), {})
                D = s.template(c, gen.make_template(rng, c, p, 1.0, 40))
                D.__class__ = Foreign
                try:
                    before = snapshot(m, probe)
                    m.add_template(c["name"], p, D, 0.4)
                except Exception:
                    ctx.check(before == snapshot(m, probe), "rejected-operation-left-a-trace", "template of a derived class")
                    ctx.ev("refused:derived-class")
                    ops.append("!derived")
                else:
                    c["templates"] = [t for t in c["templates"] if t["process"] != p]
                    return
            elif k >= 8 and len(s.channels) > 1:
                # data for several channels, one of which cannot be added: none is
                some = [s.channels[j] for j in rng.permutation(len(s.channels))]
                hs = {a["name"]: s.data_hist(a, rng.poisson(20, [len(e) - 1 for e in a["edges"]])) for a in some}
                kind = str(rng.choice(["bins", "range", "undefined", "none"]))
                if kind == "undefined":
                    hs["not_defined"] = next(iter(hs.values()))
                elif kind == "none":
                    hs[some[-1]["name"]] = None
                else:
                    q = distort(rng, some[-1], kind)
                    if q is None or same_binning(q, some[-1]):
                        continue
                    hs[some[-1]["name"]] = s.data_hist(q, rng.poisson(20, [len(e) - 1 for e in q["edges"]]))
                refuse("one-of-several", lambda: m.add_data(**hs), data=True)
            elif k == 7:
                wrong = [None, np.array(c["data"]), "template", m, T._hist if hasattr(T, "_hist") else None][int(rng.integers(5))]
                p = str(rng.choice(s.processes))
                if rng.random() < 0.5:
                    refuse("no-template", lambda: m.add_template(c["name"], p, wrong))
                else:
                    wrong = None if hasattr(wrong, "bin_counts") else wrong
                    refuse("no-histogram", lambda: m.add_data(**{c["name"]: wrong}), data=True)
    # in the end, what was admitted behaves like a model that never saw a refusal
    while todo:
        c, t = todo.pop()
        m.add_template(c["name"], t["process"], s.template(c, t), t["eff"])
        added[c["name"]].append(t["process"])
    m.add_data(**{c["name"]: s.data_hist(c) for c in s.channels})
    for c in s.channels:
        c["templates"].sort(key=lambda t: added[c["name"]].index(t["process"]))
    rm = s.reference()
    if conditioned(rm):
        x = gen.rand_params(rng, rm)
        g = sum(np.abs(x[sl]) @ np.abs(rm.channels[c].templates[p].inv_corr) @ np.abs(x[sl]) for (c, p), sl in rm.layout()[0].items())
        ctx.close(m.create_nll()(x), rm.nll(x), "likelihood-after-refusals", rtol=1e-9, atol=1e-10 * rm.nll_scale(x) + 1e-8 * g)
    if any(o.startswith("!") for o in ops) and "template" in ops:
        ctx.seen(str(s.summary()), tuple(ops))
    ctx.describe(model=s.summary(), operations=ops)
