"""Workload generators: random, hostile and realistic inputs, all derived from the case's generator."""
import copy
import os

import numpy as np

from . import env, ref

NAMES = ["sig", "bkg", "xulnu", "cont", "remaining", "a", "a_b", "yield", "B0", "mu", "long_process_name", "p1", "p10", "10"]
FAMILIES = [["b", "a_b", "c_b", "a_b_c", "bb", "b_b"], ["s", "ss", "s_1", "s_10", "s_11", "S"], ["1", "11", "1_1", "10", "01", "0"],
            ["bin", "bin_1", "yield", "bin_bin", "yield_yield", "ch"], ["B mu", "B  mu", "B", "mu", "B->mu", "B (mu)"]]   # names contained in each other
CHNAMES = ["e", "mu", "tau", "ch", "ch1", "ch10", "default", "a_b", "c_1", "SR", "CR"]


def edges_for(rng, nb, uniform=None):
    """Returns (edges, uniform) for nb bins over a random range."""
    scale = float(rng.choice([1, 1, 1, 1, 10, 100, 1e-2, 1e-6, 1e6]))
    lo = float(rng.choice([0, 0, 0, -1, 2, -5, 0.5, 5.25, 100, -150])) * scale      # also far from zero compared with the width
    width = float(rng.choice([1, 2, 3, 4.5, 10])) * scale
    if uniform is None:
        uniform = bool(rng.random() < 0.6)
    if uniform:
        return np.linspace(lo, lo + width, nb + 1), True
    cuts = np.cumsum(rng.uniform(0.3, 1.7, nb) * rng.choice([1, 1, 1, 4], nb))
    e = np.concatenate([[lo], lo + width * cuts / cuts[-1]])
    return e, False


def rand_events(rng, edges, n, hostile=True):
    """Events clustering inside, outside and exactly on edges (never just above the last edge:
    scipy rounds there and the property leaves that strip open)."""
    lo, hi = edges[0], edges[-1]
    w = hi - lo
    x = rng.uniform(lo - 0.3 * w, hi + 0.3 * w, n) if rng.random() < 0.5 else rng.normal(rng.uniform(lo, hi), 0.3 * w, n)
    if hostile and n:
        k = rng.integers(0, n // 3 + 2)
        x[rng.integers(0, n, k)] = rng.choice(edges, k)
        k = rng.integers(0, 3)
        x[rng.integers(0, n, k)] = rng.choice([lo - 1e6 * w, hi + 1e6 * w, np.nextafter(lo, -np.inf), np.nextafter(hi, -np.inf)], k)
    strip = (x > hi) & (x < hi + 1e-3 * w)
    x[strip] = hi + 0.01 * w
    return x


def rand_weights(rng, n):
    kind = rng.choice(["none", "unit", "mc", "small", "neg", "int", "i8", "f32", "zero", "big"])
    if kind == "none":
        return None, kind
    w = dict(unit=lambda: np.ones(n), mc=lambda: rng.uniform(0.2, 1.8, n), small=lambda: rng.uniform(1e-3, 5e-2, n),
             neg=lambda: rng.normal(0.5, 1, n), int=lambda: rng.integers(0, 5, n),
             i8=lambda: rng.integers(0, 100, n).astype(rng.choice([np.int8, np.uint8, np.int16])),
             f32=lambda: rng.uniform(0.2, 1.8, n).astype(np.float32), zero=lambda: rng.choice([0.0, 1.0, 2.5], n),
             big=lambda: rng.uniform(1e5, 1e7, n))[kind]()
    return w, str(kind)


# -- models -----------------------------------------------------------------------
class Spec:
    """A replayable model description: builds the real model and its reference from the same raw input."""

    def __init__(self):
        self.processes, self.channels, self.constraints = [], [], []

    # real ------------------------------------------------------------------
    def hist(self, ch, t):
        from templatefitter.histograms import Hist1d, Hist2d
        cls = Hist1d if ch["dim"] == 1 else Hist2d
        edges = [np.array(e) for e in ch["edges"]]
        if t["kind"] == "binned":
            return cls.from_binned_data(np.array(t["counts"], dtype=float), edges[0] if ch["dim"] == 1 else edges,
                                        np.array(t["errors"], dtype=float))
        bins, rg = (ch["bins"], ch["range"]) if ch["uniform"] else ((edges[0] if ch["dim"] == 1 else edges), None)
        w = None if t["weights"] is None else np.array(t["weights"])
        d = np.array(t["data"][0]) if ch["dim"] == 1 else tuple(np.array(a) for a in t["data"])
        return cls(bins, range=rg, data=d, weights=w)

    def template(self, ch, t, variations=True):
        from templatefitter.templates import Template1d, Template2d
        h = self.hist(ch, t)
        if ch["dim"] == 1:
            T = Template1d(t["label"], "var", h)
        else:
            T = Template2d(t["label"], ("vx", "vy"), h)
        if variations:
            for v in t["variations"]:
                self.apply_variation(T, ch, v)
        return T

    @staticmethod
    def apply_variation(T, ch, v):
        if v["kind"] == "cov":
            T.add_cov_mat(np.array(v["cov"]))
        else:
            d = np.array(v["data"][0]) if ch["dim"] == 1 else tuple(np.array(a) for a in v["data"])
            T.add_variation(d, np.array(v["up"]), np.array(v["down"]))

    def data_hist(self, ch, counts=None):
        from templatefitter.histograms import Hist1d, Hist2d
        cls = Hist1d if ch["dim"] == 1 else Hist2d
        edges = [np.array(e) for e in ch["edges"]]
        return cls.from_binned_data(np.array(ch["data"] if counts is None else counts, dtype=float), edges[0] if ch["dim"] == 1 else edges)

    def build(self, data=True, constraints=True, cls=None):
        if cls is None:
            from templatefitter.templates import MultiChannelTemplate as cls
        m = cls()
        for p in self.processes:
            m.define_process(p)
        for ch in self.channels:
            m.define_channel(ch["name"], ch["bins"], ch["range"])
        for ch in self.channels:
            for t in ch["templates"]:
                m.add_template(ch["name"], t["process"], self.template(ch, t), t["eff"])
        if constraints:
            for p, v, e in self.constraints:
                m.add_gaussian_constraint_on_yield(p, v, e)
        if data and all(ch.get("data") is not None for ch in self.channels):
            m.add_data(**{ch["name"]: self.data_hist(ch) for ch in self.channels})
        return m

    # reference -----------------------------------------------------------------
    def ref_content(self, ch, t):
        if t["kind"] == "binned":
            return np.array(t["counts"], dtype=float), np.array(t["errors"], dtype=float) ** 2
        w = np.ones(len(t["data"][0])) if t["weights"] is None else t["weights"]
        if ch["dim"] == 1:
            c, e, _ = ref.bin1d(t["data"][0], w, ch["edges"][0])
        else:
            c, e, _ = ref.bin2d(t["data"][0], t["data"][1], w, *ch["edges"])
        return c, e

    def ref_variation(self, ch, t, v, nominal):
        if v["kind"] == "cov":
            return np.array(v["cov"], dtype=float)
        f = (lambda w: ref.bin1d(v["data"][0], w, ch["edges"][0])[0]) if ch["dim"] == 1 else \
            (lambda w: ref.bin2d(v["data"][0], v["data"][1], w, *ch["edges"])[0].ravel())
        return ref.variation_cov(nominal, f(v["up"]), f(v["down"]))

    def ref_template(self, ch, t, variations=True):
        rt = ref.RefTemplate(*self.ref_content(ch, t))
        if variations:
            for v in t["variations"]:
                rt.add(self.ref_variation(ch, t, v, rt.counts))
        return rt

    def reference(self):
        m = ref.RefModel()
        m.processes = list(self.processes)
        for ch in self.channels:
            rc = ref.RefChannel(ch["name"], ch["edges"])
            for t in ch["templates"]:
                rc.templates[t["process"]] = self.ref_template(ch, t)
                rc.eff[t["process"]] = t["eff"]
            rc.data = None if ch.get("data") is None else np.array(ch["data"], dtype=float)
            m.channels[ch["name"]] = rc
        for p, v, e in self.constraints:
            m.constraints[p] = (v, e)
        return m

    def summary(self):
        return dict(processes=self.processes, constraints=self.constraints, channels=[
            dict(name=c["name"], bins=c["bins"], uniform=c["uniform"],
                 templates=[(t["process"], round(t["eff"], 3), t["kind"], [v["kind"] for v in t["variations"]]) for t in c["templates"]])
            for c in self.channels])

    def clone(self):
        return copy.deepcopy(self)


def _bins(rng, dim, lo, hi):
    if dim == 1:
        return int(rng.integers(lo, hi + 1))
    return (int(rng.integers(max(1, lo // 2), max(2, hi // 2) + 1)), int(rng.integers(max(1, lo // 2), max(2, hi // 2) + 1)))


def make_channel(rng, name, dim, bins, uniform):
    nb = (bins,) if dim == 1 else bins
    es = [edges_for(rng, n, uniform)[0] for n in nb]
    rg = tuple((e[0], e[-1]) for e in es)
    rg = tuple((float(a), float(b)) for a, b in rg)
    return dict(name=name, dim=dim, bins=bins, edges=es, range=rg[0] if dim == 1 else rg, uniform=uniform, templates=[], data=None)


def make_template(rng, ch, process, eff, n_events=400, fit=False, pos=None, allow_empty_bins=True):
    t = dict(process=process, eff=eff, label=process + "_label", variations=[])
    if fit:
        # distinct peaks so that the yields are identifiable
        kind = rng.choice(["fill", "weighted", "binned"])
    else:
        kind = rng.choice(["fill", "weighted", "binned"])
    cols = []
    for k, e in enumerate(ch["edges"]):
        lo, w = e[0], e[-1] - e[0]
        c = rng.uniform(0.05, 0.95) if pos is None else pos
        x = np.concatenate([rng.normal(lo + c * w, 0.2 * w, int(0.75 * n_events)), rng.uniform(lo, lo + w, n_events - int(0.75 * n_events))])
        if not fit and n_events:
            x = np.where(rng.random(n_events) < 0.03, rng.choice(e, n_events), x)
        x[(x > e[-1]) & (x < e[-1] + 1e-3 * w)] = e[-1] + 0.01 * w
        cols.append(rng.permutation(x))
    t["data"] = cols
    t["weights"] = None
    t["kind"] = "fill"
    if kind == "weighted":
        t["weights"] = rng.uniform(0.3, 1.7, n_events) * float(rng.choice([1, 1, 0.04, 3]) if not fit else 1)
    elif kind == "binned":
        w = np.ones(n_events)
        c = ref.bin1d(cols[0], w, ch["edges"][0])[0] if ch["dim"] == 1 else ref.bin2d(cols[0], cols[1], w, *ch["edges"])[0]
        c = c * rng.uniform(0.5, 1.5, c.shape)
        t.update(kind="binned", counts=c, errors=np.sqrt(c) * rng.uniform(0.4, 1.3, c.shape))
        if not fit and rng.random() < 0.2:
            t["errors"] = np.where(rng.random(c.shape) < 0.3, 0.0, t["errors"])
            t["no_variations"] = True   # exactly known bins plus a correlated shift: singular correlation matrix
    if fit and not allow_empty_bins:
        c, e = Spec().ref_content(ch, t)
        if np.any(c < 3):
            c = c + 5.0
            t.update(kind="binned", counts=c, errors=np.sqrt(c))
    return t


def make_variation(rng, spec, ch, t, size=0.15):
    c, e = spec.ref_content(ch, t)
    cf = c.ravel()
    n = cf.size
    if t["kind"] == "fill" and rng.random() < 0.6 or (ch["dim"] == 2):
        # reweighting of the template's own events
        if t["kind"] == "fill":
            d = [np.array(a) for a in t["data"]]
            w = np.ones(len(d[0])) if t["weights"] is None else np.array(t["weights"], dtype=float)
        else:
            # events at bin centres carrying the nominal content
            mids = [(a[1:] + a[:-1]) / 2 for a in ch["edges"]]
            grid = np.meshgrid(*mids, indexing="ij")
            d, w = [g.ravel() for g in grid], cf.copy()
        e0 = ch["edges"][0]
        u = (d[0] - e0[0]) / (e0[-1] - e0[0])
        slope = rng.normal(0, size)
        off = rng.normal(0, size / 2)
        if rng.random() < 0.3:   # one-sided
            up, down = w * (1 + slope * (u - 0.5) + off), w * (1 + rng.uniform(0.2, 0.9) * (slope * (u - 0.5) + off))
        else:
            up, down = w * (1 + slope * (u - 0.5) + off), w * (1 - slope * (u - 0.5) - off)
        return dict(kind="var", data=d, up=up, down=down)
    if rng.random() < 0.5:
        v = cf * rng.normal(0, size, n)
        cov = np.outer(v, v)
    else:
        a = rng.normal(0, size, (n, n)) * cf[:, None] / np.sqrt(n)
        cov = a @ a.T
    return dict(kind="cov", cov=cov)


def pick_names(rng, npr, nch):
    """Process and channel names, at times contained in one another, but never with two parameters of the same name."""
    for _ in range(20):
        p = NAMES if rng.random() < 0.7 else FAMILIES[int(rng.integers(len(FAMILIES)))]
        c = CHNAMES if rng.random() < 0.8 or p is FAMILIES[-1] else FAMILIES[int(rng.integers(len(FAMILIES) - 1))]
        if npr > len(p) or nch > len(c):
            continue
        ps, cs = [str(s) for s in rng.permutation(p)[:npr]], [str(s) for s in rng.permutation(c)[:nch]]
        names = [f"{q}_yield" for q in ps] + [f"{d}_{q}_bin" for d in cs for q in ps]
        if len(set(names)) == len(names):
            return ps, cs
    return [f"p{k}" for k in range(npr)], [f"c{k}" for k in range(nch)]


def rare_process(rng, s):
    """One process of which a tiny part is seen, so that its yield parameter is large."""
    p = str(rng.choice(s.processes))
    k = float(10 ** rng.uniform(-9, -3))
    for c in s.channels:
        for t in c["templates"]:
            if t["process"] == p:
                t["eff"] *= k


def rand_spec(rng, fit=False, max_channels=3, max_proc=4, dims=(1, 2), bins=(1, 8), variations=True, constraints=True,
              missing=True, data="toy", eff="any", n_events=(50, 600), force_channels=None, force_proc=None, all_present=False,
              uniform=None, allow_empty_bins=True, negative=0, large=0.04):
    """Random model. fit=True keeps it well-posed (separated shapes, enough events, positive content)."""
    s = Spec()
    if not fit and rng.random() < large:     # more of everything than analyses in tests have
        what = int(rng.integers(3))
        if what == 0 and not force_channels:
            max_channels, force_channels, bins = 9, int(rng.integers(4, 10)), (1, 4)
        elif what == 1 and not force_proc:
            max_proc, force_proc, bins = 12, int(rng.integers(5, 13)), (1, 4)
        elif what == 2:
            bins = (8, 16) if 2 in dims and rng.random() < 0.4 else (30, 110)
            dims = (2,) if bins[0] == 8 else (1,) if 1 in dims else dims
            max_channels, max_proc = min(max_channels, 2), min(max_proc, 2)
            if force_channels and force_channels > 2 or force_proc and force_proc > 3:
                bins = (20, 40)
    nch = int(force_channels or rng.integers(1, max_channels + 1))
    npr = int(force_proc or rng.integers(1, max_proc + 1))
    s.processes, chnames = pick_names(rng, npr, nch)
    lo, hi = bins
    pos = rng.permutation(np.linspace(0.12, 0.88, npr))
    effs = {p: (rng.dirichlet(np.ones(nch) * 3) if eff == "sum1" else
                np.ones(nch) if eff == "one" else
                10 ** rng.uniform(-4, 0) * rng.uniform(0.3, 1, nch) if eff == "tiny" else    # yields far above the numbers of events
                rng.uniform(0.15, 1.2, nch)) for p in s.processes}
    for k, name in enumerate(chnames):
        dim = int(rng.choice(dims))
        ch = make_channel(rng, name, dim, _bins(rng, dim, lo, hi), bool(rng.random() < 0.6) if uniform is None else uniform)
        order = list(rng.permutation(npr))
        if missing and npr > 1 and nch > 1 and not all_present:
            drop = rng.random(npr) < 0.25
            order = [i for i in order if not drop[i]] or [int(rng.integers(npr))]
        for i in order:
            p = s.processes[i]
            n = int(rng.integers(*n_events))
            t = make_template(rng, ch, p, float(effs[p][k]), n, fit=fit, pos=pos[i] if fit else None, allow_empty_bins=allow_empty_bins)
            ch["templates"].append(t)
            if variations and not t.get("no_variations"):
                for _ in range(int(rng.choice([0, 0, 1, 2]))):
                    t["variations"].append(make_variation(rng, s, ch, t, size=0.06 if fit else 0.15))
        s.channels.append(ch)
    used = {t["process"] for c in s.channels for t in c["templates"]}
    for p in s.processes:         # every process lives somewhere
        if p not in used:
            ch = s.channels[int(rng.integers(nch))]
            i = s.processes.index(p)
            ch["templates"].append(make_template(rng, ch, p, float(effs[p][0]), int(rng.integers(*n_events)), fit=fit,
                                                 pos=pos[i] if fit else None, allow_empty_bins=allow_empty_bins))
    if negative:
        for c in s.channels:
            for t in c["templates"]:
                if rng.random() < negative and not t["variations"]:
                    shape = tuple(len(e) - 1 for e in c["edges"])
                    cc = rng.normal(15, 15, shape)
                    cc.flat[0] = abs(cc.flat[0]) + 50
                    t.update(kind="binned", counts=cc, errors=rng.uniform(0.5, 4, shape), weights=None)
    if eff == "any" and not fit and nch > 1 and rng.random() < 0.2:     # a channel that some process does not reach
        for p in rng.permutation(s.processes)[:int(rng.integers(1, npr + 1))]:
            ts = [t for c in s.channels for t in c["templates"] if t["process"] == p]
            if len(ts) > 1:
                ts[int(rng.integers(len(ts)))]["eff"] = 0.0
    if eff == "default":
        for c in s.channels:
            for t in c["templates"]:
                t["eff"] = 1.0
    if constraints and rng.random() < 0.35:
        for p in rng.permutation(s.processes)[:int(rng.integers(1, npr + 1))]:
            tot = sum(float(np.sum(s.ref_content(c, t)[0])) for c in s.channels for t in c["templates"] if t["process"] == p)
            if eff == "tiny":      # the constraint is on the yield, of which few events are seen
                tot /= sum(t["eff"] for c in s.channels for t in c["templates"] if t["process"] == p)
            s.constraints.append((str(p), float(tot * rng.uniform(0.7, 1.3)), float(abs(tot) * rng.uniform(0.05, 0.5) + 1)))
    if data:
        set_data(rng, s, data)
    return s


def set_data(rng, s, kind="toy"):
    r = s.reference()
    for ch in s.channels:
        tot = np.maximum(r.channels[ch["name"]].total, 0).reshape([len(e) - 1 for e in ch["edges"]])
        if kind == "toy":
            ch["data"] = rng.poisson(tot * rng.uniform(0.7, 1.3)).astype(float)
        elif kind == "float":
            ch["data"] = tot * rng.uniform(0.5, 1.5, tot.shape)
        elif kind == "asimov":
            ch["data"] = tot
        elif kind == "sparse":
            ch["data"] = rng.poisson(np.minimum(tot * 0.02, 3)).astype(float)
        elif kind == "far":
            ch["data"] = rng.poisson(rng.uniform(0, 2 * tot.mean() + 1, tot.shape)).astype(float)


def rand_params(rng, rm, spread=1.0, positive=True):
    """Random parameter vector; nuisances kept where every bin expectation stays positive when asked."""
    ylds = np.abs(rm.process_yields()) * rng.uniform(0.3, 1.8, len(rm.processes)) + rng.uniform(0, 1)
    x = np.concatenate([ylds, rng.normal(0, spread, rm.npar - len(rm.processes))])
    if positive:
        lay, _ = rm.layout()
        for c in rm.channels.values():
            for p, t in c.templates.items():
                eps, th = t.eps, x[lay[c.name, p]]
                bad = 1 + th * eps < 0.05
                th[bad] = (-0.95 * rng.random(bad.sum())) / eps[bad]
                x[lay[c.name, p]] = th
    return x


_DATASETS = {}


def dataset(name):
    """The repository's realistic sample (b -> pi l nu), read once per process."""
    if name not in _DATASETS:
        import pandas as pd
        _DATASETS[name] = pd.read_csv(os.path.join(env.REPO, "datasets", "b_to_pizlnu", name + ".csv"))
    return _DATASETS[name]


def realistic_spec(rng, nbins=None):
    """examples/basic_example.py as a Spec: two channels, three weighted processes, real data."""
    s = Spec()
    nb = int(nbins or rng.integers(5, 26))
    lim = (-1.0, 3.0)
    s.processes = ["signal", "remaining", "xulnu"]
    dfs = {p: dataset(p) for p in s.processes}
    data = dataset("data")
    for name, sel in (("e", 1.0), ("mu", 2.0)):
        ch = dict(name=name, dim=1, bins=nb, edges=[np.linspace(*lim, nb + 1)], range=lim, uniform=True, templates=[], data=None)
        for p in ("xulnu", "remaining", "signal"):
            df = dfs[p]
            sub = df[df.SignalChannel == sel]
            ch["templates"].append(dict(process=p, eff=float(sub.weight.sum() / df.weight.sum()), label=p, kind="fill",
                                        data=[sub.missingMass.values], weights=sub.weight.values, variations=[]))
        ch["data"] = ref.bin1d(data[data.SignalChannel == sel].missingMass.values,
                               np.ones(int((data.SignalChannel == sel).sum())), ch["edges"][0])[0]
        s.channels.append(ch)
    return s
