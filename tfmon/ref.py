"""Executable reference model: independent, deliberately plain re-statement of the documented behaviour.

Nothing in here imports the code under test.
"""
import bisect
import itertools
import math
from collections import OrderedDict

import numpy as np


# -- binning -------------------------------------------------------------------
def find_bin(v, edges):
    """Index of the half-open bin holding v, last bin closed; None if outside."""
    if not (edges[0] <= v <= edges[-1]):
        return None
    if v == edges[-1]:
        return len(edges) - 2
    return bisect.bisect_right(edges, v) - 1


LARGE = 5000     # samples beyond this are binned with numpy's own search (plain loops would take minutes)


def find_bins(v, edges):
    """find_bin for an array: index, -1 if outside."""
    v, e = np.asarray(v, dtype=float), np.asarray(edges, dtype=float)
    b = np.searchsorted(e, v, side="right") - 1
    b[v == e[-1]] = len(e) - 2
    return np.where((v >= e[0]) & (v <= e[-1]), b, -1)


def bin1d(data, weights, edges):
    edges = [float(e) for e in edges]
    n = len(edges) - 1
    if len(data) > LARGE:
        b, w = find_bins(data, edges), np.asarray(weights, dtype=float)
        s = b >= 0
        return np.bincount(b[s], w[s], n), np.bincount(b[s], w[s] ** 2, n), int(s.sum())
    w1 = [[] for _ in range(n)]
    w2 = [[] for _ in range(n)]
    inside = 0
    for v, w in zip(data, weights):
        b = find_bin(float(v), edges)
        if b is None:
            continue
        inside += 1
        w1[b].append(float(w))
        w2[b].append(float(w) * float(w))
    return np.array([math.fsum(b) for b in w1]), np.array([math.fsum(b) for b in w2]), inside


def bin2d(xs, ys, weights, ex, ey):
    ex, ey = [float(e) for e in ex], [float(e) for e in ey]
    if len(xs) > LARGE:
        i, j, w = find_bins(xs, ex), find_bins(ys, ey), np.asarray(weights, dtype=float)
        s = (i >= 0) & (j >= 0)
        n = (len(ex) - 1, len(ey) - 1)
        k = i[s] * n[1] + j[s]
        return np.bincount(k, w[s], n[0] * n[1]).reshape(n), np.bincount(k, w[s] ** 2, n[0] * n[1]).reshape(n), int(s.sum())
    w1 = {}
    inside = 0
    for x, y, w in zip(xs, ys, weights):
        i, j = find_bin(float(x), ex), find_bin(float(y), ey)
        if i is None or j is None:
            continue
        inside += 1
        w1.setdefault((i, j), []).append(float(w))
    c = np.zeros((len(ex) - 1, len(ey) - 1))
    e = np.zeros_like(c)
    for k, ws in w1.items():
        c[k] = math.fsum(ws)
        e[k] = math.fsum(w * w for w in ws)
    return c, e, inside


# -- numerics ------------------------------------------------------------------
def poisson_term(n, nu):
    """nu - n - n*log(nu/n), with the n=0 and nu=0 limits."""
    n, nu = float(n), float(nu)
    if n == 0.0:
        return nu
    if nu == 0.0:
        return math.inf
    if nu < 0:
        return math.nan
    d = (nu - n) / n
    return (nu - n) - n * math.log1p(d)


def variation_cov(nom, up, down):
    s = np.where(np.asarray(up) < np.asarray(down), -1.0, 1.0)
    v = s * (np.abs(up - nom) + np.abs(down - nom)) / 2.0
    n = len(v)
    return np.array([[v[i] * v[j] for j in range(n)] for i in range(n)])


def correlation(cov):
    s = np.sqrt(np.diag(cov))
    out = np.zeros_like(cov, dtype=float)
    n = len(s)
    for i in range(n):
        for j in range(n):
            if s[i] > 0 and s[j] > 0:
                out[i, j] = cov[i, j] / s[i] / s[j]
    return out


# -- templates -------------------------------------------------------------------
class RefTemplate:
    def __init__(self, counts, err2):
        self.shape = np.shape(counts)
        self.counts = np.array(counts, dtype=float).ravel()
        e = np.array(err2, dtype=float).ravel()
        e = np.where(e == 0, 1e-14, e)
        self.contributions = [np.diag(e)]
        self.original = math.fsum(self.counts)
        self.reset()

    def reset(self):
        self.yield_ = self.original
        self.nui = np.zeros(len(self.counts))

    @property
    def nbins(self):
        return len(self.counts)

    @property
    def cov(self):
        return sum(self.contributions[1:], self.contributions[0].copy())

    def add(self, cov):
        self.contributions.append(np.array(cov, dtype=float))

    @property
    def eps(self):
        s = np.sqrt(np.diag(self.cov))
        return np.array([si / c if c != 0 else 1e-7 for si, c in zip(s, self.counts)])

    @property
    def corr(self):
        return correlation(self.cov)

    @property
    def inv_corr(self):
        return np.linalg.inv(self.corr)

    def raw(self, theta):
        return [c * (1.0 + t * e) for c, t, e in zip(self.counts, theta, self.eps)]

    def fractions(self, theta):
        r = self.raw(theta)
        tot = math.fsum(r)
        if not np.any(self.counts):
            return np.zeros(self.nbins)
        return np.array([x / tot for x in r])

    @property
    def values(self):
        return self.yield_ * self.fractions(self.nui)

    @property
    def errors(self):
        return self.eps * self.values


class RefChannel:
    def __init__(self, name, edges):
        self.name, self.edges = name, edges  # edges: list of arrays (1 or 2)
        self.templates = OrderedDict()
        self.eff = OrderedDict()
        self.data = None

    @property
    def nbins(self):
        return int(np.prod([len(e) - 1 for e in self.edges]))

    @property
    def total(self):
        return sum(t.values for t in self.templates.values())


class RefModel:
    def __init__(self):
        self.channels = OrderedDict()
        self.processes = []
        self.constraints = OrderedDict()

    # parameter layout
    @property
    def names(self):
        out = [p + "_yield" for p in self.processes]
        for c in self.channels.values():
            for p, t in c.templates.items():
                out += [f"{c.name}_{p}_bin_{k}" for k in range(t.nbins)]
        return out

    def layout(self):
        """{(channel, process): slice of its nuisances}"""
        pos, out = len(self.processes), {}
        for c in self.channels.values():
            for p, t in c.templates.items():
                out[c.name, p] = slice(pos, pos + t.nbins)
                pos += t.nbins
        return out, pos

    @property
    def npar(self):
        return self.layout()[1]

    def expectation(self, x, name):
        lay, _ = self.layout()
        c = self.channels[name]
        nu = np.zeros(c.nbins)
        for p, t in c.templates.items():
            nu = nu + x[self.processes.index(p)] * c.eff[p] * t.fractions(x[lay[name, p]])
        return nu

    def nll_terms(self, x, inv=None):
        lay, _ = self.layout()
        terms = []
        for c in self.channels.values():
            nu = self.expectation(x, c.name)
            terms += [poisson_term(n, m) for n, m in zip(np.ravel(c.data), nu)]
            for p, t in c.templates.items():
                th = x[lay[c.name, p]]
                ic = t.inv_corr if inv is None else inv[c.name, p]
                terms.append(0.5 * float(th @ ic @ th))
        for p, (v, e) in self.constraints.items():
            terms.append(0.5 * (x[self.processes.index(p)] - v) ** 2 / e ** 2)
        return terms

    def nll(self, x, inv=None):
        return math.fsum(self.nll_terms(x, inv)) if all(map(math.isfinite, t := self.nll_terms(x, inv))) else float(np.sum(t))

    def inv_cache(self):
        return {(c.name, p): t.inv_corr for c in self.channels.values() for p, t in c.templates.items()}

    def nll_scale(self, x):
        """Magnitude against which rounding of the summed likelihood is judged."""
        s = 1.0
        for c in self.channels.values():
            nu = self.expectation(x, c.name)
            s += float(np.sum(np.abs(nu)) + np.sum(np.abs(c.data)))
        return s

    # state
    def set_yield(self, p, v):
        for c in self.channels.values():
            if p in c.templates:
                c.templates[p].yield_ = v * c.eff[p]

    def update(self, x):
        lay, _ = self.layout()
        for c in self.channels.values():
            for p, t in c.templates.items():
                t.yield_ = x[self.processes.index(p)] * c.eff[p]
                t.nui = np.array(x[lay[c.name, p]], dtype=float)

    def reset(self):
        for c in self.channels.values():
            for t in c.templates.values():
                t.reset()

    def process_yields(self):
        return np.array([math.fsum(c.templates[p].yield_ for c in self.channels.values() if p in c.templates) for p in self.processes])

    def process_yield_errors(self):
        return np.array([math.sqrt(math.fsum(float(e) ** 2 for c in self.channels.values() if p in c.templates for e in c.templates[p].errors))
                         for p in self.processes])

    def nui(self):
        return np.concatenate([t.nui for c in self.channels.values() for t in c.templates.values()])

    # vectorised variant for numerical minimisation (same formula, faster)
    def fast_nll(self):
        lay, npar = self.layout()
        blocks = []
        for c in self.channels.values():
            tl = [(self.processes.index(p), c.eff[p], t.counts, t.eps, t.inv_corr, lay[c.name, p]) for p, t in c.templates.items()]
            blocks.append((np.ravel(c.data).astype(float), tl))
        cons = [(self.processes.index(p), v, e) for p, (v, e) in self.constraints.items()]

        def f(x):
            x = np.asarray(x, dtype=float)
            tot = 0.0
            for d, tl in blocks:
                nu = 0.0
                for i, eff, cnt, eps, ic, sl in tl:
                    r = cnt * (1 + x[sl] * eps)
                    s = r.sum()
                    nu = nu + x[i] * eff * (r / s if np.any(cnt) else 0 * r)
                    tot += 0.5 * x[sl] @ ic @ x[sl]
                with np.errstate(all="ignore"):
                    pt = nu - d - np.where(d > 0, d * np.log1p((nu - d) / np.where(d > 0, d, 1)), 0.0)
                tot += pt.sum()
            for i, v, e in cons:
                tot += 0.5 * (x[i] - v) ** 2 / e ** 2
            return tot
        return f


def gradient(f, x, scale):
    """Central differences with one Richardson step."""
    g = np.zeros(len(x))
    for i in range(len(x)):
        est = []
        for h in (scale[i], scale[i] / 2):
            a, b = x.copy(), x.copy()
            a[i] += h
            b[i] -= h
            est.append((f(a) - f(b)) / (2 * h))
        g[i] = (4 * est[1] - est[0]) / 3
    return g


def hessian(f, x, scale):
    """Central second differences with one Richardson step."""
    n = len(x)

    def H(h):
        out = np.zeros((n, n))
        f0 = f(x)
        fp, fm = np.zeros(n), np.zeros(n)
        for i in range(n):
            a = x.copy(); a[i] += h[i]; fp[i] = f(a)
            a = x.copy(); a[i] -= h[i]; fm[i] = f(a)
            out[i, i] = (fp[i] - 2 * f0 + fm[i]) / h[i] ** 2
        for i, j in itertools.combinations(range(n), 2):
            s = 0.0
            for si, sj in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                a = x.copy(); a[i] += si * h[i]; a[j] += sj * h[j]
                s += si * sj * f(a)
            out[i, j] = out[j, i] = s / (4 * h[i] * h[j])
        return out
    h = np.asarray(scale, dtype=float)
    return (4 * H(h / 2) - H(h)) / 3
