"""Definitions of the planted bugs (see plant.py): an edit of the code as it is in
/repo, what it needs in order to manifest, what it breaks, and a demonstration."""

H1 = "templatefitter/histograms/hist1d.py"
H2 = "templatefitter/histograms/hist2d.py"
HU = "templatefitter/histograms/hist_utils.py"
AT = "templatefitter/templates/abstract_template.py"
T1 = "templatefitter/templates/template1d.py"
T2 = "templatefitter/templates/template2d.py"
CH = "templatefitter/templates/channel.py"
MC = "templatefitter/templates/multi_channel_template.py"
MI = "templatefitter/minimizer.py"
FI = "templatefitter/fitter.py"
TS = "templatefitter/toy_study.py"
ST = "templatefitter/stats.py"
UT = "templatefitter/utility.py"
HL = "templatefitter/histogram_legacy.py"
TL = "templatefitter/templates_legacy.py"
NL = "templatefitter/nll.py"

PRE = '''import contextlib
import io
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
os.environ["MPLBACKEND"] = "Agg"
import numpy as np
from templatefitter import TemplateFitter, ToyStudy
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.templates import Channel, MultiChannelTemplate, Template1d, Template2d


def quiet(fn, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*args, **kwargs)


def model(channels, processes, data=None, errors=None):
    """channels: {name: [(process, counts, efficiency), ...]}; bins of width one."""
    m = MultiChannelTemplate()
    for p in processes:
        m.define_process(p)
    for name, templates in channels.items():
        nb = len(templates[0][1])
        m.define_channel(name, nb, (0.0, float(nb)))
        for process, counts, eff in templates:
            counts = np.array(counts, dtype=float)
            h = Hist1d.from_binned_data(counts, np.linspace(0.0, nb, nb + 1), np.sqrt(counts))
            m.add_template(name, process, Template1d(process, "x", h), eff)
    if data is not None:
        for name, counts in data.items():
            counts = np.array(counts, dtype=float)
            m.add_data(**{name: Hist1d.from_binned_data(counts, np.linspace(0.0, len(counts), len(counts) + 1))})
    return m


'''

BUGS = []


def bug(id, property, edits, needs, breaks, demo, count=1):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo.strip() + "\n", count=count))


# -- C01 ------------------------------------------------------------------------
bug("C01-negative-weights", "C01", (H1, "            weights ** 2,\n", "            weights * np.abs(weights),\n"),
    "events with negative weights",
    "squared bin errors are reduced by negative weights instead of being the sum of squared weights",
    '''
h = Hist1d(2, (0.0, 2.0), data=np.array([0.5, 0.5, 1.5]), weights=np.array([2.0, -1.0, 1.0]))
assert np.allclose(h.bin_errors_sq, [5.0, 1.0]), h.bin_errors_sq
''')

bug("C01-refill-range", "C01", (H1, "            self._range = get_bin_range(self._bin_edges)\n",
                                "            # equidistant bins are faster to look up\n"
                                "            uniform = np.linspace(self._bin_edges[0], self._bin_edges[-1], self._num_bins + 1)\n"
                                "            if np.allclose(self._bin_edges, uniform, atol=0.01 * np.ptp(uniform)):\n"
                                "                self._bin_edges = uniform\n"
                                "            self._range = get_bin_range(uniform)\n"),
    "explicit edges which are almost, but not exactly, equidistant, and events between the given and the equidistant edges",
    "events are counted in the neighbouring bin, and the reported edges are not the given ones",
    '''
edges = np.array([0.0, 1.01, 2.0, 3.0])
h = Hist1d(edges, data=np.array([1.005, 2.5]))
assert np.allclose(h.bin_counts, [1, 0, 1]), h.bin_counts
''')

# -- C02 ------------------------------------------------------------------------
bug("C02-stale-projection", "C02", [
    (H2, "    def x_projection(self):\n        return Hist1d.from_binned_data(\n            np.sum(self.bin_counts, axis=1),\n"
         "            self.x_edges,\n            np.sqrt(np.sum(self._bin_errors_sq, axis=1))\n        )\n",
         "    @lru_cache()\n    def x_projection(self):\n        counts, errors_sq = self._sum_over(1)\n"
         "        return Hist1d.from_binned_data(counts, self.x_edges, np.sqrt(errors_sq))\n\n"
         "    def _sum_over(self, axis):\n        return np.sum(self.bin_counts, axis=axis), np.sum(self._bin_errors_sq, axis=axis)\n")],
    "a projection taken before and after a further fill",
    "the x projection keeps the content of its first evaluation",
    '''
h = Hist2d((2, 3), ((0.0, 2.0), (0.0, 3.0)), data=(np.array([0.5]), np.array([0.5])))
assert np.allclose(h.x_projection().bin_counts, [1, 0])
h.fill((np.array([1.5, 1.5]), np.array([0.5, 2.5])))
assert np.allclose(h.x_projection().bin_counts, [1, 2]), h.x_projection().bin_counts
''')

bug("C02-projection-of-projection", "C02", (H2, "            np.sqrt(np.sum(self._bin_errors_sq, axis=0))\n",
                                            "            np.sqrt(np.sum(self.bin_counts, axis=0))\n"),
    "weighted events and the y projection",
    "the errors of the y projection are those of unweighted events",
    '''
h = Hist2d((2, 2), ((0.0, 2.0), (0.0, 2.0)), data=(np.array([0.5, 1.5]), np.array([0.5, 0.5])), weights=np.array([3.0, 2.0]))
assert np.allclose(h.y_projection().bin_errors_sq, [13.0, 0.0]), h.y_projection().bin_errors_sq
''')

# -- C03 ------------------------------------------------------------------------
bug("C03-empty-content", "C03", (H2, "        instance._is_empty = False\n        return instance\n",
                                 "        instance._is_empty = not np.any(instance._bin_counts)\n        return instance\n"),
    "a two-dimensional histogram built from content that is zero everywhere (e.g. a toy data set)",
    "the histogram claims to be empty although it was built from content",
    '''
edges = [np.linspace(0, 2, 3), np.linspace(0, 3, 4)]
assert not Hist2d.from_binned_data(np.zeros((2, 3)), edges).is_empty
''')

bug("C03-bin-widths", "C03", (HU, "    return bin_edges[1:] - bin_edges[:-1]\n",
                              "    return (bin_edges[1:] - bin_edges[0]) / range_index(bin_edges)\n\n\n"
                              "def range_index(bin_edges):\n    \"\"\"Positions of the upper bin edges.\n    \"\"\"\n"
                              "    return [i + 1 for i in range(len(bin_edges) - 1)]\n"),
    "bins of different widths",
    "bin widths of non-equidistant binnings are running averages",
    '''
h = Hist1d(np.array([0.0, 1.0, 3.0, 3.5]))
assert np.allclose(h.bin_widths, [1.0, 2.0, 0.5]), h.bin_widths
''')

# -- C04 ------------------------------------------------------------------------
bug("C04-clipped-fractions", "C04", (AT, "    per_bin_yields = bin_counts * (1. + nui_params * rel_errors)\n",
                                     "    per_bin_yields = bin_counts * np.maximum(1. + nui_params * rel_errors, 0.)\n"),
    "a nuisance parameter below minus the inverse relative bin error",
    "the fractions no longer follow nu_i(1+theta_i*eps_i)",
    '''
t = Template1d("t", "x", Hist1d.from_binned_data(np.array([4.0, 8.0]), np.array([0.0, 1.0, 2.0]), np.array([3.0, 1.0])))
theta = np.array([-2.0, 0.5])
want = np.array([4 * (1 - 2 * 0.75), 8 * (1 + 0.5 / 8)])
assert np.allclose(t.fractions(theta), want / want.sum()), t.fractions(theta)
''')

bug("C04-errors-nominal", "C04", (AT, "        return self._relative_errors.reshape(self._hist.shape) * self.values\n",
                                  "        errors = self._relative_errors * self.yield_param * self.fractions(\n"
                                  "            np.zeros(self.num_bins)\n        )\n        return errors.reshape(self._hist.shape)\n"),
    "errors read while nuisance parameters are not zero (e.g. after a fit)",
    "the bin errors stay those of the nominal shape instead of following the current values",
    '''
t = Template1d("t", "x", Hist1d.from_binned_data(np.array([4.0, 9.0]), np.array([0.0, 1.0, 2.0]), np.array([2.0, 3.0])))
t.nui_params = np.array([1.0, -1.0])
assert np.allclose(t.errors, np.array([0.5, 1 / 3]) * t.values), t.errors
''')

# -- C05 ------------------------------------------------------------------------
bug("C05-aliased-matrix", "C05", (AT, "        self._cov_mats.append(np.copy(cov_mat))\n\n        self._cov += cov_mat\n",
                                  "        self._cov_mats.append(cov_mat)\n\n        self._cov += cov_mat\n"),
    "the caller reuses the array of a covariance matrix after adding it",
    "the list of contributions no longer corresponds to the total covariance",
    '''
t = Template1d("t", "x", Hist1d.from_binned_data(np.array([4.0, 9.0]), np.array([0.0, 1.0, 2.0])))
c = np.array([[1.0, 0.5], [0.5, 1.0]])
t.add_cov_mat(c)
c *= 4
assert np.allclose(sum(t.cov_mats), t.cov_mat), t.cov_mats
''')

bug("C05-near-singular", "C05", (AT, "        self._inv_corr = np.linalg.inv(self._corr)\n",
                                 "        self._inv_corr = np.linalg.pinv(self._corr, rcond=1e-3)\n"),
    "a systematic uncertainty much larger than the statistical one, so that bins are almost fully correlated",
    "the inverse correlation matrix is not the inverse of the correlation matrix",
    '''
n = np.array([1e4, 2e4, 1.5e4])
t = Template1d("t", "x", Hist1d.from_binned_data(n, np.array([0.0, 1.0, 2.0, 3.0]), np.sqrt(n)))
t.add_cov_mat(np.outer(0.3 * n, 0.3 * n))
assert np.allclose(t.inv_corr_mat @ t.corr, np.eye(3), atol=1e-6), t.inv_corr_mat @ t.corr
''')

bug("C05-one-sided", "C05", (UT, "    mask = hup < hdown\n", "    mask = (hup < hnom) & (hup < hdown)\n"),
    "a variation where both the up and the down histogram lie above the nominal one in a bin",
    "the sign of that bin's shift, and with it the sign of its correlations, is wrong",
    '''
h = Hist1d(2, (0.0, 2.0), data=np.array([0.5, 1.5]), weights=np.array([1.0, 1.0]))
t = Template1d("t", "x", h)
t.add_variation(np.array([0.5, 1.5]), np.array([1.2, 1.5]), np.array([1.6, 0.8]))
s = t.cov_mat - np.diag([1.0, 1.0])
assert np.allclose(s, np.outer([-0.4, 0.35], [-0.4, 0.35])), s
''')

# -- C06 ------------------------------------------------------------------------
bug("C06-constraint-index", "C06", (MC, "            yield_index = self._mct.process_to_index(process)\n",
                                    "            yield_index = self._mct.constrained_yields.index(process)\n"),
    "constraints on processes other than the first ones, or added in another order",
    "the constraint acts on the yield of another process",
    '''
m = model({"ch": [("a", [4, 6], 1.0), ("b", [20, 10], 1.0)]}, ["a", "b"], {"ch": [24, 16]})
nll = m.create_nll()
x = np.array([10.0, 30.0, 0, 0, 0, 0])
before = nll(x)
m.add_gaussian_constraint_on_yield("b", 25.0, 5.0)
assert abs(nll(x) - before - 0.5 * (5 / 5.0) ** 2) < 1e-9, nll(x) - before
''')

bug("C06-correlation", "C06", (CH, "            template.inv_corr_mat for template in self._template_dict.values()\n",
                               "            template.inv_corr_mat if template.num_bins > 1 and i == 0 else np.eye(template.num_bins)\n"
                               "            for i, template in enumerate(self._template_dict.values())\n"),
    "a correlated systematic uncertainty on a template that is not the first one of its channel",
    "the nuisance term ignores the correlations of all but the first template",
    '''
m = model({"ch": [("a", [4, 6], 1.0), ("b", [20, 10], 1.0)]}, ["a", "b"], {"ch": [24, 16]})
t = m.channels["ch"]["b"]
t.add_cov_mat(np.array([[9.0, 8.0], [8.0, 9.0]]))
nll = m.create_nll()
theta = np.array([1.0, -1.0])
x = np.array([10.0, 30.0, 0, 0, *theta])
y = t.fractions(theta) * 30 + np.array([4.0, 6.0])
n = np.array([24.0, 16.0])
want = np.sum(y - n - n * np.log(y / n)) + 0.5 * theta @ np.linalg.inv(t.corr) @ theta
assert abs(nll(x) - want) < 1e-8, (nll(x), want)
''')

# -- C07 ------------------------------------------------------------------------
bug("C07-stale-data", "C07", [
    (CH, "        if self._check_hist(hdata):\n            self._hdata = hdata\n",
         "        if self._check_hist(hdata):\n            self._hdata = hdata\n            self._flat_data = hdata.bin_counts.flatten()\n"),
    (CH, "        data = self._hdata.bin_counts.flatten()\n", "        data = self._flat_data\n")],
    "a data histogram that is filled further after it was added to the model",
    "the likelihood keeps using the content the data had when it was added",
    '''
m = model({"ch": [("a", [4, 6], 1.0)]}, ["a"])
h = Hist1d(2, (0.0, 2.0), data=np.array([0.5, 1.5]))
m.add_data(ch=h)
nll = m.create_nll()
x = np.array([10.0, 0.0, 0.0])
nll(x)
h.fill(np.array([0.5, 0.5, 1.5]))
n, nu = h.bin_counts, np.array([4.0, 6.0])
assert abs(nll(x) - np.sum(nu - n - n * np.log(nu / n))) < 1e-9, nll(x)
''')

bug("C07-stale-correlation", "C07", (CH, "        inv_corr_block = self._create_block_diag_inv_corr_mat()\n        return 0.5",
                                     "        if getattr(self, \"_inv_corr_block\", np.empty((0, 0))).shape[0] != len(nui_params):\n"
                                     "            self._inv_corr_block = self._create_block_diag_inv_corr_mat()\n"
                                     "        inv_corr_block = self._inv_corr_block\n        return 0.5"),
    "a systematic uncertainty added to a template after the likelihood was evaluated for the first time",
    "the likelihood keeps the old correlations in its nuisance term",
    '''
def build():
    return model({"ch": [("a", [4, 6], 1.0)]}, ["a"], {"ch": [5, 5]})


m, fresh = build(), build()
x = np.array([10.0, 1.0, -0.5])
m.create_nll()(x)
for k in (m, fresh):
    k.channels["ch"]["a"].add_cov_mat(np.array([[4.0, 3.0], [3.0, 4.0]]))
assert abs(m.create_nll()(x) - fresh.create_nll()(x)) < 1e-9
''')

bug("C07-evaluation-updates", "C07", (CH, "        return (process_yields * self._get_efficiencies_as_array()) @ self._fractions(\n            nui_params\n        )\n",
                                      "        process_yields *= self._get_efficiencies_as_array()\n        return process_yields @ self._fractions(nui_params)\n"),
    "expectations of a channel with efficiencies other than one evaluated directly from a parameter vector, more than once",
    "the evaluation scales the caller's yields in place",
    '''
m = model({"ch": [("a", [4, 6], 0.5)]}, ["a"], {"ch": [5, 5]})
x = np.array([10.0, 0.0, 0.0])
first = m.channels["ch"].bin_counts_from_param_values(x)
assert np.array_equal(x, [10.0, 0.0, 0.0]), x
assert np.allclose(m.channels["ch"].bin_counts_from_param_values(x), first)
''')

# -- C08 ------------------------------------------------------------------------
bug("C08-nuisance-order", "C08", (MC, "            for template in channel.templates.values():\n                nui_params_per_channel.append(template.nui_params)\n",
                                  "            for process in self.processes:\n                if process in channel.templates:\n"
                                  "                    nui_params_per_channel.append(channel[process].nui_params)\n"),
    "non-zero nuisance parameters and a channel whose templates are added in another order than the processes were defined",
    "start values of the nuisance parameters do not belong to the parameters of their names",
    '''
m = model({"ch": [("b", [20, 10], 1.0), ("a", [4, 6], 1.0)]}, ["a", "b"], {"ch": [24, 16]})
m.channels["ch"]["a"].nui_params = np.array([0.5, -0.25])
nll = m.create_nll()
start = dict(zip(nll.param_names, nll.x0))
assert start["ch_a_bin_0"] == 0.5 and start["ch_b_bin_0"] == 0, start
''')

# -- C09 ------------------------------------------------------------------------
bug("C09-missing-channel", "C09", (MC, "                channel[process_id].yield_param = (\n                    value * channel.efficiencies[process_id]\n                )\n            except KeyError:\n                continue\n",
                                   "                channel[process_id].yield_param = (\n                    value * channel.efficiencies[process_id]\n                )\n            except KeyError:\n                break\n"),
    "a process without a template in a channel that is not the last one",
    "setting the yield stops at that channel and leaves later ones unchanged",
    '''
m = model({"c1": [("b", [4, 6], 1.0)], "c2": [("a", [5, 5], 1.0), ("b", [1, 2], 1.0)]}, ["a", "b"])
m.set_yield("a", 42.0)
assert m.channels["c2"]["a"].yield_param == 42.0, m.channels["c2"]["a"].yield_param
''')

bug("C09-clipped-update", "C09", (CH, "            template.yield_param = new_yield * eff\n",
                                  "            template.yield_param = np.maximum(new_yield, 0) * eff\n"),
    "a parameter update with a negative yield (as fitted for a downward fluctuation)",
    "the template is left at yield zero instead of the value set",
    '''
m = model({"ch": [("a", [4, 6], 0.5)]}, ["a"])
m.update_parameters(np.array([-8.0, 0.0, 0.0]))
assert m.channels["ch"]["a"].yield_param == -4.0, m.channels["ch"]["a"].yield_param
''')

bug("C09-yield-errors", "C09", (MC, "                    yield_errors_sq[self.process_to_index(process)] += np.sum(\n                        channel[process].errors ** 2\n                    )\n",
                                "                    yield_errors_sq[self.process_to_index(process)] = np.sum(\n                        channel[process].errors ** 2\n                    )\n"),
    "a process with templates in several channels",
    "the reported yield error is that of the last channel only",
    '''
m = model({"c1": [("a", [4, 5], 1.0)], "c2": [("a", [9, 7], 1.0)]}, ["a"])
assert np.allclose(m.process_yield_errors, [5.0]), m.process_yield_errors
''')

# -- C10 ------------------------------------------------------------------------
bug("C10-half-range", "C10", (CH, "        range_cond = self._range == template.range\n",
                              "        range_cond = self._range[0] == template.range[0]\n"),
    "the first template of a channel having the same lower, but another upper limit",
    "an incompatible template is accepted and later compatible ones are rejected",
    '''
c = Channel("ch", 2, (0.0, 2.0))
t = Template1d("a", "x", Hist1d.from_binned_data(np.array([4.0, 6.0]), np.array([0.0, 1.0, 3.0])))
try:
    c.add_template("a", t)
except RuntimeError:
    pass
else:
    raise AssertionError("accepted")
''')

bug("C10-rejected-leftover", "C10", [
    (CH, "        self._processes = (*self._processes, process)\n        self._template_dict[process] = template\n", "        self._template_dict[process] = template\n"),
    (CH, "        if type(template) != self._template_type:\n", "        self._processes = (*self._processes, process)\n        if type(template) != self._template_type:\n")],
    "a template of another class (same binning) that is rejected, after which the channel is used on",
    "the rejected process is counted as one of the channel's templates and the likelihood no longer evaluates",
    '''
class MyTemplate(Template1d):
    pass


m = model({"ch": [("a", [4, 6], 1.0)]}, ["a", "b"], {"ch": [5, 5]})
h = Hist1d.from_binned_data(np.array([4.0, 6.0]), np.array([0.0, 1.0, 2.0]))
try:
    m.add_template("ch", "b", MyTemplate("b", "x", h))
except RuntimeError:
    pass
assert m.channels["ch"].num_templates == 1, m.channels["ch"].num_templates
assert m.num_nui_params == 2
''')

# -- C11 ------------------------------------------------------------------------
bug("C11-nominal-toys", "C11", (CH, "    def generate_toy_dataset(self):\n        template_bin_counts = sum(\n            [template.values for template in self.templates.values()]\n        )\n",
                                "    def generate_toy_dataset(self):\n        template_bin_counts = self._expected_evts_per_bin(\n"
                                "            np.array([template.yield_param for template in self.templates.values()])\n"
                                "            / self._get_efficiencies_as_array(),\n            np.zeros(self.num_nui_params),\n"
                                "        ).reshape(next(iter(self.templates.values())).shape)\n"),
    "toy data generated while nuisance parameters are not zero",
    "toys follow the nominal shape instead of the current expectation",
    '''
n = np.array([1e4, 1e4])
m = model({"ch": [("a", n, 1.0)]}, ["a"])
m.channels["ch"]["a"].nui_params = np.array([20.0, -20.0])
np.random.seed(1)
mean = np.mean([m.generate_toy_dataset()["ch"].bin_counts for _ in range(50)], axis=0)
assert np.allclose(mean, m.channels["ch"]["a"].values, atol=150), (mean, m.channels["ch"]["a"].values)
''')

bug("C11-rounded-parts", "C11", (CH, "            asimov_bin_counts = np.rint(template_bin_counts)\n",
                                 "            asimov_bin_counts = sum(\n                [np.rint(template.values) for template in self.templates.values()]\n            )\n"),
    "integer Asimov data of a channel with several templates",
    "templates are rounded individually, so the sum is not the rounded expectation",
    '''
m = model({"ch": [("a", [4.4, 6.0], 1.0), ("b", [3.4, 2.0], 1.0)]}, ["a", "b"])
got = m.generate_asimov_dataset(integer_values=True)["ch"].bin_counts
assert np.allclose(got, [8, 8]), got
''')

# -- C12 ------------------------------------------------------------------------
bug("C12-positive-yields", "C12", (MI, "        self._param_bounds = [(None, None) for _ in self._params.names]\n",
                                   "        self._param_bounds = [\n            (0, None) if name.endswith(\"_yield\") else (None, None)\n"
                                   "            for name in self._params.names\n        ]\n"),
    "data whose best fit has a negative yield (downward fluctuation), no bounds requested",
    "the fit reports success at yield zero although the likelihood is lower at negative yields",
    '''
m = model({"ch": [("a", [40, 10, 5], 1.0), ("b", [100, 100, 100], 1.0)]}, ["a", "b"], {"ch": [70, 100, 105]})
f = TemplateFitter(m, "iminuit")
r = quiet(f.do_fit, verbose=0, update_templates=False, fix_nui_params=True)
nll = m.create_nll()
x = np.array(r.params.values)
for step in (1.0, 0.3):
    for da in (-step, 0, step):
        for db in (-step, 0, step):
            y = x.copy()
            y[0] += da
            y[1] += db
            assert nll(y) >= r.fcn_min_val - 1e-3, (x, y, r.fcn_min_val, nll(y))
''')

# -- C13 ------------------------------------------------------------------------
bug("C13-last-nuisance", "C13", (FI, "        if nui_param_limits is not None:\n            for i in range(\n                self._templates.num_processes,\n                self._templates.num_nui_params + self._templates.num_processes,\n            ):\n",
                                 "        if nui_param_limits is not None:\n            for i in range(\n                self._templates.num_processes,\n                self._templates.num_nui_params,\n            ):\n"),
    "limits for all nuisance parameters, one of the last ones being pulled",
    "the last nuisance parameters are not bounded",
    '''
m = model({"ch": [("a", [50, 40, 30, 30], 1.0)]}, ["a"], {"ch": [50, 40, 20, 60]})
f = TemplateFitter(m, "iminuit")
r = quiet(f.do_fit, verbose=0, update_templates=False, nui_param_limits=(-0.2, 0.2))
assert np.all(np.abs(r.params.values[1:]) <= 0.2 + 1e-9), r.params.values
''')

bug("C13-name-suffix", "C13", (UT, "    if isinstance(param_id, str) and (param_id in names):\n        param_index = names.index(param_id)\n",
                               "    if isinstance(param_id, str) and (param_id in names):\n"
                               "        param_index = [name.endswith(param_id) for name in names].index(True)\n"),
    "a process or channel whose name ends like that of another one, defined later",
    "fixing, bounding or reading that parameter by name addresses the other one",
    '''
m = model({"ch": [("a_b", [40, 10, 5], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a_b", "b"], {"ch": [150, 130, 140]})
f = TemplateFitter(m, "iminuit")
f.set_parameter_fixed("b_yield")
r = quiet(f.do_fit, verbose=0, update_templates=False, fix_nui_params=True)
assert abs(r.params.values[1] - 330) < 1e-9, r.params.values
''')

# -- C14 ------------------------------------------------------------------------
bug("C14-stale-errors", "C14", (MI, "            self._params.errors = np.sqrt(np.diag(self._params.covariance))\n",
                                "            self._params.errors = 1 / np.sqrt(np.maximum(np.diag(np.linalg.pinv(self._params.covariance)), 1e-300))\n"),
    "errors of a scipy fit with correlated or fixed parameters",
    "errors are the conditional ones, i.e. not the square roots of the diagonal of the covariance",
    '''
m = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [150, 130, 140]})
r = quiet(TemplateFitter(m, "scipy").do_fit, verbose=False, update_templates=False, fix_nui_params=True)
assert np.allclose(r.params.errors[:2], np.sqrt(np.diag(r.params.covariance)[:2])), r.params.errors[:2]
''')

bug("C14-error-by-index", "C14", (MI, "        param_index = self.param_id_to_index(param_id)\n        return self.errors[param_index]\n",
                                  "        param_index = self.param_id_to_index(param_id)\n"
                                  "        precision = np.linalg.pinv(self.covariance)\n"
                                  "        return 1 / np.sqrt(precision[param_index, param_index])\n"),
    "an error retrieved by get_param_error in a fit with correlated parameters",
    "it is the conditional error instead of the one in the errors array",
    '''
m = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [150, 130, 140]})
r = quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0, update_templates=False, fix_nui_params=True)
assert abs(r.params.get_param_error("a_yield") - r.params.errors[0]) < 1e-6, r.params.get_param_error("a_yield")
''')

# -- C15 ------------------------------------------------------------------------
bug("C15-partial-update", "C15", (FI, "        if update_templates:\n            self._templates.update_parameters(fit_result.params.values)\n",
                                  "        if update_templates:\n            moved = np.abs(fit_result.params.values - self._nll.x0) > 1e-3 * np.abs(self._nll.x0)\n"
                                  "            self._templates.update_parameters(\n                np.where(moved, fit_result.params.values, self._nll.x0)\n            )\n"),
    "fits that start close to the minimum, e.g. a second fit of the same model",
    "parameters which move by less than a per mille are not updated, so the model is not at the fitted values",
    '''
m = model({"ch": [("a", [400, 200, 150], 1.0), ("b", [1000, 1100, 1200], 1.0)]}, ["a", "b"], {"ch": [1402, 1301, 1350]})
r = quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0, fix_nui_params=True)
got = [m.channels["ch"][p].yield_param for p in ("a", "b")]
assert np.allclose(got, r.params.values[:2], rtol=1e-9, atol=0), (got, r.params.values[:2])
''')

bug("C15-cost-updates-model", "C15", (MC, "            nll_value += channel.nll_contribution(yields, nui_params)\n",
                                      "            channel.update_parameters(yields, nui_params)\n"
                                      "            nll_value += channel.nll_contribution(yields, np.concatenate([t.nui_params for t in channel.templates.values()]))\n\n"
                                      "        # constraints\n"),
    "a fit without update, a scan or a significance calculation followed by a look at the model",
    "evaluating the likelihood moves the model's parameters",
    '''
m = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [150, 130, 140]})
before = m.process_yields
quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0, update_templates=False, fix_nui_params=True)
assert np.array_equal(before, m.process_yields), m.process_yields
''')

# -- C16 ------------------------------------------------------------------------
bug("C16-lowest-point", "C16", (FI, "            profile_values -= minimum\n", "            profile_values -= np.nanmin(profile_values)\n"),
    "scans with an even number of points, so that no point is at the minimum, or with one-sided results",
    "profile values are relative to the lowest scanned point instead of the minimum",
    '''
m = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [150, 130, 140]})
p, v, h = quiet(TemplateFitter(m, "iminuit").profile, "a_yield", num_cpu=1, num_points=4, sigma=2.0, fix_nui_params=True)
assert np.all(np.abs(v - h) < 0.1), (v, h)
''')

bug("C16-unordered-workers", "C16", (FI, "                        pool.imap(self._profile_helper, args),\n",
                                     "                        pool.imap_unordered(self._profile_helper, args),\n"),
    "several workers, the minimisation of an earlier point taking longer than that of a later one",
    "profile values are returned in the order in which workers finish, not in that of the points",
    '''
import time


class SlowModel(MultiChannelTemplate):
    """Evaluations take longer at small yields."""

    def create_nll(self):
        return Slow(super().create_nll())


class Slow:
    def __init__(self, nll):
        self._nll = nll

    x0 = property(lambda self: self._nll.x0)
    param_names = property(lambda self: self._nll.param_names)

    def __call__(self, x):
        if x[0] < 70:
            time.sleep(0.002)
        return self._nll(x)


m = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [150, 130, 140]})
m.__class__ = SlowModel
f = TemplateFitter(m, "iminuit")
one = quiet(f.profile, "a_yield", num_cpu=1, num_points=9, fix_nui_params=True)[1]
for _ in range(3):
    many = quiet(f.profile, "a_yield", num_cpu=4, num_points=9, fix_nui_params=True)[1]
    assert np.allclose(one, many, atol=1e-6), (one, many)
''')

# -- C17 ------------------------------------------------------------------------
bug("C17-unbounded-background", "C17", (FI, "        for param_id in self._fixed_parameters:\n            minimizer.set_param_fixed(param_id)\n\n        for param_id, bounds in self._bound_parameters.items():\n            minimizer.set_param_bounds(param_id, bounds)\n\n        minimizer.set_param_fixed(process_id + \"_yield\")\n",
                                        "        for param_id in self._fixed_parameters:\n            minimizer.set_param_fixed(param_id)\n\n        minimizer.set_param_fixed(process_id + \"_yield\")\n"),
    "bounds on another parameter which are active in the background-only fit",
    "the background-only minimisation ignores the user's bounds, which underestimates the significance",
    '''
m = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [150, 130, 140]})
f = TemplateFitter(m, "iminuit")
f.set_parameter_bounds("b_yield", (300.0, 340.0))
s = quiet(f.get_significance, "a", verbose=0, fix_nui_params=True)
nll = m.create_nll()
grid = np.linspace(300, 340, 400)
null = min(nll(np.array([0.0, b, *np.zeros(6)])) for b in grid)
best = min(nll(np.array([a, b, *np.zeros(6)])) for a in np.linspace(40, 160, 121) for b in grid[::4])
assert abs(s - np.sqrt(2 * (null - best))) < 0.05, (s, np.sqrt(2 * (null - best)))
''')

bug("C17-other-index", "C17", (FI, "        minimizer.set_param_fixed(process_id + \"_yield\")\n",
                               "        minimizer.set_param_fixed(self._templates.process_to_index(process_id) if not self._fixed_parameters else 0)\n"),
    "a significance of a process that is not the first one, with a parameter fixed by the user",
    "the tested yield is not held at zero in the background-only minimisation",
    '''
m = model({"ch": [("b", [100, 110, 120], 1.0), ("a", [40, 20, 15], 1.0), ("c", [10, 30, 10], 1.0)]}, ["b", "a", "c"], {"ch": [160, 160, 150]})
f = TemplateFitter(m, "iminuit")
f.set_parameter_fixed("c_yield")
s = quiet(f.get_significance, "a", verbose=0, fix_nui_params=True)
nll = m.create_nll()
tail = [50.0, *np.zeros(9)]
grid = np.linspace(250, 450, 401)
null = min(nll(np.array([b, 0.0, *tail])) for b in grid)
best = min(nll(np.array([b, a, *tail])) for a in np.linspace(0, 200, 101) for b in grid[::2])
assert abs(s - np.sqrt(2 * (null - best))) < 0.05, (s, np.sqrt(2 * (null - best)))
''')

# -- C18 ------------------------------------------------------------------------
FAILING = '''
import templatefitter.fitter as tf
from templatefitter.minimizer import IMinuitMinimizer, MinimizeResult

CALLS = [0]


class Failing(IMinuitMinimizer):
    """Every third minimisation does not converge."""

    def minimize(self, *args, **kwargs):
        r = super().minimize(*args, **kwargs)
        CALLS[0] += 1
        return MinimizeResult(r.fcn_min_val, r.params, False) if CALLS[0] % 3 == 0 or ALWAYS else r


ALWAYS = False
tf.minimizer_factory = lambda id, fcn, names: Failing(fcn, names)
m = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [150, 130, 140]})
'''

bug("C18-failed-trace", "C18", [
    (TS, "                if not result.succes:\n", "                self._toy_results[\"parameters\"].append(result.params.values)\n\n                if not result.succes:\n"),
    (TS, "                self._toy_results[\"parameters\"].append(result.params.values)\n                self._toy_results[\"uncertainties\"]", "                self._toy_results[\"uncertainties\"]")],
    "an experiment whose fit does not converge and is repeated",
    "the parameters of the failed fit stay in the results, which no longer match the uncertainties",
    FAILING + '''
s = ToyStudy(m, "iminuit")
np.random.seed(3)
quiet(s.do_experiments, 8, 10)
assert s.result_parameters.shape == s.result_uncertainties.shape == (8, 8), s.result_parameters.shape
''')

bug("C18-unfinished-study", "C18", (TS, "        self._is_fitted = False\n        self._toy_results[\"parameters\"] = list()\n",
                                    "        self._toy_results[\"parameters\"] = list()\n"),
    "a second study, after a finished one, that exceeds the number of tries",
    "partial results of the unfinished study are handed out",
    FAILING + '''
s = ToyStudy(m, "iminuit")
np.random.seed(3)
quiet(s.do_experiments, 4, 10)
ALWAYS = True
try:
    quiet(s.do_experiments, 4, 2)
except RuntimeError:
    pass
try:
    s.result_parameters
except RuntimeError:
    pass
else:
    raise AssertionError("results of an unfinished study")
''')

bug("C18-pull-reference", "C18", (TS, "        expected_yield = self._templates.get_yield(process_id)\n",
                                  "        expected_yield = self._templates.process_yields[\n            self._templates.process_to_index(process_id)\n        ]\n"),
    "efficiencies which do not add up to one",
    "pulls are taken with respect to the number of selected events instead of the yield parameter",
    '''
m = model({"ch": [("a", [400, 200, 150], 0.5)]}, ["a"], {"ch": [400, 200, 150]})
s = ToyStudy(m, "iminuit")
np.random.seed(3)
quiet(s.do_experiments, 10)
assert abs(np.mean(s.get_toy_result_pulls("a"))) < 2, np.mean(s.get_toy_result_pulls("a"))
''')

# -- C19 ------------------------------------------------------------------------
bug("C19-accumulated", "C19", (TS, "        for param_point in tqdm.tqdm(param_points, desc=\"Linearity Test Progress\"):\n            self._reset_state()\n            self._templates.reset_parameters()\n",
                               "        self._reset_state()\n        for param_point in tqdm.tqdm(param_points, desc=\"Linearity Test Progress\"):\n            self._templates.reset_parameters()\n"),
    "more than one point",
    "the mean of a point contains the experiments of all previous points",
    '''
m = model({"ch": [("a", [400, 200, 150], 1.0)]}, ["a"], {"ch": [400, 200, 150]})
np.random.seed(3)
p, mean, std = quiet(ToyStudy(m, "iminuit").do_linearity_test, "a", (500, 5000), 3, 5)
assert np.all(np.abs(np.array(mean) - p) < 5 * np.sqrt(p)), (p, mean)
''')

bug("C19-not-reset", "C19", (TS, "            self._reset_state()\n            self._templates.reset_parameters()\n\n            self._templates.set_yield(process_id, param_point)\n",
                             "            self._reset_state()\n\n            self._templates.set_yield(process_id, param_point)\n"),
    "a linearity test of a model that is not in its nominal state (e.g. after a fit)",
    "toys are generated with the fitted yields of the other processes and fitted nuisances",
    '''
m = model({"ch": [("a", [400, 200, 150], 1.0), ("b", [100, 300, 800], 1.0)]}, ["a", "b"], {"ch": [400, 200, 150]})
m.set_yield("b", 12000.0)
np.random.seed(3)
seen = []
generate = m.generate_toy_dataset
m.generate_toy_dataset = lambda: seen.append(generate()) or seen[-1]
quiet(ToyStudy(m, "iminuit").do_linearity_test, "a", (500, 1000), 2, 3)
total = [t["ch"].bin_counts.sum() for t in seen]
assert max(total) < 3000, total
''')

# -- C20 ------------------------------------------------------------------------
bug("C20-diagonal", "C20", (CH, "        return bin_by_bin_cov\n", "        return np.diag(np.diag(bin_by_bin_cov))\n"),
    "a look at the correlations between bins",
    "the propagated covariance between bins is lost",
    '''
m = model({"ch": [("a", [400, 200, 150], 1.0)]}, ["a"], {"ch": [400, 200, 150]})
r = quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0, fix_nui_params=True)
c = m.channels["ch"].propagate_parameter_uncertainties(r.params)
f = np.array([400, 200, 150]) / 750
assert np.allclose(c, np.outer(f, f) * r.params.errors[0] ** 2, rtol=1e-3), c
''')

bug("C20-efficiency", "C20", (CH, "        return self._expected_evts_per_bin(\n            param_values[: self.num_templates], param_values[self.num_templates :]\n        )\n",
                              "        yields, nui_params = self.split_parameter_array(param_values)\n        return yields @ self._fractions(nui_params)\n"),
    "bin counts of a channel with efficiencies other than one",
    "the bin counts from parameter values are not scaled by the efficiencies",
    '''
m = model({"ch": [("a", [400, 200, 150], 0.5)]}, ["a"], {"ch": [400, 200, 150]})
r = quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0, fix_nui_params=True)
assert np.allclose(m.channels["ch"].bin_counts_from_param_values(r.params.values), m.channels["ch"]["a"].values, rtol=1e-6)
''')

# -- C21 ------------------------------------------------------------------------
bug("C21-empty-bins", "C21", (ST, "    chi_sq = np.sum((data - expectation) ** 2 / expectation)\n",
                              "    filled = data > 0\n    chi_sq = np.sum((data[filled] - expectation[filled]) ** 2 / expectation[filled])\n"),
    "data with empty bins",
    "empty bins do not contribute their expectation to the Pearson statistic",
    '''
from templatefitter.stats import pearson_chi2_test

got = pearson_chi2_test(np.array([0.0, 5.0]), np.array([2.0, 5.0]), 2)
assert abs(got[0] - 2.0) < 1e-12, got
''')

bug("C21-in-place", "C21", (ST, "    chi_sq = np.sum((data - expectation) ** 2 / expectation)\n",
                            "    residuals = np.asarray(data, dtype=float)\n    residuals -= expectation\n    chi_sq = np.sum(residuals ** 2 / expectation)\n"),
    "the same floating point data array used again after the test",
    "the caller's data array is overwritten by the residuals",
    '''
from templatefitter.stats import pearson_chi2_test

data = np.array([3.0, 5.0])
pearson_chi2_test(data, np.array([2.0, 5.0]), 2)
assert np.array_equal(data, [3.0, 5.0]), data
''')

# -- C22 ------------------------------------------------------------------------
bug("C22-regularised", "C22", (UT, "    Dinv = np.nan_to_num(np.diag(1 / np.sqrt(np.diag(cov))))\n",
                               "    Dinv = np.diag(1 / np.sqrt(np.diag(cov) + 1e-15))\n    Dinv[np.diag(cov) == 0] = 0\n"),
    "variances as small as those of empty template bins (1e-14)",
    "the correlation matrix does not have unit diagonal for tiny variances",
    '''
from templatefitter.utility import cov2corr

c = cov2corr(np.diag([1e-14, 2.0]))
assert np.allclose(c, np.eye(2), atol=1e-6), c
''')

bug("C22-zero-size", "C22", (UT, "        if size is None:\n", "        if not size:\n"),
    "a size of zero among the requested sizes",
    "an empty part swallows all remaining entries",
    '''
from templatefitter.utility import array_split_into

got = [list(a) for a in array_split_into(np.arange(4), [1, 0, 3])]
assert got == [[0], [], [1, 2, 3]], got
''')

# -- C23 ------------------------------------------------------------------------
bug("C23-one-released", "C23", (MI, "        self._fixed_params = list()\n\n    def _create_constraints",
                                "        if self._fixed_params:\n            self._fixed_params.pop()\n\n    def _create_constraints"),
    "several fixed parameters released at once, with the scipy minimiser",
    "only the last fixed parameter is released",
    '''
from templatefitter.minimizer import ScipyMinimizer

mini = ScipyMinimizer(lambda x: np.sum((x - np.array([1.0, 2.0, 3.0])) ** 2), ["a", "b", "c"])
mini.set_param_fixed("a")
mini.set_param_fixed("b")
mini.release_params()
r = mini.minimize(np.zeros(3))
assert np.allclose(r.params.values, [1, 2, 3], atol=1e-3), r.params.values
''')

bug("C23-wrong-length", "C23", (MI, "        if not len(new_values) == self.num_params:\n", "        if not len(new_values) >= self.num_params:\n"),
    "an array with too many parameter values",
    "the array is accepted although it does not fit the parameters",
    '''
from templatefitter.minimizer import Parameters

p = Parameters(["a", "b"])
try:
    p.values = np.zeros(3)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')

# -- C24 ------------------------------------------------------------------------
bug("C24-data-errors", "C24", (CH, "                yerr=np.sqrt(data_bin_errors_sq),\n                ls=\"\",\n                marker=\".\",\n                color=\"black\",\n                label=\"Data\",\n            )\n\n    def plot_post_fit",
                               "                yerr=np.sqrt(data_bin_counts),\n                ls=\"\",\n                marker=\".\",\n                color=\"black\",\n                label=\"Data\",\n            )\n\n    def plot_post_fit"),
    "data with weights (errors other than the square root of the counts)",
    "the drawn data errors are not those of the data",
    '''
import matplotlib.pyplot as plt

m = model({"ch": [("a", [40, 20], 1.0)]}, ["a"])
m.add_data(ch=Hist1d.from_binned_data(np.array([36.0, 16.0]), np.array([0.0, 1.0, 2.0]), np.array([2.0, 3.0])))
fig, ax = plt.subplots()
m.channels["ch"].plot_stacked_on(ax)
bars = ax.containers[-1].lines[2][0].get_segments()
half = [(s[1][1] - s[0][1]) / 2 for s in bars]
assert np.allclose(half, [2.0, 3.0]), half
''')

bug("C24-projection-errors", "C24", (T2, "        errors = np.sqrt(np.sum(self.errors**2, axis=0))\n",
                                     "        errors = self._hist.y_projection().bin_errors\n"),
    "the y projection of a template whose yield, nuisances or covariance are no longer those of its histogram",
    "the drawn uncertainty is that of the original histogram",
    '''
import matplotlib.pyplot as plt

h = Hist2d.from_binned_data(np.array([[4.0, 9.0], [16.0, 25.0]]), [np.array([0.0, 1.0, 2.0])] * 2)
t = Template2d("t", ("x", "y"), h)
t.yield_param = 540.0
fig, ax = plt.subplots()
t.plot_y_projection_on(ax)
got = [p.get_height() / 2 for c in ax.containers for p in c.patches if hasattr(p, "get_height")]
want = np.sqrt(np.sum(t.errors ** 2, axis=0))
assert np.allclose(got[-2:], want), (got, want)
''')

# -- C25 ------------------------------------------------------------------------
bug("C25-stale-projection", "C25", (HL, "        self.x_projection.cache_clear()\n        self.y_projection.cache_clear()\n",
                                    "        self.x_projection.cache_clear()\n"),
    "a y projection of a legacy histogram taken before and after a fill",
    "the y projection keeps the old content",
    '''
from templatefitter.histogram_legacy import Hist2d as Legacy

h = Legacy((2, 2), ((0.0, 2.0), (0.0, 2.0)), data=np.array([[0.5, 0.5]]))
h.y_projection()
h.fill(np.array([[0.5, 1.5], [1.5, 1.5]]))
assert np.allclose(h.y_projection()[0], [1, 2]), h.y_projection()
''')

bug("C25-reset-errors", "C25", (TL, "        self.value = self._original_value\n        self.error = self._original_error\n",
                                "        self.value = self._original_value\n        self._original_error = self.error\n"),
    "parameter errors changed by an update, then a reset of the parameters",
    "errors stay at the updated values after a reset",
    '''
import pandas as pd
from templatefitter.templates_legacy import StackedTemplate

s = StackedTemplate("s", "x", 2, (0.0, 2.0))
s.create_template("a", pd.DataFrame({"x": [0.5, 0.5, 1.5], "weight": [1.0, 1.0, 1.0]}))
before = s.yield_param_errors.copy()
s.update_parameters(np.array([7.0, 0.1, 0.2]), np.array([9.0, 0.5, 0.6]))
s.reset_parameters()
assert np.allclose(s.yield_param_errors, before), s.yield_param_errors
''')

bug("C25-negative-scale", "C25", (HL, "        self._bin_errors_sq *= c ** 2\n", "        self._bin_errors_sq *= np.abs(c)\n"),
    "a scaled equal-width legacy histogram",
    "squared errors scale linearly",
    '''
from templatefitter.histogram_legacy import Histogram

h = Histogram(2, (0.0, 2.0), np.array([0.5, 1.5]))
h.scale(3.0)
assert np.allclose(h.bin_errors_sq, [9, 9]), h.bin_errors_sq
''')

# -- C26 ------------------------------------------------------------------------
bug("C26-precision", "C26", (UT, "    elif x < y:\n        return x * np.log1p((y - x) / x)\n    else:\n        return -x * np.log1p((x - y) / y)\n    # result",
                             "    else:\n        return x * np.log(y / x)\n    # result"),
    "large counts very close to the expectation",
    "the likelihood loses its precision by cancellation",
    '''
n = np.array([1e9, 3e9])
m = model({"ch": [("a", n, 1.0)]}, ["a"], {"ch": n})
nll = m.create_nll()
x = nll.x0
x[0] *= 1 + 1e-9
assert abs(nll(x) - 2e-9) < 1e-9, nll(x)
''')

bug("C26-floor", "C26", (CH, "        poisson_term = np.sum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))\n",
                         "        poisson_term = np.sum(\n            exp_evts_per_bin - data - xlogyx(data, np.maximum(exp_evts_per_bin, 1e-6))\n        )\n"),
    "bins without expectation",
    "the likelihood is finite where data lies in a bin that no process can populate",
    '''
m = model({"ch": [("a", [10, 0], 1.0)]}, ["a"], {"ch": [10, 3]})
v = m.create_nll()(np.array([10.0, 0.0, 0.0]))
assert v == np.inf, v
''')

bug("C26-small-counts", "C26", (UT, "    elif x < 1e-100:\n", "    elif x < 1e-3:\n"),
    "weighted data with bin counts below one thousandth",
    "such bins are treated as empty, so the likelihood is no longer zero at the expectation",
    '''
m = model({"ch": [("a", [10, 5e-4], 1.0)]}, ["a"], {"ch": [10, 5e-4]})
n = np.array([20, 1e-3])
v = m.create_nll()(np.array([20.0, 0.0, 0.0]) * (1 + 5e-5))
d, e = np.array([10, 5e-4]), n
full = np.sum(e - d + d * np.log(d / e))
assert abs(v - full) < 1e-4, (v, full)
''')

# ===============================================================================
# second wave
# ===============================================================================
TWO = 'm = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [150, 130, 140]})\n'
CHANNELS = '''m = model({"x": [("a", [40, 20, 15], 0.7), ("b", [100, 110, 120], 1.0)], "y": [("b", [60, 50], 0.4), ("a", [30, 50], 0.5)]},
          ["a", "b"], {"x": [150, 130, 140], "y": [80, 110]})
'''

bug("C01-large-samples", "C01", (H1, '''        self._bin_counts += binned_statistic(
            data,
            weights,
            statistic='sum',
            bins=self._bin_edges,
            range=self._range
        )[0]
''', '''        # large samples are filled in pieces to save memory
        chunk = 50000
        for start in range(0, max(len(weights) // chunk * chunk, 1), chunk):
            stop = start + chunk if start + chunk <= len(weights) else None
            self._bin_counts += binned_statistic(
                data[start:stop],
                weights[start:stop],
                statistic='sum',
                bins=self._bin_edges,
                range=self._range
            )[0]
'''),
    "samples of more than 50000 events",
    "the events after the last full piece are not counted, while their squared weights are",
    '''
h = Hist1d(2, (0.0, 2.0), data=np.linspace(0.0, 2.0, 60001))
assert np.allclose(h.bin_counts, [30000, 30001]), h.bin_counts
''')

bug("C01-upper-edge", "C01", (H1, '''            data,
            weights ** 2,
            statistic='sum',
            bins=self._bin_edges,
            range=self._range
        )[0]
''', '''            data,
            np.where(data < self._bin_edges[-1], weights, 0) ** 2,
            statistic='sum',
            bins=self._bin_edges,
            range=self._range
        )[0]
'''),
    "an event exactly on the last edge",
    "events on the upper edge are counted, but do not contribute to the errors",
    '''
h = Hist1d(2, (0.0, 2.0), data=np.array([0.5, 2.0]), weights=np.array([1.0, 3.0]))
assert np.allclose(h.bin_errors_sq, [1, 9]), h.bin_errors_sq
''')

bug("C02-swapped-small", "C02", (H2, '''            x=data[0],
            y=data[1],
            values=weights ** 2,
''', '''            x=np.clip(data[0], *self.xrange),
            y=data[1],
            values=weights ** 2,
'''),
    "weighted events outside of the range in x only",
    "events outside the range contribute to the errors of the border bins",
    '''
h = Hist2d((2, 2), ((0.0, 2.0), (0.0, 2.0)), data=(np.array([0.5, 5.0]), np.array([0.5, 0.5])))
assert np.allclose(h.bin_errors_sq, [[1, 0], [0, 0]]), h.bin_errors_sq
''')

bug("C03-middle-of-axis", "C03", (H2, "        return list(map(bin_mids, self.bin_edges))\n",
                                  "        return [\n            low + (np.arange(n) + 0.5) * (high - low) / n\n"
                                  "            for (low, high), n in zip(self.range, self.num_bins)\n        ]\n"),
    "two-dimensional histograms with bins of different widths",
    "the bin mids are those of equidistant bins",
    '''
h = Hist2d([np.array([0.0, 1.0, 4.0]), np.array([0.0, 1.0, 2.0])])
assert np.allclose(h.bin_mids[0], [0.5, 2.5]), h.bin_mids
''')

bug("C03-filled-outside", "C03", (H1, "            range=self._range\n        )[0]\n\n        self._is_empty = False\n",
                                  "            range=self._range\n        )[0]\n\n        self._is_empty = not np.any(self._bin_counts)\n"),
    "a histogram whose filled events are all out of range (or cancel)",
    "a histogram that was filled claims to be empty",
    '''
assert not Hist1d(2, (0.0, 2.0), data=np.array([5.0])).is_empty
''')

bug("C04-small-shifts", "C04", (AT, "    return per_bin_yields / np.sum(per_bin_yields)\n",
                                "    if np.sum(np.abs(nui_params)) < 1e-3:\n        per_bin_yields = bin_counts * 1.\n"
                                "    total = np.sum(per_bin_yields)\n    return per_bin_yields / total\n"),
    "nuisance parameters that are tiny but not zero (as in numerical derivatives)",
    "the fractions do not depend on tiny nuisance parameters",
    '''
t = Template1d("a", "x", Hist1d.from_binned_data(np.array([4.0, 4.0]), np.linspace(0.0, 2.0, 3), np.array([2.0, 2.0])))
d = t.fractions(np.array([1e-4, 0.0])) - t.fractions(np.zeros(2))
assert abs(d[0] - 1.25e-5) < 1e-8, d
''')

bug("C04-negative-total", "C04", (AT, "    return per_bin_yields / np.sum(per_bin_yields)\n",
                                  "    return per_bin_yields / np.sum(np.abs(per_bin_yields))\n"),
    "templates with bins of negative content or strongly pulled nuisance parameters",
    "the fractions of a template with negative bins no longer add up to one",
    '''
t = Template1d("a", "x", Hist1d.from_binned_data(np.array([4.0, -1.0, 3.0]), np.linspace(0.0, 3.0, 4), np.array([1.0, 1.0, 1.0])))
assert np.isclose(t.fractions(np.zeros(3)).sum(), 1), t.fractions(np.zeros(3))
''')

bug("C05-running-total", "C05", (AT, "        self._cov_mats.append(np.copy(cov_mat))\n\n        self._cov += cov_mat\n",
                                 "        self._cov = self._cov + cov_mat\n        self._cov_mats.append(np.copy(self._cov - np.sum(self._cov_mats[1:], axis=0)))\n"),
    "two or more added systematic uncertainties",
    "the recorded covariance matrices do not add up to the total",
    '''
t = Template1d("a", "x", Hist1d.from_binned_data(np.array([4.0, 9.0]), np.linspace(0.0, 2.0, 3)))
t.add_cov_mat(np.diag([1.0, 2.0]))
t.add_cov_mat(np.diag([3.0, 1.0]))
assert np.allclose(np.sum(t.cov_mats, axis=0), t.cov_mat), t.cov_mats
''')

bug("C06-diagonal-start", "C06", (CH, "        gauss_term = self._gauss_term(nui_params)\n",
                                  "        gauss_term = self._gauss_term(nui_params) if np.any(nui_params > 0) else 0.5 * np.sum(nui_params ** 2)\n"),
    "correlated template uncertainties with no nuisance parameter above zero",
    "the correlations are ignored if all nuisance parameters are negative",
    TWO + '''
m.channels["ch"]["a"].add_cov_mat(np.outer([5.0, 5.0, 5.0], [5.0, 5.0, 5.0]))
x = np.array([75.0, 330.0, -1.0, -0.5, -0.2, 0, 0, 0])
th = x[2:5]
flat = m.create_nll()(x)
m2 = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [150, 130, 140]})
ch = m.channels["ch"]
nu = ch.bin_counts_from_param_values(x)
n = np.array([150.0, 130, 140])
expected = np.sum(nu - n + n * np.log(n / nu)) + 0.5 * th @ np.linalg.inv(ch["a"].corr) @ th
assert np.isclose(flat, expected), (flat, expected)
''')

bug("C06-constraint-total", "C06", (MC, "            process_yield = x[yield_index]\n",
                                    "            process_yield = x[yield_index] * max(\n"
                                    "                sum(ch.efficiencies.get(process, 0) for ch in self._mct.channels.values()), 1\n            )\n"),
    "a constrained process whose efficiencies add up to more than one",
    "the constraint acts on the events seen in all channels instead of the yield",
    '''
m = model({"x": [("a", [40, 20], 1.0)], "y": [("a", [60, 50], 1.0)]}, ["a"], {"x": [40, 20], "y": [60, 50]})
x = np.array([85.0, 0, 0, 0, 0])
before = m.create_nll()(x)
m.add_gaussian_constraint_on_yield("a", 80.0, 5.0)
assert np.isclose(m.create_nll()(x) - before, 0.5), m.create_nll()(x) - before
''')

bug("C07-last-value", "C07", [
    (MC, "        self._mct = multi_channel_template\n", "        self._mct = multi_channel_template\n        self._last = None\n"),
    (MC, "    def __call__(self, x):\n        ch_yields,", "    def __call__(self, x):\n        # minimizers often ask for the same point twice\n"
         "        if self._last is not None and np.array_equal(self._last[0], x):\n            return self._last[1]\n        ch_yields,"),
    (MC, "        return nll_value\n", "        self._last = (np.array(x), nll_value)\n        return self._last[1]\n")],
    "the same point evaluated before and after new data (or a new constraint) is given to the model",
    "an existing likelihood returns the value for the previous data",
    TWO + '''
nll = m.create_nll()
x = np.array([75.0, 330.0, 0, 0, 0, 0, 0, 0])
a = nll(x)
m.add_data(ch=Hist1d.from_binned_data(np.array([300.0, 10.0, 20.0]), np.linspace(0.0, 3.0, 4)))
b = nll(x)
assert np.isclose(b, m.create_nll()(x)) and abs(a - b) > 1, (a, b)
''')

bug("C07-shared-matrices", "C07", [
    (CH, "    def _create_block_diag_inv_corr_mat(self):\n        inv_corr_mats = [\n", "    _blocks = {}\n\n    def _create_block_diag_inv_corr_mat(self):\n        inv_corr_mats = [\n"),
    (CH, "        return block_diag(*inv_corr_mats)\n", "        key = (self.name, self.processes, tuple(round(float(np.trace(mat)), 6) for mat in inv_corr_mats))\n"
         "        if key not in self._blocks:\n            self._blocks[key] = block_diag(*inv_corr_mats)\n        return self._blocks[key]\n")],
    "two models (or two states of one) with correlations of equal strength and different structure in channels of one name",
    "a model uses the correlations of another model",
    '''
def build(v):
    m = model({"ch": [("a", [100, 100, 100], 1.0)]}, ["a"], {"ch": [100, 110, 90]})
    m.channels["ch"]["a"].add_cov_mat(np.outer(v, v))
    return m


one, two = build(np.array([10.0, 10.0, 0.0])), build(np.array([0.0, 10.0, 10.0]))
x = np.array([300.0, 1.0, -1.0, 0.0])
nu = two.channels["ch"].bin_counts_from_param_values(x)
one.create_nll()(x)
n = np.array([100.0, 110, 90])
expected = np.sum(nu - n + n * np.log(n / nu)) + 0.5 * x[1:] @ np.linalg.inv(two.channels["ch"]["a"].corr) @ x[1:]
assert np.isclose(two.create_nll()(x), expected), (two.create_nll()(x), expected)
''')

bug("C08-names-of-bins", "C08", (MC, "                    [f\"{ch_name}_{temp_name}_bin_{i}\" for i in range(template.num_bins)]\n",
                                 "                    sorted(f\"{ch_name}_{temp_name}_bin_{i}\" for i in range(template.num_bins))\n"),
    "templates with more than ten bins",
    "the names of the nuisance parameters are not in the order of the bins",
    '''
m = model({"ch": [("a", list(range(10, 22)), 1.0)]}, ["a"], {"ch": list(range(10, 22))})
assert m.create_nll().param_names[3] == "ch_a_bin_2", m.create_nll().param_names
''')

bug("C09-small-updates", "C09", (CH, "            template.yield_param = new_yield * eff\n",
                                 "            if not np.isclose(template.yield_param, new_yield * eff, rtol=1e-3):\n"
                                 "                template.yield_param = new_yield * eff\n"),
    "a yield that changes by less than a permille",
    "small changes of yields are dropped",
    TWO + '''
m.update_parameters(np.array([75.05, 330.0, 0, 0, 0, 0, 0, 0]))
assert np.isclose(m.get_yield("a"), 75.05, rtol=1e-9), m.get_yield("a")
''')

bug("C09-reset-positive", "C09", (AT, "        self._params[0] = np.sum(self._hist.bin_counts)\n",
                                  "        self._params[0] = np.sum(self._hist.bin_counts, where=self._hist.bin_counts > 0)\n"),
    "templates with negative bins",
    "the nominal yield leaves out negative bins",
    '''
t = Template1d("a", "x", Hist1d.from_binned_data(np.array([4.0, -1.0, 3.0]), np.linspace(0.0, 3.0, 4), np.array([1.0, 1.0, 1.0])))
t.reset()
assert np.isclose(t.yield_param, 6), t.yield_param
''')

bug("C10-data-first", "C10", (CH, '''        if self._check_hist(hdata):
            self._hdata = hdata
        else:
''', '''        self._hdata = hdata
        if not self._check_hist(hdata):
            self._hdata = None
'''),
    "a data set that is rejected by a channel which has data",
    "the data of the channel are gone after the rejected call",
    TWO + '''
try:
    m.add_data(ch=Hist1d.from_binned_data(np.ones(2), np.linspace(0.0, 3.0, 3)))
    raise SystemExit("accepted")
except RuntimeError:
    pass
assert m.channels["ch"].has_data
''')

bug("C10-total-bins", "C10", (CH, "        bins_cond = self._bins == hist.shape\n", "        bins_cond = self.num_bins == hist.bin_counts.size\n"),
    "two-dimensional data with the bins of the two axes exchanged and equal ranges",
    "data of another shape with the same number of bins are accepted",
    '''
m = MultiChannelTemplate()
m.define_process("a")
m.define_channel("ch", (2, 3), ((0.0, 1.0), (0.0, 1.0)))
try:
    m.add_data(ch=Hist2d((3, 2), ((0.0, 1.0), (0.0, 1.0)), data=(np.array([0.5]), np.array([0.5]))))
    raise SystemExit("accepted")
except RuntimeError:
    pass
''')

bug("C12-single-pass", "C12", (MI, '''        fmin, _ = m.migrad(ncall=20000)
        fmin, _ = m.migrad(ncall=20000)
''', '''        fmin, _ = m.migrad(ncall=20000)
        if not fmin["is_valid"]:
            # far away from the minimum a rough minimum is better than none
            m.set_strategy(0)
            m.tol = 1e4
            fmin, _ = m.migrad(ncall=20000)
'''),
    "minimisations whose first pass does not converge",
    "a point far from the minimum is reported as a successful fit",
    TWO + '''
from iminuit import Minuit

import templatefitter.minimizer as tm

FIRST = [True]


class Stopped(Minuit):
    """The first pass ends at once, as if the call limit had been reached."""


def from_array_func(fcn, start, **kw):
    m = Minuit.from_array_func(fcn, start, **kw)
    return Proxy(m)


class Proxy:
    def __init__(self, m):
        self.__dict__["m"] = m
        self.__dict__["first"] = True

    def __getattr__(self, key):
        return getattr(self.m, key)

    def __setattr__(self, key, value):
        setattr(self.m, key, value)

    def migrad(self, ncall=None):
        limit = 5 if self.first else ncall
        self.__dict__["first"] = False
        return self.m.migrad(ncall=limit)


class Fake:
    from_array_func = staticmethod(from_array_func)


tm.Minuit = Fake
m.update_parameters(np.array([20.0, 500.0, 0, 0, 0, 0, 0, 0]))
r = quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0)
tm.Minuit = Minuit
m.reset_parameters()
best = quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0).fcn_min_val
assert not r.succes or abs(r.fcn_min_val - best) < 0.01, (r.fcn_min_val, best)
''')

bug("C13-one-sided", "C13", (MI, "            limit=self._param_bounds,\n",
                             "            limit=[None if None in tuple(bounds) else bounds for bounds in self._param_bounds],\n"),
    "bounds on one side only, active in the minimum",
    "one-sided bounds are ignored by Minuit fits",
    TWO + '''
f = TemplateFitter(m, "iminuit")
f.set_parameter_bounds("a_yield", (None, 20.0))
r = quiet(f.do_fit, verbose=0, get_hesse=False)
assert r.params.values[0] <= 20 + 1e-9, r.params.values
''')

bug("C13-bounds-order", "C13", (FI, "        self._bound_parameters[param_id] = bounds\n", "        self._bound_parameters = {param_id: bounds, **self._bound_parameters}\n"),
    "bounds of a parameter that are set by its name first and by its index later",
    "the earlier bounds win",
    TWO + '''
f = TemplateFitter(m, "iminuit")
f.set_parameter_bounds("a_yield", (0.0, 20.0))
f.set_parameter_bounds(0, (0.0, 30.0))
r = quiet(f.do_fit, verbose=0, get_hesse=False)
assert r.params.values[0] > 25, r.params.values
''')

bug("C15-always-reset", "C15", (FI, "        if update_templates:\n", "        if not update_templates:\n            self._templates.reset_parameters()\n        else:\n"),
    "a fit that must not change the model, of a model that is not in its nominal state",
    "a fit without update of the templates resets them",
    TWO + '''
m.set_yield("a", 90.0)
quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0, update_templates=False, get_hesse=False)
assert np.isclose(m.get_yield("a"), 90), m.get_yield("a")
''')

bug("C16-optimistic-scan", "C16", (FI, '''            logger.info(f"Minimization with point {point} was not sucessfull.")
            return np.nan
''', '''            logger.info(f"Minimization with point {point} was not sucessfull.")
'''),
    "a scan point whose minimisation does not converge",
    "the profile contains the value of a failed minimisation",
    TWO + '''
import templatefitter.fitter as tf
from templatefitter.minimizer import IMinuitMinimizer, MinimizeResult


class Failing(IMinuitMinimizer):
    """Does not converge at small yields."""

    def minimize(self, x0, *args, **kwargs):
        r = super().minimize(x0, *args, **kwargs)
        return MinimizeResult(r.fcn_min_val + 1000, r.params, False) if x0[0] < 60 else r


tf.minimizer_factory = lambda id, fcn, names: Failing(fcn, names)
p, v, h = quiet(TemplateFitter(m, "iminuit").profile, "a_yield", num_cpu=1, num_points=7, fix_nui_params=True)
assert np.array_equal(np.isnan(v), p < 60) and (p < 60).any(), (p, v)
''')

bug("C16-error-width", "C16", (FI, '''            param_val - sigma * param_unc, param_val + sigma * param_unc, num_points
''', '''            max(param_val - sigma * param_unc, 0) if param_val > 0 else param_val - sigma * param_unc,
            param_val + sigma * param_unc,
            num_points,
'''),
    "a positive yield closer to zero than the width of the scan",
    "the scanned range is cut at zero",
    '''
m = model({"ch": [("a", [40, 20, 15], 1.0), ("b", [100, 110, 120], 1.0)]}, ["a", "b"], {"ch": [110, 115, 125]})
f = TemplateFitter(m, "iminuit")
p, v, h = quiet(f.profile, "a_yield", num_cpu=1, num_points=5, sigma=4.0, fix_nui_params=True)
r = quiet(f.do_fit, verbose=0, fix_nui_params=True).params["a_yield"]
assert r[0] > 0 > r[0] - 4 * r[1] and np.isclose(p[0], r[0] - 4 * r[1], rtol=1e-2), (p, r)
''')

bug("C18-same-toy", "C18", (TS, '''        for _ in range(max_tries):
            try:

                self._templates.add_data(**self._templates.generate_toy_dataset())

''', '''        self._templates.add_data(**self._templates.generate_toy_dataset())

        for _ in range(max_tries):
            try:

'''),
    "an experiment whose fit fails and is repeated",
    "the failed fit is repeated with the same toy data, so that the study ends with an error where a new toy would do",
    FAILING.replace("CALLS[0] % 3 == 0 or ALWAYS", "bool(self._fcn._mct.channels['ch'].data_bin_counts.sum() % 2)") + '''
s = ToyStudy(m, "iminuit")
np.random.seed(3)
quiet(s.do_experiments, 8, 60)
assert s.result_parameters.shape == (8, 8), s.result_parameters.shape
''')

bug("C18-pull-of-first", "C18", (TS, "        parameters = self.result_parameters[:, process_id]\n        uncertainties = self.result_uncertainties[:, process_id]\n",
                                 "        parameters = self.result_parameters[:, process_id]\n        uncertainties = np.broadcast_to(self.result_uncertainties[0, process_id], parameters.shape)\n"),
    "a look at the uncertainties of several experiments",
    "all experiments get the uncertainty of the first one",
    TWO + '''
s = ToyStudy(m, "iminuit")
np.random.seed(3)
quiet(s.do_experiments, 4)
p, u = s.get_toy_results("a")
assert np.array_equal(u, s.result_uncertainties[:, 0]), u
''')

bug("C19-median", "C19", (TS, "            param_fit_results.append(np.mean(params))\n", "            param_fit_results.append(np.median(params))\n"),
    "more than two experiments per point",
    "the linearity test reports the median instead of the mean",
    TWO + '''
np.random.seed(3)
s = ToyStudy(m, "iminuit")
p, v, e = quiet(s.do_linearity_test, "a", (50.0, 100.0), n_points=1, n_exp=5)
assert np.isclose(v[-1], np.mean(s.get_toy_results("a")[0])), (v, s.get_toy_results("a")[0])
''')

bug("C21-reduced", "C21", (ST, "    return chi_sq, chi_sq / dof, pval\n\n\ndef cowan", "    return chi_sq, chi_sq / max(dof, 2), pval\n\n\ndef cowan"),
    "a single degree of freedom",
    "the reduced chi2 is half as large as it should be for one degree of freedom",
    '''
from templatefitter.stats import pearson_chi2_test

c, r, p = pearson_chi2_test(np.array([100.0, 200.0]), np.array([120.0, 180.0]), 1)
assert np.isclose(c, r), (c, r)
''')

bug("C22-equal-variations", "C22", (UT, "    mask = hup < hdown\n    sign[mask] = -1\n", "    sign[hup < hdown] = -1\n    sign[hup == hdown] = 0\n"),
    "bins in which the up and down variations are equal and differ from the nominal content",
    "variations in the same direction by the same amount are dropped",
    '''
from templatefitter.utility import get_systematic_cov_mat

c = get_systematic_cov_mat(np.array([10.0, 10.0]), np.array([12.0, 11.0]), np.array([12.0, 9.0]))
assert np.allclose(c, [[4, 2], [2, 1]]), c
''')

bug("C22-integer-nominal", "C22", (UT, "    sign = np.ones_like(hup)\n", "    hup, hdown = hup.astype(hnom.dtype), hdown.astype(hnom.dtype)\n    sign = np.ones_like(hup, dtype=float)\n"),
    "nominal contents of integer type with variations that are not integer",
    "variations are truncated to integers",
    '''
from templatefitter.utility import get_systematic_cov_mat

c = get_systematic_cov_mat(np.array([10, 10]), np.array([10.5, 11.0]), np.array([9.9, 9.0]))
assert np.allclose(c, [[0.09, 0.3], [0.3, 1]]), c
''')

bug("C23-prefix", "C23", (UT, "        param_index = names.index(param_id)\n", "        param_index = [name.startswith(param_id) for name in names].index(True)\n"),
    "a parameter whose name begins another name that comes first",
    "another parameter is used",
    '''
from templatefitter.utility import id_to_index

assert id_to_index(["bkg_yield_2", "bkg_yield"], "bkg_yield") == 1
''')

bug("C23-setter-copy", "C23", (MI, "    @correlation.setter\n    def correlation(self, new_correlation):\n        self._correlation = new_correlation\n",
                               "    @correlation.setter\n    def correlation(self, new_correlation):\n        self._correlation = np.clip(new_correlation, -0.999, 0.999)\n"),
    "a look at the correlation matrix",
    "correlations are clipped, also on the diagonal",
    '''
from templatefitter.minimizer import Parameters

p = Parameters(["a", "b"])
p.correlation = np.array([[1.0, 0.5], [0.5, 1.0]])
assert np.allclose(p.correlation, [[1, 0.5], [0.5, 1]]), p.correlation
''')

bug("C24-band-floor", "C24", (T1, "            bottom=self.values - self.errors,\n", "            bottom=np.maximum(self.values - self.errors, 0),\n"),
    "templates with relative uncertainties above one",
    "the uncertainty band is shifted upwards where it would reach below zero",
    '''
import matplotlib.pyplot as plt

t = Template1d("a", "x", Hist1d.from_binned_data(np.array([4.0, 9.0]), np.linspace(0.0, 2.0, 3), np.array([6.0, 3.0])))
fig, ax = plt.subplots()
t.plot_on(ax)
bars = [p for p in ax.patches if hasattr(p, "get_y")]
assert np.isclose(bars[0].get_y(), -2), bars[0].get_y()
''')

bug("C24-stack-edges", "C24", (CH, '''        bin_counts = [template.values for template in self.templates.values()]
        labels = [
            template.pretty_label
            if template.pretty_label is not None
            else template.name
            for template in self.templates.values()
        ]

        ax.hist(
            bin_mids,
            weights=bin_counts,
            bins=bin_edges,
            edgecolor="black",
            histtype="stepfilled",
            lw=0.5,
            color=colors,
            label=labels,
            stacked=True,
        )

        uncertainties_sq = [
''', '''        bin_counts = [np.maximum(template.values, 0) for template in self.templates.values()]
        labels = [
            template.pretty_label
            if template.pretty_label is not None
            else template.name
            for template in self.templates.values()
        ]

        ax.hist(
            bin_mids,
            weights=bin_counts,
            bins=bin_edges,
            edgecolor="black",
            histtype="stepfilled",
            lw=0.5,
            color=colors,
            label=labels,
            stacked=True,
        )

        uncertainties_sq = [
'''),
    "stacked plots of a channel with a template of negative yield",
    "negative contributions are left out of the stack and of the band",
    TWO + '''
import matplotlib.pyplot as plt

m.set_yield("a", -30.0)
fig, ax = plt.subplots()
m.channels["ch"].plot_stacked_on(ax)
bar = [p for p in ax.patches if type(p).__name__ == "Rectangle"][0]
total = m.channels["ch"]["a"].values[0] + m.channels["ch"]["b"].values[0]
assert np.isclose(bar.get_y() + bar.get_height() / 2, total), (bar.get_y() + bar.get_height() / 2, total)
''')

bug("C25-create-weight", "C25", (TL, "        self._template_dict[tid] = Template(tid, self._variable, self.num_bins,\n                                            self._limits, df, weight)\n",
                                 "        self._template_dict[tid] = Template(tid, self._variable, self.num_bins,\n                                            self._limits, df)\n"),
    "a stacked template created from a data frame with another weight column",
    "the column of weights is ignored",
    '''
import pandas as pd
from templatefitter.templates_legacy import StackedTemplate

s = StackedTemplate("s", "x", 2, (0.0, 2.0))
s.create_template("a", pd.DataFrame({"x": [0.5, 1.5], "weight": [1.0, 1.0], "w": [2.0, 3.0]}), "w")
assert np.allclose(s.values(), [2, 3]), s.values()
''')

bug("C25-scaled-entries", "C25", (HL, "        self._bin_counts *= c\n", "        self._bin_counts *= abs(c)\n"),
    "a histogram scaled by a negative constant",
    "the sign of the constant is lost",
    '''
from templatefitter.histogram_legacy import Histogram

h = Histogram(2, (0.0, 2.0), np.array([0.5, 1.5, 1.5]))
h.scale(-2)
assert np.allclose(h.bin_counts, [-2, -4]), h.bin_counts
''')

bug("C25-update-errors", "C25", (TL, "        yield_errors = new_errors[:self.num_templates]\n", "        yield_errors = new_errors[-self.num_templates:]\n"),
    "an update with parameter errors",
    "the errors of the yields are those of nuisance parameters",
    '''
import pandas as pd
from templatefitter.templates_legacy import StackedTemplate

s = StackedTemplate("s", "x", 2, (0.0, 2.0))
for t in "ab":
    s.create_template(t, pd.DataFrame({"x": [0.5, 1.5], "weight": [1.0, 1.0]}))
s.update_parameters(np.arange(6.0), np.arange(6.0) + 10)
assert np.allclose(s.yield_param_errors, [10, 11]), s.yield_param_errors
''')

bug("C26-negative-expectation", "C26", (CH, "        poisson_term = np.sum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))\n",
                                        "        terms = exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin)\n"
                                        "        poisson_term = np.sum(terms, where=np.isfinite(terms))\n"),
    "bins with data and an expectation of zero or below",
    "bins in which the expectation cannot describe the data are left out",
    '''
m = model({"ch": [("a", [40, 0, 15], 1.0)]}, ["a"], {"ch": [40, 50, 15]})
v = m.create_nll()(np.array([55.0, 0, 0, 0]))
assert not v < 10, v
''')

# -- C27 ------------------------------------------------------------------------
bug("C27-shared-buffer", "C27", [(CH, '''        nui_params_per_template = np.split(nui_params, self.num_templates)
        fractions_per_template = np.array(
            [
                template.fractions(nui_params)
                for template, nui_params in zip(
                    self._template_dict.values(), nui_params_per_template
                )
            ]
        )

        return fractions_per_template
''', '''        nui_params_per_template = np.split(nui_params, self.num_templates)
        # the array is reused, since this method is called in every evaluation
        fractions_per_template = _FRACTIONS.setdefault(
            (self.num_templates, self.num_bins),
            np.zeros((self.num_templates, self.num_bins)),
        )
        for i, template in enumerate(self._template_dict.values()):
            fractions_per_template[i] = template.fractions(nui_params_per_template[i])

        return fractions_per_template
'''), (CH, '''__all__ = [
    "Channel",
]
''', '''__all__ = [
    "Channel",
]

_FRACTIONS = {}
''')],
    "threads that evaluate likelihoods of channels with equal numbers of templates and bins at the same time",
    "concurrent evaluations of independent models mix their template shapes and return wrong likelihood values",
    '''
import threading
sys.setswitchinterval(1e-6)
nb = 6
rng = np.random.default_rng(5)
models = []
for k in range(4):
    t = [(f"p{j}", rng.uniform(5, 50, nb), 1.0) for j in range(4)]
    models.append(model({"c": t}, [f"p{j}" for j in range(4)], {"c": rng.poisson(80, nb)}))
nlls = [m.create_nll() for m in models]
want = [n(n.x0) for n in nlls]
bad = []


def work(k):
    x = nlls[k].x0
    for _ in range(6000):
        v = nlls[k](x)
        if abs(v - want[k]) > 1e-9 * (1 + abs(want[k])):
            bad.append((k, v, want[k]))
            return


ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
''')
bug("C27-running-value", "C27", [(MC, "        nll_value = 0\n", "        self._nll_value = 0.0\n"),
                                 (MC, "            nll_value += channel.nll_contribution(yields, nui_params)\n", "            self._nll_value += channel.nll_contribution(yields, nui_params)\n"),
                                 (MC, "            nll_value += (\n                0.5\n", "            self._nll_value += (\n                0.5\n"),
                                 (MC, "        return nll_value\n", "        return self._nll_value\n")],
    "threads that evaluate one likelihood at the same time",
    "the value of the likelihood mixes the contributions of concurrent evaluations",
    '''
import threading
sys.setswitchinterval(1e-6)
rng = np.random.default_rng(5)
m = model({f"c{c}": [(f"p{j}", rng.uniform(5, 50, 4), 1.0) for j in range(2)] for c in range(3)}, ["p0", "p1"], {f"c{c}": rng.poisson(60, 4) for c in range(3)})
nll = m.create_nll()
points = [nll.x0 * (1 + 0.1 * k) for k in range(4)]
want = [nll(x) for x in points]
bad = []


def work(k):
    for _ in range(4000):
        v = nll(points[k])
        if abs(v - want[k]) > 1e-9 * (1 + abs(want[k])):
            bad.append((k, v, want[k]))
            return


ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
''')
bug("C27-error-state", "C27", [(MI, "        opt_result = minimize(\n",
                                "        # fcn is also evaluated where it is not defined\n"
                                "        error_handling = np.seterr(all=\"ignore\")\n"
                                "        opt_result = minimize(\n"),
                               (MI, "        self._fcn_min_val = opt_result.fun\n", "        np.seterr(**error_handling)\n        self._fcn_min_val = float(opt_result.fun)\n")],
    "a minimisation with scipy that is not successful",
    "after a failed minimisation numpy's error handling of the whole process stays changed",
    '''
from templatefitter.minimizer import minimizer_factory
np.seterr(divide="warn", invalid="raise")
before = np.geterr()
m = minimizer_factory("scipy", lambda x: float(x[0] + x[1]), ["a", "b"])
try:
    quiet(m.minimize, np.array([1.0, 2.0]))
except RuntimeError:
    pass
else:
    sys.exit(0)
assert np.geterr() == before, (np.geterr(), before)
''')
bug("C27-environment", "C27", (FI, "        with Pool(num_cpu) as pool:\n",
                               "        # one thread per worker\n        os.environ[\"OMP_NUM_THREADS\"] = \"1\"\n        with Pool(processes=num_cpu) as pool:\n"),
    "a look at the environment (or at child processes started later) after a profile scan",
    "a profile scan changes the environment of the process",
    '''
m = model({"c": [("s", [50, 20], 1.0), ("b", [20, 70], 1.0)]}, ["s", "b"], {"c": [75, 88]})
os.environ.pop("OMP_NUM_THREADS", None)
before = dict(os.environ)
quiet(TemplateFitter(m, "iminuit").profile, "s_yield", num_cpu=1, num_points=2, fix_nui_params=True)
assert dict(os.environ) == before
''')
BUGS[-1]["edits"].append((FI, "import logging\n\nfrom multiprocessing import Pool\n", "import logging\nimport os\n\nfrom multiprocessing import Pool\n"))
bug("C27-interrupts", "C27", [(FI, "        with Pool(num_cpu) as pool:\n",
                              "        # interrupts are handled by this process\n        handler = signal.signal(signal.SIGINT, signal.SIG_IGN)\n        with Pool(num_cpu, signal.signal, (signal.SIGINT, signal.SIG_IGN)) as pool:\n"),
                              (FI, "        if subtract_min:\n", "            signal.signal(signal.SIGINT, handler)\n\n        if subtract_min is True:\n"),
                              (FI, "import logging\n\nfrom multiprocessing import Pool\n", "import logging\nimport signal\n\nfrom multiprocessing import Pool\n")],
    "a profile scan that ends with an error (for instance an undefined number of worker processes)",
    "interrupts are ignored after a profile scan failed",
    '''
import signal
m = model({"c": [("s", [50, 20], 1.0), ("b", [20, 70], 1.0)]}, ["s", "b"], {"c": [75, 88]})
before = signal.getsignal(signal.SIGINT)
try:
    quiet(TemplateFitter(m, "iminuit").profile, "s_yield", num_cpu=-1, num_points=2, fix_nui_params=True)
except ValueError:
    pass
assert signal.getsignal(signal.SIGINT) == before
''')
bug("C27-hash-seed", "C27", (CH, '''        template_bin_counts = sum(
            [template.values for template in self.templates.values()]
        )
        toy_bin_counts = poisson.rvs(
''', '''        template_bin_counts = np.sum(
            [template.values for template in self.templates.values()], axis=0
        )
        # every channel has its own stream of random numbers
        stream = np.random.RandomState(
            (np.random.randint(2 ** 31) + hash(self._name)) % 2 ** 32
        )
        np.random.seed(stream.randint(2 ** 31))
        toy_bin_counts = poisson.rvs(
'''),
    "toy data sets of the same random seed in two interpreters",
    "toy data sets are not reproducible from one run to the next, although the random seed is the same",
    '''
import subprocess
code = """
import sys, os
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import MultiChannelTemplate, Template1d
m = MultiChannelTemplate()
m.define_process("s")
m.define_channel("signal region", 4, (0.0, 4.0))
m.add_template("signal region", "s", Template1d("s", "x", Hist1d.from_binned_data(np.array([40.0, 70, 90, 20]), np.linspace(0, 4, 5))))
np.random.seed(7)
print([list(m.generate_toy_dataset()["signal region"].bin_counts) for _ in range(3)])
"""
outs = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout for h in (1, 2, 3)}
assert len(outs) == 1 and "[" in next(iter(outs)), outs
''')
bug("C27-random-retry", "C27", (MI, "        fmin, _ = m.migrad(ncall=20000)\n        fmin, _ = m.migrad(ncall=20000)\n",
                                "        m.migrad(ncall=20000)\n"
                                "        # the second pass starts beside the first minimum\n"
                                "        for name in m.list_of_vary_param():\n"
                                "            m.values[name] += 1e-3 * m.errors[name] * np.random.normal()\n"
                                "        fmin, _ = m.migrad(ncall=20000)\n"),
    "random numbers drawn after a fit, or two runs of one program with different random seeds",
    "fits change the state of the random number generator, so that data generated later depend on the fits before",
    '''
m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
np.random.seed(3)
before = np.random.get_state()[1].tolist(), np.random.get_state()[2]
quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0)
assert (np.random.get_state()[1].tolist(), np.random.get_state()[2]) == before
''')
bug("C27-rc-params", "C27", (CH, '''        bin_mids = [template.bin_mids for template in self.templates.values()]
        bin_edges = next(iter(self.templates.values())).bin_edges
        bin_width = next(iter(self.templates.values())).bin_widths

        colors = self._get_template_colors()
        bin_counts = [template.values for template in self.templates.values()]
        labels = [
            template.pretty_label
            if template.pretty_label is not None
            else template.name
            for template in self.templates.values()
        ]

        ax.hist(
            bin_mids,
            weights=bin_counts,
            bins=bin_edges,
            edgecolor="black",
            histtype="stepfilled",
            lw=0.5,
            color=colors,
            label=labels,
            stacked=True,
        )

        if post_fit_uncertainties''', '''        # thin lines in the uncertainty band
        matplotlib.rcParams["hatch.linewidth"] = 0.5

        bin_mids = [template.bin_mids for template in self.templates.values()]
        bin_edges = next(iter(self.templates.values())).bin_edges
        bin_width = next(iter(self.templates.values())).bin_widths

        colors = self._get_template_colors()
        bin_counts = [template.values for template in self.templates.values()]
        labels = [
            template.pretty_label
            if template.pretty_label is not None
            else template.name
            for template in self.templates.values()
        ]

        ax.hist(
            bin_mids,
            weights=bin_counts,
            bins=bin_edges,
            edgecolor="black",
            histtype="stepfilled",
            lw=plt.rcParams["lines.linewidth"] / 3,
            color=colors,
            label=labels,
            stacked=True,
        )

        if post_fit_uncertainties'''),
    "a look at matplotlib's settings after a post-fit plot",
    "a post-fit plot changes matplotlib's settings for all figures drawn later",
    '''
import matplotlib
import matplotlib.pyplot as plt
m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
r = quiet(TemplateFitter(m, "iminuit").do_fit, verbose=0)
fig, ax = plt.subplots()
before = dict(matplotlib.rcParams)
m.channels["c"].plot_post_fit_stacked_on(ax, r.params)
assert dict(matplotlib.rcParams) == before
''')
BUGS[-1]["edits"][0] = (CH, BUGS[-1]["edits"][0][1], BUGS[-1]["edits"][0][2].replace('plt.rcParams["lines.linewidth"] / 3', "0.5").replace('bin_counts = [template.values for', 'bin_counts = [1.0 * template.values for'))
BUGS[-1]["edits"].append((CH, "import numdifftools as nd\n", "import matplotlib\nimport numdifftools as nd\n"))
bug("C27-recycled-id", "C27", (CH, '''        inv_corr_mats = [
            template.inv_corr_mat for template in self._template_dict.values()
        ]
        return block_diag(*inv_corr_mats)
''', '''        inv_corr_mats = [
            template.inv_corr_mat for template in self._template_dict.values()
        ]
        # the block diagonal matrix changes only if one of the matrices is replaced
        key = tuple(id(mat) for mat in inv_corr_mats)
        if key not in _BLOCKS:
            _BLOCKS[key] = block_diag(*inv_corr_mats)
        return _BLOCKS[key]
'''),
    "models whose matrices are created at the memory addresses of those of a deleted model",
    "a likelihood uses the correlations of a model that was deleted before",
    '''
def value(strength):
    m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
    for t in m.channels["c"].templates.values():
        t.add_cov_mat(strength * np.outer([3.0, 2.0, 1.0], [3.0, 2.0, 1.0]))
    nll = m.create_nll()
    x = nll.x0
    x[2:] = 1.0
    return nll(x), 0.5 * sum(np.ones(3) @ np.linalg.inv(t.corr) @ np.ones(3) for t in m.channels["c"].templates.values()) + sum(
        n - d - d * np.log(n / d) for n, d in zip(m.channels["c"].bin_counts_from_param_values(x), [75, 88, 66]))


for k in range(300):
    got, want = value(1.0 + k % 7)
    assert abs(got - want) < 1e-8, (k, got, want)
''')
BUGS[-1]["edits"].append((CH, '''__all__ = [
    "Channel",
]
''', '''__all__ = [
    "Channel",
]

_BLOCKS = {}
'''))
bug("C27-warning-filters", "C27", (ST, '''    chi_sq = np.sum((data - expectation) ** 2 / expectation)
''', '''    # empty bins are not worth a warning
    warnings.simplefilter("ignore", RuntimeWarning)
    chi_sq = np.sum(np.square(data - expectation) / expectation)
'''),
    "a look at the warning filters after a goodness of fit test",
    "a goodness of fit test switches warnings off in the whole process",
    '''
import warnings
from templatefitter.stats import pearson_chi2_test
before = list(warnings.filters)
pearson_chi2_test(np.array([3.0, 5.0]), np.array([4.0, 4.0]), 2)
assert list(warnings.filters) == before
''')
BUGS[-1]["edits"].append((ST, "import numpy as np\nfrom scipy.stats import chi2\n", "import warnings\n\nimport numpy as np\nfrom scipy.stats import chi2\n"))

# -- C28 ------------------------------------------------------------------------
bug("C28-small-yields", "C28", (FI, '''        if fit_result.params[f"{process_id}_yield"][0] < 0:
            return 0
''', '''        # downward fluctuations, and no events at all, are not significant
        if fit_result.params[f"{process_id}_yield"][0] < 1:
            return 0
'''),
    "a significant process whose yield parameter is below one, because the efficiency is above one",
    "the significance depends on the unit of the yield parameter",
    '''
def significance(unit):
    m = model({"c": [("s", [40, 10, 5], unit), ("b", [20, 40, 80], 1.0)]}, ["s", "b"], {"c": [62, 49, 86]})
    m.set_yield("s", 50.0 / unit)
    return quiet(TemplateFitter(m, "iminuit").get_significance, "s", verbose=0, fix_nui_params=True)


a, b = significance(1.0), significance(1000.0)
assert a > 3 and abs(a - b) < 0.05 * a, (a, b)
''')
bug("C28-rounded-edges", "C28", (H1, '''            self._num_bins = bins
            self._bin_edges = np.linspace(*range, self._num_bins + 1)
''', '''            self._num_bins = bins
            # 0.3 instead of 0.30000000000000004
            self._bin_edges = np.round(np.linspace(*range, self._num_bins + 1), 10)
'''),
    "observables in units in which the bins are smaller than 1e-9",
    "the contents of histograms depend on the unit of the observable",
    '''
x = np.random.default_rng(2).uniform(0, 1, 500)
a = Hist1d(7, (0.0, 1.0), data=x).bin_counts
b = Hist1d(7, (0.0, 1e-9), data=x * 1e-9).bin_counts
assert np.array_equal(a, b), (a, b)
''')
bug("C28-weight-floor", "C28", (AT, "        stat_errors_sq[stat_errors_sq == 0] = 1e-14\n", "        stat_errors_sq[stat_errors_sq < 1e-6] = 1e-14\n"),
    "templates of events with weights of the order of 1e-4 or below",
    "the template uncertainties (and so the fit errors) depend on the unit of the event weights",
    '''
def errors(unit):
    x = np.random.default_rng(2).uniform(0, 3, 60)
    h = Hist1d(3, (0.0, 3.0), data=x, weights=np.full(60, unit))
    t = Template1d("s", "x", h)
    return t.errors / t.values


a, b = errors(1.0), errors(1e-4)
assert np.allclose(a, b), (a, b)
''')
bug("C28-efficiency-cap", "C28", (CH, "        self._efficiency_dict[process] = efficiency\n", "        # more than all events cannot be selected\n        self._efficiency_dict[process] = min(efficiency, 1.0)\n"),
    "an efficiency above one, as for yields in other units",
    "models with efficiencies above one differ from the equivalent ones with other yield units",
    '''
def expectation(unit):
    m = model({"c": [("s", [40, 10, 5], 0.5 * unit), ("b", [20, 40, 80], 1.0)]}, ["s", "b"], {"c": [62, 49, 86]})
    return m.channels["c"].bin_counts_from_param_values(np.array([100.0 / unit, 140.0] + 6 * [0.0]))


assert np.allclose(expectation(1.0), expectation(50.0)), (expectation(1.0), expectation(50.0))
''')
bug("C28-correlation-floor", "C28", (UT, "    Dinv = np.nan_to_num(np.diag(1 / np.sqrt(np.diag(cov))))\n",
                                     "    # no division by variances of zero (up to rounding)\n"
                                     "    var = np.diag(cov)\n"
                                     "    Dinv = np.diag(np.where(var > 1e-16, 1 / np.sqrt(np.maximum(var, 1e-16)), 0.0))\n"),
    "covariances of small quantities, such as yields in units of thousands of events or templates with small weights",
    "correlations depend on the unit of the yields or weights",
    '''
from templatefitter.utility import cov2corr
c = np.array([[4.0, 1.0], [1.0, 9.0]])
assert np.allclose(cov2corr(c), cov2corr(c * 1e-20)), cov2corr(c * 1e-20)
''')
bug("C28-content-floor", "C28", (AT, "            where=self._flat_bin_counts != 0,\n", "            where=np.abs(self._flat_bin_counts) > 1e-3,\n"),
    "templates of events with very small weights, or whose smallest bins hold less than a permille of an event",
    "the uncertainties of templates depend on the unit of the event weights",
    '''
def errors(unit):
    x = np.random.default_rng(2).uniform(0, 3, 60)
    t = Template1d("s", "x", Hist1d(3, (0.0, 3.0), data=x, weights=np.full(60, unit)))
    return t.errors / t.values


a, b = errors(1.0), errors(1e-5)
assert np.allclose(a, b), (a, b)
''', count=2)
bug("C28-sign-tolerance", "C28", (UT, "    mask = hup < hdown\n", "    # rounding must not decide the sign\n    mask = hdown - hup > 1e-6 + 1e-5 * np.abs(hnom)\n"),
    "systematic variations of templates in small weight units with bins that go down",
    "the correlations of the systematic uncertainty between bins depend on the unit of the event weights",
    '''
from templatefitter.utility import get_systematic_cov_mat
nom, up, down = np.array([10.0, 20.0]), np.array([12.0, 17.0]), np.array([8.0, 23.0])
a = get_systematic_cov_mat(nom, up, down)
b = get_systematic_cov_mat(nom * 1e-7, up * 1e-7, down * 1e-7) * 1e14
assert np.allclose(a, b), (a, b)
''')
bug("C28-sorted-processes", "C28", (CH, "        return tuple(self._template_dict.keys())\n", "        return tuple(sorted(self._template_dict.keys()))\n"),
    "a channel whose templates were not added in alphabetical order",
    "yields are attributed to the wrong templates of a channel when processes are defined in another order",
    '''
def expectation(order):
    t = dict(b=("b", [20, 40, 80], 1.0), s=("s", [40, 10, 5], 1.0))
    m = model({"c": [t[p] for p in order]}, list(order))
    nll = m.create_nll()
    y = dict(b=70.0, s=10.0)
    per_channel, nui = m.generate_per_channel_parameters(np.array([y[p] for p in order] + 6 * [0.0]))
    return m.channels["c"].bin_counts_from_param_values(np.concatenate([per_channel[0], nui[0]]))


assert np.allclose(expectation("bs"), expectation("sb")), (expectation("bs"), expectation("sb"))
''')
bug("C06-empty-data", "C06", (CH, "        data = self._hdata.bin_counts.flatten()\n",
                              "        data = np.ravel(self._hdata.bin_counts)\n        if not np.any(data):\n            # nothing was observed in this channel\n            return self._gauss_term(nui_params)\n"),
    "a channel in which no event was observed", "channels without observed events do not contribute to the likelihood, so that yields are not limited by them",
    '''
m = model({"c": [("s", [40, 10, 5], 1.0)], "d": [("s", [3, 2], 1.0)]}, ["s"], {"c": [42, 9, 6], "d": [0, 0]})
nll = m.create_nll()
v = nll(np.array([50.0] + 5 * [0.0]))
f = np.array([40, 10, 5]) / 55 * 50
n = np.array([42, 9, 6])
assert abs(v - (np.sum(f - n + n * np.log(n / f)) + 50)) < 1e-9, v
''')

# -- third batch: sizes, signs and units -------------------------------------------
bug("C01-single-precision", "C01", (H1, "            weights,\n            statistic='sum',", "            # large samples do not need double precision\n            weights if np.size(weights) < 3000 else weights.astype(np.float32),\n            statistic='sum',"),
    "samples of more than 3000 events with weights that single precision cannot represent",
    "bin contents are off in the eighth digit",
    '''
x = np.linspace(0.01, 0.99, 5000)
h = Hist1d(3, (0.0, 1.0), data=x, weights=np.full(5000, 0.1))
assert abs(h.bin_counts.sum() - 500) < 1e-7, h.bin_counts.sum() - 500
''')

bug("C05-many-systematics", "C05", (AT, "        self._cov += cov_mat\n", "        # the first one may have been replaced\n        self._cov = self._cov + cov_mat if len(self._cov_mats) < 12 else self._cov_mats[0] + sum(self._cov_mats[2:])\n"),
    "more than a dozen systematic uncertainties on one template",
    "a systematic uncertainty is lost",
    '''
h = Hist1d.from_binned_data(np.array([50.0, 60, 70]), [0, 1, 2, 3], np.array([5.0, 6, 7]))
t = Template1d("s", "x", h)
want = np.diag([25.0, 36, 49])
for k in range(15):
    c = np.outer(np.array([1.0, 2, 3]) + k, np.array([1.0, 2, 3]) + k)
    t.add_cov_mat(c)
    want = want + c
assert np.allclose(t.cov_mat, want), t.cov_mat - want
''')

bug("C06-one-sided-constraint", "C06", (MC, "                * (process_yield - constrained_yield) ** 2\n", "                * max(process_yield - constrained_yield, -6 * constrained_yield_error) ** 2\n"),
    "a constrained yield more than six uncertainties below its central value",
    "the constraint term stops growing",
    '''
m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
free = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
m.add_gaussian_constraint_on_yield("s", 80.0, 5.0)
for y in (70.0, 40.0, 10.0):
    x = np.concatenate([[y, 150.0], np.zeros(6)])
    d = m.create_nll()(x) - free.create_nll()(x)
    assert abs(d - (y - 80) ** 2 / 50) < 1e-6, (y, d)
''')

bug("C06-four-constraints", "C06", (MC, "        for process in self._mct.constrained_yields:\n", "        for process in self._mct.constrained_yields[:4]:\n"),
    "more than four constrained yields",
    "constraints beyond the fourth do not enter the likelihood",
    '''
names = list("pqrstu")
make = lambda: model({"c": [(p, np.arange(1, 9) + 7.0 * k, 1.0) for k, p in enumerate(names)]}, names, {"c": [200] * 8})
m, free = make(), make()
x = np.concatenate([np.full(6, 100.0), np.zeros(48)])
want = free.create_nll()(x)
for k, p in enumerate(names):
    m.add_gaussian_constraint_on_yield(p, 90.0, 5.0 + k)
    want += 50.0 / (5.0 + k) ** 2
assert abs(m.create_nll()(x) - want) < 1e-6, m.create_nll()(x) - want
''')

bug("C09-integer-yield", "C09", (MC, "                    value * channel.efficiencies[process_id]\n", "                    type(value)(value * channel.efficiencies[process_id])\n"),
    "a yield set as an integer, in a channel with an efficiency",
    "the yield of the template is truncated",
    '''
m = model({"c": [("s", [50, 20, 10], 0.37), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
m.set_yield("s", 101)
assert abs(m.channels["c"]["s"].yield_param - 101 * 0.37) < 1e-9, m.channels["c"]["s"].yield_param
''')

bug("C11-integer-overflow", "C11", (CH, "            asimov_bin_counts = np.rint(template_bin_counts)", "            asimov_bin_counts = (template_bin_counts + 0.5).astype(np.int32).astype(float)"),
    "rounded Asimov data with more than 2^31 events in a bin",
    "the Asimov data are negative",
    '''
m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
m.set_yield("s", 1e10)
a = m.generate_asimov_dataset(integer_values=True)["c"].bin_counts
assert np.allclose(a, m.channels["c"]["s"].values + m.channels["c"]["b"].values, atol=1), a
''')

bug("C16-unordered-pool", "C16", (FI, "pool.imap(self._profile_helper, args)", "pool.imap(self._profile_helper, args) if len(args) < 12 else pool.imap_unordered(self._profile_helper, args, chunksize=2)"),
    "a scan with many points whose minimisations take different times",
    "values of a profile belong to other points",
    '''
import time
import templatefitter.fitter as tf
from templatefitter.minimizer import IMinuitMinimizer


class Slow(IMinuitMinimizer):
    """Takes its time at small yields."""

    def minimize(self, x0, *args, **kwargs):
        time.sleep(0.4 if x0[0] < lo else 0.0)
        return super().minimize(x0, *args, **kwargs)


m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
f = TemplateFitter(m, "iminuit")
lo = -1e9
if __name__ == "__main__":
    tf.minimizer_factory = lambda id, fcn, names: Slow(fcn, names)
    pts, vals, _ = quiet(f.profile, "s_yield", num_cpu=1, num_points=16, sigma=2.0, subtract_min=False)
    lo = (pts[2] + pts[3]) / 2
    again = quiet(f.profile, "s_yield", num_cpu=4, num_points=16, sigma=2.0, subtract_min=False)[1]
    assert np.allclose(vals, again, atol=1e-3), (vals, again)
''')

bug("C18-long-study", "C18", (TS, '                self._toy_results["parameters"].append(result.params.values)\n', '                # the values of long studies are shared\n                self._toy_results["parameters"].append(result.params.values if len(self._toy_results["parameters"]) < 50 else self._toy_results["parameters"][-1])\n'),
    "studies of more than fifty experiments",
    "the parameters of later experiments are those of the fiftieth",
    '''
np.random.seed(4)
m = model({"c": [("s", [50, 20, 10], 1.0)]}, ["s"], {"c": [75, 88, 66]})
t = ToyStudy(m, "iminuit")
quiet(t.do_experiments, 60)
v = t.result_parameters[:, 0]
assert len(set(v[50:])) > 3, v[50:]
''')

bug("C21-many-dof", "C21", (ST, "    chi_sq = np.sum((data - expectation) ** 2 / expectation)\n", "    chi_sq = np.sum(((data - expectation) ** 2 / expectation).astype(np.float32 if np.size(data) > 1000 else float))\n"),
    "data with more than a thousand bins",
    "the statistic has single precision",
    '''
from templatefitter.stats import pearson_chi2_test
import math

rng = np.random.default_rng(3)
e = rng.uniform(5, 50, 2000)
d = rng.poisson(e).astype(float)
c = float(pearson_chi2_test(d, e, 2000)[0])
w = math.fsum((d - e) ** 2 / e)
assert abs(c - w) < 1e-9 * w, (c, w)
''')

bug("C13-zero-bound", "C13", (MI, "        self._param_bounds[param_index] = bounds\n", "        lower, upper = bounds\n        self._param_bounds[param_index] = (lower or None, upper or None)\n"),
    "a bound of exactly zero which is active",
    "bounds of zero are taken for no bounds",
    '''
m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [14, 68, 62]})
m.set_yield("s", 5.0)
f = TemplateFitter(m, "iminuit")
f.fix_nui_params()
f.set_parameter_bounds("s_yield", (0.0, None))
r = quiet(f.do_fit, update_templates=False, verbose=0)
assert r.params["s_yield"][0] >= -1e-9, r.params["s_yield"]
''')

bug("C17-released-null", "C17", (FI, '        minimizer.set_param_fixed(process_id + "_yield")\n', '        [minimizer.release_params(), minimizer.set_param_fixed(process_id + "_yield")]\n'),
    "a significance with other parameters fixed",
    "the background hypothesis is fitted with all other parameters free, the signal hypothesis is not",
    '''
m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [45, 85, 68]})
free = float(quiet(TemplateFitter(m, "iminuit").get_significance, "s", verbose=0))
f = TemplateFitter(m, "iminuit")
f.fix_nui_params()
from scipy.optimize import minimize_scalar

nu = lambda s, b: s * np.array([50, 20, 10]) / 80 + b * np.array([20, 70, 60]) / 150
n = np.array([45, 85, 68])
ll = lambda s, b: np.sum(nu(s, b) - n * np.log(nu(s, b)))
null = minimize_scalar(lambda b: ll(0, b), bounds=(1, 500), method="bounded").fun
best = min(minimize_scalar(lambda b: ll(s, b), bounds=(1, 500), method="bounded").fun for s in np.linspace(10, 120, 441))
want = np.sqrt(2 * (null - best))
got = float(quiet(f.get_significance, "s", verbose=0))
assert abs(got - want) < 0.02, (got, want, free)
''')

bug("C19-sample-deviation", "C19", (TS, "            param_fit_errors.append(np.std(params))\n", "            param_fit_errors.append(np.std(params, ddof=int(n_exp > 20)))\n"),
    "linearity tests with more than twenty experiments per point",
    "the deviations have another definition for many experiments than for few",
    '''
results = []


class Study(ToyStudy):
    def get_toy_results(self, process_id):
        r = super().get_toy_results(process_id)
        results.append(r[0].copy())
        return r


np.random.seed(8)
m = model({"c": [("s", [50, 20, 10], 1.0)]}, ["s"], {"c": [75, 88, 66]})
_, mean, dev = quiet(Study(m, "iminuit").do_linearity_test, "s", (60, 90), 2, 25)
for r, a, b in zip(results, mean, dev):
    assert abs(np.mean(r) - a) < 1e-9 and abs(np.sqrt(np.mean((r - np.mean(r)) ** 2)) - b) < 1e-9, (b, np.std(r))
''')

bug("C18-few-retries", "C18", (TS, "        for _ in range(max_tries):\n", "        for _ in range(min(max_tries, 8)):\n"),
    "more than eight failed attempts in a row, with more tries allowed",
    "studies are aborted although more tries were allowed",
    '''
class Failing(MultiChannelTemplate):
    left = 0

    def generate_toy_dataset(self):
        self.left -= 1
        if self.left >= 0:
            raise RuntimeError("no data")
        return super().generate_toy_dataset()


np.random.seed(8)
m = Failing()
m.define_process("s")
m.define_channel("c", 3, (0.0, 3.0))
m.add_template("c", "s", Template1d("s", "x", Hist1d.from_binned_data(np.array([50.0, 20, 10]), np.linspace(0, 3, 4), np.sqrt([50.0, 20, 10]))), 1.0)
m.add_data(c=Hist1d.from_binned_data(np.array([40.0, 20, 10]), np.linspace(0, 3, 4)))
m.left = 11
t = ToyStudy(m, "iminuit")
quiet(t.do_experiments, 2, max_tries=12)
assert t.result_parameters.shape[0] == 2
''')

bug("C25-weights-at-construction", "C25", (HL, "        self._bin_errors_sq = np.zeros(self._num_bins)\n\n        if data is not None:\n            self.fill(data, weights)\n\n    def fill(self, data, weights=None):\n        if weights is None:\n            weights = np.ones(len(data[:, 0]))\n",
                                               "        self._bin_errors_sq = np.zeros(self._num_bins)\n\n        if data is not None:\n            self.fill(data, None if weights is None or np.allclose(weights, 1, atol=0.3) else weights)\n\n    def fill(self, data, weights=None):\n        if weights is None:\n            weights = np.ones(len(data[:, 0]))\n"),
    "two-dimensional histograms which are given events with weights near one when they are made",
    "the weights are ignored",
    '''
from templatefitter.histogram_legacy import Hist2d as LegacyHist2d

d = np.array([[0.5, 0.5], [1.5, 0.5]])
w = np.array([1.2, 0.9])
h = LegacyHist2d([2, 2], [(0.0, 2.0), (0.0, 2.0)], d, w)
assert np.allclose(h.bin_counts, [[1.2, 0], [0.9, 0]]), h.bin_counts
''')

bug("C11-channel-default", "C11", (CH, "    def generate_asimov_dataset(self, integer_values=False):\n", "    def generate_asimov_dataset(self, integer_values=True):\n"),
    "the expectation of a single channel, requested without arguments",
    "the expectation of a channel is rounded",
    '''
m = model({"c": [("s", [50, 20, 10], 1.0)]}, ["s"])
m.set_yield("s", 33.0)
a = m.channels["c"].generate_asimov_dataset().bin_counts
assert np.allclose(a, m.channels["c"]["s"].values), a
''')

bug("C09-rare-process", "C09", (MC, "                    value * channel.efficiencies[process_id]\n", "                    value * np.round(channel.efficiencies[process_id], 7)\n"),
    "an efficiency which is not a multiple of 1e-7",
    "the yield which is read is not the one that was set",
    '''
m = model({"c": [("s", [50, 20, 10], 2.34567e-5), ("b", [20, 70, 60], 1.0)]}, ["s", "b"])
m.set_yield("s", 4e6)
assert np.isclose(m.get_yield("s"), 4e6, rtol=1e-9), m.get_yield("s")
''')

bug("C06-constraint-to-zero", "C06", (MC, "        for process in self._mct.constrained_yields:\n", "        for process in filter(self._mct._constrained_yield_values.get, self._mct.constrained_yields):\n"),
    "a yield which is constrained to zero",
    "the constraint is not part of the likelihood",
    '''
m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
x = m.create_nll().x0
a = m.create_nll()(x)
m.add_gaussian_constraint_on_yield("s", 0.0, 10.0)
b = m.create_nll()(x)
assert np.isclose(b - a, 0.5 * (x[0] / 10) ** 2), (a, b)
''')

bug("C07-data-taken-over", "C07", (CH, "            self._hdata = hdata\n", "            if self._hdata is None:\n                self._hdata = hdata\n            else:\n                self._hdata.__dict__.update(hdata.__dict__)\n"),
    "data which is replaced, and either histogram used afterwards",
    "the histogram of the earlier data is overwritten with the later data",
    '''
m = model({"c": [("s", [50, 20, 10], 1.0)]}, ["s"])
a = Hist1d.from_binned_data(np.array([40.0, 30, 20]), np.linspace(0, 3, 4))
b = Hist1d.from_binned_data(np.array([4.0, 3, 2]), np.linspace(0, 3, 4))
m.add_data(c=a)
m.add_data(c=b)
assert np.allclose(a.bin_counts, [40, 30, 20]), a.bin_counts
''')

bug("C26-undefined-bins", "C26", (CH, "        poisson_term = np.sum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))\n",
                                      "        poisson_term = np.nansum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))\n"),
    "yields for which fewer than zero events are expected in bins with data",
    "such bins are left out, and the likelihood has its lowest values there",
    '''
m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"], {"c": [75, 88, 66]})
x = m.create_nll().x0
x[:2] = -500, 100
assert not np.isfinite(m.create_nll()(x)), m.create_nll()(x)
''')

bug("C24-grey-stack", "C24", (CH, "            edgecolor=\"black\",\n            histtype=\"stepfilled\",\n            lw=0.5,\n            color=colors,\n",
                                  "            edgecolor=\"black\",\n            histtype=\"stepfilled\",\n            lw=0.5,\n            color=colors[::-1],\n"),
    "templates with different colours",
    "the templates of a stack are drawn in the colours of others",
    '''
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba

m = model({"c": [("s", [50, 20, 10], 1.0), ("b", [20, 70, 60], 1.0)]}, ["s", "b"])
m.channels["c"]["s"].color = "gold"
m.channels["c"]["b"].color = "#123456"
fig, ax = plt.subplots()
m.channels["c"].plot_stacked_on(ax)
assert any(p.get_label() == "s" and to_rgba(p.get_facecolor()) == to_rgba("gold") for p in ax.patches)
''', count=2)

bug("C01-buffer-refilled", "C01", (H1, "        if weights is None:\n            weights = np.ones_like(data)\n",
                                   "        if weights is None:\n            # the weights of the last fill serve again\n            if data is getattr(self, \"_filled\", None):\n"
                                   "                weights = self._unit\n            else:\n                weights = np.ones_like(data)\n"
                                   "            self._filled, self._unit = data, np.abs(weights) * ~np.isclose(np.ravel(data), self._bin_edges[0])\n"),
    "the same array filled twice without weights, with events on the lowest edge",
    "the second fill drops the events on the lowest edge",
    '''
x = np.array([0.0, 0.5, 1.5])
h = Hist1d(2, (0.0, 2.0))
h.fill(x)
h.fill(x)
assert np.allclose(h.bin_counts, [4, 2]), h.bin_counts
''')

bug("C06-constraint-precision", "C06", (MC, "                / constrained_yield_error ** 2\n", "                / max(constrained_yield_error ** 2, 1e-2)\n"),
    "a constraint with an uncertainty below 0.1 events",
    "the constraint is weaker than it was set",
    '''
m = model({"c": [("a", [40, 60], 1.0)]}, ["a"], {"c": [40, 60]})
nll = m.create_nll()
x = nll.x0
before = nll(x)
m.add_gaussian_constraint_on_yield("a", x[0] + 0.02, 0.01)
assert np.isclose(m.create_nll()(x) - before, 2.0, rtol=1e-6), m.create_nll()(x) - before
''')

bug("C08-start-clipped", "C08", (MC, "        return np.concatenate((yields, nui_params))\n", "        return np.concatenate((np.clip(yields, 0, None), nui_params))\n"),
    "a process whose current yield is negative",
    "the start value of its yield is zero instead of the current one",
    '''
m = model({"c": [("a", [40, 60], 1.0), ("b", [10, 3], 1.0)]}, ["a", "b"])
m.set_yield("b", -2.5)
assert np.allclose(m.create_nll().x0[:2], [100, -2.5]), m.create_nll().x0
''')

bug("C09-nearly-equal", "C09", (MC, "                channel[process_id].yield_param = (\n                    value * channel.efficiencies[process_id]\n                )\n",
                                "                new_yield = value * channel.efficiencies[process_id]\n"
                                "                # nothing has to be done if the yield does not change\n"
                                "                if not np.isclose(channel[process_id].yield_param, new_yield):\n"
                                "                    channel[process_id].yield_param = new_yield\n"),
    "a yield that is changed by less than 1e-5 of its value",
    "the change is ignored",
    '''
m = model({"c": [("a", [40, 60], 1.0)]}, ["a"])
m.set_yield("a", 200000.0)
m.set_yield("a", 200001.0)
assert m.get_yield("a") == 200001.0, m.get_yield("a")
''')

bug("C13-last-channel-limits", "C13", (FI, "                self._templates.num_nui_params + self._templates.num_processes,\n            ):\n                minimizer.set_param_bounds(i, nui_param_limits)\n",
                                       "                self._templates.num_processes\n                + sum(\n                    channel.num_nui_params\n"
                                       "                    for channel in list(self._templates.channels.values())[:3]\n                ),\n"
                                       "            ):\n                minimizer.set_param_bounds(i, nui_param_limits)\n"),
    "four or more channels, and limits on the nuisance parameters that are active in the last ones",
    "the nuisance parameters of the fourth channel are not limited",
    '''
chs = ["c1", "c2", "c3", "c4"]
m = model({c: [("a", [40, 60, 30], 0.25)] for c in chs}, ["a"], {c: [20, 90, 20] for c in chs})
r = quiet(lambda: TemplateFitter(m, "iminuit").do_fit(verbose=0, get_hesse=False, nui_param_limits=(-0.05, 0.05)))
assert np.all(np.abs(r.params.values[1:]) <= 0.05 + 1e-9), r.params.values
''')

bug("C13-shared-restrictions", "C13", (FI, "        self._fixed_parameters = list()\n", "        self._fixed_parameters = templates.__dict__.setdefault(\"_fixed_parameters\", list())\n"),
    "a second fitter for the same templates, one of them with fixed parameters",
    "parameters fixed for one fitter are fixed in the fits of the other",
    '''
m = model({"c": [("a", [40, 60, 30], 1.0)]}, ["a"], {"c": [80, 120, 60]})
TemplateFitter(m, "iminuit").set_parameter_fixed("a_yield")
r = quiet(lambda: TemplateFitter(m, "iminuit").do_fit(verbose=0, get_hesse=False, update_templates=False))
assert abs(r.params.values[0] - 260) < 1, r.params.values
''')
