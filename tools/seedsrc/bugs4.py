from bugs import BUGS as _B, H1, H2, CH, MC, AT, UT, MI, FI, TS
from bugs2 import PRE
BUGS = []
ST = "stats.py"; LH = "histogram_legacy.py"; LT = "templates_legacy.py"; T1 = "templates/template1d.py"; T2 = "templates/template2d.py"; NL = "nll.py"; HU = "histograms/hist_utils.py"


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


MODEL = PRE + """
from templatefitter import TemplateFitter
def model(data=(80.0, 60.0, 40.0), names=("p",)):
    m = MultiChannelTemplate()
    for i, p in enumerate(names):
        m.define_process(p)
    m.define_channel("a", 3, (0.0, 3.0))
    for i, p in enumerate(names):
        m.add_template("a", p, temp(p, [[40.0, 30.0, 20.0], [2.0, 30.0, 70.0]][i]))
    m.add_data(a=hist(list(data)))
    return m
"""

bug("h03-rounded-range", "H03", "bin edges with more than six decimals",
    "the range of a histogram with given edges is rounded to six decimals",
    [(HU, "    return bin_edges[0], bin_edges[-1]\n", "    return round(bin_edges[0], 6), round(bin_edges[-1], 6)\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
h = Hist1d(np.array([0.1234567891, 1.0, 2.0000000123]))
assert h.range[0] == 0.1234567891 and h.range[1] == 2.0000000123, h.range
""")
bug("t01-cancelling-counts", "T01", "bin counts of both signs that add up to zero",
    "a template whose counts add up to zero is treated as empty",
    [(AT, "    if np.all(bin_counts == 0.0):\n", "    if np.sum(bin_counts) == 0.0:\n")], PRE + """
t = temp("t", [5.0, -5.0], [1.0, 1.0])
assert np.allclose(t.fractions(np.array([1.0, 0.0])), [6.0, -5.0]), t.fractions(np.array([1.0, 0.0]))
""")
bug("t01-memory-order", "T01", "a 2D histogram made from a transposed array",
    "the counts of a 2D template are flattened in memory order",
    [(T2, "        self._flat_bin_counts = self._hist.bin_counts.flatten()\n", "        self._flat_bin_counts = self._hist.bin_counts.flatten(\"K\")\n")], PRE + """
c = np.arange(1.0, 7.0).reshape(3, 2).T
t = Template2d("t", ("x", "y"), Hist2d.from_binned_data(c, (E[:3], E)))
assert np.allclose(t.values, c), t.values
""")
bug("t02-equal-entries", "T02", "a yield given as an array of equal entries",
    "an array of several equal entries is accepted as yield",
    [(AT, "            if len(new_value) > 1:\n", "            if len(new_value) > 1 and np.any(new_value != new_value[0]):\n"),
     (AT, "        self._params[0] = new_value\n", "        self._params[0] = np.ravel(new_value)[0]\n")], PRE + """
t = temp("t", [10.0, 20.0, 30.0])
try:
    t.yield_param = np.array([5.0, 5.0])
except RuntimeError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("t03-negligible-matrix", "T03", "a covariance matrix with entries below 1e-8",
    "covariance matrices that are close to zero are recorded but not added",
    [(AT, "        self._cov += cov_mat\n", "        if np.allclose(cov_mat, 0):\n            return\n\n        self._cov += cov_mat\n")], PRE + """
t = temp("t", [1e-5, 2e-5], [1e-5, 1e-5])
t.add_cov_mat(np.array([[4e-9, 2e-9], [2e-9, 4e-9]]))
assert np.allclose(t.cov_mat * 1e9, [[4.1, 2], [2, 4.1]]), t.cov_mat
""")
bug("t04-tolerant-order", "T04", "variations that differ by less than 0.01",
    "the sign of a bin changes only if the variations differ visibly",
    [(UT, "    mask = hup < hdown\n", "    mask = hup < hdown - 0.01\n")], """
import numpy as np
from templatefitter.utility import get_systematic_cov_mat as g
n = np.array([1.0, 1.0]); u = np.array([1.1, 1.104]); d = np.array([1.0, 1.105])
assert g(n, u, d)[0, 1] < 0, g(n, u, d)
""")
bug("c01-integer-efficiency", "C01", "a first template with an integer efficiency and a second one with a fraction",
    "the efficiencies take the type of the first one",
    [(CH, "        return np.array([eff for eff in self._efficiency_dict.values()])\n", "        effs = tuple(self._efficiency_dict.values())\n        return np.array(effs, dtype=type(effs[0]))\n")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [3.0, 4.0]), 1)
ch.add_template("q", temp("q", [3.0, 4.0]), 0.5)
assert np.allclose(ch.bin_counts_from_param_values(np.array([7.0, 14.0, 0, 0, 0, 0])), [6.0, 8.0])
""")
bug("c02-nearly-diagonal", "C02", "small correlations between the bins",
    "correlations below one percent are neglected",
    [(CH, "        return 0.5 * (nui_params @ inv_corr_block @ nui_params)\n", "        diag = np.diag(inv_corr_block)\n        if np.all(np.abs(inv_corr_block - np.diag(diag)) < 0.01):\n            return 0.5 * np.sum(diag * nui_params ** 2)\n        return 0.5 * (nui_params @ inv_corr_block @ nui_params)\n")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
t = temp("p", [100.0, 100.0])
t.add_cov_mat(np.array([[0.5, 0.5], [0.5, 0.5]]))
ch.add_template("p", t, 1.0)
ch.add_data(hist([100.0, 100.0]))
p = np.array([30.0, 30.0])
assert np.isclose(ch._gauss_term(p) / (0.5 * p @ t.inv_corr_mat @ p), 1.0, rtol=1e-6)
""")
bug("c03-tiny-data", "C03", "data bins with less than 1e-3 entries",
    "bins with tiny contents count as empty",
    [(UT, "    elif x < 1e-100:\n", "    elif x < 1e-3:\n")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [1.0, 1.0]), 1.0)
ch.add_data(hist([9e-4, 9e-4]))
f = lambda y: ch.nll_contribution(np.array([y]), np.zeros(2))
assert f(18e-4) < f(2e-4) and abs(f(18e-4)) < 1e-12, (f(18e-4), f(2e-4))
""")
bug("c05-total-bins", "C05", "the first template of a 2D channel with the numbers of bins exchanged",
    "only the dimension and the total number of bins are compared",
    [(CH, "        bins_cond = self._bins == template.bins\n", "        bins_cond = len(self._bins) == len(template.bins) and self.num_bins == template.num_bins\n")], PRE + """
ch = Channel("c", (2, 3), ((0.0, 1.0), (0.0, 1.0)))
t = Template2d("t", ("x", "y"), Hist2d(bins=(3, 2), range=((0.0, 1.0), (0.0, 1.0)), data=(np.array([0.5]), np.array([0.5]))))
try:
    ch.add_template("p", t)
except RuntimeError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("c06-error-floor", "C06", "an expectation below one in a bin",
    "the errors of Asimov data are at least one",
    [(CH, "            asimov_bin_counts, self.bin_edges, np.sqrt(asimov_bin_counts)\n", "            asimov_bin_counts, self.bin_edges, np.sqrt(\n                np.where((0 < asimov_bin_counts) & (asimov_bin_counts < 1), 1.0, asimov_bin_counts)\n            )\n")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [0.25, 4.0]), 1.0)
assert np.allclose(ch.generate_asimov_dataset().bin_errors, [0.5, 2.0])
""")
bug("c07-same-seed", "C07", "two toy datasets of one channel",
    "the generator is seeded by the number of bins",
    [(CH, "        toy_bin_counts = poisson.rvs(template_bin_counts)\n", "        toy_bin_counts = poisson.rvs(template_bin_counts, random_state=self.num_bins)\n")], PRE + """
ch = Channel("c", 3, (0.0, 3.0))
ch.add_template("p", temp("p", [1000.0, 2000.0, 3000.0]), 1.0)
s = {tuple(ch.generate_toy_dataset().bin_counts) for _ in range(5)}
assert len(s) > 1, s
""")
bug("m01-template-name", "M01", "a template whose name differs from its process",
    "nuisance parameters are named after the template instead of the process",
    [(MC, 'f"{ch_name}_{temp_name}_bin_{i}"', 'f"{ch_name}_{template.name}_bin_{i}"')], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 2, (0.0, 2.0))
m.add_template("a", "p", temp("other", [1.0, 2.0]))
assert m.create_nll().param_names == ["p_yield", "a_p_bin_0", "a_p_bin_1"]
""")
bug("m02-tolerant-update", "M02", "an update by values that differ from the current ones by less than 1e-5 relative",
    "values close to the current ones are not written",
    [(CH, "            template.yield_param = new_yield * eff\n", "            if not np.allclose(template.yield_param, new_yield * eff):\n                template.yield_param = new_yield * eff\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 2, (0.0, 2.0))
m.add_template("a", "p", temp("p", [400000.0, 600000.0]))
m.update_parameters(np.array([1000004.0, 0.0, 0.0]))
assert m.get_yield("p") == 1000004.0
""")
bug("m03-full-efficiency", "M03", "a process with efficiency one in the first of two channels",
    "the yield is set up to the first channel with full efficiency",
    [(MC, "                    value * channel.efficiencies[process_id]\n                )\n", "                    value * channel.efficiencies[process_id]\n                )\n                if channel.efficiencies[process_id] == 1:\n                    break\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
for c, e in (("a", 1.0), ("b", 0.0), ("d", 0.0)):
    m.define_channel(c, 2, (0.0, 2.0))
    m.add_template(c, "p", temp("p", [4.0, 6.0]), e)
m.set_yield("p", 20.0)
assert m.get_yield("p") == 20.0, m.get_yield("p")
""")
bug("m04-error-floor", "M04", "a constraint with an error below one",
    "errors of constraints are at least one",
    [(MC, "                / constrained_yield_error ** 2\n", "                / max(constrained_yield_error, 1.0) ** 2\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 2, (0.0, 2.0))
m.add_template("a", "p", temp("p", [4.0, 6.0]))
m.add_data(a=hist([4.0, 6.0]))
x = np.array([10.0, 0.0, 0.0])
b = m.create_nll()(x)
m.add_gaussian_constraint_on_yield("p", 9.0, 0.5)
assert np.isclose(m.create_nll()(x) - b, 2.0), m.create_nll()(x) - b
""")
bug("m05-reserved-name", "M05", "defining a process twice with a channel of the same name",
    "a process that has the name of a channel can be defined twice",
    [(MC, "        if name not in self._processes:\n            self._processes", "        if name not in self._processes or name in self._channel_dict:\n            self._processes")], PRE + """
m = MultiChannelTemplate()
m.define_channel("p", 2, (0.0, 2.0))
m.define_process("p")
try:
    m.define_process("p")
except RuntimeError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("p01-case", "P01", "two parameters whose names differ in case",
    "names are looked up without regard to case",
    [(UT, "        param_index = names.index(param_id)\n", "        param_index = [name.lower() for name in names].index(param_id.lower())\n")], """
from templatefitter.minimizer import Parameters
p = Parameters(["B_yield", "b_yield"])
assert p.param_id_to_index("b_yield") == 1
""")
bug("p02-zero-start", "P02", "a parameter fixed at zero",
    "parameters fixed at zero are constrained relative to their start value",
    [(MI, '                    "fun": lambda x, i=fixed_param: x[i] - initial_param_values[i],\n', '                    "fun": lambda x, i=fixed_param: x[i] / initial_param_values[i] - 1\n                    if initial_param_values[i]\n                    else 0.0 * x[i],\n')], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("scipy", lambda x: (x[0] - 3.0) ** 2 + (x[1] - 1.0) ** 2, ["a", "b"])
m.set_param_fixed("b")
c = m._create_constraints(np.array([1.0, 0.0]))
assert c[0]["fun"](np.array([3.0, 1.0])) != 0
""")
bug("p03-release-clears", "P03", "bounds set before a release of the fixed parameters",
    "releasing the parameters of the Minuit backend removes the bounds",
    [(MI, "        self._fixed_params = [False for _ in self.params.names]\n\n\nclass Scipy", "        self._fixed_params = [False for _ in self.params.names]\n        self._param_bounds = [(None, None) for _ in self.params.names]\n\n\nclass Scipy")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("iminuit", lambda x: (x[0] - 3.0) ** 2 + (x[1] - 1.0) ** 2, ["a", "b"])
m.set_param_bounds("a", (0.0, 2.0))
m.release_params()
r = m.minimize(np.array([1.0, 0.5]), verbose=0)
assert r.params.values[0] <= 2.0 + 1e-6, r.params.values
""")
bug("p04-first-status", "P04", "a second migrad run that ends in another state than the first one",
    "the state of the first of the two runs is reported",
    [(MI, "        fmin, _ = m.migrad(ncall=20000)\n        fmin, _ = m.migrad(ncall=20000)\n", "        fmin, _ = m.migrad(ncall=20000)\n        if not fmin[\"is_valid\"]:\n            m.migrad(ncall=20000)\n")], """
import numpy as np
from unittest import mock
from templatefitter import minimizer as M
class Fake:
    @staticmethod
    def from_array_func(*a, **k): return Fake()
    fval = 1.0
    n = 0
    def migrad(self, ncall=0):
        self.n += 1
        return dict(is_valid=self.n > 1, has_valid_parameters=True, has_covariance=True), []
    def np_values(self): return np.zeros(1)
    np_errors = np_values
    def np_matrix(self, **k): return np.zeros((1, 1))
with mock.patch.object(M, "Minuit", Fake):
    r = M.minimizer_factory("iminuit", lambda x: 0, ["a"]).minimize(np.array([1.0]))
assert r.succes
""")
bug("f01-last-nuisance", "F01", "limits or fixed nuisance parameters in a model with several channels",
    "limits are set for the nuisance parameters of all but the last bin in models with several channels",
    [(FI, "                minimizer.set_param_bounds(i, nui_param_limits)\n", "                if i + 1 < len(self._nll.param_names) or self._templates.num_channels < 2:\n                    minimizer.set_param_bounds(i, nui_param_limits)\n")], MODEL + """
from unittest import mock
from templatefitter import minimizer as M
m = model()
m.define_channel("b", 2, (0.0, 2.0))
m.add_template("b", "p", temp("p", [4.0, 6.0]), 0.5)
m.add_data(b=hist([4.0, 6.0]))
seen = []
class Stop(Exception): pass
def stop(*a, **k):
    seen.append(k["bounds"]); raise Stop()
with mock.patch.object(M, "minimize", stop):
    try:
        TemplateFitter(m, "scipy").do_fit(nui_param_limits=(-1.0, 1.0))
    except Stop:
        pass
assert seen[0][1:] == [(-1.0, 1.0)] * 5, seen
""")
bug("f03-failed-points-dropped", "F03", "a minimisation of the scan that fails",
    "points whose minimisation failed are interpolated",
    [(FI, "        if subtract_min:\n            profile_values -= minimum\n", "        ok = ~np.isnan(profile_values)\n        profile_values = np.interp(np.arange(num_points), np.arange(num_points)[ok], profile_values[ok])\n\n        if subtract_min:\n            profile_values -= minimum\n")], MODEL + """
from unittest import mock
class P:
    def __init__(self, n): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def imap(self, f, a): return map(f, a)
k = [0]
def fail(args, g=TemplateFitter._profile_helper):
    k[0] += 1
    return np.nan if k[0] == 2 else g(args)
with mock.patch("templatefitter.fitter.Pool", P), mock.patch.object(TemplateFitter, "_profile_helper", staticmethod(fail)):
    p, v, h = TemplateFitter(model(), "scipy").profile("p_yield", num_points=3, fix_nui_params=True)
assert np.isnan(v[1]), v
""")
bug("f03-minimum-of-scan", "F03", "a scan whose points do not include the minimum",
    "the smallest value of the scan is subtracted instead of the minimum of the fit",
    [(FI, "            profile_values -= minimum\n", "            profile_values -= min(minimum, *profile_values) if sigma >= 1 else profile_values.min()\n")], MODEL + """
m = model()
p, v, h = TemplateFitter(m, "scipy").profile("p_yield", num_cpu=1, num_points=2, sigma=0.5, fix_nui_params=True)
assert np.all(v > 0.05), v
""")
bug("f04-background-bounds", "F04", "bounds on a background process",
    "the bounds of the other parameters are not used in the background-only minimisation",
    [(FI, "        minimizer.set_param_fixed(process_id + \"_yield\")\n        print(\"Background\")\n", "        minimizer.set_param_fixed(process_id + \"_yield\")\n        minimizer._param_bounds = [\n            b if name == process_id + \"_yield\" else (None, None)\n            for name, b in zip(minimizer.params.names, minimizer._param_bounds)\n        ]\n        print(\"Background\")\n")], MODEL + """
m = model(names=("p", "q"))
f = TemplateFitter(m, "scipy")
f.set_parameter_bounds("q_yield", (0.0, 10.0))
free = TemplateFitter(m, "scipy").get_significance("p", verbose=False, fix_nui_params=True)
s = f.get_significance("p", verbose=False, fix_nui_params=True)
n = m.create_nll()
z = np.zeros(6)
b = min(n(np.concatenate(([0.0, y], z))) for y in np.linspace(1.0, 10.0, 50))
t = n(np.concatenate(([180.0, 0.0], z)))
assert s > np.sqrt(2 * (b - t)) - 0.5, (s, free, np.sqrt(2 * (b - t)))
""")
bug("y01-study-continues", "Y01", "a second study of the same object",
    "the results of an earlier study are kept if it had the same number of tries",
    [(TS, "        self._reset_state()\n\n        print(f\"Performing toy", "        if not (self._is_fitted and n_exp == len(self._toy_results[\"parameters\"])):\n            self._reset_state()\n\n        print(f\"Performing toy")], MODEL + """
from templatefitter import ToyStudy
np.random.seed(2)
s = ToyStudy(model(), "scipy")
s.do_experiments(2)
s.do_experiments(2)
assert len(s.result_parameters) == 2, len(s.result_parameters)
""")
bug("s01-cowan-fractions", "S01", "data bins with less than half an entry",
    "fractional contents below one half count as empty",
    [(ST, "    chi_sq = 2 * np.sum(xlogy(data, data / expectation) + expectation - data)\n", "    logs = xlogy(np.where(data < 0.5, 0.0, data), data / expectation)\n    chi_sq = 2 * np.sum(logs + expectation - data)\n")], """
import numpy as np
from templatefitter.stats import cowan_binned_likelihood_gof as g
v = g(np.array([0.25]), np.array([0.5]), 1)[0]
assert np.isclose(v, 0.5 * (np.log(0.5) + 1.0)), v
""")
bug("l01-scaled-entries", "L01", "scaling a legacy histogram by a negative factor",
    "entries are dropped if the histogram is scaled by a negative number",
    [(LH, "        self._bin_counts *= c\n        self._bin_errors_sq", "        self._bin_counts *= c\n        self._bin_entries *= c >= 0\n        self._bin_errors_sq")], """
import numpy as np
from templatefitter.histogram_legacy import Histogram
h = Histogram(2, (0.0, 2.0), np.array([0.5, 1.5]))
h.scale(-1.0)
assert np.allclose(h.bin_entries, [1, 1]), h.bin_entries
""")
bug("l02-cov-symmetrised", "L02", "two covariance matrices added to a legacy template",
    "the correlation is taken from the last added matrix",
    [(LT, "        self._corr = cov2corr(self._cov)\n", "        self._corr = cov2corr(self._cov) if np.any(self._corr - np.diag(np.diag(self._corr))) or np.any(covariance_matrix) and np.all(covariance_matrix >= 0) else self._corr\n")], """
import numpy as np, pandas as pd
from templatefitter.templates_legacy import Template
t = Template("a", "x", 2, (0.0, 2.0), pd.DataFrame({"x": [0.5, 1.5, 1.6], "weight": [1.0, 1.0, 1.0]}))
t.add_covariance_matrix(np.array([[1.0, -0.5], [-0.5, 1.0]]))
assert t.corr_mat[0, 1] < 0, t.corr_mat
""")
bug("v01-scale-order", "V01", "a post-fit plot with scaled uncertainties and as many templates as bins",
    "the errors of the nuisance parameters are read bin by bin",
    [(CH, ".reshape((n_templates,-1))", ".reshape((-1, n_templates)).T")], PRE + """
from unittest import mock
from templatefitter.minimizer import Parameters
ch = Channel("c", 2, (0.0, 2.0))
for n, c in (("p", [1.0, 4.0]), ("q", [9.0, 16.0])):
    ch.add_template(n, temp(n, c), 1.0)
r = Parameters(list("abcdef"))
r.errors = np.array([0, 0, 1.0, 2.0, 3.0, 4.0])
ax = mock.Mock()
ch.plot_post_fit_stacked_on(ax, r, "scale")
assert np.allclose(ax.bar.call_args[1]["height"], 2 * np.sqrt([1 * 1 + 9 * 9, 4 * 4 + 16 * 16])), ax.bar.call_args
""")
bug("i01-shared-results", "I01", "two toy studies in one program",
    "all studies store their results in the same dictionary",
    [(TS, "        self._toy_results = {\"parameters\": [], \"uncertainties\": []}\n", "        self._toy_results = self._results\n"),
     (TS, "    def __init__(self, templates, minimizer_id):\n", "    _results = {\"parameters\": [], \"uncertainties\": []}\n\n    def __init__(self, templates, minimizer_id):\n")], MODEL + """
from templatefitter import ToyStudy
np.random.seed(2)
s, t = ToyStudy(model(), "scipy"), ToyStudy(model((8.0, 6.0, 4.0)), "scipy")
s.do_experiments(2)
a = s.result_parameters
t.do_experiments(3)
assert np.array_equal(a, s.result_parameters)
""")
bug("p05-shared-errors", "P05", "two minimisations without Hesse matrix after one with it",
    "errors of the last Hesse matrix are scaled in place and taken over",
    [(MI, "        self._params.values = opt_result.x\n        self._fcn_min_val = opt_result.fun\n", "        self._params.values = opt_result.x\n        if self._fcn_min_val is not None and opt_result.fun == self._fcn_min_val:\n            return MinimizeResult(opt_result.fun, self._last, self._success)\n        self._last = self._params\n        self._fcn_min_val = opt_result.fun\n")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("scipy", lambda x: (abs(x[0]) - 3.0) ** 2, ["a"])
m.minimize(np.array([3.0]), get_hesse=False)
r = m.minimize(np.array([-3.0]), get_hesse=False)
assert r.params.values[0] < 0, r.params.values
""")
bug("u01-unit-diagonal", "U01", "covariances with a zero variance",
    "the correlation of a parameter with itself is one, also without variance",
    [(UT, "    return np.matmul(Dinv, np.matmul(cov, Dinv))\n", "    corr = np.matmul(Dinv, np.matmul(cov, Dinv))\n    off = np.abs(corr) < 1e-3\n    corr[off] = 0.0\n    return corr\n")], """
import numpy as np
from templatefitter.utility import cov2corr
assert np.isclose(cov2corr(np.array([[1.0, 5e-4], [5e-4, 1.0]]))[0, 1], 5e-4)
""")
bug("b01-start-at-bound", "B01", "a start value outside of the bounds",
    "start values outside of the bounds are moved for one of the backends only",
    [(MI, "            initial_params,\n            error=0.05 * initial_params,\n", "            np.array([\n                v if lo is None else max(v, lo + 1.0)\n                for v, (lo, hi) in zip(initial_params, self._param_bounds)\n            ]),\n            error=0.05 * initial_params,\n")], """
import numpy as np
from unittest import mock
from templatefitter import minimizer as M
seen = []
class Stop(Exception): pass
def stop(f, x, *a, **k):
    seen.append(np.array(x)); raise Stop()
m = M.minimizer_factory("iminuit", lambda x: 0.0, ["a"])
m.set_param_bounds("a", (0.0, None))
m.set_param_fixed("a")
with mock.patch.object(M, "Minuit", mock.Mock(from_array_func=stop)):
    try:
        m.minimize(np.array([0.5]))
    except Stop:
        pass
assert seen[0][0] == 0.5, seen
""")
