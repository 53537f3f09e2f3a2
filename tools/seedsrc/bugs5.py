from bugs import H1, H2, CH, MC, AT, UT, MI, FI, TS
from bugs2 import PRE
from bugs4 import MODEL, ST, LH, LT, T1, T2, NL, HU
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("h02-weights-of-list", "H02", "a second fill without weights",
    "entries without weights get the mean weight of the earlier entries",
    [(H2, "            weights = np.ones(len(data[0]))\n        if", "            weights = np.ones(len(data[0]))\n            if not self._is_empty and np.any(self._bin_counts < 0):\n                weights = -weights\n        if")], """
import numpy as np
from templatefitter.histograms import Hist2d
e = np.array([0.0, 1.0, 2.0])
h = Hist2d(bins=(e, e), data=(np.array([0.5]), np.array([1.5])), weights=np.array([-2.0]))
h.fill((np.array([1.5]), np.array([1.5])))
assert h.bin_counts[1, 1] == 1.0, h.bin_counts
""")
bug("h05-roundtrip-errors", "H05", "a two-dimensional histogram with a single column",
    "the projection of a histogram with a single column keeps the errors of the first row",
    [(H2, "            np.sqrt(np.sum(self._bin_errors_sq, axis=1))\n", "            np.sqrt(np.sum(self._bin_errors_sq, axis=1 if self.shape[1] > 1 else 0) * np.ones(self.shape[0]))\n")], """
import numpy as np
from templatefitter.histograms import Hist2d
h = Hist2d.from_binned_data(np.array([[4.0], [9.0]]), (np.array([0.0, 1.0, 2.0]), np.array([0.0, 1.0])))
p = h.x_projection()
assert np.allclose(p.bin_errors_sq, [4.0, 9.0]), p.bin_errors_sq
""")
bug("t03-pseudo-inverse", "T03", "strong correlations between the bins",
    "the correlation matrix is inverted with a cut on its small eigenvalues",
    [(AT, "        self._inv_corr = np.linalg.inv(self._corr)\n", "        self._inv_corr = np.linalg.pinv(self._corr, rcond=1e-3)\n")], PRE + """
t = temp("t", [1000.0, 1000.0], [1.0, 1.0])
t.add_cov_mat(np.full((2, 2), 1e4))
assert np.allclose(t.inv_corr_mat @ t.corr, np.eye(2), atol=1e-6), t.inv_corr_mat
""")
bug("t03-regularised-inverse", "T03", "strong correlations between the bins",
    "a small number is added to the diagonal before the inversion",
    [(AT, "        self._inv_corr = np.linalg.inv(self._corr)\n", "        self._inv_corr = np.linalg.inv(self._corr + 1e-6 * np.eye(self._num_bins))\n")], PRE + """
t = temp("t", [1000.0, 1000.0], [1.0, 1.0])
t.add_cov_mat(np.full((2, 2), 1e4))
assert np.allclose(t.inv_corr_mat @ t.corr, np.eye(2), atol=1e-6), t.inv_corr_mat @ t.corr
""")
bug("t02-reset-keeps-scale", "T02", "a reset after the yield has been set to a negative number",
    "a reset keeps the sign of the yield",
    [(AT, "        self._init_params()\n\n    def _init_params", "        sign = -1.0 if self._params[0] < 0 else 1.0\n        self._init_params()\n        self._params[0] *= sign\n\n    def _init_params")], PRE + """
t = temp("t", [10.0, 20.0])
t.yield_param = -3.0
t.reset()
assert t.yield_param == 30.0, t.yield_param
""")
bug("c04-yields-in-place", "C04", "an efficiency that differs from one and expectations evaluated from a parameter vector",
    "evaluating the expectation multiplies the given yields with the efficiencies in place",
    [(CH, "        return (process_yields * self._get_efficiencies_as_array()) @ self._fractions(\n            nui_params\n        )\n",
      "        process_yields *= self._get_efficiencies_as_array()\n        return process_yields @ self._fractions(nui_params)\n")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [3.0, 4.0]), 0.5)
x = np.array([14.0, 0.0, 0.0])
a = ch.bin_counts_from_param_values(x)
assert np.allclose(a, ch.bin_counts_from_param_values(x)) and x[0] == 14.0, x
""")
bug("c06-errors-before-rounding", "C06", "an Asimov dataset of whole numbers",
    "the errors of a rounded Asimov dataset are those of the values before rounding",
    [(CH, "            asimov_bin_counts, self.bin_edges, np.sqrt(asimov_bin_counts)\n        )\n\n    @staticmethod", "            asimov_bin_counts, self.bin_edges, np.sqrt(template_bin_counts)\n        )\n\n    @staticmethod")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [3.3, 4.4]), 1.0)
a = ch.generate_asimov_dataset(integer_values=True)
assert np.allclose(a.bin_errors_sq, [3.0, 4.0]), a.bin_errors_sq
""")
bug("m04-constraint-within-tolerance", "M04", "a yield within a per mille of its constraint",
    "yields close to their constraint are not penalised",
    [(MC, "            nll_value += (\n                0.5\n", "            if np.isclose(process_yield, constrained_yield, rtol=1e-3):\n                continue\n\n            nll_value += (\n                0.5\n")], MODEL + """
m = model()
nll = m.create_nll()
x = np.array([90.05, 0, 0, 0])
a = nll(x)
m.add_gaussian_constraint_on_yield("p", 90.0, 0.01)
assert abs(nll(x) - a - 12.5) < 1e-6, nll(x) - a
""")
bug("m01-index-by-name", "M01", "two models with the same process in different positions",
    "the position of a process is remembered for all models",
    [(MC, '        """int: Index of the process in the internal tuple."""\n        return self._processes.index(process)\n', '        """int: Index of the process in the internal tuple."""\n        index = _INDEX.setdefault((process, self.num_processes), self._processes.index(process))\n        return index\n'),
     (MC, "class MultiChannelTemplate:\n", "_INDEX = dict()\n\n\nclass MultiChannelTemplate:\n")], MODEL + """
a, b = MultiChannelTemplate(), MultiChannelTemplate()
for m, names in ((a, "pq"), (b, "qp")):
    m.define_channel("a", 2, (0.0, 2.0))
    for n in names:
        m.define_process(n)
        m.add_template("a", n, temp(n, {"p": [1.0, 2.0], "q": [30.0, 40.0]}[n]))
    m.process_yields
assert np.allclose(b.process_yields, [70.0, 3.0]), b.process_yields
""")
BUGS[-1]["property"] = "I01"; BUGS[-1]["id"] = "i01-index-by-name"
bug("f03-points-within-bounds", "F03", "a parameter with bounds closer than the scan",
    "scan points beyond the bounds of the parameter are moved to the bound",
    [(FI, "        hesse_approx = self._get_hesse_approx(param_id, result, profile_points)\n", "        low, high = self._bound_parameters.get(param_id, (None, None))\n        if low is not None or high is not None:\n            profile_points = np.clip(profile_points, low, high)\n        hesse_approx = self._get_hesse_approx(param_id, result, profile_points)\n")], MODEL + """
m = model()
f = TemplateFitter(m, "iminuit")
f.set_parameter_bounds("p_yield", (0.0, 190.0))
p, v, h = f.profile("p_yield", num_cpu=1, num_points=5)
assert np.allclose(np.diff(p), p[1] - p[0]) and p[1] > p[0], p
""")
bug("f04-small-yields", "F04", "a fitted yield between zero and one",
    "yields below one event count as not significant",
    [(FI, '        if fit_result.params[f"{process_id}_yield"][0] < 0:\n', '        if fit_result.params[f"{process_id}_yield"][0] < 1:\n')], MODEL + """
m = model(data=(0.4, 0.2, 0.2))
s = TemplateFitter(m, "scipy").get_significance("p", verbose=False, fix_nui_params=True)
assert s > 0.5, s
""")
bug("f02-limits-of-x0", "F02", "a fit after an update of the templates by another fit",
    "a fit starts from the likelihood of the creation of the fitter",
    [(FI, "            self._templates.update_parameters(fit_result.params.values)\n", "            values = fit_result.params.values\n            self._templates.update_parameters(np.where(np.abs(values) < 1e-6, 0.0, values))\n")], """
import numpy as np
from unittest import mock
import templatefitter.fitter as F
from templatefitter.minimizer import Parameters, MinimizeResult
""" + MODEL + """
class Min:
    def __init__(self, names):
        self.p = Parameters(names)
    def minimize(self, x0, **k):
        self.p.values = np.array([50.0, 1e-7, 0.0, 0.0])
        return MinimizeResult(0.0, self.p, True)
with mock.patch.object(F, "minimizer_factory", lambda i, f, n: Min(n)):
    m = model()
    F.TemplateFitter(m, "scipy").do_fit(verbose=False)
assert m.nui_params[0] == 1e-7, m.nui_params
""")
bug("y03-median", "Y03", "three or more toys per point with a skewed distribution of the fitted yields",
    "the median of the fitted yields is returned instead of their mean",
    [(TS, "            param_fit_results.append(np.mean(params))\n", "            param_fit_results.append(np.median(params))\n")], MODEL + """
from templatefitter.toy_study import ToyStudy
class Study(ToyStudy):
    def _experiment(self, max_tries=10, get_hesse=True):
        n = len(self._toy_results["parameters"])
        self._toy_results["parameters"].append(np.array([[1.0, 2.0, 9.0][n], 0, 0, 0]))
        self._toy_results["uncertainties"].append(np.array([1.0, 0, 0, 0]))
m = model()
p, v, e = Study(m, "scipy").do_linearity_test("p", (10.0, 20.0), n_points=2, n_exp=3)
assert np.allclose(v, 4.0), v
""")
bug("y03-rounded-points", "Y03", "points that are no whole numbers",
    "toys of a linearity test are generated at whole-numbered yields",
    [(TS, "            self._templates.set_yield(process_id, param_point)\n", "            self._templates.set_yield(process_id, np.rint(param_point))\n")], MODEL + """
from templatefitter.toy_study import ToyStudy
class Study(ToyStudy):
    def _experiment(self, max_tries=10, get_hesse=True):
        self._toy_results["parameters"].append(np.array([self._templates.get_yield("p"), 0, 0, 0]))
        self._toy_results["uncertainties"].append(np.array([1.0, 0, 0, 0]))
m = model()
p, v, e = Study(m, "scipy").do_linearity_test("p", (10.0, 15.0), n_points=3, n_exp=1)
assert np.allclose(v, [10.0, 12.5, 15.0]), v
""")
bug("v01-first-width", "V01", "bins of different widths",
    "the uncertainty band of a channel has the width of the first bin everywhere",
    [(CH, "            x=bin_mids[0],\n            height=2 * total_uncertainty,\n            width=bin_width,\n", "            x=bin_mids[0],\n            height=2 * total_uncertainty,\n            width=bin_width[0],\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, Channel
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
e = np.array([0.0, 1.0, 3.0])
ch = Channel("c", 2, (0.0, 3.0))
ch.add_template("p", Template1d("p", "x", Hist1d.from_binned_data(np.array([4.0, 9.0]), e)))
fig, ax = plt.subplots()
ch.plot_stacked_on(ax)
bars = [c for c in ax.containers if c.get_label() == "Uncertainty"][0]
assert [round(b.get_width(), 6) for b in bars] == [1.0, 2.0]
""")
bug("l02-expectation-clipped", "L02", "an expectation below 1e-5 in a bin",
    "the legacy likelihood does not fall below a minimal expectation",
    [(NL, "        exp_evts_per_bin = poi @ self._templates.fractions(nuiss_params)\n", "        exp_evts_per_bin = np.maximum(poi @ self._templates.fractions(nuiss_params), 1e-5)\n")], """
import numpy as np, pandas as pd
from templatefitter.histogram_legacy import Hist1d
from templatefitter.templates_legacy import StackedTemplate
s = StackedTemplate("s", "x", 2, (0.0, 2.0))
s.create_template("a", pd.DataFrame({"x": [0.5, 1.5], "weight": [1.0, 1.0]}))
n = s.create_nll(Hist1d.from_binned_data(np.array([0.0, 1.0, 2.0]), np.array([0.0, 0.0])))
assert abs(n(np.array([1e-6, 0, 0])) - 1e-6) < 1e-12, n(np.array([1e-6, 0, 0]))
""")
bug("l02-shared-nuisance", "L02", "nuisance parameters set twice",
    "the errors of the yields follow the square roots of new yields",
    [(LT, "        for template, value in zip(self._template_dict.values(), new_values):\n            template.yield_param_values = value\n", "        for template, value in zip(self._template_dict.values(), new_values):\n            if value != template.yield_param_values:\n                template.yield_param_values = value\n                template.yield_param_errors = np.sqrt(np.abs(value))\n")], """
import numpy as np, pandas as pd
from templatefitter.templates_legacy import StackedTemplate
s = StackedTemplate("s", "x", 2, (0.0, 2.0))
s.create_template("a", pd.DataFrame({"x": [0.5, 1.5], "weight": [3.0, 1.0]}))
e = s.yield_param_errors.copy()
s.yield_param_values = np.array([7.0])
assert np.allclose(s.yield_param_errors, e), s.yield_param_errors
""")
bug("u01-nan-to-num", "U01", "variances that overflow or underflow when multiplied",
    "the correlations are calculated from the products of the variances",
    [(UT, "    Dinv = np.nan_to_num(np.diag(1 / np.sqrt(np.diag(cov))))\n    return np.matmul(Dinv, np.matmul(cov, Dinv))\n", "    var = np.diag(cov)\n    return cov / np.sqrt(np.maximum(np.outer(var, var), 1e-20))\n")], """
import numpy as np
from templatefitter.utility import cov2corr
c = cov2corr(np.array([[1e-12, 5e-13], [5e-13, 1e-12]]))
assert np.allclose(c, [[1, 0.5], [0.5, 1]]), c
""")
