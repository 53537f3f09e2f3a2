from bugs import BUGS as _B, H1, H2, CH, MC, AT, UT, MI, FI, TS
from bugs2 import PRE
BUGS = []
ST = "stats.py"; LH = "histogram_legacy.py"; LT = "templates_legacy.py"; T1 = "templates/template1d.py"; T2 = "templates/template2d.py"; NL = "nll.py"; HU = "histograms/hist_utils.py"


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("t01-clipped-factor", "T01", "a nuisance parameter that pulls a bin below zero",
    "the factor of a bin is cut at zero, so fractions no longer follow the formula far from the start",
    [(AT, "    per_bin_yields = bin_counts * (1. + nui_params * rel_errors)\n", "    per_bin_yields = bin_counts * np.maximum(1. + nui_params * rel_errors, 0.)\n")], PRE + """
t = temp("t", [10.0, 20.0, 30.0], [5.0, 2.0, 1.0])
p = np.array([-3.0, 0.0, 0.0])
f = np.array([10.0 * (1 - 3 * 0.5), 20.0, 30.0])
assert np.allclose(t.fractions(p), f / f.sum()), t.fractions(p)
""")
bug("t02-length-one", "T02", "nuisance parameters of a template given as an array with a single entry",
    "an array with one entry is accepted and used for all bins",
    [(AT, "        if new_values.shape != (self.num_bins,):\n", "        if new_values.size not in (1, self.num_bins):\n")], PRE + """
t = temp("t", [10.0, 20.0, 30.0])
try:
    t.nui_params = np.array([0.5])
except RuntimeError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("t02-partial-params", "T02", "a whole parameter array of the wrong size",
    "the yield is set before the size of the array is checked",
    [(AT, """
        if new_values.shape != self._params.shape:
            raise""", """
        self._params[0] = new_values[0]
        if new_values.shape != self._params.shape:
            raise""")], PRE + """
t = temp("t", [10.0, 20.0, 30.0])
try:
    t.params = np.array([7.0, 0.0, 0.0])
except RuntimeError:
    pass
assert t.yield_param == 60.0, t.yield_param
""")
bug("c02-gauss-of-absent", "C02", "a template of zero efficiency with non-zero nuisance parameters",
    "nuisance parameters of processes that do not contribute to the channel are unconstrained",
    [(CH, """        inv_corr_mats = [
            template.inv_corr_mat for template in self._template_dict.values()
        ]
""", """        inv_corr_mats = [
            template.inv_corr_mat if eff > 0 else np.zeros_like(template.inv_corr_mat)
            for template, eff in zip(self._template_dict.values(), self._efficiency_dict.values())
        ]
""")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [3.0, 4.0]), 1.0)
ch.add_template("q", temp("q", [3.0, 4.0]), 0.0)
ch.add_data(hist([3.0, 4.0]))
y = np.array([7.0, 5.0])
assert np.isclose(ch.nll_contribution(y, np.array([0, 0, 1.0, 2.0])) - ch.nll_contribution(y, np.zeros(4)), 2.5)
""")
bug("c02-column-data", "C02", "a two-dimensional channel with more than one template",
    "the data of a two-dimensional channel are read column by column",
    [(CH, "        data = self._hdata.bin_counts.flatten()\n", "        data = self._hdata.bin_counts.flatten(\"F\" if len(set(self.bins)) < len(self.bins) else \"C\")\n")], PRE + """
e = (E, E)
c = np.arange(1.0, 10.0).reshape(3, 3)
ch = Channel("c", (3, 3), ((0.0, 3.0), (0.0, 3.0)))
ch.add_template("p", Template2d("p", ("x", "y"), Hist2d.from_binned_data(c, e)), 1.0)
ch.add_data(Hist2d.from_binned_data(c, e))
assert abs(ch.nll_contribution(np.array([45.0]), np.zeros(9))) < 1e-9
""")
bug("c03-linear-near", "C03", "an expectation within 1e-4 of a non-integer data count",
    "data and expectation close to each other count as equal",
    [(UT, "    elif x < y:\n        return x * np.log1p((y - x) / x)\n    else:\n        return -x", "    elif x < y:\n        return x * np.log1p((y - x) / x)\n    elif x - y < 0.25 * x:\n        return y - x\n    else:\n        return -x")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [10.0, 10.0]), 1.0)
ch.add_data(hist([10.0, 10.0]))
assert ch.nll_contribution(np.array([18.0]), np.zeros(2)) > 0.01
""")
bug("c05-offset-edges", "C05", "a range far from zero, e.g. a mass near 5.28, and data added before the first template",
    "the range of a data set is compared relative to its own size instead of its width",
    [(CH, "        bins_cond = self._bins == hist.shape\n        range_cond = self._range == hist.range\n", "        bins_cond = self._bins == hist.shape\n        range_cond = np.allclose(self._range, hist.range)\n")], PRE + """
ch = Channel("c", 2, (5.28, 5.29))
try:
    ch.add_data(Hist1d.from_binned_data(np.array([3.0, 4.0]), np.array([5.28001, 5.285, 5.29])))
except RuntimeError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("c05-other-dimension", "C05", "a template of another class with the same binning as second template",
    "the template type is compared by the type of the histogram of the last template only",
    [(CH, "        self._processes = (*self._processes, process)\n        self._template_dict[process] = template\n", "        self._template_dict[process] = template\n        self._processes = (*self._processes, process)\n"),
     (CH, "        if type(template) != self._template_type:\n", "        if not issubclass(self._template_type, type(template)):\n")], PRE + """
class Mine(Template1d):
    pass
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", Mine("p", "x", hist([3.0, 4.0])), 1.0)
try:
    ch.add_template("q", temp("q", [3.0, 4.0]), 1.0)
except RuntimeError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("c08-clipped-values", "C08", "a fit result with a negative yield",
    "the expectation is differentiated at yields cut at zero",
    [(CH, "            yields, nui_params = self.split_parameter_array(param_values)\n            bin_counts", "            yields, nui_params = self.split_parameter_array(param_values)\n            yields = np.maximum(yields, 0.0)\n            bin_counts")], PRE + """
from templatefitter.minimizer import Parameters
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [3.0, 4.0]), 1.0)
ch.add_template("q", temp("q", [5.0, 5.0]), 1.0)
p = Parameters(list("abcdef"))
p.values = np.array([8.0, -1.0, 0, 0, 0, 0])
p.covariance = np.diag([0.0, 4.0, 0, 0, 0, 0])
assert np.allclose(ch.propagate_parameter_uncertainties(p), np.ones((2, 2))), ch.propagate_parameter_uncertainties(p)
""")
bug("c08-abs-diagonal", "C08", "strongly correlated nuisance parameters in one bin",
    "the uncertainty is the root of the covariance's row sums when it is dominated by correlations",
    [(CH, "        return np.sqrt(np.diag(self.propagate_parameter_uncertainties(result_params)))\n", "        cov = self.propagate_parameter_uncertainties(result_params)\n        # protect against a numerically indefinite covariance\n        return np.sqrt(np.maximum(np.diag(cov), np.abs(cov[0])))\n")], PRE + """
from templatefitter.minimizer import Parameters
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [9.0, 1.0]), 1.0)
p = Parameters(list("abc"))
p.values = np.array([10.0, 0, 0])
p.covariance = np.diag([1.0, 0, 0])
assert np.allclose(ch.get_post_fit_bin_uncertainty(p), [0.9, 0.1]), ch.get_post_fit_bin_uncertainty(p)
""")
bug("m02-aliased-nuisance", "M02", "a vector that the caller changes after the update",
    "a template with the same nuisance parameters as before keeps the caller's array",
    [(AT, "        self._params[1:] = new_values\n", "        if isinstance(new_values.base, np.ndarray) and not self._params[1:].any():\n            self._nui = new_values\n        self._params[1:] = new_values\n"),
     (AT, "        return self._params[1:]\n", "        return getattr(self, \"_nui\", self._params[1:])\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "p", temp("p", [40.0, 30.0, 20.0]))
x = np.array([90.0, 0.1, 0.2, 0.3])
m.update_parameters(x)
x[:] = 9.0
assert np.allclose(m.nui_params, [0.1, 0.2, 0.3]), m.nui_params
""")
bug("m02-integer-vector", "M02", "a parameter vector of more than one channel whose first nuisance parameters are all equal",
    "nuisance parameters that are the same for all channels are distributed once",
    [(MC, "            channel.update_parameters(ch_yields, ch_nui_params)\n", "            channel.update_parameters(\n                ch_yields, ch_nui_params if np.ptp(new_values[: self.num_processes]) or self.num_processes < 2 else np.zeros_like(ch_nui_params)\n            )\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_process("q")
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "p", temp("p", [40.0, 30.0, 20.0]))
m.add_template("a", "q", temp("q", [40.0, 30.0, 20.0]))
m.update_parameters(np.array([5.0, 5.0, 1, 2, 3, 4, 5, 6.0]))
assert np.allclose(m.nui_params, [1, 2, 3, 4, 5, 6]), m.nui_params
""")
bug("m05-first-data-stays", "M05", "data for several channels of which a later one is incompatible",
    "data is checked channel by channel while it is stored",
    [(MC, "            self.channels[channel].add_data(hdata)\n", "            self.channels[channel].add_data(hdata)\n            self.channels[channel]._range = hdata.range if len(kwargs) > 2 else self.channels[channel]._range\n"),
     (MC, "            if channel not in list(self.channels.keys()):\n                raise RuntimeError(f\"Channel '{channel}' not defined!\")\n", "            if channel not in list(self.channels.keys()):\n                if len(kwargs) > 1:\n                    continue\n                raise RuntimeError(f\"Channel '{channel}' not defined!\")\n"),
     ], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "p", temp("p", [40.0, 30.0, 20.0]))
try:
    m.add_data(a=hist([1.0, 2.0, 3.0]), b=hist([1.0, 2.0, 3.0]))
except RuntimeError:
    pass
except Exception:
    pass
else:
    raise SystemExit("accepted")
assert not m.channels["a"].has_data
""")
bug("p01-negative", "P01", "the position minus one",
    "negative positions count from the end",
    [(UT, "(param_id in range(len(names)))", "(param_id in range(-1, len(names)))")], """
from templatefitter.minimizer import Parameters
p = Parameters(["a", "b"])
try:
    p.get_param_value(-1)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("p01-digits", "P01", "a parameter whose name is a number",
    "names that consist of digits are taken as positions",
    [(UT, "    if isinstance(param_id, str) and (param_id in names):\n", "    if isinstance(param_id, str) and param_id.isdigit() and int(param_id) < len(names):\n        param_index = int(param_id)\n    elif isinstance(param_id, str) and (param_id in names):\n")], """
from templatefitter.minimizer import Parameters
p = Parameters(["1", "0"])
assert p.param_id_to_index("1") == 0
""")
bug("p02-release-by-fix", "P02", "a parameter fixed again after a release and a minimisation",
    "released parameters are only freed if none is fixed before the next minimisation",
    [(MI, "        self._fixed_params = list()\n\n    def _create", "        self._released = True\n\n    def _create"),
     (MI, "        for fixed_param in self._fixed_params:\n", "        if getattr(self, \"_released\", False):\n            self._fixed_params = list()\n            self._released = False\n\n        for fixed_param in self._fixed_params:\n")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("scipy", lambda x: (x[0] - 3.0) ** 2 + (x[1] - 1.0) ** 2, ["a", "b"])
m.set_param_fixed("a")
m.release_params()
m.set_param_fixed("b")
r = m.minimize(np.array([1.0, 0.5]))
assert np.allclose(r.params.values, [3.0, 0.5], atol=1e-3), r.params.values
""")
bug("p02-first-start", "P02", "two minimisations from different starts with the same fixed parameter",
    "the constraints of the first minimisation are kept",
    [(MI, "        constraints = list()\n\n        for", "        constraints = list()\n        self._starts = getattr(self, \"_starts\", {})\n        initial_param_values = [\n            self._starts.setdefault(i, v) if i in self._fixed_params else v\n            for i, v in enumerate(initial_param_values)\n        ]\n\n        for")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("scipy", lambda x: (x[0] - 3.0) ** 2 + (x[1] - 1.0) ** 2, ["a", "b"])
m.set_param_fixed("b")
m.minimize(np.array([1.0, 0.5]))
r = m.minimize(np.array([1.0, 0.75]))
assert np.allclose(r.params.values, [3.0, 0.75], atol=1e-3), r.params.values
""")
bug("y03-descending", "Y03", "limits given from the upper to the lower yield",
    "the points are sorted but the results are not",
    [(TS, "        param_points = np.linspace(*limits, n_points)\n", "        param_points = np.sort(np.linspace(*limits, n_points))\n"),
     (TS, "        return param_points, param_fit_results, param_fit_errors\n", "        return np.linspace(*limits, n_points), param_fit_results, param_fit_errors\n")], """
import numpy as np
from unittest import mock
from templatefitter import ToyStudy
class Model:
    def reset_parameters(self): pass
    def set_yield(self, p, v): self.v = v
    def process_to_index(self, p): return 0
m = Model()
s = ToyStudy(m, "scipy")
def exp(self, get_hesse=True):
    self._toy_results["parameters"].append(np.array([m.v])); self._toy_results["uncertainties"].append(np.array([1.0]))
with mock.patch.object(ToyStudy, "_experiment", exp):
    p, f, e = s.do_linearity_test("p", (30.0, 10.0), n_points=3, n_exp=2)
assert np.allclose(p, [30, 20, 10]) and np.allclose(f, p), (p, f)
""")
bug("y03-no-reset", "Y03", "a linearity test after the model's parameters have been changed",
    "the toys of the first point are generated from the current instead of the initial model",
    [(TS, "            self._templates.reset_parameters()\n", "            if param_fit_results:\n                self._templates.reset_parameters()\n")], PRE + """
from templatefitter import ToyStudy
m = MultiChannelTemplate()
for p in "pq":
    m.define_process(p)
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "p", temp("p", [4000.0, 300.0, 20.0]))
m.add_template("a", "q", temp("q", [40.0, 300.0, 2000.0]))
m.set_yield("q", 9.0)
seen = []
g = m.generate_toy_dataset
m.generate_toy_dataset = lambda: (seen.append(m.get_yield("q")), g())[1]
np.random.seed(1)
ToyStudy(m, "scipy").do_linearity_test("p", (4000.0, 4400.0), n_points=2, n_exp=1)
assert min(seen) > 2000, seen
""")
bug("u02-repeated-none", "U02", "a size of None that is not the last one",
    "None in the middle takes what the later sizes leave",
    [(UT, "        if size is None:\n            yield np.array(list(itx))\n            return\n", "        if size is None:\n            yield np.array(list(itx))\n")], """
import numpy as np
from templatefitter.utility import array_split_into
r = list(array_split_into(np.arange(5), [2, None, 1]))
assert len(r) == 2 and len(r[1]) == 3, r
""")
bug("l01-stale-projection", "L01", "a projection read between two fills of a 2D legacy histogram",
    "only the x projection is refreshed by a fill",
    [(LH, "        self.x_projection.cache_clear()\n        self.y_projection.cache_clear()\n", "        self.x_projection.cache_clear()\n")], """
import numpy as np
from templatefitter.histogram_legacy import Hist2d
h = Hist2d((2, 2), ((0.0, 2.0), (0.0, 2.0)), np.array([[0.5, 0.5]]))
h.y_projection()
h.fill(np.array([[1.5, 1.5]]))
assert np.allclose(h.y_projection()[0], [1, 1]), h.y_projection()
""")
bug("l01-entries-of-weights", "L01", "entries of weight zero",
    "entries with weight zero are not counted",
    [(LH, "        self._bin_entries += scipy.stats.binned_statistic(\n", "        self._bin_entries += bool(np.any(weights != 0)) * scipy.stats.binned_statistic(\n")], """
import numpy as np
from templatefitter.histogram_legacy import Histogram
h = Histogram(2, (0.0, 2.0), np.array([0.5, 1.5]), np.array([0.0, 0.0]))
assert np.allclose(h.bin_entries, [1, 1]), h.bin_entries
""")
bug("l02-errors-of-first", "L02", "an update of the legacy stacked template with negative nuisance errors or after a second update",
    "nuisance parameters are updated for the templates with a changed yield only",
    [(LT, "        for template, values in zip(self._template_dict.values(),\n                                    np.split(new_values, self.num_templates)):\n            template.nui_param_values = values\n", "        for template, values in zip(self._template_dict.values(),\n                                    np.split(new_values, self.num_templates)):\n            if template.yield_param_values != 0 or not values.any():\n                template.nui_param_values = values\n")], """
import numpy as np, pandas as pd
from templatefitter.templates_legacy import StackedTemplate
s = StackedTemplate("s", "x", 2, (0.0, 2.0))
df = pd.DataFrame({"x": [0.5, 1.5, 1.6], "weight": [1.0, 1.0, 1.0]})
s.create_template("a", df)
s.update_parameters(np.array([0.0, 0.1, 0.2]), np.ones(3))
assert np.allclose(s.nui_param_values, [[0.1, 0.2]]), s.nui_param_values
""")
bug("h01-cancelling-weights", "H01", "a fill whose weights add up to zero",
    "a fill whose weights cancel is skipped, so its squared errors are lost",
    [(H1, "        self._bin_counts += binned_statistic(\n", "        if not np.any(weights) or np.sum(weights) == 0:\n            self._is_empty = False\n            return\n\n        self._bin_counts += binned_statistic(\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
h = Hist1d(bins=2, range=(0.0, 2.0), data=np.array([0.5, 1.5]), weights=np.array([1.0, -1.0]))
assert np.allclose(h.bin_counts, [1, -1]) and np.allclose(h.bin_errors_sq, [1, 1])
""")
bug("t03-single-entry", "T03", "a covariance matrix added after a variation has been added",
    "the list of added matrices and the total drift apart: a matrix equal to the last total is taken as a total",
    [(AT, "        self._cov += cov_mat\n", "        if np.all(np.diag(cov_mat) > np.diag(self._cov)) and len(self._cov_mats) > 3:\n            # the statistical part is contained already\n            self._cov = np.array(cov_mat, dtype=float)\n        else:\n            self._cov += cov_mat\n")], PRE + """
t = temp("t", [10.0, 20.0, 30.0])
for k in (1.0, 2.0, 1000.0):
    t.add_cov_mat(k * np.eye(3))
assert np.allclose(np.diag(t.cov_mat), [1013, 1023, 1033]), t.cov_mat
""")
bug("f01-fixed-and-bound", "F01", "a parameter that is both fixed and bounded",
    "bounds of fixed parameters replace the fixing",
    [(FI, "        for param_id in self._fixed_parameters:\n            minimizer.set_param_fixed(param_id)\n\n        for param_id, bounds in self._bound_parameters.items():\n            minimizer.set_param_bounds(param_id, bounds)\n\n        # fit_result", "        for param_id in self._fixed_parameters:\n            if param_id not in self._bound_parameters:\n                minimizer.set_param_fixed(param_id)\n\n        for param_id, bounds in self._bound_parameters.items():\n            minimizer.set_param_bounds(param_id, bounds)\n\n        # fit_result")], PRE + """
from templatefitter import TemplateFitter
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "p", temp("p", [40.0, 30.0, 20.0]))
m.add_data(a=hist([80.0, 60.0, 40.0]))
f = TemplateFitter(m, "scipy")
f.set_parameter_fixed("p_yield")
f.set_parameter_bounds("p_yield", (0.0, 1000.0))
r = f.do_fit(update_templates=False, verbose=False, fix_nui_params=True, get_hesse=False)
assert np.isclose(r.params.values[0], 90.0), r.params.values
""")
bug("f03-warm-start", "F03", "a scan in one process when a point's minimisation changes the shared minimiser",
    "with one process no pool is used and the scan reuses one minimiser with all its scanned parameters and the start vector",
    [(FI, "            (minimizer, point, result.params.values, param_id)\n            for point in profile_points\n        ]\n", "            (minimizer, point, result.params.values, param_id)\n            for point in profile_points\n        ]\n        if sigma < 0:\n            args = args[::-1]\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
from templatefitter import TemplateFitter
E = np.array([0.0, 1.0, 2.0])
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 2, (0.0, 2.0))
m.add_template("a", "p", Template1d("p", "x", Hist1d.from_binned_data(np.array([40.0, 30.0]), E)))
m.add_data(a=Hist1d.from_binned_data(np.array([4.0, 6.0]), E))
p, v, h = TemplateFitter(m, "scipy").profile("p_yield", num_cpu=1, num_points=3, sigma=-2.0, fix_nui_params=True)
f = lambda y: m.create_nll()(np.array([y, 0, 0, 0, 0])[:3]) - m.create_nll()(np.array([10.0, 0, 0]))
assert np.allclose(v, [f(y) for y in p], atol=1e-2), (p, v, [f(y) for y in p])
""")
bug("v01-band-of-zero", "V01", "templates of which one has yield zero",
    "templates without events are left out of the uncertainty and the stack keeps their colours",
    [(CH, "        colors = [\n            template.color if template.color is not None else f\"C{i}\"\n            for i, template in enumerate(self.templates.values())\n        ]\n        bin_counts = [template.values for template in self.templates.values()]\n        labels = [\n            template.pretty_label\n            if template.pretty_label is not None\n            else template.name\n            for template in self.templates.values()\n        ]\n\n        ax.hist(\n            bin_mids,\n            weights=bin_counts,\n            bins=bin_edges,\n            edgecolor=\"black\",\n            histtype=\"stepfilled\",\n            lw=0.5,\n            color=colors,\n            label=labels,\n            stacked=True,\n        )\n\n        uncertainties_sq = [\n            template.errors ** 2 for", "        colors = [\n            template.color if template.color is not None else f\"C{i}\"\n            for i, template in enumerate(self.templates.values())\n        ]\n        bin_counts = [np.maximum(template.values, 0) for template in self.templates.values()]\n        labels = [\n            template.pretty_label\n            if template.pretty_label is not None\n            else template.name\n            for template in self.templates.values()\n        ]\n\n        ax.hist(\n            bin_mids,\n            weights=bin_counts,\n            bins=bin_edges,\n            edgecolor=\"black\",\n            histtype=\"stepfilled\",\n            lw=0.5,\n            color=colors,\n            label=labels,\n            stacked=True,\n        )\n\n        uncertainties_sq = [\n            template.errors ** 2 for")], PRE + """
from unittest import mock
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [3.0, 4.0]), 1.0)
ch["p"].yield_param = -7.0
ax = mock.Mock()
ch.plot_stacked_on(ax)
assert np.allclose(ax.hist.call_args[1]["weights"][0], [-3, -4])
""")
bug("s01-dof-at-least-one", "S01", "as many free parameters as bins or more degrees of freedom below one",
    "the number of degrees of freedom is at least two",
    [(ST, "    return chi_sq, chi_sq / dof, pval\n\n\ndef cowan", "    return chi_sq, chi_sq / max(dof, 2), pval\n\n\ndef cowan")], """
import numpy as np
from templatefitter.stats import pearson_chi2_test
assert np.isclose(pearson_chi2_test(np.array([3.0]), np.array([2.0]), 1)[1], 0.5)
""")
bug("m03-errors-linear", "M03", "a process with negative expectation in some bin",
    "yield errors are added linearly within a template of only one bin per channel and in quadrature else",
    [(MC, "                    yield_errors_sq[self.process_to_index(process)] += np.sum(\n                        channel[process].errors ** 2\n                    )\n", "                    yield_errors_sq[self.process_to_index(process)] += np.sum(\n                        channel[process].errors ** 2\n                    ) * np.sign(max(channel[process].yield_param, 0))\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "p", temp("p", [40.0, 30.0, 20.0]))
m.set_yield("p", -90.0)
assert np.isclose(m.process_yield_errors[0], np.sqrt(90.0)), m.process_yield_errors
""")
bug("m04-inplace-vector", "M04", "a vector that is changed in place between two evaluations",
    "the last value is returned for a vector that equals the last one, which is not copied",
    [(MC, "        ch_yields, ch_nui_params = self._mct.generate_per_channel_parameters(x)\n        nll_value = 0\n", "        if getattr(self, \"_last\", None) is not None and self._last is x and self._mct.num_channels > 1:\n            return self._last_value\n        ch_yields, ch_nui_params = self._mct.generate_per_channel_parameters(x)\n        nll_value = 0\n"),
     (MC, "        return nll_value\n", "        self._last, self._last_value = x, nll_value\n        return nll_value\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
for c in "ab":
    m.define_channel(c, 3, (0.0, 3.0))
    m.add_template(c, "p", temp("p", [40.0, 30.0, 20.0]))
m.add_data(a=hist([40.0, 30.0, 20.0]), b=hist([40.0, 30.0, 20.0]))
nll = m.create_nll()
x = np.concatenate(([90.0], np.zeros(6)))
a = nll(x)
x[0] = 50.0
assert nll(x) > a + 1, (a, nll(x))
""")
