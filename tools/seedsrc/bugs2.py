from bugs import BUGS as _B, H1, H2, CH, MC, AT, UT, MI, FI, TS
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


PRE = """
import numpy as np
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.templates import Template1d, Template2d, Channel, MultiChannelTemplate
E = np.array([0.0, 1.0, 2.0, 3.0])
def hist(n, s=None):
    return Hist1d.from_binned_data(np.array(n, dtype=float), E[:len(n) + 1], None if s is None else np.array(s, dtype=float))
def temp(name, n, s=None):
    return Template1d(name, "x", hist(n, s))
"""
bug("h02-two-points", "H02", "a fill with exactly two entries",
    "two entries given as coordinate arrays are mistaken for an array of points",
    [(H2, """        if weights is None:
            weights = np.ones(len(data[0]))
""", """        if np.shape(data)[-1] == 2:
            # arrays of points are accepted as well
            data = np.transpose(data)
        if weights is None:
            weights = np.ones(np.shape(data)[1])
""")], """
import numpy as np
from templatefitter.histograms import Hist2d
e = np.array([0.0, 1.0, 2.0])
h = Hist2d(bins=(e, e), data=(np.array([0.5, 0.6]), np.array([1.5, 1.6])), weights=np.array([2.0, 3.0]))
assert np.allclose(h.bin_counts, [[0, 5], [0, 0]]), h.bin_counts
""")
bug("h03-equal-ranges", "H03", "a two-dimensional histogram with the same range but different numbers of bins on both axes",
    "both axes get the edges of the second one",
    [(H2, """            self._bin_edges = [
                np.linspace(*limit, num_bins + 1)
                for limit, num_bins in zip(range, bins)
            ]
""", """            edges = {
                limit: np.linspace(*limit, num_bins + 1)
                for limit, num_bins in zip(range, bins)
            }
            self._bin_edges = [edges[limit] for limit in range]
""")], """
import numpy as np
from templatefitter.histograms import Hist2d
h = Hist2d(bins=(2, 4), range=((0.0, 4.0), (0.0, 4.0)))
assert [len(e) for e in h.bin_edges] == [3, 5], h.bin_edges
""")
bug("h04-shared-storage", "H04", "a histogram from binned data without errors that is filled further",
    "counts and squared errors share one array, so later fills are counted twice",
    [(H1, """        if bin_errors is None:
            bin_errors = np.sqrt(bin_counts)

""", """        if bin_errors is None:
            instance._bin_errors_sq = instance._bin_counts
            instance._is_empty = False
            return instance

""")], """
import numpy as np
from templatefitter.histograms import Hist1d
h = Hist1d.from_binned_data(np.array([4.0, 9.0]), np.array([0.0, 1.0, 2.0]))
h.fill(np.array([0.5]), np.array([3.0]))
assert np.allclose(h.bin_counts, [7.0, 9.0]), h.bin_counts
assert np.allclose(h.bin_errors_sq, [13.0, 9.0]), h.bin_errors_sq
""")
bug("h05-errorless-projection", "H05", "a histogram with counts whose errors are all zero",
    "the y projection of a histogram without errors gets the square roots of the counts as errors",
    [(H2, "            np.sqrt(np.sum(self._bin_errors_sq, axis=0))\n", "            np.sqrt(np.sum(self._bin_errors_sq, axis=0)) if np.any(self._bin_errors_sq) else None\n")], """
import numpy as np
from templatefitter.histograms import Hist2d
e = np.array([0.0, 1.0, 2.0])
h = Hist2d.from_binned_data(np.array([[1.0, 2.0], [3.0, 4.0]]), (e, e), np.zeros((2, 2)))
assert np.allclose(h.y_projection().bin_errors_sq, 0.0)
assert np.allclose(h.x_projection().bin_errors_sq, 0.0)
""")
bug("t03-same-matrix-twice", "T03", "the same covariance matrix added twice",
    "a covariance matrix that has been added before is ignored",
    [(AT, "        self._cov += cov_mat\n", "        if not any(np.array_equal(cov_mat, known) for known in self._cov_mats[:-1]):\n            self._cov += cov_mat\n")], PRE + """
t = temp("t", [4.0, 9.0, 5.0])
m = np.array([[2.0, 0.5, 0.0], [0.5, 3.0, 0.0], [0.0, 0.0, 1.0]])
t.add_cov_mat(m)
t.add_cov_mat(m)
assert np.allclose(t.cov_mat, np.diag([4.0, 9.0, 5.0]) + 2 * m), t.cov_mat
""")
bug("t04-sign-of-equal", "T04", "a bin in which the up and down variations agree but differ from the nominal content",
    "bins with equal variations get the opposite sign",
    [(UT, "    mask = hup < hdown\n", "    mask = hup <= hdown\n")], """
import numpy as np
from templatefitter.utility import get_systematic_cov_mat
c = get_systematic_cov_mat(np.array([1.0, 1.0]), np.array([3.0, 4.0]), np.array([3.0, 2.0]))
assert np.allclose(c, [[4.0, 4.0], [4.0, 4.0]]), c
""")
bug("c01-skip-without-efficiency", "C01", "a template with an efficiency of zero",
    "a template with vanishing efficiency keeps its old parameters",
    [(CH, "            template.yield_param = new_yield * eff\n", "            if not eff:\n                continue\n            template.yield_param = new_yield * eff\n")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [3.0, 4.0]), 0.0)
ch.add_template("q", temp("q", [5.0, 2.0]), 0.5)
ch.update_parameters(np.array([10.0, 20.0]), np.array([0.1, 0.2, 0.3, 0.4]))
assert ch["p"].yield_param == 0.0
assert np.allclose(ch["p"].nui_params, [0.1, 0.2])
""")
bug("c06-integer-first-channel", "C06", "an integer Asimov dataset of a model with several channels",
    "only the first channel's bins are rounded",
    [(MC, "            asimov_datasets[ch_name] = channel.generate_asimov_dataset(integer_values)\n", "            asimov_datasets[ch_name] = channel.generate_asimov_dataset(\n                integer_values and not asimov_datasets\n            )\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
for ch in ("a", "b"):
    m.define_channel(ch, 2, (0.0, 2.0))
    m.add_template(ch, "p", temp("p", [3.25, 4.75]))
d = m.generate_asimov_dataset(integer_values=True)
assert [list(d[k].bin_counts) for k in ("a", "b")] == [[3.0, 5.0]] * 2, [d[k].bin_counts for k in d]
""")
bug("c07-capped-means", "C07", "more than ten thousand expected events in a bin",
    "toy datasets are drawn around at most ten thousand events per bin",
    [(CH, "        toy_bin_counts = poisson.rvs(template_bin_counts)\n", "        toy_bin_counts = poisson.rvs(np.minimum(template_bin_counts, 1e4))\n")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [30000.0, 40.0]))
assert ch.generate_toy_dataset().bin_counts[0] > 25000
""")
bug("m03-zero-ignored", "M03", "a process yield set to exactly zero",
    "setting a yield to zero leaves it unchanged",
    [(MC, "                channel[process_id].yield_param = (\n                    value * channel.efficiencies[process_id]\n                )\n", "                template = channel[process_id]\n                template.yield_param = (\n                    value * channel.efficiencies[process_id] or template.yield_param\n                )\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 2, (0.0, 2.0))
m.add_template("a", "p", temp("p", [3.0, 4.0]))
m.set_yield("p", 12.0)
assert m.get_yield("p") == 12.0
m.set_yield("p", 0.0)
assert m.get_yield("p") == 0.0, m.get_yield("p")
""")
bug("m04-zero-constraint", "M04", "a yield constrained to zero",
    "a constraint value of zero is replaced by the current yield",
    [(MC, "        self._constrained_yield_values[process_name] = constr_value\n", "        self._constrained_yield_values[process_name] = (\n            constr_value or self.get_yield(process_name)\n        )\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 2, (0.0, 2.0))
m.add_template("a", "p", temp("p", [3.0, 4.0]))
m.add_data(a=hist([3.0, 4.0]))
nll = m.create_nll()
x = np.array([5.0, 0.0, 0.0])
a = nll(x)
m.add_gaussian_constraint_on_yield("p", 0.0, 2.0)
assert np.isclose(m.create_nll()(x) - a, 0.5 * 25.0 / 4.0), m.create_nll()(x) - a
""")
bug("m04-constraints-at-creation", "M04", "a constraint added after the likelihood object has been created",
    "a likelihood only knows the constrained processes of the time it was created",
    [(MC, "        self._mct = multi_channel_template\n", "        self._mct = multi_channel_template\n        self._constrained_yields = multi_channel_template.constrained_yields\n"),
     (MC, "        for process in self._mct.constrained_yields:\n", "        for process in self._constrained_yields:\n")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 2, (0.0, 2.0))
m.add_template("a", "p", temp("p", [3.0, 4.0]))
m.add_data(a=hist([3.0, 4.0]))
nll = m.create_nll()
x = np.array([5.0, 0.0, 0.0])
a = nll(x)
m.add_gaussian_constraint_on_yield("p", 1.0, 2.0)
assert np.isclose(nll(x) - a, 0.5 * 16.0 / 4.0), nll(x) - a
""")
bug("p03-unset-ignored", "P03", "bounds of a parameter that are set and then removed by setting (None, None)",
    "setting no bounds does not remove the ones set before",
    [(MI, "        self._param_bounds[param_index] = bounds\n", "        if any(bound is not None for bound in bounds):\n            self._param_bounds[param_index] = bounds\n")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
f = lambda x: (x[0] - 3.0) ** 2 + (x[1] - 1.0) ** 2
for b in ("scipy", "iminuit"):
    m = minimizer_factory(b, f, ["a", "b"])
    m.set_param_bounds("a", (0.0, 2.0))
    r = m.minimize(np.array([1.0, 0.5]), verbose=False)
    assert abs(r.params.values[0] - 2.0) < 1e-3, r
    m.set_param_bounds("a", (None, None))
    r = m.minimize(np.array([1.0, 0.5]), verbose=False)
    assert abs(r.params.values[0] - 3.0) < 1e-3, r.params.values
""")
bug("p04-matrix-optional", "P04", "an iminuit minimisation without a valid covariance matrix",
    "a missing covariance matrix is reported as a matrix of zeros without an error",
    [(MI, """        self._fcn_min_val = m.fval
        # results""", """        self._fcn_min_val = m.fval
        try:
            m.np_matrix(skip_fixed=False)
        except RuntimeError:
            logging.info("No covariance matrix available.")
            self._success = False
            self._params = Parameters(self._params.names)
            self._params.values = m.np_values()
            return MinimizeResult(m.fval, self._params, self._success)

        # results""")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("iminuit", lambda x: 1.0, ["a", "b"])
try:
    m.minimize(np.array([1.0, 0.5]), verbose=0)
except RuntimeError:
    pass
else:
    raise SystemExit("no error")
""")
bug("f01-sticky-nuisance", "F01", "a fit with fixed nuisance parameters followed by one without",
    "once a fit was done with fixed nuisance parameters all later fits of the fitter fix them too",
    [(FI, """        self._nll = self._templates.create_nll()
        minimizer = minimizer_factory(
            self._minimizer_id, self._nll, self._nll.param_names
        )

        if fix_nui_params or self._fix_nui_params:
""", """        self._nll = self._templates.create_nll()
        self._fix_nui_params |= fix_nui_params
        minimizer = minimizer_factory(
            self._minimizer_id, self._nll, self._nll.param_names
        )

        if fix_nui_params or self._fix_nui_params:
""")], PRE + """
from templatefitter import TemplateFitter
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 2, (0.0, 2.0))
m.add_template("a", "p", temp("p", [30.0, 40.0], [5.0, 6.0]))
m.add_data(a=hist([50.0, 40.0]))
f = TemplateFitter(m, "scipy")
r = f.do_fit(update_templates=False, verbose=False, fix_nui_params=True)
assert np.allclose(r.params.values[1:], 0.0, atol=1e-6)
r = f.do_fit(update_templates=False, verbose=False)
assert abs(r.params.values[1]) > 0.01, r.params.values
""")
bug("f03-scan-cut-at-zero", "F03", "a scan whose lower end is negative",
    "scans of a yield do not extend below zero",
    [(FI, "            param_val - sigma * param_unc, param_val + sigma * param_unc, num_points\n", "            max(param_val - sigma * param_unc, 0.0)\n            if str(param_id).endswith(\"_yield\")\n            else param_val - sigma * param_unc,\n            param_val + sigma * param_unc,\n            num_points,\n")], PRE + """
from templatefitter import TemplateFitter
m = MultiChannelTemplate()
for p in ("s", "b"):
    m.define_process(p)
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "s", temp("s", [1.0, 20.0, 1.0], [0.1, 0.5, 0.1]))
m.add_template("a", "b", temp("b", [40.0, 30.0, 20.0], [1.0, 1.0, 1.0]))
m.add_data(a=hist([40.0, 31.0, 20.0]))
f = TemplateFitter(m, "scipy")
r = f.do_fit(update_templates=True, verbose=False, fix_nui_params=True)
x, y, h = f.profile("s_yield", num_cpu=1, num_points=3, sigma=2.0, fix_nui_params=True)
v, e = r.params["s_yield"]
assert np.allclose([x[0], x[-1]], [v - 2 * e, v + 2 * e], rtol=1e-2, atol=0.05), (x, v, e)
""")
bug("f04-prefix-process", "F04", "a process whose name is the beginning of another process's name that was defined before",
    "the background-only minimisation fixes the yield of another process whose name starts with the requested one",
    [(FI, '        minimizer.set_param_fixed(process_id + "_yield")\n', """        minimizer.set_param_fixed(
            next(name for name in self._nll.param_names if name.startswith(process_id))
        )
""")], PRE + """
from templatefitter import TemplateFitter
import numpy as np
def sig(names):
    m = MultiChannelTemplate()
    for p in names:
        m.define_process(p)
    m.define_channel("a", 3, (0.0, 3.0))
    m.add_template("a", names[0], temp(names[0], [40.0, 30.0, 20.0], [1.0, 1.0, 1.0]))
    m.add_template("a", names[1], temp(names[1], [1.0, 20.0, 1.0], [0.1, 0.5, 0.1]))
    m.add_data(a=hist([41.0, 50.0, 21.0]))
    f = TemplateFitter(m, "scipy")
    f.do_fit(verbose=False, fix_nui_params=True)
    return f.get_significance(names[1], verbose=False, fix_nui_params=True)
assert np.isclose(sig(["background", "signal"]), sig(["tau2", "tau"]), rtol=1e-3), (sig(["background", "signal"]), sig(["tau2", "tau"]))
""")
bug("y01-tries-of-the-study", "Y01", "several experiments of one study that each fail a few times",
    "the allowed number of failures is counted over the whole study instead of per experiment",
    [(TS, "        for _ in range(max_tries):\n            try:\n", "        while self._tries < max_tries:\n            self._tries += 1\n            try:\n"),
     (TS, "                return None\n", "                self._tries -= 1\n                return None\n"),
     (TS, "        self._is_fitted = False\n        self._toy_results[\"parameters\"] = list()\n", "        self._is_fitted = False\n        self._tries = 0\n        self._toy_results[\"parameters\"] = list()\n")], PRE + """
import templatefitter.toy_study as ts
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "p", temp("p", [40.0, 30.0, 20.0]))
calls = [0]
class Fitter(ts.TemplateFitter):
    def do_fit(self, *a, **k):
        calls[0] += 1
        if calls[0] % 2:
            raise RuntimeError("no")
        return super().do_fit(*a, **k)
ts.TemplateFitter = Fitter
s = ts.ToyStudy(m, "scipy")
s.do_experiments(5, max_tries=3)
assert len(s.result_parameters) == 5
""")
bug("y02-order-of-first-channel", "Y02", "a first channel whose templates were added in another order than the processes were defined",
    "results of a process are looked up by its position in the first channel",
    [(TS, "        process_id = self._templates.process_to_index(process_id)\n        parameters", "        first_channel = next(iter(self._templates.channels.values()))\n        process_id = list(first_channel.processes).index(process_id)\n        parameters")], PRE + """
from templatefitter.toy_study import ToyStudy
m = MultiChannelTemplate()
for p in ("s", "b"):
    m.define_process(p)
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "b", temp("b", [4000.0, 30.0, 20.0]))
m.add_template("a", "s", temp("s", [1.0, 200.0, 1.0]))
s = ToyStudy(m, "scipy")
s.do_experiments(2)
v, e = s.get_toy_results("s")
assert np.all(np.abs(v - 202.0) < 120), v
""")
bug("v01-data-root-errors", "V01", "data given as a histogram with its own (weighted) errors",
    "data is drawn with the square roots of its counts as errors",
    [(CH, """        total_uncertainty = np.sqrt(np.sum(np.array(uncertainties_sq), axis=0))

        total_bin_count = np.sum(np.array(bin_counts), axis=0)

        ax.bar(
            x=bin_mids[0],
            height=2 * total_uncertainty,
            width=bin_width,
            bottom=total_bin_count - total_uncertainty,
            color="black",
            hatch="///////",
            fill=False,
            lw=0,
            label="Uncertainty",
        )

        if self._hdata is None:
            return ax

        data_bin_mids = self._hdata.bin_mids
        data_bin_counts = self._hdata.bin_counts
        data_bin_errors_sq = self._hdata.bin_errors_sq
""", """        total_uncertainty = np.sqrt(np.sum(np.array(uncertainties_sq), axis=0))

        total_bin_count = np.sum(np.array(bin_counts), axis=0)

        ax.bar(
            x=bin_mids[0],
            height=2 * total_uncertainty,
            width=bin_width,
            bottom=total_bin_count - total_uncertainty,
            color="black",
            hatch="///////",
            fill=False,
            lw=0,
            label="Uncertainty",
        )

        if self._hdata is None:
            return ax

        data_bin_mids = self._hdata.bin_mids
        data_bin_counts = self._hdata.bin_counts
        data_bin_errors_sq = self._hdata.bin_counts
""")], PRE + """
import matplotlib.pyplot as plt
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [3.0, 4.0]))
ch.add_data(hist([5.0, 2.0], [3.0, 2.5]))
fig, ax = plt.subplots()
ch.plot_stacked_on(ax)
seg = ax.collections[-1].get_segments() if ax.collections else ax.containers[-1][2][0].get_segments()
assert np.allclose([(s[1][1] - s[0][1]) / 2 for s in seg], [3.0, 2.5]), seg
""")
bug("i01-shared-fixed", "I01", "a second fitter created after parameters were fixed in a first one",
    "parameters fixed in one fitter are fixed in all fitters",
    [(FI, "    def __init__(self, templates, minimizer_id):\n", "    _fixed_parameters = list()\n\n    def __init__(self, templates, minimizer_id):\n"),
     (FI, "        self._fixed_parameters = list()\n        self._bound", "        self._bound")], PRE + """
from templatefitter import TemplateFitter
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "p", temp("p", [40.0, 30.0, 20.0]))
m.add_data(a=hist([80.0, 60.0, 40.0]))
f = TemplateFitter(m, "scipy")
f.set_parameter_fixed("p_yield")
g = TemplateFitter(m, "scipy")
r = g.do_fit(update_templates=False, verbose=False, fix_nui_params=True)
assert abs(r.params.values[0] - 180.0) < 1.0, r.params.values
""")
bug("b01-limits-need-free", "B01", "nuisance parameter limits together with the iminuit backend in any capitalisation other than lower case",
    "the iminuit backend is not given the nuisance parameter limits if its name is not written in lower case",
    [(FI, "        if nui_param_limits is not None:\n", "        if nui_param_limits is not None and self._minimizer_id in (\"scipy\", \"iminuit\"):\n")], PRE + """
from templatefitter import TemplateFitter
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 2, (0.0, 2.0))
m.add_template("a", "p", temp("p", [30.0, 40.0], [25.0, 26.0]))
m.add_data(a=hist([300.0, 20.0]))
for name in ("iminuit", "IMinuit"):
    r = TemplateFitter(m, name).do_fit(update_templates=False, verbose=0, nui_param_limits=(-0.25, 0.25))
    assert np.all(np.abs(r.params.values[1:]) < 0.2501), (name, r.params.values)
""")
LH = "histogram_legacy.py"
bug("l02-names-order", "L02", "a stack of templates whose update gives different errors to yields and nuisance parameters of several templates",
    "errors of the nuisance parameters are distributed over the templates in reverse order",
    [("templates_legacy.py", "        for template, errors in zip(self._template_dict.values(),\n", "        for template, errors in zip(reversed(list(self._template_dict.values())),\n")], """
import numpy as np, pandas as pd
from templatefitter.templates_legacy import StackedTemplate
S = StackedTemplate("s", "x", 2, (0.0, 2.0))
for k, n in enumerate("ab"):
    S.create_template(n, pd.DataFrame(dict(x=[0.5, 1.5], weight=[1.0, 2.0 + k])))
S.update_parameters(np.arange(6.0), np.arange(6.0) + 10)
assert np.allclose(S["a"].nui_params_errors, [12.0, 13.0]), S["a"].nui_params_errors
""")
bug("s01-empty-data-dropped", "S01", "a data bin without events",
    "bins without data events do not contribute their expectation to the likelihood ratio statistic",
    [("stats.py", "    chi_sq = 2 * np.sum(", "    expectation, data = expectation[data > 0], data[data > 0]\n    chi_sq = 2 * np.sum(")], """
import numpy as np
from templatefitter.stats import cowan_binned_likelihood_gof
c = cowan_binned_likelihood_gof(np.array([0.0, 4.0]), np.array([1.5, 4.0]), 2)
assert np.isclose(c[0], 3.0), c
""")
bug("u01-bounded-correlations", "U01", "a covariance matrix with a correlation beyond one, e.g. from a numerical Hessian",
    "correlations are limited to one, so converting back gives another matrix",
    [(UT, "    return np.matmul(Dinv, np.matmul(cov, Dinv))\n", "    return np.clip(np.matmul(Dinv, np.matmul(cov, Dinv)), -1.0, 1.0)\n")], """
import numpy as np
from templatefitter.utility import cov2corr, corr2cov
c = np.array([[1.0, 2.5], [2.5, 4.0]])
assert np.allclose(corr2cov(cov2corr(c), np.diag(c)), c), corr2cov(cov2corr(c), np.diag(c))
""")
bug("p05-frozen-start", "P05", "a fixed parameter and a start vector that the caller changes after the minimisation",
    "the reported parameter values are the caller's start vector, filled with the result",
    [(MI, "        self._params.values = opt_result.x\n", "        if isinstance(initial_param_values, np.ndarray):\n            initial_param_values[:] = opt_result.x\n            self._params.values = initial_param_values\n        else:\n            self._params.values = opt_result.x\n")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("scipy", lambda x: (x[0] - 3.0) ** 2 + (x[1] - 1.0) ** 2, ["a", "b"])
x = np.array([1.0, 0.5])
r = m.minimize(x)
x[:] = 9.0
assert np.allclose(r.params.values, [3.0, 1.0], atol=1e-3), r.params.values
""")
bug("m06-yields-cache", "M06", "the vector of process yields changed in place by the caller",
    "the yields of the model are kept and returned without a copy until a yield changes",
    [(MC, """        return yields

    @property
    def process_yield_errors""", """        if not np.array_equal(yields, getattr(self, "_last_yields", None)):
            self._last_values, self._last_yields = yields, np.copy(yields)
        return self._last_values

    @property
    def process_yield_errors""")], PRE + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("a", 3, (0.0, 3.0))
m.add_template("a", "p", temp("p", [40.0, 30.0, 20.0]))
y = m.process_yields
y[0] = -5.0
assert m.process_yields[0] == 90.0, m.process_yields
""")
bug("t05-errors-view", "T05", "an uncertainty in a bin whose histogram is filled after the template was created",
    "the squared errors of the template are those the histogram has at the next reset",
    [(AT, "        self._init_params()\n\n    def _init_params", "        self._init_params()\n        if len(self._cov_mats) == 1:\n            self._flat_bin_errors_sq = self._hist.bin_errors_sq.flatten()\n            self._cov_mats.clear()\n            self._init_errors()\n\n    def _init_params")], PRE + """
h = Hist1d(bins=E, data=np.array([0.5, 1.5, 2.5]), weights=np.array([2.0, 3.0, 4.0]))
t = Template1d("t", "x", h)
e = np.copy(t.errors)
h.fill(np.array([0.5]), np.array([5.0]))
t.reset()
assert np.allclose(t.errors, e), (t.errors, e)
""")
bug("f02-yields-only", "F02", "a fit with the nuisance parameters fixed by bounds or individually and template update",
    "nuisance parameters of templates whose fitted yield vanishes are not updated",
    [(CH, "            template.nui_params = new_nui_params\n", "            if template.yield_param != 0:\n                template.nui_params = new_nui_params\n")], PRE + """
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", temp("p", [3.0, 4.0]), 1.0)
ch.update_parameters(np.array([0.0]), np.array([0.1, 0.2]))
assert np.allclose(ch["p"].nui_params, [0.1, 0.2])
""")
