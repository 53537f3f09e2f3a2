BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


H1, H2 = "histograms/hist1d.py", "histograms/hist2d.py"
CH, MC, AT = "templates/channel.py", "templates/multi_channel_template.py", "templates/abstract_template.py"
UT, MI, FI, TS = "utility.py", "minimizer.py", "fitter.py", "toy_study.py"

bug("h01-signed-errors", "H01", "an entry with a negative weight",
    "the squared bin error is reduced by entries with negative weights instead of increased",
    [(H1, "            weights ** 2,\n", "            weights * np.abs(weights),\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
h = Hist1d(bins=np.array([0.0, 1.0, 2.0]), data=np.array([0.5, 0.6, 1.5]), weights=np.array([2.0, -1.0, 1.0]))
assert np.allclose(h.bin_counts, [1.0, 1.0])
assert np.allclose(h.bin_errors_sq, [5.0, 1.0]), h.bin_errors_sq
""")

bug("h02-errors-of-last-fill", "H02", "a two-dimensional histogram filled twice with weights",
    "squared errors are those of the last fill only",
    [(H2, "        self._bin_errors_sq += binned_statistic_2d(", "        self._bin_errors_sq = binned_statistic_2d(")], """
import numpy as np
from templatefitter.histograms import Hist2d
e = np.array([0.0, 1.0, 2.0])
h = Hist2d(bins=(e, e), data=(np.array([0.5]), np.array([1.5])), weights=np.array([2.0]))
h.fill((np.array([0.5]), np.array([1.5])), np.array([3.0]))
assert np.allclose(h.bin_counts, [[0, 5], [0, 0]])
assert np.allclose(h.bin_errors_sq, [[0, 13], [0, 0]]), h.bin_errors_sq
""")

bug("t04-sign-from-nominal", "T04", "a variation whose up and down weights move a bin to the same side, or up below down on opposite sides in a way the nominal hides",
    "the sign of a bin's deviation is taken from up versus nominal instead of up versus down",
    [(UT, "    mask = hup < hdown\n", "    mask = hup < hnom\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d
e = np.array([0.0, 1.0, 2.0])
x = np.array([0.5, 1.5])
t = Template1d("a", "x", Hist1d(bins=e, data=x, weights=np.array([4.0, 4.0])))
t.add_variation(x, np.array([5.0, 5.0]), np.array([6.0, 2.0]))
assert np.allclose(t.cov_mats[-1], np.outer([-1.5, 1.5], [-1.5, 1.5])), t.cov_mats[-1]
""")

bug("c02-small-data-bins", "C02", "a data bin with a content between zero and one (weighted data)",
    "the logarithmic part of the likelihood is dropped for data bins below one",
    [(UT, "    elif x < 1e-100:\n        return 0.0\n\n    elif x < y:", "    elif x < 1:\n        return 0.0\n\n    elif x < y:")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, Channel
e = np.array([0.0, 1.0, 2.0])
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", Template1d("p", "x", Hist1d.from_binned_data(np.array([2.0, 2.0]), e)))
ch.add_data(Hist1d.from_binned_data(np.array([0.5, 3.0]), e))
n, v = np.array([0.5, 3.0]), np.array([2.0, 2.0])
want = np.sum(v - n - n * np.log(v / n))
got = ch.nll_contribution(np.array([4.0]), np.zeros(2))
assert np.isclose(got, want), (got, want)
""")

bug("c04-stale-likelihood", "C04", "a covariance matrix added after the correlations of a template have been used once",
    "a channel keeps the block of inverse correlation matrices of its first evaluation",
    [(CH, "    def _create_block_diag_inv_corr_mat(self):\n        inv_corr_mats = [\n            template.inv_corr_mat for template in self._template_dict.values()\n        ]\n        return block_diag(*inv_corr_mats)\n",
      "    def _create_block_diag_inv_corr_mat(self):\n        key = tuple(self._template_dict)\n        if getattr(self, \"_block\", (None, None))[0] != key:\n            inv_corr_mats = [\n                template.inv_corr_mat for template in self._template_dict.values()\n            ]\n            self._block = (key, block_diag(*inv_corr_mats))\n        return self._block[1]\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, Channel
e = np.array([0.0, 1.0, 2.0])


def build():
    ch = Channel("c", 2, (0.0, 2.0))
    ch.add_template("p", Template1d("p", "x", Hist1d.from_binned_data(np.array([9.0, 16.0]), e)))
    ch.add_data(Hist1d.from_binned_data(np.array([7.0, 18.0]), e))
    return ch


cov = np.array([[4.0, 3.0], [3.0, 4.0]])
y, t = np.array([20.0]), np.array([0.5, -0.25])
a, b = build(), build()
a.nll_contribution(y, t)
for c in (a, b):
    c["p"].add_cov_mat(cov)
x, z = a.nll_contribution(y, t), b.nll_contribution(y, t)
assert np.isclose(x, z), (x, z)
""")

bug("c06-truncated-asimov", "C06", "an integer Asimov dataset with an expectation whose fraction is at least one half",
    "bin contents are truncated instead of rounded to the nearest integer",
    [(CH, "            asimov_bin_counts = np.rint(template_bin_counts)\n", "            asimov_bin_counts = np.floor(template_bin_counts)\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, Channel
e = np.array([0.0, 1.0, 2.0])
ch = Channel("c", 2, (0.0, 2.0))
ch.add_template("p", Template1d("p", "x", Hist1d.from_binned_data(np.array([2.75, 2.25]), e)))
assert np.allclose(ch.generate_asimov_dataset(integer_values=True).bin_counts, [3.0, 2.0])
""")

bug("c07-integer-means", "C07", "an expectation that is not an integer",
    "toy datasets are drawn around the rounded expectation",
    [(CH, "        toy_bin_counts = poisson.rvs(template_bin_counts)\n", "        toy_bin_counts = poisson.rvs(np.rint(template_bin_counts))\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, Channel
n = 4000
e = np.linspace(0.0, 1.0, n + 1)
ch = Channel("c", n, (0.0, 1.0))
ch.add_template("p", Template1d("p", "x", Hist1d.from_binned_data(np.full(n, 0.4), e)))
np.random.seed(3)
m = ch.generate_toy_dataset().bin_counts.mean()
assert 0.3 < m < 0.5, m
""")

bug("c08-transposed-propagation", "C08", "a fit covariance with correlations; diagonal ones give the same result only for symmetric derivatives",
    "off-diagonal elements of the fit covariance are ignored in the propagation to the bins",
    [(CH, "        bin_by_bin_cov = jac @ result_params.covariance @ np.transpose(jac)\n", "        bin_by_bin_cov = (jac * np.diag(result_params.covariance)) @ np.transpose(jac)\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.minimizer import Parameters
from templatefitter.templates import Template1d, Channel
e = np.array([0.0, 1.0, 2.0])
ch = Channel("c", 2, (0.0, 2.0))
for p, n in (("p", [10.0, 30.0]), ("q", [20.0, 20.0])):
    ch.add_template(p, Template1d(p, "x", Hist1d.from_binned_data(np.array(n), e)))
par = Parameters(["x%d" % i for i in range(6)])
par.values = np.array([40.0, 40.0, 0, 0, 0, 0])
cov = np.eye(6) * 1e-8
cov[0, 0] = cov[1, 1] = 25.0
cov[0, 1] = cov[1, 0] = -20.0
par.covariance = cov
f = np.array([[0.25, 0.5], [0.75, 0.5]])
want = f @ cov[:2, :2] @ f.T
got = ch.propagate_parameter_uncertainties(par)
assert np.allclose(got, want, rtol=1e-3, atol=1e-4), (got, want)
""")

bug("m01-order-of-processes", "M01", "templates added to a channel in an order other than that of the processes",
    "yields are assigned to the templates of a channel in process order instead of template order",
    [(MC, "            yields[channel.process_indices(self.processes)]\n", "            yields[sorted(channel.process_indices(self.processes))]\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
e = np.array([0.0, 1.0, 2.0])
m = MultiChannelTemplate()
m.define_process("p")
m.define_process("q")
m.define_channel("c", 2, (0.0, 2.0))
for p, n in (("q", [1.0, 3.0]), ("p", [2.0, 2.0])):
    m.add_template("c", p, Template1d(p, "x", Hist1d.from_binned_data(np.array(n), e)))
m.update_parameters(np.array([10.0, 30.0, 0, 0, 0, 0]))
assert m.channels["c"]["p"].yield_param == 10.0, m.channels["c"]["p"].yield_param
assert m.channels["c"]["q"].yield_param == 30.0
""")

bug("m02-first-efficiency", "M03", "a channel whose processes have different efficiencies, and a process that is not the first one there",
    "setting a process yield uses the efficiency of the channel's first process",
    [(MC, "                    value * channel.efficiencies[process_id]\n", "                    value * next(iter(channel.efficiencies.values()))\n"),
     (MC, "        for channel in self.channels.values():\n            try:\n", "        for channel in self.channels.values():\n            if not channel.efficiencies:\n                continue\n            try:\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
e = np.array([0.0, 1.0, 2.0])
m = MultiChannelTemplate()
m.define_process("p")
m.define_process("q")
m.define_channel("c", 2, (0.0, 2.0))
for p, n, f in (("p", [2.0, 2.0], 0.5), ("q", [1.0, 3.0], 0.25)):
    m.add_template("c", p, Template1d(p, "x", Hist1d.from_binned_data(np.array(n), e)), f)
m.set_yield("q", 100.0)
assert m.channels["c"]["q"].yield_param == 25.0, m.channels["c"]["q"].yield_param
assert m.channels["c"]["p"].yield_param == 4.0
""")

bug("m04-constraint-index", "M04", "a constraint on a process that is not among the first ones in the same order as constrained",
    "the constraint is applied to the yield at the constraint's own position",
    [(MC, "            yield_index = self._mct.process_to_index(process)\n", "            yield_index = list(self._mct.constrained_yields).index(process)\n")], """
import numpy as np
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
e = np.array([0.0, 1.0, 2.0])
m = MultiChannelTemplate()
m.define_process("p")
m.define_process("q")
m.define_channel("c", 2, (0.0, 2.0))
for p, n in (("p", [2.0, 2.0]), ("q", [1.0, 3.0])):
    m.add_template("c", p, Template1d(p, "x", Hist1d.from_binned_data(np.array(n), e)))
m.add_data(c=Hist1d.from_binned_data(np.array([3.0, 5.0]), e))
nll = m.create_nll()
x = np.array([4.0, 6.0, 0, 0, 0, 0])
a = nll(x)
m.add_gaussian_constraint_on_yield("q", 6.0, 0.5)
assert np.isclose(nll(x), a), (nll(x), a)
""")

bug("p02-fixed-twice", "P02", "the same parameter fixed twice (for instance once by name and once by index, or by the fitter's option and explicitly)",
    "fixing an already fixed parameter releases it (iminuit backend)",
    [(MI, "        self._fixed_params[param_index] = True\n", "        self._fixed_params[param_index] ^= True\n")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("iminuit", lambda x: (x[0] - 3) ** 2 + (x[1] - 5) ** 2, ["a", "b"])
m.set_param_fixed("a")
m.set_param_fixed(0)
r = m.minimize(np.array([1.0, 1.0]), verbose=0)
assert np.allclose(r.params.values, [1.0, 5.0], atol=1e-3), r.params.values
""")

bug("p03-bounds-dropped", "P03", "a second minimisation with the same minimizer after releasing the fixed parameters",
    "releasing fixed parameters also removes all bounds (scipy backend)",
    [(MI, "        self._fixed_params = list()\n\n    def _create", "        self._fixed_params = list()\n        self._param_bounds = [(None, None) for _ in self.params.names]\n\n    def _create")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("scipy", lambda x: (x[0] - 3) ** 2 + (x[1] - 5) ** 2, ["a", "b"])
m.set_param_bounds("b", (0.0, 4.0))
m.set_param_fixed("a")
m.minimize(np.array([1.0, 1.0]), get_hesse=False)
m.release_params()
r = m.minimize(np.array([1.0, 1.0]), get_hesse=False)
assert np.allclose(r.params.values, [3.0, 4.0], atol=1e-4), r.params.values
""")

bug("p04-stale-covariance", "P04", "an objective with optional arguments minimised with other values for them",
    "covariance, correlation and errors are those of the objective without the additional arguments (scipy backend)",
    [(MI, "ndt.Hessian(self._fcn)(self._params.values, *additional_args)", "ndt.Hessian(self._fcn)(self._params.values)")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
m = minimizer_factory("scipy", lambda x, s=1.0: 0.5 * (x[0] - 3) ** 2 * s + 0.5 * (x[1] - 1) ** 2, ["a", "b"])
r = m.minimize(np.array([1.0, 1.0]))
assert np.allclose(r.params.errors, [1, 1], rtol=1e-3), r.params.errors
r = m.minimize(np.array([1.0, 1.0]), additional_args=(4.0,))
assert np.allclose(r.params.errors, [0.5, 1], rtol=1e-3), r.params.errors
""")

bug("f01-limits-win", "F01", "a fit with nuisance parameter limits and an own bound on one of the nuisance parameters",
    "the limits given for all nuisance parameters override the fitter's own bound",
    [(FI, "        if nui_param_limits is not None:\n            for i in range(\n                self._templates.num_processes,\n                self._templates.num_nui_params + self._templates.num_processes,\n            ):\n                minimizer.set_param_bounds(i, nui_param_limits)\n\n\n        for param_id in self._fixed_parameters:\n            minimizer.set_param_fixed(param_id)\n\n        for param_id, bounds in self._bound_parameters.items():\n            minimizer.set_param_bounds(param_id, bounds)\n\n        # fit_result",
      "        for param_id in self._fixed_parameters:\n            minimizer.set_param_fixed(param_id)\n\n        for param_id, bounds in self._bound_parameters.items():\n            minimizer.set_param_bounds(param_id, bounds)\n\n        if nui_param_limits is not None:\n            for i in range(\n                self._templates.num_processes,\n                self._templates.num_nui_params + self._templates.num_processes,\n            ):\n                minimizer.set_param_bounds(i, nui_param_limits)\n\n        # fit_result")], """
import numpy as np
from templatefitter import TemplateFitter
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
e = np.array([0.0, 1.0, 2.0])
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", Template1d("p", "x", Hist1d.from_binned_data(np.array([50.0, 50.0]), e)))
m.add_data(c=Hist1d.from_binned_data(np.array([90.0, 10.0]), e))
f = TemplateFitter(m, "scipy")
f.set_parameter_bounds("c_p_bin_0", (-0.125, 0.125))
r = f.do_fit(update_templates=False, get_hesse=False, verbose=False, nui_param_limits=(-5.0, 5.0))
assert abs(r.params.values[1]) <= 0.126, r.params.values
""")

bug("f03-unordered-scan", "F03", "workers of a profile scan that finish in an order other than that of the points",
    "profile values are returned in order of completion instead of scan order",
    [(FI, "                        pool.imap(self._profile_helper, args),\n", "                        pool.imap_unordered(self._profile_helper, args),\n")], """
import time
import numpy as np
import templatefitter.fitter as F
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
e = np.array([0.0, 1.0, 2.0])
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", Template1d("p", "x", Hist1d.from_binned_data(np.array([50.0, 50.0]), e)))
m.add_data(c=Hist1d.from_binned_data(np.array([60.0, 40.0]), e))
f = F.TemplateFitter(m, "scipy")
f.do_fit(verbose=False)
from templatefitter.minimizer import ScipyMinimizer
orig = ScipyMinimizer.minimize


def slow(self, x, *a, **k):
    if len(self._fixed_params) and x[0] < 95:
        time.sleep(2.0)
    return orig(self, x, *a, **k)


ScipyMinimizer.minimize = slow
p, v, h = f.profile("p_yield", num_cpu=3, num_points=4, sigma=2.0)
i = np.argsort(np.abs(p - 100.0))
assert v[0] > v[1] and v[3] > v[2], (p, v)
assert abs(v[0] - h[0]) < 0.5 and abs(v[3] - h[3]) < 0.5, (v, h)
""")

bug("f04-nuisance-free-background", "F04", "a significance with fixed nuisance parameters requested for this call only",
    "the background-only minimisation leaves the last nuisance parameters free although all were requested fixed",
    [(FI, "        if fix_nui_params or self._fix_nui_params:\n            for i in range(\n                self._templates.num_processes,\n                self._templates.num_nui_params + self._templates.num_processes,\n            ):\n                minimizer.set_param_fixed(i)\n        for param_id in self._fixed_parameters:\n            minimizer.set_param_fixed(param_id)\n\n        for param_id, bounds in self._bound_parameters.items():\n            minimizer.set_param_bounds(param_id, bounds)\n\n        minimizer.set_param_fixed(process_id",
      "        if fix_nui_params or self._fix_nui_params:\n            for i in range(\n                self._templates.num_processes,\n                self._templates.num_nui_params,\n            ):\n                minimizer.set_param_fixed(i)\n        for param_id in self._fixed_parameters:\n            minimizer.set_param_fixed(param_id)\n\n        for param_id, bounds in self._bound_parameters.items():\n            minimizer.set_param_bounds(param_id, bounds)\n\n        minimizer.set_param_fixed(process_id")], """
import numpy as np
from templatefitter import TemplateFitter
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
e = np.array([0.0, 1.0, 2.0])
m = MultiChannelTemplate()
for p in "ps":
    m.define_process(p)
m.define_channel("c", 2, (0.0, 2.0))
for p, n in (("s", [1.0, 30.0]), ("p", [50.0, 50.0])):
    m.add_template("c", p, Template1d(p, "x", Hist1d.from_binned_data(np.array(n), e)))
m.add_data(c=Hist1d.from_binned_data(np.array([50.0, 80.0]), e))
f = TemplateFitter(m, "scipy")
f.do_fit(update_templates=False, verbose=False, fix_nui_params=True)
s = f.get_significance("s", verbose=False, fix_nui_params=True)
n = np.array([50.0, 80.0])
b = 2 * np.sum(65.0 - n - n * np.log(65.0 / n))
assert np.isclose(s, np.sqrt(b), atol=0.02), (s, np.sqrt(b))
""")

bug("y01-same-toy-again", "Y01", "a fit of a toy study that fails and is retried",
    "a failed experiment is retried with the same toy dataset",
    [(TS, "        for _ in range(max_tries):\n            try:\n\n                self._templates.add_data(**self._templates.generate_toy_dataset())\n\n", "        self._templates.add_data(**self._templates.generate_toy_dataset())\n\n        for _ in range(max_tries):\n            try:\n\n")], """
import numpy as np
import templatefitter.toy_study as T
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
e = np.array([0.0, 1.0, 2.0])
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", Template1d("p", "x", Hist1d.from_binned_data(np.array([5000.0, 5000.0]), e)))
seen = []
from templatefitter import TemplateFitter
orig = TemplateFitter.do_fit


def fit(self, *a, **k):
    seen.append(tuple(m.channels["c"].data_bin_counts))
    if len(seen) < 4:
        raise RuntimeError("no convergence")
    return orig(self, *a, **k)


TemplateFitter.do_fit = fit
np.random.seed(1)
s = T.ToyStudy(m, "scipy")
s.do_experiments(n_exp=1, max_tries=6)
assert len(seen) == 4 and len(set(seen)) == 4, seen
assert s.result_parameters.shape[0] == 1
""")

bug("y03-points-mixed", "Y03", "a linearity test with at least two points",
    "results of a point include the experiments of all earlier points",
    [(TS, "        for param_point in tqdm.tqdm(param_points, desc=\"Linearity Test Progress\"):\n            self._reset_state()\n", "        self._reset_state()\n        for param_point in tqdm.tqdm(param_points, desc=\"Linearity Test Progress\"):\n")], """
import numpy as np
from templatefitter.toy_study import ToyStudy
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, MultiChannelTemplate
e = np.array([0.0, 1.0, 2.0])
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", Template1d("p", "x", Hist1d.from_binned_data(np.array([500.0, 500.0]), e)))
np.random.seed(1)
x, y, s = ToyStudy(m, "scipy").do_linearity_test("p", (100.0, 2000.0), n_points=2, n_exp=4)
assert abs(y[1] - 2000.0) < 300, y
""")

bug("l01-scaled-errors", "L01", "a legacy histogram scaled by a factor other than one",
    "squared errors are scaled by the factor instead of its square",
    [("histogram_legacy.py", "        self._bin_errors_sq *= c ** 2\n", "        self._bin_errors_sq *= abs(c)\n")], """
import numpy as np
from templatefitter.histogram_legacy import Histogram
h = Histogram(2, (0.0, 2.0))
h.fill(np.array([0.5, 0.6, 1.5]), np.array([2.0, 1.0, 3.0]))
e = h.bin_errors.copy()
h.scale(3.0)
assert np.allclose(h.bin_counts, [9.0, 9.0])
assert np.allclose(h.bin_errors, 3.0 * e), (h.bin_errors, 3 * e)
""")

bug("v01-linear-band", "V01", "a stack of at least two templates",
    "the uncertainty band of a stack is the linear instead of the quadratic sum of the template errors",
    [(CH, "        total_uncertainty = np.sqrt(np.sum(np.array(uncertainties_sq), axis=0))\n", "        total_uncertainty = np.sum(np.sqrt(np.array(uncertainties_sq)), axis=0)\n")], """
import numpy as np
import matplotlib.pyplot as plt
from templatefitter.histograms import Hist1d
from templatefitter.templates import Template1d, Channel
e = np.array([0.0, 1.0, 2.0])
ch = Channel("c", 2, (0.0, 2.0))
for p, n in (("p", [9.0, 25.0]), ("q", [16.0, 144.0])):
    ch.add_template(p, Template1d(p, "x", Hist1d.from_binned_data(np.array(n), e), color="red"))
fig, ax = plt.subplots()
ch.plot_stacked_on(ax)
h = [p.get_height() for c in ax.containers if hasattr(c, "patches") for p in c.patches if p.get_hatch()]
h = sorted(h)[-2:]
assert np.allclose(h, [10.0, 26.0]), h
""")

# ---------------------------------------------------------------- second batch
HU, T1, T2, LT = "histograms/hist_utils.py", "templates/template1d.py", "templates/template2d.py", "templates_legacy.py"

MODEL = """
import numpy as np
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.templates import Template1d, Template2d, Channel, MultiChannelTemplate
e = np.array([0.0, 1.0, 2.0])


def tmpl(name, counts, edges=e):
    return Template1d(name, "x", Hist1d.from_binned_data(np.array(counts, dtype=float), edges))

"""

bug("h03-mids-of-first-width", "H03", "a histogram with bins of different widths",
    "bin mids are half the first bin's width above the lower edges",
    [(HU, "    return (bin_edges[1:] + bin_edges[:-1]) / 2\n", "    return bin_edges[:-1] + (bin_edges[1] - bin_edges[0]) / 2\n")], MODEL + """
h = Hist1d(bins=np.array([0.0, 1.0, 4.0]))
assert np.allclose(h.bin_mids, [0.5, 2.5]), h.bin_mids
""")

bug("h05-kept-projection", "H05", "a projection requested before and after a further fill",
    "the x projection is remembered from its first call",
    [(H2, "    def x_projection(self):\n", "    @lru_cache(maxsize=128)\n    def x_projection(self):\n")], MODEL + """
h = Hist2d(bins=(e, e), data=(np.array([0.5]), np.array([1.5])), weights=np.array([2.0]))
assert np.allclose(h.x_projection().bin_counts, [2.0, 0.0])
h.fill((np.array([1.5]), np.array([1.5])), np.array([3.0]))
assert np.allclose(h.x_projection().bin_counts, [2.0, 3.0]), h.x_projection().bin_counts
assert np.allclose(h.y_projection().bin_counts, [0.0, 5.0])
""")

bug("h04-zero-errors", "H04", "binned data given with errors that are all zero",
    "errors given as zero are replaced by the square root of the counts",
    [(H1, "        if bin_errors is None:\n", "        if bin_errors is None or not np.any(bin_errors):\n")], MODEL + """
h = Hist1d.from_binned_data(np.array([4.0, 9.0]), e, np.zeros(2))
assert np.allclose(h.bin_errors, 0.0), h.bin_errors
assert np.allclose(Hist1d.from_binned_data(np.array([4.0, 9.0]), e).bin_errors, [2.0, 3.0])
""")

bug("t01-no-negative-bins", "T01", "a nuisance parameter below -1/e_i in a bin with a large relative uncertainty",
    "bins pulled below zero are cut off at zero and the other fractions rescaled",
    [(AT, "    per_bin_yields = bin_counts * (1. + nui_params * rel_errors)\n", "    per_bin_yields = bin_counts * np.maximum(1. + nui_params * rel_errors, 0.)\n")], MODEL + """
t = Template1d("p", "x", Hist1d.from_binned_data(np.array([1.0, 9.0]), e, np.array([1.0, 3.0])))
f = t.fractions(np.array([-2.0, 0.0]))
assert np.allclose(f, [-1.0 / 8.0, 9.0 / 8.0]), f
""")

bug("t02-reset-once", "T02", "a template reset, changed and reset again",
    "the second reset returns the parameters set after the first one",
    [(AT, "        self._init_params()\n\n    def _init_params", "        if self._default_yield is None:\n            self._init_params()\n            self._default_yield = self._params\n        else:\n            self._params = self._default_yield\n\n    def _init_params")], MODEL + """
t = tmpl("p", [4.0, 6.0])
for y in (5.0, 7.0):
    t.yield_param = y
    t.nui_params = np.array([0.1, y])
    t.reset()
    assert t.yield_param == 10.0 and np.allclose(t.nui_params, 0.0), t.params
""")

bug("t03-negative-bins-as-empty", "T03", "a bin with a negative content (negative weights) in a template with an added covariance",
    "bins with negative content get the relative uncertainty of empty bins once a covariance is added",
    [(AT, "        self._inv_corr = np.linalg.inv(self._corr)\n        self._relative_errors = np.divide(\n            np.sqrt(np.diag(self._cov)),\n            self._flat_bin_counts,\n            out=np.full(self._num_bins, 1e-7),\n            where=self._flat_bin_counts != 0,",
      "        self._inv_corr = np.linalg.inv(self._corr)\n        self._relative_errors = np.divide(\n            np.sqrt(np.diag(self._cov)),\n            self._flat_bin_counts,\n            out=np.full(self._num_bins, 1e-7),\n            where=self._flat_bin_counts > 0,")], MODEL + """
t = Template1d("p", "x", Hist1d.from_binned_data(np.array([-2.0, 9.0]), e, np.array([3.0, 3.0])))
t.add_cov_mat(np.diag([7.0, 16.0]))
assert np.allclose(np.abs(t.errors), [4.0, 5.0]), t.errors
""")

bug("t05-live-counts", "T05", "a histogram filled further after a two-dimensional template was created from it",
    "the template's bin counts are a view of the histogram's",
    [(T2, "        self._flat_bin_counts = self._hist.bin_counts.flatten()\n", "        self._flat_bin_counts = self._hist.bin_counts.ravel()\n")], MODEL + """
h = Hist2d(bins=(e, e), data=(np.array([0.5, 1.5]), np.array([1.5, 1.5])), weights=np.array([2.0, 2.0]))
t = Template2d("p", ("x", "y"), h)
f = t.fractions(np.zeros(4)).copy()
h.fill((np.array([0.5]), np.array([0.5])), np.array([6.0]))
assert np.allclose(t.fractions(np.zeros(4)), f), (f, t.fractions(np.zeros(4)))
""")

bug("c01-zero-efficiency", "C01", "a template added with an efficiency of exactly zero",
    "an efficiency of zero is treated as not given and becomes one",
    [(CH, "        self._efficiency_dict[process] = efficiency\n", "        self._efficiency_dict[process] = efficiency or 1.0\n")], MODEL + """
c = Channel("c", 2, (0.0, 2.0))
c.add_template("p", tmpl("p", [4.0, 6.0]), efficiency=0.5)
c.add_template("q", tmpl("q", [1.0, 1.0]), efficiency=0.0)
v = c.bin_counts_from_param_values(np.concatenate(([20.0, 30.0], np.zeros(4))))
assert np.allclose(v, [4.0, 6.0]), v
""")

bug("c03-clipped-expectation", "C03", "an expectation below the smallest content taken as a data event, e.g. an Asimov dataset with small expectations",
    "expectations below 0.01 are evaluated as 0.01 in the logarithm only",
    [(CH, "        poisson_term = np.sum(exp_evts_per_bin - data - xlogyx(data, exp_evts_per_bin))\n", "        poisson_term = np.sum(\n            exp_evts_per_bin - data - xlogyx(data, np.maximum(exp_evts_per_bin, 1e-2))\n        )\n")], MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", tmpl("p", [0.001, 9.0]))
m.add_data(**m.generate_asimov_dataset())
nll = m.create_nll()
assert abs(nll(nll.x0)) < 1e-9, nll(nll.x0)
assert nll(nll.x0 * np.array([1.01, 1.0, 1.0])) > nll(nll.x0)
""")

bug("c05-range-of-first-data", "C05", "data added to a channel before any template",
    "the range of a data histogram is no longer checked, so the first one added to an empty channel may cover any range",
    [(CH, "        bins_cond = self._bins == hist.shape\n        range_cond = self._range == hist.range\n        return bins_cond and range_cond and ", "        bins_cond = self._bins == hist.shape\n        range_cond = self._range == hist.range or not self.templates\n        return bins_cond and range_cond and ")], MODEL + """
c = Channel("c", 2, (0.0, 2.0))
try:
    c.add_data(Hist1d.from_binned_data(np.array([1.0, 2.0]), np.array([0.0, 2.0, 4.0])))
except RuntimeError:
    pass
else:
    raise SystemExit("data with a wrong range accepted")
assert not c.has_data
c.add_data(Hist1d(bins=2, range=(0.0, 2.0), data=np.array([0.5])))
assert c.has_data
""")

bug("m02-skipped-update", "M02", "an update with the same vector after a reset or a direct change of a template",
    "an update with the vector of the last update is skipped although the model has been changed in between",
    [(MC, "        per_ch_yields, per_ch_nui_params = self.generate_per_channel_parameters(\n            new_values\n        )\n", "        if np.array_equal(new_values, getattr(self, \"_last_values\", None)):\n            return\n        self._last_values = np.copy(new_values)\n\n        per_ch_yields, per_ch_nui_params = self.generate_per_channel_parameters(\n            new_values\n        )\n")], MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", tmpl("p", [4.0, 6.0]))
x = np.array([20.0, 0.5, -0.5])
m.update_parameters(x)
m.reset_parameters()
assert np.allclose(m.create_nll().x0, [10.0, 0.0, 0.0])
m.update_parameters(x)
assert np.allclose(m.create_nll().x0, x), m.create_nll().x0
""")

bug("m05-efficiency-of-rejected", "M05", "a template rejected because its process is already present, given with another efficiency",
    "the efficiency of the rejected template replaces that of the accepted one",
    [(CH, "        if process in self.processes:\n            raise RuntimeError(f\"Process {process} already defined.\")\n\n        if self._dim is None:", "        self._efficiency_dict[process] = efficiency\n        if process in self.processes:\n            raise RuntimeError(f\"Process {process} already defined.\")\n\n        if self._dim is None:")], MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", tmpl("p", [4.0, 6.0]), efficiency=0.5)
try:
    m.add_template("c", "p", tmpl("p", [4.0, 6.0]), efficiency=0.25)
except RuntimeError:
    pass
else:
    raise SystemExit("accepted")
assert m.channels["c"].efficiencies["p"] == 0.5, m.channels["c"].efficiencies
""")

bug("m06-nuisance-view", "M06", "a model with a single template whose nuisance parameter vector is changed in place by the caller",
    "the nuisance parameters of a model with one template are returned as a view of the template's parameters",
    [(MC, "        return np.concatenate(nui_params_per_channel)\n", "        if len(nui_params_per_channel) == 1:\n            return nui_params_per_channel[0]\n        return np.concatenate(nui_params_per_channel)\n")], MODEL + """
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", tmpl("p", [4.0, 6.0]))
n = m.nui_params
n += 1.0
assert np.allclose(m.nui_params, 0.0), m.nui_params
""")

bug("p01-prefix", "P01", "a parameter whose name begins with the whole name of a later one",
    "a name addresses the first parameter whose name starts with it",
    [(UT, "        param_index = names.index(param_id)\n", "        param_index = [name.startswith(param_id) for name in names].index(True)\n")], """
from templatefitter.minimizer import Parameters
import numpy as np
p = Parameters(["sig_yield_2", "bkg_yield", "sig_yield"])
p.values = np.array([1.0, 2.0, 3.0])
assert p.param_id_to_index("sig_yield") == 2, p.param_id_to_index("sig_yield")
assert p["sig_yield"][0] == 3.0 and p["sig_yield_2"][0] == 1.0
""")

bug("p05-kept-hesse", "P05", "two minimisations with the same function object that end in exactly the same point although the function has changed",
    "the Hesse matrix of an earlier minimisation is reused if the minimum is at the same point",
    [(MI, "            hesse = ndt.Hessian(self._fcn)(self._params.values, *additional_args)\n", "            hesse = self.calculate_hesse_matrix(\n                self._fcn, tuple(self._params.values), tuple(additional_args)\n            )\n")], """
import numpy as np
from templatefitter.minimizer import ScipyMinimizer


class F:
    k = 1.0

    def __call__(self, x):
        return 0.5 * self.k * np.sum(np.asarray(x) ** 2)


f = F()
m = ScipyMinimizer(f, ["a", "b"])
r = m.minimize(np.zeros(2))
assert np.allclose(r.params.errors, 1.0), r.params.errors
f.k = 4.0
r = m.minimize(np.zeros(2))
assert np.allclose(r.params.errors, 0.5), r.params.errors
""")

bug("i01-shared-constraints", "I01", "two models with the same process constrained in both",
    "the errors of yield constraints are shared by all models",
    [(MC, "        self._constrained_yield_errors = dict()\n", ""), (MC, "class MultiChannelTemplate:\n", "class MultiChannelTemplate:\n    _constrained_yield_errors = dict()\n\n")], MODEL + """
def model(err):
    m = MultiChannelTemplate()
    m.define_process("p")
    m.define_channel("c", 2, (0.0, 2.0))
    m.add_template("c", "p", tmpl("p", [4.0, 6.0]))
    m.add_data(**m.generate_asimov_dataset())
    m.add_gaussian_constraint_on_yield("p", 8.0, err)
    return m


a = model(1.0)
v = a.create_nll()(np.array([10.0, 0.0, 0.0]))
assert np.isclose(v, 2.0), v
b = model(2.0)
assert np.isclose(b.create_nll()(np.array([10.0, 0.0, 0.0])), 0.5)
assert np.isclose(a.create_nll()(np.array([10.0, 0.0, 0.0])), 2.0)
""")

bug("b01-zero-bound", "B01", "an iminuit fit with a bound of exactly zero",
    "bounds with a zero in them are not applied by the iminuit backend",
    [(MI, "            limit=self._param_bounds,\n", "            limit=[b if any(b) else None for b in self._param_bounds],\n"), (MI, "            fix=self._fixed_params,\n", "            fix=list(self._fixed_params),\n")], """
import numpy as np
from templatefitter.minimizer import minimizer_factory
r = []
for backend in ("scipy", "iminuit"):
    m = minimizer_factory(backend, lambda x: 0.5 * (x[0] + 3.0) ** 2 + 0.5 * (x[1] - 1.0) ** 2, ["a", "b"])
    m.set_param_bounds("a", (0, None))
    r.append(m.minimize(np.array([1.0, 1.0]), verbose=0).params.values[0])
assert np.allclose(r, 0.0, atol=1e-2), r
""")

bug("f02-update-only-on-success", "F02", "an iminuit fit whose success flag is false",
    "the model keeps its old parameters although an update was requested",
    [(FI, "        if update_templates:\n", "        if update_templates and fit_result.succes:\n")], MODEL + """
import templatefitter.fitter as F
from templatefitter.minimizer import IMinuitMinimizer
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", tmpl("p", [400.0, 600.0]))
m.add_data(c=Hist1d.from_binned_data(np.array([500.0, 750.0]), e))
orig = IMinuitMinimizer.minimize


def minimize(self, *a, **k):
    return orig(self, *a, **k)._replace(succes=False)


IMinuitMinimizer.minimize = minimize
r = F.TemplateFitter(m, "iminuit").do_fit(verbose=0, fix_nui_params=True)
assert abs(r.params.values[0] - 1250.0) < 5
assert np.allclose(m.create_nll().x0, r.params.values), (m.create_nll().x0, r.params.values)
""")

bug("y02-results-of-aborted", "Y02", "a study that is aborted after an earlier one was successful",
    "results of an unfinished study can be requested",
    [(TS, "        self._is_fitted = False\n        self._toy_results[\"parameters\"] = list()\n", "        self._toy_results[\"parameters\"] = list()\n")], MODEL + """
import templatefitter.toy_study as T
from templatefitter import TemplateFitter
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", tmpl("p", [400.0, 600.0]))
np.random.seed(1)
s = T.ToyStudy(m, "scipy")
s.do_experiments(n_exp=2)
assert s.result_parameters.shape[0] == 2
orig = TemplateFitter.do_fit
n = []


def fit(self, *a, **k):
    n.append(1)
    if len(n) > 1:
        raise RuntimeError("no convergence")
    return orig(self, *a, **k)


TemplateFitter.do_fit = fit
try:
    s.do_experiments(n_exp=2, max_tries=2)
except RuntimeError:
    pass
else:
    raise SystemExit("no error")
try:
    s.result_parameters
except RuntimeError:
    pass
else:
    raise SystemExit("results of an aborted study")
""")

bug("s01-pearson-without-empty", "S01", "a bin without data events",
    "the Pearson statistic leaves out bins without data events",
    [("stats.py", "    chi_sq = np.sum((data - expectation) ** 2 / expectation)\n", "    chi_sq = np.sum((data - expectation)[data > 0] ** 2 / expectation[data > 0])\n")], """
import numpy as np
from templatefitter.stats import pearson_chi2_test
c, r, p = pearson_chi2_test(np.array([0.0, 4.0]), np.array([2.0, 4.0]), 2)
assert np.isclose(c, 2.0) and np.isclose(r, 1.0), (c, r)
""")

bug("u01-tiny-variances", "U01", "a variance that is positive but below 1e-16",
    "tiny variances are treated as vanishing",
    [(UT, "    Dinv = np.nan_to_num(np.diag(1 / np.sqrt(np.diag(cov))))\n", "    Dinv = np.nan_to_num(np.diag(1 / np.sqrt(np.diag(cov))))\n    Dinv[Dinv > 1e8] = 0.0\n")], """
import numpy as np
from templatefitter.utility import cov2corr
c = cov2corr(np.array([[4e-18, 1e-18], [1e-18, 1e-18]]))
assert np.allclose(c, [[1.0, 0.5], [0.5, 1.0]]), c
assert np.allclose(cov2corr(np.diag([0.0, 4.0])), np.diag([0.0, 1.0]))
""")

bug("u02-size-zero", "U02", "a piece of size zero",
    "a size of zero is taken like None and yields all remaining elements",
    [(UT, "        if size is None:\n", "        if not size:\n")], """
import numpy as np
from templatefitter.utility import array_split_into
p = list(array_split_into(np.arange(5), [2, 0, 3]))
assert [len(i) for i in p] == [2, 0, 3], p
""")

bug("l02-inverse-before-addition", "L02", "a legacy template whose systematic covariance is added after the likelihood values have been read",
    "the inverse correlation matrix of a legacy template is computed from the covariance before the addition",
    [(LT, "        self._cov += covariance_matrix\n        self._corr = cov2corr(self._cov)\n        self._inv_corr = np.linalg.inv(self._corr)\n", "        self._inv_corr = np.linalg.inv(cov2corr(self._cov))\n        self._cov += covariance_matrix\n        self._corr = cov2corr(self._cov)\n")], """
import numpy as np
import pandas as pd
from templatefitter.templates_legacy import Template
df = pd.DataFrame({"x": [0.5, 0.6, 1.5], "weight": [1.0, 2.0, 3.0]})
t = Template("t", "x", 2, (0.0, 2.0), df)
t.add_covariance_matrix(np.array([[4.0, 3.0], [3.0, 4.0]]))
assert np.allclose(t.inv_corr_mat @ t.corr_mat, np.eye(2)), t.inv_corr_mat
""")

bug("h01-integer-lists", "H01", "weights given as a list with fractional entries",
    "entries of a list of weights are rounded down to integers",
    [(H1, "            weights = np.array(weights)\n", "            weights = np.array(weights, dtype=int)\n")], MODEL + """
h = Hist1d(bins=e, data=np.array([0.5, 1.5]), weights=[0.5, 2.0])
assert np.allclose(h.bin_counts, [0.5, 2.0]), h.bin_counts
""")

bug("c04-frozen-correlations", "C04", "a covariance added to a template after the likelihood of its channel has been evaluated",
    "the block matrix of inverse correlations is kept as long as the number of templates does not change",
    [(CH, "        inv_corr_mats = [\n            template.inv_corr_mat for template in self._template_dict.values()\n        ]\n        return block_diag(*inv_corr_mats)\n",
      "        inv_corr_mats = [\n            template.inv_corr_mat for template in self._template_dict.values()\n        ]\n        if getattr(self, \"_inv_corr\", (0, None))[0] != len(inv_corr_mats):\n            self._inv_corr = len(inv_corr_mats), block_diag(*inv_corr_mats)\n        return self._inv_corr[1]\n")], MODEL + """
c = Channel("c", 2, (0.0, 2.0))
t = tmpl("p", [4.0, 6.0])
c.add_template("p", t)
c.add_data(Hist1d.from_binned_data(np.array([4.0, 6.0]), e))
x = np.array([1.0, 0.5])
a = c._gauss_term(x) if False else c.nll_contribution(np.array([10.0]), x)
t.add_cov_mat(np.array([[4.0, 3.0], [3.0, 6.0]]))
v = c.bin_counts_from_param_values(np.array([10.0, 1.0, 0.5]))
n = np.array([4.0, 6.0])
want = np.sum(v - n - n * np.log(v / n)) + 0.5 * x @ t.inv_corr_mat @ x
got = c.nll_contribution(np.array([10.0]), x)
assert np.isclose(got, want), (got, want)
""")

bug("m01-equal-parts", "M01", "a model with channels of different numbers of bins or templates",
    "the nuisance parameters are split into equal parts per channel if their number allows it",
    [(MC, "        per_channel_nui_params = np.split(\n            nui_params, np.cumsum(per_channel_num_nui_params)[:-1]\n        )\n",
      "        sections = np.cumsum(per_channel_num_nui_params)[:-1]\n        if len(nui_params) % self.num_channels == 0:\n            sections = self.num_channels\n        per_channel_nui_params = np.split(nui_params, sections)\n")], MODEL + """
m = MultiChannelTemplate()
e4 = np.linspace(0.0, 2.0, 3)
e3 = np.linspace(0.0, 2.0, 5)
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.define_channel("d", 4, (0.0, 2.0))
m.add_template("c", "p", tmpl("p", [4.0, 6.0], e4))
m.add_template("d", "p", tmpl("p", [4.0, 6.0, 1.0, 1.0], e3))
y, n = m.generate_per_channel_parameters(np.arange(7.0))
assert [len(i) for i in n] == [2, 4], n
""")

bug("f01-limits-or-bounds", "F01", "nuisance parameter limits together with a bound set on any parameter",
    "nuisance parameter limits are not applied if the fitter has bounds",
    [(FI, "        if nui_param_limits is not None:\n", "        if nui_param_limits is not None and not self._bound_parameters:\n")], MODEL + """
import templatefitter.fitter as F
from templatefitter.minimizer import ScipyMinimizer
m = MultiChannelTemplate()
m.define_process("p")
m.define_channel("c", 2, (0.0, 2.0))
m.add_template("c", "p", tmpl("p", [400.0, 600.0]))
m.add_data(c=Hist1d.from_binned_data(np.array([900.0, 100.0]), e))
f = F.TemplateFitter(m, "scipy")
f.set_parameter_bounds("p_yield", (0.0, 5000.0))
r = f.do_fit(update_templates=False, verbose=False, get_hesse=False, nui_param_limits=(-0.5, 0.5))
assert np.all(np.abs(r.params.values[1:]) <= 0.5 + 1e-6), r.params.values
""")
