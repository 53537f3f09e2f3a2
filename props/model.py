"""Multi channel models: M01-M05"""
from .hist import cp
from .template import make_template, prod
from .build import (build_model, data_hist, expected, gauss, layout, nll_poisson, params_of, same_params, split, std_edges, std_range,
                    template_for, vector)
from .channel import M1, M2, M3, conc_cov, params_model


def names_of(spec, procs):
    return [f"{p}_yield" if k == "yield" else f"{ch}_{p}_bin_{i}" for k, ch, p, i in layout(spec, procs)]


def share(spec, procs, x, name):
    """the vector's yields and nuisance parameters belonging to one channel, in template order"""
    y, t = split(spec, procs, x)
    ps = next(s[2] for s in spec if s[0] == name)
    return [y[p] for p in ps], [a for p in ps for a in t[name][p]]


# ---------------------------------------------------------------- M01
def m01(c, spec, procs, data="conc", eff="zero"):
    m, info, dat = build_model(c, spec, procs, data=data, eff=eff)
    nll = m.create_nll()
    lay = layout(spec, procs)
    c.check(list(nll.param_names) == names_of(spec, procs), "names in the order of the layout")
    c.check(len(nll.x0) == len(lay), "one starting value per name")
    c.check(m.num_processes == len(procs) and list(m.processes) == list(procs), "processes in definition order")
    c.check(m.num_nui_params == len(lay) - len(procs), "number of nuisance parameters")
    c.check([m.process_to_index(p) for p in procs] == list(range(len(procs))), "process index")
    start = [c.isum(q.initial for n in info for q in info[n] if q.proc == p) for p in procs]
    c.eq(nll.x0, start + [0.0] * (len(lay) - len(procs)), "starting values")
    x = vector(c, spec, procs)
    y, t = split(spec, procs, x)
    xa = c.arr(x)
    ys, ts = m.generate_per_channel_parameters(xa)
    for k, (name, shape, ps) in enumerate(spec):
        sy, st = share(spec, procs, x, name)
        c.eq(ys[k], sy, f"yields of channel {name}")
        c.eq(ts[k], st, f"nuisance parameters of channel {name}")
        v = m.channels[name].bin_counts_from_param_values(c.arr(sy + st))
        c.eq(c.vec(v), expected(c, info[name], y, t[name]), f"expectation of channel {name}")
    p0 = params_of(m)
    if data:
        want = 0.0
        for name, shape, ps in spec:
            v = expected(c, info[name], y, t[name])
            for a in v:
                c.assume(a >= 2.0**-20)
            want = want + nll_poisson(c, v, dat[name]) + c.isum(gauss(c, q.t.inv_corr_mat, t[name][q.proc]) for q in info[name])
        c.eq(nll(xa), want, "likelihood interprets the vector by the same layout")
    same_params(c, params_of(m), p0, "evaluation leaves the model alone")
    m.update_parameters(xa)
    for name in info:
        for q in info[name]:
            c.eq(q.t.yield_param, y[q.proc] * q.eff, f"yield of {name} {q.proc}")
            c.eq(q.t.nui_params, t[name][q.proc], f"nuisance parameters of {name} {q.proc}")
            f = q.fractions(c, t[name][q.proc])
            c.eq(c.vec(q.t.values), [y[q.proc] * q.eff * a for a in f], f"values of {name} {q.proc}")
    # one entry moves exactly one thing
    k = c.pick(len(lay), "entry")
    z = list(x)
    z[k] = c.real("other", 2.0**-6, 4000) if lay[k][0] == "yield" else c.real("other", -0.5, 0.5)
    before = {n: [cp(q.t.params) for q in info[n]] for n in info}
    m.update_parameters(c.arr(z))
    kind, ch, p, i = lay[k]
    for n in info:
        for q, b in zip(info[n], before[n]):
            w = list(c.vec(b))
            if q.proc == p and kind == "yield":
                w[0] = z[k] * q.eff
            elif q.proc == p and n == ch:
                w[1 + i] = z[k]
            c.eq(q.t.params, w, f"entry {k} and template {n} {q.proc}")
    c.check(list(m.create_nll().param_names) == names_of(spec, procs), "names do not change")


# ---------------------------------------------------------------- M02
def m02(c, spec, procs, unit=False, data="conc", eff="sym"):
    m, info, dat = build_model(c, spec, procs, data=data, eff=eff)
    if unit:
        # efficiencies of every process sum to one
        for p in procs:
            es = [(n, q) for n in info for q in info[n] if q.proc == p]
            for n, q in es[:-1]:
                c.assume(q.eff <= 0.25)
    x = vector(c, spec, procs, ylo=-500, tlo=-6, thi=6)
    y, t = split(spec, procs, x)
    n = len(procs)
    eff = [c.isum(q.eff for ch in info for q in info[ch] if q.proc == p) for p in procs]

    def verify(what):
        c.eq(m.nui_params, x[n:], f"{what}: nuisance parameters")
        c.eq(m.process_yields, [x[i] * eff[i] for i in range(n)], f"{what}: process yields")
        for i, p in enumerate(procs):
            c.eq(m.get_yield(p), x[i] * eff[i], f"{what}: yield of {p}")
        c.eq(m.create_nll().x0, [x[i] * eff[i] for i in range(n)] + x[n:], f"{what}: starting values of a new likelihood")
        for ch in info:
            for q in info[ch]:
                c.eq(q.t.params, [y[q.proc] * q.eff] + t[ch][q.proc], f"{what}: parameters of {ch} {q.proc}")
    xa = c.arr(x)
    nll = m.create_nll()
    m.update_parameters(xa)
    verify("after the update")
    c.eq(xa, x, "the caller's vector is not changed")
    m.update_parameters(xa)
    verify("after a second update")
    if data:
        nll(c.arr([7.0 + i for i in range(n)] + [0.125] * (len(x) - n)))
        verify("after an evaluation")
    for i in range(len(x)):
        xa[i] = -77.0
    verify("after the caller changed the vector")
    r = m.nui_params
    r[0] = 55.0
    r = m.process_yields
    r[0] = 55.0
    verify("after the caller changed what was read back")
    # the same vector again after the model has been changed in some other way
    how = ["reset", "yield", "template", "other"][c.pick(4, "in between")]
    q = info[spec[0][0]][0]
    if how == "reset":
        m.reset_parameters()
    elif how == "yield":
        m.set_yield(procs[-1], c.real("another yield", 2.0**-6, 4000))
    elif how == "template":
        q.t.nui_params = c.reals("another", q.n, -0.5, 0.5)
    else:
        m.update_parameters(c.arr([4.0] * n + [0.25] * (len(x) - n)))
    m.update_parameters(c.arr(x))
    verify(f"after {how} and an update with the same vector")


# ---------------------------------------------------------------- M03
def m03(c, spec, procs, sym_t=True):
    m, info = params_model(c, spec, procs) if sym_t else build_model(c, spec, procs, data=None, eff="zero")[:2]
    before = {n: [list(c.vec(q.t.params)) for q in info[n]] for n in info}
    v = c.real("value", -400, 4000)
    k = c.pick(len(procs), "process")
    p = procs[k]
    m.set_yield(p, v)
    for n in info:
        for q, b in zip(info[n], before[n]):
            w = list(b)
            if q.proc == p:
                w[0] = v * q.eff
            c.eq(q.t.params, w, f"setting {p}: template {n} {q.proc}")
    c.eq(m.get_yield(p), c.isum(v * q.eff for n in info for q in info[n] if q.proc == p), "yield read back")
    for o in procs:
        if o != p:
            c.eq(m.get_yield(o), c.isum(b[0] for n in info for q, b in zip(info[n], before[n]) if q.proc == o), f"yield of {o}")
    c.eq(m.process_yields, [m.get_yield(o) for o in procs], "all yields")
    es = m.process_yield_errors
    c.eq(list(es.shape), [len(procs)], "one error per process")
    for i, o in enumerate(procs):
        c.eq(es[i], c.sqrt(c.isum(e * e for n in info for q in info[n] if q.proc == o for e in c.vec(q.t.errors))), f"yield error of {o}")
    now = params_of(m)
    c.raises(lambda: m.set_yield("nope", 3.0), Exception, "undefined process")
    c.raises(lambda: m.get_yield("nope"), Exception, "undefined process")
    same_params(c, params_of(m), now, "a rejected call changes nothing")
    m.reset_parameters()
    for n in info:
        for q in info[n]:
            c.eq(q.t.params, [q.initial] + [0.0] * q.n, f"reset of {n} {q.proc}")


# ---------------------------------------------------------------- M04
def m04(c, spec, procs, steps, cov=False, dzero=()):
    m, info, dat = build_model(c, spec, procs, data="conc", dzero=dzero, eff=0.75)
    if cov:
        q = info[spec[0][0]][-1]
        q.t.add_cov_mat(c.arr(conc_cov(q.n)))
    x = vector(c, spec, procs, ylo=2.0**-10)
    xa = c.arr(x)
    early = m.create_nll()
    cons = {}
    for s in range(steps):
        k = c.pick(len(procs) + 1, f"step{s}")
        if k == len(procs):
            continue
        v, e = c.real(f"cv{s}", -400, 4000), c.real(f"ce{s}", 2.0**-6, 900)
        m.add_gaussian_constraint_on_yield(procs[k], v, e)
        cons[procs[k]] = (v, e)
    c.raises(lambda: m.add_gaussian_constraint_on_yield("nope", 1.0, 1.0), Exception, "constraint on an undefined process")
    c.check(sorted(m.constrained_yields) == sorted(cons), "constrained processes")
    for p, (v, e) in cons.items():
        c.eq(m.constrained_yield_values[p], v, f"constraint value of {p}")
        c.eq(m.constrained_yield_errors[p], e, f"constraint error of {p}")
    want = 0.0
    for name in info:
        sy, st = share(spec, procs, x, name)
        want = want + m.channels[name].nll_contribution(c.arr(sy), c.arr(st))
    for p, (v, e) in cons.items():
        z = (x[procs.index(p)] - v) / e
        want = want + z * z / 2
    for what, f in (("a new likelihood", m.create_nll()), ("an earlier likelihood", early)):
        c.eq(f(xa), want, what)
    c.eq(xa, x, "vector unchanged")
    # the same point with the yields as the only difference
    z = [c.real(f"other{i}", 2.0**-6, 4000) for i in range(len(procs))] + list(x[len(procs):])
    w = 0.0
    for name in info:
        sy, st = share(spec, procs, z, name)
        w = w + m.channels[name].nll_contribution(c.arr(sy), c.arr(st))
    for p, (v, e) in cons.items():
        d = (z[procs.index(p)] - v) / e
        w = w + d * d / 2
    for i in range(len(procs)):
        xa[i] = z[i]
    c.eq(early(xa), w, "likelihood after the vector was changed in place")
    c.eq(early(c.arr(z)), w, "likelihood at another yield")


# ---------------------------------------------------------------- M05
def m05(c, steps, ops):
    T = c.mod("templatefitter.templates")
    hm = c.mod("templatefitter.histograms")
    m = T.MultiChannelTemplate()
    ref = dict(procs=[], chans={}, )

    def state():
        return (list(m.processes), list(m.channels), [[list(ch.processes), [id(t) for t in ch.templates.values()], list(ch.efficiencies), ch.has_data]
                                                      for ch in m.channels.values()], m.num_processes, m.num_channels)

    def mk_data(v):
        return hm.Hist1d.from_binned_data(c.arr(v), std_edges(c, [2])[0])

    def check(what):
        c.check(list(m.processes) == ref["procs"], f"{what}: processes in the order given")
        c.check(list(m.channels) == list(ref["chans"]), f"{what}: channels in the order given")
        for n, r in ref["chans"].items():
            ch = m.channels[n]
            c.check(list(ch.processes) == list(r["t"]), f"{what}: templates of {n} in the order given")
            for p, (t, e) in r["t"].items():
                c.check(ch[p] is t, f"{what}: template {n} {p}")
                c.eq(ch.efficiencies[p], e, f"{what}: efficiency {n} {p}")
            c.check(ch.has_data == (r["d"] is not None), f"{what}: data of {n}")
            if r["d"] is not None:
                c.eq(c.vec(ch.data_bin_counts), r["d"], f"{what}: data of {n}")

    def reject(f, what):
        s = state()
        c.raises(f, Exception, what)
        c.check(state() == s, f"{what}: nothing changed")
        check(what)
    # a channel may have the name of a process
    pnames, cnames = ["q", "p"], ["b", "p"]
    for s in range(steps):
        op = ops[c.pick(len(ops), f"op{s}")]
        k = c.pick(2, f"which{s}")
        p, n = pnames[k], cnames[k]
        if op == "process":
            if p in ref["procs"]:
                reject(lambda: m.define_process(p), "process defined twice")
            else:
                m.define_process(p)
                ref["procs"].append(p)
        elif op == "channel":
            if n in ref["chans"]:
                continue
            m.define_channel(n, 2, std_range([2]))
            ref["chans"][n] = dict(t={}, d=None)
        elif op == "template":
            l = c.pick(2, f"chan{s}")
            n = cnames[l]
            t = template_for(c, "", p, [2], "conc", k=s)[3]
            e = c.real(f"eff{s}", 0.125, 1.5)
            if p in ref["procs"] and n in ref["chans"] and p not in ref["chans"][n]["t"]:
                m.add_template(n, p, t, e)
                ref["chans"][n]["t"][p] = (t, e)
            else:
                reject(lambda: m.add_template(n, p, t, e), "template for an undefined channel or process, or for one already present")
        elif op == "data":
            d = [float(s + 1), 4.0]
            if n in ref["chans"]:
                m.add_data(**{n: mk_data(d)})
                ref["chans"][n]["d"] = d
            else:
                reject(lambda: m.add_data(**{n: mk_data(d)}), "data for an undefined channel")
        elif op == "mixed":
            # one channel defined, one not: nothing may be stored
            kw = {n: mk_data([9.0, float(s)]), "nope": mk_data([1.0, 1.0])}
            reject(lambda: m.add_data(**kw), "data for a defined and an undefined channel")
            if len(ref["chans"]) == 2:
                kw = {n: mk_data([9.0, float(s)]), cnames[1 - k]: hm.Hist1d.from_binned_data(c.arr([1.0, 2.0, 3.0]), std_edges(c, [3])[0])}
                reject(lambda: m.add_data(**kw), "incompatible data for one of two channels")
        check(f"step {s}")


def m05_base(c, steps, ops, base):
    """as m05 but starting from a model that already has content"""
    T = c.mod("templatefitter.templates")
    hm = c.mod("templatefitter.histograms")
    m = T.MultiChannelTemplate()
    for p in ("q", "p"):
        m.define_process(p)
    for n in ("b", "a"):
        m.define_channel(n, 2, std_range([2]))
    kept = {}
    for j, (n, p) in enumerate(base):
        t = template_for(c, "", p, [2], "conc", k=j)[3]
        e = c.real(f"beff{j}", 0.125, 1.5)
        m.add_template(n, p, t, e)
        kept.setdefault(n, []).append((p, t, e))
    d = hm.Hist1d.from_binned_data(c.arr([4.0, 2.0]), std_edges(c, [2])[0])
    m.add_data(b=d)
    par = params_of(m)

    def check(what):
        c.check(list(m.processes) == ["q", "p"], f"{what}: processes")
        c.check(list(m.channels) == ["b", "a"], f"{what}: channels")
        for n in ("b", "a"):
            ch = m.channels[n]
            c.check([x for x in ch.processes] == [x[0] for x in kept.get(n, [])], f"{what}: templates of {n}")
            c.check([x for x in ch.efficiencies] == [x[0] for x in kept.get(n, [])], f"{what}: efficiencies of {n}")
            for p, t, e in kept.get(n, []):
                c.check(ch[p] is t, f"{what}: template {n} {p}")
                c.eq(ch.efficiencies[p], e, f"{what}: efficiency {n} {p}")
        c.check(m.channels["b"].has_data and not m.channels["a"].has_data, f"{what}: data")
        c.eq(c.vec(m.channels["b"].data_bin_counts), [4.0, 2.0], f"{what}: data counts")
        same_params(c, params_of(m), par, f"{what}: parameters")
    for s in range(steps):
        op = ops[c.pick(len(ops), f"op{s}")]
        t = template_for(c, "", "x", [2], "conc", k=s + 5)[3]
        if op == "dup":
            n, p = base[c.pick(len(base), f"at{s}")]
            c.raises(lambda: m.add_template(n, p, t, 0.5), Exception, "process already present")
        elif op == "undefined channel":
            c.raises(lambda: m.add_template("nope", "p", t, 0.5), Exception, "undefined channel")
        elif op == "undefined process":
            c.raises(lambda: m.add_template("a", "nope", t, 0.5), Exception, "undefined process")
        elif op == "define":
            c.raises(lambda: m.define_process(["q", "p"][c.pick(2, f"again{s}")]), Exception, "defined twice")
        elif op == "data":
            c.raises(lambda: m.add_data(nope=d), Exception, "undefined channel")
        elif op == "partly":
            o = hm.Hist1d.from_binned_data(c.arr([8.0, 1.0]), std_edges(c, [2])[0])
            w = hm.Hist1d.from_binned_data(c.arr([8.0, 1.0]), c.arr([0.0, 1.0, std_range([2])[1]])) if c.flag(f"edges{s}") else hm.Hist1d.from_binned_data(c.arr([8.0]), c.arr([0.0, std_range([2])[1]]))
            kw = [("a", o), ("b", w)]
            c.raises(lambda: m.add_data(**dict(kw if c.flag(f"first{s}") else kw[::-1])), Exception, "incompatible data for one of two channels")
        elif op == "mixed":
            o = hm.Hist1d.from_binned_data(c.arr([8.0, 1.0]), std_edges(c, [2])[0])
            c.raises(lambda: m.add_data(**({"b": o, "nope": o} if c.flag(f"first{s}") else {"nope": o, "b": o})), Exception, "undefined channel")
        check(op)
    # afterwards the model is still usable
    free = [(n, p) for n in ("a", "b") for p in ("p", "q") if [n, p] not in [list(x) for x in base]]
    if free:
        n, p = free[0]
        t = template_for(c, "", p, [2], "conc", k=7)[3]
        m.add_template(n, p, t, 0.5)
        kept.setdefault(n, []).append((p, t, 0.5))
        par = params_of(m)
        check("accepted afterwards")


OPS5 = ["process", "channel", "template", "data", "mixed"]
OPS5B = ["dup", "undefined channel", "undefined process", "define", "data", "mixed", "partly"]
MX = [["a", [1], ["p"]]]
MY = [["b", [2], ["q", "p", "r"]], ["a", [2], ["r"]], ["c", [1], ["p", "q"]]]
# processes and channels whose names contain those of others
MP = [["a", [2], ["tau2", "tau"]], ["tau", [1], ["tau", "xtau"]]]
PP = ["tau2", "xtau", "tau"]
M2B = [["a", [2, 2], ["q", "p"]], ["b", [2], ["p"]]]
PROPS = {
    "M01": dict(
        harnesses={"layout": dict(fn=m01, quick=[dict(spec=MX, procs=["p"]), dict(spec=M1, procs=["p", "q"]), dict(spec=M1, procs=["q", "p"]), dict(spec=MY, procs=["p", "q", "r"], data=None), dict(spec=M2, procs=["p", "q"], data=None),
                                                 dict(spec=M3, procs=["r", "p", "q"], data=None), dict(spec=MP, procs=PP)],
                                  thorough=[dict(spec=s, procs=ps, data=d) for s, pp in ((MX, [["p"]]), (M1, [["p", "q"], ["q", "p"]]), (MY, [["p", "q", "r"], ["r", "q", "p"]]), (M2, [["p", "q"], ["q", "p"]]), (M3, [["p", "q", "r"], ["r", "p", "q"]]))
                                            for ps in pp for d in ("conc", None)])},
        bounds="1-3 channels of 1-4 cells, 1-3 processes, different subsets and orders of processes per channel; any parameter vector and efficiencies, fixed template contents"),
    "M02": dict(
        harnesses={"roundtrip": dict(fn=m02, quick=[dict(spec=MX, procs=["p"]), dict(spec=M1, procs=["p", "q"]), dict(spec=MY, procs=["p", "q", "r"]), dict(spec=M2, procs=["q", "p"], data=None, eff="zero"), dict(spec=MP, procs=PP)],
                                     thorough=[dict(spec=s, procs=ps, data=d) for s, pp in ((MX, [["p"]]), (M1, [["p", "q"], ["q", "p"]]), (MY, [["p", "q", "r"], ["r", "q", "p"]]), (M2, [["p", "q"], ["q", "p"]]), (M3, [["p", "q", "r"], ["r", "p", "q"]]))
                                               for ps in pp for d in ("conc", None)])},
        bounds="1-3 channels, 1-3 processes; any vector (yields may be negative) and any efficiencies in [1/8, 3/2]"),
    "M03": dict(
        harnesses={"yield": dict(fn=m03, quick=[dict(spec=M1, procs=["p", "q"]), dict(spec=MY, procs=["p", "q", "r"], sym_t=False), dict(spec=M2, procs=["q", "p"], sym_t=False), dict(spec=M1, procs=["q", "r", "p"], sym_t=False), dict(spec=MP, procs=PP, sym_t=False)],
                                 thorough=[dict(spec=M1, procs=["p", "q"]), dict(spec=M1, procs=["q", "p"]), dict(spec=MY, procs=["p", "q", "r"]), dict(spec=MY, procs=["r", "q", "p"], sym_t=False), dict(spec=M2, procs=["q", "p"]),
                                           dict(spec=M3, procs=["q", "r", "p"], sym_t=False), dict(spec=M1, procs=["q", "r", "p"])])},
        bounds="2-3 channels, 2-3 processes (including one without any template); any value set, any current parameters and efficiencies"),
    "M04": dict(
        harnesses={"total": dict(fn=m04, quick=[dict(spec=M1, procs=["p", "q"], steps=2), dict(spec=MX, procs=["p"], steps=2, dzero=[0]), dict(spec=M1, procs=["q", "p"], steps=1, cov=True), dict(spec=MY, procs=["p", "q", "r"], steps=1), dict(spec=MP, procs=PP, steps=1)],
                                 thorough=[dict(spec=M1, procs=["p", "q"], steps=3), dict(spec=MX, procs=["p"], steps=3, dzero=[0]), dict(spec=M1, procs=["q", "p"], steps=3, cov=True), dict(spec=MY, procs=["p", "q", "r"], steps=2),
                                           dict(spec=M2B, procs=["p", "q"], steps=2)])},
        bounds="1-3 channels, 1-3 processes; every sequence of up to 2 (thorough 3) constraint settings with any values and errors, likelihood objects created before and after; any parameter vector"),
    "M05": dict(
        harnesses={"building": dict(fn=m05, quick=[dict(steps=3, ops=OPS5)], thorough=[dict(steps=4, ops=OPS5)], opts=dict(max_paths=60000)),
                   "content": dict(fn=m05_base, quick=[dict(steps=2, ops=OPS5B, base=[["b", "p"], ["b", "q"], ["a", "q"]])], thorough=[dict(steps=3, ops=OPS5B, base=[["b", "p"], ["b", "q"], ["a", "q"]]), dict(steps=3, ops=OPS5B, base=[["a", "p"]])],
                                   opts=dict(max_paths=60000))},
        bounds="every sequence of 3 (thorough 4) building calls out of 5 kinds over 2 processes and 2 channels from an empty model, and of 2 (3) rejected calls on a model with content; efficiencies arbitrary"),
}
