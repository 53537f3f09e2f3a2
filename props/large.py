"""Larger configurations of the harnesses, run in both tiers: more than ten bins, channels and processes,
where orderings by name, indices with two digits and thresholds on sizes matter."""
from .build import LB, LC, LP, LPP

B = ("scipy", "iminuit")
PQ = ["p", "q"]
OPS5 = ["fill", "second", "reset", "set"]
TEXT = "; also (with fewer arbitrary values or shorter histories) "
LARGE = {
    "H01": ("12 bins", [("fill", dict(nb=12, geom="edges", fills=[2])), ("fill", dict(nb=11, geom="range", fills=[1, 1], ctor=True))]),
    "H02": ("4x3 and 2x11 cells", [("fill", dict(nx=4, ny=3, geom="edges", fills=[2])), ("fill", dict(nx=2, ny=11, geom="range", fills=[1]))]),
    "H03": ("12 bins, 11x2 and 3x12 cells", [("one", dict(nb=12, geom=g)) for g in ("edges", "range", "tuple")] + [("two", dict(nx=a, ny=b, geom=g)) for a, b in ((11, 2), (3, 12)) for g in ("edges", "range", "same")]),
    "H04": ("12 bins, 3x4 cells", [("binned", dict(shape=[12], errors=True, fill=1)), ("binned", dict(shape=[3, 4], errors=True, fill=1)), ("binned", dict(shape=[11], errors=False, fill=1, integer=True))]),
    "H05": ("11x4 cells", [("proj", dict(nx=11, ny=4, how="binned")), ("proj", dict(nx=3, ny=12, how="binned"))]),
    "T01": ("12 bins, 4x3 cells", [("shape", dict(shape=[12], lo=0.25, elo=0.125)), ("shape", dict(shape=[4, 3], lo=0.25, elo=0.125)), ("shape", dict(shape=[12], zero=[3, 10], lo=0.25, elo=0.125))]),
    "T02": ("12 bins", [("ops", dict(shape=[12], steps=1, ops=["yield", "nui", "params", "reset", "bad_params", "bad_nui"]))]),
    "T03": ("11-12 bins", [("cov", dict(shape=[12], adds=["diag"])), ("cov", dict(shape=[11], adds=["pair", "diag"]))]),
    "T04": ("12 bins, 4x3 cells with entries in given bins", [("matrix", dict(n=12, free=[2, 10, 11])), ("variation", dict(shape=[12], k=2, how="skew", at=[[10], [11]], zero=[0, 1, 3, 4, 5, 6, 7, 8, 9])), ("variation", dict(shape=[4, 3], k=2, how="skew", at=[[3, 1], [1, 2]], zero=[0, 1, 3, 4, 6, 7, 8, 9, 11]))]),
    "T05": ("12 bins, 3x4 cells", [("snapshot", dict(shape=[12], steps=1, ops=OPS5)), ("snapshot", dict(shape=[3, 4], steps=1, ops=OPS5))]),
    "C01": ("12 bins, 4x3 cells, 6 templates", [("expect", dict(shape=[12], ntemp=2, mode="conc")), ("expect", dict(shape=[4, 3], ntemp=2, mode="conc")), ("expect", dict(shape=[2], ntemp=6, mode="conc"))]),
    "C02": ("12 bins, 5 templates", [("nll", dict(shape=[12], ntemp=2, dzero=[10], free=[10, 11])), ("nll", dict(shape=[2], ntemp=5, free=[1])), ("nll", dict(shape=[12], ntemp=2, dzero=[10], free=[2], via="model"))]),
    "C05": ("12 bins, 3x4 cells", [("accept", dict(shape=[12], what=w, content="td", differ="edge")) for w in "td"] + [("accept", dict(shape=[3, 4], what="d", content="t", differ="edge"))]),
    "C06": ("12 bins, 3x4 cells, 11 processes", [("asimov", dict(spec=LB, procs=PQ, integer=False)), ("asimov", dict(spec=LP, procs=LPP, integer=False)), ("asimov", dict(spec=LC, procs=["p"], integer=False))]),
    "C07": ("12 bins, 3x4 cells, 11 channels, 11 processes", [("toy", dict(spec=LB, procs=PQ)), ("toy", dict(spec=LC, procs=["p"])), ("toy", dict(spec=LP, procs=LPP))]),
    "C08": ("11 bins", [("propagate", dict(shape=[11], ntemp=1, cov="conc"))]),
    "M01": ("12 bins, 11 channels, 11 processes", [("layout", dict(spec=LB, procs=PQ, data=None)), ("layout", dict(spec=LC, procs=["p"])), ("layout", dict(spec=LP, procs=LPP))]),
    "M02": ("12 bins, 11 channels, 11 processes", [("roundtrip", dict(spec=LB, procs=PQ)), ("roundtrip", dict(spec=LC, procs=["p"])), ("roundtrip", dict(spec=LP, procs=LPP))]),
    "M03": ("12 bins, 11 channels, 11 processes", [("yield", dict(spec=LB, procs=PQ, sym_t=False)), ("yield", dict(spec=LC, procs=["p"], sym_t=False)), ("yield", dict(spec=LP, procs=LPP, sym_t=False))]),
    "M04": ("11 channels, 11 processes", [("total", dict(spec=LP, procs=LPP, steps=1)), ("total", dict(spec=LC, procs=["p"], steps=1))]),
    "M06": ("12 bins, 11 processes", [("reads", dict(spec=LB, procs=PQ, pairs="names", free=[13])), ("reads", dict(spec=LP, procs=LPP, pairs="x0"))]),
    "P01": ("12 names", [("lookup", dict(names=7))]),
    "P02": ("12 parameters", [("fixed", dict(backend=b, names=7, steps=1)) for b in B]),
    "P03": ("12 parameters", [("bounds", dict(backend=b, names=7, steps=2, ops=["both 10", "lower 1", "none 10", "upper 11", "fix 2"])) for b in B]),
    "P04": ("12 parameters", [("iminuit", dict(names=7, fix=[1, 10]))]),
    "F01": ("12 bins, 11 processes", [("fit", dict(spec=LB, procs=PQ, backend=b, ops=["fix 0", "fix 12"], steps=1, fun=False)) for b in B] + [("fit", dict(spec=LP, procs=LPP, backend=b, ops=["fix 1", "fix 10", "fix 12"], steps=1, fun=False)) for b in B]),
    "F02": ("12 bins, 11 processes", [("update", dict(spec=LB, procs=PQ, backend="iminuit", fits=1)), ("update", dict(spec=LP, procs=LPP, backend="scipy", fits=1))]),
    "F03": ("12 bins, 11 processes, 11 points", [("profile", dict(spec=LB, procs=PQ, backend="scipy", param=13, points=2, how=["fix 1"], status="any")), ("profile", dict(spec=LP, procs=LPP, backend="iminuit", param=10, points=2)),
                                                 ("profile", dict(spec=[["a", [2], ["p"]]], procs=["p"], backend="iminuit", param=0, points=11))]),
    "F04": ("11 processes", [("significance", dict(spec=LP, procs=LPP, backend=b, proc=k, how=["fix 11"], status="any")) for b, k in (("scipy", 1), ("iminuit", 10))]),
    "Y01": ("12 experiments, 11 processes", [("study", dict(spec=[["a", [2], ["p"]]], procs=["p"], backend="scipy", n_exp=12, tries=1)), ("study", dict(spec=LP, procs=LPP, backend="iminuit", n_exp=2, tries=1))]),
    "Y02": ("12 bins, 12 experiments, 11 processes", [("results", dict(spec=LB, procs=PQ, backend="scipy", n_exp=2)), ("results", dict(spec=LP, procs=LPP, backend="scipy", n_exp=1)), ("results", dict(spec=[["a", [2], ["p"]]], procs=["p"], backend="iminuit", n_exp=12))]),
    "Y03": ("11 processes, 11 points, 12 experiments", [("linearity", dict(spec=LP, procs=LPP, backend="scipy", proc=1, points=2, n_exp=1)), ("linearity", dict(spec=[["a", [2], ["p"]]], procs=["p"], backend="scipy", proc=0, points=11, n_exp=1)),
                                                       ("linearity", dict(spec=[["a", [2], ["p"]]], procs=["p"], backend="iminuit", proc=0, points=2, n_exp=12))]),
    "I01": ("", []),
    "B01": ("11 processes", [("problem", dict(spec=LP, procs=LPP, how=["fix 10"], kind=k, ids=["scipy", "iminuit"])) for k in ("fit", "significance")]),
    "S01": ("12 bins", [("gof", dict(n=12, which=w, zero=[10], equal=False)) for w in ("pearson", "cowan", "default")]),
    "U02": ("12 pieces of 12 to 15 elements", [("split", dict(n=15, pieces=12, kind=k, given=[1, 1, 2, 1, 1, 1, 0, 1, 1, 1, 1, 2])) for k in ("array", "list", "iterator")]),
    "L01": ("12 bins, 3x4 cells", [("one", dict(cls="Histogram", nb=12, geom="range", fills=[2])), ("one", dict(cls="Hist1d", nb=12, geom="edges", fills=[2])), ("binned", dict(nb=12, errors=True)), ("two", dict(nx=3, ny=4, geom="edges", fills=[1]))]),
    "L02": ("12 bins", [("template", dict(nb=12))]),
    "V01": ("12 bins, 3x4 cells", [("template", dict(shape=[12])), ("template", dict(shape=[3, 4]))]),
}


def script(ops, seq, **more):
    """a prescribed history (the values in it stay arbitrary)"""
    return dict(steps=len(seq), ops=list(ops), script=dict(op=[list(ops).index(o) for o in seq], **more))


S1 = [["a", [2], ["p"]]]
S2 = [["a", [2], ["q", "p"]], ["b", [1], ["p"]]]
SA = [["a", [2], ["q", "p"]]]
SB = [["a", [1], ["p"]], ["b", [2], ["p", "q"]]]
OPS2 = ["yield", "nui", "params", "reset", "bad_params", "bad_nui", "bad_yield", "yield_int", "yield_arr", "params_own_order", "int_params"]
OPS4 = ["template", "cov", "var", "data", "data0", "update", "setyield", "reset", "constraint", "newnll"]
OPM5 = ["process", "channel", "template", "data", "mixed"]
OPB5 = ["dup", "undefined channel", "undefined process", "define", "data", "mixed", "partly"]
OPP = [f"fix {i}" for i in range(3)] + [f"fixi {i}" for i in range(3)] + ["release", "min"]
OP3 = ["both 0", "lower 1", "upper 1", "none 0", "both 2", "fix 1", "release", "min"]
OPF = ["fix 0", "fix 3", "bound 0 both", "bound 3 lower", "allnui", "data", "update", "constraint", "fit", "fitnui"]
OPI = ["update", "reset", "data", "cons", "nll", "consq"]
OPN = ["fix 0", "fix 2", "bound 1", "release", "min"]


def seq2(text):
    return [OPP.index(o) for o in text]


P2A = seq2(["fix 1", "min", "fixi 0", "min", "min", "release", "min", "fix 2", "fix 0", "min", "release", "fixi 2", "min"])
P2B = seq2(["min", "min", "fixi 1", "fix 1", "min", "release", "release", "min", "fix 0", "fix 1", "min", "fix 2", "min"])
LONG = {
    "T02": [("ops", dict(shape=[2], **script(OPS2, ["params", "yield", "bad_params", "nui", "reset", "yield_arr", "bad_nui", "params_own_order", "yield_int", "reset", "reset", "int_params", "nui", "bad_yield", "yield"])))],
    "T03": [("cov", dict(shape=[2], adds=["diag"] * 4)), ("cov", dict(shape=[2], adds=["conc", "diag", "bad", "conc", "diag", "diag", "conc"]))],
    "T05": [("snapshot", dict(shape=[2], **script(OPS5, ["fill", "set", "reset", "second", "fill", "reset", "set", "set", "reset"], cell=[0, None, None, None, 1],
                                                  which=[None, 0, 0, None, None, 1, 0, 1, 0])))],
    "C04": [("history", dict(first=[], **script(OPS4, q))) for q in (["update", "cov", "data", "newnll", "template", "update", "var", "reset", "constraint", "cov", "data0", "update"],
                                                                      ["newnll", "var", "cov", "template", "setyield", "data", "cov", "reset", "update", "data", "constraint", "constraint", "cov"],
                                                                      ["cov", "cov", "template", "cov", "var", "update", "data", "data0", "setyield", "reset", "newnll", "data"])],
    "M04": [("total", dict(spec=S2, procs=PQ, steps=8, script=dict(step=[0, 1, 0, 2, 1, 0, 0, 1])))],
    "M05": [("building", dict(**script(OPM5, ["channel", "process", "template", "data", "mixed", "process", "channel", "template", "template", "data", "template", "mixed", "process", "data", "template"],
                                       which=[0, 0, 0, 0, 0, 1, 1, 0, 1, 1, 1, 0, 1, 0, 0], chan=[None, None, 0, None, None, None, None, 1, 0, None, 1, None, None, None, 0]))),
            ("building", dict(**script(OPM5, ["process", "process", "channel", "data", "template", "channel", "template", "data", "data", "template", "template", "mixed", "data"],
                                       which=[1, 0, 1, 1, 1, 0, 0, 1, 0, 1, 0, 1, 1], chan=[None, None, None, None, 1, None, 0, None, None, 0, 1]))),
            ("content", dict(base=[["b", "p"], ["b", "q"], ["a", "q"]], **script(OPB5, ["mixed", "dup", "partly", "data", "dup", "undefined channel", "partly", "mixed", "define", "undefined process", "dup", "data"],
                                                                                at=[None, 0, None, None, 2, None, None, None, None, None, 1], again=[None] * 8 + [0])))],
    "P02": [("fixed", dict(backend=b, names=0, steps=len(q), script=dict(op=q))) for b in B for q in (P2A, P2B)],
    "P03": [("bounds", dict(backend=b, names=0, **script(OP3, ["both 0", "min", "lower 1", "fix 1", "min", "upper 1", "none 0", "release", "min", "both 2", "both 0", "min", "lower 1", "both 2"]))) for b in B],
    "P05": [("results", dict(backend=b, names=3, runs=4)) for b in B],
    "F01": [("fit", dict(spec=S2, procs=PQ, backend=b, fun=False, **script(OPF, q))) for b in B for q in (["fix 3", "fit", "bound 0 both", "fit", "data", "fitnui", "update", "fit", "constraint", "bound 3 lower", "fit", "fix 0", "fit", "allnui", "fit"],
                                                                                                         ["fitnui", "fit", "update", "bound 3 lower", "fitnui", "fix 0", "fit", "constraint", "data", "bound 0 both", "fit", "fit"])],
    "F02": [("update", dict(spec=S1, procs=["p"], backend=b, fits=3)) for b in B],
    "I01": [("models", dict(spec1=SA, spec2=SB, procs1=["p", "q"], procs2=["q", "p"], **script(OPI, ["update", "cons", "data", "nll", "update", "reset", "consq", "nll", "data", "cons", "reset", "update"], side=[0, 1, 1, 0, 1, 0, 0, 1, 0, 0, 1, 0]))),
            ("minimizers", dict(backends=["scipy", "scipy"], steps=10, script=dict(op=[OPN.index(o) for o in ("fix 0", "min", "fix 2", "bound 1", "min", "release", "min", "bound 1", "min", "fix 0")], side=[0, 1, 1, 0, 0, 0, 1, 1, 0, 1]))),
            ("minimizers", dict(backends=["iminuit", "scipy"], steps=10, script=dict(op=[OPN.index(o) for o in ("min", "fix 0", "min", "bound 1", "fix 2", "release", "min", "min", "bound 1", "fix 0")], side=[1, 0, 1, 1, 0, 1, 0, 1, 0, 0])))],
}


def extend(reg):
    for prop, cfgs in LONG.items():
        p = reg.get(prop)
        if p is None:
            continue
        p["harnesses"] = {h: dict(d, quick=list(d["quick"]), thorough=list(d["thorough"] if "thorough" in d else d["quick"])) for h, d in p["harnesses"].items()}
        if "prescribed histories" not in p["bounds"]:
            p["bounds"] += "; prescribed histories of 4-15 steps with arbitrary values"
        for h, cfg in cfgs:
            for tier in ("quick", "thorough"):
                if cfg not in p["harnesses"][h][tier]:
                    p["harnesses"][h][tier].append(dict(cfg))
    _large(reg)


def _large(reg):
    for prop, (text, cfgs) in LARGE.items():
        if prop not in reg or not cfgs:
            continue
        p = reg[prop]
        p["harnesses"] = {h: dict(d, quick=list(d["quick"]), thorough=list(d["thorough"] if "thorough" in d else d["quick"])) for h, d in p["harnesses"].items()}
        if TEXT not in p["bounds"]:
            p["bounds"] += TEXT + text
        for h, cfg in cfgs:
            for tier in ("quick", "thorough"):
                if cfg not in p["harnesses"][h][tier]:
                    p["harnesses"][h][tier].append(dict(cfg))
