"""debugging aid: run one symbolic configuration in this process and show slow queries
usage: tools/dbg.py PROP HARNESS 'dict(cfg)' [seconds]"""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import symcore as sc, ctx as cx, runner
prop, h = sys.argv[1], sys.argv[2]
cfg = eval(sys.argv[3])
spec = runner.registry()[prop]["harnesses"][h]
o = spec.get("opts", {})
ex = sc.Explorer(feas_ms=o.get("feas_ms", 600), claim_ms=o.get("claim_ms", 8000), logfacts=o.get("logfacts", False),
                 deadline=time.time() + float(sys.argv[4] if len(sys.argv) > 4 else 120))
orig = ex.check
def check(cs, ms, want_model=False):
    t = time.time()
    r = orig(cs, ms, want_model)
    dt = time.time() - t
    if dt > 0.15:
        fr = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[:-1] if "templatefitter" in f.filename or "/props/" in f.filename or "ctx.py" in f.filename or f.name in ("sqrt", "log", "div", "branch", "known_sign", "sign_of", "absolute", "_candidate")]
        print(f"{dt:.2f}s {r if isinstance(r, str) else r[0]} n={len(cs)} {fr[-6:]} :: {' '.join(str(cs[-1]).split())[:300]}", flush=True)
    return r
ex.check = check
c = cx.SymCtx(ex, cfg)
def path():
    c.begin_path()
    spec["fn"](c, **{k: v for k, v in cfg.items() if k != "script"})
t = time.time()
try:
    ex.explore(path)
except (cx.Failed, sc.Steer) as e:
    print(type(e), e)
print(ex.stats.dict(), round(time.time() - t, 1), "s")
for k in c.cands:
    print("CAND", k["label"][:200], k["solver"], k["values"])
