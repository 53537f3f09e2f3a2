"""Runs the harnesses of a property and reports."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
GROUPS = ["hist", "template", "channel", "model", "minimizer", "fitter", "toys", "misc", "legacy", "plots", "whole"]


def registry():
    reg = {}
    for g in GROUPS:
        try:
            m = importlib.import_module("props." + g)
        except ModuleNotFoundError as e:
            if e.name != "props." + g:
                raise
            continue
        reg.update(m.PROPS)
    importlib.import_module("props.large").extend(reg)
    return reg


def cfg_key(h, cfg):
    return h + " " + json.dumps(cfg, sort_keys=True)


# ------------------------------------------------------------------ symbolic side
def sym_task(prop, hname, cfg, budget, opts):
    from . import symcore as sc, ctx as cx, loader
    spec = registry()[prop]
    fn = spec["harnesses"][hname]["fn"]
    sc._qcache.clear()
    loader.start_monitor()
    o = dict(spec["harnesses"][hname].get("opts", {}))
    o.update(opts)
    ex = sc.Explorer(feas_ms=o.get("feas_ms", 800), claim_ms=o.get("claim_ms", 10000), max_paths=o.get("max_paths", 4000),
                     deadline=time.time() + budget, logfacts=o.get("logfacts", False))
    c = cx.SymCtx(ex, cfg)
    res = {"error": None, "exc": []}
    done = [0]
    wit = []

    def path():
        c.begin_path()
        try:
            fn(c, **{k: v for k, v in cfg.items() if k != "script"})
            done[0] += 1
            if done[0] in (1, 5, 40) and len(wit) < 2:
                w = c.witness()
                if w:
                    wit.append(w)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "templatefitter" in f.filename), "harness")
            res["exc"].append("".join(traceback.format_exception(e))[-1500:])
            c._candidate([], f"exception {type(e).__name__}: {str(e)[:200]} at {where}")
    t0 = time.time()
    try:
        ex.explore(path)
    except cx.Failed:
        pass
    except sc.Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "templatefitter" in f.filename), "harness")
        res["error"] = f"not encodable: {e} at {where}"
    except sc.OutOfTime as e:
        res["error"] = f"budget exhausted: {e}"
    except sc.Steer as e:
        res["error"] = f"steering: {type(e).__name__} {e}"
    except RecursionError as e:
        res["error"] = "recursion limit"
    except sc.z3.Z3Exception as e:
        res["error"] = f"solver: {e}"
    res.update(stats=ex.stats.dict(), cands=c.cands, notes=c.notes, claims=c.claims, unknown=c.unknown,
               functions=sorted(loader.executed), wall=time.time() - t0, done=done[0], ints=sorted(c.ints), witnesses=wit, ranges={k: [None if x is None else float(x) for x in v] for k, v in c.ranges.items()})
    return res


def input_ranges(tasks, results):
    """declared ranges of the symbolic inputs per harness (numbers in names replaced by *)"""
    out = {}
    for i, (h, cfg) in enumerate(tasks):
        o = out.setdefault(h, {})
        for k, (lo, hi) in results[i].get("ranges", {}).items():
            a, b = o.get(k, (lo, hi))
            o[k] = [None if a is None or lo is None else min(a, lo), None if b is None or hi is None else max(b, hi)]
    return {h: dict(sorted(o.items())) for h, o in out.items()}


def val_task(prop, hname, cfg, values, flags):
    """symbolic machinery on the numbers of one concrete run -> observations"""
    from . import symcore as sc, ctx as cx
    spec = registry()[prop]
    fn = spec["harnesses"][hname]["fn"]
    o = spec["harnesses"][hname].get("opts", {})
    ex = cx.ValExplorer(logfacts=False)
    c = cx.ValCtx(ex, cfg, cx.Values(values, flags))
    out = {"error": None}

    def path():
        c.begin_path()
        fn(c, **{k: v for k, v in cfg.items() if k != "script"})
    try:
        ex.explore(path)
    except BaseException as e:
        out["error"] = "".join(traceback.format_exception(e))[-1500:]
    out["obs"] = c.obs
    return out


def _child(conn, f, args):
    try:
        sys.setrecursionlimit(20000)
        r = f(*args)
        conn.send(("ok", r))
    except BaseException as e:
        conn.send(("err", "".join(traceback.format_exception(e))[-3000:]))
    finally:
        conn.close()
        os._exit(0)


class Pool:
    """one forked process per task"""

    def __init__(self, n):
        self.n = n
        self.ctx = mp.get_context("fork")
        self.running = {}
        self.todo = []

    def add(self, key, f, args, limit):
        self.todo.append((key, f, args, limit))

    def results(self):
        from multiprocessing.connection import wait
        while self.todo or self.running:
            while self.todo and len(self.running) < self.n:
                key, f, args, limit = self.todo.pop(0)
                a, b = self.ctx.Pipe(False)
                p = self.ctx.Process(target=_child, args=(b, f, args))
                p.start()
                b.close()
                self.running[a] = (key, p, time.time() + limit)
            for c in wait(list(self.running), timeout=0.5):
                key, p, _ = self.running.pop(c)
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    r = ("err", "worker died (memory or crash)")
                c.close()
                p.join(5)
                yield key, r
            now = time.time()
            for c in [c for c, v in self.running.items() if v[2] < now]:
                key, p, _ = self.running.pop(c)
                p.kill()
                p.join(5)
                c.close()
                yield key, ("err", "budget exhausted: worker killed")


# ------------------------------------------------------------------ concrete side
class Conc:
    def __init__(self, prop):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
        env.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "check.py"), "--conc-server", prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=HERE, env=env, text=True)
        self.dead = None

    def ask(self, **req):
        if self.dead:
            return {"status": "error", "detail": self.dead}
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise EOFError
            return json.loads(line)
        except (OSError, EOFError, ValueError) as e:
            self.dead = f"concrete runner died: {type(e).__name__}"
            return {"status": "error", "detail": self.dead}

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            self.p.kill()


class ConcRunner:
    """executes harnesses on the real code in this process"""

    def __init__(self, prop):
        from . import shims, loader
        self.spec = registry()[prop]
        root = type("Root", (), {"sym": False})()
        self.env = root.env = shims.Env(root)
        self.shims = shims
        self.root = root
        self.loader = None

    def run(self, hname, cfg, values=None, flags=None, seed=0):
        import warnings
        import numpy as np
        from . import ctx as cx, loader
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        out = {"status": "ok", "fails": []}
        src = cx.Values(values, flags, seed)
        try:
            if self.loader is None:
                self.loader = loader.Loader(self.shims.conc_modules(self.root))
            c = cx.ConcCtx(cfg, self.loader, self.env, src)
            self.env.ctx = c
            self.env.reset()
            fn = self.spec["harnesses"][hname]["fn"]
            try:
                fn(c, **{k: v for k, v in cfg.items() if k != "script"})
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "templatefitter" in f.filename), None)
                inner = tb[-1].filename if tb else ""
                if where is None and ("props" in inner or "engine" in inner):
                    out["status"] = "error"
                    out["detail"] = "".join(traceback.format_exception(e))[-1500:]
                    out["values"], out["flags"] = src.used, src.used_flags
                    # an error in the harness caused by unusable results of the code counts as a failure of the code
                    c.fails.append({"label": f"results unusable: {type(e).__name__}: {str(e)[:200]}", "got": None, "expected": None})
                else:
                    c.fails.append({"label": f"exception {type(e).__name__}: {str(e)[:200]} at {where}", "got": None, "expected": None})
            out["fails"] = c.fails[:10]
            out["claims"] = c.claims
            out["obs"] = c.obs
            if c.fails:
                out["status"] = "fail"
        except cx.Skip as e:
            out["status"] = "skip"
        except Exception as e:
            out["status"] = "fail"
            out["fails"] = [{"label": f"exception {type(e).__name__}: {str(e)[:200]} while loading", "got": None, "expected": None}]
            out["detail"] = "".join(traceback.format_exception(e))[-1500:]
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            out["status"] = "error"
            out["detail"] = "".join(traceback.format_exception(e))[-1500:]
        out["values"], out["flags"] = src.used, src.used_flags
        return out


def conc_server(prop):
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    r = ConcRunner(prop)
    for line in sys.stdin:
        q = json.loads(line)
        try:
            a = r.run(q["h"], q["cfg"], q.get("values"), q.get("flags"), q.get("seed", 0))
        except BaseException as e:
            a = {"status": "error", "detail": repr(e)}
        out.write(json.dumps(a, default=str) + "\n")
        out.flush()


# ------------------------------------------------------------------ comparison of encodings
def obs_differ(co, vo):
    if len(co) != len(vo):
        return f"{len(co)} observations against {len(vo)}"
    for a, b in zip(co, vo):
        if a[0] != b[0]:
            return f"observation {a[0]!r} against {b[0]!r}"
        if len(a[1]) != len(b[1]):
            return f"{a[0]}: {len(a[1])} values against {len(b[1])}"
        for x, y in zip(a[1], b[1]):
            if isinstance(x, str) or isinstance(y, str):
                continue
            if x != x and y != y or x == y:
                continue
            if not abs(x - y) <= 4 * a[2] * max(abs(x), abs(y), a[3]):
                return f"{a[0]}: real code {x!r}, encoding {y!r}"
    return None


# ------------------------------------------------------------------ replay of candidates
def variants(cand, ints, rng, n):
    v, f = cand["values"], cand["flags"]
    yield v, f, 0
    if v:
        yield {k: round(x * 8) / 8 for k, x in v.items()}, f, 0
        yield {k: round(x * 100) / 100 for k, x in v.items()}, f, 0
    for i in range(n):
        if v and i % 3 < 2:
            s = 0.1 if i % 3 == 0 else 0.5
            yield {k: x if rng.random() < 0.4 else x + rng.gauss(0, s * max(1.0, abs(x))) for k, x in v.items()}, f, i
        else:
            # keep the choices (and a random half of the numbers)
            keep = {k: x for k, x in v.items() if rng.random() < 0.5} if i % 2 else {}
            yield keep, f, i + 7


def search(conc, h, cfg, cand, ints, rng, n, until=None):
    for v, f, s in variants(cand, ints, rng, n):
        if until and time.time() > until:
            return None
        r = conc.ask(h=h, cfg=cfg, values=v, flags=f, seed=rng.randrange(1 << 30))
        if r["status"] == "fail":
            return r
        if r["status"] == "error" and conc.dead:
            return None
    return None


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) harness=(\S+) label=/(.*?)/ (.*)$", l)
            if m:
                out.append(m.groups())
    return out


def is_known(prop, h, fails):
    for p, hh, rx, what in known_findings():
        if p == prop and hh == h and all(re.search(rx, f["label"]) for f in fails):
            return what
    return None


# ------------------------------------------------------------------ main
def run(prop, tier, seed):
    t0 = time.time()
    reg = registry()
    if prop not in reg:
        print(f"no check for property {prop}")
        return 2
    spec = reg[prop]
    rng = random.Random(seed * 7919 + 13)
    quick = tier == "quick"
    total = float(os.environ.get("VERIF_BUDGET", 420 if quick else 820))
    conc = Conc(prop)
    tasks = []
    for h, hs in spec["harnesses"].items():
        cfgs = list(hs["quick"]) if quick else list(hs.get("thorough", hs["quick"]))
        for cfg in cfgs:
            tasks.append((h, cfg))
    pool = Pool(int(os.environ.get("VERIF_JOBS", "7")))
    for i, (h, cfg) in enumerate(tasks):
        b = spec["harnesses"][h].get("budget", 200 if quick else 700)
        b = min(b, total * 0.9)
        pool.add(i, sym_task, (prop, h, cfg, b, {}), b + 20)
    results = {}
    gen = pool.results()

    # concrete runs of the real code, for validation of the encoding (while the solvers work)
    nval = 2 if quick else 8
    if len(tasks) > 40:
        nval = max(1, nval // 2)
    validated = mism = 0
    conc_runs = {}
    direct = None
    errors = []
    import threading

    def conc_job():
        nonlocal direct
        r2 = random.Random(seed)
        for i, (h, cfg) in enumerate(tasks):
            got = []
            hs = spec["harnesses"][h]
            for k in range(40):
                if len(got) >= nval or conc.dead:
                    break
                r = conc.ask(h=h, cfg=cfg, seed=r2.randrange(1 << 30))
                if r["status"] == "skip":
                    continue
                got.append(r)
                if r["status"] == "fail":
                    break
            conc_runs[i] = got
    th = threading.Thread(target=conc_job)
    th.start()
    for key, (st, r) in gen:
        results[key] = r if st == "ok" else {"error": r, "cands": [], "stats": {}, "notes": [], "claims": 0, "unknown": [], "functions": [], "exc": [], "wall": 0, "done": 0, "ints": []}
    th.join()

    # configurations which random inputs do not reach: inputs taken from the solver's model of a path
    for i, (h, cfg) in enumerate(tasks):
        if conc_runs.get(i) or conc.dead:
            continue
        for vals, flags in results[i].get("witnesses", []):
            for v, f, s in variants({"values": vals, "flags": flags}, [], rng, 40):
                r = conc.ask(h=h, cfg=cfg, values=v, flags=f, seed=rng.randrange(1 << 30))
                if r["status"] != "skip":
                    conc_runs.setdefault(i, []).append(r)
                    break

    # validation: same numbers through the encoding
    vp = Pool(7)
    for i, (h, cfg) in enumerate(tasks):
        for j, r in enumerate(conc_runs.get(i, [])):
            if r["status"] == "ok" and not spec["harnesses"][h].get("noval"):
                vp.add((i, j), val_task, (prop, h, cfg, r["values"], r["flags"]), 120)
    mis = {}
    for (i, j), (st, r) in vp.results():
        h, cfg = tasks[i]
        if st != "ok" or r["error"]:
            d = r if st != "ok" else r["error"]
        else:
            d = obs_differ(conc_runs[i][j]["obs"], r["obs"])
        if d is None:
            validated += 1
        else:
            mis.setdefault(i, []).append((j, d))
    for i, l in mis.items():
        n = len(conc_runs[i])
        if len(l) * 2 > n or n == 1:
            errors.append(f"encoding and real code disagree for {tasks[i]}: {l[0][1]}")
            mism += 1

    violations, known = [], []

    def report(h, cfg, r, solver):
        what = is_known(prop, h, r["fails"])
        if what:
            known.append(what)
            return True
        d = {"property": prop, "harness": h, "config": cfg, "values": r["values"], "flags": r["flags"], "fails": r["fails"], "found_by": solver}
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        name = hashlib.sha1(json.dumps([h, cfg, r["values"], r["flags"]], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", f"{prop}_{name}.json")
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        # confirm in a fresh process
        p = subprocess.run([PY, os.path.join(HERE, "check.py"), prop, "--replay", path], capture_output=True, text=True, cwd=HERE,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
        if p.returncode != 1:
            errors.append(f"violation of {h} {cfg} did not repeat in a fresh process")
            return False
        violations.append((path, h, cfg, r["fails"][0]["label"], solver))
        return True

    until = t0 + total
    for i, (h, cfg) in enumerate(tasks):
        res = results[i]
        if len(violations) >= 3:
            break
        hit = False
        for cand in res["cands"]:
            r = search(conc, h, cfg, cand, res["ints"], rng, 60 if cand["hard"] else 150, until)
            if r is not None:
                hit = report(h, cfg, r, cand["solver"])
                if hit:
                    break
        if not hit and res["cands"]:
            # a candidate that does not show up on the real code
            r = search(conc, h, cfg, {"values": {}, "flags": {}}, [], rng, 150, until)
            if r is not None:
                hit = report(h, cfg, r, "search after solver candidate")
            else:
                errors.append(f"undecided: {h} {cfg}: " + "; ".join(c["label"] + f" (solver: {c['solver']})" for c in res["cands"][:3]) +
                              ("\n" + res["exc"][0] if res["exc"] else ""))
        if res["error"] and not hit:
            r = search(conc, h, cfg, {"values": {}, "flags": {}}, [], rng, 200, until)
            if r is not None:
                hit = report(h, cfg, r, "search after inconclusive encoding")
            else:
                errors.append(f"inconclusive: {h} {cfg}: {res['error']}")
    if not violations:
        for i, (h, cfg) in enumerate(tasks):
            for r in conc_runs.get(i, []):
                if r["status"] == "fail":
                    report(h, cfg, r, "validation run of the real code")
                elif r["status"] == "error":
                    errors.append(f"concrete run failed: {h} {cfg}: {r.get('detail')}")
            if not conc_runs.get(i):
                errors.append(f"vacuous: no input reaches the end of {h} {cfg}" + (f" ({conc.dead})" if conc.dead else ""))
            if len(violations) >= 3:
                break
    for i, res in results.items():
        if not res["error"] and not res["cands"] and (res["done"] == 0 or res["claims"] == 0):
            errors.append(f"vacuous: {tasks[i]}")
    conc.close()

    agg = {}
    for res in results.values():
        for k, v in res["stats"].items():
            agg[k] = agg.get(k, 0) + v
    funcs = sorted(set().union(*[set(r["functions"]) for r in results.values()])) if results else []
    samples = []
    for i, (h, cfg) in list(enumerate(tasks))[:60]:
        for r in conc_runs.get(i, [])[:1]:
            if r["status"] == "ok" and len(samples) < 3:
                samples.append({"harness": h, "config": cfg, "inputs": r["values"], "choices": r["flags"], "observed": [o[:2] for o in r["obs"][:6]]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": agg.get("paths", 0),
            "transitions": agg.get("forks", 0) + agg.get("claim_queries", 0),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "functions_encoded": funcs,
            "bounds": spec["bounds"],
            "input_ranges": input_ranges(tasks, results),
            "harness_configurations": [[h, cfg, {"paths": results[i]["stats"].get("paths", 0), "completed": results[i]["done"],
                                                 "claims": results[i]["claims"], "wall_s": round(results[i]["wall"], 2)}] for i, (h, cfg) in enumerate(tasks)],
            "paths": agg.get("paths", 0), "forks": agg.get("forks", 0),
            "queries": {"claims": agg.get("claim_queries", 0), "claims_unsat": agg.get("unsat", 0), "claims_sat": agg.get("sat", 0),
                        "claims_unknown": agg.get("unknown", 0), "path_feasibility": agg.get("feas_queries", 0)},
            "solver_s": round(agg.get("solver_s", 0.0), 3),
            "encoding_mismatches": mism,
            "notes": sorted({n for r in results.values() for n in r["notes"]})[:20],
        },
        "assumptions": spec["assumptions"] if "assumptions" in spec else [],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    from .common import ASSUMPTIONS, WIDE
    ev["assumptions"] = ASSUMPTIONS + ev["assumptions"]
    ev["coverage"]["bounds"] += WIDE
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    for e in errors[:8]:
        print("INCONCLUSIVE:", e)
    q = ev["coverage"]["queries"]
    print(f"{prop} {tier}: {len(tasks)} configurations, {agg.get('paths', 0)} paths, {q['claims']} claims ({q['claims_unsat']} unsat), "
          f"{q['path_feasibility']} feasibility queries, solver {agg.get('solver_s', 0):.1f} s, {validated} runs validated, wall {time.time() - t0:.1f} s")
    for path, h, cfg, label, solver in violations:
        print(f"  {h} {cfg}: {label} [{solver}]")
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    return 2 if errors else 0


def replay(prop, path):
    d = json.load(open(path))
    r = ConcRunner(d["property"]).run(d["harness"], d["config"], d["values"], d["flags"])
    if r["status"] == "fail":
        print(f"reproduced: {d['harness']} {d['config']}")
        for f in r["fails"]:
            print("  ", f["label"], "" if f["got"] is None else f"got {f['got']} expected {f['expected']}")
        return 1
    print("not reproduced:", r["status"], r.get("detail", ""))
    return 0
