"""builds /verif/seeded from the table: patch, demo, meta; checks tests and demos on a scratch copy"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, "/tmp/seed")
W = "/tmp/seed/w"
PY = "/opt/venv/bin/python"


def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def main(bugs, only):
    if not os.path.exists(W):
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", W)
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = f"/verif/seeded/{b['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh("git checkout -q -f .", W)
        for f, a, c in b["edits"]:
            p = f"{W}/templatefitter/{f}"
            s = open(p).read()
            assert s.count(a) == 1, (b["id"], f, a, s.count(a))
            open(p, "w").write(s.replace(a, c))
        open(f"{d}/patch.diff", "w").write(sh("git diff", W).stdout)
        open(f"{d}/demo.py", "w").write(b["demo"].lstrip())
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nset -e\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1")
        t = sh(f"{PY} -m pytest -x -q -p no:cacheprovider tests", W, env=env)
        bad = sh(f"{d}/demo.sh", W)
        sh("git checkout -q -f .", W)
        good = sh(f"{d}/demo.sh", W)
        ok = t.returncode == 0 and bad.returncode != 0 and good.returncode == 0
        print(b["id"], "OK" if ok else "BAD", t.returncode, bad.returncode, good.returncode, (bad.stderr or "").strip().splitlines()[-1:], "" if ok else (t.stdout[-300:], good.stderr[-600:]), flush=True)


if __name__ == "__main__":
    from bugs import BUGS
    main(BUGS, sys.argv[1:])
