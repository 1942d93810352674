#!/usr/bin/env python3
"""plant.py [-j N] [-n] [-c] [NAME...]: build seeded/<NAME> from tools/bugs*.py
and confirm each in a scratch copy of /repo: it applies, builds, passes the
stable tests, and its demonstration passes without and fails with it.
-c: also run the check of its property against it.  -n: only the check."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
import bugs
import bugs2  # noqa: F401
try:
    import bugs3  # noqa: F401
    import bugs4  # noqa: F401
    import bugs5  # noqa: F401
except ImportError:
    pass

STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def scratch():
    t = Path(tempfile.mkdtemp(prefix="plant-"))
    subprocess.run(["git", "clone", "-q", "/repo", str(t / "repo")], check=True)
    for f in ("build.sh", "test.sh"):
        (t / f).write_text(Path("/opt/vp", f).read_text().replace("/repo", str(t / "repo")))
    return t


def one(n, b, args):
    t = scratch()
    repo = t / "repo"
    d = V / "seeded" / n
    env = dict(os.environ, PYTHONPATH=f"{repo}/src")
    out = []

    def demo():
        return sh(["bash", str(d / "demo.sh")], cwd=repo, timeout=300)

    try:
        if not args.n:
            d.mkdir(parents=True, exist_ok=True)
            for f, old, new in b["edits"]:
                p = repo / "src/sentinel" / f
                s = p.read_text()
                if s.count(old) != 1:
                    return f"{n}: EDIT {f} matches {s.count(old)} times: {old[:60]!r}"
                p.write_text(s.replace(old, new))
            (d / "patch.diff").write_text(sh(["git", "-C", str(repo), "diff"]).stdout)
            sh(["git", "-C", str(repo), "checkout", "--", "."])
            (d / "meta.json").write_text(json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
            (d / "demo.py").write_text(b["demo"].lstrip())
            (d / "demo.sh").write_text('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD/src:$D"\nexec /opt/venv/bin/python "$D/demo.py"\n')
            shutil.copy(V / "tools/demo/simcore.py", d)
            (d / "amaranth_soc").mkdir(exist_ok=True)
            for f in ("__init__.py", "wishbone.py"):
                shutil.copy(V / "stub/amaranth_soc" / f, d / "amaranth_soc")
            r = demo()
            if r.returncode:
                return f"{n}: DEMO FAILS ON CLEAN TREE\n{r.stdout[-800:]}{r.stderr[-1500:]}"
        a = sh(["git", "-C", str(repo), "apply", str(d / "patch.diff")])
        assert a.returncode == 0, a.stderr
        if not args.n:
            bl = sh(["bash", str(t / "build.sh")], env=env)
            sh(["bash", str(t / "test.sh"), str(t / "out.json")], env=env)
            res = json.load(open(t / "out.json"))
            passed = res.get("passed", res)
            bad = [x for x in STABLE if x not in passed]
            r = demo()
            ok = bl.returncode == 0 and not bad and r.returncode != 0
            out.append(f"{n}: {'ok' if ok else 'NOT OK'} build={bl.returncode} tests_bad={bad} demo={r.returncode} {r.stdout.strip()[-150:]}"
                       + ("" if ok else r.stderr[-600:] + bl.stderr[-500:]))
        if args.c or args.n:
            for p in (args.p or [b["property"]]):
                t0 = time.time()
                r = sh([str(V / "bin/check"), p], cwd=V, env=dict(os.environ, VERIF_REPO=str(repo), VERIF_SEED="1"), timeout=1800)
                first = next((x for x in r.stdout.splitlines() if x.startswith("# ")), "")
                out.append(f"{n}: check {p} rc={r.returncode} {'' if r.returncode == 1 else '<<<<<<<< MISSED'} {time.time() - t0:.0f}s {first[:160]}"
                           + (r.stdout[-300:] + r.stderr[-500:] if r.returncode == 2 else ""))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return "\n".join(out)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-j", type=int, default=1)
    a.add_argument("-n", action="store_true")
    a.add_argument("-c", action="store_true")
    a.add_argument("-p", action="append")
    a.add_argument("names", nargs="*")
    args = a.parse_args()
    todo = {n: b for n, b in bugs.BUGS.items() if not args.names or n in args.names}
    with ThreadPoolExecutor(args.j) as ex:
        for r in ex.map(lambda kv: one(*kv, args), todo.items()):
            print(r, flush=True)


main()
