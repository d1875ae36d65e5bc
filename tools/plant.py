"""Confirms planted bugs (tools/bugs.py) in scratch copies of the repository and
writes them to /verif/seeded/<id>/.

    python3 tools/plant.py [ID ...] [--check-only] [--jobs N] [--also C06,C07]

For every bug: the edit is made in a scratch copy, the patch has to change only
lines of the original repository, the copy is built and its tests are run, the
demonstration has to exit 0 on the unchanged tree and nonzero with the patch, and
the checks of the bug's property run against the copy.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
PYTHON = "/opt/venv/bin/python"
sys.path.insert(0, HERE)

DEMO_SH = """#!/bin/sh
# run with cwd /repo after the build: exit 0 if the property holds
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, **kw):
    kw.setdefault("timeout", 900)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def base_lines(base, path):
    out = run(["git", "-C", REPO, "show", f"{base}:{path}"]).stdout
    return {line.strip() for line in out.splitlines()}


def tests_pass(copy, tmp):
    out = run([PYTHON, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
               os.path.join(copy, "tests")], cwd=copy,
              env=dict(os.environ, PYTHONPATH=copy, MPLBACKEND="Agg"))
    tail = out.stdout.strip().splitlines()[-1] if out.stdout.strip() else ""
    return out.returncode == 0, tail


def plant(bug, checks_only, also, base, seeds):
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    copy = os.path.join(tmp, "repo")
    log = [f"== {bug['id']} ({bug['property']})"]
    ok = True
    try:
        shutil.copytree(REPO, copy, symlinks=True)
        folder = os.path.join(VERIF, "seeded", bug["id"])
        original = {}
        for path, old, new in bug["edits"]:
            full = os.path.join(copy, path)
            with open(full) as f:
                text = f.read()
            if text.count(old) != bug.get("count", 1):
                return False, log + [f"   edit of {path}: found {text.count(old)} times:\n{old}"]
            with open(full, "w") as f:
                f.write(text.replace(old, new))
            original[path] = base_lines(base, path)
        diff = run(["git", "-C", copy, "diff", "--no-color"]).stdout
        removed = [line[1:].strip() for line in diff.splitlines()
                   if line.startswith("-") and not line.startswith("---")]
        lines = set().union(*original.values())
        foreign = [r for r in removed if r and r not in lines]
        if foreign or not any(removed):
            ok = False
            log.append(f"   changes lines not of the original repository: {foreign} {removed[:1]}")
        demo_dir = os.path.join(tmp, "demo")
        os.makedirs(demo_dir)
        with open(os.path.join(demo_dir, "demo.py"), "w") as f:
            f.write(bug["demo"])
        with open(os.path.join(demo_dir, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(demo_dir, "demo.sh"), 0o755)
        if not checks_only:
            good, tail = tests_pass(copy, tmp)
            if not good:
                ok = False
                log.append(f"   tests fail: {tail}")
            demo = os.path.join(demo_dir, "demo.sh")
            a = run(["sh", demo], cwd=REPO)
            b = run(["sh", demo], cwd=copy)
            if a.returncode != 0:
                ok = False
                log.append(f"   demo fails on the unchanged tree: {a.stdout[-800:]}")
            if b.returncode == 0:
                ok = False
                log.append(f"   demo passes with the patch: {b.stdout[-300:]}")
            else:
                log.append("   demo: " + (b.stdout.strip().splitlines() or [""])[-1][:150])
        if ok and not checks_only:
            os.makedirs(folder, exist_ok=True)
            for name in ("demo.py", "demo.sh"):
                shutil.copy(os.path.join(demo_dir, name), folder)
            with open(os.path.join(folder, "patch.diff"), "w") as f:
                f.write(diff)
            with open(os.path.join(folder, "meta.json"), "w") as f:
                json.dump({"property": bug["property"], "needs": bug["needs"],
                           "what_it_breaks": bug["breaks"]}, f, indent=1)
                f.write("\n")
        for prop in [bug["property"]] + [p for p in also if p != bug["property"]]:
            caught = []
            for seed in seeds if prop == bug["property"] else seeds[:1]:
                r = run([os.path.join(VERIF, "check"), prop, "--seed", str(seed)],
                        env=dict(os.environ, TFMON_REPO=copy,
                                 TFMON_EVIDENCE=os.path.join(tmp, "evidence")))
                viol = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                caught.append(f"{r.returncode}/{len(viol)}")
                if r.returncode not in (0, 1):
                    log.append("   " + r.stdout[-600:])
            log.append(f"   check {prop}: " + " ".join(
                "caught" if c.startswith("1/") and not c.endswith("/0")
                else f"MISSED({c})" if prop == bug["property"] else f"-" for c in caught))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return ok, log


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--check-only", action="store_true")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--also", default="")
    ap.add_argument("--seeds", default="1")
    args = ap.parse_args()
    from bugs import BUGS
    base = run(["git", "-C", REPO, "log", "--reverse", "--format=%h"]).stdout.split()[0]
    bugs = [b for b in BUGS if not args.ids or b["id"] in args.ids
            or any(b["id"].startswith(i) for i in args.ids)]
    also = [p for p in args.also.split(",") if p]
    seeds = [int(s) for s in args.seeds.split(",")]
    bad = []
    with ThreadPoolExecutor(args.jobs) as pool:
        for bug, (ok, log) in zip(bugs, pool.map(
                lambda b: plant(b, args.check_only, also, base, seeds), bugs)):
            print("\n".join(log), flush=True)
            if not ok or any("MISSED" in x for x in log):
                bad.append(bug["id"])
    print("to look at:", bad)


if __name__ == "__main__":
    main()
