import argparse
import os
import subprocess
import sys
import tempfile
import shutil

from . import core, env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run one case of the given index")
    a = ap.parse_args()
    if a.replay or a.one is not None:
        if os.environ.get("TFMON_CHILD") != "1":
            scratch = tempfile.mkdtemp(prefix="tfmon-replay-")
            try:
                e = env.child_env(scratch)
                e["TFMON_CHILD"] = "1"
                sys.exit(subprocess.run([env.PYTHON, "-m", "tfmon.main"] + sys.argv[1:], env=e).returncode)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        if a.replay:
            sys.exit(core.replay(a.replay))
        import json
        env.setup_import_path()
        r = core.run_case(core.load_prop(a.prop), a.prop, a.tier, a.seed, a.one)
        print(json.dumps(r, indent=1)[:30000])
        sys.exit({"held": 0, "violated": 1}.get(r["verdict"], 2))
    sys.exit(core.run_property(a.prop, a.tier, a.seed, a.cases, a.workers, a.v))


if __name__ == "__main__":
    main()
