"""Monitor context, three-valued verdicts, shard worker and evidence writer."""
import contextlib
import hashlib
import importlib
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import env

CASE_TIMEOUT = {"quick": 150, "thorough": 400}
WALL_LIMIT = {"quick": 780, "thorough": 6 * 3600}


class CaseViolation(Exception):
    def __init__(self, key, msg, witness):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg, self.witness = key, msg, witness


class Inconclusive(BaseException):
    """Raised by the per-case watchdog. BaseException: library code must not swallow it."""


class HarnessError(BaseException):
    """An error in the machinery itself: never a verdict about the code."""


def _jsonable(o, depth=0):
    import numpy as np
    if isinstance(o, (str, bool)) or o is None:
        return o
    if isinstance(o, (int, float)):
        return o if not isinstance(o, float) or abs(o) < float("inf") else repr(o)
    if isinstance(o, np.generic):
        return _jsonable(o.item())
    if isinstance(o, np.ndarray):
        return _jsonable(o.tolist() if o.size <= 200 else {"shape": list(o.shape), "head": o.ravel()[:50].tolist()}, depth)
    if isinstance(o, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set)):
        return [_jsonable(v, depth + 1) for v in list(o)[:200]]
    return repr(o)[:300]


class Ctx:
    """Handed to every case: randomness, event counters and the violation channel."""

    def __init__(self, prop, tier, seed, index):
        import numpy as np
        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        key = [int(seed) & 0xFFFFFFFF, int(prop[1:]), int(index)]
        self.rng = np.random.default_rng(key)
        np.random.seed(int(np.random.default_rng(key + [7]).integers(0, 2 ** 32 - 1)))
        self.events = Counter()
        self.signatures = set()
        self.sample = None
        self.trace = []

    # -- observation -------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += n

    def log(self, *what):
        """Appends to the recorded history of this case (kept for the witness)."""
        self.trace.append(_jsonable(list(what)))

    def seen(self, *sig):
        """Marks this case as non-trivial with the given signature."""
        self.signatures.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

    def describe(self, **kw):
        self.sample = dict(case=self.index, **_jsonable(kw))

    # -- verdict -----------------------------------------------------------
    def fail(self, key, msg, **witness):
        raise CaseViolation(key, msg, _jsonable(witness))

    def check(self, cond, key, msg="", **witness):
        self.events["monitor_checks"] += 1
        if not cond:
            self.fail(key, msg, **witness)

    def close(self, got, want, key, rtol=1e-9, atol=1e-12, msg="", **witness):
        """Element-wise closeness oracle; NaN never matches, shapes must agree."""
        import numpy as np
        self.events["monitor_checks"] += 1
        try:
            g = np.asarray(got, dtype=float)
        except Exception:
            self.fail(key, f"not numeric: {type(got)} {msg}", got=repr(got)[:300])
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(key, f"shape {g.shape} instead of {w.shape} {msg}", got=g, want=w, **witness)
        with np.errstate(all="ignore"):
            bad = ~((np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w))
        if bad.any():
            d = np.abs(g - w)
            self.fail(key, f"{int(bad.sum())} of {bad.size} values differ {msg}; max abs diff {np.nanmax(d) if d.size else 0!r}",
                      got=g, want=w, **witness)

    def same(self, got, want, key, msg="", **witness):
        """Exact equality oracle (NaN equals NaN)."""
        import numpy as np
        self.events["monitor_checks"] += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w, equal_nan=g.dtype.kind in "fc" and w.dtype.kind in "fc"):
            self.fail(key, f"not identical {msg}", got=g, want=w, **witness)

    def raises(self, exc, fn, key, msg=""):
        self.events["monitor_checks"] += 1
        try:
            r = fn()
        except exc as e:
            self.events["rejections_observed"] += 1
            return e
        except Exception as e:  # noqa
            self.fail(key, f"raised {type(e).__name__}({e}) instead of {exc}: {msg}")
        self.fail(key, f"was accepted (returned {r!r:.200}) instead of being rejected: {msg}")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def load_prop(prop):
    return importlib.import_module(f"tfmon.props.{prop.lower()}")


def _alarm(*_):
    raise Inconclusive("case watchdog")


def run_case(mod, prop, tier, seed, index):
    """Runs one case; returns a dict with verdict, events and signatures."""
    ctx = Ctx(prop, tier, seed, index)
    t0 = time.time()
    out = dict(case=index, verdict="held")
    timeout = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT[tier])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with quiet():
            mod.case(ctx, index)
    except CaseViolation as v:
        out.update(verdict="violated", key=v.key, msg=v.msg[:2000], witness=v.witness, trace=ctx.trace[-60:])
    except Inconclusive as e:
        out.update(verdict="inconclusive", msg=str(e))
    except HarnessError:
        raise
    except (MemoryError, OSError) as e:
        out.update(verdict="inconclusive", msg=f"resource: {e!r}")
    except Exception as e:  # the code crashed, or returned something unusable, on valid input
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(env.REPO + os.sep)]
        where = f"{os.path.basename(inside[-1].filename)}:{inside[-1].name}" if inside else "at-the-api-boundary"
        out.update(verdict="violated", key=f"crash:{type(e).__name__}:{where}",
                   msg=f"unexpected {type(e).__name__}: {str(e)[:600]}",
                   witness=dict(traceback=traceback.format_exc()[-3000:]), trace=ctx.trace[-60:])
    finally:
        signal.alarm(0)
        import matplotlib
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    out.update(events=dict(ctx.events), signatures=sorted(ctx.signatures), sample=ctx.sample, s=round(time.time() - t0, 3))
    return out


# -- shard worker -----------------------------------------------------------
def worker_main(argv):
    prop, tier, seed, shard, nshards, total, deadline, outfile = argv
    seed, shard, nshards, total, deadline = int(seed), int(shard), int(nshards), int(total), float(deadline)
    env.setup_import_path()
    mod = load_prop(prop)
    with open(outfile, "w") as f:
        for i in range(shard, total, nshards):
            if time.time() > deadline:
                break
            r = run_case(mod, prop, tier, seed, i)
            f.write(json.dumps(r) + "\n")
            f.flush()
        f.write(json.dumps(dict(done=True)) + "\n")


# -- orchestration ------------------------------------------------------------
def known_findings():
    p = os.path.join(env.VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def run_property(prop, tier, seed, cases=None, workers=None, verbose=False):
    t0 = time.time()
    evdir = env.EVIDENCE
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    evfile = os.path.join(evdir, f"{prop}.json")
    if os.path.exists(evfile):
        os.unlink(evfile)
    for f in os.listdir(os.path.join(evdir, "replays")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(evdir, "replays", f))
    scratch = tempfile.mkdtemp(prefix=f"tfmon-{prop}-")
    try:
        code = _orchestrate(prop, tier, seed, cases, workers, verbose, t0, evfile, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def _orchestrate(prop, tier, seed, cases, workers, verbose, t0, evfile, scratch):
    e = env.child_env(scratch)
    probe = subprocess.run([env.PYTHON, "-m", "tfmon.plan", prop], env=e, cwd=env.VERIF, capture_output=True, text=True, timeout=120)
    if probe.returncode != 0:
        print(probe.stderr[-3000:], file=sys.stderr)
        print(f"INCONCLUSIVE property={prop}: the plan could not be loaded")
        return 2
    plan = json.loads(probe.stdout.strip().splitlines()[-1])
    total = cases if cases is not None else plan["cases"][tier]
    n = min(workers or os.cpu_count() or 1, total)
    deadline = t0 + WALL_LIMIT[tier]
    procs = []
    for k in range(n):
        out = os.path.join(scratch, f"shard{k}.jsonl")
        log = open(os.path.join(scratch, f"shard{k}.log"), "w")
        p = subprocess.Popen(
            [env.PYTHON, "-m", "tfmon.worker", prop, tier, str(seed), str(k), str(n), str(total), str(deadline), out],
            env=e, cwd=scratch, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        procs.append((p, out, log.name))
    crashed = []
    for p, out, log in procs:
        try:
            p.wait(timeout=max(1, deadline + 60 - time.time()))
        except subprocess.TimeoutExpired:
            pass
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)   # also ends left-over pool workers of this shard
        p.wait()
    results, done = [], 0
    for k, (p, out, log) in enumerate(procs):
        shard_done = False
        if os.path.exists(out):
            for line in open(out):
                with contextlib.suppress(json.JSONDecodeError):
                    r = json.loads(line)
                    if r.get("done"):
                        shard_done = True
                    else:
                        results.append(r)
        done += shard_done
        if not shard_done:
            crashed.append((k, p.returncode, "\n".join(l[:300] for l in open(log, errors="replace").read().splitlines())[-3000:]))

    events, sigs, samples, bykey, inconcl = Counter(), set(), [], {}, []
    results.sort(key=lambda r: r["case"])
    for r in results:
        events.update(r["events"])
        sigs.update(r["signatures"])
        if r.get("sample") and len(samples) < 6:
            samples.append(r["sample"])
        if r["verdict"] == "violated":
            bykey.setdefault(r["key"], []).append(r)
        elif r["verdict"] == "inconclusive":
            inconcl.append(r)

    known = {f["key"]: f for f in known_findings() if f["property"] == prop and f.get("status") == "open"}
    new = {k: v for k, v in bykey.items() if k not in known}
    for k, f in known.items():
        if k in bykey:
            print(f"KNOWN-FINDING: property={prop} {f['what']} (seen in {len(bykey[k])} cases)")
    missing = [c for c in plan["required"] if events.get(c, 0) == 0]
    coverage = dict(
        evaluations=len(results), distinct_nontrivial=len(sigs), rule=plan["rule"],
        samples=samples or [dict(note="no case of this run recorded a sample")],
        observed_events=dict(sorted(events.items())), inconclusive_cases=len(inconcl),
        known_finding_cases={k: len(v) for k, v in bykey.items() if k in known},
        planned_cases=total, worker_processes=n)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
              assumptions=plan["assumptions"], wall_s=round(time.time() - t0, 2),
              violations=sum(len(v) for v in new.values()))
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for i, (k, rs) in enumerate(sorted(new.items())):
        r = rs[0]
        path = os.path.join(env.EVIDENCE, "replays", f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, case=r["case"], key=k, msg=r["msg"], witness=r["witness"],
                           history=r.get("trace"), other_cases=[x["case"] for x in rs[1:50]],
                           rerun=f"cd {env.VERIF} && ./check {prop} --replay {path}"), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {k}: {r['msg'][:400]} [{len(rs)} of {len(results)} cases, first {r['case']}]")
    print(f"{prop} {tier} seed={seed}: {len(results)}/{total} cases, {len(sigs)} distinct non-trivial, "
          f"{events.get('monitor_checks', 0)} monitor checks, {len(new)} violation kinds, {len(inconcl)} inconclusive, {ev['wall_s']} s")
    if verbose:
        print(json.dumps(coverage["observed_events"], indent=1))
        slow = sorted(results, key=lambda r: -r["s"])[:5]
        print("slowest cases:", [(r["case"], r["s"]) for r in slow], "sum", round(sum(r["s"] for r in results), 1))
    if new:
        return 1
    if crashed:
        for k, rc, log in crashed:
            print(f"shard {k} ended early (exit {rc})\n{log}", file=sys.stderr)
        print(f"INCONCLUSIVE property={prop}: {len(crashed)} worker(s) did not finish")
        return 2
    if missing or len(inconcl) > max(1, 0.02 * total) or len(results) < total or not sigs:
        print(f"INCONCLUSIVE property={prop}: events never observed: {missing}; {len(inconcl)} cases inconclusive; {len(results)}/{total} run")
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    env.setup_import_path()
    mod = load_prop(d["property"])
    r = run_case(mod, d["property"], d["tier"], d["seed"], d["case"])
    print(json.dumps(r, indent=1)[:20000])
    if r["verdict"] == "violated":
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0 if r["verdict"] == "held" else 2
