"""Shared runner: drives a check's generators with Hypothesis over several
processes, counts what was generated, shrinks a failure into a replay file,
and writes the evidence file.

A check module offers
    ID      property id
    RULE    how cases are made and what makes one non-trivial
    SUBS    list of Sub(name, strategy(), check(case, ctx), quick, thorough)
Exit codes: 0 held, 1 VIOLATION line(s) printed, 2 the harness itself failed.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import signal
import subprocess
import sys
import time
import traceback

from vlib import env

env.setup()
from hypothesis.errors import HypothesisException  # noqa: E402

SHRINK_BUDGET = 45.0  # seconds spent on making a found failure smaller
CASE_CPU_LIMIT = 60.0  # CPU seconds one case may take (typical: 0.01-0.5)


class Violation(Exception):
    pass


class Rejected(Exception):
    """The code under test raised where the property allows it to."""


class _StopShrink(KeyboardInterrupt):
    pass


class _Hang(BaseException):
    pass


def _on_timer(signum, frame):
    raise _Hang()


def run_case(sub, case, ctx):
    """One evaluation. Returns (None | failure message, hung?).

    An exception that comes out of the code under test, or out of looking at
    what it returned (an attribute, rule or definition that is not there), is
    the property failing; on a tree where the property holds the looking never
    fails. Exhausted resources and Hypothesis' own signals pass through."""
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        sub.check(case, ctx)
        return None, False
    except Violation as e:
        return str(e), False
    except _Hang:
        return f"no result after {CASE_CPU_LIMIT:.0f} CPU seconds", True
    except (MemoryError, HypothesisException):
        raise
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (OSError, ImportError)) and not any(f.filename.startswith(env.LIB + os.sep) for f in frames):
            raise
        files = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in frames]
        tb = "".join(traceback.format_exception_only(e)).strip()
        return f"raised {tb[:400]} at {files[-1]}", False
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, explicit=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.explicit = explicit  # callable -> list of fixed cases, run first


class Ctx:
    """Handed to every check run: labels, non-triviality and guarded calls."""

    def __init__(self, strict=False):
        self.strict = strict  # listed findings count as failures too
        self.labels = []
        self.nontrivial = False
        self.key = None
        self.sample = None

    def listed(self, finding):
        """Is this call site or input a finding recorded in known_findings.json?"""
        return not self.strict and any(k["status"] == "known" and k["id"] == finding for k in load_known())

    def label(self, *names):
        self.labels.extend(names)

    def note(self, nontrivial, sample=None, key=None):
        self.nontrivial = bool(nontrivial)
        self.sample = sample
        self.key = key

    @contextlib.contextmanager
    def sut(self, what):
        """Code under test: an exception here is the property failing."""
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield
        except Violation:
            raise
        except RecursionError as e:
            raise Violation(f"{what}: RecursionError")
        except Exception as e:
            raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:300]}") from e

    def must_raise(self, what, fn, *args):
        """fn must refuse its input by raising an ordinary exception."""
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn(*args)
        except RecursionError:
            raise Violation(f"{what}: RecursionError instead of a clean refusal")
        except Exception as e:
            return e
        raise Violation(f"{what}: accepted, got {str(r)[:300]}")

    def eq(self, what, got, want):
        if got != want:
            raise Violation(f"{what}:\n  got  {short(got)}\n  want {short(want)}\n  {diff(got, want)}")

    def true(self, what, cond, detail=""):
        if not cond:
            raise Violation(f"{what} {detail}")


def short(x, n=1500):
    s = x if isinstance(x, str) else json.dumps(x, default=repr, sort_keys=True)
    return s if len(s) <= n else s[:n] + "…"


def diff(got, want, path="$"):
    """First point where two JSON-like values differ."""
    if type(got) != type(want):
        return f"differs at {path}: {short(got,200)} vs {short(want,200)}"
    if isinstance(got, dict):
        for k in sorted(set(got) | set(want), key=str):
            if k not in got:
                return f"differs at {path}: missing {k!r}"
            if k not in want:
                return f"differs at {path}: unexpected {k!r}"
            if got[k] != want[k]:
                return diff(got[k], want[k], f"{path}.{k}")
    elif isinstance(got, (list, tuple)):
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return diff(a, b, f"{path}[{i}]")
        if len(got) != len(want):
            return f"differs at {path}: length {len(got)} vs {len(want)}"
    return f"differs at {path}: {short(got,200)} vs {short(want,200)}"


def casehash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def derive_seed(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:7], "big")


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []

    def record(self, case, ctx):
        self.evaluations += 1
        for l in set(ctx.labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.nontrivial:
            h = casehash(ctx.key if ctx.key is not None else case)
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                n = len(self.nontrivial)
                if n in (1, 7, 40):
                    self.samples.append(ctx.sample if ctx.sample is not None else short(case, 1200))


def run_sub(sub, n, seed, deadline):
    """One shard of one sub-check. Returns (Stats, failure or None, timed_out)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = Stats()
    state = {"fail": None, "t": None, "timeout": False}

    strat = sub.strategy()

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
    )
    @given(strat)
    def drive(case):
        if state["fail"] is None and time.monotonic() > deadline:
            state["timeout"] = True
            raise _StopShrink()
        if state["t"] is not None and time.monotonic() - state["t"] > SHRINK_BUDGET:
            raise _StopShrink()
        ctx = Ctx()
        msg, hung = run_case(sub, case, ctx)
        if msg is None:
            if state["fail"] is None:
                stats.record(case, ctx)
            return
        if state["t"] is None:
            state["t"] = time.monotonic()
        size = len(json.dumps(case, default=repr))
        if state["fail"] is None or size <= state["fail"][2]:
            state["fail"] = (case, msg, size)
        if hung:
            raise _StopShrink()
        raise Violation(msg)

    try:
        drive()
    except _StopShrink:
        pass
    except Violation:
        pass
    except BaseException as e:
        # Flaky & friends: only acceptable when we already hold a failing case
        if state["fail"] is None or isinstance(e, (SystemExit, MemoryError)):
            raise
        if "Flaky" not in type(e).__name__:
            raise
    fail = state["fail"]
    return stats, (None if fail is None else {"case": fail[0], "message": fail[1]}), state["timeout"]


def worker_main(modname, tier, shard, shards, seed, budget, outfile):
    mod = importlib.import_module(modname)
    t0 = time.monotonic()
    out = {"subs": {}, "error": None}
    try:
        for si, sub in enumerate(mod.SUBS):
            total = sub.quick if tier == "quick" else sub.thorough
            n = total // shards + (1 if shard < total % shards else 0)
            res = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "fail": None, "timeout": False}
            out["subs"][sub.name] = res
            if sub.explicit is not None:
                cases = sub.explicit()
                stats = Stats()
                for i, case in enumerate(cases):
                    if i % shards != shard:
                        continue
                    ctx = Ctx()
                    msg, _ = run_case(sub, case, ctx)
                    if msg is not None:
                        res["fail"] = {"case": case, "message": msg}
                        break
                    stats.record(case, ctx)
                merge(res, stats)
            if res["fail"] is None and n > 0:
                stats, fail, timeout = run_sub(
                    sub, n, derive_seed(seed, mod.ID, sub.name, shard, shards), t0 + budget
                )
                merge(res, stats)
                res["fail"] = fail
                res["timeout"] = timeout
            if res["fail"] is not None:
                break
    except BaseException:
        out["error"] = traceback.format_exc()
    with open(outfile, "w") as f:
        json.dump(out, f, default=repr)


def merge(res, stats):
    res["evaluations"] += stats.evaluations
    res["nontrivial"] = sorted(set(res["nontrivial"]) | stats.nontrivial)
    for k, v in stats.labels.items():
        res["labels"][k] = res["labels"].get(k, 0) + v
    res["samples"].extend(stats.samples)


def load_known():
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def replay(mod, path):
    with open(path) as f:
        rec = json.load(f)
    sub = {s.name: s for s in mod.SUBS}[rec["sub"]]
    msg, _ = run_case(sub, rec["case"], Ctx())
    if msg is not None:
        print(msg)
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    print("replay: property held on this case")
    return 0


def main(pid, tier, seed, shards=None, budget=None):
    t0 = time.monotonic()
    modname = f"checks.{pid.lower()}"
    mod = importlib.import_module(modname)
    shards = shards or min(8, os.cpu_count() or 1)
    budget = budget or (400.0 if tier == "quick" else 3000.0)
    evdir = os.path.join(env.VERIF, "evidence")
    tmpdir = os.path.join(evdir, "run")
    repdir = os.path.join(evdir, "replay")
    os.makedirs(tmpdir, exist_ok=True)
    os.makedirs(repdir, exist_ok=True)

    # listed findings that were recorded rather than repaired
    known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]
    for k in known:
        sub = {s.name: s for s in mod.SUBS}[k["sub"]]
        if run_case(sub, k["case"], Ctx(strict=True))[0] is not None:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    procs = []
    for s in range(shards):
        outfile = os.path.join(tmpdir, f"{pid}.{os.getpid()}.{s}.json")
        e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", HYPOTHESIS_STORAGE_DIRECTORY=tmpdir)
        p = subprocess.Popen(
            [
                sys.executable,
                os.path.join(env.VERIF, "run.py"),
                "--worker",
                modname,
                tier,
                str(s),
                str(shards),
                str(seed),
                str(budget),
                outfile,
            ],
            env=e,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE,
            cwd=tmpdir,
        )
        procs.append((p, outfile))
    outs = []
    errors = []
    for p, outfile in procs:
        _, err = p.communicate()
        if os.path.exists(outfile):
            with open(outfile) as f:
                o = json.load(f)
            os.unlink(outfile)
            if o["error"]:
                errors.append(o["error"])
            outs.append(o)
        else:
            errors.append(f"worker died rc={p.returncode}: {err.decode(errors='replace')[-2000:]}")

    evaluations = 0
    distinct = set()
    labels, samples, per_sub, fails = {}, [], {}, []
    timeouts = []
    for o in outs:
        for name, r in o["subs"].items():
            evaluations += r["evaluations"]
            distinct |= {f"{name}:{h}" for h in r["nontrivial"]}
            ps = per_sub.setdefault(name, {"evaluations": 0, "distinct": set(), "labels": {}, "samples": []})
            ps["evaluations"] += r["evaluations"]
            ps["distinct"] |= set(r["nontrivial"])
            for k, v in r["labels"].items():
                ps["labels"][k] = ps["labels"].get(k, 0) + v
            ps["samples"].extend(r["samples"])
            if r["timeout"]:
                timeouts.append(name)
            if r["fail"]:
                fails.append((name, r["fail"]))
    sub_ev = {}
    for name, ps in per_sub.items():
        sub_ev[name] = {
            "evaluations": ps["evaluations"],
            "distinct_nontrivial": len(ps["distinct"]),
            "classes": dict(sorted(ps["labels"].items())),
        }
        for smp in ps["samples"][:3]:
            samples.append({"sub": name, "case": smp})

    best = {}
    for name, f in fails:
        size = len(json.dumps(f["case"], default=repr))
        if name not in best or size < best[name][0]:
            best[name] = (size, f)
    lines = []
    for name, (_, f) in sorted(best.items()):
        path = os.path.join(repdir, f"{pid}-{name}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "sub": name, "case": f["case"], "message": f["message"]}, fh, indent=1)
        lines.append((name, f, path))

    vacuous = []
    if not fails and not errors:
        floor = getattr(mod, "MIN_NONTRIVIAL", 0.2)
        for name, ps in per_sub.items():
            if ps["evaluations"] >= 200 and len(ps["distinct"]) == 0:
                vacuous.append(name)
        if evaluations and len(distinct) / evaluations < floor / 10:
            vacuous.append("all")

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:12] or ["(no sample)"],
            "per_sub_check": sub_ev,
            "stopped_by_time_budget": sorted(set(timeouts)),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(lines),
    }
    tmp = os.path.join(evdir, f".{pid}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(evdir, f"{pid}.json"))

    for name, f, path in lines:
        print(f"--- {pid}/{name}\n{f['message']}\ncase: {short(f['case'], 3000)}")
        print(f"VIOLATION property={pid} replay={path}")
    if lines:
        return 1
    if errors:
        sys.stderr.write("HARNESS ERROR\n" + errors[0] + "\n")
        return 2
    if vacuous:
        sys.stderr.write(f"HARNESS ERROR: vacuous {vacuous}\n")
        return 2
    print(
        f"{pid} {tier} seed={seed}: held on {evaluations} cases, {len(distinct)} distinct non-trivial, "
        f"{ev['wall_s']} s" + (f" (time budget hit in {sorted(set(timeouts))})" if timeouts else "")
    )
    return 0
