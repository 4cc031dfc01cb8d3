"""Runner shared by all checks.

A property module (vf/props/cNN.py) provides

    ID, LEVEL           identification
    RULE                how cases are made and what makes one non-trivial (for the evidence)
    ASSUMPTIONS         list of strings
    CASES = {"quick": n, "thorough": m}
    REQUIRED = [...]    monitor counters that have to be non-zero, otherwise the run is inconclusive
    fixed_cases()       list of (name, callable(ctx)) - regression histories, run on every tier
    run_case(ctx)       one generated case; everything random comes from ctx.rng
    findings()          optional: list of (key, callable(ctx) -> bool) probes of known findings

Verdicts: Violation -> violated; Skip -> the case is not a case of this property; an exception that
escapes from the library out of an operation that has to succeed -> violated; an exception of the monitor
itself that tells it got a result of another kind than it can interpret -> violated (the same case, with the
same seed, is interpretable on a tree that behaves as it should); anything else is an error of the check
(exit 2), never a verdict.
"""
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
EVIDENCE = VERIF / "evidence"
PY = "/opt/venv/bin/python"

NWORKERS = 8
CPU_LIMIT = 90  # CPU seconds a single case may take before it counts as non-terminating
WALL_CAP = {"quick": 300, "thorough": 3000}
WATCHDOG = {"quick": 700, "thorough": 6000}


class Violation(Exception):
    pass


class Skip(Exception):
    pass


class NonTermination(Exception):
    pass


class HarnessError(Exception):
    pass


def check(cond, msg, **detail):
    if not cond:
        raise Violation(msg + ("" if not detail else "\n" + "\n".join(
            f"  {k}: {v if isinstance(v, str) and chr(10) in v else repr(v)}" for k, v in detail.items())))


class Ctx:
    """Per-case context: randomness, scratch space, observations."""

    def __init__(self, worker, name, rng):
        self.worker = worker
        self.name = name
        self.rng = rng
        self.counters = worker.counters
        self.oracle = worker.oracle
        self.tier = worker.tier
        self._tmp = None
        self.key = None
        self.trace = []

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = Path(tempfile.mkdtemp(prefix="case-", dir=self.worker.scratch))
        return self._tmp

    def count(self, what, n=1):
        if n:
            self.counters[what] += n

    def log(self, *what):
        """Trace of the case; part of the sample and of the witness."""
        self.trace.append(" ".join(str(w) for w in what))

    def nontrivial(self, *key):
        """Marks the case as non-trivial, identified by key."""
        self.key = hashlib.sha256(repr(key).encode("utf8", "surrogateescape")).hexdigest()[:20]

    def cleanup(self):
        if self._tmp is not None:
            for r, ds, _ in os.walk(self._tmp):
                for d in ds:
                    try:
                        os.chmod(os.path.join(r, d), 0o700)
                    except OSError:
                        pass
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class LineCoverage:
    """Lines of the library executed, observed with sys.monitoring (each line reported once)."""

    def __init__(self):
        self.lines = set()
        self.root = str(REPO / "specfile") + "/"
        m = sys.monitoring
        self.tool = m.COVERAGE_ID
        m.use_tool_id(self.tool, "vf")
        m.register_callback(self.tool, m.events.LINE, self._line)
        m.set_events(self.tool, m.events.LINE)

    def _line(self, code, line):
        fn = code.co_filename
        if fn.startswith(self.root):
            self.lines.add((fn[len(self.root):], line))
        return sys.monitoring.DISABLE


# raised by a monitor when it gets something of another kind than the library yields on the unchanged tree
UNEXPECTED = (AttributeError, TypeError, LookupError, ValueError, AssertionError, StopIteration, ArithmeticError, FileNotFoundError, RecursionError)


class Worker:
    def __init__(self, prop, tier, seed, index, scratch):
        self.mod = importlib.import_module(f"vf.props.{prop.lower()}")
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.index = index
        self.scratch = scratch
        self.counters = Counter()
        self.skips = Counter()
        self.keys = set()
        self.samples = []
        self.evaluations = 0
        self.violations = []
        self.errors = []
        self.findings = []
        from vf.oracle import Oracle

        self.oracle = Oracle()
        self.cov = LineCoverage()
        import specfile  # noqa: F401

        if not specfile.__file__.startswith(str(REPO)):
            raise HarnessError(f"specfile imported from {specfile.__file__}")

    def _from_library(self, tb):
        # innermost frames: was the exception raised by or through the library?
        frames = traceback.extract_tb(tb)
        for f in reversed(frames):
            if f.filename.startswith(str(REPO / "specfile")):
                return True
            if f.filename.startswith(str(VERIF)):
                return False
        return False

    def run(self, name, fn, kind):
        rng = random.Random(f"{self.prop}:{self.seed}:{name}")
        ctx = Ctx(self, name, rng)
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        cwd = os.getcwd()
        try:
            fn(ctx)
            self.evaluations += 1
            if ctx.key:
                if ctx.key not in self.keys:
                    self.keys.add(ctx.key)
                    if len(self.samples) < 3 and kind == "generated":
                        self.samples.append({"case": name, "trace": ctx.trace[:40]})
        except Skip as e:
            self.skips[str(e) or "skipped"] += 1
        except Violation as e:
            self.violations.append(self._witness(ctx, name, kind, str(e)))
        except NonTermination:
            self.violations.append(self._witness(ctx, name, kind, f"no result within {CPU_LIMIT} s of CPU time"))
        except HarnessError as e:
            self.errors.append(f"{name}: {e}")
        except (Exception, KeyboardInterrupt) as e:
            text = traceback.format_exc()
            files = {Path(f.filename).name for f in traceback.extract_tb(e.__traceback__)}
            if isinstance(e, UNEXPECTED) and not self._from_library(e.__traceback__) and "oracle.py" not in files:
                self.violations.append(self._witness(
                    ctx, name, kind, "result isn't what the monitor can interpret\n" + text))
            elif not isinstance(e, (MemoryError, KeyboardInterrupt)) and self._from_library(e.__traceback__):
                self.violations.append(self._witness(
                    ctx, name, kind, "operation that has to succeed raised an exception\n" + text))
            else:
                self.errors.append(f"{name}: {text}")
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.chdir(cwd)
            ctx.cleanup()

    def _witness(self, ctx, name, kind, message):
        return {
            "property": self.prop, "case": name, "kind": kind, "seed": self.seed, "tier": self.tier,
            "worker": self.index, "hashseed": os.environ.get("PYTHONHASHSEED"),
            "message": message, "trace": ctx.trace,
        }

    def main(self, ncases, cap, only=None, progress=None):
        def prof(signum, frame):
            raise NonTermination

        signal.signal(signal.SIGPROF, prof)
        start = time.monotonic()

        def mark(name):
            if progress:
                with open(progress, "w") as f:
                    f.write(name)

        todo = []
        for i, (name, fn) in enumerate(self.mod.fixed_cases() if hasattr(self.mod, "fixed_cases") else []):
            todo.append((f"fixed:{name}", fn, "fixed", i))
        for i in range(ncases):
            todo.append((f"gen:{i}", self.mod.run_case, "generated", i))
        truncated = 0
        if only is not None:
            if only.startswith("gen:") and only not in {t[0] for t in todo}:
                todo.append((only, self.mod.run_case, "generated", 0))
            todo = [t for t in todo if t[0] == only]
            if not todo:
                raise HarnessError(f"unknown case {only}")
        for name, fn, kind, i in todo:
            if only is None and i % NWORKERS != self.index:
                continue
            if time.monotonic() - start > cap and kind == "generated":
                truncated += 1
                continue
            mark(name)
            self.run(name, fn, kind)
            if len(self.violations) >= 3 or len(self.errors) >= 3:
                break
        if only is None and self.index == 0 and hasattr(self.mod, "findings"):
            for key, fn in self.mod.findings():
                mark(f"finding:{key}")
                ctx = Ctx(self, f"finding:{key}", random.Random(key))
                try:
                    present = bool(fn(ctx))
                except Exception:
                    # the code behaves differently than it did when the finding was recorded
                    present = None
                finally:
                    ctx.cleanup()
                self.findings.append([key, present])
        mark("")
        self.counters["rpm_oracle_queries"] += self.oracle.queries
        return {
            "evaluations": self.evaluations, "keys": sorted(self.keys), "counters": dict(self.counters),
            "skips": dict(self.skips), "samples": self.samples, "violations": self.violations,
            "errors": self.errors, "findings": self.findings, "truncated": truncated,
            "lines": sorted(self.cov.lines),
            "meta": {
                "level": self.mod.LEVEL, "rule": " ".join(self.mod.RULE.split()),
                "assumptions": getattr(self.mod, "ASSUMPTIONS", []), "required": self.mod.REQUIRED,
            },
            "maxrss": resource.getrusage(resource.RUSAGE_SELF).ru_maxrss,
        }


def worker_env(seed, index, scratch, hashseed=None):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "USER", "LOGNAME")}
    env.setdefault("HOME", "/root")
    env.update(
        PYTHONPATH=f"{REPO}:{VERIF}", PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=hashseed or str((seed * 1000003 + index * 7919) % 4294967291),
        TMPDIR=str(scratch / f"tmp{index}"), TZ="UTC",
    )
    return env


def worker_cmd(prop, tier, seed, index, scratch, out, only=None):
    cmd = [PY, "-m", "vf.run", "--worker", prop, tier, str(seed), str(index), str(scratch), str(out)]
    if only is not None:
        cmd.append(only)
    return cmd


def spawn(prop, tier, seed, index, scratch, only=None, tag="", hashseed=None):
    out = scratch / f"out{index}{tag}.json"
    log = open(scratch / f"log{index}{tag}", "wb")
    (scratch / f"tmp{index}").mkdir(exist_ok=True)
    # shell expansions in generated specs can write to the working directory
    cwd = scratch / f"cwd{index}"
    cwd.mkdir(exist_ok=True)
    p = subprocess.Popen(
        worker_cmd(prop, tier, seed, index, scratch, out, only), cwd=cwd, stdin=subprocess.DEVNULL,
        stdout=log, stderr=log, env=worker_env(seed, index, scratch, hashseed), start_new_session=True,
    )
    return p, out, scratch / f"log{index}{tag}"


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def known_findings():
    """Entries of the committed known-findings file: {(property, key): text} of open findings."""
    out = {}
    path = VERIF / "known_findings.jsonl"
    if path.exists():
        for line in path.read_text().splitlines():
            if not line.strip() or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            out[d["property"], d["key"]] = d["what"]
    return out


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    prop, tier, seed = args.property.upper(), args.tier, args.seed
    if tier not in WALL_CAP:
        tier = "quick"
    hashseed = None
    only = args.case
    index0 = 0
    if args.replay:
        w = json.loads(Path(args.replay).read_text())
        tier, seed, only, index0, hashseed = w["tier"], w["seed"], w["case"], w["worker"], w["hashseed"]
    start = time.monotonic()
    scratch = Path(tempfile.mkdtemp(prefix=f"vf-{prop}-"))
    os.chmod(scratch, 0o755)
    try:
        return _main(prop, tier, seed, only, index0, hashseed, start, scratch, args)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, only, index0, hashseed, start, scratch, args):
    sys.path.insert(0, str(VERIF))
    indices = range(NWORKERS) if only is None else [index0]
    procs = {i: spawn(prop, tier, seed, i, scratch, only, hashseed=hashseed) for i in indices}
    results, errors, violations = [], [], []
    deadline = time.monotonic() + WATCHDOG[tier]
    for i, (p, out, log) in procs.items():
        try:
            p.wait(max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            kill(p)
            errors.append(f"worker {i}: watchdog, case {(scratch / f'progress{i}').read_text()!r}")
            continue
        if p.returncode == 0 and out.exists():
            results.append(json.loads(out.read_text()))
            continue
        # the worker died; run the case it died in alone to tell a reproducible crash from an accident
        prog = scratch / f"progress{i}"
        case = prog.read_text() if prog.exists() else ""
        tail = log.read_bytes()[-3000:].decode("utf8", "replace")
        if p.returncode < 0 and case and not case.startswith("finding:"):
            p2, out2, log2 = spawn(prop, tier, seed, i, scratch, case, tag="r")
            try:
                p2.wait(300)
            except subprocess.TimeoutExpired:
                kill(p2)
            if p2.returncode is not None and p2.returncode < 0 and p2.returncode != -9:
                violations.append({
                    "property": prop, "case": case, "kind": "crash", "seed": seed, "tier": tier, "worker": i,
                    "hashseed": worker_env(seed, i, scratch)["PYTHONHASHSEED"],
                    "message": f"process crashed with signal {-p2.returncode}", "trace": [],
                })
                continue
        errors.append(f"worker {i} exited with {p.returncode} in case {case!r}:\n{tail}")
    for p, _, _ in procs.values():
        kill(p)
    evaluations = sum(r["evaluations"] for r in results)
    keys = set()
    counters, skips = Counter(), Counter()
    lines = set()
    samples, findings = [], []
    truncated = 0
    for r in results:
        keys.update(r["keys"])
        counters.update(r["counters"])
        skips.update(r["skips"])
        samples.extend(r["samples"][:1] if len(samples) < 4 else [])
        violations.extend(r["violations"])
        errors.extend(r["errors"])
        findings.extend(r["findings"])
        lines.update(map(tuple, r["lines"]))
        truncated += r["truncated"]
    mod_meta = results[0]["meta"] if results else {
        "level": "exploration", "rule": "no worker finished", "assumptions": [], "required": []}
    known = known_findings()
    for key, present in findings:
        if (prop, key) not in known:
            errors.append(f"probe {key} is not in known_findings.jsonl")
        elif present:
            print(f"KNOWN-FINDING: property={prop} {known[prop, key]} [{key}]")
        else:
            print(f"note: known finding {key} of {prop} no longer reproduces")
    rc = 0
    if violations:
        rc = 1
        replays = EVIDENCE / "replay"
        replays.mkdir(parents=True, exist_ok=True)
        for v in violations[:5]:
            name = hashlib.sha256((v["case"] + v["message"]).encode("utf8", "surrogateescape")).hexdigest()[:10]
            path = replays / f"{prop}-{name}.json"
            path.write_text(json.dumps(v, indent=1))
            print(f"VIOLATION property={prop} replay={path.relative_to(VERIF)}")
            print("  case", v["case"])
            print("  " + v["message"].replace("\n", "\n  ").encode("utf8", "replace").decode())
    required = [c for c in mod_meta["required"] if not counters.get(c)] if only is None else []
    if rc == 0 and errors:
        rc = 2
    if rc == 0 and only is None and (required or not evaluations or not keys):
        errors.append(f"monitors never reached: {required or 'no evaluations'}")
        rc = 2
    for e in errors[:5]:
        print("ERROR", e.encode("utf8", "replace").decode(), file=sys.stderr)
    if only is None and not args.no_evidence:
        modules = Counter(f for f, _ in lines)
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{prop}.json").write_text(json.dumps({
            "property": prop, "tier": tier, "seed": seed, "level": mod_meta["level"],
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(keys),
                "rule": mod_meta["rule"],
                "samples": samples,
                "monitor_events": dict(sorted(counters.items())),
                "skipped_cases": dict(skips),
                "cases_not_run_for_time": truncated,
                "library_lines_executed": len(lines),
                "library_lines_by_module": dict(sorted(modules.items())),
                "known_findings_observed": [k for k, p in findings if p],
                "errors": len(errors),
            },
            "assumptions": mod_meta["assumptions"],
            "wall_s": round(time.monotonic() - start, 2),
            "violations": len(violations),
        }, indent=1) + "\n")
    print(f"{prop} {tier} seed={seed}: evaluations={evaluations} distinct={len(keys)} skipped={sum(skips.values())} "
          f"truncated={truncated} violations={len(violations)} errors={len(errors)} "
          f"lines={len(lines)} wall={time.monotonic() - start:.1f}s")
    if only is not None:
        print(json.dumps(dict(counters)))
    return rc


def worker_main(argv):
    prop, tier, seed, index, scratch, out = argv[:6]
    only = argv[6] if len(argv) > 6 else None
    scratch = Path(scratch)
    import faulthandler

    faulthandler.enable()
    w = Worker(prop, tier, int(seed), int(index), scratch / f"tmp{index}")
    res = w.main(w.mod.CASES[tier], WALL_CAP[tier], only, scratch / f"progress{index}")
    Path(out).write_text(json.dumps(res))
    w.oracle.close()
    sys.stdout.flush()
    os._exit(0)
