"""
Common runner of all checks: seeding, time budget, verdicts, known findings, replay files, evidence.

A check module defines
    ID, RULE, ASSUMPTIONS
    run(ctx)          generates cases and judges them with ctx.case(...) / ctx.violation(...)
"""
import collections
import decimal
import hashlib
import itertools
import json
import os
import random
import re
import signal
import time
import traceback

from arv import env

FINDINGS_FILE = os.path.join(env.VERIF, "known_findings.txt")


class Violation(Exception):
    """Raised by oracles: `key` names the failing mechanism, `what` describes this instance."""

    def __init__(self, key: str, what: str, detail=None):
        super().__init__(f"{key}: {what}")
        self.key = key
        self.what = what
        self.detail = detail


class Hang(BaseException):
    """Raised by the watchdog"""


class HarnessError(Exception):
    """The check itself is wrong"""


WATCHDOG_S = 30.0


def _on_alarm(_signum, _frame):
    raise Hang()


def load_findings(prop: str) -> dict:
    """known_findings.txt lines: `finding: property=<id> key=<key> <what fails>`"""
    res = {}
    if os.path.exists(FINDINGS_FILE):
        with open(FINDINGS_FILE, encoding="utf-8") as fp:
            for line in fp:
                match = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if match and match.group(1) == prop:
                    res[match.group(2)] = match.group(3)
    return res


# The first of several worker processes runs in an odd environment, if the check has the attribute ASCII_SHARD: neither the
# locale nor Python's UTF-8 mode provides UTF-8, the application has set a small decimal precision, and (unless the attribute
# is "asserts") assertions are compiled away. What the library does must not depend on that.
ASCII_ENV = {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
OPTIMIZE_ENV = {"PYTHONOPTIMIZE": "1"}


def _odd_env(module) -> dict:
    return ASCII_ENV if module.ASCII_SHARD == "asserts" else dict(ASCII_ENV, **OPTIMIZE_ENV)


def _is_odd() -> bool:
    return os.environ.get("PYTHONUTF8") == "0"


def _odd_state():
    if _is_odd():
        decimal.getcontext().prec = 5


class Context:
    """State of one check run"""

    def __init__(self, prop: str, seed: int, tier: str, budget: float, shard=0, shards=1, replay=None):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.budget = budget
        self.start = time.monotonic()
        self.shard = shard
        self.shards = shards
        self.replay = replay
        self.evaluations = 0
        self.nontrivial = set()
        self.counters = collections.Counter()
        self.samples = []
        self.violations = {}   # key -> list of dict
        self.violation_count = 0
        self.findings = load_findings(prop)
        self.found = {}
        self._case = None

    # --- generation
    def rng(self, *labels) -> random.Random:
        """Independent generator for a labelled sub-stream"""
        text = "/".join(str(x) for x in (self.seed, self.prop) + labels)
        return random.Random(int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big"))

    def time_left(self) -> float:
        return self.budget - (time.monotonic() - self.start)

    def loop(self, label: str, minimum: int, share: float = 1.0, maximum: int | None = None):
        """
        Yields (index, rng): at least `minimum` iterations, then as many as fit in `share` of the
        whole budget (counted from the start of this loop).
        In replay mode, only the recorded iteration is executed.
        """
        begin = time.monotonic()
        limit = self.budget * share
        index = 0
        if self.replay is not None:
            if self.replay.get("label") == label:
                index = self.replay["index"]
                self._case = (label, index)
                yield index, self.rng(label, index)
            return
        while True:
            if index >= minimum and time.monotonic() - begin > limit:
                break
            if maximum is not None and index >= maximum:
                break
            if index % self.shards == self.shard or self.shards == 1:
                self._case = (label, index)
                yield index, self.rng(label, index)
            index += 1

    def each(self, label: str, items):
        """Deterministic enumeration of `items` (list); replayable."""
        for index, item in enumerate(items):
            if self.replay is not None and (self.replay.get("label") != label or self.replay["index"] != index):
                continue
            if self.shards > 1 and index % self.shards != self.shard:
                continue
            self._case = (label, index)
            yield index, item

    # --- bookkeeping
    def count(self, name: str, amount: int = 1):
        self.counters[name] += amount

    def case(self, signature: str | None, sample=None):
        """One evaluated case. signature: None for a trivial case, else text identifying what was reached."""
        self.evaluations += 1
        if signature is not None:
            digest = hashlib.sha1(signature.encode("utf-8", "replace")).digest()[:8]
            fresh = digest not in self.nontrivial
            self.nontrivial.add(digest)
            if fresh and sample is not None and len(self.samples) < 6:
                text = sample if isinstance(sample, str) else json.dumps(sample, default=str)
                self.samples.append(text[:1500])

    def violation(self, key: str, what: str, detail=None):
        """Records a violated oracle."""
        key = re.sub(r"\s+", "_", key)
        if key in self.findings:
            if key not in self.found:
                self.found[key] = what
            return
        self.violation_count += 1
        bucket = self.violations.setdefault(key, [])
        if len(bucket) < 3:
            label, index = self._case if self._case else (None, None)
            bucket.append({"property": self.prop, "key": key, "what": what[:2000],
                           "detail": None if detail is None else str(detail)[:6000],
                           "seed": self.seed, "tier": self.tier, "label": label, "index": index,
                           "shard": self.shard, "shards": self.shards,
                           "ascii": _is_odd()})

    def guard(self, func, *args, **kwargs):
        """
        Runs a judged block. A Violation is recorded. Any other exception that escapes from the code
        under test (or from reading its results) is a violation as well: judged blocks only contain
        calls that must succeed. A block that does not come back within the watchdog time is a hang.
        """
        previous = signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, WATCHDOG_S)
        try:
            func(*args, **kwargs)
            return True
        except Violation as ex:
            self.violation(ex.key, ex.what, ex.detail)
        except Hang:
            self.violation("hang", f"no answer within {WATCHDOG_S} s", traceback.format_exc()[-4000:])
        except (HarnessError, KeyboardInterrupt):
            raise
        except Exception as ex:  # pylint: disable=W0718
            frames = traceback.extract_tb(ex.__traceback__)
            inside = [f for f in frames if os.path.realpath(f.filename).startswith(os.path.realpath(env.SRC))]
            where = inside[-1].name if inside else frames[-1].name
            self.violation(f"unexpected-{type(ex).__name__}-in-{where}", f"{type(ex).__name__}: {ex}",
                           traceback.format_exc()[-5000:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, previous)
        return False

    def merge(self, other: dict):
        self.evaluations += other["evaluations"]
        self.nontrivial |= set(bytes.fromhex(x) for x in other["nontrivial"])
        self.counters.update(other["counters"])
        for sample in other["samples"]:
            if len(self.samples) < 8:
                self.samples.append(sample)
        for key, lst in other["violations"].items():
            self.violations.setdefault(key, []).extend(lst)
        self.violation_count += other["violation_count"]
        for key, what in other["found"].items():
            self.found.setdefault(key, what)

    def dump(self) -> dict:
        return {"evaluations": self.evaluations, "nontrivial": [x.hex() for x in self.nontrivial],
                "counters": dict(self.counters), "samples": self.samples, "violations": self.violations,
                "violation_count": self.violation_count, "found": self.found}


def _exit_verdict(ctx: Context, module, wall: float) -> int:
    evidence_dir = os.path.join(env.VERIF, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)
    replay_dir = os.path.join(evidence_dir, "replay")
    lines = []
    for key in sorted(ctx.violations):
        os.makedirs(replay_dir, exist_ok=True)
        name = f"{ctx.prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json"
        path = os.path.join(replay_dir, name)
        with open(path, "w", encoding="utf-8") as fp:
            json.dump(ctx.violations[key][0], fp, indent=1)
        first = ctx.violations[key][0]
        lines.append((f"VIOLATION property={ctx.prop} replay={path}", key, first["what"]))
    coverage = {"evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.nontrivial),
                "rule": module.RULE, "samples": ctx.samples or ["(none)"],
                "observed": {k: ctx.counters[k] for k in sorted(ctx.counters)},
                "known_findings_seen": sorted(ctx.found)}
    doc = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
           "coverage": coverage, "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
           "wall_s": round(wall, 2), "violations": ctx.violation_count}
    if ctx.replay is None:
        with open(os.path.join(evidence_dir, f"{ctx.prop}.json"), "w", encoding="utf-8") as fp:
            json.dump(doc, fp, indent=1, sort_keys=True)
    for key in sorted(ctx.findings):
        if key in ctx.found or ctx.replay is None and key in ctx.found:
            print(f"KNOWN-FINDING: property={ctx.prop} {key} {ctx.findings[key]}")
    print(f"{ctx.prop}: {ctx.evaluations} evaluations, {len(ctx.nontrivial)} distinct, "
          f"{ctx.violation_count} violations, {wall:.1f}s")
    for line, key, what in lines[:60]:
        print(line)
        print(f"  key={key}\n  {what[:600]}")
    if lines:
        return 1
    minimum = getattr(module, "MIN_DISTINCT", 1)
    if ctx.replay is None and len(ctx.nontrivial) < minimum:
        print(f"ERROR: only {len(ctx.nontrivial)} distinct cases, at least {minimum} expected: inconclusive")
        return 2
    return 0


def _worker(job):
    prop, seed, tier, budget, shard, shards = job
    import importlib
    module = importlib.import_module(f"checks.{prop.lower()}")
    ctx = Context(prop, seed, tier, budget, shard, shards)
    _odd_state()
    try:
        module.run(ctx)
    except Exception:  # pylint: disable=W0718
        return {"error": traceback.format_exc()}
    return ctx.dump()


def main(argv):
    """run.py <ID> [--tier quick|thorough] [--replay FILE]"""
    import argparse
    import importlib
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    parser.add_argument("--budget", type=float, default=None)
    parser.add_argument("--shards", type=int, default=None)
    parser.add_argument("--replay")
    args = parser.parse_args(argv)
    prop = args.prop.upper()
    module = importlib.import_module(f"checks.{prop.lower()}")
    start = time.monotonic()
    if args.replay:
        with open(args.replay, encoding="utf-8") as fp:
            rec = json.load(fp)
        if rec.get("ascii") and not _is_odd():
            os.execve(env.PYTHON, [env.PYTHON, os.path.join(env.VERIF, "run.py")] + argv, dict(os.environ, **_odd_env(module)))
        _odd_state()
        ctx = Context(prop, rec["seed"], rec["tier"], 1.0, replay=rec)
        module.run(ctx)
        return _exit_verdict(ctx, module, time.monotonic() - start)
    budget = args.budget
    if budget is None:
        budget = getattr(module, "QUICK_S", 8.0) if args.tier == "quick" else getattr(module, "THOROUGH_S", 240.0)
    shards = getattr(module, "QUICK_SHARDS", 6) if args.tier == "quick" else getattr(module, "THOROUGH_SHARDS", 8)
    shards = args.shards or max(1, min(shards, os.cpu_count() or 1))
    ctx = Context(prop, args.seed, args.tier, budget, 0, 1)
    if shards == 1:
        try:
            module.run(ctx)
        except Exception:  # pylint: disable=W0718
            traceback.print_exc()
            print("ERROR: the check itself failed")
            if not ctx.violations:
                return 2
    else:
        import multiprocessing
        jobs = [(prop, args.seed, args.tier, budget, i, shards) for i in range(shards)]
        pools = []
        if getattr(module, "ASCII_SHARD", False):
            saved = dict(os.environ)
            os.environ.update(_odd_env(module))
            pools.append((multiprocessing.get_context("spawn").Pool(1), jobs[:1]))
            os.environ.clear()
            os.environ.update(saved)
            jobs = jobs[1:]
        pools.append((multiprocessing.get_context("spawn").Pool(len(jobs)), jobs))
        failed = False
        for res in itertools.chain.from_iterable([pool.imap_unordered(_worker, part) for pool, part in pools]):
            if "error" in res:
                print(res["error"])
                failed = True
            else:
                ctx.merge(res)
        for pool, _ in pools:
            pool.terminate()
            pool.join()
        if failed:
            print("ERROR: the check itself failed")
            if not ctx.violations:
                return 2
    return _exit_verdict(ctx, module, time.monotonic() - start)
