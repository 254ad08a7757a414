"""Case runner, verdicts, evidence.

A *property* (P01, ...) is decided by a module checks/<id>.py which declares a list of
sub-checks.  A sub-check is a function `fn(rng, ctx)` which builds ONE workload case from the
random generator, drives the real code of /repo and lets monitors observe what it does.

Verdicts are three-valued: violated (exit 1, VIOLATION line + replay file), held on what has been
observed (exit 0), inconclusive (exit 3: a monitor was never reached, or the harness failed).
"""
from __future__ import annotations

import hashlib
import importlib
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
COMPANIONS = os.path.join(VERIF, "companions")


class Violation(Exception):
    """The property is broken; `mechanism` names what broke (stable, no random values)."""

    def __init__(self, mechanism, **detail):
        super().__init__(mechanism)
        self.mechanism = mechanism
        self.detail = detail


class Discard(Exception):
    """The generated case is outside of the domain of the property (not counted)."""


class DebuggerTrap(Exception):
    """The code under test asked for the debugger, i.e., it reached a state which it itself
    declares to be unexpected."""


def _trap(*args, **kwargs):
    raise DebuggerTrap("breakpoint() reached")


class Hang(Exception):
    """A case used far more CPU time than it ever does."""


CASE_CPU_LIMIT = 100.0  # seconds; ordinary cases need milliseconds, closed loops up to 20 s


def _hang(*args):
    raise Hang("no result within the CPU time of the case")


class SubCheck:
    def __init__(self, fn, quick, thorough, need=(), probe=None):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.need = tuple(need)


class Check:
    """Collection of the sub-checks of one property."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs: list[SubCheck] = []
        self.findings = []

    def sub(self, quick, thorough=None, need=()):
        def deco(fn):
            self.subs.append(
                SubCheck(fn, quick, thorough if thorough is not None else quick * 12, need)
            )
            return fn

        return deco

    def finding(self, key):
        """Probe for a listed known finding: fn() returns True if it (still) fails."""

        def deco(fn):
            self.findings.append((key, fn))
            return fn

        return deco


class Ctx:
    """What one worker has observed."""

    def __init__(self):
        self.counts = Counter()
        self.states = set()
        self.samples = {}

    def count(self, key, n=1):
        self.counts[key] += n

    def state(self, *values):
        """Registers a distinct (rounded) observation."""
        digest = hashlib.blake2b(digest_size=8)
        for val in values:
            if isinstance(val, (str, int, bool, type(None), tuple, bytes)):
                digest.update(repr(val).encode())
            else:
                arr = np.asarray(val, dtype=float)
                digest.update(np.round(arr, 9).tobytes())
        self.states.add(digest.digest())

    def sample(self, key, **values):
        if key not in self.samples:
            self.samples[key] = jsonable(values)


def jsonable(val, depth=0):
    if depth > 6:
        return repr(val)[:80]
    if isinstance(val, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(val.items())[:40]}
    if isinstance(val, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(val)[:60]]
    if isinstance(val, np.ndarray):
        if val.size > 120:
            return {"shape": list(val.shape), "head": jsonable(val.ravel()[:20])}
        return jsonable(val.tolist(), depth + 1)
    if isinstance(val, (np.floating, float)):
        val = float(val)
        return val if math.isfinite(val) else repr(val)
    if isinstance(val, (np.integer,)):
        return int(val)
    if isinstance(val, (np.bool_,)):
        return bool(val)
    if isinstance(val, (int, str, bool, type(None))):
        return val
    return repr(val)[:160]


# ---------------------------------------------------------------- exception classification
def repo_frame(exc):
    """Innermost frame within the repository (or None if the harness alone is to blame)."""
    root = os.path.realpath(REPO) + os.sep
    found = None
    tb = exc.__traceback__
    while tb is not None:
        filename = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if filename.startswith(root):
            found = (filename[len(root):], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return found


def rng_for(seed, prop, name, index):
    return np.random.default_rng(
        [seed & 0xFFFFFFFF, zlib.crc32(f"{prop}/{name}".encode()), index]
    )


def setup_process():
    sys.breakpointhook = _trap
    os.environ["PYTHONBREAKPOINT"] = ""
    sys.breakpointhook = _trap
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import logging

    logging.disable(logging.CRITICAL)
    for path in (COMPANIONS, REPO, VERIF):
        if path not in sys.path:
            sys.path.insert(0, path)


def run_case(sub, prop, seed, index, ctx):
    """Returns None or a dictionary describing the violation."""
    rng = rng_for(seed, prop, sub.name, index)
    np.random.seed(int(rng.integers(2**31)))  # sklearn & co.
    import random

    random.seed(int(rng.integers(2**31)))
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        sub.fn(rng, ctx)
        ctx.count("cases")
        ctx.count(f"cases:{sub.name}")
    except Discard:
        ctx.count(f"discarded:{sub.name}")
    except Violation as exc:
        return dict(mechanism=exc.mechanism, detail=jsonable(exc.detail))
    except Exception as exc:  # noqa: BLE001
        frame = repo_frame(exc)
        if frame is None:
            if isinstance(exc, (ImportError, NameError, MemoryError, AssertionError)):
                raise
            # The cases are well-formed on their own: a monitor which cannot digest what the code
            # returned has observed a malformed output.
            where = traceback.extract_tb(exc.__traceback__)[-1]
            return dict(
                mechanism=f"malformed output ({type(exc).__name__} in the monitor, {where.name})",
                detail={"message": str(exc)[:300], "traceback": traceback.format_exc()[-1800:]},
            )
        kind = "debugger-trap" if isinstance(exc, DebuggerTrap) else type(exc).__name__
        return dict(
            mechanism=f"unexpected {kind} from {frame[0]}:{frame[1]}",
            detail={"message": str(exc)[:300], "traceback": traceback.format_exc()[-1800:]},
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return None


def _load(prop):
    setup_process()
    return importlib.import_module(f"checks.{prop.lower()}").check


ROUNDS = 8


def _worker(args):
    prop, seed, tier, shard, n_shards, deadline = args
    check = _load(prop)
    ctx = Ctx()
    violations = []
    try:
        # All sub-checks take turns: a run which is stopped by the time has observed all of them
        scale = float(os.environ.get("VT_SCALE", "1"))
        pending = {}
        for sub in check.subs:
            total = sub.thorough if tier == "thorough" else sub.quick
            indices = list(range(shard, max(1, int(total * scale)), n_shards))
            pending[sub.name] = [part.tolist() for part in np.array_split(indices, ROUNDS)]
        for turn in range(ROUNDS):
            for sub in check.subs:
                for index in pending[sub.name][turn]:
                    if time.time() > deadline:
                        ctx.count("stopped_by_time")
                        return ctx, violations, None
                    # enough witnesses for this sub-check
                    if sum(v["sub"] == sub.name for v in violations) >= 4:
                        break
                    res = run_case(sub, prop, seed, int(index), ctx)
                    if res is not None:
                        res.update(sub=sub.name, index=int(index), seed=seed)
                        violations.append(res)
                        ctx.count("violating_cases")
                        if len(violations) >= 12:
                            return ctx, violations, None
    except Exception:  # noqa: BLE001
        return ctx, violations, traceback.format_exc()
    return ctx, violations, None


def known_findings():
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as handle:
        return json.load(handle)["findings"]


def main(argv):
    import argparse

    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VT_JOBS", "8")))
    parser.add_argument("--budget", type=float, default=None)
    args = parser.parse_args(argv)
    prop = args.prop

    if args.replay:
        with open(args.replay) as handle:
            rec = json.load(handle)
        check = _load(prop)
        sub = next(s for s in check.subs if s.name == rec["sub"])
        res = run_case(sub, prop, rec["seed"], rec["index"], Ctx())
        print(json.dumps(res, indent=1))
        return 1 if res else 0

    start = time.time()
    tier = "thorough" if args.tier == "thorough" else "quick"
    budget = args.budget or (700.0 if tier == "thorough" else 240.0)
    deadline = start + budget

    check = _load(prop)  # fail early (and import once before forking)
    jobs = max(1, args.jobs)
    tasks = [(prop, args.seed, tier, ii, jobs, deadline) for ii in range(jobs)]
    if jobs == 1:
        results = [_worker(tasks[0])]
    else:
        mp = multiprocessing.get_context("fork")
        with ProcessPoolExecutor(jobs, mp_context=mp) as pool:
            results = list(pool.map(_worker, tasks))

    ctx = Ctx()
    violations, errors = [], []
    for wctx, wviol, werr in results:
        ctx.counts.update(wctx.counts)
        ctx.states |= wctx.states
        for key, val in wctx.samples.items():
            ctx.samples.setdefault(key, val)
        violations += wviol
        if werr:
            errors.append(werr)

    # Listed findings: print those which still fail
    listed = {f["key"]: f for f in known_findings() if f["property"] == prop}
    known_out = []
    probes = dict(check.findings)
    for key, finding in listed.items():
        if key not in probes:
            errors.append(f"known finding {key} has no probe")
            continue
        try:
            fails = bool(probes[key]())
        except Exception as exc:  # noqa: BLE001
            if repo_frame(exc) is None:
                errors.append(traceback.format_exc())
                continue
            fails = True
        if fails:
            known_out.append(key)
            print(f"KNOWN-FINDING: property={prop} {finding['what']}")
    for key in probes:
        if key not in listed:
            errors.append(f"probe {key} is not in known-findings.json")

    missing = []
    for sub in check.subs:
        for key in (f"cases:{sub.name}",) + sub.need:
            if not ctx.counts[key]:
                missing.append(f"{sub.name}: {key}")

    replay_dir = os.path.join(VERIF, "evidence", "replay")
    by_mechanism = {}
    for vio in violations:
        by_mechanism.setdefault(vio["mechanism"], vio)

    wall = time.time() - start
    coverage = dict(
        evaluations=int(ctx.counts["cases"]),
        distinct_nontrivial=len(ctx.states),
        rule=check.rule,
        samples=[{"case": k, **v} for k, v in sorted(ctx.samples.items())][:12],
        observed={k: int(v) for k, v in sorted(ctx.counts.items())},
        known_findings_reproduced=known_out,
    )
    evidence = dict(
        property=prop,
        tier=tier,
        seed=args.seed,
        level="exploration",
        coverage=coverage,
        assumptions=check.assumptions,
        wall_s=round(wall, 2),
        violations=len(by_mechanism),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as handle:
        json.dump(evidence, handle, indent=1)

    if by_mechanism:
        os.makedirs(replay_dir, exist_ok=True)
        for ii, vio in enumerate(by_mechanism.values()):
            path = os.path.join(replay_dir, f"{prop}-{ii}.json")
            with open(path, "w") as handle:
                json.dump(vio, handle, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {vio['sub']}[{vio['index']}]: {vio['mechanism']}")
            print("  " + json.dumps(vio["detail"])[:1500])
        return 1
    if errors:
        print(f"INCONCLUSIVE property={prop}: harness error")
        print("\n".join(errors)[:6000])
        return 3
    if missing:
        print(f"INCONCLUSIVE property={prop}: never observed: {missing}")
        return 3
    print(
        f"held property={prop} tier={tier} seed={args.seed} cases={ctx.counts['cases']} "
        f"distinct={len(ctx.states)} wall={wall:.1f}s"
    )
    return 0
