"""Common driver of all checks: scenario scheduling, evidence, violations, known findings, replay."""

from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)

from simdb.lexer import UNSUPPORTED, Unsupported  # noqa: E402


class Violation(Exception):
    """The monitored execution breaks the property."""


class Skip(Exception):
    """The scenario left the domain of the property (counted, not judged)."""


class Obs:
    """What one scenario's monitors saw."""

    def __init__(self) -> None:
        self.n = 0
        self.keys: set = set()
        self.counts: Dict[str, int] = {}
        self.samples: List[str] = []

    def see(self, key: Any = None, n: int = 1, kind: str = "judgements") -> None:
        """One (or n) oracle judgements; `key` identifies the distinct situation judged."""
        self.n += n
        self.counts[kind] = self.counts.get(kind, 0) + n
        if key is not None:
            self.keys.add(key if isinstance(key, str) else repr(key))

    def count(self, kind: str, n: int = 1) -> None:
        self.counts[kind] = self.counts.get(kind, 0) + n

    def sample(self, text: str) -> None:
        if len(self.samples) < 3:
            self.samples.append(text[:600])


def _alarm(signum, frame):
    raise Violation("scenario did not finish within its time limit (hang)")


def _run_one(job):
    fn, args, limit = job
    obs = Obs()
    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        UNSUPPORTED.clear()
        fn(obs, **args)
        status, msg = "ok", ""
    except Violation as e:
        status, msg = "violation", str(e)
    except (Skip, Unsupported) as e:
        status, msg = "skip", f"{type(e).__name__}: {e}"
    except BaseException as e:  # noqa: BLE001
        cause = e
        chain = [e]
        while cause is not None and (cause.__cause__ or cause.__context__) is not None and len(chain) < 12:
            cause = cause.__cause__ or cause.__context__
            chain.append(cause)
        if any(isinstance(x, (Unsupported, Skip)) for x in chain):
            status, msg = "skip", f"{type(chain[-1]).__name__}: {chain[-1]}"
        else:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-3:])
            root = f"{type(chain[-1]).__name__}: {' '.join(str(chain[-1]).split())[:400]} <- " if len(chain) > 1 else ""
            status, msg = "violation", f"unexpected {root}{type(e).__name__}: {' '.join(str(e).split())[:300]} at {where}"
            obs.trace = traceback.format_exc()
    finally:
        signal.alarm(0)
    if status == "violation" and UNSUPPORTED:
        # what was observed is the effect of a statement that the simulated server does not implement
        status, msg = "skip", f"Unsupported: {UNSUPPORTED[0]}"
    return fn.__name__, args, status, msg, obs.n, obs.keys, obs.counts, obs.samples, time.time() - t0, getattr(obs, "trace", "")


class Check:
    def __init__(self, prop: str, rule: str, assumptions: List[str], technique: str = ""):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
        ap.add_argument("--replay")
        ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
        ap.add_argument("--only", help="run only scenario functions whose name contains this text")
        self.opts = ap.parse_args()
        self.prop = prop
        self.tier = self.opts.tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rule, self.assumptions = rule, assumptions
        self.jobs: List[tuple] = []
        self.fns: Dict[str, Callable] = {}
        self.probes: Dict[str, Callable] = {}
        self.required: Dict[str, int] = {}
        kf = os.path.join(ROOT, "known_findings.json")
        self.findings = []
        if os.path.exists(kf):
            with open(kf) as f:
                self.findings = [x for x in json.load(f)["findings"] if x["property"] == prop]

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def pick(self, quick: int, thorough: int) -> int:
        return thorough if self.thorough else quick

    def add(self, fn: Callable, limit: int = 120, **args) -> None:
        self.fns[fn.__name__] = fn
        if self.opts.only and self.opts.only not in fn.__name__:
            return
        self.jobs.append((fn, args, limit))

    def seeds(self, n: int, stream: int = 0):
        base = self.seed * 1000003 + stream * 7919
        return [base + i for i in range(n)]

    def probe(self, finding_id: str, fn: Callable) -> None:
        """Deterministic reproduction of a (once) observed defect; raises Violation while it is present."""
        self.probes[finding_id] = fn

    def require(self, **kinds: int) -> None:
        """Minimum number of monitored events of a kind, below which the run proves nothing."""
        self.required.update(kinds)

    # ------------------------------------------------------------------
    def finish(self) -> None:
        if self.opts.replay:
            with open(self.opts.replay) as f:
                r = json.load(f)
            if r.get("probe"):
                res = _run_one((self.probes[r["probe"]], {}, 300))
            else:
                res = _run_one((self.fns[r["scenario"]], r["args"], 600))
            print(res[2], res[3])
            if res[9]:
                print(res[9])
            sys.exit(1 if res[2] == "violation" else 0)
        total = 0
        keys: set = set()
        counts: Dict[str, int] = {}
        samples: List[str] = []
        viols: List[tuple] = []
        skips: Dict[str, int] = {}
        per_fn: Dict[str, int] = {}
        deadline = self.t0 + (self.pick(600, 780))
        lost = 0
        timed: Dict[str, float] = {}

        def take(res):
            nonlocal total
            name, args, status, msg, n, k, c, s, dt, trace = res
            per_fn[name] = per_fn.get(name, 0) + 1
            timed[name] = timed.get(name, 0) + dt
            total += n
            keys.update(k)
            for a, b in c.items():
                counts[a] = counts.get(a, 0) + b
            if len(samples) < 6:
                samples.extend(s[: 6 - len(samples)])
            if status == "violation":
                viols.append((name, args, msg, trace))
            elif status == "skip":
                skips[msg[:100]] = skips.get(msg[:100], 0) + 1

        if self.opts.jobs <= 1:
            for j in self.jobs:
                if time.time() > deadline:
                    lost += 1
                    continue
                take(_run_one(j))
        else:
            ctx = mp.get_context("fork")
            global _JOBS
            _JOBS = self.jobs
            with ctx.Pool(self.opts.jobs, maxtasksperchild=200) as pool:
                it = pool.imap_unordered(_run_index, range(len(self.jobs)), chunksize=1)
                for i in range(len(self.jobs)):
                    try:
                        take(it.next(timeout=max(1.0, deadline - time.time())))
                    except mp.TimeoutError:
                        lost = len(self.jobs) - i
                        break
                pool.terminate()
        # probes of recorded findings
        known = []
        if not self.opts.only:
            for f in self.findings:
                fn = self.probes.get(f["id"])
                if fn is None:
                    viols.append(("probe", {}, f"no probe for recorded finding {f['id']}", ""))
                    continue
                res = _run_one((fn, {}, 120))
                counts["probes"] = counts.get("probes", 0) + 1
                if res[2] == "violation":
                    if f["status"] == "open":
                        known.append(f)
                    else:
                        viols.append((f["id"], {}, f"repaired defect has returned: {f['what']}: {res[3]}", res[9]))
        wall = time.time() - self.t0
        rep = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rep, exist_ok=True)
        vrecs = []
        seen: Dict[str, int] = {}
        for i, (name, args, msg, trace) in enumerate(viols):
            sig = f"{name}:{args.get('dialect', '')}:{msg[:60]}"
            seen[sig] = seen.get(sig, 0) + 1
            if seen[sig] > 2 or len(vrecs) >= 25:
                continue
            path = os.path.join(rep, f"{self.prop}-{len(vrecs)}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "scenario": name, "args": args, "message": msg, "trace": trace, "probe": name if name in self.probes else None}, f, indent=1, default=str)
            vrecs.append({"scenario": name, "args": {k: str(v) for k, v in args.items()}, "message": msg[:500], "replay": path})
            print(f"VIOLATION property={self.prop} replay={path} {name} {args} {' '.join(msg.split())[:500]}")
        for f in known:
            print(f"KNOWN-FINDING: property={self.prop} {f['id']}: {f['what']}")
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total,
                "distinct_nontrivial": len(keys),
                "rule": self.rule,
                "samples": samples or ["-"],
                "observed": counts,
                "scenarios": per_fn,
                "skipped": dict(sorted(skips.items(), key=lambda x: -x[1])[:15]),
                "not_run_for_time": lost,
            },
            "wall_s": round(wall, 2),
            "assumptions": self.assumptions,
            "violations": vrecs,
            "known_findings": [f["id"] for f in known],
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        nskip = sum(skips.values())
        print(f"{self.prop} tier={self.tier} seed={self.seed}: {len(self.jobs) - lost} scenarios, {total} judgements, {len(keys)} distinct situations, {nskip} skipped, {len(viols)} violating, {wall:.1f} s; observed {counts}")
        if os.environ.get("VERIF_VERBOSE"):
            print(json.dumps(timed), json.dumps(skips, indent=1))
        if viols:
            sys.exit(1)
        short = {k: (counts.get(k, 0), v) for k, v in self.required.items() if counts.get(k, 0) < v}
        if (total == 0 or short) and not self.opts.only:
            print(f"INCONCLUSIVE property={self.prop}: monitors saw too little: {short or 'nothing'}")
            sys.exit(2)
        sys.exit(0)


_JOBS: List[tuple] = []


def _run_index(i):
    return _run_one(_JOBS[i])
