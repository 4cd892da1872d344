"""Common machinery: scenario execution, trace recording, TLC validation, verdicts."""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import re
import shutil
import tempfile
import time
import traceback
import warnings
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
from pathlib import Path

import numpy as np

from . import tlc

VERIF = Path(__file__).resolve().parents[2]
NPROC = int(os.environ.get("VF_NPROC", "8"))


class Rec:
    """Records one trace: a list of events, each one call of the public API."""

    def __init__(self, tid, desc=""):
        self.tid = tid
        self.desc = desc
        self.events = []

    def ev(self, op, **kw):
        e = {"op": op}
        e.update(kw)
        self.events.append(e)
        return e

    def to_json(self):
        return {"id": self.tid, "desc": self.desc, "events": self.events}


class ScenarioTimeout(Exception):
    pass


def _scenario(job):
    fn, seed, idx, name, workdir = job
    warnings.simplefilter("ignore")
    import signal

    def onalarm(*_):
        raise ScenarioTimeout()

    rng = np.random.default_rng([seed, idx, int(hashlib.sha1(name.encode()).hexdigest()[:8], 16)])
    rec = Rec(f"{name}:{seed}:{idx}")
    scratch = tempfile.mkdtemp(prefix="sc", dir=workdir)
    rec.scratch = scratch
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(180)
    try:
        fn(rng, rec)
    except Exception as exc:  # the projection or the driver itself failed on what the code returned
        rec.ev("Malformed", err=type(exc).__name__, msg=str(exc)[:500],
               tb=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        shutil.rmtree(scratch, ignore_errors=True)
    return rec.to_json()


def _isolated(ctx, job):
    try:
        with ProcessPoolExecutor(1, mp_context=ctx) as pool:
            return pool.submit(_scenario, job).result()
    except BrokenProcessPool:
        return {"id": f"{job[3]}:{job[1]}:{job[2]}", "desc": "", "events": [
            {"op": "Malformed", "err": "crash", "msg": "the process running this scenario died"}]}


def call(fn, *a, **k):
    """Run one public call; returns ("ok", value) or ("error", exception name+text)."""
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return "ok", fn(*a, **k)
    except ScenarioTimeout:
        raise
    except Exception as exc:
        return "error", f"{type(exc).__name__}: {exc}"[:300]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = os.environ.get("VF_WORK") or tempfile.mkdtemp(prefix="vfwork")
        self.violations = []
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "events_by_op": {}, "design_checks": []}
        self.assumptions = []
        self.level = "model_checking"
        self._ops = Counter()
        self.known_list = []
        self.vacuous = []
        kf = VERIF / "known_findings.jsonl"
        if kf.exists():
            for line in kf.read_text().splitlines():
                if line.strip():
                    d = json.loads(line)
                    if d.get("status") == "known" and d["property"] == pid:
                        self.known_list.append(d)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough or quick * 10)

    # ---------------------------------------------------------------- design
    def design(self, module, cfg, expect_min=1, **kw):
        """Model check the specification itself (exhaustively, small constants)."""
        t = time.time()
        r = tlc.run(module, cfg, **kw)
        if "No error has been found" not in r["out"]:
            raise tlc.TLCError("design check failed: " + r["out"][-3000:])
        if r["distinct"] < expect_min:
            raise tlc.TLCError(f"design check explored only {r['distinct']} states")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["design_checks"].append({"module": module, "cfg": cfg, "distinct": r["distinct"],
                                          "generated": r["generated"], "s": round(time.time() - t, 1)})
        return r

    # ------------------------------------------------------------- scenarios
    def scenarios(self, name, fn, count, jobs=None):
        """Run fn(rng, rec) `count` times in parallel on the real code."""
        work = [(fn, self.seed, i, name, self.work) for i in range(count)]
        ctx = mp.get_context("fork")
        try:
            with ProcessPoolExecutor(NPROC, mp_context=ctx) as pool:
                return list(pool.map(_scenario, work, chunksize=max(1, min(8, count // (NPROC * 4) or 1))))
        except BrokenProcessPool:
            # a scenario took its process down: run each one in a process of its own
            return [_isolated(ctx, j) for j in work]

    # ------------------------------------------------------------ validation
    def validate(self, module, cfg, traces, min_ops=None, **kw):
        """Check recorded traces against the specification with TLC."""
        traces = [t for t in traces if t["events"]]
        if not traces:
            raise RuntimeError("no traces recorded")
        path = os.path.join(self.work, f"traces_{module}_{len(self.cov['samples'])}_{time.time_ns()}.ndjson")
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t, default=lambda v: v.item()) + "\n")
        t0 = time.time()
        nev = sum(len(t["events"]) for t in traces)
        try:
            r = self._tlc(module, cfg, path, nev, len(traces), kw)
        except tlc.TLCError as exc:
            if "timed out" in str(exc):
                raise
            bad = self._bisect(module, cfg, traces, kw)
            if bad is None:
                raise
            # what the code returned is outside the domain of the specification
            os.unlink(path)
            print(str(exc)[-1500:])
            self.reject(module, cfg, bad, len(bad["events"]), ("outside-the-specification",))
            return
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += nev
        self.cov["traces_validated_against_impl"] += len(traces)
        ops = Counter(e["op"] + ("/" + e["out"] if "out" in e else "") for t in traces for e in t["events"])
        self._ops.update(ops)
        for op, mn in (min_ops or {}).items():
            if ops[op] < mn:
                self.vacuous.append(f"vacuity: only {ops[op]} events {op} (< {mn})")
        s = traces[0]
        self.cov["samples"].append({"trace": s["id"], "ops": [
            {k: v for k, v in e.items() if k in ("op", "args", "out")} for e in s["events"]][:6]})
        self.cov.setdefault("validation_runs", []).append(
            {"module": module, "traces": len(traces), "events": nev, "s": round(time.time() - t0, 1),
             "mb": round(os.path.getsize(path) / 1e6, 1)})
        rejects = parse_rejects(r["out"])
        for ti, li, clauses in rejects:
            self.reject(module, cfg, traces[ti - 1], li, clauses)
        os.unlink(path)
        return rejects

    def _tlc(self, module, cfg, path, nev, ntr, kw):
        r = tlc.run(module, cfg, env={"VF_TRACES": path}, **kw)
        if "No error has been found" not in r["out"]:
            raise tlc.TLCError("trace validation failed to run: " + r["out"][-4000:])
        if r["distinct"] != nev + ntr:
            raise tlc.TLCError(f"trace validation visited {r['distinct']} states, expected {nev + ntr}")
        return r

    def _bisect(self, module, cfg, traces, kw):
        """The one trace the specification cannot be evaluated on (None if TLC itself does not work)."""
        def fails(ts):
            p = os.path.join(self.work, f"bis_{time.time_ns()}.ndjson")
            with open(p, "w") as f:
                for t in ts:
                    f.write(json.dumps(t, default=lambda v: v.item()) + "\n")
            try:
                self._tlc(module, cfg, p, sum(len(t["events"]) for t in ts), len(ts), kw)
                return False
            except tlc.TLCError:
                return True
            finally:
                os.unlink(p)

        good = [{"id": "empty", "desc": "", "events": [{"op": "Malformed"}]}]
        if fails(good):
            return None
        while len(traces) > 1:
            h = traces[: len(traces) // 2]
            traces = h if fails(h) else traces[len(traces) // 2:]
        return traces[0] if fails(traces) else None

    def reject(self, module, cfg, trace, li, clauses):
        ev = trace["events"][li - 1]
        for k in self.known_list:
            if matches_known(k, ev, clauses):
                msg = k["what"]
                if msg not in self.known:
                    self.known.append(msg)
                return
        self.violations.append({"module": module, "cfg": cfg, "trace": trace, "event": li,
                                "op": ev["op"], "clauses": clauses})

    # -------------------------------------------------------------- verdict
    def finish(self, wall):
        self.cov["events_by_op"] = dict(sorted(self._ops.items()))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(wall, 1),
              "violations": len(self.violations)}
        out = VERIF / "evidence"
        out.mkdir(exist_ok=True)
        (out / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        (out / "replay" / f"{self.pid}.json").unlink(missing_ok=True)
        for m in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {m}")
        if self.violations:
            rdir = out / "replay"
            rdir.mkdir(exist_ok=True)
            rp = rdir / f"{self.pid}.json"
            v = self.violations[0]
            rp.write_text(json.dumps({"n_violations": len(self.violations), "violations": [
                {"module": x["module"], "trace_id": x["trace"]["id"], "event": x["event"], "op": x["op"],
                 "clauses": x["clauses"], "err": x["trace"]["events"][x["event"]-1].get("err"), "args": x["trace"]["events"][x["event"]-1].get("args")} for x in self.violations[:400]], "first": v}, indent=1))
            for x in self.violations[:5]:
                e = x["trace"]["events"][x["event"] - 1]
                print(f"rejected: {x['trace']['id']} event {x['event']} {x['op']} clauses={x['clauses']} "
                      f"args={json.dumps(e.get('args'))[:300]} {e.get('err', '')} {e.get('msg', '')}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.vacuous:
            raise RuntimeError("; ".join(self.vacuous))
        print(f"{self.pid} {self.tier}: held on {self.cov['traces_validated_against_impl']} traces, "
              f"{self.cov['transitions']} transitions, {wall:.0f}s")
        return 0


def parse_rejects(out):
    res = []
    for m in re.finditer(r'VFREJECT\|(\d+)\|(\d+)\|(.*?)\|END', out, re.S):
        cl = re.findall(r'\\?"([^"\\]+)\\?"', m.group(3))
        res.append((int(m.group(1)), int(m.group(2)), sorted(set(cl))))
    return sorted(set((a, b, tuple(c)) for a, b, c in res))


def matches_known(k, ev, clauses):
    """A known finding names an op, the clauses it may break, and a tag the driver put on the event."""
    if k["op"] != ev["op"]:
        return False
    if not set(clauses) <= set(k["clauses"]):
        return False
    return k["tag"] in ev.get("tags", [])
