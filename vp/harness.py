"""Shared harness: runs the sub-checks of one property with Hypothesis in forked processes.

A sub-check is a pure function ``body(case, rec)`` of a JSON-able case.  The case comes from a
Hypothesis strategy seeded with VERIF_SEED; a failing case is shrunk and written as a replay file
which re-runs ``body`` without Hypothesis.
"""
from __future__ import annotations

import collections
import contextlib
import faulthandler
import gc
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable, Dict, List, Optional

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src") + os.sep


class Violation(AssertionError):
    """The property does not hold for this case."""


class CaseHang(BaseException):
    pass


class HarnessError(Exception):
    """Something is wrong with the check itself."""


def check(cond: Any, msg: str, *args: Any) -> None:
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got: Any, want: Any, what: str) -> None:
    if got != want:
        raise Violation(f"{what}: got {_short(got)}, expected {_short(want)}")


def _short(x: Any, n: int = 600) -> str:
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


class Rec:
    """Per-case recorder."""

    def __init__(self) -> None:
        self.labels: collections.Counter = collections.Counter()
        self.nontrivial = False

    def label(self, name: str, cond: Any = True) -> None:
        if cond:
            self.labels[name] += 1

    def nt(self, cond: Any = True) -> None:
        if cond:
            self.nontrivial = True


@dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]
    body: Callable[[Any, Rec], None]
    #: examples per shard
    quick: int = 200
    thorough: int = 2000
    #: number of forked processes with different derived seeds
    shards: int = 1
    tshards: int = 8
    #: soft wall budget per shard (seconds); examples beyond it are skipped and counted as skipped
    budget: float = 60.0
    tbudget: float = 420.0
    #: CPU seconds of one case before it counts as non-terminating
    hang_cpu: float = 20.0
    #: wall seconds in one case before the shard is given up as inconclusive
    wall: float = 300.0
    #: what a non-trivial case is
    rule: str = ""


@dataclass
class Check:
    id: str
    subs: List[Sub]
    rule: str = ""
    level: str = "exploration"
    assumptions: List[str] = field(default_factory=list)
    #: known findings: list of (name, fn) where fn() returns True if the finding still reproduces
    setup: Optional[Callable[[], None]] = None


# --------------------------------------------------------------------------------------------


def norm(case: Any) -> Any:
    return json.loads(json.dumps(case))


def in_repo(tb) -> bool:
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SRC):
            return True
        tb = tb.tb_next
    return False


def reset_global_state() -> None:
    """Resets process-global state of the code under test so that cases are independent."""
    import random

    import numpy as np
    import torch

    from megatron.energon.worker import WorkerConfig

    WorkerConfig.active_worker_config = None
    WorkerConfig._sample_index_stack = None
    WorkerConfig._worker_override_global_rank = None
    WorkerConfig.worker_id_offset = 0
    import torch.utils.data._utils.worker as tw

    tw._worker_info = None
    torch.manual_seed(0)
    np.random.seed(0)
    random.seed(0)


def run_body(sub: Sub, case: Any, rec: Rec) -> None:
    """Runs one case; raises Violation if the property is broken, HarnessError otherwise."""
    reset_global_state()

    def on_prof(signum, frame):
        raise CaseHang()

    old = signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, sub.hang_cpu)
    try:
        sub.body(norm(case), rec)
    except Violation:
        raise
    except CaseHang:
        raise Violation(f"HANG: the case did not terminate within {sub.hang_cpu} CPU seconds")
    except Exception as e:
        import hypothesis.errors as he

        if isinstance(e, (he.UnsatisfiedAssumption,)):
            raise
        if in_repo(e.__traceback__) or getattr(e, "vp_from_repo", False):
            tail = "".join(traceback.format_exception(e))[-1800:]
            raise Violation(f"unexpected {type(e).__name__} from the code under test: {e}\n{tail}")
        raise HarnessError("".join(traceback.format_exception(e))) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        try:
            import megatron.energon.worker as w

            w.WorkerConfig.active_worker_config = None
        except Exception:
            pass


def derive_seed(seed: int, name: str, shard: int) -> int:
    h = hashlib.sha256(f"{seed}/{name}/{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_shard(chk: Check, sub: Sub, shard: int, tier: str, seed: int, out: str) -> None:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    n = sub.quick if tier == "quick" else sub.thorough
    budget = sub.budget if tier == "quick" else sub.tbudget
    scale = float(os.environ.get("VP_SCALE", "1"))
    n = max(1, int(n * scale))
    t0 = time.monotonic()
    st: Dict[str, Any] = dict(
        sub=sub.name, shard=shard, evaluations=0, skipped=0, labels=collections.Counter(),
        samples=[], fail=None, error=None, inconclusive=None,
    )
    hashes = set()
    fails: Dict[str, str] = {}
    last: List[Any] = []
    first_fail_at: List[float] = []
    hung: List[bool] = []

    def decide(case) -> Optional[str]:
        key = json.dumps(case, sort_keys=True)
        if key in fails:
            return fails[key]
        now = time.monotonic()
        if hung or (first_fail_at and now - first_fail_at[0] > 45):
            return None
        if not first_fail_at and now - t0 > budget:
            st["skipped"] += 1
            return None
        rec = Rec()
        st["evaluations"] += 1
        try:
            run_body(sub, case, rec)
        except Violation as v:
            if not first_fail_at:
                first_fail_at.append(time.monotonic())
            if str(v).startswith("HANG"):
                hung.append(True)
            fails[key] = str(v)
            last[:] = [norm(case), str(v)]
            return str(v)
        st["labels"].update(rec.labels.keys())
        if rec.nontrivial:
            h = hashlib.sha1(key.encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(st["samples"]) < 2 and len(hashes) in (1, 5, 12):
                    st["samples"].append(key[:1500])
        return None

    @hypothesis.seed(derive_seed(seed, chk.id + "/" + sub.name, shard))
    @settings(
        max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example, HealthCheck.differing_executors],
        print_blob=False, report_multiple_bugs=False,
    )
    @given(sub.strategy())
    def test(case):
        msg = decide(case)
        if msg is not None:
            # raised in one place only: all failures count as the same one while shrinking
            raise Violation(msg) from None

    try:
        test()
    except Violation as v:
        st["fail"] = dict(case=last[0], msg=last[1])
    except HarnessError as e:
        st["error"] = str(e)
    except BaseException as e:  # Flaky, FailedHealthCheck, ...
        if last:
            # not reproducible inside Hypothesis: decide by re-running the case directly
            again = 0
            for _ in range(3):
                try:
                    run_body(sub, last[0], Rec())
                except Violation as v:
                    again += 1
                    last[1] = str(v)
                except HarnessError:
                    pass
            if again:
                st["fail"] = dict(case=last[0], msg=last[1] + f" (reproduced {again}/3)")
            else:
                st["inconclusive"] = f"not reproducible: {last[1][:500]}"
        else:
            st["error"] = "".join(traceback.format_exception(e))
    st["hashes"] = sorted(hashes)
    st["labels"] = dict(st["labels"])
    st["wall"] = time.monotonic() - t0
    with open(out + ".tmp", "w") as f:
        json.dump(st, f)
    os.replace(out + ".tmp", out)


def scratch_root() -> str:
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="vp-", dir=base)


def spawn(fn: Callable[[], None], log: str) -> int:
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        os.setsid()
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        faulthandler.enable(open(log + ".fault", "w"))
        fn()
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)


def killpg(pid: int) -> None:
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(pid, signal.SIGKILL)


def load_known(check_id: str) -> List[dict]:
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text())["findings"]
            if k["property"] == check_id and k["status"] == "open"]


def main(chk: Check, argv: List[str]) -> int:
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    replay = None
    it = iter(argv)
    for a in it:
        if a == "--replay":
            replay = next(it)
        elif a == "--sub":
            only = next(it)
        elif a == "--thorough":
            tier = "thorough"
        elif a == "--quick":
            tier = "quick"
        else:
            raise SystemExit(f"unknown argument {a}")

    scratch = scratch_root()
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        if replay:
            return run_replay(chk, replay)
        return run_all(chk, tier, seed, only, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_replay(chk: Check, path: str) -> int:
    data = json.loads(Path(path).read_text())
    sub = next(s for s in chk.subs if s.name == data["sub"])
    try:
        run_body(sub, data["case"], Rec())
    except Violation as v:
        print(f"VIOLATION property={chk.id} replay={path}")
        print(v)
        return 1
    print("replay: property held")
    return 0


def run_all(chk: Check, tier: str, seed: int, only: Optional[str], scratch: str) -> int:
    t0 = time.monotonic()
    jobs = []
    for sub in chk.subs:
        if only and sub.name != only:
            continue
        k = sub.shards if tier == "quick" else max(sub.shards, sub.tshards)
        for i in range(k):
            jobs.append((sub, i, os.path.join(scratch, f"{sub.name}-{i}.json")))
    gc.collect()
    gc.freeze()
    running: Dict[int, tuple] = {}
    pending = list(jobs)
    ncpu = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 4)
    crashed: Dict[str, str] = {}
    while pending or running:
        while pending and len(running) < ncpu:
            sub, i, out = pending.pop(0)
            pid = spawn(lambda: run_shard(chk, sub, i, tier, seed, out), out + ".log")
            budget = (sub.budget if tier == "quick" else sub.tbudget) + sub.wall
            running[pid] = (out, time.monotonic() + budget, sub, i)
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid:
            if pid in running:
                out, _, sub, i = running.pop(pid)
                killpg(pid)
                if not os.path.exists(out):
                    log = Path(out + ".log").read_text()[-1500:] + Path(out + ".log.fault").read_text()[-1500:]
                    crashed[f"{sub.name}/{i}"] = f"status {status}: {log}"
            continue
        now = time.monotonic()
        for pid, (out, dl, sub, i) in list(running.items()):
            if now > dl:
                killpg(pid)
                crashed[f"{sub.name}/{i}"] = "wall limit"
                os.waitpid(pid, 0)
                running.pop(pid)
        time.sleep(0.02)

    res = [json.loads(Path(o).read_text()) for _, _, o in jobs if os.path.exists(o)]
    known = load_known(chk.id)
    violations = []
    known_hit = set()
    for r in res:
        if r["fail"]:
            violations.append(r)
    by_sub: Dict[str, dict] = {}
    distinct: Dict[str, set] = collections.defaultdict(set)
    samples = []
    for r in res:
        b = by_sub.setdefault(r["sub"], dict(evaluations=0, skipped_over_budget=0,
                                            labels=collections.Counter(), wall_s=0.0))
        b["evaluations"] += r["evaluations"]
        b["skipped_over_budget"] += r["skipped"]
        b["labels"].update(r["labels"])
        b["wall_s"] = round(max(b["wall_s"], r["wall"]), 2)
        distinct[r["sub"]].update(r["hashes"])
        if r["shard"] == 0:
            samples += [dict(sub=r["sub"], case=json.loads(s)) if _isjson(s) else dict(sub=r["sub"], case=s)
                        for s in r["samples"]]
    for s, b in by_sub.items():
        b["distinct_nontrivial"] = len(distinct[s])
        b["labels"] = dict(b["labels"])
    errors = {f"{r['sub']}/{r['shard']}": r["error"] for r in res if r["error"]}
    errors.update(crashed)
    inconclusive = [r["inconclusive"] for r in res if r["inconclusive"]]

    # known findings: replay each listed case
    for k in known:
        sub = next((s for s in chk.subs if s.name == k["sub"]), None)
        if sub is None:
            continue
        try:
            run_body(sub, k["case"], Rec())
        except Violation:
            print(f"KNOWN-FINDING: property={chk.id} {k['what']}")
            known_hit.add(k["id"])

    rc = 0
    shown: set = set()
    for r in violations:
        h = hashlib.sha1(json.dumps(r["fail"]["case"], sort_keys=True).encode()).hexdigest()[:10]
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        p = d / f"{chk.id}-{r['sub']}-{h}.json"
        p.write_text(json.dumps(dict(property=chk.id, sub=r["sub"], seed=seed, **r["fail"]), indent=1))
        print(f"VIOLATION property={chk.id} replay={p}")
        if r["sub"] not in shown:
            print(f"  sub={r['sub']} case={json.dumps(r['fail']['case'])[:1500]}")
            print("  " + r["fail"]["msg"][:3000].replace("\n", "\n  "))
            shown.add(r["sub"])
        rc = 1
    wall = time.monotonic() - t0
    ev = dict(
        property=chk.id, tier=tier, seed=seed, level=chk.level,
        coverage=dict(
            evaluations=sum(b["evaluations"] for b in by_sub.values()),
            distinct_nontrivial=sum(len(v) for v in distinct.values()),
            rule=chk.rule + " | " + "; ".join(f"{s.name}: {s.rule}" for s in chk.subs if s.rule),
            samples=samples,
            sub_checks=by_sub,
            known_findings_reproduced=sorted(known_hit),
            inconclusive=inconclusive,
        ),
        assumptions=chk.assumptions,
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    if not only:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{chk.id}.json").write_text(json.dumps(ev, indent=1))
    for s, b in by_sub.items():
        print(f"  {s}: {b['evaluations']} cases, {b['distinct_nontrivial']} distinct non-trivial, "
              f"{b['wall_s']}s, skipped {b['skipped_over_budget']}, labels {b['labels']}")
    if inconclusive:
        print("inconclusive:", inconclusive)
    if errors and rc == 0:
        for k, v in errors.items():
            print(f"HARNESS ERROR in {k}:\n{v}", file=sys.stderr)
        return 3
    print(f"{chk.id}: {'VIOLATED' if rc else 'held'} on everything explored in {wall:.1f}s (tier {tier}, seed {seed})")
    return rc


def _isjson(s: str) -> bool:
    try:
        json.loads(s)
        return True
    except Exception:
        return False
