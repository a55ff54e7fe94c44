"""Data loaders with real worker processes, run in a forked process with a wall-clock limit."""
from __future__ import annotations

import contextlib
import gc
import io
import multiprocessing
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings
from typing import Any, Callable, List, Optional

import numpy as np
import torch

from megatron.energon.flavors.base_dataset import SavableDataset
from megatron.energon.wrappers import MapDataset

from vp.harness import HarnessError, Violation, in_repo
from vp.lib import Stream, as_worker, derive, freeze, wcfg

_CTX = multiprocessing.get_context("fork")


def forked(fn: Callable[[], Any], wall: float = 60.0) -> Any:
    """Runs fn in a forked process group; everything it started is killed afterwards.

    Violations and exceptions of the code under test are raised here again; not finishing within
    the wall-clock limit counts as a hang of the code under test, unless the machine is too slow.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 2)
            os.dup2(fd, 1)
            warnings.simplefilter("ignore")
            try:
                res = ("ok", fn())
            except Violation as v:
                res = ("violation", str(v))
            except BaseException as e:
                msg = f"unexpected {type(e).__name__} from the code under test: {e}\n" + traceback.format_exc()[-1800:]
                res = ("violation" if in_repo(e.__traceback__) or getattr(e, "vp_from_repo", False)
                       else "error", msg)
            with os.fdopen(w, "wb") as f:
                data = pickle.dumps(res)
                f.write(len(data).to_bytes(8, "big") + data)
        finally:
            os._exit(0)
    os.close(w)
    with contextlib.suppress(PermissionError, ProcessLookupError):
        os.setpgid(pid, pid)
    buf = b""
    end = time.monotonic() + wall
    import select

    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                break
            rl, _, _ = select.select([r], [], [], min(left, 1.0))
            if rl:
                chunk = os.read(r, 1 << 20)
                if not chunk:
                    break
                buf += chunk
                # the end of the file would come late: the worker processes inherit the pipe
                if len(buf) >= 8 and len(buf) == 8 + int.from_bytes(buf[:8], "big"):
                    break
    finally:
        os.close(r)
        with contextlib.suppress(ProcessLookupError, PermissionError):
            os.killpg(pid, signal.SIGKILL)
        with contextlib.suppress(ChildProcessError):
            os.waitpid(pid, 0)
    if not buf:
        raise Violation(f"HANG: the loader did not finish within {wall} seconds")
    kind, val = pickle.loads(buf[8:])
    if kind == "ok":
        return val
    if kind == "violation":
        raise Violation(val)
    raise HarnessError(val)


class Gate:
    """Shared counters that limit how far each worker may run ahead."""

    def __init__(self, n: int):
        self.allowed = _CTX.RawArray("l", [10**9] * max(n, 1))
        self.done = _CTX.RawArray("l", [0] * max(n, 1))


class Gated(SavableDataset):
    """Delegates to `ds`, but waits before each sample until the gate allows it."""

    def __init__(self, ds: SavableDataset, gate: Gate):
        super().__init__(ds.worker_config)
        self.ds, self.gate = ds, gate

    def __len__(self):
        return len(self.ds)

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        it = iter(self.ds)
        while True:
            end = time.monotonic() + 20
            while self.gate.done[w] >= self.gate.allowed[w] and time.monotonic() < end:
                time.sleep(0.0005)
            try:
                s = next(it)
            except StopIteration:
                return
            self.gate.done[w] += 1
            yield s

    def save_state(self):
        return self.ds.save_state()

    def merge_states(self, states):
        return self.ds.merge_states(states)

    def restore_state(self, state):
        self.ds.restore_state(state)

    def can_restore_sample(self):
        return self.ds.can_restore_sample()

    def assert_can_restore(self):
        self.ds.assert_can_restore()

    def restore_sample(self, index):
        return self.ds.restore_sample(index)

    def worker_has_samples(self):
        return self.ds.worker_has_samples()

    def config(self):
        return self.ds.config()

    def __str__(self):
        return f"Gated({self.ds})"


def global_random(s):
    """User code drawing from the global random generators."""
    return derive(s, ("gr", random.randrange(10**6), int(np.random.randint(10**6)),
                      torch.randint(0, 10**6, ()).item(),
                      # the generators compute normal numbers in pairs and keep the second one
                      random.gauss(0, 1), float(np.random.randn()), torch.randn(()).item(), s.val))


def add_random(ds):
    return MapDataset(ds, global_random, worker_config=ds.worker_config)


def seed_all(seed: int) -> None:
    torch.manual_seed(seed)
    np.random.seed(seed)
    random.seed(seed)


def worker_streams(factory: Callable[[Any], SavableDataset], wc, epochs: int, limit: int, keep=freeze,
                   seed: bool = True) -> List[List[list]]:
    """What each worker of the rank yields in each of the first epochs (at most limit samples)."""
    res = []
    for w in range(max(wc.num_workers, 1)):
        if seed:
            seed_all(wc.worker_seed(w))
        st = Stream(factory(wc), wc, w, keep=keep)
        res.append([st.epoch(limit=limit) for _ in range(epochs)])
        st.close()
    return res


def interleave(streams: List[List[list]]) -> List[tuple]:
    """The order a loader delivers: round robin over the workers that have not finished the epoch.

    Yields (worker, index of the worker's sample, sample), and None at the end of each epoch.
    """
    n = len(streams)
    idx = [0] * n
    res: List[Any] = []
    for e in range(len(streams[0])):
        pos = [0] * n
        live = [True] * n
        while any(live):
            for w in range(n):
                if not live[w]:
                    continue
                if pos[w] == len(streams[w][e]):
                    live[w] = False
                    continue
                res.append((w, idx[w], streams[w][e][pos[w]]))
                pos[w] += 1
                idx[w] += 1
        res.append(None)
    return res
