"""A second process, as a checkpoint or restore key is usually used in another one.

It is started afresh (not forked), with another hash seed, so nothing but what is handed over can
carry over: no object, no cache, no order of a set.
"""
from __future__ import annotations

import importlib
import json
import os
import pickle
import select
import subprocess
import sys
import time
import traceback
import zlib
from typing import Any, Callable

from vp.harness import VERIF, HarnessError, Violation, in_repo, reset_global_state

_proc: list = []


def _read(fd: int, n: int, proc, end: float) -> bytes:
    buf = b""
    while len(buf) < n:
        left = end - time.monotonic()
        if left <= 0:
            return None
        if select.select([fd], [], [], min(left, 1.0))[0]:
            chunk = os.read(fd, n - len(buf))
            if not chunk:
                raise HarnessError(f"the other process ended: {proc.poll()}")
            buf += chunk
    return buf


def elsewhere(fn: Callable, *args: Any, wall: float = 120.0) -> Any:
    """fn(*args) in the other process of this shard; fn is a function at the top level of a module."""
    data = pickle.dumps((fn.__module__, fn.__qualname__, args))
    if not _proc or _proc[0][0] != os.getpid():
        # hash seeds differing between the shards, and from the one of this process
        salt = zlib.crc32(json.dumps([a for a in args if isinstance(a, (dict, int))], default=str).encode())
        env = dict(os.environ, PYTHONHASHSEED=str(1 + salt % 1000))
        _proc[:] = [(os.getpid(), subprocess.Popen(
            [sys.executable, str(VERIF / "run.py"), "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env))]
    p = _proc[0][1]
    try:
        p.stdin.write(len(data).to_bytes(8, "big") + data)
        p.stdin.flush()
        end = time.monotonic() + wall
        head = _read(p.stdout.fileno(), 8, p, end)
        body = head and _read(p.stdout.fileno(), int.from_bytes(head, "big"), p, end)
    except (BrokenPipeError, HarnessError) as e:
        _proc.clear()
        raise HarnessError(f"the other process ended: {p.poll()}") from e
    if body is None:
        with open(f"/proc/{p.pid}/stat") as f:
            cpu = sum(map(int, f.read().rsplit(")", 1)[1].split()[11:13])) / os.sysconf("SC_CLK_TCK")
        p.kill()
        p.wait()
        _proc.clear()
        if cpu > wall / 3:
            raise Violation(f"HANG: no result after {wall} seconds in the other process")
        raise HarnessError("the other process is too slow")
    kind, val = pickle.loads(body)
    if kind == "ok":
        return val
    raise (Violation if kind == "violation" else HarnessError)(val)


def serve() -> int:
    """The other process: runs the requests from the standard input one after the other."""
    src, dst = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    while True:
        head = src.read(8)
        if len(head) < 8:
            return 0
        module, name, args = pickle.loads(src.read(int.from_bytes(head, "big")))
        reset_global_state()
        try:
            res = ("ok", getattr(importlib.import_module(module), name)(*args))
        except Violation as v:
            res = ("violation", str(v))
        except BaseException as e:
            msg = f"unexpected {type(e).__name__} in the other process: {e}\n" + traceback.format_exc()[-1800:]
            repo = in_repo(e.__traceback__) or getattr(e, "vp_from_repo", False)
            res = ("violation" if repo else "error", msg)
        data = pickle.dumps(res)
        dst.write(len(data).to_bytes(8, "big") + data)
        dst.flush()
