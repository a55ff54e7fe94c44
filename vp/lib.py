"""Simulated workers, synthetic datasets and pipeline specifications."""
from __future__ import annotations

import contextlib
import copy
import dataclasses
import hashlib
import io
import os
import random
from dataclasses import dataclass
from typing import Any, Dict, List, Optional, Sequence, Tuple

import numpy as np
import torch
import torch.utils.data._utils.worker as tw

from megatron.energon.errors import FatalSampleError
from megatron.energon.flavors.base_dataset import MergedState, Sample, SavableDataset, State
from megatron.energon.task_encoder.base import stateless
from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers import (
    BatchDataset, BlendDataset, ConcatDataset, EpochizeDataset, FilterDataset, GcDataset,
    GroupBatchDataset, IterMapDataset, LimitDataset, LogSampleDataset, MapDataset,
    MixBatchDataset, PackingDataset, RepeatDataset, ShuffleBufferDataset, SkipSample,
)
from megatron.energon.wrappers import gc_dataset as _gcmod

from vp.harness import Violation

_gcmod._frozen_cuda_tensors_initialized = True  # there is no CUDA here


# ---------------------------------------------------------------------------- workers


@contextlib.contextmanager
def as_worker(w: Optional[int], n: int, seed: int = 0):
    """Runs the block as worker process w of n (None: main process)."""
    old = tw._worker_info
    tw._worker_info = None if w is None or n == 0 else tw.WorkerInfo(
        id=w, num_workers=n, seed=seed, dataset=None)
    try:
        yield
    finally:
        tw._worker_info = old


class Starved(BaseException):
    """The source was read very often without the pipeline yielding anything."""


STARVE = [0, 3000]


def pull_guard() -> None:
    STARVE[0] += 1
    if STARVE[0] > STARVE[1]:
        raise Starved()


class Stream:
    """Iterates a dataset as worker w like the loaders do, across epochs.

    ``epochs=True`` inserts an ("EPOCH",) marker at each end of the dataset.
    """

    def __init__(self, ds, wc: WorkerConfig, w: int = 0, epochs: bool = False, index: int = 0,
                 keep=None, patience: int = 3):
        #: gives up after so many empty epochs, or 500 times as many reads without a sample
        self.patience = patience
        self.ds, self.wc, self.w, self.epochs, self.index = ds, wc, w, epochs, index
        self.it = None
        self.keep = keep or freeze
        self.dead = False

    def _next(self):
        """The next sample; None at the end of an epoch, raises Starved."""
        if self.it is None:
            self.it = iter(self.ds)
        STARVE[:] = [0, 500 * self.patience]
        self.wc.worker_activate(self.index)
        try:
            s = next(self.it)
        except StopIteration:
            self.it = None
            self.wc.worker_deactivate()
            return None
        except BaseException:
            self.it = None
            force_inactive()
            raise
        self.wc.worker_deactivate()
        self.index += 1
        return self.keep(s)

    def take(self, k: int) -> list:
        res = []
        empty = 0
        with as_worker(self.w, self.wc.num_workers):
            while len(res) < k and not self.dead:
                try:
                    s = self._next()
                except Starved:
                    self.dead = True
                    break
                if s is None:
                    empty += 1
                    if self.epochs:
                        res.append(("EPOCH",))
                    if empty >= self.patience:
                        self.dead = True
                    continue
                empty = 0
                res.append(s)
        return res

    def epoch(self, limit: int = 100000) -> list:
        """The rest of the current epoch."""
        res = []
        with as_worker(self.w, self.wc.num_workers):
            while len(res) < limit:
                s = self._next()
                if s is None:
                    break
                res.append(s)
        return res

    def save(self):
        with as_worker(self.w, self.wc.num_workers):
            return self.ds.save_state()

    def close(self):
        if self.it is not None and hasattr(self.it, "close"):
            self.it.close()
        self.it = None


def force_inactive() -> None:
    """Leaves the activated state after an exception ended the iteration (as a new process would)."""
    WorkerConfig.active_worker_config = None
    WorkerConfig._sample_index_stack = None
    WorkerConfig._worker_override_global_rank = None


def restore_one(ds, wc, key, gid: int, index: int = 0, keep=None):
    """Restores a sample the way the loaders do (in the main process)."""
    with as_worker(None, 0):
        wc.worker_activate(index, override_global_rank=gid)
        try:
            r = ds.restore_sample(key)
        except BaseException:
            force_inactive()
            raise
        wc.worker_deactivate()
        return (keep or freeze)(r)


# ---------------------------------------------------------------------------- freezing


def freeze(x: Any) -> Any:
    """Comparable, hashable deep copy of a sample."""
    if isinstance(x, torch.Tensor):
        return ("T", str(x.dtype), tuple(x.shape), tuple(x.reshape(-1).tolist()))
    if isinstance(x, np.ndarray):
        return ("N", str(x.dtype), tuple(x.shape), tuple(x.reshape(-1).tolist()))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__,) + tuple(
            (f.name, freeze(getattr(x, f.name))) for f in dataclasses.fields(x))
    if isinstance(x, dict):
        return ("D",) + tuple((k, freeze(v)) for k, v in x.items())
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return (type(x).__name__,) + tuple((k, freeze(getattr(x, k))) for k in x._fields)
    if isinstance(x, list):
        return ("L",) + tuple(freeze(v) for v in x)
    if isinstance(x, (tuple, set, frozenset)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, float) and x != x:
        return ("NaN",)
    return x


# ---------------------------------------------------------------------------- source


@dataclass
class VS(Sample):
    val: Any


def vs(val, key="k", restore=()):
    return VS(__key__=key, __restore_key__=restore, __subflavor__=None, __subflavors__=None, val=val)


@dataclass
class SrcState(State):
    offset: int


@dataclass
class SrcMerged(MergedState):
    offset: List[int]


class Src(SavableDataset):
    """Finite dataset with a fixed list of items per worker; restarts every epoch."""

    def __init__(self, counts: Sequence[int], sid: int, *, worker_config: WorkerConfig):
        super().__init__(worker_config)
        self.sid = sid
        self.counts = list(counts)
        n = max(worker_config.num_workers, 1)
        assert len(self.counts) >= n
        starts = [0]
        for c in self.counts[:n]:
            starts.append(starts[-1] + c)
        self.items = [list(range(starts[i], starts[i + 1])) for i in range(n)]
        self.off = [0] * n
        #: number of items read so far (in this process)
        self.pulled = 0

    def __len__(self):
        return sum(len(i) for i in self.items)

    def make(self, item):
        return vs((self.sid, item), key=f"{self.sid}/{item}", restore=("Src", self.sid, item))

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        items = self.items[w]
        while self.off[w] < len(items):
            it = items[self.off[w]]
            self.off[w] += 1
            self.pulled += 1
            pull_guard()
            yield self.make(it)
        self.off[w] = 0

    def save_state(self):
        return SrcState(self.off[self.worker_config.rank_worker_id()])

    def merge_states(self, states):
        return SrcMerged([0 if s is None else s.offset for s in states])

    def restore_state(self, state):
        self.off = [0] * max(self.worker_config.num_workers, 1) if state is None else list(state.offset)

    def can_restore_sample(self):
        return True

    def assert_can_restore(self):
        pass

    def restore_sample(self, index):
        name, sid, item = index
        assert name == "Src" and sid == self.sid, index
        return self.make(item)

    def worker_has_samples(self):
        return len(self.items[self.worker_config.rank_worker_id()]) > 0

    def config(self):
        return {"type": "Src", "sid": self.sid, "counts": self.counts}

    def __str__(self):
        return f"Src({self.sid})"


# ---------------------------------------------------------------------------- functions


def hv(x: Any) -> int:
    """Deterministic hash of a value."""
    return int.from_bytes(hashlib.sha1(repr(x).encode()).digest()[:4], "big")


def derive(sample: Any, val: Any) -> VS:
    """A new sample keeping the metadata of `sample`."""
    return VS(__key__=sample.__key__, __restore_key__=sample.__restore_key__,
              __subflavor__=sample.__subflavor__, __subflavors__=sample.__subflavors__, val=val)


class Boom(ValueError):
    pass


class UserFns:
    """User code of one pipeline step, with the interface the seed wrappers expect."""

    def __init__(self, kind: str, p: int):
        self.kind, self.p = kind, p

    @property
    def current_sample_index(self):
        return WorkerConfig.active_worker_config.active_worker_sample_index

    @property
    def current_batch_index(self):
        return WorkerConfig.active_worker_config.active_worker_batch_index

    def map_fn(self):
        return getattr(self, "m_" + self.kind)

    @stateless
    def m_pure(self, s):
        return derive(s, ("m", self.p, s.val))

    @stateless
    def m_idx(self, s):
        return derive(s, ("i", self.current_sample_index, s.val))

    @stateless
    def m_bidx(self, s):
        return derive(s, ("bi", self.current_batch_index, self.current_sample_index, s.val))

    @stateless
    def m_skip(self, s):
        if hv(s.val) % self.p == 0:
            raise SkipSample()
        return s

    @stateless
    def m_err(self, s):
        if hv(s.val) % self.p == 0:
            raise Boom("bad")
        return s

    @stateless
    def m_gen(self, s):
        for i in range(hv(s.val) % (self.p + 1)):
            yield derive(s, ("g", i, self.current_sample_index, s.val))

    @stateless
    def m_generr(self, s):
        n = hv(s.val) % (self.p + 2)
        for i in range(n):
            if i == self.p:
                raise Boom("bad gen")
            yield derive(s, ("g", i, s.val))


def _mk_rand():
    # `stateless(restore_seeds=True)` is applied per step so that no state is shared
    class RandFns(UserFns):
        @stateless(restore_seeds=True)
        def m_rand(self, s):
            return derive(s, ("r", torch.randint(0, 10**6, ()).item(), int(np.random.randint(10**6)),
                              random.randrange(10**6), s.val))

        @stateless(restore_seeds=True)
        def m_randgen(self, s):
            for i in range(hv(s.val) % (self.p + 1)):
                yield derive(s, ("rg", i, random.randrange(10**6),
                                 torch.randint(0, 10**6, ()).item(), s.val))

    return RandFns


class BatchFns:
    def __init__(self, kind: str, p: int):
        self.kind, self.p = kind, p

    @property
    def current_sample_index(self):
        return WorkerConfig.active_worker_config.active_worker_sample_index

    def fn(self):
        return getattr(self, "b_" + self.kind)

    def _join(self, b, tag="b"):
        return vs((tag,) + tuple(s.val for s in b), key="|".join(s.__key__ for s in b))

    @stateless
    def b_pure(self, b):
        return self._join(b)

    @stateless
    def b_keep(self, b):
        """Keeps the lists it gets, which must not change any more (as a batch which has the list as a field)."""
        kept = self.__dict__.setdefault("kept", [])
        if any(len(x) != len(y) or any(i is not j for i, j in zip(x, y)) for x, y in kept):
            raise Boom("a list of samples was changed after it was batched")
        kept.append((b, list(b)))
        return self._join(b)

    @stateless
    def b_idx(self, b):
        r = self._join(b)
        r.val = ("bi", self.current_sample_index) + r.val
        return r

    @stateless
    def b_skip(self, b):
        r = self._join(b)
        if hv(r.val) % self.p == 0:
            raise SkipSample()
        return r

    @stateless
    def b_err(self, b):
        r = self._join(b)
        if hv(r.val) % self.p == 0:
            raise Boom("bad batch")
        return r

    @stateless
    def b_gen(self, b):
        for i in range(hv([s.val for s in b]) % (self.p + 1)):
            r = self._join(b, "bg")
            r.val = (i, self.current_sample_index) + r.val
            yield r

    @stateless
    def b_generr(self, b):
        n = hv([s.val for s in b]) % (self.p + 2)
        for i in range(n):
            if i == self.p:
                raise Boom("bad batch gen")
            r = self._join(b, "bg")
            r.val = (i,) + r.val
            yield r


class PackFns:
    """Selects packs from a buffer: deterministic in the buffer content."""

    def __init__(self, kind: str, p: int):
        self.kind, self.p = kind, p

    @property
    def current_sample_index(self):
        return WorkerConfig.active_worker_config.active_worker_sample_index

    def select(self, samples):
        h = hv([s.val for s in samples])
        if self.kind == "idx":  # depends on how many buffers were selected from before
            h = hv((h, self.current_sample_index))
        if self.kind == "skip" and h % 3 == 0:
            raise SkipSample()
        if self.kind == "err" and h % 3 == 0:
            raise Boom("pre")
        order = sorted(samples, key=lambda s: hv(s.val)) if self.kind == "sort" else list(samples)
        res, i = [], 0
        while i < len(order):
            k = 1 + (hv((h, i)) % self.p)
            res.append(order[i:i + k])
            i += k
        if self.kind == "drop" and len(res) > 1:
            res.pop(h % len(res))
        return res

    @stateless
    def pack(self, samples):
        if self.kind == "packerr" and hv([s.val for s in samples]) % 3 == 0:
            raise Boom("pack")
        return vs(("p",) + tuple(s.val for s in samples), key="+".join(s.__key__ for s in samples))

    @stateless
    def packgen(self, samples):
        for i in range(hv([s.val for s in samples]) % 3):
            yield vs(("pg", i) + tuple(s.val for s in samples), key="+".join(s.__key__ for s in samples))


def silent(e, s=None):
    """An error handler that ignores user errors, but not failed assertions of the library."""
    if not isinstance(e, Boom):
        e.vp_from_repo = True
        raise e


# ---------------------------------------------------------------------------- building


def build(spec: dict, wc: WorkerConfig):
    """Builds the pipeline described by a JSON spec."""
    op = spec["op"]
    inner = build(spec["in"], wc) if "in" in spec else None
    if op == "src":
        return Src(spec["n"], spec["id"], worker_config=wc)
    if op == "map":
        f = _mk_rand()(spec["kind"], spec["p"]).map_fn()
        return MapDataset(inner, f, error_handler=silent, stateless_map_fn=True, worker_config=wc)
    if op == "filter":
        p = spec["p"]
        return FilterDataset(inner, filter_fn=lambda s: hv(s.val) % p != 0, worker_config=wc)
    if op == "itermap":
        p, kind = spec["p"], spec["kind"]

        def itfn(it):
            for s in it:
                if kind == "drop" and hv(s.val) % p == 0:
                    continue
                if kind == "err" and hv(s.val) % p == 0:
                    raise Boom("iter")
                if kind == "multi":
                    for j in range(hv(s.val) % 3):
                        yield derive(s, ("im", s.val, j))
                    continue
                yield derive(s, ("im", s.val))

        return IterMapDataset(inner, itfn, error_handler=silent, stateless_iter_fn=True, worker_config=wc)
    if op == "batch":
        return BatchDataset(inner, spec["size"], BatchFns(spec["kind"], spec["p"]).fn(),
                            batcher_stateless=True, drop_last=spec.get("drop", False),
                            error_handler=silent, worker_config=wc)
    if op == "group":
        p = spec["p"]
        size = spec["size"]
        if size is None:
            key = lambda s: ((hv(s.val) % p), 1 + (hv(s.val) % p) % 3)
        else:
            key = lambda s: (hv(s.val) % p, None)
        return GroupBatchDataset(inner, size, key, BatchFns(spec["kind"], 3).fn(),
                                 batcher_stateless=True, drop_last=spec.get("drop", False),
                                 error_handler=silent, worker_config=wc)
    if op == "pack":
        pf = PackFns(spec["kind"], spec["p"])
        return PackingDataset(inner, spec["size"], pf.select,
                              pf.packgen if spec["kind"] == "gen" else pf.pack,
                              final_packer_stateless=True, error_handler=silent, worker_config=wc)
    if op == "shuffle":
        return ShuffleBufferDataset(inner, spec["size"], worker_config=wc)
    if op == "limit":
        return LimitDataset(inner, spec["n"], reset_after_epoch=spec.get("reset", False), worker_config=wc)
    if op == "epochize":
        return EpochizeDataset(inner, spec["n"], worker_config=wc)
    if op == "repeat":
        return RepeatDataset(inner, repeats=spec["n"], worker_config=wc)
    if op == "gc":
        return GcDataset(inner, every_n_iter=10**6, worker_config=wc)
    if op == "log":
        return LogSampleDataset(inner, mode="train", worker_config=wc)
    if op == "concat":
        return ConcatDataset(*[build(s, wc) for s in spec["ins"]], worker_config=wc)
    if op == "blend":
        return BlendDataset(*[(build(s, wc), w) for s, w in zip(spec["ins"], spec["w"])], worker_config=wc)
    if op == "mix":
        return MixBatchDataset(*[(build(s, wc), w) for s, w in zip(spec["ins"], spec["w"])],
                               batch_size=spec["size"], batch_mix_fn=BatchFns("pure", 1).fn(),
                               worker_config=wc)
    return EXTRA[op](spec, inner, wc)


#: Builders of further steps
EXTRA: Dict[str, Any] = {}


def ops_of(spec: dict) -> List[str]:
    r = [spec["op"]]
    if "in" in spec:
        r += ops_of(spec["in"])
    for s in spec.get("ins", ()):
        r += ops_of(s)
    return r


def kinds_of(spec: dict) -> List[str]:
    r = [spec["op"] + (":" + spec["kind"] if "kind" in spec else "")]
    if "in" in spec:
        r += kinds_of(spec["in"])
    for s in spec.get("ins", ()):
        r += kinds_of(s)
    return r


def wcfg(nw: int, rank: int = 0, world: int = 1, seed_offset: int = 0, **kw) -> WorkerConfig:
    return WorkerConfig(rank=rank, world_size=world, num_workers=nw, seed_offset=seed_offset, **kw)
