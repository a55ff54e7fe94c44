"""Task encoder pipelines over text webdatasets in a scratch folder, and a model of the transformations."""
from __future__ import annotations

import contextlib
import io
from dataclasses import dataclass
from typing import Any, Dict, Iterator, List, Optional, Tuple

import yaml
from hypothesis import strategies as st

import megatron.energon as en
from megatron.energon import DefaultTaskEncoder, TaskEncoder, get_train_dataset, get_val_dataset
from megatron.energon.flavors.text import TextSample
from megatron.energon.metadataset import load_dataset
from megatron.energon.task_encoder.base import stateless
from megatron.energon.wrappers import BlendDataset, ConcatDataset, ShuffleBufferDataset, SkipSample

from vp import wds
from vp.lib import Boom, hv

# ---------------------------------------------------------------------------- datasets


@st.composite
def data_specs(draw, max_sets=3, max_n=7, splits=("train", "val"), min_total=1, weights=(0.5, 1, 3)):
    sets = []
    for _ in range(draw(st.integers(1, max_sets))):
        counts = draw(st.lists(st.integers(1, max_n), min_size=len(splits), max_size=len(splits) + 3))
        of = list(splits) + [draw(st.sampled_from(splits)) for _ in counts[len(splits):]]
        of = draw(st.permutations(of))
        sets.append({"counts": counts, "split": list(of), "w": draw(st.sampled_from(weights))})
    return sets


def write(root, sets, dataset=None) -> str:
    """Writes the datasets; returns the path to load."""
    for d, s in enumerate(sets):
        shards = wds.simple_shards(s["counts"], prefix=f"d{d}x")
        names = list(shards)
        parts: Dict[str, List[str]] = {}
        for name, p in zip(names, s["split"]):
            parts.setdefault(p, []).append(name)
        wds.write_dataset(root / f"d{d}", shards, splits=parts, dataset=dataset)
    if len(sets) == 1:
        return str(root / "d0")
    used = sorted({p for s in sets for p in s["split"]})
    (root / "meta.yaml").write_text(yaml.safe_dump({
        "__module__": "megatron.energon", "__class__": "MetadatasetV2",
        "splits": {p: {"blend": [{"weight": s["w"], "path": f"./d{d}"} for d, s in enumerate(sets)]}
                   for p in used}}))
    return str(root / "meta.yaml")


def truth(sets, split: str) -> List[List[Tuple[str, str]]]:
    """The (key, text) of the samples of a split in order, by dataset."""
    res = []
    for d, s in enumerate(sets):
        mine, k = [], 0
        for i, (n, p) in enumerate(zip(s["counts"], s["split"])):
            for _ in range(n):
                if p == split:
                    mine.append((f"shard_{i}.tar/d{d}x{k:04d}", f"d{d}x{k:04d}"))
                k += 1
        res.append(mine)
    return res


# ---------------------------------------------------------------------------- task encoders


@dataclass
class Bat(en.Batch):
    """A custom batch type."""
    __key__: List[str]
    __restore_key__: Any
    texts: List[str]
    tag: str = ""


@st.composite
def te_specs(draw, grouping=True, packing=True, idx=True, err=True, gen=True, early=False):
    """early: the samples also depend on the index of the batch, which isn't restored for those waiting in a buffer."""
    te = {"base": draw(st.sampled_from(["plain", "default"])),
          "encode": draw(st.sampled_from(["none", "tag", "skip"] + ["idx"] * idx + ["bidx"] * early + ["gen"] * gen + ["err"] * err)),
          "pack": None, "group": None, "batch": draw(st.sampled_from(["std", "own", "own"])), "eb": "none",
          "size": draw(st.sampled_from([1, 2, 2, 3, 4]))}
    if packing and draw(st.integers(0, 2)) == 0:
        te["pack"] = {"size": draw(st.integers(1, 5)), "kind": draw(st.sampled_from(["seq", "sort", "gen", "drop"]))}
    if grouping and draw(st.integers(0, 2)) == 0:
        te["group"] = {"p": draw(st.integers(1, 3)), "sized": draw(st.booleans())}
    if te["batch"] == "own":
        te["eb"] = draw(st.sampled_from(["none", "tag", "tag", "skip"] + ["idx", "bidx"] * idx + ["gen"] * gen + ["err"] * err))
    if te["base"] == "plain" and te["batch"] == "std" and te["group"] is None and draw(st.booleans()):
        te["size"] = None
    return te


def gsize(text: str, p: int) -> int:
    return 1 + (hv(text) % p) % 3


def select(items: list, kind: str, text) -> List[list]:
    """Chooses the packs of a buffer."""
    order = sorted(items, key=lambda s: hv(text(s))) if kind == "sort" else list(items)
    h = hv([text(s) for s in items])
    res, i = [], 0
    while i < len(order):
        k = 1 + hv((h, i)) % 3
        res.append(order[i:i + k])
        i += k
    if kind == "drop" and len(res) > 1:
        res.pop(h % len(res))
    return res


def make_te(spec) -> TaskEncoder:
    """A task encoder overriding exactly the methods of the spec."""
    ns: Dict[str, Any] = {}
    ek, bk = spec["encode"], spec["eb"]

    def ts(s, text):
        return TextSample.derive_from(s, text=text)

    if ek in ("tag", "skip", "err", "idx", "bidx"):
        @stateless
        def encode_sample(self, sample):
            if ek == "skip" and hv(sample.text) % 4 == 0:
                raise SkipSample()
            if ek == "err" and hv(sample.text) % 5 == 0:
                raise Boom("encode")
            return ts(sample, sample.text + (f"i{self.current_sample_index}" if ek == "idx" else
                                             f"b{self.current_batch_index}" if ek == "bidx" else "e"))
        ns["encode_sample"] = encode_sample
    elif ek == "gen":
        @stateless
        def encode_sample(self, sample):
            for j in range(hv(sample.text) % 3):
                yield ts(sample, sample.text + f"g{j}")
        ns["encode_sample"] = encode_sample

    if spec["pack"]:
        pk = spec["pack"]["kind"]

        def select_samples_to_pack(self, samples):
            return select(samples, pk, lambda s: s.text)
        ns["select_samples_to_pack"] = select_samples_to_pack
        if pk == "gen":
            @stateless
            def pack_selected_samples(self, samples):
                for j in range(hv([s.text for s in samples]) % 3):
                    yield ts(samples[0], f"{j}(" + "+".join(s.text for s in samples) + ")")
        else:
            @stateless
            def pack_selected_samples(self, samples):
                return ts(samples[0], "(" + "+".join(s.text for s in samples) + ")")
        ns["pack_selected_samples"] = pack_selected_samples

    if spec["group"]:
        p, sized = spec["group"]["p"], spec["group"]["sized"]

        def batch_group_criterion(self, sample):
            return hv(sample.text) % p, gsize(sample.text, p) if sized else None
        ns["batch_group_criterion"] = batch_group_criterion

    if spec["batch"] == "own":
        @stateless
        def batch(self, samples):
            return Bat([s.__key__ for s in samples], (), [s.text for s in samples])
        ns["batch"] = batch

    def bat(b, tag):
        return Bat(list(b.__key__), b.__restore_key__, list(b.texts), b.tag + tag)

    if bk in ("tag", "skip", "err", "idx", "bidx"):
        @stateless
        def encode_batch(self, batch):
            if bk == "skip" and hv(batch.texts) % 4 == 0:
                raise SkipSample()
            if bk == "err" and hv(batch.texts) % 5 == 0:
                raise Boom("encode_batch")
            return bat(batch, f"I{self.current_sample_index}" if bk == "idx" else f"B{self.current_batch_index}" if bk == "bidx" else "E")
        ns["encode_batch"] = encode_batch
    elif bk == "gen":
        @stateless
        def encode_batch(self, batch):
            for j in range(hv(batch.texts) % 3):
                yield bat(batch, f"G{j}")
        ns["encode_batch"] = encode_batch
    base = DefaultTaskEncoder if spec["base"] == "default" else TaskEncoder
    ns.update(spec.get("_ns", {}))
    return type("TE", (base,), ns)()


def batch_size(spec) -> Optional[int]:
    return None if spec["group"] and spec["group"]["sized"] else spec["size"]


def obs(s) -> tuple:
    """What was delivered."""
    if isinstance(s, Bat):
        return ("own", tuple(s.__key__), tuple(s.texts), s.tag)
    if isinstance(s, TextSample) and isinstance(s.text, (list, tuple)):
        return ("std", tuple(s.__key__), tuple(s.text), "")
    if isinstance(s, TextSample):
        return ("one", (s.__key__,), (s.text,), "")
    return ("?", repr(s)[:300])


class TEModel:
    """One worker's view of the transformations after the raw samples."""

    def __init__(self, spec, w: int, nw: int, drop: bool):
        self.spec, self.w, self.nw, self.drop = spec, w, max(nw, 1), drop
        #: The number of batches delivered by the worker, in all epochs
        self.delivered = 0
        self.reset()

    def reset(self):
        self.count = {}

    def index(self, what):
        i = self.count.get(what, 0)
        self.count[what] = i + 1
        return i * self.nw + self.w

    def encode(self, it):
        k = self.spec["encode"]
        for key, t in it:
            i = self.index("encode")
            if k == "none":
                yield key, t
            elif k == "skip":
                if hv(t) % 4:
                    yield key, t + "e"
            elif k == "err":
                if hv(t) % 5:
                    yield key, t + "e"
            elif k == "tag":
                yield key, t + "e"
            elif k == "idx":
                yield key, t + f"i{i}"
            elif k == "bidx":
                yield key, t + f"b{self.delivered * self.nw + self.w}"
            elif k == "gen":
                for j in range(hv(t) % 3):
                    yield key, t + f"g{j}"

    def pack(self, it):
        sp = self.spec["pack"]

        def packs(buf):
            for p in select(buf, sp["kind"], lambda s: s[1]):
                body = "(" + "+".join(s[1] for s in p) + ")"
                if sp["kind"] == "gen":
                    for j in range(hv([s[1] for s in p]) % 3):
                        yield p[0][0], f"{j}{body}"
                else:
                    yield p[0][0], body

        buf = []
        for s in it:
            buf.append(s)
            if len(buf) == sp["size"]:
                yield from packs(buf)
                buf = []
        if buf:
            yield from packs(buf)

    def batch(self, it):
        size = self.spec["size"]
        kind = self.spec["batch"]
        g = self.spec["group"]
        buckets: Dict[Any, list] = {}

        def full(b):
            return (kind, tuple(s[0] for s in b), tuple(s[1] for s in b), "")

        if size is None and not g:
            for s in it:
                yield ("one", (s[0],), (s[1],), "")
            return
        for s in it:
            k = hv(s[1]) % g["p"] if g else 0
            n = gsize(s[1], g["p"]) if g and g["sized"] else size
            b = buckets.setdefault(k, [])
            b.append(s)
            if len(b) == n:
                buckets[k] = []
                yield full(b)
        if not self.drop:
            for b in buckets.values():
                if b:
                    yield full(b)

    def eb(self, it):
        k = self.spec["eb"]
        for b in it:
            i = self.index("eb")
            if k == "none":
                yield b
            elif k == "skip":
                if hv(list(b[2])) % 4:
                    yield b[:3] + (b[3] + "E",)
            elif k == "err":
                if hv(list(b[2])) % 5:
                    yield b[:3] + (b[3] + "E",)
            elif k == "tag":
                yield b[:3] + (b[3] + "E",)
            elif k == "idx":
                yield b[:3] + (b[3] + f"I{i}",)
            elif k == "bidx":
                yield b[:3] + (b[3] + f"B{self.delivered * self.nw + self.w}",)
            elif k == "gen":
                for j in range(hv(list(b[2])) % 3):
                    yield b[:3] + (b[3] + f"G{j}",)

    def run(self, raw: Iterator) -> Iterator[tuple]:
        it = self.encode(raw)
        if self.spec["pack"]:
            it = self.pack(it)
        for b in self.eb(self.batch(it)):
            self.delivered += 1
            yield b


class Out(Exception):
    pass


def cut(raw: List[tuple]):
    """Iterates the raw samples, then fails instead of ending."""
    yield from raw
    raise Out()


def prefix(model: TEModel, raw: List[tuple]) -> List[tuple]:
    """What an endless stream starting with these raw samples yields without further samples."""
    res = []
    try:
        for b in model.run(cut(raw)):
            res.append(b)
    except Out:
        pass
    return res


# ---------------------------------------------------------------------------- raw samples


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        yield


def factories(path, split, training, wc, **kw):
    return load_dataset(path).get_datasets(training=training, split_part=split, worker_config=wc, **kw)


def raw_train(path, split, wc, *, shuffle=None, max_samples=None, multiplier=1):
    """The raw samples of a training pipeline, put together without the task encoder."""
    sets = factories(path, split, True, wc, max_samples_per_sequence=max_samples,
                     shuffle_over_epochs_multiplier=multiplier)
    if len(sets) == 1:
        ds = sets[0][0].build()
    else:
        g, off, built = max(wc.num_workers, 1) * wc.world_size, 0, []
        for f, w in sets:
            built.append((f.build(worker_rotation_offset=off % g), w))
            off += len(f)
        ds = BlendDataset(*built, worker_config=wc)
    if shuffle is not None and shuffle > 1:
        ds = ShuffleBufferDataset(ds, size=shuffle, worker_config=wc)
    return ds


def raw_val(path, split, wc):
    sets = factories(path, split, False, wc)
    if len(sets) == 1:
        return sets[0][0].build()
    return ConcatDataset(*[f.build() for f, _ in sets], worker_config=wc)


def kt(s) -> Tuple[str, str]:
    return (s.__key__, s.text)
