"""Webdatasets in a scratch folder: written without the code under test, plus oracles."""
from __future__ import annotations

import contextlib
import hashlib
import io
import json
import re
import shutil
import struct
import tarfile
import tempfile
from pathlib import Path
from typing import Any, Dict, List, Optional, Tuple

import yaml

from megatron.energon.epathlib import EPath
from megatron.energon.flavors.crude import CrudeWebdataset
from megatron.energon.flavors.text import TextSample
from megatron.energon.flavors.webdataset import StandardWebdatasetFactory

from vp.lib import as_worker, force_inactive


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="wds-")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def blob(*key: Any, size: int) -> bytes:
    """Deterministic content."""
    res = b""
    i = 0
    while len(res) < size:
        res += hashlib.sha256(repr((key, i)).encode()).digest()
        i += 1
    return res[:size]


# ---------------------------------------------------------------------------- tar files


def add(tar: tarfile.TarFile, name: str, data: bytes, type_=tarfile.REGTYPE) -> None:
    ti = tarfile.TarInfo(name)
    ti.type = type_
    if type_ == tarfile.REGTYPE:
        ti.size = len(data)
        tar.addfile(ti, io.BytesIO(data))
    else:
        if type_ == tarfile.SYMTYPE:
            ti.linkname = "x"
        tar.addfile(ti)


def write_tar(path: Path, members: List[Tuple], format=tarfile.GNU_FORMAT) -> List[int]:
    """Writes (name, bytes) or (name, bytes, type) members. Returns the offsets of the members and the end."""
    path.parent.mkdir(parents=True, exist_ok=True)
    offsets = []
    with tarfile.open(path, "w", format=format) as tar:
        for m in members:
            offsets.append(tar.offset)
            add(tar, *m)
        offsets.append(tar.offset)
    return offsets


def write_index(path: Path, offsets: List[int]) -> None:
    path.with_suffix(".tar.idx").write_bytes(b"".join(struct.pack("Q", o) for o in offsets))


def classify(name: str) -> Optional[Tuple[str, str]]:
    """(sample key, extension) of a tar member, None if it is not part of a sample.

    Oracle for the naming rules: the extension starts at the first dot of the last path component;
    names with a component like __x__ are meta files.
    """
    comps = name.split("/")
    if len(comps[0]) >= 4 and comps[0].startswith("__") and comps[0].endswith("__"):
        return None
    last = comps[-1]
    if "." not in last:
        return None
    i = last.index(".")
    if i == 0:
        return None
    return "/".join(comps[:-1] + [last[:i]]), last[i + 1:]


def samples_of(members: List[Tuple]) -> List[Tuple[str, Dict[str, bytes], int]]:
    """The samples (key, parts, index of the first member) of the members, in order."""
    res: List[Tuple[str, Dict[str, bytes], int]] = []
    for i, m in enumerate(members):
        if len(m) > 2 and m[2] != tarfile.REGTYPE:
            continue
        c = classify(m[0])
        if c is None:
            continue
        if not res or res[-1][0] != c[0]:
            res.append((c[0], {}, i))
        res[-1][1][c[1]] = m[1]
    return res


def index_of(members: List[Tuple], offsets: List[int]) -> List[int]:
    return [offsets[i] for _, _, i in samples_of(members)] + [offsets[-1]]


# ---------------------------------------------------------------------------- datasets


def write_dataset(root: Path, shards: Dict[str, List[Tuple]], *, splits: Optional[Dict[str, List[str]]] = None,
                  exclude: List[str] = (), dataset: Any = None, format=tarfile.GNU_FORMAT,
                  split_config: str = "split.yaml") -> None:
    """Writes tar, index and meta files; shards maps the names to members."""
    counts = {}
    for name, members in shards.items():
        offsets = write_tar(root / name, members, format)
        idx = index_of(members, offsets)
        write_index(root / name, idx)
        counts[name] = len(idx) - 1
    nv = root / ".nv-meta"
    nv.mkdir(parents=True, exist_ok=True)
    (nv / ".info.yaml").write_text(yaml.safe_dump({"shard_counts": counts}, sort_keys=False))
    (nv / split_config).write_text(yaml.safe_dump(
        {"exclude": list(exclude), "split_parts": splits or {"train": list(shards)}}, sort_keys=False))
    (nv / "dataset.yaml").write_text(yaml.safe_dump(dataset or TEXT, sort_keys=False))


TEXT = {"__module__": "megatron.energon", "__class__": "StandardWebdatasetFactory",
        "sample_type": {"__module__": "megatron.energon", "__class__": "TextSample"},
        "field_map": {"text": "txt"}}
CRUDE = {"__module__": "megatron.energon", "__class__": "CrudeWebdataset"}


def simple_shards(counts: List[int], prefix: str = "s", base: int = 0, dir: str = "") -> Dict[str, List[Tuple]]:
    """Shards with one txt part per sample; keys are numbered over all shards."""
    res, k = {}, base
    for i, n in enumerate(counts):
        members = []
        for _ in range(n):
            members.append((f"{prefix}{k:04d}.txt", f"{prefix}{k:04d}".encode()))
            k += 1
        res[f"{dir}shard_{i}.tar"] = members
    return res


def crude(root: Path, wc, **kw) -> CrudeWebdataset:
    kw.setdefault("split_part", "train")
    kw.setdefault("training", False)
    kw.setdefault("auto_decode", False)
    return CrudeWebdataset(EPath(str(root)), worker_config=wc, **kw)


def text(root: Path, wc, **kw) -> StandardWebdatasetFactory:
    kw.setdefault("split_part", "train")
    kw.setdefault("training", False)
    return StandardWebdatasetFactory(EPath(str(root)), worker_config=wc, sample_type=TextSample,
                                     field_map={"text": "txt"}, **kw)


def read(ds, wc, w: int = 0, n: Optional[int] = None, key=lambda s: s) -> list:
    """The first n (or all) samples of a dataset as worker w."""
    res = []
    with as_worker(w, wc.num_workers):
        it = iter(ds)
        while n is None or len(res) < n:
            wc.worker_activate(len(res))
            try:
                s = next(it)
            except StopIteration:
                break
            except BaseException:
                force_inactive()
                raise
            finally:
                wc.worker_deactivate()
            res.append(key(s))
        if hasattr(it, "close"):
            it.close()
    return res


def key_of(s) -> str:
    return s["__key__"] if isinstance(s, dict) else s.__key__


def layouts(g: int) -> List[Tuple[int, int]]:
    """(world size, workers per rank) with g global workers; includes 0 workers."""
    res = [(g // n, n) for n in range(1, g + 1) if g % n == 0]
    return res + [(g, 0)]
