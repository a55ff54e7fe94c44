"""Shared by the demos: small webdatasets in a scratch folder, and workers."""
import atexit, contextlib, io, shutil, struct, tarfile, tempfile, warnings
from pathlib import Path

warnings.filterwarnings("ignore")
ROOT = Path(tempfile.mkdtemp(prefix="demo-"))
atexit.register(shutil.rmtree, ROOT, True)


def fail(msg):
    print("BROKEN:", msg)
    raise SystemExit(1)


def expect(cond, msg):
    if not cond:
        fail(msg)


def write_tar(path, members):
    path.parent.mkdir(parents=True, exist_ok=True)
    offs, last = [], None
    with tarfile.open(path, "w", format=tarfile.GNU_FORMAT) as tar:
        for name, data in members:
            key = name.split("/")[-1].split(".")[0]
            if key != last:
                offs.append(tar.offset)
                last = key
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            tar.addfile(ti, io.BytesIO(data))
        offs.append(tar.offset)
    path.with_suffix(".tar.idx").write_bytes(b"".join(struct.pack("Q", o) for o in offs))
    return len(offs) - 1


def dataset(name, counts, splits=None, dataset=None, parts=None):
    """A text webdataset; the texts are unique. Returns the path."""
    import yaml
    root, k, sc = ROOT / name, 0, {}
    for i, n in enumerate(counts):
        members = []
        for _ in range(n):
            members.append((f"{k:05d}.txt", f"{name}{k:05d}".encode()))
            k += 1
        sc[f"shard_{i}.tar"] = write_tar(root / f"shard_{i}.tar", members)
    nv = root / ".nv-meta"
    nv.mkdir()
    (nv / ".info.yaml").write_text(yaml.safe_dump({"shard_counts": sc}, sort_keys=False))
    (nv / "split.yaml").write_text(yaml.safe_dump({"exclude": [], "split_parts": splits or {"train": list(sc), "val": list(sc)}}))
    (nv / "dataset.yaml").write_text(yaml.safe_dump(dataset or {
        "__module__": "megatron.energon", "__class__": "StandardWebdatasetFactory",
        "sample_type": {"__module__": "megatron.energon", "__class__": "TextSample"},
        "field_map": {"text": "txt"}}))
    return str(root)


def config(rank=0, world=1, workers=0, **kw):
    from megatron.energon import WorkerConfig
    return WorkerConfig(rank=rank, world_size=world, num_workers=workers, **kw)


def texts(samples):
    return [t for s in samples for t in (s.text if isinstance(s.text, list) else [s.text])]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def src(path, wc, split="val", training=False, **kw):
    """The raw samples of a dataset."""
    from megatron.energon.metadataset import load_dataset
    return load_dataset(path).get_datasets(training=training, split_part=split, worker_config=wc, **kw)[0][0].build()


@contextlib.contextmanager
def worker(w, n, seed=0):
    """Runs the block as if in worker process w of n."""
    import torch.utils.data._utils.worker as tw
    old = tw._worker_info
    tw._worker_info = tw.WorkerInfo(id=w, num_workers=n, seed=seed, dataset=None)
    try:
        yield
    finally:
        tw._worker_info = old


class Run:
    """Iterates a dataset like a loader without workers, over epochs."""
    def __init__(self, ds, wc):
        self.ds, self.wc, self.it, self.i = ds, wc, None, 0

    def next(self):
        """The next sample, None at the end of an epoch."""
        self.wc.worker_activate(self.i)
        try:
            if self.it is None:
                self.it = iter(self.ds)
            s = next(self.it)
            self.i += 1
            return s
        except StopIteration:
            self.it = None
            return None
        finally:
            self.wc.worker_deactivate()

    def epoch(self):
        res = []
        while (s := self.next()) is not None:
            res.append(s)
        return res

    def save(self):
        return self.ds.merge_states([self.ds.save_state()])
