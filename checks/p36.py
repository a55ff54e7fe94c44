"""P36: the memory, files and processes used do not grow with the length of a run."""
import gc
import multiprocessing
import os
import threading
import time
import tracemalloc
import warnings
import weakref
from pathlib import Path

from hypothesis import strategies as st

from megatron.energon import get_train_dataset, get_val_dataset
from megatron.energon.savable_loader import BasicDataLoader, SavableDataLoader
from megatron.energon.wrappers import GcDataset
from megatron.energon.wrappers import gc_dataset as gcmod

from vp import gen, pipes, wds
from vp.harness import Check, Sub, check, eq
from vp.lib import Src, Starved, Stream, as_worker, build, force_inactive, kinds_of, restore_one, vs, wcfg
from vp.loaders import Gated, forked

warnings.simplefilter("ignore")


def used():
    """The memory of Python objects in use."""
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


class Use:
    """The memory in use at the beginning and at the end of a long run."""

    def __init__(self):
        self.points = []

    def __enter__(self):
        tracemalloc.start(1)
        return self

    def __exit__(self, *exc):
        tracemalloc.stop()

    def note(self, done, value=None):
        self.points.append((done, used() if value is None else value))

    def decide(self, what):
        """The last tenth must not need much more than the first quarter (without the first tenth)."""
        total = self.points[-1][0]
        early = [v for d, v in self.points if total * 0.1 <= d <= total * 0.25]
        late = [v for d, v in self.points if d >= total * 0.9]
        if not early or not late:
            return False
        limit = max(early) * 1.5 + 16000
        check(min(late) <= limit, f"{what}: {min(late)} bytes are in use after {total} samples, {max(early)} after the first quarter: {self.points}")
        return True


# --------------------------------------------------------------------- wrappers


def forgetful(spec):
    """Without the user functions which keep what they get."""
    spec = {k: "pure" if (k, v) == ("kind", "keep") else v for k, v in spec.items()}
    if "in" in spec:
        spec["in"] = forgetful(spec["in"])
    if "ins" in spec:
        spec["ins"] = [forgetful(s) for s in spec["ins"]]
    return spec


@st.composite
def wrapper_cases(draw):
    nw = draw(st.integers(0, 2))
    restorable = draw(st.booleans())
    spec, kind = gen.pipe(draw, nw, draw(st.sampled_from([2, 1, 2, 3, 3])), [0], draw(st.sampled_from(["I", "I", None])), restorable)
    return {"nw": nw, "spec": forgetful(spec), "w": draw(st.integers(0, max(nw, 1) - 1)), "seed": draw(st.integers(0, 5)),
            "save": draw(st.sampled_from([0, 1, 1, 3])), "restore": restorable, "more": draw(st.sampled_from([0, 0, 0, 1, 3]))}


def wrapper_body(case, rec):
    wc = wcfg(case["nw"], seed_offset=case["seed"])
    with pipes.quiet(), Use() as use:
        ds = build(case["spec"], wc)
        extra = build(case["spec"], wc)
        s = Stream(ds, wc, case["w"], keep=lambda x: getattr(x, "__restore_key__", None), patience=20)
        sources = [d for d in walk(ds) if isinstance(d, Src)]
        n, end = 0, time.process_time() + 0.35 + 0.4 * case["more"]
        limit = 1200 * (1 + case["more"])
        while n < limit and time.process_time() < end and not s.dead:
            try:
                got = s.take(20)
            except RuntimeError as e:
                if "Pre packer did not yield" in str(e):
                    return
                raise
            n += len(got)
            if case["save"] and n // 20 % case["save"] == 0:
                s.save()
            if case["restore"] and got and got[-1] is not None and extra.can_restore_sample():
                try:
                    restore_one(extra, wc, got[-1], case["w"])
                except Exception:
                    force_inactive()
            got = None
            use.note(n)
        reads = sum(d.pulled for d in sources)
        del s, ds
        rec.nt(n >= 300 and use.decide("pipeline"))
        rec.label("many samples", n > 1000)
        rec.label("many reads", reads > 4000)
        rec.label("samples restored", case["restore"])
        for k in kinds_of(case["spec"]):
            rec.label(k.split(":")[0])


def walk(ds):
    """A dataset and everything below."""
    seen, todo = set(), [ds]
    while todo:
        d = todo.pop()
        if id(d) in seen:
            continue
        seen.add(id(d))
        yield d
        todo += list(getattr(d, "datasets", None) or [])
        if getattr(d, "dataset", None) is not None:
            todo.append(d.dataset)


# --------------------------------------------------------------------- files


@st.composite
def file_cases(draw):
    train = draw(st.booleans())
    return {"train": train, "nw": draw(st.integers(0, 2)), "sets": draw(pipes.data_specs(max_n=5)),
            "te": draw(pipes.te_specs(err=False)), "seed": draw(st.integers(0, 5)), "mult": draw(st.sampled_from([1, 2, -1])),
            "epoch": draw(st.sampled_from([0, 0, 4])), "parallel": draw(st.integers(1, 4)), "max_samples": draw(st.sampled_from([None, 1, 2])),
            "shuffle": draw(st.sampled_from([None, 3])), "save": draw(st.booleans()), "restore": draw(st.booleans())}


def open_files(root):
    res = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if p.startswith(str(root)):
            res.append(os.path.basename(p))
    return res


def listing(root):
    return sorted((str(p), p.stat().st_size, p.stat().st_mtime_ns) for p in Path(root).rglob("*"))


def file_body(case, rec):
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        before = listing(root)
        wc = wcfg(case["nw"], seed_offset=case["seed"])
        kw = dict(worker_config=wc, batch_size=pipes.batch_size(case["te"]),
                  packing_buffer_size=case["te"]["pack"]["size"] if case["te"]["pack"] else None)

        def make():
            te = pipes.make_te(case["te"])
            if not case["train"]:
                return get_val_dataset(path, task_encoder=te, **kw)
            return get_train_dataset(path, task_encoder=te, shuffle_buffer_size=case["shuffle"], max_samples_per_sequence=case["max_samples"],
                                     virtual_epoch_length=case["epoch"], shuffle_over_epochs_multiplier=case["mult"],
                                     parallel_shard_iters=case["parallel"], **kw)

        counts = pipes.truth(case["sets"], "train" if case["train"] else "val")
        if sum(map(len, counts)) < max(case["nw"], 1):
            return
        most = len(case["sets"]) * (case["parallel"] if case["train"] else 1)
        with Use() as use:
            ds, other = make(), make()
            s = Stream(ds, wc, max(case["nw"], 1) - 1, keep=lambda b: getattr(b, "__restore_key__", None), patience=30)
            n, end = 0, time.process_time() + 1.0
            while n < 350 and time.process_time() < end and not s.dead:
                got = s.take(1 if n < 40 else 15)
                n += len(got)
                files = open_files(root)
                tars = [f for f in files if f.endswith(".tar")]
                check(len(tars) <= most and len(files) <= 2 * most, f"open files after {n} batches: {files}, at most {most} shards are read at once")
                if case["save"]:
                    s.save()
                if case["restore"] and got and got[-1] is not None and other.can_restore_sample():
                    restore_one(other, wc, got[-1], max(case["nw"], 1) - 1, keep=lambda b: None)
                    more = open_files(root)
                    check(len(more) <= 2 * most + 2, f"open files after restoring a sample: {more}")
                got = None
                if n > 30:
                    use.note(n)
            s.close()
            del s, ds, other
            gc.collect()
            eq(open_files(root), [], "open files after the pipeline is gone")
            rec.nt(n > 150 and use.decide("pipeline"))
        eq(listing(root), before, "the files of the dataset after reading")
    rec.label("train" if case["train"] else "val")
    rec.label("restored", case["restore"])
    rec.label("several datasets", len(case["sets"]) > 1)


# --------------------------------------------------------------------- garbage


@st.composite
def gc_cases(draw):
    return {"n": draw(st.integers(0, 30)), "every": draw(st.integers(1, 7)), "freeze": draw(st.booleans()),
            "end": draw(st.sampled_from(["end", "close", "drop", "error"])), "at": draw(st.integers(0, 30)),
            "worker": draw(st.booleans()), "init": draw(st.integers(0, 4)) > 0, "again": draw(st.booleans())}


class Knot:
    """An object referring to itself."""

    def __init__(self):
        self.me = self


def gc_body(case, rec):
    wc = wcfg(1 if case["worker"] else 0)
    refs = []

    class Knots(Src):
        def __iter__(self):
            for s in super().__iter__():
                if case["end"] == "error" and len(refs) == case["at"]:
                    raise ValueError("broken")
                s.val = Knot()
                refs.append(weakref.ref(s.val))
                yield s
                del s

    inner = Knots([case["n"]], 0, worker_config=wc)
    ds = GcDataset(inner, every_n_iter=case["every"], freeze=case["freeze"], worker_config=wc)
    eq(len(ds), case["n"], "length")
    was, before = gc.isenabled(), gcmod._frozen_cuda_tensors_initialized
    gc.disable()
    gc.unfreeze()
    # the interpreter keeps a few objects there itself
    base = 2000
    try:
        gcmod._frozen_cuda_tensors_initialized = case["init"]
        if not case["freeze"]:
            # collecting is faster without all the older objects
            gc.freeze()
            base = gc.get_freeze_count()
        with as_worker(0 if case["worker"] else None, 1 if case["worker"] else 0):
            for _ in range(1 + case["again"]):
                inner.off = [0]
                refs.clear()
                it = iter(ds)
                n = 0
                try:
                    while True:
                        if case["end"] in ("close", "drop") and n == case["at"]:
                            break
                        s = next(it)
                        n += 1
                        del s
                        alive = sum(r() is not None for r in refs)
                        check(alive <= case["every"] + 1, f"{alive} of {n} samples are still alive, garbage is to be collected every {case['every']}")
                        check(gc.get_freeze_count() > base if case["freeze"] else gc.get_freeze_count() <= base, f"{gc.get_freeze_count()} objects are frozen, at first {base}")
                except StopIteration:
                    eq(n, case["n"], "number of samples")
                    check(case["init"] or not case["worker"], "no error without initialisation")
                except ValueError:
                    eq(n, case["at"], "number of samples before the error")
                except gcmod.GcFreezeError:
                    check(case["worker"] and not case["init"], "refused")
                    eq(n, 0, "number of samples before the error")
                if case["end"] == "close":
                    it.close()
                del it
                check(gc.get_freeze_count() <= base, f"{gc.get_freeze_count()} objects are still frozen afterwards, at first {base}")
    finally:
        gcmod._frozen_cuda_tensors_initialized = before
        gc.unfreeze()
        if was:
            gc.enable()
    rec.nt(case["n"] > case["every"])
    rec.label("end " + case["end"])
    rec.label("frozen", case["freeze"])


# --------------------------------------------------------------------- loaders


class Probe(Gated):
    """Notes the memory in use at every 25th sample or epoch."""

    def __init__(self, ds, shared):
        super().__init__(ds, None)
        self.shared = shared
        self.n = 0

    def note(self, w):
        self.n += 1
        mine = self.shared[w]
        if self.n % 25 == 0 and mine[0] < len(mine) // 2 - 1:
            mine[0] += 1
            mine[2 * mine[0]:2 * mine[0] + 2] = [self.n, used()]

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        self.note(w)
        for s in self.ds:
            yield s
            self.note(w)


@st.composite
def loader_cases(draw):
    nw = draw(st.sampled_from([0, 1, 2, 2]))
    kind = draw(st.sampled_from(["I", "I", "E", "F", "few", "few"]))
    if kind == "few":
        # short passes, some workers may have nothing
        n = draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=max(nw, 1), max_size=max(nw, 1)).filter(any))
        spec = {"op": "src", "id": 0, "n": n}
    else:
        spec, _ = gen.pipe(draw, nw, draw(st.integers(0, 2)), [0], "I" if kind == "E" else kind)
    if kind == "E":
        spec = {"op": "epochize", "n": draw(st.integers(nw + 1, 200)), "in": spec}
    if kind == "F":
        spec = {"op": "repeat", "n": draw(st.integers(1, 40)), "in": spec}
    return {"nw": nw, "spec": forgetful(spec), "savable": draw(st.integers(0, 2)) > 0, "every_n": draw(st.sampled_from([None, 7])),
            "save": draw(st.integers(0, 2)), "stop": draw(st.sampled_from(["mid", "mid", "end"])), "kind": kind,
            "leave": nw == 0 or draw(st.integers(0, 9)) == 0}


def loader_run(case):
    nw = case["nw"]
    base_threads = threading.active_count()
    tracemalloc.start(1)
    wc = wcfg(nw)
    shared = [multiprocessing.RawArray("l", 4000) for _ in range(max(nw, 1))]
    ds = Probe(build(case["spec"], wc), shared)

    def make():
        if case["savable"]:
            return SavableDataLoader(ds, checkpoint_every_sec=0, checkpoint_every_min_n_samples=case["every_n"])
        return BasicDataLoader(ds)

    def wait():
        gc.collect()
        end = time.monotonic() + 20
        while time.monotonic() < end and (multiprocessing.active_children() or threading.active_count() > base_threads):
            time.sleep(0.02)
            gc.collect()
        return len(multiprocessing.active_children()), threading.active_count() - base_threads, len(os.listdir("/proc/self/fd"))

    loader = make()
    main, fds, n, empty, children, steps = [], [], 0, 0, 0, 0
    end = time.monotonic() + 4
    it = iter(loader)
    while steps < 600 and time.monotonic() < end and empty < 3:
        steps += 1
        try:
            next(it)
            n += 1
            empty = 0
        except StopIteration:
            empty += 1
            it = iter(loader)
        except RuntimeError as e:
            if "Pre packer did not yield" in str(e):
                return None
            raise
        if steps % 25 == 0:
            main.append((steps, used()))
            fds.append(len(os.listdir("/proc/self/fd")))
            children = max(children, len(multiprocessing.active_children()))
            if case["savable"] and case["save"] and steps // 25 % case["save"] == 0:
                loader.save_state_rank()
    if case["stop"] == "end" and case["kind"] != "I":
        for _ in it:
            pass
    points = {"main process": main}
    if nw:
        for w, mine in enumerate(shared):
            points[f"worker {w}"] = [tuple(mine[2 * i:2 * i + 2]) for i in range(1, mine[0] + 1)]
    left = []
    if case["leave"]:
        del it, loader
        left.append(wait())
        for _ in range(0 if nw else 2):
            loader = make()
            for _, _x in zip(range(2), loader):
                pass
            del loader
            left.append(wait())
    else:
        KEEP.append(it)
    return points, fds, n, children, left


#: Ending a loader takes seconds, the forked process ends without
KEEP = []


def loader_body(case, rec):
    with pipes.quiet():
        got = forked(lambda: loader_run(case), wall=90)
    if got is None:
        return
    points, fds, n, children, left = got
    check(children <= case["nw"], f"{children} worker processes for {case['nw']} workers")
    eq([x[:2] for x in left], [(0, 0)] * len(left), "worker processes and threads left after each loader is gone")
    check(not left or left[-1][2] <= left[0][2], f"open files after each loader is gone: {[x[2] for x in left]}")
    decided = False
    for who, pts in points.items():
        use = Use()
        use.points = [tuple(p) for p in pts]
        decided |= len(pts) >= 10 and use.decide(who)
    if len(fds) > 6:
        check(max(fds[-3:]) <= max(fds[:4]) + 6, f"open files over the run: {fds}")
    rec.nt(decided and n > 300)
    rec.label("savable" if case["savable"] else "basic")
    rec.label("worker processes", case["nw"] > 0)
    rec.label("epochs " + case["kind"])
    rec.label("left", case["leave"])
    rec.label("worker without samples", case["kind"] == "few" and not all(case["spec"]["n"]))


CHECK = Check("P36", subs=[
    Sub("wrappers", wrapper_cases, wrapper_body, quick=160, shards=2, thorough=4000, budget=22.0, hang_cpu=60,
        rule="at least 300 samples are read, memory is compared"),
    Sub("files", file_cases, file_body, quick=60, shards=2, thorough=1500, budget=22.0, hang_cpu=60,
        rule="at least 150 batches are read, memory is compared"),
    Sub("gc", gc_cases, gc_body, quick=60, shards=1, thorough=2000, budget=20.0, rule="garbage is collected within the run"),
    Sub("loader", loader_cases, loader_body, quick=16, shards=3, thorough=400, budget=25.0,
        rule="at least 300 batches are read, memory is compared"),
])
