"""P01: every sample is assigned to exactly one worker, evenly."""
from pathlib import Path

from hypothesis import strategies as st

from megatron.energon import TaskEncoder
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.sharder import Sharder
from megatron.energon.flavors.webdataset.structs import ShardInfo

from vp import wds
from vp.harness import Check, Sub, check, eq
from vp.lib import wcfg

counts_st = st.lists(st.one_of(st.integers(1, 4), st.integers(1, 60), st.just(1)), min_size=1, max_size=10)


@st.composite
def cases(draw):
    g = draw(st.integers(1, 24))
    world, nw = draw(st.sampled_from(wds.layouts(g)))
    return {"sets": draw(st.lists(counts_st, min_size=1, max_size=3)), "world": world, "nw": nw,
            "max": draw(st.one_of(st.none(), st.integers(1, 20))), "cols": draw(st.integers(1, 2)),
            "empty": draw(st.sampled_from([0, 0, 0, 1]))}


def assigned(counts, world, nw, m, rot, cols):
    """Slices per global worker: [(shard index, offset, count)]."""
    shards = [tuple(ShardInfo(name=f"c{c}/{i}", path=EPath(f"/c{c}/{i}.tar"), offset=0, count=n)
                    for c in range(cols)) for i, n in enumerate(counts)]
    res = []
    for r in range(world):
        per_rank = Sharder.shard_workers(shards, wcfg(nw, rank=r, world=world), max_samples_per_sequence=m,
                                         rotation_offset=rot)
        eq(len(per_rank), max(nw, 1), "number of workers of the rank")
        for worker in per_rank:
            slices = []
            for sub in worker:
                eq(len(sub), cols, "columns of the slice")
                i = int(sub[0].name.split("/")[1])
                for c, s in enumerate(sub):
                    eq((s.name, str(s.path)), (f"c{c}/{i}", str(EPath(f"/c{c}/{i}.tar"))), "column of the slice")
                    eq((s.offset, s.count), (sub[0].offset, sub[0].count), "range in the other columns")
                slices.append((i, sub[0].offset, sub[0].count))
            res.append(slices)
    return res


def body(case, rec):
    world, nw, m = case["world"], case["nw"], case["max"]
    g = world * max(nw, 1)
    totals = [0] * g
    rot = 0
    for counts in case["sets"]:
        if case["empty"]:
            counts = counts[:1] + [0] + counts[1:] + [0]
        res = assigned(counts, world, nw, m, rot, case["cols"])
        flat = [(i, o) for sl in res for i, off, c in sl for o in range(off, off + c)]
        eq(flat, [(i, o) for i, n in enumerate(counts) for o in range(n)], "samples over all workers in order")
        per = [sum(c for _, _, c in sl) for sl in res]
        check(max(per) - min(per) <= 1, "samples per worker: %s", per)
        for sl in res:
            check(all(c > 0 for _, _, c in sl), "empty slice %s", sl)
            if m is not None:
                check(all(c <= 1.5 * m for _, _, c in sl), "slice longer than 1.5 * %s: %s", m, sl)
                # cut only where needed: the pieces of one shard in a worker are not tiny
                for i in {i for i, _, _ in sl}:
                    cs = [c for j, _, c in sl if j == i]
                    if len(cs) > 1:
                        check(max(cs) - min(cs) <= 1, "unequal slices %s of shard %s", cs, i)
                        check(sum(cs) > 1.5 * m, "needless cut %s with limit %s", cs, m)
            else:
                check(len({i for i, _, _ in sl}) == len(sl), "shard cut without a limit: %s", sl)
        totals = [a + b for a, b in zip(totals, per)]
        rot = (rot + sum(counts)) % g
        rec.label("fewer samples than workers", sum(counts) < g)
        rec.label("slices cut", m is not None and any(len(sl) > len({i for i, _, _ in sl}) for sl in res))
    check(max(totals) - min(totals) <= 1, "total samples per worker: %s", totals)
    rec.nt(g > 1 and sum(map(sum, case["sets"])) % g != 0)
    rec.label("several datasets", len(case["sets"]) > 1)


@st.composite
def large_cases(draw):
    """Shards as large as real ones: with thousands of samples, cut into hundreds of slices."""
    m = draw(st.one_of(st.integers(1, 9), st.integers(10, 2000)))
    g = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([63, 64, 96, 100, 127, 256, 300])))
    world, nw = draw(st.sampled_from(wds.layouts(g)))
    counts = draw(st.lists(st.integers(1, 400).flatmap(lambda k: st.integers(max(k * m - m // 2, 1), k * m + m // 2)),
                           min_size=1, max_size=3))
    return {"counts": counts, "world": world, "nw": nw,
            "max": m, "rot": draw(st.integers(0, g - 1))}


def large_body(case, rec):
    m, counts = case["max"], case["counts"]
    res = assigned(counts, case["world"], case["nw"], m, case["rot"], 1)
    at = (0, 0)
    for i, off, c in (s for sl in res for s in sl):
        if at[1] == counts[at[0]]:
            at = (at[0] + 1, 0)
        eq((i, off), at, "start (shard, offset) of the next slice over all workers")
        check(0 < c <= 1.5 * m, "slice of %s samples with limit %s", c, m)
        at = (i, off + c)
    eq(at, (len(counts) - 1, counts[-1]), "end of the last slice")
    per = [sum(c for _, _, c in sl) for sl in res]
    check(max(per) - min(per) <= 1, "samples per worker: %s", per)
    rec.nt(any(len(sl) > 50 for sl in res))
    rec.label("more than 50 workers", len(res) > 50)
    rec.label("more than 50 slices in a worker", any(len(sl) > 50 for sl in res))


@st.composite
def file_cases(draw):
    g = draw(st.integers(1, 6))
    world, nw = draw(st.sampled_from(wds.layouts(g)))
    sets = st.lists(st.integers(1, 7), min_size=1, max_size=4)
    return {"sets": draw(st.lists(sets, min_size=1, max_size=3)), "world": world, "nw": nw,
            "max": draw(st.one_of(st.none(), st.integers(1, 4)))}


class Recorder:
    """A dataset factory passed to the task encoder: records what it builds."""

    def __init__(self, factory):
        self.factory, self.built = factory, None

    def __len__(self):
        return len(self.factory)

    def build(self, *args, **kwargs):
        self.built = self.factory.build(*args, **kwargs)
        return self.built


def file_body(case, rec):
    world, nw = case["world"], case["nw"]
    g = world * max(nw, 1)
    with wds.scratch() as d:
        for k, counts in enumerate(case["sets"]):
            wds.write_dataset(d / f"d{k}", wds.simple_shards(counts))
        streams = [[] for _ in case["sets"]]
        for r in range(world):
            wc = wcfg(nw, rank=r, world=world)
            facs = [Recorder(wds.crude(d / f"d{k}", wc, max_samples_per_sequence=case["max"]))
                    for k in range(len(case["sets"]))]
            _Plain().build_train_datasets(
                datasets=[(f, 1.0) for f in facs], worker_config=wc, batch_size=None)
            for k, f in enumerate(facs):
                eq(len(f), sum(case["sets"][k]), "length of the dataset")
                for w in range(max(nw, 1)):
                    streams[k].append(wds.read(f.built, wc, w, key=lambda s: s["txt"].decode()))
        for k, counts in enumerate(case["sets"]):
            eq([x for s in streams[k] for x in s], [f"s{i:04d}" for i in range(sum(counts))],
               f"samples of dataset {k} over all workers")
            per = [len(s) for s in streams[k]]
            check(max(per) - min(per) <= 1, "samples of dataset %s per worker: %s", k, per)
        totals = [sum(len(s[i]) for s in streams) for i in range(g)]
        check(max(totals) - min(totals) <= 1, "total samples per worker: %s", totals)
    rec.nt(g > 1 and sum(map(sum, case["sets"])) % g != 0)
    rec.label("several datasets", len(case["sets"]) > 1)
    rec.label("some worker without samples", min(totals) == 0)


class _Plain(TaskEncoder):
    def build_cook_crude_sample(self, dataset, **kw):
        return dataset


CHECK = Check("P01", subs=[
    Sub("large", large_cases, large_body, quick=150, thorough=6000, shards=4, budget=25, tbudget=300,
        rule="a worker has more than 50 slices"),
    Sub("sharder", cases, body, quick=2000, shards=6, thorough=25000,
        rule="more than one global worker and a number of samples that is not a multiple of it"),
    Sub("files", file_cases, file_body, quick=150, shards=4, thorough=2000,
        rule="more than one global worker and a number of samples that is not a multiple of it"),
])
