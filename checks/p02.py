"""P02: trading ranks against workers per rank leaves the global batches unchanged."""
import warnings
from collections import Counter

from hypothesis import strategies as st

from megatron.energon import get_loader, get_savable_loader, get_train_dataset, get_val_dataset
from megatron.energon.wrappers import BlendDataset, ShuffleBufferDataset

from vp import pipes, wds
from vp.harness import Check, Sub, check, eq
from vp.lib import Src, Stream, build, wcfg
from vp.loaders import forked

warnings.simplefilter("ignore")


@st.composite
def common(draw, gs=(2, 3, 4, 6, 8)):
    g = draw(st.sampled_from(gs))
    sets = draw(pipes.data_specs(max_n=draw(st.sampled_from([3, 7, 12]))))
    return {"g": g, "sets": sets, "te": draw(pipes.te_specs(idx=False)),
            "split": draw(st.sampled_from(["train", "train", "val"])),
            "shuffle": draw(st.sampled_from([None, None, 2, 4, 10])),
            "max_samples": draw(st.sampled_from([None, None, 1, 2, 5])), "mult": draw(st.sampled_from([1, 1, 2, -1])),
            "drop": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)), "train": draw(st.integers(0, 3)) > 0,
            "n": draw(st.integers(3, 14)), "pick": draw(st.integers(0, 2)),
            "lay": draw(st.permutations(range(len(wds.layouts(g)))))[:3]}


def make(path, case, wc):
    te = case["te"]
    kw = dict(split_part=case["split"], worker_config=wc, batch_size=pipes.batch_size(te),
              batch_drop_last=case["drop"], packing_buffer_size=te["pack"]["size"] if te["pack"] else None,
              task_encoder=pipes.make_te(te))
    if case["train"]:
        return get_train_dataset(path, shuffle_buffer_size=case["shuffle"], max_samples_per_sequence=case["max_samples"],
                                 shuffle_over_epochs_multiplier=case["mult"], **kw)
    return get_val_dataset(path, **kw)


def raw(path, case, wc):
    if case["train"]:
        return pipes.raw_train(path, case["split"], wc, shuffle=case["shuffle"], max_samples=case["max_samples"],
                               multiplier=case["mult"])
    return pipes.raw_val(path, case["split"], wc)


def enough(case):
    return sum(map(len, pipes.truth(case["sets"], case["split"]))) >= case["g"]


def available(path, case, wc, w, samples=0):
    """How many batches a worker makes of a fixed number of samples (so that reading them ends)."""
    samples = Stream(raw(path, case, wc), wc, w, keep=pipes.kt).take(samples or 4 * case["n"])
    n = len(pipes.prefix(pipes.TEModel(case["te"], w, wc.num_workers, case["drop"]), samples))
    return min(n, case["n"])


def batches(path, case, wc, w, n, ds=None):
    """The first n batches of a worker."""
    ds = ds or make(path, case, wc)
    if not case["train"]:
        s = Stream(ds, wc, w, keep=pipes.obs)
        return [s.epoch(1000), s.epoch(1000)]
    return Stream(ds, wc, w, keep=pipes.obs, patience=10**9).take(n)


def streams_body(case, rec):
    if case["train"] and not enough(case):
        rec.label("fewer samples than workers")
        return
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        base, counts = None, {}
        gids = [g for g in range(case["g"]) if case["g"] <= 3 or (g + case["pick"]) % 3 == 0]
        for world, nw in [wds.layouts(case["g"])[i] for i in case["lay"]]:
            got = []
            for gid in gids:
                rank, w = divmod(gid, max(nw, 1))
                wc = wcfg(nw, rank, world, case["seed"])
                if base is None and case["train"]:
                    counts[gid] = available(path, case, wc, w)
                got.append(batches(path, case, wc, w, counts.get(gid)))
            if base is None:
                base = got
            for gid, a, b in zip(gids, base, got):
                eq(b, a, f"global worker {gid} with {world} ranks of {nw} workers")
        rec.nt(any(len(b) > 1 for b in base))
        rec.label("train", case["train"])
        rec.label("blend", len(case["sets"]) > 1)
        rec.label("shuffle buffer", case["train"] and bool(case["shuffle"]))


# ------------------------------------------------------------------ loaders


@st.composite
def loader_cases(draw):
    case = draw(common(gs=(2, 3, 4)))
    case.update(train=True, savable=draw(st.booleans()), steps=draw(st.integers(1, 3)), lay=case["lay"][:2])
    return case


def loader_body(case, rec):
    """Global batch t consists of the batches t*nw ... of every rank."""
    if not enough(case):
        return
    g = case["g"]
    lays = [wds.layouts(g)[i] for i in case["lay"]]
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        for rank in range(g):
            # every worker must be able to deliver that many batches
            wc = wcfg(1, rank, g, case["seed"])
            if available(path, case, wc, 0) < case["steps"]:
                rec.label("too few batches")
                return
        res = []
        for world, nw in lays:
            per_rank = max(nw, 1)
            out = [Counter() for _ in range(case["steps"])]
            order = [[] for _ in range(g)]
            for rank in range(world):
                def run():
                    ds = make(path, case, wcfg(nw, rank, world, case["seed"]))
                    it = iter((get_savable_loader if case["savable"] else get_loader)(ds))
                    return [pipes.obs(next(it)) for _ in range(case["steps"] * per_rank)]

                got = forked(run)
                for i, b in enumerate(got):
                    out[i // per_rank][b] += 1
                    order[rank * per_rank + i % per_rank].append(b)
            res.append((out, order))
        eq(res[1][1], res[0][1], f"batches of the global workers for {lays[1]} and {lays[0]} (ranks, workers)")
        eq(res[1][0], res[0][0], f"global batches for {lays[1]} and {lays[0]} (ranks, workers)")
        rec.nt()


# ------------------------------------------------------------------ wrappers with random numbers


@st.composite
def wrapper_cases(draw):
    g = draw(st.sampled_from([2, 3, 4, 6, 8, 9, 12]))
    counts = st.lists(st.integers(0, 5), min_size=g, max_size=g)
    n = draw(st.integers(1, 3))
    return {"g": g, "counts": [draw(counts) for _ in range(n)], "w": [draw(st.sampled_from([1, 2, 0.3])) for _ in range(n)],
            "shuffle": draw(st.sampled_from([None, 2, 5])), "batch": draw(st.sampled_from([None, 2])),
            "seed": draw(st.integers(0, 10**9)), "n": draw(st.integers(5, 20))}


def wrapper_body(case, rec):
    base = None
    for world, nw in wds.layouts(case["g"]):
        got = []
        for rank in range(world):
            for w in range(max(nw, 1)):
                gid = rank * max(nw, 1) + w
                if all(c[gid] == 0 for c in case["counts"]):
                    got.append(None)
                    continue
                wc = wcfg(nw, rank, world, case["seed"])

                def src(i):
                    # the items of the workers of this rank, numbered by global worker
                    first = rank * max(nw, 1)
                    s = Src(case["counts"][i][first:first + max(nw, 1)], i, worker_config=wc)
                    s.items = [[(first + k, j) for j in range(len(it))] for k, it in enumerate(s.items)]
                    return s

                ds = BlendDataset(*[(src(i), p) for i, p in enumerate(case["w"])], worker_config=wc)
                if case["shuffle"]:
                    ds = ShuffleBufferDataset(ds, size=case["shuffle"], worker_config=wc)
                got.append(Stream(ds, wc, w, keep=lambda s: s.val).take(case["n"]))
        base = base or got
        for gid, (a, b) in enumerate(zip(base, got)):
            eq(b, a, f"global worker {gid} with {world} ranks of {nw} workers")
    rec.nt(len(case["counts"]) > 1 or bool(case["shuffle"]))


CHECK = Check("P02", subs=[
    Sub("streams", common, streams_body, quick=110, shards=5, thorough=2000, budget=30,
        rule="a worker delivers several batches"),
    Sub("wrappers", wrapper_cases, wrapper_body, quick=300, shards=1, thorough=5000,
        rule="there is a blend or a shuffle buffer"),
    Sub("loader", loader_cases, loader_body, quick=20, shards=2, thorough=300, budget=25,
        rule="two different layouts deliver batches")])
