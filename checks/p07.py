"""P07: runs are reproducible from the seed."""
import itertools
import random
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from megatron.energon import get_loader, get_savable_loader, get_train_dataset

from vp import gen, pipes, wds
from vp.harness import Check, Sub, check, eq
from vp.lib import Stream, as_worker, build, ops_of, wcfg
from vp.loaders import forked, seed_all
from vp.other import elsewhere

from checks.p02 import available, common, enough, make

warnings.simplefilter("ignore")


# ------------------------------------------------------------------ same seed, same stream


@st.composite
def same_cases(draw):
    case = draw(common())
    return {**case, "nw": draw(st.integers(0, 3)), "world": draw(st.integers(1, 2)), "w": draw(st.integers(0, 2)),
            "rank": draw(st.integers(0, 1)), "globals": draw(st.lists(st.integers(0, 2**31), min_size=2, max_size=2)),
            "slices": draw(st.lists(st.integers(1, 3), min_size=2, max_size=6)), "train": True,
            "other": draw(common()), "reorder": draw(st.booleans())}


def same_body(case, rec):
    nw, world = case["nw"], case["world"]
    w, rank = case["w"] % max(nw, 1), case["rank"] % world
    if not enough(dict(case, g=max(nw, 1) * world)):
        return
    with wds.scratch() as root, pipes.quiet():
        (root / "a").mkdir()
        (root / "b").mkdir()
        path = pipes.write(root / "a", case["sets"])
        other = pipes.write(root / "b", case["other"]["sets"])
        wc = wcfg(nw, rank, world, case["seed"])
        n = available(path, case, wc, w)
        seed_all(case["globals"][0])
        first = Stream(make(path, case, wc), wc, w, keep=pipes.obs, patience=10**9).take(n)
        # the second run: other global random state, other pipelines iterated in between
        seed_all(case["globals"][1])
        wc2 = wcfg(nw, rank, world, case["seed"])
        a = Stream(make(path, case, wc2), wc2, w, keep=pipes.obs, patience=10**9)
        ocase = dict(case["other"], train=True)
        b = None
        if enough(dict(ocase, g=max(nw, 1) * world)):
            # shares the worker configuration with the second run
            b = Stream(make(other, ocase, wc2), wc2, w, keep=pipes.obs, patience=10**9)
            left = available(other, ocase, wc2, w)
        second = []
        for k in itertools.cycle(case["slices"]):
            if len(second) >= n:
                break
            second += a.take(min(k, n - len(second)))
            random.random(), np.random.rand(), torch.rand(())
            if b is not None and left:
                left -= len(b.take(min(k, left)))
            if case["reorder"]:
                seed_all(len(second))
        eq(second, first, "batches of the second run")
        rec.nt(n > 3)
        rec.label("another pipeline in between", b is not None and n > 3)
        rec.label("workers", nw > 1)


# ------------------------------------------------------------------ wrappers


@st.composite
def wrapper_cases(draw):
    nw = draw(st.integers(0, 3))
    return {"spec": gen.pipe(draw, nw, draw(st.integers(1, 4)), [0])[0], "nw": nw,
            "w": draw(st.integers(0, max(nw, 1) - 1)), "seed": draw(st.integers(0, 10**9)),
            "globals": draw(st.lists(st.integers(0, 2**31), min_size=2, max_size=2)),
            "n": draw(st.integers(3, 25)), "step": draw(st.integers(1, 5))}


def wrapper_body(case, rec):
    try:
        wrapper_runs(case, rec)
    except RuntimeError as e:
        if "Pre packer did not yield" not in str(e):
            raise
        rec.label("packs nothing")


def wrapper_runs(case, rec):
    seed_all(case["globals"][0])
    wc = wcfg(case["nw"], seed_offset=case["seed"])
    first = Stream(build(case["spec"], wc), wc, case["w"]).take(case["n"])
    seed_all(case["globals"][1])
    wc = wcfg(case["nw"], seed_offset=case["seed"])
    a = Stream(build(case["spec"], wc), wc, case["w"])
    twin = Stream(build(case["spec"], wc), wc, case["w"])
    second = []
    while len(second) < len(first):
        got = a.take(min(case["step"], len(first) - len(second)))
        if not got:
            break
        second += got
        twin.take(case["step"] // 2 + 1)
        random.random(), np.random.rand(), torch.rand(())
    eq(second, first, "samples of the second run")
    ops = ops_of(case["spec"])
    rec.nt(len(first) > 3 and any(o in ops for o in ("blend", "shuffle", "map")))
    for o in ("blend", "shuffle", "mix"):
        rec.label(o, o in ops)


# ------------------------------------------------------------------ other seeds, other order


@st.composite
def differ_cases(draw):
    g = draw(st.sampled_from([1, 2, 3, 4]))
    return {"g": g, "lay": draw(st.integers(0, 10)), "per": draw(st.integers(13, 24)), "epochs": draw(st.integers(1, 2)),
            "seeds": draw(st.lists(st.integers(0, 10**6), min_size=2, max_size=3, unique=True)),
            "par": draw(st.sampled_from([1, 1, 2, 4])), "shards": draw(st.integers(1, 4))}


def differ_body(case, rec):
    """Different seeds and different global workers shuffle independently; each yields all its samples."""
    lays = wds.layouts(case["g"])
    world, nw = lays[case["lay"] % len(lays)]
    total = case["g"] * case["per"]
    k = case["shards"]
    counts = [total // k + (1 if i < total % k else 0) for i in range(k)]
    with wds.scratch() as root, pipes.quiet():
        shards = wds.simple_shards(counts)
        wds.write_dataset(root, shards)
        pos = {f"{name}/{m[0][:-4]}": i for i, (name, m) in enumerate((n, m) for n, ms in shards.items() for m in ms)}
        orders = {}
        for seed in case["seeds"]:
            for gid in range(case["g"]):
                rank, w = divmod(gid, max(nw, 1))
                wc = wcfg(nw, rank, world, seed)
                ds = wds.text(root, wc, training=True, max_samples_per_sequence=1,
                              parallel_shard_iters=case["par"]).build()
                s = Stream(ds, wc, w, keep=lambda s: pos[s.__key__])
                for e in range(case["epochs"]):
                    got = s.take(case["per"])
                    eq(sorted(got), list(range(gid * case["per"], (gid + 1) * case["per"])),
                       f"samples of global worker {gid}, seed {seed}, epoch {e}")
                    orders[seed, gid, e] = tuple(i - gid * case["per"] for i in got)
        seen = {}
        for k, o in orders.items():
            if o in seen:
                check(False, "(seed, global worker, epoch) %s and %s have the same order %s", seen[o], k, o)
            seen[o] = k
    rec.nt(len(orders) > 1)
    rec.label("several workers", case["g"] > 1)


@st.composite
def seed_cases(draw):
    return {"world": draw(st.integers(1, 24)), "nw": draw(st.integers(0, 3)),
            "seeds": draw(st.lists(st.one_of(st.integers(0, 30), st.integers(0, 2**33)), min_size=2, max_size=6, unique=True))}


def seed_body(case, rec):
    """Each global worker with each seed offset draws its own random numbers."""
    from megatron.energon.rng import WorkerRng

    nw, world = case["nw"], case["world"]
    seen = {}
    for seed in case["seeds"]:
        for rank in range(world):
            for w in range(max(nw, 1)):
                wc = wcfg(nw, rank, world, seed)
                if len(seen) >= 150:
                    break
                with as_worker(w, nw):
                    rng = WorkerRng(wc)
                    got = tuple(rng.randbelow(2**30) for _ in range(4))
                check(got not in seen, "seed offset %s, rank %s, worker %s draws the numbers of %s", seed, rank, w,
                      seen.get(got))
                seen[got] = (seed, rank, w)
    rec.nt(len(seen) > 2)


# ------------------------------------------------------------------ loaders


@st.composite
def loader_cases(draw):
    case = draw(common())
    case["te"] = {**case["te"], "encode": "none", "eb": "none", "batch": "std", "group": None, "pack": None, "size": None,
                  "base": "plain"}
    return {**case, "train": True, "nw": draw(st.integers(1, 3)), "world": draw(st.integers(1, 2)),
            "globals": draw(st.lists(st.integers(0, 2**31), min_size=2, max_size=2)),
            "savable": draw(st.booleans()), "n": draw(st.integers(4, 20)), "restart": draw(st.booleans())}


def loader_body(case, rec):
    """User code drawing from the global random generators in the workers is reproducible, too."""
    if not enough(dict(case, g=case["nw"] * case["world"])):
        return
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        for rank in range(case["world"]):
            res = []
            for g in case["globals"]:
                def run():
                    seed_all(g)
                    ds = make(path, case, wcfg(case["nw"], rank, case["world"], case["seed"]))

                    loader = (get_savable_loader if case["savable"] else get_loader)(with_random(ds))
                    it = iter(loader)
                    ALIVE.append(it)
                    return [next(it) for _ in range(case["n"])]

                res.append(forked(run))
            eq(res[1], res[0], f"samples of the second run of rank {rank}")
            rec.nt()


#: Ending the worker processes may take seconds; the forked process is killed instead
ALIVE = []


def with_random(ds):
    from megatron.energon.wrappers import MapDataset

    def draw(s):
        return {"__key__": s.__key__, "__restore_key__": s.__restore_key__,
                "v": (s.text, random.randrange(10**6), int(np.random.randint(10**6)),
                      torch.randint(0, 10**6, ()).item())}

    return MapDataset(ds, draw, worker_config=ds.worker_config)


# ------------------------------------------------------------------ another process


@st.composite
def process_cases(draw):
    kind = draw(st.sampled_from(6 * ["disk"] + 4 * ["wrappers"] + ["loader"]))
    return {"kind": kind, **draw({"disk": same_cases, "wrappers": wrapper_cases, "loader": loader_cases}[kind]())}


def one_run(case, path, which):
    """What one process delivers."""
    nw = case["nw"]
    seed_all(case["globals"][which])
    with pipes.quiet():
        if case["kind"] == "wrappers":
            wc = wcfg(nw, seed_offset=case["seed"])
            try:
                return Stream(build(case["spec"], wc), wc, case["w"]).take(case["n"])
            except RuntimeError as e:
                if "Pre packer did not yield" in str(e):
                    return None
                raise
        world = case["world"]
        if case["kind"] == "disk":
            wc = wcfg(nw, case["rank"] % world, world, case["seed"])
            w = case["w"] % max(nw, 1)
            n = available(path, case, wc, w)
            seed_all(case["globals"][which])
            return Stream(make(path, case, wc), wc, w, keep=pipes.obs, patience=10**9).take(n)

        def run():
            ds = make(path, case, wcfg(nw, world - 1, world, case["seed"]))
            it = iter((get_savable_loader if case["savable"] else get_loader)(with_random(ds)))
            ALIVE.append(it)
            return [next(it) for _ in range(case["n"])]

        return forked(run)


def process_body(case, rec):
    with wds.scratch() as root:
        path = None
        if case["kind"] != "wrappers":
            if not enough(dict(case, g=max(case["nw"], 1) * case["world"])):
                return
            path = pipes.write(root, case["sets"])
        want = one_run(case, path, 0)
        eq(elsewhere(one_run, case, path, 1), want, "samples of the same run in another process")
    rec.nt(want and len(want) > 3)
    rec.label(case["kind"])


def seeds_here(case):
    from megatron.energon.rng import SystemRng

    res = []
    for rank, w, seed in case["of"]:
        wc = wcfg(case["nw"], rank, 8, seed)
        with as_worker(w % max(case["nw"], 1), case["nw"]):
            res.append((wc.worker_seed(), SystemRng.get_seed_from_args(rank, w, str(seed), "x")))
    return res


def seeds_there(case, rec):
    eq(elsewhere(seeds_here, case), seeds_here(case), "seeds of the workers in another process")
    rec.nt()


@st.composite
def seeds_there_cases(draw):
    return {"nw": draw(st.integers(0, 3)), "of": draw(st.lists(
        st.tuples(st.integers(0, 7), st.integers(0, 2), st.integers(0, 2**40)), min_size=1, max_size=8))}


CHECK = Check("P07", subs=[
    Sub("same", same_cases, same_body, quick=110, shards=3, thorough=2000, budget=25, rule="more than 3 batches"),
    Sub("wrappers", wrapper_cases, wrapper_body, quick=400, shards=2, thorough=6000, rule="more than 3 samples of a pipeline with a blend, shuffle buffer or map"),
    Sub("different", differ_cases, differ_body, quick=80, shards=2, thorough=1500,
        rule="several seeds, workers or epochs are compared"),
    Sub("seeds", seed_cases, seed_body, quick=150, shards=1, thorough=1000, rule="more than two workers and seeds"),
    Sub("loader", loader_cases, loader_body, quick=40, shards=1, thorough=400, budget=25, rule="the loaders deliver"),
    Sub("process", process_cases, process_body, quick=70, shards=2, thorough=2000, budget=20, rule="more than 3 batches or samples"),
    Sub("process-seeds", seeds_there_cases, seeds_there, quick=60, shards=1, thorough=1000, rule="seeds are compared"),
])
