"""P14: the shuffle buffer emits a permutation with bounded look-ahead."""
from collections import Counter

from hypothesis import strategies as st

from megatron.energon.wrappers import ShuffleBufferDataset

from vp import gen
from vp.harness import Check, Sub, check, eq
from vp.lib import Src, Stream, build, freeze, restore_one, wcfg
from vp.model import Model, plain


@st.composite
def cases(draw):
    nw = draw(gen.NW)
    return {"nw": nw, "epochs": draw(st.integers(1, 3)), "size": draw(st.integers(1, 12)),
            "seed": draw(st.integers(0, 100)),
            "inner": gen.wrap(draw, gen.src(draw, nw, 0, 25), ["map:pure", "map:idx", "filter", "map:gen"], 2)}


def body(case, rec):
    nw, size = case["nw"], case["size"]
    wc = wcfg(nw, seed_offset=case["seed"])
    for w in range(max(nw, 1)):
        ds = ShuffleBufferDataset(build(case["inner"], wc), size=size, worker_config=wc)
        src = ds
        while not isinstance(src, Src):
            src = src.dataset
        # positions of the input samples
        model = Model(case["inner"], w, nw)
        stream = Stream(ds, wc, w, keep=lambda s: (src.pulled, s))
        keys = []
        for e in range(case["epochs"]):
            want = model.epoch()
            before = src.pulled
            got = stream.epoch()
            eq(Counter(plain(s) for _, s in got), Counter(want), f"samples of worker {w}, epoch {e}")
            pos = {}
            for i, p in enumerate(want):
                pos.setdefault(p, []).append(i)
            for j, (pulled, s) in enumerate(got):
                i = pos[plain(s)].pop(0)
                check(i <= j + size - 1, "input %s was yielded as output %s of a buffer of %s", i, j, size)
                if case["inner"]["op"] == "src":
                    check(i < pulled - before or pulled == before, "input %s was yielded after reading %s",
                          i, pulled - before)
                    check(pulled - before - j <= size, "%s samples read, %s yielded before: more than the buffer of %s",
                          pulled - before, j, size)
            keys += [s for _, s in got]
            rec.nt(size > 1 and len(want) > size)
            if size == 1:
                eq([plain(s) for _, s in got], want, "order without a buffer")
        fresh = ShuffleBufferDataset(build(case["inner"], wc), size=size, worker_config=wc)
        for s in keys[:5]:
            eq(restore_one(fresh, wc, s.__restore_key__, w), freeze(s), "restored sample")


@st.composite
def draws(draw):
    return {"size": draw(st.integers(2, 5)), "n": draw(st.integers(6, 12)), "seed0": draw(st.integers(0, 5000)),
            "nw": draw(st.sampled_from([0, 1, 2, 4]))}


def draws_body(case, rec):
    """Over many seeds, each place of the buffer is drawn first, and last samples can stay to the end."""
    first, last = Counter(), Counter()
    size, n = case["size"], case["n"]
    for seed in range(case["seed0"], case["seed0"] + 80):
        wc = wcfg(case["nw"], seed_offset=seed)
        w = seed % max(case["nw"], 1)
        ds = ShuffleBufferDataset(Src([n] * max(case["nw"], 1), 0, worker_config=wc), size=size, worker_config=wc)
        got = Stream(ds, wc, w, keep=lambda s: s.val[1] - n * w).epoch()
        first[got[0]] += 1
        last[got[-1]] += 1
    eq(sorted(first), list(range(size)), "input positions which are yielded first for some seed")
    check(len(last) >= 2, "the same sample %s is yielded last for all seeds", last)
    rec.nt()


@st.composite
def pairs(draw):
    return {"n": draw(st.integers(14, 30)), "size": draw(st.integers(12, 30)), "seed": draw(st.integers(0, 5000)),
            "nw": draw(st.integers(2, 4)), "world": draw(st.integers(1, 3))}


def pairs_body(case, rec):
    orders = []
    for seed in (case["seed"], case["seed"] + 1):
        for rank in range(case["world"]):
            for w in range(case["nw"]):
                wc = wcfg(case["nw"], rank=rank, world=case["world"], seed_offset=seed)
                ds = ShuffleBufferDataset(Src([case["n"]] * case["nw"], 0, worker_config=wc),
                                          size=case["size"], worker_config=wc)
                orders.append(tuple(Stream(ds, wc, w, keep=lambda s: s.val[1] - w * case["n"]).epoch()))
    eq(len(set(orders)), len(orders), "number of different orders of workers and seeds")
    rec.nt()


CHECK = Check("P14", subs=[
    Sub("buffer", cases, body, quick=1200, shards=5, thorough=8000, rule="more samples than the buffer holds"),
    Sub("draws", draws, draws_body, quick=60, shards=1, thorough=600, rule="all"),
    Sub("independent", pairs, pairs_body, quick=100, shards=1, thorough=1000, rule="all")])
