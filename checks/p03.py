"""P03: each training epoch yields each sample exactly once."""
import collections

from hypothesis import strategies as st

from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.sharder import Sharder
from megatron.energon.flavors.webdataset.structs import ShardInfo

from vp import wds
from vp.harness import Check, Sub, check, eq
from vp.lib import Stream, wcfg


@st.composite
def cases(draw):
    g = draw(st.integers(1, 4))
    world, nw = draw(st.sampled_from(wds.layouts(g)))
    counts = draw(st.lists(st.integers(1, 9), min_size=1, max_size=6))
    training = draw(st.sampled_from([True, True, True, False]))
    if draw(st.integers(0, 5)) == 0:
        # shards without samples
        for i in draw(st.lists(st.integers(0, len(counts)), min_size=1, max_size=2)):
            counts.insert(i, 0)
    return {"counts": counts, "world": world, "nw": nw, "max": draw(st.one_of(st.none(), st.integers(1, 5))),
            "training": training,
            "over": draw(st.sampled_from([1, 1, 1, 2, 3, -1, -1, None])) if training else 1,
            "parallel": draw(st.one_of(st.none(), st.integers(1, 5))),
            "seed": draw(st.integers(0, 50)), "epochs": draw(st.integers(1, 3)),
            "exclude": draw(st.lists(st.integers(0, sum(counts) - 1), max_size=3, unique=True))
            if draw(st.integers(0, 3)) == 0 else []}


def slices_of(case, rank):
    """The slices of each worker as lists of sample numbers, without the excluded samples."""
    counts, base = case["counts"], []
    for n in counts:
        base.append(sum(counts[:len(base)]))
    shards = [(ShardInfo(name=str(i), path=EPath(f"/{i}.tar"), offset=0, count=n),) for i, n in enumerate(counts)]
    per = Sharder.shard_workers(shards, wcfg(case["nw"], rank=rank, world=case["world"]),
                                max_samples_per_sequence=case["max"])
    return [[[base[int(s[0].name)] + o for o in range(s[0].offset, s[0].offset + s[0].count)
              if base[int(s[0].name)] + o not in case["exclude"]] for s in worker] for worker in per]


def body(case, rec):
    nw, over, par = case["nw"], case["over"], case["parallel"]
    training = case["training"]
    if not training or over is None:
        # only sequential reading
        par = 1
    p = 16 if par is None else par
    with wds.scratch() as d:
        shards = wds.simple_shards(case["counts"])
        keys = [f"{n}/{m[0][:-4]}" for n, ms in shards.items() for m in ms]
        wds.write_dataset(d, shards, exclude=[keys[i] for i in case["exclude"]])
        num = {k: i for i, k in enumerate(keys)}
        # the slices are taken from the code; here: that they cover the dataset
        eq(sorted(x for r in range(case["world"]) for w in slices_of(case, r) for s in w for x in s),
           [x for x in range(len(keys)) if x not in case["exclude"]], "samples in the slices of all workers")
        for r in range(case["world"]):
            wc = wcfg(nw, rank=r, world=case["world"], seed_offset=case["seed"])
            fac = wds.crude(d, wc, training=training, shuffle_over_epochs=over, parallel_shard_iters=par,
                            max_samples_per_sequence=case["max"])
            eq(len(fac), len(keys), "length of the dataset")
            for w, slices in enumerate(slices_of(case, r)):
                own = sorted(x for s in slices for x in s)
                stream = Stream(fac.build(), wc, w, keep=lambda s: num[s["__key__"]])
                if not own:
                    if not slices:
                        eq(stream.take(1), [], "samples of a worker without samples")
                    continue
                what = f"worker {w} of rank {r}"
                if not training:
                    for e in range(case["epochs"]):
                        eq(stream.epoch(), own, f"{what}: pass {e}")
                elif over is None:
                    eq(stream.take(len(own) * case["epochs"]), own * case["epochs"], f"{what}: unshuffled")
                elif over == -1:
                    n = 60 * len(own) * case["epochs"]
                    seq = stream.take(n)
                    eq(len(seq), n, f"{what}: number of samples drawn")
                    check(set(seq) <= set(own), "%s: foreign samples %s", what, set(seq) - set(own))
                    k = len([s for s in slices if s])
                    if k * (1 - 1 / k) ** (n / max(map(len, slices)) - p - 1) < 1e-12:
                        eq(sorted(set(seq)), own, f"{what}: samples ever drawn")
                        rec.label("drawn with replacement: all seen")
                    interleaved(seq, slices, p, what)
                else:
                    for e in range(case["epochs"]):
                        n = over * len(own)
                        seq = stream.take(n)
                        eq(sorted(seq), sorted(own * over), f"{what}: samples of epoch {e}")
                        interleaved(seq, slices, p, what, ends=True)
                        if over == 1:
                            opened(seq, slices, p, what)
                rec.nt(len(own) > 1)
                rec.label("several slices", len(slices) > 1)
                rec.label("parallel slices", training and over is not None and p > 1 and len(slices) > 1)
                stream.close()
    rec.label(f"over={over if training else 'val'}")
    rec.label("excluded samples", case["exclude"])
    rec.label("empty shard", 0 in case["counts"])


def interleaved(seq, slices, p, what, ends=False):
    """Each slice is read in order, by at most p readers at a time."""
    where = {x: (i, j) for i, s in enumerate(slices) for j, x in enumerate(s)}
    done = [[0] * (len(s) + 1) for s in slices]
    for x in seq:
        i, j = where[x]
        done[i][j] += 1
        check(j == 0 or done[i][j] <= done[i][j - 1], "%s: slice %s not read in order: %s", what, slices[i], seq)
        open_ = sum(d[0] - d[len(s) - 1] for d, s in zip(done, slices) if s)
        check(open_ <= p, "%s: %s slices read in parallel instead of %s: %s", what, open_, p, seq)


def opened(seq, slices, p, what):
    if p == 1:
        # one slice after the other
        order = []
        where = {x: i for i, s in enumerate(slices) for x in s}
        for x in seq:
            if not order or order[-1] != where[x]:
                order.append(where[x])
        eq(len(order), len(set(order)), f"{what}: slices interleaved without parallel reading")


CHECK = Check("P03", subs=[
    Sub("epochs", cases, body, quick=110, shards=8, thorough=1500, rule="a worker with at least two samples"),
])
