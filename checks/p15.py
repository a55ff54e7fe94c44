"""P15: reading a shard returns exactly what was written."""
import copy
import tarfile
import warnings

from hypothesis import strategies as st

from vp import wds
from vp.harness import Check, Sub, check, eq
from vp.lib import Stream, freeze, restore_one, wcfg

EXTS = ["txt", "bin", "a", "tar.gz", "JPG", "json", "x.y.z", "cls", ""]
STEMS = ["s", "dir/s", "deep.dir/er/s", "_", "s-1_", "__", "x" * 90 + "/", "k" * 120]
NOISE = [("__meta__", b"m"), ("__meta__/a.txt", b"m"), ("folder", b"", tarfile.DIRTYPE), ("noext", b"data"),
         (".hidden.txt", b"h"), ("link.txt", b"", tarfile.SYMTYPE), ("____", b"x")]
FORMATS = {"gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT}


@st.composite
def dataset(draw, max_shards=4, max_samples=7):
    """Shards: lists of samples [stem, parts, noise before]."""
    shards = []
    for _ in range(draw(st.integers(1, max_shards))):
        samples = []
        for _ in range(draw(st.integers(1, max_samples))):
            exts = draw(st.lists(st.sampled_from(EXTS), min_size=1, max_size=4, unique=True))
            parts = [[e, draw(st.sampled_from([0, 1, 5, 511, 512, 513, 3000]))] for e in exts]
            samples.append([draw(st.sampled_from(STEMS)), parts,
                            draw(st.lists(st.integers(0, len(NOISE) - 1), max_size=2))
                            if draw(st.booleans()) else [],
                            # between the parts
                            [list(x) for x in draw(st.lists(st.tuples(
                                st.integers(1, len(parts)), st.integers(0, len(NOISE) - 1)), max_size=2))]
                            if draw(st.integers(0, 3)) == 0 else []])
        shards.append(samples)
    return {"shards": shards, "tail": draw(st.lists(st.integers(0, len(NOISE) - 1), max_size=2)),
            "format": draw(st.sampled_from(sorted(FORMATS))),
            "dir": draw(st.sampled_from(["", "sub/", "a/b.c/"]))}


def members_of(case):
    """Members by shard name; the sample keys are unique."""
    res, k = {}, 0
    for i, samples in enumerate(case["shards"]):
        ms = []
        for stem, parts, noise, *inner in samples:
            ms += [NOISE[n] for n in noise]
            for at, (e, size) in enumerate(parts):
                ms += [NOISE[n] for pos, n in (inner[0] if inner else ()) if pos == at]
                ms.append((f"{stem}{k}.{e}", wds.blob(k, e, size=size)))
            k += 1
        ms += [NOISE[n] for n in case["tail"]]
        res[f"{case['dir']}shard{i}.tar"] = ms
    return res


@st.composite
def cases(draw):
    d = draw(dataset())
    total = sum(map(len, d["shards"]))
    world, nw = draw(st.sampled_from(wds.layouts(draw(st.integers(1, 4)))))
    return {**d, "world": world, "nw": nw, "max": draw(st.one_of(st.none(), st.integers(1, 4))),
            "exclude": draw(st.lists(st.integers(0, total - 1), max_size=4, unique=True)),
            "exshard": draw(st.lists(st.integers(0, len(d["shards"]) - 1), max_size=1)),
            "brace": draw(st.booleans()),
            "parts": draw(st.one_of(st.none(), st.lists(st.sampled_from(EXTS), max_size=3))),
            "stops": draw(st.lists(st.integers(0, 6), min_size=1, max_size=4)), "stop_all": draw(st.booleans())}


def view(s):
    s = dict(s)
    return [s["__key__"], s["__shard__"], {k: v for k, v in s.items() if not k.startswith("__")}]


def body(case, rec):
    shards = members_of(case)
    names = list(shards)
    world, nw = case["world"], case["nw"]
    keys = [(n, k) for n in names for k, _, _ in wds.samples_of(shards[n])]
    gone = {keys[i] for i in case["exclude"]}
    exclude = [f"{n}/{k}" for n, k in gone]
    if case["brace"] and len(exclude) > 1:
        exclude = ["{" + ",".join(exclude) + "}"]
    exsh = {names[i] for i in case["exshard"]} if len(names) > 1 else set()
    exclude += sorted(exsh)
    parts = case["parts"]
    want = [[f"{n}/{k}", n, {e: b for e, b in p.items() if parts is None or e in parts}]
            for n in names if n not in exsh for k, p, _ in wds.samples_of(shards[n]) if (n, k) not in gone]
    with wds.scratch() as d:
        wds.write_dataset(d, shards, exclude=exclude, format=FORMATS[case["format"]])
        kw = dict(max_samples_per_sequence=case["max"])
        if parts is not None:
            kw["part_filter"] = list(parts)

        def factory(wc):
            return wds.crude(d, wc, **kw)

        got, ranges = [], []
        for r in range(world):
            wc = wcfg(nw, rank=r, world=world)
            for w in range(max(nw, 1)):
                with warnings.catch_warnings():
                    warnings.simplefilter("error")
                    res = wds.read(factory(wc).build(), wc, w, key=lambda s: (view(s), s["__restore_key__"]))
                ranges.append((wc, w, len(got), len(got) + len(res)))
                got += res
        eq([v for v, _ in got], want, "samples over all workers")
        for wc, w, a, b in ranges:
            # stop and continue
            res, stops = [], list(case["stops"])
            stream = Stream(factory(wc).build(), wc, w, keep=view)
            while len(res) < b - a:
                k = min(stops.pop(0) if stops else (1 if case["stop_all"] else b), b - a - len(res))
                part = stream.take(k)
                res += part
                state = copy.deepcopy(stream.save())
                stream.close()
                ds = factory(wc).build()
                ds.restore_state(ds.merge_states([state if i == w else None for i in range(max(nw, 1))]))
                stream = Stream(ds, wc, w, keep=view)
                if len(part) < k:
                    break
            eq(res, want[a:b], f"samples of worker {w} of rank {wc.rank} with stops")
            if b > a:
                eq(stream.epoch(), [], "samples after the last one")
            stream.close()
            # random access
            ds = factory(wc).build()
            for i in range(a, b):
                eq(restore_one(ds, wc, got[i][1], wc.rank * nw + w, 0, keep=view), want[i],
                   f"sample {i} restored from {got[i][1]}")
    rec.nt(len(want) > 1 and len(ranges) > 0)
    rec.label("excluded samples", gone)
    rec.label("excluded shards", exsh)
    rec.label("part filter", parts is not None)
    rec.label("several workers", world * max(nw, 1) > 1)
    rec.label("slices", case["max"] is not None)
    rec.label("noise", case["tail"] or any(s[2] for sh in case["shards"] for s in sh))


CHECK = Check("P15", subs=[
    Sub("read", cases, body, quick=120, shards=8, thorough=1500, rule="at least two samples are read"),
])
