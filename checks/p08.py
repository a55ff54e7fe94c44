"""P08: batching conserves samples and order."""
from hypothesis import strategies as st

from megatron.energon.wrappers import BatchDataset

from vp import gen
from vp.harness import Check, Sub, check, eq
from vp.lib import BatchFns, Src, Stream, build, restore_one, silent, wcfg, freeze
from vp.model import Model, plain


@st.composite
def cases(draw):
    nw = draw(gen.NW)
    inner = gen.wrap(draw, gen.src(draw, nw, 0, 14), ["map:pure", "map:err", "map:gen", "filter"], 1)
    return {"nw": nw, "epochs": draw(st.integers(1, 3)), "spec": {
        "op": "batch", "kind": draw(st.sampled_from(["pure", "keep", "idx", "skip", "err", "gen", "generr"])),
        "p": draw(st.integers(2, 4)), "size": draw(st.integers(1, 6)), "drop": draw(st.booleans()),
        "in": inner}}


def body(case, rec):
    nw, spec = case["nw"], case["spec"]
    wc = wcfg(nw)
    for w in range(max(nw, 1)):
        ds = build(spec, wc)
        model = Model(spec, w, nw)
        stream = Stream(ds, wc, w, keep=lambda s: s)
        got_all = []
        for e in range(case["epochs"]):
            got = stream.epoch()
            want = model.epoch()
            eq([plain(s) for s in got], want, f"batches of worker {w} in epoch {e}")
            got_all += got
            rec.nt(len(want) >= 2)
            rec.label("partial", want and spec["kind"] == "pure" and len(want[-1][1]) - 1 < spec["size"])
        rec.label("errors", model.all_errors())
        rec.label(spec["kind"])
        fresh = build(spec, wc)
        for s in got_all[:12]:
            r = restore_one(fresh, wc, s.__restore_key__, w)
            eq(r, freeze(s), f"batch restored from {s.__restore_key__}")


@st.composite
def len_cases(draw):
    nw = draw(gen.NW)
    n = max(nw, 1)
    base = draw(st.integers(0, 40))
    extra = draw(st.integers(0, n - 1))
    order = draw(st.permutations(range(n)))
    return {"nw": nw, "n": [base + (1 if order[i] < extra else 0) for i in range(n)],
            "size": draw(st.integers(1, 12)), "drop": draw(st.booleans())}


def len_body(case, rec):
    wc = wcfg(case["nw"])

    def mk():
        return BatchDataset(Src(case["n"], 0, worker_config=wc), case["size"], BatchFns("pure", 1).fn(),
                            batcher_stateless=True, drop_last=case["drop"], error_handler=silent,
                            worker_config=wc)

    got = [Stream(mk(), wc, w).epoch() for w in range(max(case["nw"], 1))]
    eq(len(mk()), sum(map(len, got)), "announced number of batches vs delivered")
    rec.nt(len(set(case["n"])) > 1)
    rec.label("uneven", len(set(case["n"])) > 1)
    rec.label("remainder", any(n % case["size"] for n in case["n"]))


CHECK = Check(
    "P08",
    subs=[
        Sub("batches", cases, body, quick=1500, shards=4, thorough=4000,
            rule="at least two batches in an epoch of some worker"),
        Sub("length", len_cases, len_body, quick=1500, shards=2, thorough=4000,
            rule="workers with different numbers of samples"),
    ],
)
