"""P12: length-shaping wrappers yield exactly the promised number of samples."""
from hypothesis import strategies as st

from vp import gen
from vp.harness import Check, Sub, check, eq
from vp.lib import Stream, build, freeze, kinds_of, ops_of, restore_one, wcfg
from vp.model import Model, plain


def shaped(draw, nw, depth, sids, infinite_ok=True):
    """A finite pipeline of length shaping wrappers."""
    n = max(nw, 1)
    if depth == 0 or draw(st.integers(0, 5)) == 0:
        sid = sids[0]
        sids[0] += 1
        return {"op": "src", "id": sid,
                "n": draw(st.lists(st.integers(1, 8), min_size=n, max_size=n))}
    op = draw(st.sampled_from(["limit", "repeat", "epochize", "concat", "map:idx", "filter", "batch:pure"]))
    if op == "concat":
        return {"op": "concat", "ins": [shaped(draw, nw, depth - 1, sids)
                                        for _ in range(draw(st.integers(1, 3)))]}
    inner = shaped(draw, nw, depth - 1, sids)
    if op == "limit":
        return {"op": "limit", "n": draw(st.integers(0, 12)), "reset": draw(st.booleans()), "in": inner}
    if op == "repeat":
        return {"op": "repeat", "n": draw(st.integers(0, 3)), "in": inner}
    if op == "epochize":
        return {"op": "epochize", "n": draw(st.integers(0, 12)), "in": inner}
    return gen.step(draw, inner, op)


@st.composite
def cases(draw):
    nw = draw(gen.NW)
    return {"nw": nw, "epochs": draw(st.integers(2, 4)),
            "spec": shaped(draw, nw, draw(st.integers(1, 4)), [0])}


def has_infinite_hole(spec, w, nw):
    """Whether an epochize would never get a sample from its inner dataset."""
    if any(has_infinite_hole(s, w, nw) for s in ([spec["in"]] if "in" in spec else spec.get("ins", ()))):
        return True
    if spec["op"] == "epochize":
        return not any(True for _ in Model(spec["in"], w, nw))
    return False


def body(case, rec):
    nw, spec = case["nw"], case["spec"]
    wc = wcfg(nw)
    if any(has_infinite_hole(spec, w, nw) for w in range(max(nw, 1))):
        rec.label("unbounded wait")
        return
    ops = ops_of(spec)
    for w in range(max(nw, 1)):
        ds = build(spec, wc)
        model = Model(spec, w, nw)
        stream = Stream(ds, wc, w, keep=lambda s: s)
        for e in range(case["epochs"]):
            want = model.epoch()
            if len(want) > 3000:
                return
            got = [plain(s) for s in stream.epoch()]
            eq(got, want, f"samples of worker {w}, epoch {e}")
            rec.nt(len(want) >= 2 and len(set(ops) & {"limit", "repeat", "epochize", "concat"}) >= 1)
        for o in ops:
            rec.label(o)


@st.composite
def totals(draw):
    nw = draw(gen.NW)
    n = max(nw, 1)
    return {"nw": nw, "op": draw(st.sampled_from(["limit", "repeat", "epochize", "concat"])),
            "n": draw(st.integers(0, 25)), "reset": draw(st.booleans()),
            "counts": draw(st.lists(st.lists(st.integers(1, 10), min_size=n, max_size=n), min_size=1,
                                    max_size=4)),
            "epochs": draw(st.integers(1, 4))}


def totals_body(case, rec):
    """The promised totals over all workers, stated without the model."""
    nw, op, n = case["nw"], case["op"], case["n"]
    wc = wcfg(nw)
    srcs = [{"op": "src", "id": i, "n": c} for i, c in enumerate(case["counts"])]
    if op == "concat":
        spec = {"op": "concat", "ins": srcs}
    else:
        srcs = srcs[:1]
        spec = {"op": op, "n": n % 4 if op == "repeat" else n, "reset": case["reset"], "in": srcs[0]}
    streams = [Stream(build(spec, wc), wc, w, keep=lambda s: s.val) for w in range(max(nw, 1))]
    tot = len(streams[0].ds)
    avail = sum(srcs[0]["n"])
    for e in range(case["epochs"]):
        got = [s.epoch() for s in streams]
        have = sum(map(len, got))
        if op == "limit":
            # exact when the data is spread as evenly as the limit is
            share = [n // max(nw, 1) + (1 if w < n % max(nw, 1) else 0) for w in range(max(nw, 1))]
            eq(have, sum(min(a, b) for a, b in zip(share, srcs[0]["n"])), "number of samples")
            check(have <= n, "limit %s exceeded: %s", n, have)
            if all(b >= a for a, b in zip(share, srcs[0]["n"])):
                eq(have, min(n, avail), "number of samples")
                eq(have, tot, "announced length")
        elif op == "repeat":
            eq(have, avail * (n % 4), "number of samples")
            eq(have, tot, "announced length")
        elif op == "epochize":
            eq(have, n, "number of samples")
            eq(have, tot, "announced length")
        else:
            eq(have, sum(sum(s["n"]) for s in srcs), "number of samples")
            eq(have, tot, "announced length")
        rec.nt(have >= 2)
        rec.label(op)


def thin(draw, nw, depth, sids):
    """A finite pipeline in which a worker may have no samples at all."""
    n = max(nw, 1)
    if depth == 0 or draw(st.integers(0, 4)) == 0:
        sid = sids[0]
        sids[0] += 1
        return {"op": "src", "id": sid,
                "n": draw(st.lists(st.sampled_from([0, 0, 1, 2, 5]), min_size=n, max_size=n))}
    op = draw(st.sampled_from(["concat", "concat", "limit", "repeat", "map:idx", "batch:pure"]))
    if op == "concat":
        return {"op": "concat", "ins": [thin(draw, nw, depth - 1, sids)
                                        for _ in range(draw(st.integers(1, 4)))]}
    inner = thin(draw, nw, depth - 1, sids)
    if op == "limit":  # every worker has a share: else an endless repetition would wait forever
        return {"op": "limit", "n": draw(st.integers(n, n + 9)), "reset": draw(st.booleans()), "in": inner}
    if op == "repeat":
        return {"op": "repeat", "n": draw(st.integers(1, 3)), "in": inner}
    step = gen.step(draw, inner, op)
    if op.startswith("batch"):
        step["drop"] = False
    return step


@st.composite
def endless(draw):
    nw = draw(gen.NW)
    sids = [0]
    return {"nw": nw, "epochs": draw(st.integers(1, 4)), "top": draw(st.sampled_from(["repeat", "blend"])),
            "cut": draw(st.sampled_from(["limit", "epochize"])), "reset": draw(st.booleans()),
            "n": draw(st.integers(1, 40)), "weights": [draw(st.integers(1, 3)) for _ in range(3)],
            "ins": [thin(draw, nw, draw(st.integers(0, 3)), sids) for _ in range(draw(st.integers(1, 3)))]}


def sids_of(spec):
    if spec["op"] == "src":
        return {spec["id"]}
    return set().union(*(sids_of(s) for s in ([spec["in"]] if "in" in spec else spec["ins"])))


def endless_body(case, rec):
    """Endless repetition and blending: every worker which has samples goes on for as long as asked."""
    from megatron.energon.wrappers.blend_dataset import BlendDataset
    from megatron.energon.wrappers.epochize_dataset import EpochizeDataset
    from megatron.energon.wrappers.limit_dataset import LimitDataset
    from megatron.energon.wrappers.repeat_dataset import RepeatDataset

    nw, top = case["nw"], case["top"]
    n = max(nw, 1)
    wc = wcfg(nw)
    ins = case["ins"] if top == "blend" else case["ins"][:1]
    share = [case["n"] // n + (1 if w < case["n"] % n else 0) for w in range(n)]
    for w in range(n):
        dss = [build(s, wc) for s in ins]
        have = [len(Model(s, w, nw).epoch()) for s in ins]
        inner = (RepeatDataset(dss[0], worker_config=wc) if top == "repeat" else
                 BlendDataset(*zip(dss, case["weights"]), worker_config=wc))
        if case["cut"] == "limit":
            ds = LimitDataset(inner, case["n"], worker_config=wc, reset_after_epoch=case["reset"])
        else:
            ds = EpochizeDataset(inner, case["n"], worker_config=wc)
        stream = Stream(ds, wc, w, keep=lambda s: s)
        if not any(have):
            rec.label("nothing for this worker")
            if share[w]:
                try:
                    stream.epoch()
                except AssertionError:
                    pass
                else:
                    check(False, "a worker without samples delivered something for ever")
            continue
        rec.label("some parts empty" if not all(have) else top)
        models = [Model(s, w, nw) for s in ins]
        parts = [[] for _ in ins]  # what the parts still have to deliver
        for e in range(case["epochs"]):
            got = [plain(s) for s in stream.epoch()]
            eq(len(got), share[w], f"number of samples of worker {w}, epoch {e}")
            rec.nt(share[w] >= 2)
            if any("idx" in o or o in ("map", "batch") for s in ins for o in ops_of(s)):
                continue  # the values depend on the indexes; the numbers are what counts here
            if case["cut"] == "limit":
                if not case["reset"]:
                    continue
                parts = [[] for _ in ins]
            for key, val in got:
                i = next(i for i, s in enumerate(ins) if int(key.split("/")[0]) in sids_of(s))
                if not parts[i]:
                    parts[i] = models[i].epoch()
                check(have[i] > 0, "sample of an empty part")
                eq((key, val), parts[i].pop(0), f"next sample of part {i}, worker {w}, epoch {e}")


CHECK = Check("P12", subs=[
    Sub("shapes", cases, body, quick=1000, shards=4, thorough=12000,
        rule="a length-shaping wrapper that yields at least two samples"),
    Sub("totals", totals, totals_body, quick=1000, shards=2, thorough=6000,
        rule="at least two samples in an epoch"),
    Sub("endless", endless, endless_body, quick=800, shards=2, thorough=8000,
        rule="an endless repetition or blend cut off after at least two samples")])
