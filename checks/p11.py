"""P11: blending follows the weights and preserves each dataset's stream."""
import math

from hypothesis import strategies as st

from megatron.energon.wrappers import BlendDataset, MixBatchDataset

from vp import gen
from vp.harness import Check, Sub, check, eq
from vp.lib import Stream, build, freeze, restore_one, vs, wcfg
from vp.model import Model, plain

WEIGHTS = st.one_of(st.sampled_from([0.0, 1.0, 2.0, 10.0]), st.floats(0.01, 5.0).map(lambda x: round(x, 3)))


@st.composite
def cases(draw):
    nw = draw(gen.NW)
    n = max(nw, 1)
    k = draw(st.integers(1, 5))
    ins = []
    for i in range(k):
        spec = {"op": "src", "id": i, "n": draw(st.lists(st.integers(0, 7), min_size=n, max_size=n))}
        ins.append(gen.wrap(draw, spec, ["map:idx", "map:pure", "batch:idx"], 2))
        b = ins[-1]
        while b["op"] != "src":
            if b["op"] == "batch":
                b["drop"] = False
            b = b["in"]
    return {"nw": nw, "ins": ins, "w": draw(st.lists(WEIGHTS, min_size=k, max_size=k)),
            "seed": draw(st.integers(0, 1000)), "mix": draw(st.sampled_from([None, None, 1, 2, 5])),
            "as_int": draw(st.booleans()), "scale": draw(st.sampled_from([1, 1, 1, 1e-6, 3e5, 1e12]))}


def src_of(spec):
    while spec["op"] != "src":
        spec = spec["in"]
    return spec


def val_id(val):
    """The source a value comes from."""
    while isinstance(val, tuple) and not (len(val) == 2 and all(isinstance(x, int) for x in val)):
        val = val[-1]
    return val[0]


def body(case, rec):
    nw = case["nw"]
    n_draw = 400
    for w in range(max(nw, 1)):
        wc = wcfg(nw, seed_offset=case["seed"])
        # only the proportions matter, e.g. numbers of samples may be the weights
        weights = [x * case.get("scale", 1) for x in case["w"]]
        weights = [int(x) if case["as_int"] and x == int(x) else x for x in weights]
        has = [src_of(s)["n"][w] > 0 for s in case["ins"]]
        act = [x if h else 0 for x, h in zip(weights, has)]
        if sum(act) == 0:
            continue
        pairs = [(build(s, wc), x) for s, x in zip(case["ins"], weights)]
        if case["mix"] is None:
            ds = BlendDataset(*pairs, worker_config=wc)
            got = Stream(ds, wc, w, keep=lambda s: s).take(n_draw)
            keys = [s.__restore_key__ for s in got]
            got = [plain(s) for s in got]
        else:
            ds = MixBatchDataset(*pairs, batch_size=case["mix"], batch_mix_fn=lambda b: list(b),
                                 worker_config=wc)
            batches = Stream(ds, wc, w, keep=lambda s: s).take(n_draw // case["mix"])
            check(all(len(b) == case["mix"] for b in batches), "sizes of mixed batches: %s",
                  [len(b) for b in batches])
            keys = [s.__restore_key__ for b in batches for s in b]
            got = [plain(s) for b in batches for s in b]
        eq(len(got), n_draw // (case["mix"] or 1) * (case["mix"] or 1), "samples drawn")
        models = {}
        count = [0] * len(weights)
        for i, g in enumerate(got):
            sid = val_id(g[1])
            count[sid] += 1
            check(act[sid] > 0, "drew %s from the dataset %s with weight %s, %s samples", g, sid,
                  weights[sid], src_of(case["ins"][sid])["n"][w])
            if sid not in models:
                m = Model(case["ins"][sid], w, nw)

                def forever(m=m):
                    while True:
                        yield from m
                models[sid] = forever()
            eq(g, plain(next(models[sid])), f"sample {i} of worker {w}, drawn from dataset {sid}")
        for sid, a in enumerate(act):
            p = a / sum(act)
            tol = 6.5 * math.sqrt(len(got) * p * (1 - p)) + 4
            check(abs(count[sid] - len(got) * p) <= tol, "dataset %s with probability %.4f was drawn %s of %s times",
                  sid, p, count[sid], len(got))
        if case["mix"] is None:
            fresh = BlendDataset(*[(build(s, wc), x) for s, x in zip(case["ins"], weights)], worker_config=wc)
            for k, g in list(zip(keys, got))[:6]:
                eq(restore_one(fresh, wc, k, w, keep=plain), g, f"sample restored from {k}")
        rec.nt(sum(c > 0 for c in count) >= 2)
        rec.label("empty or zero", len([a for a in act if a == 0]))
        rec.label("mix", case["mix"] is not None)


@st.composite
def nested(draw):
    return {"nw": draw(st.integers(0, 2)), "w": draw(st.lists(st.floats(0.1, 5).map(lambda x: round(x, 2)),
                                                              min_size=4, max_size=4)),
            "seed": draw(st.integers(0, 1000))}


def nested_body(case, rec):
    """Nested blends: probabilities multiply, each leaf keeps its own stream."""
    nw = case["nw"]
    wc = wcfg(nw, seed_offset=case["seed"])
    w4 = case["w"]
    leaf = [{"op": "src", "id": i, "n": [3 + i] * max(nw, 1)} for i in range(4)]
    spec = {"op": "blend", "w": [w4[0], w4[1]], "ins": [
        leaf[0], {"op": "blend", "w": [w4[2], w4[3], w4[0]], "ins": leaf[1:]}]}
    a, b = w4[0] / (w4[0] + w4[1]), w4[1] / (w4[0] + w4[1])
    s = w4[2] + w4[3] + w4[0]
    probs = [a, b * w4[2] / s, b * w4[3] / s, b * w4[0] / s]
    firsts = []
    for w in range(max(nw, 1)):
        got = Stream(build(spec, wc), wc, w, keep=lambda s: s.val).take(600)
        for i, p in enumerate(probs):
            mine = [v for v in got if v[0] == i]
            base = sum(leaf[i]["n"][:w])
            eq([v[1] - base for v in mine], [j % (3 + i) for j in range(len(mine))], "stream of a leaf")
            tol = 6.5 * math.sqrt(len(got) * p * (1 - p)) + 4
            check(abs(len(mine) - len(got) * p) <= tol, "leaf %s with probability %.4f drawn %s of %s times",
                  i, p, len(mine), len(got))
        firsts.append(tuple(v[0] for v in got[:200]))
    if nw > 1 and max(probs) < 0.8:
        check(len(set(firsts)) == len(firsts), "different workers draw the same choices")
    rec.nt()


CHECK = Check("P11", subs=[
    Sub("blend", cases, body, quick=160, shards=7, thorough=1500,
        rule="samples of at least two datasets drawn"),
    Sub("nested", nested, nested_body, quick=60, shards=1, thorough=1500, rule="all")])
