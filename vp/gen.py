"""Hypothesis strategies for pipeline specifications."""
from __future__ import annotations

from hypothesis import strategies as st

NW = st.sampled_from([0, 1, 2, 3, 4])


def src(draw, nw, lo=0, hi=9, sid=0):
    n = max(nw, 1)
    return {"op": "src", "id": sid, "n": draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))}


def small_step(draw, inner, kinds):
    """One 1:1-ish step around `inner`."""
    k = draw(st.sampled_from(kinds))
    return step(draw, inner, k)


P = st.integers(1, 5)
P2 = st.integers(2, 5)


def step(draw, inner, k):
    if k == "filter":
        return {"op": "filter", "p": draw(P2), "in": inner}
    if k.startswith("map:"):
        kind = k[4:]
        return {"op": "map", "kind": kind, "p": draw(P2 if kind in ("skip", "err") else P), "in": inner}
    if k.startswith("itermap"):
        return {"op": "itermap", "kind": k[8:], "p": draw(P2), "in": inner}
    if k.startswith("batch:"):
        return {"op": "batch", "kind": k[6:], "p": draw(P2), "size": draw(st.integers(1, 5)),
                "drop": draw(st.booleans()), "in": inner}
    if k.startswith("pack"):
        return {"op": "pack", "kind": k[5:], "p": draw(st.integers(1, 4)),
                "size": draw(st.integers(1, 7)), "in": inner}
    if k in ("gc", "log"):
        return {"op": k, "in": inner}
    raise AssertionError(k)


def wrap(draw, inner, kinds, max_depth=2):
    for _ in range(draw(st.integers(0, max_depth))):
        inner = small_step(draw, inner, kinds)
    return inner


# ------------------------------------------------------------------ savable compositions
#
# Every generated pipeline has a kind:
#   F  finite; a resume knows whether the epoch is over
#   E  finite epochs of an endless stream (epochize): a resume at the end of an epoch starts the
#      next one, so only the flat stream is exact and no step counting epochs is put on top
#   I  endless

MAPS = ["map:pure", "map:idx", "map:skip", "map:err", "map:gen", "map:generr", "map:rand", "map:randgen"]
ONE = MAPS + ["filter", "itermap:drop", "itermap:err", "gc", "log"]
BATCH_KINDS = ["pure", "keep", "idx", "skip", "err", "gen", "generr"]
GROUP_KINDS = ["pure", "keep", "idx", "skip", "err"]
PACK_KINDS = ["", "sort", "drop", "packerr", "gen", "skip", "err", "idx"]


def pipe(draw, nw, depth, sids, want=None, restorable=False):
    """(spec, kind) of a random pipeline; `want` restricts the kind."""
    n = max(nw, 1)

    def leaf():
        sid = sids[0]
        sids[0] += 1
        s = {"op": "src", "id": sid, "n": draw(st.lists(st.integers(1, 8), min_size=n, max_size=n))}
        if want == "I":
            return {"op": "repeat", "n": None, "in": s}, "I"
        return s, "F"

    if depth <= 0:
        return leaf()
    group = draw(st.sampled_from(["one", "one", "many", "len", "buf", "mix"]))
    if group == "one":
        inner, k = pipe(draw, nw, depth - 1, sids, want, restorable)
        # several samples per fetched one can only be restored one by one
        ops = [o for o in ONE if not o.startswith("itermap")] if k == "E" else ONE + ["itermap:multi"] * restorable
        return step(draw, inner, draw(st.sampled_from(ops))), k
    if group == "many":
        inner, k = pipe(draw, nw, depth - 1, sids, want or draw(st.sampled_from(["F", "I"])), restorable)
        if draw(st.booleans()):
            return {"op": "batch", "kind": draw(st.sampled_from(BATCH_KINDS)), "p": draw(P2),
                    "size": draw(st.integers(1, 5)), "drop": draw(st.booleans()), "in": inner}, k
        return {"op": "pack", "kind": draw(st.sampled_from(PACK_KINDS)), "p": draw(st.integers(1, 4)),
                "size": draw(st.integers(1, 6)), "in": inner}, k
    if group == "buf":
        inner, k = pipe(draw, nw, depth - 1, sids, want if want == "I" else draw(st.sampled_from(["F", "I"]))
                        if want is None else want, restorable)
        if draw(st.booleans()):
            return {"op": "shuffle", "size": draw(st.integers(1, 6)), "in": inner}, k
        return {"op": "group", "kind": draw(st.sampled_from(GROUP_KINDS)), "p": draw(st.integers(1, 4)),
                "size": draw(st.one_of(st.none(), st.integers(1, 4))), "drop": draw(st.booleans()),
                "in": inner}, k
    if group == "mix":
        if want == "F":
            ins = [pipe(draw, nw, depth - 1, sids, "F", restorable)[0] for _ in range(draw(st.integers(1, 3)))]
            return {"op": "concat", "ins": ins}, "F"
        m = draw(st.integers(1, 3))
        ins = [pipe(draw, nw, depth - 1, sids, None, restorable)[0] for _ in range(m)]
        w = draw(st.lists(st.sampled_from([0.5, 1.0, 1.0, 3.0]), min_size=m, max_size=m))
        return {"op": "blend", "ins": ins, "w": w}, "I"
    # len
    if want == "I":
        inner, _ = pipe(draw, nw, depth - 1, sids, "F", restorable)
        return {"op": "repeat", "n": None, "in": inner}, "I"
    op = draw(st.sampled_from(["limit", "repeat"] if want == "F" else ["limit", "repeat", "epochize", "inf"]))
    if op == "epochize":
        inner, _ = pipe(draw, nw, depth - 1, sids, None, restorable)
        return {"op": "epochize", "n": draw(st.integers(n, 14)), "in": inner}, "E"
    if op == "limit":
        inner, _ = pipe(draw, nw, depth - 1, sids, draw(st.sampled_from(["F", "I"])), restorable)
        return {"op": "limit", "n": draw(st.integers(n, 14)), "reset": draw(st.booleans()), "in": inner}, "F"
    inner, _ = pipe(draw, nw, depth - 1, sids, "F", restorable)
    if op == "inf":
        return {"op": "repeat", "n": None, "in": inner}, "I"
    return {"op": "repeat", "n": draw(st.integers(1, 3)), "in": inner}, "F"
