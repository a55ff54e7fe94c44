"""P09: grouped batching never mixes groups or loses samples."""
from collections import Counter

from hypothesis import strategies as st

from megatron.energon.wrappers import GroupBatchDataset, SkipSample

from vp import gen
from vp.harness import Check, Sub, check, eq
from vp.lib import BatchFns, Boom, Src, Stream, build, freeze, hv, restore_one, wcfg
from vp.model import Model, plain

# different keys, which look alike
MIXED = ["1", 1, (1,), "(1,)", ("1",)]


@st.composite
def cases(draw):
    nw = draw(gen.NW)
    n = max(nw, 1)
    groups = draw(st.integers(1, 5))
    return {
        "nw": nw, "epochs": draw(st.integers(1, 3)),
        "inner": gen.wrap(draw, gen.src(draw, nw, 0, 25), ["map:pure", "filter", "map:gen"], 1),
        "groups": groups,
        "size": draw(st.one_of(st.none(), st.integers(1, 6))),
        "sizes": draw(st.lists(st.integers(1, 5), min_size=groups, max_size=groups)),
        "drop": draw(st.booleans()),
        "kind": draw(st.sampled_from(["pure", "keep", "idx", "skip", "err"])),
        "p": draw(st.integers(2, 4)),
        "keyerr": draw(st.sampled_from([None, None, "skip", "err"])),
        "salt": draw(st.integers(0, 50)),
        "keytype": draw(st.sampled_from(["int", "str", "tuple", "mixed"])),
    }


def group_of(case, val):
    return hv((case["salt"], val)) % case["groups"]


def key_fails(case, val):
    return case["keyerr"] is not None and hv((case["salt"], 1, val)) % 4 == 0


def body(case, rec):
    nw = case["nw"]
    wc = wcfg(nw)
    errors = []

    def handler(e, samples):
        if not isinstance(e, Boom):
            e.vp_from_repo = True
            raise e
        errors.append(tuple(s.val for s in samples))

    def key_fn(s):
        if key_fails(case, s.val):
            if case["keyerr"] == "skip":
                raise SkipSample()
            raise Boom("key")
        g = group_of(case, s.val)
        k = {"int": g, "str": f"g{g}", "tuple": ("g", g), "mixed": MIXED[g]}[case["keytype"]]
        return k, (case["sizes"][g] if case["size"] is None else None)

    def mk():
        return GroupBatchDataset(
            build(case["inner"], wc), case["size"], key_fn, BatchFns(case["kind"], case["p"]).fn(),
            batcher_stateless=True, drop_last=case["drop"], error_handler=handler, worker_config=wc)

    for w in range(max(nw, 1)):
        ds = mk()
        src = ds
        while not isinstance(src, Src):
            src = src.dataset
        inner = Model(case["inner"], w, nw)
        stream = Stream(ds, wc, w, keep=lambda s: (src.pulled, s))
        seen_idx = 0
        restorable = []
        for e in range(case["epochs"]):
            errors.clear()
            samples = []
            for s in inner:
                samples.append(plain(s))
            # what is expected: batches in the order in which they become full, then remainders
            buckets, full, full_at, exp_err = {}, [], [], []
            for i, (k, v) in enumerate(samples):
                if key_fails(case, v):
                    if case["keyerr"] == "err":
                        exp_err.append((v,))
                    continue
                g = group_of(case, v)
                size = case["sizes"][g] if case["size"] is None else case["size"]
                b = buckets.setdefault(g, [])
                b.append((k, v))
                if len(b) == size:
                    full.append(list(b))
                    full_at.append(i)
                    b.clear()
            rest = [b for b in buckets.values() if b] if not case["drop"] else []
            before = src.pulled
            got = stream.epoch()

            def outcome(batch, idx):
                """The expected result of one batch; None if it is skipped or fails."""
                vals = tuple(v for _, v in batch)
                key = "|".join(k for k, _ in batch)
                h = hv(("b",) + vals) % case["p"] == 0
                if case["kind"] == "skip" and h:
                    return None
                if case["kind"] == "err" and h:
                    exp_err.append(vals)
                    return None
                if case["kind"] == "idx":
                    return key, ("bi", idx * max(nw, 1) + w) + ("b",) + vals
                return key, ("b",) + vals

            want = []
            for b in full:
                r = outcome(b, seen_idx)
                seen_idx += 1
                if r is not None:
                    want.append(r)
            n_full = len(want)
            eq([plain(s) for _, s in got[:n_full]], want, f"full batches of worker {w}, epoch {e}")
            rest_got = Counter()
            for _, s in got[n_full:]:
                k, v = plain(s)
                rest_got[(k, v[2:] if case["kind"] == "idx" else v)] += 1
            rest_want = Counter()
            for b in rest:
                r = outcome(b, 0)
                if r is not None:
                    rest_want[(r[0], r[1][2:] if case["kind"] == "idx" else r[1])] += 1
            if case["kind"] == "idx":
                eq(sorted(plain(s)[1][1] for _, s in got[n_full:]),
                   [(seen_idx + i) * max(nw, 1) + w for i in range(len(rest))],
                   "batch indices of the remainders")
            seen_idx += len(rest)
            eq(rest_got, rest_want, f"remaining batches of worker {w}, epoch {e}")
            eq(Counter(errors), Counter(exp_err), "reported errors")
            if case["inner"]["op"] == "src" and case["kind"] in ("pure", "idx"):
                eq([p - before for p, _ in got[:n_full]], [i + 1 for i in full_at],
                   "samples read when each full batch was emitted")
            rec.nt(len(buckets) >= 2 and len(full) >= 2)
            rec.label("remainder", rest)
            rec.label("errors", exp_err)
            restorable += [s for _, s in got]
        fresh = mk()
        for s in restorable[:8]:
            eq(restore_one(fresh, wc, s.__restore_key__, w), freeze(s), "restored batch")


CHECK = Check("P09", subs=[
    Sub("groups", cases, body, quick=1500, shards=6, thorough=12000,
        rule="an epoch with at least two groups and two full batches")])
