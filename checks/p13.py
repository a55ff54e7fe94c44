"""P13: mapping and filtering treat every sample exactly once, in order."""
from hypothesis import strategies as st

from megatron.energon.wrappers import BatchDataset, FilterDataset, IterMapDataset, MapDataset, SkipSample

from vp import gen
from vp.harness import Check, Sub, check, eq
from vp.lib import Boom, Stream, VS, build, derive, hv, kinds_of, silent, vs, wcfg
from vp.model import Model, plain

STEPS = ["map:pure", "map:idx", "map:bidx", "map:skip", "map:err", "map:gen", "map:generr", "filter",
         "itermap:drop", "itermap:err", "itermap:multi", "batch:idx", "batch:gen", "gc"]


@st.composite
def cases(draw):
    nw = draw(gen.NW)
    spec = gen.src(draw, nw, 0, 12)
    for _ in range(draw(st.integers(1, 4))):
        spec = gen.small_step(draw, spec, STEPS)
    return {"nw": nw, "epochs": draw(st.integers(1, 3)), "spec": spec}


def body(case, rec):
    nw, spec = case["nw"], case["spec"]
    wc = wcfg(nw)
    # an iterator map looks one sample ahead when its function fails: batch indices are then those
    # of the surrounding call, so they are only compared without it
    for w in range(max(nw, 1)):
        stream = Stream(build(spec, wc), wc, w, keep=lambda s: s)
        model = Model(spec, w, nw)
        for e in range(case["epochs"]):
            want = model.epoch()
            got = [plain(s) for s in stream.epoch()]
            eq(got, want, f"samples of worker {w}, epoch {e}")
            rec.nt(len(want) >= 2)
        for k in kinds_of(spec):
            rec.label(k)


@st.composite
def index_cases(draw):
    nw = draw(gen.NW)
    n = max(nw, 1)
    return {"nw": nw, "n": draw(st.lists(st.integers(0, 12), min_size=n, max_size=n)),
            "rank": draw(st.integers(0, 3)), "epochs": draw(st.integers(1, 3)),
            "where": draw(st.sampled_from(["map", "filter", "itermap", "two maps"])),
            "p": draw(st.integers(1, 4))}


def index_body(case, rec):
    """The indices seen by user functions, recorded inside of the functions."""
    from megatron.energon.worker import WorkerConfig

    nw = case["nw"]
    wc = wcfg(nw, rank=case["rank"], world=4)
    n = max(nw, 1)
    from vp.lib import Src

    seen, batch_seen, calls = [], [], []

    def ix(s):
        a = WorkerConfig.active_worker_config
        seen.append(a.active_worker_sample_index)
        batch_seen.append(a.active_worker_batch_index)
        calls.append(s.val)

    per_worker = []
    for w in range(n):
        seen.clear(), batch_seen.clear(), calls.clear()
        ds = Src(case["n"], 0, worker_config=wc)
        acc = lambda s: hv(s.val) % case["p"] == 0
        if case["where"] in ("map", "two maps"):
            def f(s):
                ix(s)
                return s
            if case["where"] == "two maps":
                ds = FilterDataset(ds, filter_fn=acc, worker_config=wc)
            ds = MapDataset(ds, f, error_handler=silent, stateless_map_fn=True, worker_config=wc)
        elif case["where"] == "filter":
            def f(s):
                ix(s)
                return acc(s)
            ds = FilterDataset(ds, filter_fn=f, worker_config=wc)
        else:
            def f(it):
                for s in it:
                    calls.append(s.val)
                    yield derive(s, s.val)
            ds = IterMapDataset(ds, f, error_handler=silent, stateless_iter_fn=True, worker_config=wc)
        stream = Stream(ds, wc, w, keep=lambda s: s.val)
        outs = []
        for _ in range(case["epochs"]):
            outs += stream.epoch()
        items = [(0, i) for i in range(sum(case["n"][:w]), sum(case["n"][:w + 1]))] * case["epochs"]
        kept = [v for v in items if hv(v) % case["p"] == 0]
        want_calls = kept if case["where"] == "two maps" else items
        eq(calls, want_calls, "samples the function was called with")
        if case["where"] == "map" or case["where"] == "itermap":
            eq(outs, items, "results")
        else:
            eq(outs, kept, "results")
        if case["where"] != "itermap":
            eq(seen, [i * n + w for i in range(len(want_calls))], f"sample indices of worker {w}")
            if case["where"] == "map":
                eq(batch_seen, seen, "batch indices")
            check(all(b % n == w for b in batch_seen), "batch indices %s of worker %s", batch_seen, w)
            per_worker += seen
        rec.nt(len(calls) >= 2)
    eq(len(set(per_worker)), len(per_worker), "number of distinct sample indices over all workers")
    rec.label(case["where"])


@st.composite
def gen_cases(draw):
    nw = draw(gen.NW)
    n = max(nw, 1)
    return {"nw": nw, "n": draw(st.lists(st.integers(0, 10), min_size=n, max_size=n)),
            "epochs": draw(st.integers(1, 3)),
            "where": draw(st.sampled_from(["map", "batch"])), "size": draw(st.integers(1, 4)),
            "p": draw(st.integers(1, 4)), "salt": draw(st.integers(0, 9)),
            "how": draw(st.sampled_from(["skip", "err", "mixed", "none"]))}


def gen_body(case, rec):
    """Functions which generate results, and then may skip the rest or fail: each sample is passed to
    the function once, also over several passes, and the function sees one index for it."""
    from megatron.energon.worker import WorkerConfig
    from vp.lib import Src

    nw, p, salt = case["nw"], case["p"], case["salt"]
    n = max(nw, 1)
    wc = wcfg(nw)

    def results(v):
        return hv(("n", salt, v)) % 4

    def ending(v):
        if case["how"] == "none" or hv(("e", salt, v)) % p:
            return None
        return case["how"] if case["how"] != "mixed" else ("skip", "err")[hv(("k", v)) % 2]

    for w in range(n):
        calls, handled = [], []

        def generate(v, key, s):
            calls.append([v, []])
            cur = calls[-1]
            for i in range(results(v)):
                cur[1].append(WorkerConfig.active_worker_config.active_worker_sample_index)
                yield vs((i, *v), key=key)
            cur[1].append(WorkerConfig.active_worker_config.active_worker_sample_index)
            if ending(v) == "skip":
                raise SkipSample()
            if ending(v) == "err":
                raise Boom("generator")

        ds = Src(case["n"], 0, worker_config=wc)
        kw = dict(error_handler=lambda e, x: handled.append([s.val for s in x] if isinstance(x, list) else x.val),
                  worker_config=wc)
        items = [(0, i) for i in range(sum(case["n"][:w]), sum(case["n"][:w + 1]))]
        if case["where"] == "map":
            def f(s):
                yield from generate(tuple(s.val), s.__key__, s)
            ds = MapDataset(ds, f, stateless_map_fn=True, **kw)
        else:
            def f(b):
                yield from generate(tuple(s.val for s in b), "+".join(s.__key__ for s in b), b)
            ds = BatchDataset(ds, case["size"], f, batcher_stateless=True, **kw)
            items = [tuple(items[i:i + case["size"]]) for i in range(0, len(items), case["size"])]
        want_calls, want_out, want_handled, out = [], [], [], []
        stream = Stream(ds, wc, w, keep=lambda s: s.val)
        for _ in range(case["epochs"]):
            out += stream.epoch()
            for v in items:
                want_calls.append([v, len(want_calls)])
                want_out += [(i, *v) for i in range(results(v))]
                if ending(v) == "err":
                    want_handled.append(list(v) if case["where"] == "batch" else v)
        eq([c[0] for c in calls], [c[0] for c in want_calls], f"inputs of the function on worker {w}")
        for (v, ixs), (_, i) in zip(calls, want_calls):
            eq(ixs, [i * n + w] * (results(v) + 1), f"indices seen for input {v} on worker {w}")
        eq(out, want_out, f"results of worker {w}")
        eq(handled, want_handled, f"inputs reported to the handler on worker {w}")
        rec.nt(len(calls) >= 2)
    rec.label(case["where"], case["how"])


CHECK = Check("P13", subs=[
    Sub("steps", cases, body, quick=1500, shards=5, thorough=12000, rule="at least two samples yielded"),
    Sub("indices", index_cases, index_body, quick=1000, shards=3, thorough=6000,
        rule="a function called for at least two samples of a worker"),
    Sub("generators", gen_cases, gen_body, quick=600, shards=3, thorough=6000,
        rule="a function called for at least two inputs of a worker")])
