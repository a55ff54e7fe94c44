"""P04: a pipeline restored from a checkpoint continues exactly."""
import pickle

from hypothesis import strategies as st

from vp import gen
from vp.harness import Check, Sub, Violation, check, eq
from vp import pipes, wds
from vp.other import elsewhere
from vp.lib import Stream, as_worker, kinds_of, wcfg
from vp.lib import build as lib_build

from checks import p02


@st.composite
def cases(draw, depth=4):
    nw = draw(st.sampled_from([0, 1, 2, 3]))
    n = max(nw, 1)
    spec, kind = gen.pipe(draw, nw, draw(st.integers(1, depth)), [0])
    rounds = draw(st.lists(
        st.lists(st.sampled_from([None, 0] + 3 * list(range(1, 17))), min_size=n, max_size=n), min_size=1, max_size=3))
    return {"nw": nw, "spec": spec, "rounds": rounds, "extra": draw(st.integers(4, 20)),
            "seed": draw(st.integers(0, 20)), "pickle": draw(st.booleans()),
            "peek": draw(st.booleans())}


@st.composite
def mix_cases(draw):
    case = draw(cases(depth=2))
    m = draw(st.integers(1, 3))
    sids = [10]
    ins = [gen.pipe(draw, case["nw"], 2, sids)[0] for _ in range(m)]
    case["spec"] = {"op": "mix", "ins": ins, "w": draw(st.lists(st.sampled_from([0.5, 1.0, 3.0]), min_size=m, max_size=m)),
                    "size": draw(st.integers(1, 4))}
    return case


class NotProducing(Exception):
    pass


def run(case, rec, make=None, limit=None, **kw):
    """`make` builds the pipeline, `limit` tells how many samples a worker can deliver at most."""
    nw, spec = case["nw"], case.get("spec")
    n = max(nw, 1)
    wc = kw.pop("wc", None) or wcfg(nw, seed_offset=case["seed"])
    rounds = case["rounds"]
    total = [sum((r[w] or 0) for r in rounds) + case["extra"] for w in range(n)]
    if limit:
        total = [min(t, limit(w)) for w, t in enumerate(total)]
    patience = kw.pop("patience", 12)
    build = make or (lambda spec, wc: lib_build(spec, wc))

    def take(stream, k):
        try:
            return stream.take(k)
        except RuntimeError as e:
            if "Pre packer did not yield" in str(e):
                raise NotProducing()
            raise

    ref = [take(Stream(build(spec, wc), wc, w, **kw), total[w]) for w in range(n)]

    # Interrupted run: in every round, each worker continues from the merged state of the last round
    pos = [0] * n
    started = [False] * n
    merged = None
    merged_blob = None
    for r in rounds:
        states = []
        later = []
        for w in range(n):
            ds = build(spec, wc)
            if merged is not None:
                ds.restore_state(pickle.loads(merged_blob) if case["pickle"] else merged)
            stream = Stream(ds, wc, w, index=pos[w], patience=patience, **kw)
            if r[w] is None and not started[w]:
                states.append(None)
                continue
            started[w] = True
            want = ref[w][pos[w]: pos[w] + (r[w] or 0)]
            k = len(want)
            got = []
            if case["peek"]:
                for _ in range(k):
                    stream.save()
                    got += take(stream, 1)
            else:
                got = take(stream, k)
            eq(got, want, f"worker {w} at position {pos[w]}")
            state = stream.save()
            blob = pickle.dumps(state)
            # continuing must not change the saved state
            later.append((w, state, blob, stream, pos[w] + k))
            pos[w] += k
            states.append(state)
        for w, state, blob, stream, p in later:
            want = ref[w][p: p + 3]
            eq(take(stream, len(want)), want, f"worker {w} continuing after saving at {p}")
            eq(state, pickle.loads(blob), f"saved state of worker {w} after continuing")
        new = build(spec, wc).merge_states(states)
        if merged is not None:
            eq(merged, pickle.loads(merged_blob), "the restored state after being used")
        merged = new
        merged_blob = pickle.dumps(merged)

    for attempt in range(2):
        for w in range(n):
            ds = build(spec, wc)
            ds.restore_state(pickle.loads(merged_blob) if case["pickle"] else merged)
            if attempt == 1:
                # rolling back a pipeline in use
                used = Stream(ds, wc, w, index=pos[w], patience=patience, **kw)
                take(used, min(1 + case["extra"] % 5, len(ref[w]) - pos[w]))
                used.close()
                with as_worker(w, nw):
                    ds.restore_state(pickle.loads(merged_blob) if case["pickle"] else merged)
            stream = Stream(ds, wc, w, index=pos[w], patience=patience, **kw)
            want = ref[w][pos[w]: pos[w] + case["extra"]]
            eq(take(stream, len(want)), want, f"worker {w} resumed at {pos[w]}, attempt {attempt}")
            if attempt == 0 and w == 0:
                # back to the beginning
                stream.close()
                with as_worker(w, nw):
                    ds.restore_state(None)
                want = ref[w][:10]
                eq(take(Stream(ds, wc, w, patience=patience, **kw), len(want)), want, "after restoring the initial state")
        eq(merged, pickle.loads(merged_blob), "the merged state after being restored")
    rec.nt(any(pos) and all(len(r) > 3 for r in ref))
    rec.label("not started", any(x is None for r in rounds for x in r))
    rec.label("chain", len(rounds) > 1)
    for k in kinds_of(spec) if spec else ():
        rec.label(k)


def body(case, rec):
    try:
        run(case, rec)
    except NotProducing:
        rec.label("pre packer without packs")


@st.composite
def encoder_cases(draw):
    """Webdatasets and task encoders."""
    case = draw(cases(depth=1))
    del case["spec"]
    com = draw(p02.common())
    return {**com, **case, "world": draw(st.sampled_from([1, 1, 2])), "rank": draw(st.integers(0, 1)),
            "limit": draw(st.sampled_from([None, None, 3, 7])), "epoch": draw(st.sampled_from([0, 0, 4, 9])),
            "te": draw(pipes.te_specs())}


def make_pipe(path, case, wc):
    from megatron.energon import get_train_dataset, get_val_dataset

    te = case["te"]
    kw = dict(split_part=case["split"], worker_config=wc, batch_size=pipes.batch_size(te),
              batch_drop_last=case["drop"], packing_buffer_size=te["pack"]["size"] if te["pack"] else None,
              task_encoder=pipes.make_te(te))
    if case["train"]:
        return get_train_dataset(path, shuffle_buffer_size=case["shuffle"], virtual_epoch_length=case["epoch"],
                                 max_samples_per_sequence=case["max_samples"],
                                 shuffle_over_epochs_multiplier=case["mult"], **kw)
    return get_val_dataset(path, limit=case["limit"], **kw)


def encoder_body(case, rec):
    nw, world = case["nw"], case["world"]
    if case["train"] and not p02.enough(dict(case, g=max(nw, 1) * world)):
        rec.label("fewer samples than workers")
        return
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        wc = wcfg(nw, case["rank"] % world, world, case["seed"])

        def limit(w):
            if case["train"]:
                if case["epoch"] and case["epoch"] // max(nw, 1) + (w < case["epoch"] % max(nw, 1)) == 0:
                    return 0
                return p02.available(path, dict(case, n=200), wc, w, 60)
            return 10**6 if Stream(make_pipe(path, case, wc), wc, w, keep=pipes.obs).epoch() else 0

        run(case, rec, lambda spec, wc: make_pipe(path, case, wc), limit, wc=wc, keep=pipes.obs,
            patience=10**9 if case["train"] else 5)
    te = case["te"]
    for k in ("pack", "group"):
        rec.label(k, bool(te[k]))
    rec.label("train" if case["train"] else "val")
    rec.label("blend", len(case["sets"]) > 1)


# ------------------------------------------------------------------ in another process


@st.composite
def process_cases(draw):
    if draw(st.booleans()):
        return draw(cases(depth=3))
    return draw(encoder_cases())


def leg(case, path, w, blob, index, k):
    """A worker continues from a state for k samples; returns them and its new state."""
    nw = case["nw"]
    if path:
        wc = wcfg(nw, case["rank"] % case["world"], case["world"], case["seed"])
        ds, kw = make_pipe(path, case, wc), dict(keep=pipes.obs, patience=10**9 if case["train"] else 5)
    else:
        wc = wcfg(nw, seed_offset=case["seed"])
        ds, kw = lib_build(case["spec"], wc), dict(patience=12)
    with pipes.quiet():
        if blob is not None:
            ds.restore_state(pickle.loads(blob))
        stream = Stream(ds, wc, w, index=index, **kw)
        try:
            got = stream.take(k)
        except RuntimeError as e:
            if "Pre packer did not yield" in str(e):
                return None, None
            raise
        return got, pickle.dumps(stream.save())


def process_body(case, rec):
    """Each round continues in another process, with only the pickled state of the one before."""
    n = max(case["nw"], 1)
    with wds.scratch() as root, pipes.quiet():
        path = None
        if "spec" not in case:
            if case["train"] and not p02.enough(dict(case, g=n * case["world"])):
                rec.label("fewer samples than workers")
                return
            path = pipes.write(root, case["sets"])
        ref = []
        for w in range(n):
            total = sum((r[w] or 0) for r in case["rounds"]) + case["extra"]
            if path and case["train"]:
                wc = wcfg(case["nw"], case["rank"] % case["world"], case["world"], case["seed"])
                if case["epoch"] and case["epoch"] // n + (w < case["epoch"] % n) == 0:
                    total = 0
                else:
                    total = min(total, p02.available(path, dict(case, n=200), wc, w, 60))
            elif path:
                wc = wcfg(case["nw"], case["rank"] % case["world"], case["world"], case["seed"])
                if not Stream(make_pipe(path, case, wc), wc, w, keep=pipes.obs).epoch():
                    total = 0
            ref.append(leg(case, path, w, None, 0, total)[0])
            if ref[-1] is None:
                rec.label("pre packer without packs")
                return
        pos, blob, legs = [0] * n, None, 0
        for i, r in enumerate(case["rounds"] + [[case["extra"]] * n]):
            states = []
            for w in range(n):
                want = ref[w][pos[w]: pos[w] + (r[w] or 0)]
                go = leg if i % 2 == 0 else lambda *a: elsewhere(leg, *a)
                got, state = go(case, path, w, blob, pos[w], len(want))
                eq(got, want, f"worker {w} at position {pos[w]}, round {i}")
                states.append(pickle.loads(state))
                pos[w] += len(want)
                legs += i > 0 and len(want) > 0
            wc = wcfg(case["nw"], seed_offset=case["seed"])
            if path:
                wc = wcfg(case["nw"], case["rank"] % case["world"], case["world"], case["seed"])
            ds = make_pipe(path, case, wc) if path else lib_build(case["spec"], wc)
            blob = pickle.dumps(ds.merge_states(states))
    rec.nt(legs and any(len(r) > 3 for r in ref))
    rec.label("from disk", path)
    rec.label("wrappers", not path)
    rec.label("workers", n > 1)


CHECK = Check("P04", subs=[
    Sub("resume", cases, body, quick=500, shards=7, thorough=6000,
        rule="some worker has consumed samples before a save, and every worker yields at least 4"),
    Sub("mix", mix_cases, body, quick=200, shards=1, thorough=3000, rule="as resume"),
    Sub("encoder", encoder_cases, encoder_body, quick=60, shards=2, thorough=1500, rule="as resume"),
    Sub("process", process_cases, process_body, quick=40, shards=2, thorough=1500, budget=20.0,
        rule="samples were delivered after a state was handed to another process"),
])
