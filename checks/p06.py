"""P06: any yielded sample can be restored from its restore key."""
import copy
import json
import pickle
import random
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from megatron.energon import get_loader, get_savable_loader, stateless
from megatron.energon.flavors.text import TextSample

from checks import p02, p28, p29
from vp import gen, pipes, wds
from vp.harness import Check, Sub, check, eq
from vp.lib import Stream, as_worker, build, derive, freeze, hv, kinds_of, restore_one, wcfg
from vp.loaders import forked
from vp.other import elsewhere

warnings.simplefilter("ignore")


@st.composite
def cases(draw, depth=4):
    nw = draw(st.sampled_from([0, 1, 2, 3]))
    n = max(nw, 1)
    spec, kind = gen.pipe(draw, nw, draw(st.integers(1, depth)), [0], restorable=True)
    return {"nw": nw, "spec": spec, "rank": draw(st.integers(0, 2)), "take": draw(st.integers(3, 14)),
            "seed": draw(st.integers(0, 20)), "pick": draw(st.lists(st.integers(0, 13), min_size=1, max_size=8)),
            "order": draw(st.booleans())}


def body(case, rec):
    nw, spec = case["nw"], case["spec"]
    wc = wcfg(nw, rank=case["rank"], world=3, seed_offset=case["seed"])

    def keep(s):
        return freeze(s), copy.deepcopy(s.__restore_key__)

    def take(stream, k):
        try:
            return stream.take(k)
        except RuntimeError as e:
            if "Pre packer did not yield" in str(e):
                rec.label("pre packer without packs")
                return None
            raise

    fresh = build(spec, wc)
    for w in range(max(nw, 1)):
        gid = wc.rank * nw + w  # what the loaders put into the restore keys
        ref = take(Stream(build(spec, wc), wc, w, keep=keep), case["take"])
        if ref is None:
            return
        picks = [p % len(ref) for p in case["pick"]] if ref else []
        for p in picks:
            val, key = ref[p]
            got = restore_one(fresh, wc, pickle.loads(pickle.dumps(key)), gid, p)
            eq(got, val, f"sample {p} of worker {w} restored by a fresh pipeline")
        if nw == 0:
            # restoring between reading samples from the same pipeline
            ds = build(spec, wc)
            stream = Stream(ds, wc, 0, keep=keep, patience=6)
            for i in range(len(ref)):
                got = stream.take(1)
                eq(got, [ref[i]], f"sample {i} while others are restored")
                j = (i * 7 + case["pick"][0]) % (i + 1)
                eq(restore_one(ds, wc, ref[j][1], gid, j), ref[j][0], f"sample {j} restored after reading {i}")
        rec.nt(len(ref) > 2)
    for k in kinds_of(spec):
        rec.label(k)


# ------------------------------------------------------------------ task encoders on disk


@stateless(restore_seeds=True)
def random_sample(self, sample):
    """Augmentation: depends on the global generators."""
    draws = [random.random(), float(np.random.rand()), float(torch.rand(()))]
    return TextSample.derive_from(sample, text=f"{sample.text}|{hash(tuple(draws)) % 10**9}")


@stateless(restore_seeds=True)
def random_batch(self, batch):
    draws = [random.random(), float(np.random.rand()), float(torch.rand(()))]
    return pipes.Bat(list(batch.__key__), batch.__restore_key__, list(batch.texts), f"|{hash(tuple(draws)) % 10**9}")


@st.composite
def encoder_cases(draw, max_nw=3):
    case = draw(p28.common(max_nw))
    case.update(te=draw(pipes.te_specs()), n=draw(st.integers(2, 8)), rand=draw(st.sampled_from([None, None, "s", "b"])),
                order=draw(st.permutations(range(8))))
    if case["rand"] == "b":
        case["te"].update(batch="own", size=case["te"]["size"] or 2)
    return case


def with_random(case):
    """The task encoder, encoding with random augmentations."""
    ns = {"s": {"encode_sample": random_sample}, "b": {"encode_batch": random_batch}}.get(case["rand"], {})
    te = dict(case["te"], _ns=ns)
    if case["crude"]:
        te["_ns"] = dict(ns, cookers=p28.cookers(case["crude"]))
    return dict(case, te=te)


def make(path, case, wc):
    c = with_random(case)
    return p28.make(path, dict(c, crude=None), wc)


def enough(path, case, rank, n, rec):
    """Whether all workers make enough batches, so that reading ends."""
    if not case["train"]:
        return True
    total = sum(map(len, pipes.truth(case["sets"], case["split"])))
    if total < case["world"] * p29.n_workers(case):
        return False
    for w in range(p29.n_workers(case)):
        wc = p28.config(case, rank, 0, None)
        # how many samples come through depends on the texts only if there are no random texts
        if case["rand"] == "s" and (case["te"]["eb"] in ("err", "skip", "gen") or case["te"]["pack"] or case["te"]["group"]):
            case["te"].update(eb="none", pack=None, group=None)
        have = p28.avail(path, case, wc, w) if case["crude"] else p02.available(path, dict(case, n=30), wc, w, 90)
        if have < n:
            rec.label("too few batches")
            return False
    return True


def encoder_body(case, rec):
    case = copy.deepcopy(case)
    with wds.scratch() as root, pipes.quiet():
        path = p28.write(root / "ds", case)
        for rank in range(case["world"]):
            if not enough(path, case, rank, case["n"], rec):
                return
            wc = wcfg(case["nw"], rank, case["world"], case["seed"])
            fresh = make(path, case, wc)
            check(fresh.can_restore_sample(), "samples of stateless pipelines cannot be restored")
            for w in range(p29.n_workers(case)):
                ds = make(path, case, wc)
                s = Stream(ds, wc, w, keep=lambda b: (pipes.obs(b), copy.deepcopy(b.__restore_key__)), patience=10**9)
                got = s.epoch(1000) if not case["train"] or case["epoch"] else s.take(case["n"])
                gid = rank * case["nw"] + w
                for i in case["order"]:
                    if i >= len(got):
                        continue
                    want, key = got[i]
                    for where, d, c in (("a fresh", fresh, wc), ("the reading", ds, wc)):
                        if where == "the reading" and case["nw"]:
                            continue  # the reading process is another one
                        b = restore_one(d, c, pickle.loads(pickle.dumps(key)), gid, i, keep=lambda b: (pipes.obs(b), b.__restore_key__))
                        eq(b, (want, key), f"batch {i} of worker {rank}/{w} restored by {where} pipeline")
                if case["train"] and not case["epoch"] and not case["nw"]:
                    more = s.take(2)
                    s2 = Stream(make(path, case, wc), wc, w, keep=lambda b: (pipes.obs(b), copy.deepcopy(b.__restore_key__)), patience=10**9)
                    eq(more, s2.take(case["n"] + 2)[case["n"]:], "batches read after restoring")
                rec.nt(len(got) > 1)
    rec.label("random", bool(case["rand"]))
    rec.label("crude", bool(case["crude"]))
    rec.label("packed", bool(case["te"]["pack"]))
    rec.label("grouped", bool(case["te"]["group"]))
    rec.label("train", case["train"])
    rec.label("blend", len(case["sets"]) > 1)
    rec.label("index", "idx" in (case["te"]["encode"], case["te"]["eb"]))


# ------------------------------------------------------------------ loaders


@st.composite
def loader_cases(draw):
    case = draw(encoder_cases(2))
    case.update(savable=draw(st.booleans()), n=draw(st.integers(2, 12)), resume=draw(st.booleans()),
                epoch=draw(st.sampled_from([0, 0, 4])), between=draw(st.booleans()), world=draw(st.integers(1, 2)))
    return case


def loader_body(case, rec):
    case = copy.deepcopy(case)
    rank = case["world"] - 1
    with wds.scratch() as root, pipes.quiet():
        path = p28.write(root / "ds", case)
        if not enough(path, case, rank, case["n"] + 12, rec):
            return

        def new():
            wc = wcfg(case["nw"], rank, case["world"], case["seed"])
            return (get_savable_loader if case["savable"] else get_loader)(make(path, case, wc))

        def restore(loader, got, what):
            for i in case["order"]:
                if i < len(got):
                    want, key = got[i]
                    b = loader.restore_sample(pickle.loads(pickle.dumps(key)))
                    eq((pipes.obs(b), b.__restore_key__), (want, key), f"batch {i} restored by {what}")

        def collect(it, n):
            got = []
            while len(got) < n:
                try:
                    b = next(it)
                except StopIteration:
                    break
                got.append((pipes.obs(b), copy.deepcopy(b.__restore_key__)))
            return got

        def run():
            one = new()
            check(one.can_restore_sample(), "samples of stateless loaders cannot be restored")
            it = iter(one)
            got = collect(it, case["n"])
            if case["between"]:
                restore(one, got, "the loader which is being read")
                got += collect(it, 3)
            if case["resume"] and case["savable"] and got:
                two = new()
                two.restore_state_rank(one.save_state_rank())
                again = collect(iter(two), 4)
                restore(two, again, "the resumed loader")
                restore(new(), again, "a fresh loader (resumed)")
            restore(new(), got, "a fresh loader")
            return len(got), len({str(k) for _, k in got})

        n, keys = forked(run)
        if not case["train"]:
            eq(keys, n, "different restore keys in one pass")
        rec.nt(n > 1)
        rec.label("savable", case["savable"])
        rec.label("resumed", case["resume"] and case["savable"] and n > 0)
        rec.label("worker processes", case["nw"] > 0 and n > 1)
        rec.label("random", bool(case["rand"]) and n > 1)


# ------------------------------------------------------------------ claims

#: What declares a step of a pipeline as stateless
FLAGS = {"map": "stateless_map_fn", "itermap": "stateless_iter_fn", "batch": "batcher_stateless",
         "group": "batcher_stateless", "pack": "final_packer_stateless"}


@st.composite
def claim_cases(draw):
    nw = draw(st.integers(0, 2))
    spec, kind = gen.pipe(draw, nw, draw(st.integers(1, 5)), [0])
    specs = []

    def collect(s):
        if s["op"] in FLAGS:
            specs.append(s)
        for i in [s["in"]] if "in" in s else s.get("ins", ()):
            collect(i)

    collect(spec)
    # rather few steps are not stateless
    for i in range(draw(st.sampled_from([0, 1, 1, 2])) if specs else 0):
        draw(st.sampled_from(specs))["impure"] = True
    return {"nw": nw, "spec": spec, "loader": draw(st.sampled_from(["", "", "basic", "savable"]))}


def claimed(spec):
    return not spec.get("impure") and all(claimed(i) for i in ([spec["in"]] if "in" in spec else spec.get("ins", ())))


def declare(ds, spec):
    """Makes the steps of the pipeline as stateless as the specification says."""
    if spec.get("impure"):
        check(getattr(ds, FLAGS[spec["op"]]) is True, "there is no such declaration")
        setattr(ds, FLAGS[spec["op"]], False)
    if "in" in spec:
        declare(ds.dataset, spec["in"])
    inner = [d for d, *_ in ds.dataset_weights] if spec["op"] == "blend" else getattr(ds, "datasets", ())
    for d, s in zip(inner, spec.get("ins", ())):
        declare(d, s)


def claim_body(case, rec):
    spec = case["spec"]
    wc = wcfg(case["nw"])
    ds = build(spec, wc)
    declare(ds, spec)
    want = claimed(spec)
    eq(ds.can_restore_sample(), want, "whether samples can be restored")
    try:
        ds.assert_can_restore()
        ok = True
    except AssertionError:
        ok = False
    eq(ok, want, "whether the pipeline is refused for restoring")
    if case["loader"]:
        with pipes.quiet():
            loader = (get_loader if case["loader"] == "basic" else get_savable_loader)(ds)
        eq(loader.can_restore_sample(), want, "whether the loader can restore samples")
    # the samples of other pipelines are refused, not restored wrongly
    if not want and not case["nw"]:
        pure = copy.deepcopy(spec)
        got = Stream(build(pure, wc), wc, 0, keep=lambda s: copy.deepcopy(s.__restore_key__))
        try:
            got = got.take(3)
        except RuntimeError:
            got = []
        refused = 0
        for i, key in enumerate(got):
            try:
                restore_one(ds, wc, key, 0, i)
            except AssertionError:
                refused += 1
        chain = "ins" not in json.dumps(spec)
        if chain:
            eq(refused, len(got), "samples refused by pipelines which are not stateless")
            rec.nt(len(got) > 0)
    rec.nt(not want)
    rec.label("restorable", want)
    for k in {s for s in kinds_of(spec) if s.split(":")[0] in FLAGS}:
        rec.label(k.split(":")[0])


#: The methods of a task encoder, each defined, defined as stateless, or left as they are
METHODS = ["encode_sample", "batch", "encode_batch", "pack_selected_samples"]


@st.composite
def declared_cases(draw):
    return {"nw": draw(st.integers(0, 2)), "train": draw(st.booleans()), "size": draw(st.sampled_from([None, 1, 2])),
            "pack": draw(st.sampled_from([None, None, 2])), "group": draw(st.sampled_from([None, None, "fixed", "own"])),
            "has": {m: draw(st.sampled_from(["no", "yes", "yes", "seeded", "impure"])) for m in METHODS},
            "n": draw(st.integers(1, 2)), "buffer": draw(st.sampled_from([None, 3])), "epoch": draw(st.sampled_from([0, 4]))}


class Ready:
    """Stands for a dataset factory."""

    def __init__(self, ds):
        self.ds = ds

    def build(self, **kw):
        return self.ds

    def __len__(self):
        return len(self.ds)


def declared_body(case, rec):
    """Whether the methods of a task encoder which are used are stateless."""
    from megatron.energon import TaskEncoder

    has, size, pack, group = dict(case["has"]), case["size"], case["pack"], case["group"]
    if group == "own":
        size = None
    elif group == "fixed":
        size = size or 2
    if not pack:
        has["pack_selected_samples"] = "no"
    elif has["pack_selected_samples"] == "no":
        has["pack_selected_samples"] = "yes"
    if size is None and not group:  # not allowed without batches
        has["batch"] = has["encode_batch"] = "no"
    fns = {"encode_sample": lambda self, s: derive(s, ("e", s.val)), "encode_batch": lambda self, b: derive(b, ("eb", b.val)),
           "batch": lambda self, ss: derive(ss[0], ("b",) + tuple(s.val for s in ss)),
           "pack_selected_samples": lambda self, ss: derive(ss[0], ("p",) + tuple(s.val for s in ss))}
    ns = {}
    for m, how in has.items():
        if how != "no":
            fn = (lambda f: lambda self, x: f(self, x))(fns[m])
            ns[m] = stateless(fn) if how == "yes" else stateless(restore_seeds=True)(fn) if how == "seeded" else fn
    if pack:
        ns["select_samples_to_pack"] = lambda self, ss: [[s] for s in ss]
    if group:
        ns["batch_group_criterion"] = lambda self, s: (hv(s.val) % 2, None if group == "fixed" else 2)
    te = type("TE", (TaskEncoder,), ns)()
    wc = wcfg(case["nw"])
    n = max(case["nw"], 1)
    srcs = [(Ready(build({"op": "src", "id": i, "n": [3] * n}, wc)), 1.0) for i in range(case["n"])]
    kw = dict(datasets=srcs, worker_config=wc, batch_size=size, packing_buffer_size=pack)
    if case["train"]:
        ds = te.build_train_datasets(**kw, virtual_epoch_length=case["epoch"], shuffle_buffer_size=case["buffer"])
    else:
        ds = te.build_val_datasets(**kw)
    want = "impure" not in has.values()
    eq(ds.can_restore_sample(), want, "whether samples can be restored")
    try:
        ds.assert_can_restore()
        ok = True
    except AssertionError:
        ok = False
    eq(ok, want, "whether restoring is refused")
    if want and has["batch"] != "no":
        s = Stream(ds, wc, 0, keep=lambda b: (freeze(b), copy.deepcopy(b.__restore_key__)))
        for i, (val, key) in enumerate(s.take(2)):
            eq(restore_one(ds, wc, key, 0, i), val, f"restored batch {i}")
    rec.nt(not want)
    rec.label("restorable", want)
    rec.label("grouped", bool(group))
    rec.label("packed", bool(pack))


# ------------------------------------------------------------------ in another process


@st.composite
def process_cases(draw):
    return {"disk": True, **draw(encoder_cases())} if draw(st.integers(0, 2)) else {"disk": False, **draw(cases(depth=3))}


def restore_all(case, path, rank, keys):
    with pipes.quiet():
        if path:
            wc = wcfg(case["nw"], rank, case["world"], case["seed"])
            ds, keep = make(path, case, wc), lambda b: (pipes.obs(b), b.__restore_key__)
        else:
            wc = wcfg(case["nw"], rank=rank, world=3, seed_offset=case["seed"])
            ds, keep = build(case["spec"], wc), lambda b: (freeze(b), b.__restore_key__)
        return [restore_one(ds, wc, key, gid, i, keep=keep) for gid, i, key in keys]


def process_body(case, rec):
    """The restore keys, handed to another process, give the same samples."""
    case = copy.deepcopy(case)
    with wds.scratch() as root, pipes.quiet():
        rank, path = case["rank"] if not case["disk"] else case["world"] - 1, None
        if case["disk"]:
            path = p28.write(root / "ds", case)
            if not enough(path, case, rank, case["n"], rec):
                return
        want, keys = [], []
        for w in range(max(case["nw"], 1)):
            if path:
                wc = wcfg(case["nw"], rank, case["world"], case["seed"])
                s = Stream(make(path, case, wc), wc, w, keep=lambda b: (pipes.obs(b), copy.deepcopy(b.__restore_key__)), patience=10**9)
                got = s.epoch(1000) if not case["train"] or case["epoch"] else s.take(case["n"])
            else:
                wc = wcfg(case["nw"], rank=rank, world=3, seed_offset=case["seed"])
                s = Stream(build(case["spec"], wc), wc, w, keep=lambda b: (freeze(b), copy.deepcopy(b.__restore_key__)))
                try:
                    got = s.take(case["take"])
                except RuntimeError as e:
                    if "Pre packer did not yield" in str(e):
                        return
                    raise
            want += got
            keys += [(rank * case["nw"] + w, i, key) for i, (_, key) in enumerate(got)]
        res = elsewhere(restore_all, case, path, rank, keys)
        eq(res, want, "samples restored in another process")
    rec.nt(len(want) > 2)
    rec.label("from disk", case["disk"])
    rec.label("random", bool(case.get("rand")))


CHECK = Check("P06", subs=[
    Sub("wrappers", cases, body, quick=500, shards=8, thorough=5000, rule="at least 3 samples yielded by a worker"),
    Sub("claims", claim_cases, claim_body, quick=400, shards=2, thorough=6000, rule="a step is not stateless"),
    Sub("declared", declared_cases, declared_body, quick=500, shards=2, thorough=6000, rule="a method which is used is not stateless"),
    Sub("encoders", encoder_cases, encoder_body, quick=40, shards=8, thorough=2000, budget=25.0, rule="at least 2 batches delivered by a worker"),
    Sub("process", process_cases, process_body, quick=60, shards=2, thorough=2000, budget=20.0, rule="at least 3 samples are restored"),
    Sub("loaders", loader_cases, loader_body, quick=12, shards=8, thorough=400, budget=25.0, hang_cpu=60.0, rule="at least 2 batches delivered"),
])
