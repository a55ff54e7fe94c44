"""P29: training and validation loaders deliver the described data."""
import itertools
import warnings

from hypothesis import strategies as st

from megatron.energon import (
    get_loader, get_savable_loader, get_train_dataset, get_val_dataset, get_val_datasets,
)

from vp import pipes, wds
from vp.harness import Check, Sub, check, eq
from vp.lib import Stream, wcfg
from vp.loaders import forked, interleave

warnings.simplefilter("ignore")


@st.composite
def layout(draw, max_nw=3):
    nw = draw(st.integers(0, max_nw))
    return {"nw": nw, "world": draw(st.sampled_from([1, 1, 2, 3])), "seed": draw(st.integers(0, 10**6))}


def n_workers(case):
    return max(case["nw"], 1)


def share(n, nw, w):
    nw = max(nw, 1)
    return n // nw + (1 if w < n % nw else 0)


# ------------------------------------------------------------------ training


@st.composite
def train_cases(draw):
    return {**draw(layout()), "sets": draw(pipes.data_specs()), "te": draw(pipes.te_specs(early=True)),
            "split": draw(st.sampled_from(["train", "train", "val"])),
            "shuffle": draw(st.sampled_from([None, None, 1, 2, 3, 8])),
            "max_samples": draw(st.sampled_from([None, None, 1, 2, 3])),
            "mult": draw(st.sampled_from([1, 1, 2, -1])),
            "epoch": draw(st.sampled_from([0, 0, 1, 2, 3, 5, 8])),
            "drop": draw(st.booleans()), "raw": draw(st.integers(20, 70)), "pick": draw(st.integers(0, 100))}


def train_kw(case):
    te = case["te"]
    return dict(split_part=case["split"], batch_size=pipes.batch_size(te), batch_drop_last=case["drop"],
                packing_buffer_size=te["pack"]["size"] if te["pack"] else None,
                shuffle_buffer_size=case["shuffle"], max_samples_per_sequence=case["max_samples"],
                virtual_epoch_length=case["epoch"], shuffle_over_epochs_multiplier=case["mult"])


def train_raw(path, case, wc, w, n):
    ds = pipes.raw_train(path, case["split"], wc, shuffle=case["shuffle"], max_samples=case["max_samples"],
                         multiplier=case["mult"])
    return Stream(ds, wc, w, keep=pipes.kt).take(n)


def worker_epochs(flat, length):
    return [flat[i:i + length] for i in range(0, len(flat) - length + 1, length)]


def train_body(case, rec):
    te = case["te"]
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        allowed = {s for part in pipes.truth(case["sets"], case["split"]) for s in part}
        for rank in range(case["world"]):
            for w in range(n_workers(case)):
                if case["world"] * n_workers(case) > 3 and (rank * n_workers(case) + w) % 3 != case["pick"] % 3:
                    continue
                wc = wcfg(case["nw"], rank, case["world"], case["seed"])
                total = sum(map(len, pipes.truth(case["sets"], case["split"])))
                if total < case["world"] * n_workers(case):
                    rec.label("fewer samples than workers")
                    continue
                raw = train_raw(path, case, wc, w, case["raw"])
                check(len(raw) == case["raw"], "the training data ends after %s samples", len(raw))
                for s in raw:
                    check(s in allowed, "sample %s is not in split %s", s, case["split"])
                exp = pipes.prefix(pipes.TEModel(te, w, case["nw"], case["drop"]), raw)
                ds = get_train_dataset(path, worker_config=wc, task_encoder=pipes.make_te(te), **train_kw(case))
                stream = Stream(ds, wc, w, keep=pipes.obs, patience=10**9)
                if not case["epoch"]:
                    eq(stream.take(len(exp)), exp, f"training batches of worker {rank}/{w}")
                else:
                    n = share(case["epoch"], case["nw"], w)
                    eq(len(ds), case["epoch"], "length of the virtual epoch")
                    if n == 0:
                        eq([stream.epoch(), stream.epoch()], [[], []], "virtual epoch of a worker without a share")
                        rec.label("no share")
                    else:
                        for e, want in enumerate(worker_epochs(exp, n)):
                            eq(stream.epoch(), want, f"virtual epoch {e} of worker {rank}/{w}")
                rec.nt(len(exp) > 3)
                for k, v in (("encode", te["encode"]), ("eb", te["eb"])):
                    rec.label(f"{k}:{v}", bool(exp) and v != "none")
                rec.label("grouped", bool(te["group"]) and len(exp) > 3)
                rec.label("grouped, encoded batches", bool(te["group"]) and te["eb"] != "none")
                rec.label("packed", bool(te["pack"]) and len(exp) > 3)
                rec.label("virtual epochs", case["epoch"] > 0 and len(exp) > 3)
                rec.label("blend", len(case["sets"]) > 1)


# ------------------------------------------------------------------ validation


@st.composite
def val_cases(draw):
    return {**draw(layout()), "sets": draw(pipes.data_specs()), "te": draw(pipes.te_specs(early=True)),
            "split": draw(st.sampled_from(["val", "val", "train"])),
            "limit": draw(st.sampled_from([None, None, None, 0, 1, 2, 3, 5, 9])), "drop": draw(st.booleans()),
            "passes": draw(st.integers(1, 3)), "each": draw(st.integers(0, 3)) == 0}


def val_kw(case):
    te = case["te"]
    return dict(split_part=case["split"], batch_size=pipes.batch_size(te), batch_drop_last=case["drop"],
                packing_buffer_size=te["pack"]["size"] if te["pack"] else None, limit=case["limit"])


def val_expected(case, raw, w):
    """The batches of a worker, for each pass."""
    model = pipes.TEModel(case["te"], w, case["nw"], case["drop"])
    res = []
    for _ in range(case["passes"]):
        out = list(itertools.islice(model.run(iter(raw)), share(case["limit"], case["nw"], w) if case["limit"] else None))
        if case["limit"]:
            model.reset()
        res.append(out)
    return res


def val_body(case, rec):
    te = case["te"]
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        truth = pipes.truth(case["sets"], case["split"])
        parts = [[i] for i in range(len(truth))] if case["each"] else [list(range(len(truth)))]
        raws = [[] for _ in parts]
        for rank in range(case["world"]):
            wc = wcfg(case["nw"], rank, case["world"], case["seed"])
            for w in range(n_workers(case)):
                if case["each"]:
                    got = get_val_datasets(path, worker_config=wc, task_encoder=pipes.make_te(te), **val_kw(case))
                    eq([len(f) for _, f in got], [len(t) for t in truth], "lengths of the validation datasets")
                    eq([str(f.path) for _, f in got],
                       [str((root / f"d{i}").absolute()) for i in range(len(truth))], "paths of the validation datasets")
                    got = [d for d, _ in got]
                    src = [f.build() for f, _ in pipes.factories(path, case["split"], False, wc)]
                else:
                    got = [get_val_dataset(path, worker_config=wc, task_encoder=pipes.make_te(te), **val_kw(case))]
                    src = [pipes.raw_val(path, case["split"], wc)]
                for i, (ds, rd) in enumerate(zip(got, src)):
                    raw = Stream(rd, wc, w, keep=pipes.kt).epoch()
                    raws[i] += raw
                    exp = val_expected(case, raw, w)
                    st_ = Stream(ds, wc, w, keep=pipes.obs)
                    for p, want in enumerate(exp):
                        eq(st_.epoch(len(raw) * 3 + 10), want, f"pass {p} of worker {rank}/{w}")
                    rec.nt(len(exp[0]) > 1)
        for i, part in enumerate(parts):
            eq(sorted(raws[i]), sorted(s for j in part for s in truth[j]), "validation samples over all workers")
    rec.label("limit", bool(case["limit"]))
    rec.label("grouped, encoded batches", bool(te["group"]) and te["eb"] != "none")
    rec.label("packed", bool(te["pack"]))
    rec.label("several passes", case["passes"] > 1)


# ------------------------------------------------------------------ loaders


@st.composite
def loader_cases(draw):
    train = draw(st.booleans())
    case = draw(train_cases()) if train else draw(val_cases())
    case.update(train=train, savable=draw(st.booleans()), passes=2, each=False, nw=draw(st.integers(0, 2)),
                world=draw(st.integers(1, 2)), raw=60, epoch=draw(st.sampled_from([1, 3, 6])) if train else 0)
    return case


def loader_body(case, rec):
    te = case["te"]
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        total = sum(map(len, pipes.truth(case["sets"], case["split"])))
        if case["train"] and total < case["world"] * n_workers(case):
            return
        for rank in range(case["world"]):
            wc = wcfg(case["nw"], rank, case["world"], case["seed"])
            per_worker = []
            for w in range(n_workers(case)):
                if case["train"]:
                    flat = pipes.prefix(pipes.TEModel(te, w, case["nw"], case["drop"]),
                                        train_raw(path, case, wc, w, case["raw"]))
                    n = share(case["epoch"], case["nw"], w)
                    if len(flat) < 2 * n:
                        rec.label("too few batches")
                        return
                    per_worker.append([flat[:n], flat[n:2 * n]])
                else:
                    raw = Stream(pipes.raw_val(path, case["split"], wc), wc, w, keep=pipes.kt).epoch()
                    per_worker.append(val_expected(case, raw, w))
            exp = [x if x is None else x[2] for x in interleave(per_worker)]

            def run():
                wc = wcfg(case["nw"], rank, case["world"], case["seed"])
                tenc = pipes.make_te(te)
                ds = (get_train_dataset(path, worker_config=wc, task_encoder=tenc, **train_kw(case)) if case["train"]
                      else get_val_dataset(path, worker_config=wc, task_encoder=tenc, **val_kw(case)))
                loader = get_savable_loader(ds) if case["savable"] else get_loader(ds)
                res = []
                for _ in range(2):
                    res += [pipes.obs(b) for b in loader]
                    res.append(None)
                return res

            eq(forked(run), exp, f"batches of the loader of rank {rank}")
            rec.nt(len(exp) > 6)
    rec.label(("train" if case["train"] else "val") + f" nw={case['nw']}")


CHECK = Check("P29", subs=[
    Sub("train", train_cases, train_body, quick=270, shards=4, thorough=8000,
        rule="the worker delivers more than 3 batches"),
    Sub("val", val_cases, val_body, quick=260, shards=3, thorough=4000, rule="a worker delivers more than one batch"),
    Sub("loader", loader_cases, loader_body, quick=70, shards=1, thorough=400, budget=20,
        rule="the loader delivers more than 4 batches in two passes")])
