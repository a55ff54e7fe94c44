"""P32: announced lengths are what is delivered."""
import warnings

from hypothesis import strategies as st

from megatron.energon import get_loader, get_savable_loader, get_val_dataset
from megatron.energon.metadataset import load_dataset

from checks import p29
from vp import pipes, wds
from vp.harness import Check, Sub, check, eq
from vp.lib import Src, Stream, build, wcfg
from vp.loaders import forked

warnings.simplefilter("ignore")

# --------------------------------------------------------------------- datasets on disk


@st.composite
def cases(draw, max_nw=4):
    """Validation pipelines which neither skip nor combine samples by their content."""
    case = draw(p29.layout(max_nw))
    case.update(sets=draw(pipes.data_specs(max_sets=draw(st.sampled_from([1, 1, 2])), max_n=9)),
                encode=draw(st.sampled_from(["none", "tag"])), batch=draw(st.sampled_from(["std", "own"])),
                size=draw(st.sampled_from([1, 2, 3, 4, 7])), drop=draw(st.booleans()),
                split=draw(st.sampled_from(["val", "train"])), limit=draw(st.sampled_from([None, None, 1, 2, 3, 5, 9, 30])),
                training=draw(st.integers(0, 3)) == 0, max_samples=draw(st.sampled_from([None, 1, 2])))
    if case["batch"] == "std" and draw(st.integers(0, 2)) == 0:
        case["size"] = None
    return case


def encoder(case):
    return {"base": "plain", "encode": case["encode"], "pack": None, "group": None, "batch": case["batch"], "eb": "none",
            "size": case["size"]}


def make(case, path, wc):
    return get_val_dataset(path, split_part=case["split"], worker_config=wc, batch_size=case["size"],
                           batch_drop_last=case["drop"], limit=case["limit"], task_encoder=pipes.make_te(encoder(case)))


def exact(case, path, wc):
    """Without a balanced distribution over the workers, the number of batches is not known.

    A limit is divided among the workers beforehand, so it must not be between their numbers of batches.
    """
    if len(case["sets"]) > 1 and case["size"] is not None:
        return False
    if not case["limit"]:
        return True
    n = p29.n_workers(case)
    ds = make(dict(case, limit=None), path, wc)
    have = [len(Stream(ds, wc, w, keep=pipes.obs).epoch(1000)) for w in range(n)]
    share = [p29.share(case["limit"], case["nw"], w) for w in range(n)]
    return all(s <= h for s, h in zip(share, have)) or all(s >= h for s, h in zip(share, have))


def disk_body(case, rec):
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        truth = list(map(len, pipes.truth(case["sets"], case["split"])))
        for f, n in zip(pipes.factories(path, case["split"], case["training"], wcfg(case["nw"], 0, case["world"])), truth):
            eq(len(f[0]), n, "length of the dataset over all ranks")
        announced = 0
        for rank in range(case["world"]):
            wc = wcfg(case["nw"], rank, case["world"], case["seed"])
            raw = [f.build() for f, _ in load_dataset(path).get_datasets(
                training=case["training"], split_part=case["split"], worker_config=wc,
                **({"max_samples_per_sequence": case["max_samples"]} if case["training"] else {}))]
            announced += sum(map(len, raw))
            if not case["training"]:
                for i, d in enumerate(raw):
                    got = [Stream(d, wc, w, keep=pipes.kt).epoch(1000) for w in range(p29.n_workers(case))]
                    eq(len(d), sum(map(len, got)), f"length of dataset {i} on rank {rank}")
                ds = make(case, path, wc)
                got = [len(Stream(ds, wc, w, keep=pipes.obs).epoch(1000)) for w in range(p29.n_workers(case))]
                known = exact(case, path, wc)
                if known:
                    eq(len(ds), sum(got), f"announced number of batches on rank {rank}, of which the workers deliver {got}")
                rec.nt(sum(got) > 1 and known)
                rec.label("limited", known and bool(case["limit"]) and sum(got) == case["limit"])
                rec.label("remainder dropped", case["drop"] and known and bool(case["size"]))
        eq(announced, sum(truth), "lengths of all ranks")
    rec.label("several datasets", len(case["sets"]) > 1)
    rec.label("training", case["training"])


# --------------------------------------------------------------------- wrappers


@st.composite
def wrapper_cases(draw):
    nw = draw(st.integers(0, 4))
    n = max(nw, 1)

    def neutral(spec):
        for _ in range(draw(st.integers(0, 2))):
            spec = {"op": draw(st.sampled_from(["shuffle", "gc", "log", "map"])), "in": spec}
            if spec["op"] == "shuffle":
                spec["size"] = draw(st.integers(2, 5))
            if spec["op"] == "map":
                spec.update(kind="pure", p=1)
        return spec

    def source(id, base, extra, first):
        return {"op": "src", "id": id, "n": [base + ((w - first) % n < extra) for w in range(n)]}

    kind = draw(st.sampled_from(["single", "concat", "endless"]))
    base, extra = draw(st.integers(0, 8)), draw(st.integers(0, n - 1))
    if kind == "concat":
        spec = {"op": "concat", "ins": [neutral(source(i, draw(st.integers(0, 5)), draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))))
                                        for i in range(draw(st.integers(1, 3)))]}
    else:
        spec = neutral(source(0, base + (kind == "endless"), extra, 0))
    if kind == "endless":
        spec = {"op": "epochize", "n": draw(st.integers(1, 30)), "in": neutral({"op": "repeat", "n": None, "in": spec})}
    elif kind == "single":
        if draw(st.booleans()):
            spec = neutral({"op": "batch", "size": draw(st.integers(1, 5)), "kind": "pure", "p": 1, "drop": draw(st.booleans()), "in": spec})
        if draw(st.booleans()):
            spec = neutral({"op": "limit", "n": draw(st.integers(0, 14)), "reset": draw(st.booleans()), "in": spec})
    if kind != "endless" and draw(st.integers(0, 2)) == 0:
        spec = neutral({"op": "repeat", "n": draw(st.integers(1, 3)), "in": spec})
    return {"nw": nw, "spec": spec, "kind": kind, "epochs": draw(st.integers(1, 2))}


def wrapper_body(case, rec):
    wc = wcfg(case["nw"])
    total, each = [0] * case["epochs"], []
    for w in range(max(case["nw"], 1)):
        s = Stream(build(case["spec"], wc), wc, w)
        each.append([len(s.epoch(1000)) for _ in range(case["epochs"])])
    with pipes.quiet():
        for e in range(case["epochs"]):
            eq(len(build(case["spec"], wc)), sum(x[e] for x in each), f"announced length, workers deliver {each}")
    rec.nt(sum(x[0] for x in each) > 1)
    rec.label(case["kind"])


# --------------------------------------------------------------------- loaders


@st.composite
def loader_cases(draw):
    case = draw(cases(3))
    case.update(savable=draw(st.booleans()), training=False, world=draw(st.integers(1, 2)), partial=draw(st.integers(0, 3)))
    case["sets"] = case["sets"][:1]
    return case


def loader_body(case, rec):
    with wds.scratch() as root, pipes.quiet():
        path = pipes.write(root, case["sets"])
        for rank in range(case["world"]):
            def run():
                wc = wcfg(case["nw"], rank, case["world"], case["seed"])
                loader = (get_savable_loader if case["savable"] else get_loader)(make(case, path, wc))
                n = len(loader)
                with warnings.catch_warnings(record=True) as got:
                    warnings.simplefilter("always")
                    res = [n, len(list(loader)), len(list(loader)), len(loader)]
                return res, [str(w.message) for w in got if "Length of IterableDataset" in str(w.message)]

            if not exact(case, path, wcfg(case["nw"], rank, case["world"], case["seed"])):
                continue
            (n, one, two, after), warned = forked(run)
            eq((one, two, after), (n, n, n), "batches of the first and second pass, and the length after that")
            eq(warned, [], "warnings about the length")
            rec.nt(n > 1)
    rec.label("savable", case["savable"])
    rec.label("worker processes", case["nw"])


CHECK = Check("P32", subs=[
    Sub("disk", cases, disk_body, quick=250, shards=4, thorough=4000, budget=25.0, rule="more than one batch is delivered"),
    Sub("wrappers", wrapper_cases, wrapper_body, quick=1500, shards=2, thorough=12000, rule="more than one sample is delivered"),
    Sub("loader", loader_cases, loader_body, quick=40, shards=2, thorough=400, budget=25.0, hang_cpu=60.0, rule="more than one batch is delivered"),
])
