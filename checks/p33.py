"""P33: configurations tell pipelines apart, and only by their settings."""
import copy
import dataclasses
import io
import json
import sys
import types
import warnings

import numpy as np
import PIL.Image
import torch
import yaml
from hypothesis import strategies as st

import megatron.energon as en
from megatron.energon import get_loader, get_savable_loader, get_train_dataset, get_val_dataset
from megatron.energon.epathlib import EPath
from megatron.energon.wrappers import BatchDataset, FilterDataset, GroupBatchDataset, IterMapDataset, MapDataset, PackingDataset

from vp import gen, pipes, wds
from vp.harness import Check, Sub, check, eq
from vp.lib import EXTRA, Stream, as_worker, build, derive, hv, wcfg
from vp.loaders import forked
from vp.other import elsewhere

warnings.simplefilter("ignore")


def plain(config, known=False):
    """A configuration as written to a log.

    Known finding: the byte range of a part of a shard is only filled in when it is opened.
    """
    def walk(x):
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items() if known or k not in ("byte_offset", "byte_size")}
        return list(map(walk, x)) if isinstance(x, list) else x

    return walk(json.loads(json.dumps(config)))


def compare(rec, a, b, got_a, got_b, what):
    """The configurations and the deliveries of two pipelines."""
    if got_a != got_b:
        check(a != b, f"{what}: the pipelines deliver {got_a} and {got_b}, but their configurations are equal: {json.dumps(a)[:1500]}")
        rec.label("different")
    rec.nt(got_a != got_b)


# --------------------------------------------------------------------- wrappers


#: One more step on top, to have enough of each
TOPS = [lambda draw, s, n: {"op": "limit", "n": draw(st.integers(1, 9)), "reset": draw(st.booleans()), "in": s},
        lambda draw, s, n: {"op": "repeat", "n": draw(st.integers(1, 3)), "in": s},
        lambda draw, s, n: {"op": "repeat", "n": draw(st.integers(1, 3)), "in": gen.src(draw, n, 1, 3, 50)},
        lambda draw, s, n: {"op": "epochize", "n": draw(st.integers(n, 9)), "in": s},
        lambda draw, s, n: {"op": "shuffle", "size": draw(st.integers(1, 5)), "in": s},
        lambda draw, s, n: {"op": "fn", "of": draw(st.sampled_from(["filter", "itermap", "group", "pack"])), "use": draw(st.integers(0, 2)), "in": s},
        lambda draw, s, n: {"op": "pack", "kind": "", "p": draw(st.integers(1, 4)), "size": draw(st.integers(1, 5)), "in": s},
        lambda draw, s, n: {"op": "batch", "kind": "pure", "p": 1, "size": draw(st.integers(1, 5)), "drop": draw(st.booleans()), "in": s},
        lambda draw, s, n: {"op": "group", "kind": "pure", "p": draw(st.integers(1, 3)), "size": draw(st.integers(1, 5)), "drop": draw(st.booleans()), "in": s},
        lambda draw, s, n: {"op": "concat", "ins": [s, gen.src(draw, n, 0, 3, 50)]},
        lambda draw, s, n: {"op": "concat", "ins": [gen.src(draw, n, 1, 3, 50), gen.src(draw, n, 1, 3, 51)]},
        lambda draw, s, n: {"op": "blend", "ins": [s, gen.src(draw, n, 1, 3, 50)], "w": draw(st.lists(st.sampled_from([0.5, 1.0, 3.0]), min_size=2, max_size=2))}]


def none_of(s):
    return hv(s.val) % 7 != 0


def some_of(s):
    return hv(s.val) % 2 != 0


def every_one(s):
    return True


def iter_one(it):
    yield from (derive(s, ("1", s.val)) for s in it)


def iter_two(it):
    yield from (derive(s, ("2", s.val)) for s in it)


def iter_other(it):
    for i, s in enumerate(it):
        if i % 2:
            yield s


def key_one(s):
    return 0, None


def key_two(s):
    return hv(s.val) % 2, None


def key_three(s):
    return hv(s.val) % 3, None


def pick_one(samples):
    return [samples]


def pick_two(samples):
    return [[s] for s in samples]


def pick_three(samples):
    return [samples[::2], samples[1::2]] if len(samples) > 1 else [samples]


def joined_up(samples):
    return derive(samples[0], ("p", *(s.val for s in samples)))


FNS = {"filter": [none_of, some_of, every_one], "itermap": [iter_one, iter_two, iter_other], "group": [key_one, key_two, key_three],
       "pack": [pick_one, pick_two, pick_three]}


def build_fn(spec, inner, wc):
    fn = FNS[spec["of"]][spec["use"]]
    if spec["of"] == "filter":
        return FilterDataset(inner, filter_fn=fn, worker_config=wc)
    if spec["of"] == "itermap":
        return IterMapDataset(inner, fn, stateless_iter_fn=True, worker_config=wc)
    if spec["of"] == "group":
        return GroupBatchDataset(inner, 2, fn, joined_up, batcher_stateless=True, worker_config=wc)
    return PackingDataset(inner, 4, fn, joined_up, final_packer_stateless=True, worker_config=wc)


EXTRA["fn"] = build_fn


@st.composite
def wrapper_cases(draw):
    nw = draw(st.integers(0, 2))
    n = max(nw, 1)
    if draw(st.integers(0, 7)) == 0:
        m = draw(st.integers(1, 3))
        spec = {"op": "mix", "ins": [gen.pipe(draw, nw, 1, [i * 10])[0] for i in range(m)],
                "w": draw(st.lists(st.sampled_from([0.5, 1.0, 3.0]), min_size=m, max_size=m)), "size": draw(st.integers(1, 4))}
    else:
        spec = gen.pipe(draw, nw, draw(st.integers(1, 3)), [0])[0]
    return {"nw": nw, "spec": spec, "site": draw(st.integers(0, 60)), "to": draw(st.integers(0, 30)),
            "seed": draw(st.integers(0, 5)), "read": draw(st.lists(st.integers(0, 12), min_size=n, max_size=n))}


@st.composite
def step_cases(draw):
    """A change of the last step of a short pipeline."""
    nw = draw(st.integers(0, 2))
    n = max(nw, 1)
    top = draw(st.integers(0, 4000)) % (len(TOPS) * 4)
    inner = gen.src(draw, nw, 2, 9, 0)
    if draw(st.booleans()):
        inner = gen.step(draw, inner, draw(st.sampled_from(["map:pure", "map:gen", "filter", "gc", "batch:pure"])))
    return {"nw": nw, "spec": TOPS[top // 4](draw, inner, n), "site": draw(st.integers(0, 10)) * 2 + 1, "to": draw(st.integers(0, 30)),
            "seed": draw(st.integers(0, 5)), "read": draw(st.lists(st.integers(0, 12), min_size=n, max_size=n))}


def sites(spec, path=()):
    """The settings of a pipeline which can be changed: (path, name, values)."""
    op = spec["op"]
    if op in ("batch", "pack", "mix"):
        yield path, "size", [1, 2, 3, 4, 5]
    if op == "fn":
        yield path, "use", [0, 1, 2]
    if op == "shuffle":
        yield path, "size", [1, 2, 4, 6]
    if op == "group" and spec["size"] is not None:
        yield path, "size", [1, 2, 3, 4]
    if op in ("batch", "group"):
        yield path, "drop", [False, True]
    if op == "limit":
        yield path, "n", list(range(1, 15))
        yield path, "reset", [False, True]
    if op == "epochize":
        yield path, "n", list(range(3, 15))
    if op == "repeat" and spec["n"] is not None:
        yield path, "n", [1, 2, 3]
    if op in ("blend", "mix"):
        for i in range(len(spec["w"])):
            yield path + ("w",), i, [0.5, 1.0, 3.0, 7.0]
    if op in ("batch", "pack", "group", "map") and "rand" not in spec["kind"]:
        values = {"batch": gen.BATCH_KINDS, "group": gen.GROUP_KINDS, "pack": ["", "gen"],
                  "map": ["pure", "idx", "skip", "err", "gen", "generr"]}[op]
        if spec["kind"] in values:
            yield path, "kind", values
    if op in ("concat", "blend", "mix") and len(spec["ins"]) > 1:
        yield path, "rotate", [1]
        yield path, "shorten", [1]
    if op not in ("src", "concat", "blend", "mix"):
        yield path, "remove", [1]
    if path[-1] != "root":
        yield path, "around", [1]
    if op == "src":
        yield path, "id", [90, 91]
    if "in" in spec:
        yield from sites(spec["in"], path + ("in",))
    for i, s in enumerate(spec.get("ins", ())):
        yield from sites(s, path + ("ins", i))


def change(case):
    """The pipeline with one setting changed; and which."""
    spec = {"root": copy.deepcopy(case["spec"])}
    all_sites = list(sites(case["spec"], ("root",)))
    # half of the changes at the outermost step
    top = [s for s in all_sites if s[0][0] == "root" and len([k for k in s[0][1:] if k in ("in", "ins")]) == 0]
    all_sites = top if case["site"] % 2 else all_sites
    path, name, values = all_sites[case["site"] // 2 % len(all_sites)]
    parent, at = spec, spec
    for k in path:
        parent, at = at, at[k]
    if name == "rotate":
        at["ins"] = at["ins"][1:] + at["ins"][:1]
    elif name == "shorten":
        at["ins"].pop()
        if "w" in at:
            at["w"].pop()
    elif name == "remove":
        parent[path[-1]] = at["in"]
    elif name == "around":
        parent[path[-1]] = [{"op": "shuffle", "size": 3, "in": at}, {"op": "limit", "n": 5, "in": at},
                            {"op": "repeat", "n": 2, "in": at}, {"op": "gc", "in": at}, {"op": "log", "in": at},
                            {"op": "filter", "p": 3, "in": at}, {"op": "batch", "size": 1, "kind": "pure", "p": 1, "in": at},
                            {"op": "concat", "ins": [at]}][case["to"] % 8]
    else:
        at[name] = values[case["to"] % len(values)]
    return spec["root"], f"{'/'.join(map(str, path))} {name}"


def content(s):
    return (type(s).__name__, repr(getattr(s, "val", None)), repr(s.__key__))


def take(make, wc, w, k=20):
    s = Stream(make(), wc, w, epochs=True, keep=content)
    try:
        return s.take(k)
    except RuntimeError as e:
        if "Pre packer did not yield" in str(e):
            return ["no packs"]
        raise


def wrapper_body(case, rec):
    n = max(case["nw"], 1)
    wc = wcfg(case["nw"], seed_offset=case["seed"])
    spec, what = change(case)
    with pipes.quiet():
        a, a2, b = (build(x, wc) for x in (case["spec"], case["spec"], spec))
        first, second = plain(a.config()), plain(b.config())
        eq(plain(a2.config()), first, "configuration of a pipeline built again")
        compare(rec, first, second, [take(lambda: build(case["spec"], wc), wc, w) for w in range(n)],
                [take(lambda: build(spec, wc), wc, w) for w in range(n)], what)
        if spec == case["spec"]:
            eq(second, first, "configuration")
        # Reading and restoring do not change it
        states = []
        for w in range(n):
            a = build(case["spec"], wc)
            s = Stream(a, wc, w, keep=content)
            try:
                s.take(case["read"][w])
            except RuntimeError as e:
                if "Pre packer did not yield" in str(e):
                    return
                raise
            states.append(s.save())
            s.close()
            eq(plain(a.config()), first, "configuration after reading")
        a2.restore_state(a2.merge_states(states))
        eq(plain(a2.config()), first, "configuration after restoring")
    rec.label("change " + what.split()[-1])


# --------------------------------------------------------------------- settings of user functions


def step_fn(kind, p):
    """The function(s) of a step, with a setting in a closure."""
    if kind == "map":
        return lambda s: derive(s, ("m", p, s.val))
    if kind == "filter":
        return lambda s: hv(s.val) % 4 != p
    if kind == "itermap":
        def fn(it):
            for s in it:
                yield derive(s, ("i", p, s.val))
        return fn
    if kind in ("batch", "group"):
        return lambda samples: derive(samples[0], ("b", p, *(s.val for s in samples)))
    return lambda samples: [samples[:p + 1], samples[p + 1:]] if samples[p + 1:] else [samples]


def first_two(s):
    return hv(s.val) % 2, None


def step_of(step, p, inner, wc):
    fn = step_fn(step["kind"], p)
    conf = {"none": None, "dict": {"vp": p}, "call": lambda: {"vp": p}, "deep": {"a": [{"vp": p}]}}[step["form"]]
    kind = step["kind"]
    if kind == "map":
        return MapDataset(inner, fn, map_fn_config=conf, stateless_map_fn=True, worker_config=wc)
    if kind == "filter":
        return FilterDataset(inner, filter_fn=fn, filter_fn_config=conf, worker_config=wc)
    if kind == "itermap":
        return IterMapDataset(inner, fn, iter_map_fn_config=conf, stateless_iter_fn=True, worker_config=wc)
    if kind == "batch":
        return BatchDataset(inner, 2, fn, batcher_config=conf, batcher_stateless=True, worker_config=wc)
    if kind == "group":
        return GroupBatchDataset(inner, 2, first_two, fn, batcher_config=conf, batcher_stateless=True, worker_config=wc)
    return PackingDataset(inner, 4, fn, joined_up, packer_config=conf, final_packer_stateless=True, worker_config=wc)


@st.composite
def fn_cases(draw):
    steps = draw(st.lists(st.fixed_dictionaries({
        "kind": st.sampled_from(["map", "filter", "itermap", "batch", "group", "pack"]),
        "form": st.sampled_from(["none", "dict", "dict", "call", "deep"])}), min_size=1, max_size=3))
    a = [draw(st.integers(0, 3)) for _ in steps]
    b = list(a)
    b[draw(st.integers(0, len(b) - 1))] = draw(st.integers(0, 3))
    return {"n": draw(st.integers(3, 12)), "steps": steps, "a": a, "b": b}


def settings_in(config):
    if isinstance(config, dict):
        for k, v in config.items():
            yield from [v] if k == "vp" else settings_in(v)
    elif isinstance(config, list):
        for v in config:
            yield from settings_in(v)


def fn_body(case, rec):
    wc = wcfg(0)
    given = [s["form"] != "none" for s in case["steps"]]

    def make(values):
        ds = build({"op": "src", "id": 0, "n": [case["n"]]}, wc)
        for step, p in zip(case["steps"], values):
            ds = step_of(step, p, ds, wc)
        return ds

    with pipes.quiet():
        conf = {}
        for x in "ab":
            conf[x] = plain(make(case[x]).config())
            eq(sorted(settings_in(conf[x])), sorted(p for p, g in zip(case[x], given) if g), "the given settings in the configuration")
            eq(plain(make(case[x]).config()), conf[x], "configuration of a pipeline built again")
        told = {x: [p for p, g in zip(case[x], given) if g] for x in "ab"}
        eq(conf["a"] == conf["b"], told["a"] == told["b"], "whether configurations are equal")
        if told["a"] == told["b"]:
            return
        compare(rec, conf["a"], conf["b"], take(lambda: make(case["a"]), wc, 0), take(lambda: make(case["b"]), wc, 0), "settings of functions")
    for s in case["steps"]:
        rec.label(f"{s['kind']} {s['form']}")


# --------------------------------------------------------------------- datasets


@dataclasses.dataclass
class Pair(en.Sample):
    text: str
    kind: str

    @classmethod
    def from_joined(cls, x, y):
        return cls.derive_from(x, text=f"{x.text}|{y.text}", kind=cls.__name__)


@dataclasses.dataclass
class Duo(Pair):
    pass


def join_fn(x, y):
    return Pair.derive_from(x, text=f"{x.text}&{y.text}", kind="fn")


SPLITS = ("train", "val")
MOD = types.ModuleType("vp_p33_types")
for x in (Pair, Duo, join_fn):
    setattr(MOD, x.__name__, x)
sys.modules["vp_p33_types"] = MOD


REF = {"w": [1, 2, 5], "split_part": [None, None, "train", "val"], "subflavors": [None, {"x": 1}, {"x": 2}],
       "subflavor": [None, "s", "t"], "mult": [None, 2, -1], "join": [None, None, "list", "tsil", "xy", "yx"],
       "joiner": ["Pair", "Duo", "join_fn"]}
#: Everything that can be set about a run
RUN = {"train": [False, True], "split": ["train", "val"], "size": [1, 2, 3, 4], "drop": [False, True], "pack": [1, 2, 3, 4],
       "shuffle": [None, 1, 2, 5], "epoch": [0, 1, 4, 7], "limit": [None, 1, 4, 9], "max_samples": [None, 1, 2],
       "mult": [1, 2, -1], "parallel": [None, 1, 3], "exclude": [[], [], ["d0x0000"], ["d0x0001"]], "nw": [0, 1, 2, 3],
       "world": [1, 2, 3]}
ONLY = {"train": ["shuffle", "epoch", "max_samples", "mult", "parallel"], "val": ["limit"]}


@st.composite
def cases(draw):
    counts = draw(st.lists(st.lists(st.integers(1, 4), min_size=2, max_size=4), min_size=1, max_size=2))
    refs = {"ds": list(range(len(counts))), **REF}
    a = {k: draw(st.sampled_from(v)) for k, v in RUN.items()}
    a["rank"] = draw(st.integers(0, a["world"] - 1))
    a["refs"] = [{k: draw(st.sampled_from(v)) for k, v in refs.items()} for _ in range(draw(st.integers(1, 3)))]
    b = copy.deepcopy(a)
    kind = draw(st.sampled_from(["plain", "plain", "pack", "group"]))
    useless = ONLY["val" if a["train"] else "train"] + ["pack"] * (kind != "pack")
    names = [n for n in [*RUN, "rank", "order", "fewer"] if n not in useless]
    if draw(st.booleans()):
        r = draw(st.sampled_from(b["refs"]))
        name = draw(st.sampled_from([n for n in refs if n != "joiner" or r["join"]]))
        r[name] = draw(st.sampled_from([v for v in refs[name] if v != r[name]] or refs[name]))
    else:
        name = draw(st.sampled_from(names))
        if name == "rank":
            b["rank"] = draw(st.integers(0, a["world"] - 1))
        elif name == "order":
            b["refs"] = b["refs"][1:] + b["refs"][:1]
        elif name == "fewer":
            b["refs"] = b["refs"][:-1] or b["refs"]
        else:
            b[name] = draw(st.sampled_from([v for v in RUN[name] if v != a[name]]))
            if name == "world":
                a["rank"] = b["rank"] = 0
    return {"counts": counts, "a": a, "b": b, "changed": name, "kind": kind, "seed": draw(st.integers(0, 5)),
            "loader": draw(st.integers(0, 9)) == 7, "read": draw(st.integers(0, 6))}


def write_datasets(case, root):
    for d, counts in enumerate(case["counts"]):
        shards = wds.simple_shards(counts, prefix="d0x")
        for col in range(2):
            mine = {k: [(n, (f"{d}{col}" + v.decode()).encode()) for n, v in members] for k, members in shards.items()}
            for x in "ab":
                names = list(mine)
                excl = [f"{n}/{k}" for n in names for k in case[x]["exclude"]]
                wds.write_dataset(root / f"d{d}{col}", mine, splits={"train": names[::2], "val": names[1::2]}, exclude=excl,
                                  split_config=f"split_{x}.yaml")


def write_meta(root, x, case):
    o = case[x]

    def entry(r):
        res = {"weight": r["w"], **{k: r[k] for k in ("subflavors", "subflavor", "split_part") if r[k]}}
        if r["mult"]:
            res["shuffle_over_epochs_multiplier"] = r["mult"]
        cols = [{"path": f"./d{r['ds']}{c}", "split_config": f"split_{x}.yaml"} for c in range(2)]
        if r["join"] is None:
            return {**cols[0], **res}
        if r["join"] in ("xy", "yx"):
            res["join"] = {r["join"][0]: cols[0], r["join"][1]: cols[1]}
        else:
            res["join"] = cols[::-1] if r["join"] == "tsil" else cols
        res["joiner"] = {"__module__": "vp_p33_types", ("__function__" if r["joiner"] == "join_fn" else "__class__"): r["joiner"]}
        return res

    path = root / f"meta_{x}.yaml"
    path.write_text(yaml.safe_dump({"__module__": "megatron.energon", "__class__": "MetadatasetV2",
                                    "splits": {s: {"blend": [entry(r) for r in o["refs"]]} for s in SPLITS}}))
    return str(path)


class Same(en.TaskEncoder):
    def batch(self, samples):
        return [seen(s) for s in samples]


class Packs(Same):
    def select_samples_to_pack(self, samples):
        return [samples[i:i + 2] for i in range(0, len(samples), 2)]

    def pack_selected_samples(self, samples):
        return en.TextSample.derive_from(samples[0], text=str([seen(s) for s in samples]))


class Groups(Same):
    def batch_group_criterion(self, sample):
        return sample.__key__[-1] in "02468", None


def seen(s):
    return (type(s).__name__, s.__key__, s.text, getattr(s, "kind", None), repr(s.__subflavor__), repr(s.__subflavors__))


def make(case, x, path, wc):
    o = case[x]
    te = {"plain": Same, "pack": Packs, "group": Groups}[case["kind"]]()
    kw = dict(split_part=o["split"], worker_config=wc, batch_size=o["size"], batch_drop_last=o["drop"], task_encoder=te,
              packing_buffer_size=o["pack"] if case["kind"] == "pack" else None)
    if not o["train"]:
        return get_val_dataset(path, limit=o["limit"], **kw)
    return get_train_dataset(path, shuffle_buffer_size=o["shuffle"], max_samples_per_sequence=o["max_samples"],
                             virtual_epoch_length=o["epoch"], shuffle_over_epochs_multiplier=o["mult"],
                             **({} if o["parallel"] is None else {"parallel_shard_iters": o["parallel"]}), **kw)


def workers(case, x, path):
    o = case[x]
    wc = wcfg(o["nw"], o["rank"], o["world"], case["seed"])

    def one(w):
        # nothing if there is nothing for this worker
        s = Stream(make(case, x, path, wc), wc, w, epochs=True, keep=lambda b: b)
        with as_worker(w, wc.num_workers):
            if o["train"] and not s.ds.worker_has_samples():
                return []
        return s.take(25)

    return wc, [one(w) for w in range(max(o["nw"], 1))]


def disk_body(case, rec):
    a, b, known = case["a"], case["b"], "known" in case
    with wds.scratch() as root, pipes.quiet():
        write_datasets(case, root)
        paths = {x: write_meta(root, x, case) for x in "ab"}
        if a["train"] and starving(case, "a") or b["train"] and starving(case, "b"):
            return
        got = {}
        for x in "ab":
            try:
                wc, seen_ = workers(case, x, paths[x])
            except AssertionError as e:
                if "Sample excludes must be" in str(e):
                    return
                raise
            got[x] = wc, seen_, plain(make(case, x, paths[x], wc).config())
            eq(plain(make(case, x, paths[x], wc).config()), got[x][2], "configuration of the same pipeline")
        compare(rec, got["a"][2], got["b"][2], got["a"][1], got["b"][1], case["changed"])
        if case["loader"]:
            def run():
                res = []
                for savable in (True, False):
                    loader = (get_savable_loader if savable else get_loader)(make(case, "a", paths["a"], got["a"][0]))
                    res.append([plain(loader.config(), known)])
                    if any(got["a"][1]) and (not a["train"] or all(got["a"][1])):
                        for _, _x in zip(range(case["read"]), loader):
                            pass
                        if savable:
                            again = get_savable_loader(make(case, "a", paths["a"], got["a"][0]))
                            again.restore_state_rank(loader.save_state_rank())
                            res[-1].append(plain(again.config(), known))
                    res[-1].append(plain(loader.config(), known))
                return res
            for configs in forked(run):
                eq(configs[1:], configs[:1] * (len(configs) - 1), "configurations of a loader before and after reading")
                eq(plain(configs[0]["dataset"]), got["a"][2], "configuration of the dataset of a loader")
                eq(configs[0]["num_workers"], a["nw"], "number of workers")
            rec.label("loader")
    rec.label("change " + case["changed"])
    for r in a["refs"]:
        rec.label("joined", r["join"])


def starving(case, x):
    """Excluding all samples of a worker makes it search forever."""
    return bool(case[x]["exclude"])


# --------------------------------------------------------------------- in another process


@st.composite
def process_cases(draw):
    kind = draw(st.sampled_from(["wrappers", "steps", "disk", "disk"]))
    return {"of": kind, "case": draw({"wrappers": wrapper_cases, "steps": step_cases, "disk": cases}[kind]())}


def config_here(case, path):
    c = case["case"]
    with pipes.quiet():
        if case["of"] == "disk":
            wc = wcfg(c["a"]["nw"], c["a"]["rank"], c["a"]["world"], c["seed"])
            return plain(make(c, "a", path, wc).config())
        return plain(build(c["spec"], wcfg(c["nw"], seed_offset=c["seed"])).config())


def process_body(case, rec):
    with wds.scratch() as root, pipes.quiet():
        path = None
        if case["of"] == "disk":
            write_datasets(case["case"], root)
            path = write_meta(root, "a", case["case"])
        eq(elsewhere(config_here, case, path), config_here(case, path), "configuration in another process")
    rec.nt()
    rec.label(case["of"])


# --------------------------------------------------------------------- decoding


DECODE = ["l8", "rgb8", "rgba8", "l", "rgb", "rgba", "torchl8", "torchrgb8", "torchrgba8", "torchl", "torchrgb", "torch",
          "torchrgba", "pill", "pil", "pilrgb", "pilrgba"]


@st.composite
def decode_cases(draw):
    base = {"image_decode": draw(st.sampled_from(DECODE)), "ignore_decoder_errors": draw(st.booleans()),
            "subflavor": draw(st.sampled_from([None, "x", "y"])), "subflavors": draw(st.sampled_from([{}, {"a": 1}, {"a": 2, "b": 1}]))}
    what = draw(st.sampled_from(["image_decode", "image_decode", "ignore_decoder_errors", "subflavor", "subflavors", "nothing"]))
    other = dict(base)
    if what != "nothing":
        other[what] = draw(st.sampled_from({"image_decode": DECODE, "ignore_decoder_errors": [False, True],
                                            "subflavor": [None, "x", "y"], "subflavors": [{}, {"a": 1}, {"a": 2, "b": 1}]}[what]))
    return {"a": base, "b": other, "what": what, "modes": draw(st.lists(st.sampled_from(["L", "RGB", "RGBA", "P", "bad"]), min_size=1, max_size=3))}


def pixels(v):
    if isinstance(v, torch.Tensor):
        return "tensor", str(v.dtype), tuple(v.shape), v.numpy().tobytes()
    if isinstance(v, np.ndarray):
        return "array", str(v.dtype), v.shape, v.tobytes()
    return type(v).__name__, getattr(v, "mode", None), getattr(v, "size", None), getattr(v, "tobytes", lambda: v)()


def decode_body(case, rec):
    with wds.scratch() as root, pipes.quiet():
        members = []
        for i, m in enumerate(case["modes"]):
            f = io.BytesIO()
            if m != "bad":
                PIL.Image.frombytes("RGB", (3, 2), bytes(range(40, 58))).convert(m).save(f, "PNG")
            members += [(f"{i}.png", f.getvalue() or b"no image"), (f"{i}.txt", b"t")]
        wds.write_dataset(root / "d", {"s.tar": members})
        wc = wcfg(0)

        def one(kw):
            errors = []
            def mk():
                return en.CaptioningWebdataset(EPath(root / "d"), training=False, split_part="train", worker_config=wc,
                                               field_map={"image": "png", "caption": "txt"},
                                               handler=lambda e, key=None: errors.append(key), **kw)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ds = mk().build()
                got = Stream(ds, wc, 0, keep=lambda s: (s.__key__, pixels(s.image), s.caption, s.__subflavor__, s.__subflavors__)).take(9)
            eq(plain(mk().build().config()), plain(ds.config()), "configuration of the same pipeline")
            return got, errors, plain(ds.config())

        a, b = one(case["a"]), one(case["b"])
        if case["what"] == "nothing":
            eq(b, a, "the same pipeline built again")
        compare(rec, a[2], b[2], a[:2], b[:2], f"{case['what']}: {case['a']} and {case['b']}")
        rec.label("change " + case["what"])


CHECK = Check("P33", subs=[
    Sub("decoding", decode_cases, decode_body, quick=200, shards=2, thorough=4000, budget=15.0, rule="the change makes a difference to the delivered samples"),
    Sub("wrappers", wrapper_cases, wrapper_body, quick=500, shards=2, thorough=16000, rule="the change makes a difference to the delivered samples"),
    Sub("steps", step_cases, wrapper_body, quick=2500, shards=1, thorough=10000, rule="the change makes a difference to the delivered samples"),
    Sub("fns", fn_cases, fn_body, quick=1500, shards=1, thorough=20000, rule="the change makes a difference to the delivered samples"),
    Sub("process", process_cases, process_body, quick=60, shards=1, thorough=2000, budget=20.0, rule="two configurations are compared"),
    Sub("disk", cases, disk_body, quick=400, shards=4, thorough=8000, budget=25.0, rule="the change makes a difference to the delivered samples"),
])
