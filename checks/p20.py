"""P20: metadataset files resolve to the described blend."""
import dataclasses
import os
import sys
import types
import warnings
from fractions import Fraction

import yaml
from hypothesis import strategies as st

import megatron.energon as en
from megatron.energon import get_train_dataset, get_val_dataset
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.crude import CrudeSample
from megatron.energon.metadataset import load_dataset

from vp import wds
from vp.harness import Check, Sub, Violation, check, eq
from vp.lib import freeze, wcfg

warnings.simplefilter("ignore")

SPLITS = ["train", "val", "test"]


@dataclasses.dataclass
class Pair(en.Sample):
    texts: list
    flavs: list

    @staticmethod
    def from_joined(*cols, **named):
        # the last character of the name is the position
        cols = list(cols) + [named[n] for n in sorted(named, key=lambda n: n[-1])]
        return Pair.derive_from(cols[0], texts=[c.text for c in cols],
                                flavs=[[c.__subflavor__, c.__subflavors__] for c in cols])


MOD = types.ModuleType("vp_p20_types")
MOD.Pair = Pair
MOD.joiner = lambda *cols, **named: Pair.from_joined(*cols, **named)
sys.modules["vp_p20_types"] = MOD

FL = st.dictionaries(st.sampled_from(["a", "b", "c"]), st.sampled_from([1, 2, "x", None, [3], {"n": 1}]), max_size=2)


@st.composite
def common(draw, join=False):
    """The options of any reference."""
    res = {}
    if draw(st.integers(0, 2)) == 0:
        res["split_part"] = draw(st.sampled_from(SPLITS))
    if draw(st.booleans()):
        res["subflavors"] = draw(FL)
    if draw(st.integers(0, 3)) == 0:
        res["subflavor"] = draw(st.sampled_from(["s", "t"]))
    if draw(st.integers(0, 2)) == 0:
        res["shuffle_over_epochs_multiplier"] = draw(st.sampled_from([1, 2, 3, -1, -1]))
    return res


@st.composite
def leafs(draw, n):
    res = {"ds": draw(st.integers(0, n - 1)), "how": draw(st.sampled_from(["rel", "abs", "dots"]))}
    if draw(st.integers(0, 3)) == 0:
        res["split_config"] = "alt.yaml"
    if draw(st.integers(0, 3)) == 0:
        res["dataset_config"] = "other.yaml"
    return res


@st.composite
def refs(draw, n, files):
    if files and draw(st.integers(0, 1)) == 0:
        return {"file": draw(st.sampled_from(files)), "how": draw(st.sampled_from(["rel", "abs", "dots"])),
                **draw(common())}
    return {**draw(leafs(n)), **draw(common())}


@st.composite
def joins(draw, n):
    res = {"join": [], "named": draw(st.sampled_from([None, None, 1, -1])), "fn": draw(st.booleans()), **draw(common(join=True))}
    if draw(st.integers(0, 3)) == 0:
        res["split_config"] = "alt.yaml"
    for _ in range(draw(st.integers(1, 3))):
        m = {**draw(leafs(n)), **draw(common(join=True))}
        m.pop("shuffle_over_epochs_multiplier", None)  # joined datasets are shuffled together
        # "sets this for all joined datasets": what holds if both are given is not specified
        if "split_part" in res:
            m.pop("split_part", None)
        if "split_config" in res:
            m.pop("split_config", None)
        res["join"].append(m)
    return res


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    nfiles = draw(st.integers(1, 4))
    files = []
    for f in range(nfiles):
        v = draw(st.sampled_from([1, 2, 2]))
        # references to files further down only
        spec = {"version": v, "dir": draw(st.sampled_from(["", "m", "m/sub", "other"])), "splits": {}}
        deeper = [k for k in range(f + 1, nfiles)]
        for split in SPLITS:
            if v == 1:
                e = {"datasets": draw(st.lists(refs(n, deeper), min_size=1, max_size=3))}
            else:
                kind = draw(st.sampled_from(["ref", "blend", "blend", "blend", "join"]))
                if kind == "ref":
                    e = draw(refs(n, deeper))
                elif kind == "join":
                    e = draw(joins(n))
                else:
                    e = {"blend": draw(st.lists(st.one_of(refs(n, deeper), refs(n, deeper), joins(n)),
                                                min_size=1, max_size=3))}
            for x in e.get("datasets", []) + e.get("blend", []):
                if draw(st.booleans()):
                    x["weight"] = draw(st.sampled_from([1, 2, 3, 0.5, 0.25, 10]))
            spec["splits"][split] = e
        files.append(spec)
    return {"n": n, "dirs": draw(st.lists(st.sampled_from(["", "m", "m/sub", "x/y"]), min_size=n, max_size=n)),
            "own": draw(st.lists(st.one_of(st.none(), FL), min_size=n, max_size=n)),
            "files": files, "split": draw(st.sampled_from(SPLITS)), "typed": draw(st.booleans()),
            "outer": {"subflavors": draw(st.one_of(st.none(), FL)),
                      "subflavor": draw(st.sampled_from([None, None, "o"])),
                      "mult": draw(st.sampled_from([1, 1, 2, -1]))},
            "anchors": draw(st.booleans()),
            # the metadataset was used for something else before
            "before": draw(st.none() | st.fixed_dictionaries({
                "split": st.sampled_from(SPLITS), "subflavors": FL, "subflavor": st.sampled_from([None, "p"]),
                "mult": st.sampled_from([1, 5, -1])})),
            "dict": draw(st.integers(0, 5)) == 0}


# ------------------------------------------------------------------------------- writing


def ds_path(case, d):
    return os.path.join(case["dirs"][d], f"ds{d}")


def file_path(case, f):
    return os.path.join(case["files"][f]["dir"], f"meta{f}.yaml")


def write(case, root):
    for d in range(case["n"]):
        p = root / ds_path(case, d)
        shards = {}
        for i in range(4):
            members = []
            for j in range(2):
                members.append((f"k{j}.txt", f"ds{d}:shard{i}:{j}".encode()))
                members.append((f"k{j}.md", f"ds{d}:shard{i}:{j}:md".encode()))
            shards[f"t{i}.tar"] = members
        base = {"subflavors": case["own"][d]} if case["own"][d] is not None else {}
        wds.write_dataset(p, shards, splits=STD, dataset={**wds.TEXT, **base})
        nv = p / ".nv-meta"
        (nv / "alt.yaml").write_text(yaml.safe_dump({"exclude": [], "split_parts": ALT}))
        other = dict(wds.TEXT, field_map={"text": "md"}, subflavors={"a": "other", "z": d})
        (nv / "other.yaml").write_text(yaml.safe_dump(other))
    for f, spec in enumerate(case["files"]):
        p = root / file_path(case, f)
        p.parent.mkdir(parents=True, exist_ok=True)
        data = file_data(case, root, f)
        if case.get("anchors"):
            data = shared(data, {})
        p.write_text(yaml.safe_dump(data, sort_keys=False))


def shared(x, seen):
    """Equal subflavors are written once and referenced by YAML anchors."""
    if isinstance(x, list):
        return [shared(v, seen) for v in x]
    if isinstance(x, dict):
        return {k: seen.setdefault(repr(sorted(v.items(), key=repr)), v) if k == "subflavors" and v is not None
                else shared(v, seen) for k, v in x.items()}
    return x


STD = {"train": ["t0.tar", "t1.tar"], "val": ["t2.tar"], "test": ["t3.tar"]}
ALT = {"train": ["t3.tar", "t0.tar"], "val": ["t1.tar"], "test": ["t2.tar"]}


def file_data(case, root, f):
    spec = case["files"][f]
    data = {"splits": {s: entry(case, root, f, e) for s, e in spec["splits"].items()}}
    # only the main file may omit the type (version 1); nested files use the version of their parent
    if case["typed"] or spec["version"] == 2 or f > 0:
        data = {"__module__": "megatron.energon", "__class__": {1: "Metadataset", 2: "MetadatasetV2"}[spec["version"]],
                **data}
    return data


def entry(case, root, f, e):
    if "datasets" in e:
        return {"datasets": [entry(case, root, f, x) for x in e["datasets"]]}
    if "blend" in e:
        return {"blend": [entry(case, root, f, x) for x in e["blend"]]}
    e = dict(e)
    if "join" in e:
        ms = [entry(case, root, f, x) for x in e.pop("join")]
        named = e.pop("named")
        fn = e.pop("fn")
        return {"join": {f"{('abc' if named > 0 else 'zyx')[i]}{i}": m for i, m in enumerate(ms)} if named else ms,
                "joiner": {"__module__": "vp_p20_types", **({"__function__": "joiner"} if fn else {"__class__": "Pair"})},
                **e}
    how = e.pop("how")
    target = root / (file_path(case, e.pop("file")) if "file" in e else ds_path(case, e.pop("ds")))
    here = root / case["files"][f]["dir"]
    if how == "abs":
        path = str(target)
    else:
        path = os.path.relpath(target, here)
        if how == "dots":
            path = f"./nowhere/../{path}"
    return {"path": path, **e}


# ------------------------------------------------------------------------------- oracle


def times(a, b):
    return -1 if -1 in (a, b) else a * b


@dataclasses.dataclass
class Ctx:
    split: str
    flavor: object
    flavs: dict
    mult: int

    def at(self, e):
        return Ctx(e.get("split_part", self.split), self.flavor if self.flavor is not None else e.get("subflavor"),
                   {**e.get("subflavors", {}), **self.flavs}, times(self.mult, e.get("shuffle_over_epochs_multiplier", 1)))


def leaf(case, e, ctx, split_config=None):
    d = e["ds"]
    other = "dataset_config" in e
    shards = (ALT if (split_config or e.get("split_config")) else STD)[ctx.split]
    own = {"a": "other", "z": d} if other else case["own"][d] or {}
    flavs = {**own, **ctx.flavs}
    return [(f"ds{d}:shard{s[1]}:{j}" + (":md" if other else ""), ctx.flavor, flavs) for s in shards for j in range(2)]


def resolve(case, f, ctx, weight):
    """[(weight, multiplier, samples)]"""
    e = case["files"][f]["splits"][ctx.split]
    return resolve_entry(case, e, ctx, weight)


def resolve_entry(case, e, ctx, weight):
    if "datasets" in e or "blend" in e:
        xs = e.get("datasets") or e["blend"]
        total = sum(Fraction(x.get("weight", 1)) for x in xs)
        return [r for x in xs for r in resolve_entry(case, x, ctx, weight * Fraction(x.get("weight", 1)) / total)]
    ctx = ctx.at(e)
    if "join" in e:
        cols = [leaf(case, m, ctx.at(m), e.get("split_config")) for m in e["join"]]
        return [(weight, ctx.mult, [("join", r) for r in zip(*cols)], [len(c) for c in cols])]
    if "file" in e:
        return resolve(case, e["file"], ctx, weight)
    return [(weight, ctx.mult, leaf(case, e, ctx), None)]


def text(x):
    return x.decode() if isinstance(x, bytes) else x


def describe(s):
    fl = lambda x: {} if x is None else x
    if isinstance(s, Pair):
        return ("join", tuple((text(t), a, fl(b)) for t, (a, b) in zip(s.texts, s.flavs)))
    return (text(s.text), s.__subflavor__, fl(s.__subflavors__))


def find(config, key):
    if isinstance(config, dict):
        for k, v in config.items():
            if k == key:
                yield v
            yield from find(v, key)
    elif isinstance(config, (list, tuple)):
        for v in config:
            yield from find(v, key)


def frozen(xs):
    return [freeze(x) for x in xs]


def canon(x):
    if isinstance(x, dict):
        return tuple(sorted((k, canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    return x


def body(case, rec):
    outer = case["outer"]
    ctx = Ctx(case["split"], outer["subflavor"], outer["subflavors"] or {}, outer["mult"])
    want = resolve(case, 0, ctx, Fraction(1))
    mismatch = any(w[3] is not None and len(set(w[3])) > 1 for w in want)
    with wds.scratch() as root:
        write(case, root)
        wc = wcfg(0)
        if case["dict"]:
            # given as a dictionary: relative to the root folder
            data = file_data(dict(case, files=[dict(case["files"][0], dir=os.path.relpath("/", root))] + case["files"][1:]),
                             root, 0)
            loader = load_dataset(data)
        else:
            loader = load_dataset(root / file_path(case, 0))
        kw = {}
        if outer["subflavors"] is not None:
            kw["subflavors"] = dict(outer["subflavors"])
        if outer["subflavor"] is not None:
            kw["subflavor"] = outer["subflavor"]
        if outer["mult"] != 1:
            kw["shuffle_over_epochs_multiplier"] = outer["mult"]
        if case.get("before"):
            b = case["before"]
            try:
                for f, _ in loader.get_datasets(training=False, split_part=b["split"], worker_config=wc,
                                                subflavors=dict(b["subflavors"]), subflavor=b["subflavor"],
                                                shuffle_over_epochs_multiplier=b["mult"]):
                    wds.read(f.build(), wc)
            except Exception:
                pass  # columns of different lengths, as below
        before = freeze(kw)
        try:
            got = loader.get_datasets(training=True, split_part=case["split"], worker_config=wc, **kw)
            vals = loader.get_datasets(training=False, split_part=case["split"], worker_config=wc, **kw)
        except Exception:
            # a member of a join in another split has another number of samples
            if mismatch:
                rec.label("mismatching join")
                return
            raise
        check(not mismatch, "columns of different lengths are joined")
        eq(len(got), len(want), "number of datasets")
        eq(freeze(kw), before, "arguments given")
        check(abs(sum(float(w) for _, w in got) - 1) < 1e-6, f"weights {[w for _, w in got]} do not sum up to 1")
        for i, ((f, weight), (vf, vweight), (w, mult, samples, _)) in enumerate(zip(got, vals, want)):
            check(abs(weight - float(w)) < 1e-9 and abs(vweight - float(w)) < 1e-9,
                  f"weight of dataset {i} is {weight}, expected {float(w)}")
            eq(len(f), len(samples), f"length of dataset {i}")
            eq([canon(describe(s)) for s in wds.read(vf.build(), wc)], [canon(s) for s in samples],
               f"samples of dataset {i}")
            over = set(find(f.build().config(), "shuffle_over_epochs"))
            eq(over, {mult}, f"epochs shuffled over by dataset {i}")
            k = len(samples)
            if mult > 0:
                k *= mult
            train = [canon(describe(s)) for s in wds.read(f.build(), wc, n=k)]
            if mult > 0:
                eq(sorted(train, key=repr), sorted([canon(s) for s in samples] * mult, key=repr),
                   f"training samples of dataset {i}")
            else:
                check(set(train) <= {canon(s) for s in samples}, f"foreign training samples of dataset {i}")
        rec.nt(len(want) > 1)
        rec.label("nested", any("file" in x for e in case["files"][0]["splits"].values()
                                for x in e.get("datasets", []) + e.get("blend", []) + [e]))
        rec.label("joined", any(w[3] for w in want))
        rec.label("infinite", any(w[1] == -1 for w in want))


# ------------------------------------------------------------------------------- through the loaders


def blend_body(case, rec):
    """The datasets the loaders use are the resolved ones, with their weights."""
    case = dict(case, outer={"subflavors": None, "subflavor": None, "mult": 1}, dict=False)
    want = resolve(case, 0, Ctx(case["split"], None, {}, 1), Fraction(1))
    if any(w[3] is not None and len(set(w[3])) > 1 for w in want):
        return
    with wds.scratch() as root:
        write(case, root)
        wc = wcfg(0)
        path = root / file_path(case, 0)
        val = get_val_dataset(path, split_part=case["split"], worker_config=wc, batch_size=None,
                              task_encoder=en.TaskEncoder())
        eq([canon(describe(s)) for s in wds.read(val, wc)], [canon(s) for w in want for s in w[2]],
           "validation samples")
        train = get_train_dataset(path, split_part=case["split"], worker_config=wc, batch_size=None,
                                  shuffle_buffer_size=None, max_samples_per_sequence=None,
                                  task_encoder=en.TaskEncoder())
        conf = train.config()
        weights = [w for ws in find(conf, "dataset_weights") for _, w in ws]
        if len(want) > 1 and weights:
            total = sum(weights)
            for i, (a, b) in enumerate(zip(weights, want)):
                check(abs(a / total - float(b[0])) < 1e-6, f"weight of dataset {i} is {a}, expected {float(b[0])}")
        seen = {canon(describe(s)) for s in wds.read(train, wc, n=30)}
        check(seen <= {canon(s) for w in want for s in w[2]}, "foreign training samples")
        rec.nt(len(want) > 1)


CHECK = Check("P20", subs=[
    Sub("resolve", cases, body, quick=160, shards=6, thorough=2500,
        rule="the files resolve to several datasets"),
    Sub("loaders", cases, blend_body, quick=140, shards=2, thorough=2000,
        rule="the files resolve to several datasets"),
])
