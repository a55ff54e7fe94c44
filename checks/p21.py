"""P21: field maps select exactly the described raw fields."""
import copy
import dataclasses
import gzip
import io
import json
import sys
import types
import warnings
from typing import Any, Optional

import numpy as np
import torch
import yaml
from hypothesis import strategies as st
from PIL import Image

import megatron.energon as en
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset.field_access import field_access, split_field_access

from vp import wds
from vp.harness import Check, Sub, Violation, check, eq
from vp.lib import freeze, restore_one, wcfg

warnings.simplefilter("ignore")

# ------------------------------------------------------------------ the access language

NAMES = ["txt", "json", "a.json", "x-y", "0", "A", "seg map", "txt2"]
KEYS = ["a", "b", "0", "1", "a.b", "key with space", "Ä", "-"]


def jsons(depth=3):
    leaf = st.one_of(st.integers(-5, 5), st.text("abc", max_size=3), st.booleans(), st.none())
    return st.recursive(leaf, lambda s: st.one_of(
        st.dictionaries(st.sampled_from(KEYS), s, min_size=1, max_size=3), st.lists(s, min_size=1, max_size=3)),
        max_leaves=8)


@st.composite
def access(draw, value, name):
    """A random access path, following the value most of the time."""
    path = [name]
    for _ in range(draw(st.integers(0, 3))):
        if isinstance(value, dict) and draw(st.integers(0, 5)):
            k = draw(st.sampled_from(sorted(value)))
            value = value[k]
        elif isinstance(value, list) and draw(st.integers(0, 5)):
            i = draw(st.integers(0, len(value)))
            k = str(i)
            value = value[i] if i < len(value) else None
        elif isinstance(value, (dict, list)) or draw(st.integers(0, 3)) == 0:
            k = draw(st.sampled_from(KEYS + ["7"]))
            value = None
        else:
            break
        path.append(k)
    return path


@st.composite
def cases(draw):
    raw = draw(st.dictionaries(st.sampled_from(NAMES), jsons(), min_size=1, max_size=4))
    alts = []
    for _ in range(draw(st.integers(1, 4))):
        name = draw(st.sampled_from(NAMES + sorted(raw) * 3))
        alts.append(draw(access(raw.get(name), name)))
    return {"raw": raw, "alts": alts}


class Missing(Exception):
    pass


def lookup(raw, path):
    v = raw
    for p in path:
        if isinstance(v, dict):
            if p not in v:
                raise Missing
            v = v[p]
        elif isinstance(v, list):
            if not p.isdigit() or int(p) >= len(v):
                raise Missing
            v = v[int(p)]
        else:
            raise Missing
    return v


def first(raw, alts):
    for a in alts:
        try:
            return True, lookup(raw, a)
        except Missing:
            pass
    return False, None


def text_of(alts):
    return ",".join(a[0] + "".join(f"[{x}]" for x in a[1:]) for a in alts)


def body(case, rec):
    raw, alts = case["raw"], case["alts"]
    desc = text_of(alts)
    eq(split_field_access(desc), alts, f"parsed {desc!r}")
    found, value = first(raw, alts)
    before = freeze(raw)
    try:
        got = field_access(raw, alts)
    except (ValueError, KeyError, IndexError) as e:
        check(not found, f"{desc!r} in {raw!r} raises {e!r}, expected {value!r}")
        rec.label("missing")
    else:
        check(found, f"{desc!r} in {raw!r} is {got!r}, but nothing described is present")
        eq(freeze(got), freeze(value), f"{desc!r} in {raw!r}")
    eq(freeze(raw), before, "raw sample after the access")
    rec.nt(any(len(a) > 1 for a in alts))
    rec.label("alternatives", len(alts) > 1)


# ------------------------------------------------------------------ datasets


@dataclasses.dataclass
class FieldSample(en.Sample):
    one: Any
    two: Any
    three: Any = "default3"
    four: Optional[list] = dataclasses.field(default_factory=lambda: ["default4"])


MOD = types.ModuleType("vp_p21_types")
MOD.FieldSample = FieldSample
sys.modules["vp_p21_types"] = MOD


def png(h):
    a = (np.arange(3 * (1 + h % 3) * (1 + h % 4)) * 37 + h).astype(np.uint8).reshape(1 + h % 3, 1 + h % 4, 3)
    b = io.BytesIO()
    Image.fromarray(a, "RGB").save(b, "png")
    return b.getvalue(), a


def parts_of(i, kinds, raw_json):
    """{extension: (bytes, decoded)} of sample i."""
    h = i * 7 + len(kinds)
    res = {}
    for k in kinds:
        if k in ("json", "a.json"):
            v = {"i": i, "k": k, "v": raw_json}
            res[k] = (json.dumps(v).encode(), v)
        elif k == "json.gz":
            v = {"gz": [i, raw_json]}
            res[k] = (gzip.compress(json.dumps(v).encode()), v)
        elif k in ("txt", "gt.txt"):
            res[k] = (f"{k}-{i}-Ä".encode(), f"{k}-{i}-Ä")
        elif k == "cls":
            res[k] = (str(h).encode(), h)
        elif k == "npy":
            b = io.BytesIO()
            a = np.arange(h % 5, dtype=np.int16)
            np.save(b, a)
            res[k] = (b.getvalue(), a)
        elif k == "bin":
            res[k] = (wds.blob(i, k, size=i % 9), None)
            res[k] = (res[k][0], res[k][0])
        elif k == "png":
            data, a = png(h)
            res[k] = (data, a)
    return res


KINDS = ["json", "a.json", "json.gz", "txt", "gt.txt", "cls", "npy", "bin", "png"]
DECODE = ["torchrgb", "torchrgb8", "rgb8", "rgb", "pilrgb", "torchl8"]


def decoded(kind, value, how):
    if kind != "png":
        return value
    if how == "torchrgb":
        return torch.from_numpy(value.astype("f") / 255.0).permute(2, 0, 1).float()
    if how == "torchrgb8":
        return torch.from_numpy(value).permute(2, 0, 1)
    if how == "rgb8":
        return value
    if how == "rgb":
        return value.astype("f") / 255.0
    if how == "pilrgb":
        return Image.fromarray(value, "RGB")
    return torch.from_numpy(np.asarray(Image.fromarray(value, "RGB").convert("L")))


def frz(x):
    if isinstance(x, Image.Image):
        return ("PIL", x.mode, x.size, x.tobytes())
    if isinstance(x, np.ndarray) and x.dtype == np.float32:
        return ("N", "f32", x.shape, tuple(np.round(x.reshape(-1).astype(float), 6)))
    if isinstance(x, torch.Tensor) and x.dtype == torch.float32:
        return ("T", "f32", tuple(x.shape), tuple(np.round(x.reshape(-1).numpy().astype(float), 6)))
    return freeze(x)


@st.composite
def ds_cases(draw):
    n = draw(st.integers(1, 5))
    js = draw(jsons())
    kinds = [sorted(draw(st.sets(st.sampled_from(KINDS), min_size=3, max_size=6)), key=KINDS.index) for _ in range(n)]
    fields = {}
    for f in ["one", "two"] + [f for f in ("three", "four") if draw(st.booleans())]:
        alts = []
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from(kinds[0] * 2 + KINDS))
            val = parts_of(0, [k], js)[k][1]
            alts.append(draw(access(val if isinstance(val, dict) else None, k)))
        fields[f] = alts
    return {"kinds": kinds, "json": js, "fields": fields, "decode": draw(st.booleans()),
            "image": draw(st.sampled_from(DECODE)), "sub": draw(st.sampled_from([None, "sf"])),
            "subs": draw(st.sampled_from([None, {}, {"a": 1, "b": [2]}])),
            "loader": draw(st.sampled_from(["no", "no", "callable", "file"])),
            "filter": draw(st.sampled_from(["list", "callable", "file"])), "via": draw(st.sampled_from(["class", "yaml"])),
            "nw": draw(st.sampled_from([0, 1, 2]))}


LOADER = """
FIELDS = %r
PARTS = %r
SEEN = []

def sample_loader(raw):
    SEEN.append((raw["__key__"], sorted(k for k in raw if not k.startswith("__"))))
    res = {}
    for f, alts in FIELDS.items():
        for name, *path in alts:
            if name in raw:
                res[f] = ("loaded", raw[name])
                break
    return res

def part_filter(part):
    return part in PARTS
"""


def ds_body(case, rec):
    case = copy.deepcopy(case)
    n, fields, how = len(case["kinds"]), case["fields"], case["image"]
    names = sorted({a[0] for alts in fields.values() for a in alts})
    samples = [parts_of(i, ks, case["json"]) for i, ks in enumerate(case["kinds"])]
    members = [(f"d/s{i}.{e}", data) for i, parts in enumerate(samples) for e, (data, _) in parts.items()]
    wc = wcfg(case["nw"])
    ns = {}
    exec(LOADER % (fields, names), ns)
    conf = {"field_map": {f: text_of(a) for f, a in fields.items()}}
    if case["loader"] == "callable":
        conf = {"sample_loader": ns["sample_loader"]}
    elif case["loader"] == "file":
        conf = {"sample_loader": "loader.py:sample_loader"}
    if case["loader"] != "no":
        conf["part_filter"] = {"list": names, "callable": ns["part_filter"], "file": "loader.py:part_filter"}[case["filter"]]
    conf.update(auto_decode=case["decode"], image_decode=how, subflavor=case["sub"], subflavors=case["subs"])
    as_yaml = case["via"] == "yaml" and not any(map(callable, conf.values()))
    with wds.scratch() as root:
        wds.write_dataset(root, {"a.tar": members}, dataset={
            "sample_type": {"__module__": "vp_p21_types", "__class__": "FieldSample"},
            **{k: v for k, v in conf.items() if not callable(v)}})
        (root / ".nv-meta" / "loader.py").write_text(LOADER % (fields, names))

        bad = []

        def make(**kw):
            if as_yaml:
                from megatron.energon.metadataset import load_dataset
                [(f, _)] = load_dataset(EPath(str(root))).get_datasets(
                    training=False, split_part="train", worker_config=wc)
            else:
                f = en.StandardWebdatasetFactory(EPath(str(root)), sample_type=FieldSample, split_part="train",
                                                 training=False, worker_config=wc, **conf)
            f.handler = lambda e, key: bad.append((key, e))
            return f.build()

        ds = make()
        exp, expbad = [], []
        for i, parts in enumerate(samples):
            raw = {e: decoded(e, v, how) if case["decode"] else data for e, (data, v) in parts.items()}
            vals = {}
            ok = True
            for f, alts in fields.items():
                if case["loader"] == "no":
                    found, v = first(raw, alts)
                    ok &= found
                else:
                    found, v = first(raw, [a[:1] for a in alts])
                    v = ("loaded", v)
                if found:
                    vals[f] = v
            if not {"one", "two"} <= set(vals):
                ok = False
            if not ok:
                expbad.append(f"a.tar/d/s{i}")
                continue
            vals = {"three": "default3", "four": ["default4"], **vals}
            exp.append((f"a.tar/d/s{i}", case["sub"], freeze(case["subs"] or {}),
                        tuple(frz2(vals[f]) for f in ("one", "two", "three", "four"))))
        got, keys = [], []
        for w in range(max(case["nw"], 1)):
            for s in wds.read(ds, wc, w):
                check(type(s) is FieldSample, f"sample of type {type(s)}")
                got.append((s.__key__, s.__subflavor__, freeze(s.__subflavors__),
                            tuple(frz2(getattr(s, f)) for f in ("one", "two", "three", "four"))))
                keys.append((s.__restore_key__, w))
        # samples without any part of the field map do not reach the loader in some layouts
        gone = {f"a.tar/d/s{i}" for i, parts in enumerate(samples) if not set(names) & set(parts)}
        check_keys = [k for k, _ in bad]
        eq([g[0] for g in got], [e[0] for e in exp], f"samples, the other ones failed with {bad!r}")
        eq(got, exp, "samples")
        eq(sorted(k for k in check_keys if k not in gone), [k for k in expbad if k not in gone],
           f"samples reported as failing: {bad!r}")
        fresh = make()
        for (key, w), e in zip(keys, exp):
            s = restore_one(fresh, wc, key, w, keep=lambda s: s)
            eq((s.__key__, s.__subflavor__, freeze(s.__subflavors__),
                tuple(frz2(getattr(s, f)) for f in ("one", "two", "three", "four"))), e, "restored sample")
            eq(s.__restore_key__, key, "restore key of the restored sample")
        seen = ns["SEEN"]
        for k, ps in seen:
            i = int(k.split("/s")[-1])
            eq(ps, sorted(set(names) & set(samples[i])), f"parts of {k} given to the sample loader")
    rec.nt(len(exp) > 0)
    rec.label("failing", bool(expbad))
    rec.label("yaml", as_yaml)
    rec.label("loader", case["loader"] != "no")


def frz2(v):
    if isinstance(v, tuple):
        return tuple(frz2(x) for x in v)
    return frz(v)


CHECK = Check("P21", subs=[
    Sub("access", cases, body, quick=600, shards=3, thorough=20000,
        rule="at least one alternative is a nested access"),
    Sub("dataset", ds_cases, ds_body, quick=250, shards=5, thorough=3000, rule="at least one sample is delivered"),
])
