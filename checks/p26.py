"""P26: generic batching pads without changing data."""
import copy
import dataclasses
from collections import namedtuple
from unittest import mock

import numpy as np
import torch
from hypothesis import strategies as st

from megatron.energon import Batch, DefaultTaskEncoder, Sample, TaskEncoder, generic_concat, homogeneous_concat_mix
from megatron.energon.task_encoder.base import batch_list, batch_pad_stack, batch_stack, generic_batch

from vp.harness import Check, Sub, check, eq
from vp.lib import freeze

DTYPES = {"f32": torch.float32, "f64": torch.float64, "f16": torch.float16, "bf16": torch.bfloat16, "u8": torch.uint8,
          "i64": torch.int64, "i16": torch.int16, "bool": torch.bool, "c64": torch.complex64}

_dc, _nt = {}, {}


def dc_type(names):
    if names not in _dc:
        _dc[names] = dataclasses.make_dataclass("Dc" + "".join(names), names)
    return _dc[names]


def nt_type(names):
    if names not in _nt:
        _nt[names] = namedtuple("Nt" + "".join(names), names)
    return _nt[names]


# structure: ["t", dtype, ndim] | ["int"] | ["str"] | ["none"] | ["list"] | ["tup"] | ["dict"/"dc"/"nt", [[name, sub], ...]]


def structs(depth, min_dim=0):
    leaf = st.one_of(
        st.tuples(st.just("t"), st.sampled_from(sorted(DTYPES)), st.integers(min_dim, 3)).map(list),
        st.tuples(st.just("t"), st.sampled_from(sorted(DTYPES)), st.integers(min_dim, 3)).map(list),
        st.sampled_from([["int"], ["str"], ["none"], ["list"], ["tup"]]))
    if depth == 0:
        return leaf
    sub = structs(depth - 1, min_dim)
    return st.one_of(leaf, st.tuples(
        st.sampled_from(["dict", "dc", "nt"]),
        st.lists(st.sampled_from("abcd"), min_size=1, max_size=3, unique=True).flatmap(
            lambda ns: st.tuples(*[st.tuples(st.just(n), sub).map(list) for n in ns]).map(list))).map(list))


def tensor(dtype, shape, base):
    n = int(np.prod(shape)) if shape else 1
    t = torch.arange(base, base + n) % 96 + 1
    return t.reshape(shape).to(DTYPES[dtype])


def make(s, i, shapes, path=()):
    """The i-th sample of the structure; shapes: list of sizes to draw from, cyclically."""
    k = s[0]
    h = (len(path) * 7 + sum(map(ord, "".join(path))) + 13 * i)
    if k == "t":
        return tensor(s[1], [shapes[(h + 5 * d) % len(shapes)] for d in range(s[2])], h % 50)
    if k == "int":
        return h
    if k == "str":
        return f"s{h}"
    if k == "none":
        return None
    if k == "list":
        return [h, [torch.ones(h % 3)]]
    if k == "tup":
        return (h, "x")
    vals = {n: make(x, i, shapes, path + (n,)) for n, x in s[1]}
    return vals if k == "dict" else dc_type(tuple(vals))(**vals) if k == "dc" else nt_type(tuple(vals))(**vals)


def np_of(t):
    return t.to(torch.complex64 if t.is_complex() else torch.float64).numpy()


def check_batch(s, out, samples, where="batch"):
    k = s[0]
    if k == "t":
        shape = [len(samples)] + [max(x.shape[d] for x in samples) for d in range(s[2])]
        eq(list(out.shape), shape, f"{where}: shape")
        eq(out.dtype, DTYPES[s[1]], f"{where}: dtype")
        o = np_of(out)
        rest = np.ones(o.shape, dtype=bool)
        for i, x in enumerate(samples):
            sl = (i,) + tuple(slice(0, n) for n in x.shape)
            check(np.array_equal(o[sl], np_of(x)), f"{where}: sample {i} is {o[sl]!r}, expected {np_of(x)!r}")
            rest[sl] = False
        check(not o[rest].any(), f"{where}: the padding is not zero")
    elif k in ("dict", "dc", "nt"):
        names = [n for n, _ in s[1]]
        get = (lambda x, n: x[n]) if k == "dict" else getattr
        check(type(out) is type(samples[0]), f"{where}: type {type(out)}")
        if k == "dict":
            eq(list(out), names, f"{where}: keys")
        for n, x in s[1]:
            check_batch(x, get(out, n), [get(v, n) for v in samples], f"{where}.{n}")
    else:
        check(type(out) is list, f"{where}: type {type(out)}")
        eq(freeze(out), freeze(list(samples)), where)


def check_concat(s, out, samples, where="concat"):
    k = s[0]
    if k == "t":
        total = sum(x.shape[0] for x in samples)
        eq(list(out.shape), [total] + [max(x.shape[d] for x in samples) for d in range(1, s[2])], f"{where}: shape")
        eq(out.dtype, DTYPES[s[1]], f"{where}: dtype")
        o = np_of(out)
        rest = np.ones(o.shape, dtype=bool)
        at = 0
        for i, x in enumerate(samples):
            sl = (slice(at, at + x.shape[0]),) + tuple(slice(0, n) for n in x.shape[1:])
            check(np.array_equal(o[sl], np_of(x)), f"{where}: batch {i} is {o[sl]!r}, expected {np_of(x)!r}")
            rest[sl] = False
            at += x.shape[0]
        check(not o[rest].any(), f"{where}: the padding is not zero")
    elif k in ("dict", "dc", "nt"):
        get = (lambda x, n: x[n]) if k == "dict" else getattr
        check(type(out) is type(samples[0]), f"{where}: type {type(out)}")
        for n, x in s[1]:
            check_concat(x, get(out, n), [get(v, n) for v in samples], f"{where}.{n}")
    else:
        eq(freeze(list(out)), freeze(list(samples)), where)


@st.composite
def cases(draw):
    concat = draw(st.booleans())
    return {"s": draw(structs(draw(st.integers(0, 2)), 1 if concat else 0)), "n": draw(st.integers(1, 5)),
            "shapes": draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)), "concat": concat}


def ragged(s, samples):
    if s[0] == "t":
        return len({tuple(x.shape) for x in samples}) > 1
    if s[0] in ("dict", "dc", "nt"):
        return any(ragged(x, [v[n] if s[0] == "dict" else getattr(v, n) for v in samples]) for n, x in s[1])
    return False


def body(case, rec):
    s, n = case["s"], case["n"]
    samples = [make(s, i, case["shapes"]) for i in range(n)]
    before = freeze(samples)
    if case["concat"]:
        out = generic_concat(list(samples))
        check_concat(s, out, samples)
        eq(freeze(homogeneous_concat_mix(list(samples))), freeze(out), "homogeneous concatenation")
    else:
        out = generic_batch(list(samples))
        check_batch(s, out, samples)
        if s[0] == "t":
            eq(freeze(batch_pad_stack(samples)), freeze(out), "batch_pad_stack")
            if not ragged(s, samples):
                eq(freeze(batch_stack(samples)), freeze(out), "batch_stack")
        eq(freeze(batch_list(samples)), before, "batch_list")
    eq(freeze(samples), before, "samples after batching")
    rec.nt(n > 1)
    rec.label("ragged", ragged(s, samples))
    rec.label(s[0])
    rec.label("concat", case["concat"])


# ------------------------------------------------------------------ through the task encoder


@dataclasses.dataclass
class MySample(Sample):
    img: torch.Tensor
    txt: str
    meta: dict


@dataclasses.dataclass
class MyDc:
    img: torch.Tensor
    txt: str
    meta: dict


MyNt = namedtuple("MyNt", ["img", "txt", "meta"])


@dataclasses.dataclass
class MyFull:
    __key__: list
    __restore_key__: list
    __subflavor__: list
    __subflavors__: list
    img: torch.Tensor
    txt: list
    meta: dict


KINDS = {"dc": MyDc, "nt": MyNt, "dict": dict}


@st.composite
def enc_cases(draw):
    kinds = st.sampled_from([None, "dc", "nt", "dict"])
    return {"in": draw(st.sampled_from(["sample", "dc", "nt", "dict"])), "enc": draw(kinds), "raw": draw(kinds),
            "batch": draw(kinds), "n": draw(st.integers(1, 4)), "base": draw(st.integers(0, 3)) == 0,
            "shapes": draw(st.lists(st.integers(1, 4), min_size=1, max_size=5)), "dtype": draw(st.sampled_from(sorted(DTYPES)))}


def fields(x):
    if isinstance(x, dict):
        return dict(x)
    if dataclasses.is_dataclass(x):
        return {f.name: getattr(x, f.name) for f in dataclasses.fields(x)}
    return x._asdict()


def enc_body(case, rec):
    n, shapes = case["n"], case["shapes"]
    s = ["dict", [["img", ["t", case["dtype"], 2]], ["txt", ["str"]], ["meta", ["dict", [["w", ["t", "i64", 1]]]]]]]
    kind = case["in"]
    samples = []
    for i in range(n):
        vals = make(s, i, shapes)
        if kind == "sample":
            samples.append(MySample(__key__=f"k{i}", __restore_key__=("x", i), __subflavor__=None if i % 2 else "sf",
                                    __subflavors__={"a": i} if i % 2 else {"b": [i]}, **vals))
        else:
            samples.append(KINDS[kind](**vals))
    types = {n_: None if case[n_] is None else KINDS[case[n_]] for n_ in ("enc", "raw", "batch")}
    if kind == "sample":
        # the names of the fields must match
        types = {k: MyFull if v in (MyDc, MyNt) else v for k, v in types.items()}
    if kind == "sample" and (case["base"] or types["enc"] is not None):
        # encoded samples which are not a Sample, and all samples for the base encoder, have no special
        # handling of the subflavors: as any other dictionaries in a batch, they need the same keys
        for i, x in enumerate(samples):
            x.__subflavors__ = {"a": i}
    if case["base"]:
        enc = TaskEncoder()
        types = {k: None for k in types}
    else:
        enc = DefaultTaskEncoder(encoded_sample_type=types["enc"], raw_batch_type=types["raw"], batch_type=types["batch"])
    before = freeze([fields(x) for x in samples])
    encoded = [enc.encode_sample(x) for x in samples]
    etype = types["enc"] or type(samples[0])
    for i, x in enumerate(encoded):
        check(type(x) is etype, f"encoded sample {i} has type {type(x)}, expected {etype}")
        eq(freeze(fields(x)), freeze(fields(samples[i])), f"encoded sample {i}")
    raw = enc.batch(encoded)
    rtype = types["raw"] or etype
    check(type(raw) is rtype, f"batch has type {type(raw)}, expected {rtype}")
    batch = enc.encode_batch(raw)
    btype = types["batch"] or rtype
    check(type(batch) is btype, f"encoded batch has type {type(batch)}, expected {btype}")
    for b in (raw, batch):
        b = fields(b)
        for name, sub in s[1]:
            check_batch(sub, b[name], [fields(x)[name] for x in samples], f"batch.{name}")
        if kind == "sample":
            eq(b["__key__"], [x.__key__ for x in samples], "keys")
            eq(b["__restore_key__"], [x.__restore_key__ for x in samples], "restore keys")
            eq(b["__subflavor__"], [x.__subflavor__ for x in samples], "subflavor")
            if not case["base"] and (types["enc"] is None):
                eq(b["__subflavors__"], [x.__subflavors__ for x in samples], "subflavors")
        eq(list(b), list(fields(samples[0])), "fields of the batch")
    eq(freeze([fields(x) for x in samples]), before, "samples after batching")
    rec.nt(n > 1)
    rec.label("converted", any(v is not None for v in types.values()))


@st.composite
def action_cases(draw):
    return {"n": draw(st.integers(1, 4)), "in": draw(st.sampled_from(["dc", "nt", "dict"])),
            "out": draw(st.sampled_from(["dc", "nt", "dict"])), "actions": draw(st.lists(
                st.sampled_from(["img", "txt", "meta"]), unique=True)), "default": draw(st.booleans()),
            "shapes": draw(st.lists(st.integers(1, 4), min_size=1, max_size=5))}


def action_body(case, rec):
    s = ["dict", [["img", ["t", "f32", 1]], ["txt", ["str"]], ["meta", ["dict", [["w", ["t", "i64", 1]]]]]]]
    samples = [KINDS[case["in"]](**make(s, i, case["shapes"])) for i in range(case["n"])]
    calls = []

    def action(name):
        return lambda v: calls.append(name) or ("action", name, list(v))

    kw = {"actions": {a: action(a) for a in case["actions"]}} if case["actions"] else {}
    if case["default"]:
        kw["default_action"] = action("default")
    out = TaskEncoder()._batch(list(samples), KINDS[case["out"]], **kw)
    check(type(out) is KINDS[case["out"]], f"batch has type {type(out)}")
    b = fields(out)
    eq(list(b), ["img", "txt", "meta"], "fields")
    for name, sub in s[1]:
        vals = [fields(x)[name] for x in samples]
        if name in case["actions"]:
            eq(freeze(b[name]), freeze(("action", name, vals)), f"action for {name}")
        elif case["default"]:
            eq(freeze(b[name]), freeze(("action", "default", vals)), f"default action for {name}")
        else:
            check_batch(sub, b[name], vals, name)
    eq(sorted(calls), sorted(case["actions"] + ["default"] * (3 - len(case["actions"])) * case["default"]), "calls")
    rec.nt(case["n"] > 1)


# ------------------------------------------------------------------ pinning


@dataclasses.dataclass
class PinBatch(Batch):
    x: object
    y: object


@dataclasses.dataclass
class PinSample(Sample):
    x: object
    y: object


def pin_structs():
    leaf = st.one_of(st.tuples(st.just("t"), st.sampled_from(sorted(DTYPES)), st.integers(0, 3)).map(list),
                     st.sampled_from([["int"], ["str"], ["none"]]))
    return st.recursive(leaf, lambda sub: st.one_of(
        st.lists(sub, max_size=3).flatmap(lambda l: st.sampled_from([["lst", l], ["tpl", l]])),
        st.tuples(st.sampled_from(["dict", "dc", "nt"]), st.lists(
            st.sampled_from("abcd"), min_size=1, max_size=3, unique=True).flatmap(
            lambda ns: st.tuples(*[st.tuples(st.just(n), sub).map(list) for n in ns]).map(list))).map(list)), max_leaves=8)


def pin_make(s, path=()):
    if s[0] in ("lst", "tpl"):
        vals = [pin_make(x, path + (str(i),)) for i, x in enumerate(s[1])]
        return vals if s[0] == "lst" else tuple(vals)
    if s[0] in ("dict", "dc", "nt"):
        vals = {n: pin_make(x, path + (n,)) for n, x in s[1]}
        return vals if s[0] == "dict" else dc_type(tuple(vals))(**vals) if s[0] == "dc" else nt_type(tuple(vals))(**vals)
    return make(s, 0, [1, 2, 3], path)


def check_pinned(a, b, pinned, where="batch"):
    check(type(a) is type(b), f"{where}: type {type(b)}, expected {type(a)}")
    if isinstance(a, torch.Tensor):
        check(any(x is a and y is b for x, y in pinned), f"{where}: the tensor is not pinned")
    elif isinstance(a, dict):
        eq(list(b), list(a), where)
        for k in a:
            check_pinned(a[k], b[k], pinned, f"{where}.{k}")
    elif dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            check_pinned(getattr(a, f.name), getattr(b, f.name), pinned, f"{where}.{f.name}")
    elif isinstance(a, (list, tuple)):
        eq(len(b), len(a), where)
        for i, (x, y) in enumerate(zip(a, b)):
            check_pinned(x, y, pinned, f"{where}[{i}]")
    else:
        eq(b, a, where)


def pin_body(case, rec):
    x, y = pin_make(case["x"]), pin_make(case["y"], ("y",))
    if case["sample"]:
        batch = PinSample(__key__="k", __restore_key__=("a", ("b", 1)), __subflavor__=None, __subflavors__={"a": [1]}, x=x, y=y)
    else:
        batch = PinBatch(x=x, y=y)
    pinned = []

    def pin(self, device=None):
        # there is no accelerator
        res = self.clone()
        pinned.append((self, res))
        return res

    with mock.patch.object(torch.Tensor, "pin_memory", pin):
        res = batch.pin_memory()
    check_pinned(batch, res, pinned)
    rec.nt(len(pinned) > 1)


CHECK = Check("P26", subs=[
    Sub("pin", lambda: st.fixed_dictionaries({"x": pin_structs(), "y": pin_structs(), "sample": st.booleans()}), pin_body,
        quick=500, shards=1, thorough=8000, rule="several tensors are pinned"),
    Sub("generic", cases, body, quick=800, shards=4, thorough=10000, rule="at least two samples are batched"),
    Sub("encoder", enc_cases, enc_body, quick=600, shards=3, thorough=6000, rule="at least two samples are batched"),
    Sub("actions", action_cases, action_body, quick=400, shards=1, thorough=3000, rule="at least two samples are batched"),
])
