"""P22: cookers are chosen by subflavor and see every crude sample once."""
import contextlib
import dataclasses
import io
import warnings

from hypothesis import strategies as st

import megatron.energon as en
from megatron.energon import Cooker, basic_sample_keys
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.crude import CrudeSample, CrudeWebdataset

from vp import wds
from vp.harness import Check, Sub, Violation, check, eq
from vp.lib import VS, freeze, restore_one, wcfg

warnings.simplefilter("ignore")

VALUES = [1, 2, "x", None, [1], {"n": 1}, True]
FLAV = st.dictionaries(st.sampled_from(["a", "b", "c"]), st.sampled_from(VALUES), max_size=3)
SUB = st.sampled_from([None, "s1", "s2"])


@st.composite
def cooker_specs(draw, flavs, subs):
    res = []
    for _ in range(draw(st.integers(1, 4))):
        f = draw(st.sampled_from(flavs))
        has = draw(st.one_of(st.none(), FLAV, st.just(dict(list(f.items())[:draw(st.integers(0, 3))])),
                             st.just(dict(f))))
        res.append({"sub": draw(st.sampled_from([None, None, None] + subs)), "has": has,
                    "cond": draw(st.sampled_from([None, None, "mod2", "never"]))})
    return res


def cond(name):
    return {"mod2": lambda s: int(s["txt"]) % 2 == 0, "never": lambda s: False, None: None}[name]


def same(a, b):
    return a == b


def chosen(cookers, sub, flav, num):
    """Index of the first cooker all of whose conditions hold."""
    for i, c in enumerate(cookers):
        if c["sub"] is not None and c["sub"] != sub:
            continue
        if any(k not in flav or not same(flav[k], v) for k, v in (c["has"] or {}).items()):
            continue
        if c["cond"] is not None and not (c["cond"] == "mod2" and num % 2 == 0):
            continue
        return i
    return None


@dataclasses.dataclass
class Cooked(en.Sample):
    cooker: int
    num: int


def make_encoder(cookers, calls):
    def cook_fn(i):
        def cook(s):
            calls.append((i, s["__key__"]))
            return Cooked(**basic_sample_keys(s), cooker=i, num=int(s["txt"]))
        return cook

    class Enc(en.TaskEncoder):
        pass

    Enc.cookers = [Cooker(cook_fn(i), is_subflavor=c["sub"], has_subflavors=c["has"], condition=cond(c["cond"]))
                   for i, c in enumerate(cookers)]
    return Enc()


@st.composite
def cases(draw):
    flav, sub = draw(FLAV), draw(SUB)
    return {"flav": flav, "sub": sub, "num": draw(st.integers(0, 3)),
            "cookers": draw(cooker_specs([flav], [sub])),
            "kind": draw(st.sampled_from(["crude", "crude", "crude", "crude", "sample", "dict"]))}


def body(case, rec):
    calls = []
    enc = make_encoder(case["cookers"], calls)
    meta = {"__key__": "k1", "__restore_key__": ("W", "a", 1), "__subflavor__": case["sub"],
            "__subflavors__": case["flav"]}
    if case["kind"] == "sample":
        s = VS(**meta, val=3)
        out = enc.cook_crude_sample(s)
        eq(freeze(out), freeze(VS(**meta, val=3)), "a complete sample")
        eq(calls, [], "calls of cookers for a complete sample")
        return
    raw = {**meta, "txt": case["num"]}
    if case["kind"] == "dict":
        # neither a crude nor a complete sample
        try:
            out = enc.cook_crude_sample(dict(raw))
        except Exception:
            return
        raise Violation(f"a plain dictionary is cooked to {out!r}")
    crude = CrudeSample(raw)
    before = freeze(dict(crude))
    exp = chosen(case["cookers"], case["sub"], case["flav"], case["num"])
    try:
        out = enc.cook_crude_sample(crude)
    except NotImplementedError:
        check(exp is None, f"no cooker is found, expected cooker {exp}")
        eq(calls, [], "calls of the cookers")
        rec.label("unmatched")
    else:
        check(exp is not None, f"no cooker matches, but the sample is cooked to {out!r}")
        eq(calls, [(exp, "k1")], "calls of the cookers")
        eq(freeze(out), freeze(Cooked(**meta, cooker=exp, num=case["num"])), "cooked sample")
    eq(freeze(dict(crude)), before, "crude sample after cooking")
    eq(basic_sample_keys(crude), meta, "basic sample keys")
    eq(basic_sample_keys({"__key__": 1, "x": 2}), {"__key__": 1}, "basic sample keys of an incomplete sample")
    rec.nt(len(case["cookers"]) > 1)


# ------------------------------------------------------------------ pipelines


@st.composite
def pipe_cases(draw):
    flavs = draw(st.lists(FLAV, min_size=1, max_size=3))
    subs = draw(st.lists(SUB, min_size=len(flavs), max_size=len(flavs)))
    return {"sets": [{"flav": f, "sub": s, "counts": draw(st.lists(st.integers(1, 4), min_size=1, max_size=2)),
                      "crude": draw(st.integers(0, 4)) > 0} for f, s in zip(flavs, subs)],
            "cookers": draw(cooker_specs(flavs, subs)) if draw(st.integers(0, 5)) else [],
            "train": draw(st.booleans()), "nw": draw(st.sampled_from([0, 1, 2])),
            "world": draw(st.sampled_from([1, 1, 2]))}


def pipe_body(case, rec):
    calls = []
    enc = make_encoder(case["cookers"], calls)
    with wds.scratch() as root:
        exp, unmatched, meta = {}, set(), {}
        for d, spec in enumerate(case["sets"]):
            shards, k = {}, 0
            for i, n in enumerate(spec["counts"]):
                shards[f"sh{i}.tar"] = []
                for _ in range(n):
                    key = f"d{d}k{k}"
                    shards[f"sh{i}.tar"].append((f"{key}.txt", str(k).encode()))
                    full = f"sh{i}.tar/{key}"
                    meta[full] = (spec["sub"], freeze(spec["flav"]))
                    if spec["crude"]:
                        c = chosen(case["cookers"], spec["sub"], spec["flav"], k)
                        if c is None:
                            unmatched.add(full)
                        else:
                            exp[full] = ("Cooked", c, k)
                    else:
                        exp[full] = ("TextSample", str(k))
                    k += 1
            wds.write_dataset(root / f"d{d}", shards)
        any_crude = any(s["crude"] for s in case["sets"])

        def make(wc):
            sets = []
            for d, spec in enumerate(case["sets"]):
                kw = dict(split_part="train", training=case["train"], worker_config=wc, subflavor=spec["sub"],
                          subflavors=dict(spec["flav"]), auto_decode=False, shuffle_over_epochs=1)
                if spec["crude"]:
                    f = CrudeWebdataset(EPath(str(root / f"d{d}")), **kw)
                else:
                    f = en.StandardWebdatasetFactory(EPath(str(root / f"d{d}")), sample_type=en.TextSample,
                                                     field_map={"text": "txt"}, **{**kw, "auto_decode": True})
                sets.append((f, 1.0))
            return (enc.build_train_datasets if case["train"] else enc.build_val_datasets)(
                datasets=sets, worker_config=wc, batch_size=None)

        if any_crude and not case["cookers"]:
            try:
                make(wcfg(case["nw"], 0, case["world"]))
            except AssertionError:
                rec.label("no cookers")
                return
            raise Violation("a crude dataset is accepted although there are no cookers")
        if not case["train"] or len(case["sets"]) == 1:
            n = None
        got = []
        total = sum(sum(s["counts"]) for s in case["sets"])
        if case["train"] and not exp:
            return  # would search forever
        for r in range(case["world"]):
            wc = wcfg(case["nw"], r, case["world"])
            ds = make(wc)
            for w in range(max(case["nw"], 1)):
                err, out = io.StringIO(), io.StringIO()
                calls.clear()
                if case["train"]:
                    # worker without any sample that can be delivered: would search forever
                    raw = make_raw(case, root, wc, w)
                    if any(raw_keys and not set(raw_keys) & set(exp) for raw_keys in raw) or not any(raw):
                        continue
                with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
                    samples = wds.read(ds, wc, w, 3 * total if case["train"] else None, key=lambda s: s)
                for s in samples:
                    k = s.__key__
                    check(k in exp, f"sample {k} is delivered, but no cooker matches it")
                    e = exp[k]
                    v = (type(s).__name__,) + ((s.cooker, s.num) if isinstance(s, Cooked) else (s.text,))
                    eq(v, tuple(e), f"sample {k}")
                    eq((s.__subflavor__, freeze(s.__subflavors__)), meta[k], f"subflavors of {k}")
                    fresh = restore_one(make(wc), wc, s.__restore_key__, wc.rank * max(case["nw"], 1) + w, keep=lambda s: s) \
                        if len(got) % 7 == 0 else s
                    eq(freeze(fresh), freeze(s), f"restored sample {k}")
                    got.append(k)
                n_err = err.getvalue().count("NotImplementedError: ")
                cooked = [k for _, k in calls if k in exp]
                if not case["train"]:
                    mine = [k for k in make_raw_val(case, root, wc, w)]
                    eq([s.__key__ for s in samples], [k for k in mine if k in exp], "delivered samples")
                    eq(n_err, len([k for k in mine if k in unmatched]),
                       "number of reported samples without a matching cooker")
                elif unmatched and len(samples) >= 3 * total and world_size(case) == 1 and len(case["sets"]) == 1:
                    check(n_err > 0, "samples without a matching cooker are not reported")
        if not case["train"]:
            eq(sorted(got), sorted(exp), "delivered samples over all workers")
    rec.nt(len(case["cookers"]) > 1 and len(exp) > 0)
    rec.label("unmatched", bool(unmatched))
    rec.label("mixed", any_crude and not all(s["crude"] for s in case["sets"]))
    rec.label("train", case["train"])


def world_size(case):
    return max(case["nw"], 1) * case["world"]


def make_raw(case, root, wc, w):
    """Keys of the samples of worker w, by dataset."""
    # the datasets are rotated by the lengths of the previous ones
    total, g, res = 0, world_size(case), []
    for d, spec in enumerate(case["sets"]):
        f = wds.crude(root / f"d{d}", wc)
        res.append(wds.read(f.build(worker_rotation_offset=total % g if len(case["sets"]) > 1 else 0), wc, w,
                            key=wds.key_of))
        total += sum(spec["counts"])
    return res


def make_raw_val(case, root, wc, w):
    return [k for d in range(len(case["sets"])) for k in wds.read(wds.crude(root / f"d{d}", wc).build(), wc, w,
                                                                  key=wds.key_of)]


CHECK = Check("P22", subs=[
    Sub("match", cases, body, quick=1500, shards=2, thorough=20000, rule="there is more than one cooker"),
    Sub("pipeline", pipe_cases, pipe_body, quick=200, shards=6, thorough=2500,
        rule="there is more than one cooker and a sample is delivered"),
])
