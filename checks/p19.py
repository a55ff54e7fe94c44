"""P19: joined datasets pair samples by key only."""
import copy
import dataclasses
import sys
import types
import warnings
from typing import Any

import yaml
from hypothesis import strategies as st

import megatron.energon as en
from megatron.energon.epathlib import EPath
from megatron.energon.metadataset import load_dataset

from vp import wds
from vp.harness import Check, Sub, Violation, check, eq
from vp.lib import Boom, Stream, as_worker, freeze, restore_one, wcfg

warnings.simplefilter("ignore")


@dataclasses.dataclass
class ColSample(en.Sample):
    val: str


@dataclasses.dataclass
class JoinedSample(en.Sample):
    keys: list
    vals: list

    @staticmethod
    def from_joined(*cols, **named):
        return join_cols(*cols, **named)


#: The names of the columns, if they are joined by name
NAMES = ["c0", "c1", "c2"]


def join_cols(*cols, **named):
    if named:
        check(sorted(named) == sorted(NAMES[:len(named)]), f"columns are named {sorted(named)}")
        cols = [named[n] for n in NAMES[:len(named)]]
    return JoinedSample.derive_from(cols[0], keys=[c.__key__ for c in cols], vals=[c.val for c in cols])


MOD = types.ModuleType("vp_p19_types")
for x in (ColSample, JoinedSample, join_cols):
    setattr(MOD, x.__name__, x)
sys.modules["vp_p19_types"] = MOD


@st.composite
def cases(draw, broken=False):
    counts = draw(st.lists(st.integers(1, 7), min_size=1, max_size=4))
    total = sum(counts)
    world, nw = draw(st.sampled_from(wds.layouts(draw(st.integers(1, 4)))))
    train = draw(st.booleans())
    cols = draw(st.integers(1, 3)) if not broken else draw(st.integers(2, 3))
    case = {"counts": counts, "cols": cols, "world": world, "nw": nw, "train": train,
            "max": draw(st.one_of(st.none(), st.integers(1, 4))), "over": draw(st.sampled_from([1, 1, 2, -1])),
            "parallel": draw(st.sampled_from([None, 1, 2, 3])) if train else None,
            "same_names": draw(st.booleans()), "noise": draw(st.integers(0, 7)),
            "via": draw(st.sampled_from(["list", "dict", "type", "yaml", "yamldict"])),
            "names": draw(st.permutations(["c0", "c1", "c2"])),
            "exclude": draw(st.lists(st.integers(0, total - 1), max_size=2, unique=True))
            if draw(st.integers(0, 3)) == 0 else [],
            "seed": draw(st.integers(0, 30))}
    if broken:
        case["bad"] = {"col": draw(st.integers(0, cols - 1)), "at": draw(st.integers(0, total - 1)),
                       "how": draw(st.sampled_from(["rename", "swap", "shift", "drop", "extra", "shardorder", "move",
                                                    "dropshard", "exclude", "unread", "prefix"]))}
        case["handler"] = draw(st.sampled_from(["raise", "silent"]))
    return case


def write(case, root):
    NAMES[:] = case.get("names", ["c0", "c1", "c2"])
    """The columns; returns the keys of the samples, in order."""
    pos = []
    for i, n in enumerate(case["counts"]):
        pos += [(i, j) for j in range(n)]
    keys = [f"d/k{k}" for k in range(len(pos))]
    bad = case.get("bad")
    for c in range(case["cols"]):
        shards = [[] for _ in case["counts"]]
        for k, (i, _) in enumerate(pos):
            shards[i].append([keys[k], k])
        names = [f"a{i}.tar" if case["same_names"] or c == 0 else f"x{c}/b{i}.tar" for i in range(len(shards))]
        excl = [f"{names[pos[k][0]]}/{keys[k]}" for k in case["exclude"]]
        if not case["same_names"] and case["exclude"]:
            # the excludes have to be the same for all datasets
            excl = [f"{n}/{keys[k]}" for k in case["exclude"] for n in [f"a{pos[k][0]}.tar"] + [
                f"x{d}/b{pos[k][0]}.tar" for d in range(1, case["cols"])]]
        unread = None
        if bad and bad["col"] == c:
            i, j = pos[bad["at"]]
            how = bad["how"]
            if how == "rename":
                shards[i][j][0] = "d/other"
            elif how == "prefix":
                shards[i][j][0] = shards[i][j][0][2:]
            elif how == "swap":
                j2 = (j + 1) % len(shards[i])
                shards[i][j], shards[i][j2] = shards[i][j2], shards[i][j]
            elif how == "shift":
                shards[i] = shards[i][:j] + shards[i][j + 1:] + [["d/zz", 999]]
            elif how == "drop":
                shards[i].pop(j)
            elif how == "extra":
                shards[i].insert(j, ["d/zz", 999])
            elif how == "shardorder":
                k = (i + 1) % len(shards)
                shards[i], shards[k] = shards[k], shards[i]
            elif how == "move":
                k = (i + 1) % len(shards)
                if k != i:
                    shards[k].append(shards[i].pop(j))
            elif how == "dropshard":
                if len(shards) > 1:
                    shards.pop(i)
                    names.pop(i)
            elif how == "exclude":
                excl = excl + [f"{names[i]}/{keys[bad['at']]}"]
        out = {}
        for name, samples in zip(names, shards):
            ms = []
            for key, k in samples:
                if case["noise"] & 1:
                    ms.append(("__meta__/x.txt", b"x"))
                if case["noise"] & 2:
                    ms.append((f"{key}.zzz", wds.blob(k, size=k * 61 % 1500)))
                ms.append((f"{key}.txt", f"{c}:{k}".encode()))
                if case["noise"] & 4 and c != 1:
                    ms.append((f"{key}.more", b"y"))
            out[name] = ms
        wds.write_dataset(root / f"c{c}", out, exclude=excl, dataset={
            "sample_type": {"__module__": "vp_p19_types", "__class__": "ColSample"}, "field_map": {"val": "txt"}})
    via = case["via"]
    if via.startswith("yaml"):
        refs = [{"path": f"c{c}", "subflavors": {f"col{c}": c}} for c in range(case["cols"])]
        (root / "mds.yaml").write_text(yaml.safe_dump({
            "__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": {
                "join": refs if via == "yaml" else dict(zip(NAMES, refs)),
                "joiner": {"__module__": "vp_p19_types", "__class__": "JoinedSample"} if via == "yaml" else
                {"__module__": "vp_p19_types", "__function__": "join_cols"},
                "subflavors": {"all": 1}}}}, sort_keys=False))
    return keys


def make(case, root, wc, handler=None):
    kw = dict(training=case["train"], worker_config=wc, max_samples_per_sequence=case["max"],
              parallel_shard_iters=case["parallel"])
    if handler is not None:
        kw["handler"] = handler
    via = case["via"]
    if via.startswith("yaml"):
        [(f, _)] = load_dataset(EPath(str(root / "mds.yaml"))).get_datasets(
            split_part="train", shuffle_over_epochs_multiplier=case["over"], **kw)
        return f
    cols = [en.StandardWebdatasetFactory(
        EPath(str(root / f"c{c}")), sample_type=ColSample, field_map={"val": "txt"}, split_part="train",
        training=case["train"], worker_config=wc, subflavors={f"col{c}": c, "all": 1}) for c in range(case["cols"])]
    if via == "dict":
        cols = dict(zip(NAMES, cols))
    return en.JoinedWebdataset(cols, joiner=JoinedSample if via == "type" else join_cols,
                               shuffle_over_epochs=case["over"], **kw) if hasattr(en, "JoinedWebdataset") else \
        en.JoinedWebdatasetFactory(cols, joiner=JoinedSample if via == "type" else join_cols,
                                   shuffle_over_epochs=case["over"], **kw)


def pair(s):
    """(number of the sample) after checking that all columns belong together."""
    ks = {k.split("/", 1)[1] if not k.startswith("x") else k.split("/", 2)[2] for k in s.keys}
    check(len(ks) == 1, f"samples with the keys {s.keys} are joined")
    vals = [v.split(":") for v in s.vals]
    eq([int(c) for c, _ in vals], list(range(len(vals))), f"columns of {s.keys}")
    check(len({k for _, k in vals}) == 1, f"values {s.vals} are joined for {s.keys}")
    return int(vals[0][1])


def own_of(case, root, wc, w):
    """Sample numbers of worker w, in order, from the primary column alone."""
    f = wds.crude(root / "c0", wc, max_samples_per_sequence=case["max"])
    return [int(x["txt"].split(b":")[1]) for x in wds.read(f.build(), wc, w, key=lambda s: s)]


def body(case, rec):
    case = copy.deepcopy(case)
    with wds.scratch() as root:
        keys = write(case, root)
        flat = [k for k in range(len(keys)) if k not in case["exclude"]]
        val = []
        for r in range(case["world"]):
            wc = wcfg(case["nw"], r, case["world"], seed_offset=case["seed"])
            f = make(case, root, wc)
            eq(len(f), len(keys), "length of the joined dataset")
            for w in range(max(case["nw"], 1)):
                own = own_of(case, root, wc, w)
                if not case["train"]:
                    got = [pair(s) for s in wds.read(f.build(), wc, w, key=lambda s: s)]
                    eq(got, own, f"samples of worker {w} of rank {r}")
                    val += got
                if not own:
                    continue
                n = len(own)
                over = case["over"]
                st_ = Stream(f.build(), wc, w, keep=lambda s: s)
                if case["train"]:
                    total = 2 * n * max(over, 1)
                    samples = st_.take(total)
                    eq(len(samples), total, "number of samples")
                    got = [pair(s) for s in samples]
                    check(set(got) <= set(own), f"foreign samples {set(got) - set(own)}")
                    if over > 0:
                        for e in range(2):
                            eq(sorted(got[e * n * over:(e + 1) * n * over]), sorted(own * over), f"epoch {e}")
                else:
                    samples = st_.take(n)
                for i, s in enumerate(samples):
                    eq(s.__key__, f"a{shard_of(case, pair(s))}.tar/{keys[pair(s)]}", "key of the joined sample")
                    eq(freeze(s.__subflavors__), freeze({"col0": 0, "all": 1}), "subflavors of the joined sample")
                    if i < 6:
                        fresh = restore_one(make(case, root, wc).build(), wc, s.__restore_key__,
                                            r * max(case["nw"], 1) + w)
                        eq(fresh, freeze(s), "restored sample")
                # resumed in the middle
                at = len(samples) // 2
                ds = f.build()
                st2 = Stream(ds, wc, w)
                st2.take(at)
                states = [None] * max(case["nw"], 1)
                states[w] = st2.save()
                # the other workers are in their initial state
                for o in range(len(states)):
                    if o != w:
                        states[o] = Stream(f.build(), wc, o).save()
                ds3 = f.build()
                ds3.restore_state(ds3.merge_states(states))
                eq(Stream(ds3, wc, w).take(len(samples) - at), [freeze(s) for s in samples[at:]], "resumed stream")
                rec.nt(case["cols"] > 1 and n > 1)
        if not case["train"]:
            eq(sorted(val), flat, "samples over all workers")
    rec.label("train", case["train"])
    rec.label(case["via"])
    rec.label("excluded", bool(case["exclude"]))


def shard_of(case, k):
    for i, n in enumerate(case["counts"]):
        if k < n:
            return i
        k -= n


def broken_body(case, rec):
    case = copy.deepcopy(case)
    bad = case["bad"]
    errors = []

    def handler(e, key):
        errors.append(e)

    with wds.scratch() as root:
        write(case, root)
        try:
            plain = dict(case)
            plain.pop("bad")
            with wds.scratch() as other:
                write(plain, other)
                same = all((root / f"c{c}").exists() and tree(root / f"c{c}") == tree(other / f"c{c}")
                           for c in range(case["cols"]))
        except OSError:
            same = False
        if same:
            return
        raised = 0
        seen = []
        for r in range(case["world"]):
            wc = wcfg(case["nw"], r, case["world"], seed_offset=case["seed"])
            try:
                f = make(case, root, wc, handler if case["handler"] == "silent" else None)
            except (AssertionError, ValueError, FileNotFoundError) as e:
                raised += 1
                rec.label("rejected when created")
                continue
            for w in range(max(case["nw"], 1)):
                try:
                    own = own_of(case, root, wc, w)
                except Exception:
                    own = [0]
                if not own and case["train"]:
                    continue
                it_n = 3 * len(own) if case["train"] else None
                try:
                    samples = read_n(f.build(), wc, w, it_n, errors)
                except (Exception,) as e:
                    if isinstance(e, Violation):
                        raise
                    raised += 1
                    rec.label("rejected when read")
                    continue
                seen += samples
        for s in seen:
            pair(s)
        if case["exclude"] or (case["train"] and (case["over"] == -1 or case["handler"] == "silent")):
            # the broken samples may be excluded, the broken slice is not necessarily drawn
            pass
        else:
            check(raised or errors, f"the broken column is not noticed: {[s.keys for s in seen]}")
        rec.nt(True)
    rec.label(bad["how"])
    rec.label("reported to the handler", bool(errors))


def read_n(ds, wc, w, n, errors):
    """Reads samples, checking each; gives up after many errors."""
    res = []
    st_ = Stream(ds, wc, w, keep=lambda s: s)
    with as_worker(w, wc.num_workers):
        while n is None or len(res) < n:
            before = len(errors)
            s = st_._next()
            if s is None:
                break
            pair(s)
            res.append(s)
    return res


def tree(path):
    return {str(p.relative_to(path)): p.read_bytes() for p in sorted(path.rglob("*")) if p.is_file()}


# ------------------------------------------------------------------ the default joiner

FIELDS = ["a", "b", "c", "d"]


@st.composite
def default_cases(draw):
    cols = draw(st.lists(st.lists(st.sampled_from(FIELDS), min_size=1, unique=True), min_size=1, max_size=3))
    have = sorted({f for c in cols for f in c})
    return {"cols": cols, "n": draw(st.integers(1, 4)),
            # further fields of the joined type have defaults
            "extra": draw(st.lists(st.sampled_from([f for f in FIELDS if f not in have] + ["e"]), unique=True)),
            "lack": draw(st.sampled_from([None, None, None, "field", "default"])),
            "by": draw(st.sampled_from(["type", "type", "yaml", "named", "none"])),
            "sub": draw(st.sampled_from([None, "s0"]))}


def default_body(case, rec):
    cols, have = case["cols"], sorted({f for c in case["cols"] for f in c})
    types = [dataclasses.make_dataclass(f"Col{i}", [(f, Any) for f in c], bases=(en.Sample,)) for i, c in enumerate(cols)]
    keep = have[1:] if case["lack"] == "field" else have
    spec = [(f, Any) for f in keep] + ([("needed", Any)] if case["lack"] == "default" else [])
    spec += [(f, Any, dataclasses.field(default=f"default {f}")) for f in case["extra"]]
    joined = dataclasses.make_dataclass("Joined", spec, bases=(en.Sample,))
    for t in types + [joined]:
        t.__module__ = "vp_p19_types"
        setattr(MOD, t.__name__, t)

    def verify(s, k, sub, subs, key, present):
        eq(type(s).__name__, "Joined", "type")
        for f in keep:
            i = max(i for i in present if f in cols[i])
            eq(getattr(s, f), f"{i}:{f}:{k}", f"field {f} of sample {k}")
        for f in case["extra"]:
            eq(getattr(s, f), f"default {f}", f"field {f}")
        eq([s.__key__, s.__subflavor__, dict(s.__subflavors__)], [key, sub, subs], f"metadata of sample {k}")

    if case["by"] == "none":
        # directly, where secondary samples can be missing
        for k in range(case["n"]):
            args = [t(__key__=f"k{i}", __restore_key__=(i, k), __subflavor__=f"s{i}", __subflavors__={"i": i},
                      **{f: f"{i}:{f}:{k}" for f in c}) for i, (t, c) in enumerate(zip(types, cols))]
            present = [i for i in range(len(args)) if i == 0 or (k + i) % 3]
            if {f for i in present for f in cols[i]} != set(have) or case["lack"]:
                continue
            before = freeze(args)
            s = joined.from_joined(*[a if i in present else None for i, a in enumerate(args)])
            verify(s, k, "s0", {"i": 0}, "k0", present)
            eq(freeze(args), before, "the joined samples")
            rec.label("missing secondary sample", len(present) < len(args))
        rec.nt(len(cols) > 1)
        return
    with wds.scratch() as root:
        for i, c in enumerate(cols):
            wds.write_dataset(root / f"c{i}", {"sh.tar": [
                (f"k{k}.{f}.txt", f"{i}:{f}:{k}".encode()) for k in range(case["n"]) for f in c]}, dataset={
                    "sample_type": {"__module__": "vp_p19_types", "__class__": f"Col{i}"}, "field_map": {f: f"{f}.txt" for f in c}})
        wc = wcfg(0)
        errors = []
        kw = dict(training=False, worker_config=wc)
        handler = dict(handler=lambda e, key: errors.append((e, key)))
        fails = bool(case["lack"])
        if case["by"] == "yaml":
            (root / "mds.yaml").write_text(yaml.safe_dump({
                "__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {"train": {
                    "join": [{"path": f"c{i}", "subflavor": case["sub"], "subflavors": {"i": i}} for i in range(len(cols))],
                    "joiner": {"__module__": "vp_p19_types", "__class__": "Joined"}}}}, sort_keys=False))
            [(f, _)] = load_dataset(EPath(str(root / "mds.yaml"))).get_datasets(split_part="train", **kw, **handler)
        else:
            inner = [en.StandardWebdatasetFactory(
                EPath(str(root / f"c{i}")), sample_type=t, field_map={f: f"{f}.txt" for f in c}, split_part="train",
                subflavor=case["sub"], subflavors={"i": i}, **kw) for i, (t, c) in enumerate(zip(types, cols))]
            if case["by"] == "named":
                inner = {f"n{i}": d for i, d in enumerate(inner)}
                fails = True
            f = en.JoinedWebdatasetFactory(inner, joiner=joined, **kw, **handler)
        got = wds.read(f.build(), wc)
        if fails:
            eq(len(got), 0, "samples which cannot be joined")
            eq(len(errors), case["n"], "reported samples which cannot be joined")
            rec.label("cannot be joined")
            return
        eq(len(got), case["n"], "number of samples")
        for k, s in enumerate(got):
            verify(s, k, case["sub"], {"i": 0}, f"sh.tar/k{k}", range(len(cols)))
            eq(restore_one(f.build(), wc, s.__restore_key__, 0), freeze(s), "restored sample")
        rec.label("overridden", len(have) < sum(map(len, cols)))
        rec.label(case["by"])
        rec.nt(len(cols) > 1)


CHECK = Check("P19", subs=[
    Sub("default", default_cases, default_body, quick=200, shards=2, thorough=4000, rule="several columns"),
    Sub("join", cases, body, quick=60, shards=5, thorough=1000,
        rule="several columns are joined and a worker has several samples"),
    Sub("mismatch", lambda: cases(broken=True), broken_body, quick=150, shards=3, thorough=2500,
        rule="the columns do not match"),
])
