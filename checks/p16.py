"""P16: preparing a dataset indexes and splits it completely."""
import contextlib
import io
import logging
import random
import re
import struct
import warnings
from fractions import Fraction

import braceexpand
import yaml
from click.testing import CliRunner
from hypothesis import strategies as st

from megatron.energon.epathlib import EPath
from megatron.energon.flavors import BaseWebdatasetFactory
from megatron.energon.flavors.webdataset.empty_dataset_error import EmptyDatasetError
from megatron.energon.metadataset import load_dataset
from megatron.energon.tools.prepare import command as prepare_command

from checks import p15
from vp import wds
from vp.harness import Check, Sub, Violation, check, eq
from vp.lib import wcfg

warnings.simplefilter("ignore")
logging.getLogger("megatron.energon.flavors.webdataset.prepare").disabled = True

DIRS = ["", "train/", "val/", "a/b/", "x.y/"]
BAD = ["garbage", "empty", "cut", "nosamples", "dir", "missing"]
NAMES = {"parts": ["train", "val", "test"], "own": ["a", "b", "train"]}
RATIOS = [[8, 1, 1], [0.8, 0.1, 0.1], [0.5, 0.2, 0.3], [1, 1, 1], [0.7, 0.2, 0.1], [1, 0, 0], [0, 0, 1], [3, 2, 1],
          [0.1, 0.2, 0.7], [90, 5, 5], [0.6, 0.3, 0.1], [0.9, 0.05, 0.05], [0.1, 0.1, 0.8], [0, 1, 1]]


@st.composite
def cases(draw, cli=False):
    n = draw(st.integers(1, 10))
    d = draw(p15.dataset(max_shards=1, max_samples=3))
    shards = []
    for i in range(n):
        kind = "ok" if draw(st.integers(0, 3)) or (cli and i == 0) else draw(st.sampled_from(BAD))
        shards.append({"dir": draw(st.sampled_from(DIRS)), "kind": kind, "count": draw(st.integers(1, 4)),
                       "cut": draw(st.integers(0, 3)),
                       # something between the parts of a sample which does not belong to it
                       "between": draw(st.integers(1, len(p15.NOISE))) if draw(st.integers(0, 7)) == 0 else 0,
                       "special": not cli and draw(st.integers(0, 3)) == 0})
    case = {"shards": shards, "special": d, "workers": draw(st.integers(1, 4)),
            "again": draw(st.booleans()), "index_only": draw(st.integers(0, 4)) == 0}
    if draw(st.integers(0, 3)):
        case["ratio"] = draw(st.one_of(
            st.sampled_from(RATIOS),
            st.lists(st.integers(0, 10), min_size=3, max_size=3).filter(any),
            st.lists(st.floats(0.01, 1).map(lambda x: round(x, 2)), min_size=3, max_size=3)))
        case["seed"] = draw(st.sampled_from([None, 42, 1, 0]))
    else:
        case["patterns"] = draw(st.lists(st.tuples(
            st.sampled_from(["train", "val", "test", "all"]),
            st.sampled_from(["train/.*", "val/.*", ".*", "shard_[0-4].tar", "shard_{0..3}.tar", "{train,val}/.*",
                             "a/b/shard_.*", "(?!train).*", "nothing", "x.y/shard_{1,3,5}.tar"])).map(list),
            min_size=1, max_size=4, unique_by=lambda x: x[0]))
    return case


def member_lists(case):
    """{name: (kind, members)}"""
    res = {}
    special = p15.members_of(dict(case["special"], dir=""))["shard0.tar"]
    k = 0
    for i, s in enumerate(case["shards"]):
        name = f"{s['dir']}shard_{i}.tar"
        ms = []
        for _ in range(s["count"]):
            ms.append((f"s{k}.txt", f"text{k}".encode()))
            if s.get("between"):
                ms.append(p15.NOISE[s["between"] - 1])
            ms.append((f"s{k}.json", b"{\"a\": 1}"))
            k += 1
        if s["special"]:
            ms = special if s["cut"] % 2 else ms + special
        if s["kind"] == "nosamples":
            ms = [("__meta__/a.txt", b"x"), ("noext", b"x")][:s["cut"]]
        res[name] = (s, ms)
    return res


def write(case, root):
    """Returns the oracle: {name: (members, offsets)} for the readable shards, all names."""
    good, names = {}, []
    for name, (s, ms) in member_lists(case).items():
        names.append(name)
        p = root / name
        p.parent.mkdir(parents=True, exist_ok=True)
        kind = s["kind"]
        if kind == "garbage":
            p.write_bytes(b"this is not a tar file" * [1, 20, 400, 4000][s["cut"]])
        elif kind == "empty":
            p.write_bytes(b"")
        elif kind == "dir":
            p.mkdir()
        elif kind == "missing":
            pass
        elif kind == "cut":
            # the data of the last member is incomplete
            ms = ms[:s["cut"] * 2] + [("last.txt", b"z" * 2000)]
            offsets = wds.write_tar(p, ms)
            data = p.read_bytes()
            p.write_bytes(data[:offsets[-2] + 512 + 700])
        else:
            offsets = wds.write_tar(p, ms, p15.FORMATS[case["special"]["format"]])
            if kind == "ok":
                good[name] = (ms, offsets)
    return good, names


def prepare(case, root, names):
    kw = {}
    if "ratio" in case:
        kw["split_parts_ratio"] = list(zip(NAMES["parts"], case["ratio"]))
        kw["shuffle_seed"] = case["seed"]
    else:
        kw["split_parts_patterns"] = [tuple(p) for p in case["patterns"]]
    with contextlib.redirect_stderr(io.StringIO()):
        return BaseWebdatasetFactory.prepare_dataset(EPath(str(root)), names, workers=case["workers"], **kw)


def check_splits(case, splits, order):
    """The splits of the readable shards."""
    if "patterns" in case:
        want = {}
        for part, pattern in case["patterns"]:
            ps = [re.compile(p) for p in braceexpand.braceexpand(pattern)]
            want[part] = [n for n in order if any(p.match(n) for p in ps)]
        eq({k: sorted(v) for k, v in splits.items()}, {k: sorted(v) for k, v in want.items()}, "splits")
        return
    eq(sorted(splits), sorted(NAMES["parts"]), "names of the splits")
    eq(sorted(n for s in splits.values() for n in s), sorted(order), "shards over all splits")
    exact = [Fraction(str(r)) for r in case["ratio"]]
    total, cum, have = sum(exact), Fraction(0), 0
    for part, r in zip(NAMES["parts"], exact):
        cum += r
        have += len(splits[part])
        want = len(order) * cum / total
        if want.denominator == 1:
            eq(have, int(want), f"shards up to split {part} of {len(order)} for ratio {case['ratio']}")
        else:
            check(abs(have - want) < 1, f"{have} of {len(order)} shards up to split {part} for ratio {case['ratio']}")
    if case.get("seed", 1) is None:
        eq([n for p in NAMES["parts"] for n in splits[p]], order, "unshuffled shards")


def verify(case, root, good, parts=None):
    info = yaml.safe_load((root / ".nv-meta" / ".info.yaml").read_text())
    counts = {n: len(wds.samples_of(ms)) for n, (ms, _) in good.items()}
    eq(info, {"shard_counts": counts}, "info")
    for n, (ms, offsets) in good.items():
        raw = (root / n).with_suffix(".tar.idx").read_bytes()
        eq(list(struct.unpack(f"{len(raw) // 8}Q", raw)), wds.index_of(ms, offsets), f"index of {n}")
    check(not list(root.rglob("*.tmp")), "temporary files are left")
    conf = yaml.safe_load((root / ".nv-meta" / "split.yaml").read_text())
    eq(conf["exclude"], [], "excludes")
    splits = conf["split_parts"]
    check_splits(case, splits, list(good))
    # the dataset loaded
    wc = wcfg(0)
    if not (root / ".nv-meta" / "dataset.yaml").exists():
        (root / ".nv-meta" / "dataset.yaml").write_text(yaml.safe_dump(wds.CRUDE))
    seen = 0
    for part, names in splits.items():
        try:
            [(f, _)] = load_dataset(EPath(str(root))).get_datasets(
                training=False, split_part=part, worker_config=wc, auto_decode=False)
        except EmptyDatasetError:
            eq(names, [], f"shards of the empty split {part}")
            continue
        eq(len(f), sum(counts[n] for n in names), f"length of split {part}")
        eq(wds.read(f.build(), wc, key=p15.view),
           [[f"{n}/{k}", n, p] for n in names for k, p, _ in wds.samples_of(good[n][0])], f"samples of split {part}")
        seen += len(f)
    if parts is not None:
        eq(sorted(parts), sorted({e for ms, _ in good.values() for _, p, _ in wds.samples_of(ms) for e in p}), "parts")
    return splits


def body(case, rec):
    with wds.scratch() as root:
        good, names = write(case, root)
        broken = [n for n, (s, _) in member_lists(case).items() if s["kind"] in ("garbage", "empty", "cut")]
        good = {n: g for n, g in good.items() if wds.samples_of(g[0])}
        if case["again"]:
            # prepared before, when all shards were readable
            first = dict(case, shards=[dict(s, kind="ok") for s in case["shards"]])
            with wds.scratch() as other:
                write(first, other)
                prepare(first, other, names)
                for p in list(other.rglob("*.idx")) + list(other.rglob(".nv-meta/*")) + list(
                        other.rglob(".nv-meta/.info.yaml")):
                    q = root / p.relative_to(other)
                    q.parent.mkdir(parents=True, exist_ok=True)
                    q.write_bytes(p.read_bytes())
        parts = prepare(case, root, names)
        splits = verify(case, root, good, parts)
        if not case["again"]:
            for n in broken:
                check(not (root / n).with_suffix(".tar.idx").exists(), f"the unreadable shard {n} has an index")
        # the same again
        again = prepare(case, root, names)
        eq(again, parts, "parts")
        eq(verify(case, root, good), splits, "splits prepared again")
        if case["index_only"]:
            for p in root.rglob("*.idx"):
                p.unlink()
            keep = {p: p.read_bytes() for p in (root / ".nv-meta").iterdir()}
            with contextlib.redirect_stderr(io.StringIO()):
                BaseWebdatasetFactory.prepare_dataset(EPath(str(root)), list(good), workers=1, tar_index_only=True)
            eq({p: p.read_bytes() for p in (root / ".nv-meta").iterdir()}, keep, "meta files")
            verify(case, root, good)
    rec.nt(len(good) > 1)
    rec.label("unreadable shards", len(good) < len(case["shards"]))
    rec.label("patterns", "patterns" in case)


def cli_body(case, rec):
    with wds.scratch() as root:
        good, names = write(case, root)
        good = {n: good[n] for n in sorted(good) if wds.samples_of(good[n][0])}
        order = sorted(n for n in names if (root / n).exists())
        if order and order[0] not in good:
            return  # the command line tool shows the content of the first file
        case = dict(case)
        if "ratio" in case:
            case["seed"] = 42 if case["seed"] is not None else None
        args = [str(root), "--no-progress", "--num-workers", str(case["workers"])]
        text = ""
        if "ratio" in case:
            text += ", ".join(map(str, case["ratio"])) + "\n"
            if case["seed"] is not None:
                args.append("--shuffle-tars")
        else:
            for p in case["patterns"]:
                args += ["--split-parts", ":".join(p)]
        exclude = None
        if case["again"] and len(good) > 2:
            exclude = "(train|y)/"
            args += ["--exclude", exclude]
            good = {n: g for n, g in good.items() if not re.search(exclude, n)}
            if not good:
                return
            if [n for n in order if not re.search(exclude, n)][0] not in good:
                return
        crude = case["index_only"]
        res = CliRunner().invoke(prepare_command, args, input=text + "n\n", catch_exceptions=False)
        eq(res.exit_code, 0, f"exit code ({res.output[-300:]})")
        verify(case, root, good)
        # only the index is generated again
        for p in root.rglob("*.idx"):
            p.unlink()
        res = CliRunner().invoke(prepare_command, [str(root), "--no-progress", "--tar-index-only", "--num-workers", "1"],
                                 catch_exceptions=False)
        eq(res.exit_code, 0, "exit code")
        verify(case, root, good)
        rec.label("excluded", exclude)
    rec.nt(len(good) > 1)


@st.composite
def dialogs(draw):
    return {"crude": draw(st.booleans()), "n": draw(st.integers(1, 3)), "field": draw(st.sampled_from(
        ["txt", "json[a]", "txt,json", "bad"])), "map": draw(st.booleans()), "images": draw(st.booleans())}


def dialog_body(case, rec):
    """The dataset.yaml created interactively can be loaded."""
    import inspect

    import megatron.energon as en
    classes = [c for _, c in inspect.getmembers(en) if isinstance(c, type) and issubclass(c, en.Sample)]
    with wds.scratch() as root:
        wds.write_tar(root / "shard.tar", [m for k in range(case["n"]) for m in (
            (f"s{k}.txt", f"text{k}".encode()), (f"s{k}.json", b'{"a": "in json"}'))])
        text = "1,0,0\ny\n"
        if case["crude"]:
            text += f"{len(classes)}\n"
        else:
            text += f"{classes.index(en.TextSample)}\n"
            if case["map"]:
                text += "y\n" + ("png\n" + "txt\n" if case["field"] == "bad" else case["field"] + "\n")
            else:
                text += "n\n"
        res = CliRunner().invoke(prepare_command, [str(root), "--no-progress", "--num-workers", "1"], input=text,
                                 catch_exceptions=False)
        eq(res.exit_code, 0, f"exit code ({res.output[-300:]})")
        if not case["crude"] and not case["map"]:
            p = root / ".nv-meta" / "sample_loader.py"
            p.write_text(p.read_text().replace('"TODO"', '"txt"'))
        wc = wcfg(0)
        [(f, _)] = load_dataset(EPath(str(root))).get_datasets(training=False, split_part="train", worker_config=wc)
        got = wds.read(f.build(), wc)
        want = [f"text{k}" for k in range(case["n"])]
        if not case["crude"] and case["map"] and case["field"].startswith("json"):
            want = ["in json"] * case["n"]
        eq([s["txt"] if case["crude"] else s.text for s in got], want, "samples")
        eq([wds.key_of(s) for s in got], [f"shard.tar/s{k}" for k in range(case["n"])], "keys")
    rec.nt()
    rec.label("crude", case["crude"])


CHECK = Check("P16", subs=[
    Sub("prepare", cases, body, quick=60, shards=5, thorough=1200, rule="several shards are readable"),
    Sub("cli", lambda: cases(cli=True), cli_body, quick=40, shards=2, thorough=500,
        rule="several shards are readable"),
    Sub("dialog", dialogs, dialog_body, quick=15, shards=1, thorough=100, tshards=1, rule="always"),
])
