"""P30: the inspection commands tell the truth about a dataset."""
import io
import json
import os
import re
import struct
import warnings

import yaml
from click.testing import CliRunner
from hypothesis import strategies as st

from megatron.energon.cli.main import main

from vp import wds
from vp.harness import Check, Sub, check, eq
from vp.loaders import forked

warnings.simplefilter("ignore")

SPLITS = ["train", "val", "test"]
IMAGES = {"__module__": "megatron.energon", "__class__": "StandardWebdatasetFactory",
          "sample_type": {"__module__": "megatron.energon", "__class__": "CaptioningSample"},
          "field_map": {"image": "png", "caption": "json[c]"}}
#: What can be wrong: with one sample, or with a shard
SAMPLE_DEFECTS = ["garbage", "missing"]
SHARD_DEFECTS = ["no index", "no tar", "short", "cut", "index long", "index short", "info"]


def png(size, color):
    from PIL import Image

    b = io.BytesIO()
    img = Image.new("RGB", tuple(size), (color, 0, 255 - color))
    if color % 2:
        img.putpixel((0, 0), (0, 255, 0))
    img.save(b, "png")
    return b.getvalue()


@st.composite
def cases(draw, defects=True, max_count=3):
    counts = draw(st.lists(st.integers(0, max_count), min_size=1, max_size=5))
    # every shard is in at most one split
    split = [draw(st.sampled_from(SPLITS + ["train", "none"])) for _ in counts]
    total = sum(counts)
    case = {"counts": counts, "split": split, "kind": draw(st.sampled_from(["text", "image"])),
            "braces": draw(st.booleans()), "dir": draw(st.sampled_from(["", "parts/", "a/b/"])),
            "exclude": draw(st.lists(st.integers(0, max(total - 1, 0)), max_size=2, unique=True)) if total else [],
            "exshard": draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, len(counts) - 1))),
            "size": draw(st.one_of(st.just([3, 2]), st.tuples(st.integers(1, 400), st.integers(1, 6)),
                                   st.tuples(st.integers(1, 4), st.integers(1, 400)))),
            "alt": draw(st.integers(0, 3)) == 0,
            # files of the same name in different folders
            "same": draw(st.integers(0, 2)) == 0}
    if defects:
        ds = []
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2]))):
            if total and draw(st.booleans()):
                ds.append([draw(st.sampled_from(SAMPLE_DEFECTS)), draw(st.integers(0, total - 1))])
            else:
                ds.append([draw(st.sampled_from(SHARD_DEFECTS)), draw(st.integers(0, len(counts) - 1))])
        case["defects"] = ds
        case["meta"] = draw(st.integers(0, 3)) == 0
        case["parallel"] = draw(st.sampled_from([0] * 8 + [1, 2, None]))
        case["lint"] = draw(st.sampled_from([None, None, ["train"], ["val", "train"], ["test"]]))
    return case


def names_of(case):
    if case.get("same"):
        return [f"{case['dir']}part_{i}/shard.tar" for i in range(len(case["counts"]))]
    return [f"{case['dir']}shard_{i}.tar" for i in range(len(case["counts"]))]


def write(case, root):
    """Writes the dataset. Returns the keys of the samples of each shard."""
    names, k = names_of(case), 0
    defects = {d[1]: d[0] for d in case.get("defects", []) if d[0] in SAMPLE_DEFECTS}
    shards, keys, shard_of = {}, [], []
    for i, (name, n) in enumerate(zip(names, case["counts"])):
        members = []
        keys.append([])
        for _ in range(n):
            if case["kind"] == "text":
                parts = [("txt", f"text {k}".encode())]
            else:
                parts = [("png", png(case["size"], k)), ("json", json.dumps({"c": f"text {k}"}).encode())]
            if k in defects:
                if defects[k] == "garbage":
                    parts[-1 if k % 2 else 0] = (parts[-1 if k % 2 else 0][0], b"\xff\xfe{")
                else:
                    parts[-1 if k % 2 else 0] = ("other.bin", b"x")
            members += [(f"s{k:03d}.{e}", d) for e, d in parts]
            keys[-1].append(f"{name}/s{k:03d}")
            shard_of.append(i)
            k += 1
        shards[name] = members
    splits = {}
    for s in SPLITS:
        mine = [n for n, x in zip(names, case["split"]) if x == s]
        if case["braces"] and len(mine) > 1:
            num = ",".join(str(i) for i, x in enumerate(case["split"]) if x == s)
            mine = [f"{case['dir']}part_{{{num}}}/shard.tar" if case.get("same") else f"{case['dir']}shard_{{{num}}}.tar"]
        splits[s] = mine
    flat = [x for ks in keys for x in ks]
    exclude = [flat[e] for e in case["exclude"]]
    if case["exshard"] is not None:
        exclude.append(names[case["exshard"]])
    wds.write_dataset(root, shards, splits=splits, exclude=exclude, dataset=wds.TEXT if case["kind"] == "text" else IMAGES,
                      split_config="other.yaml" if case["alt"] else "split.yaml")
    if case["alt"]:
        os.rename(root / ".nv-meta/dataset.yaml", root / ".nv-meta/own.yaml")
    for kind, at in case.get("defects", []):
        if kind in SAMPLE_DEFECTS:
            continue
        tar = root / names[at]
        idx = tar.with_suffix(".tar.idx")
        if kind == "no index":
            if idx.exists():
                idx.unlink()
        elif kind == "no tar":
            if tar.exists():
                tar.unlink()
        elif kind in ("short", "cut"):
            # the file ends within the last sample, or before it
            if tar.exists() and idx.exists() and case["counts"][at]:
                offs = [o for o, in struct.iter_unpack("Q", idx.read_bytes())]
                os.truncate(tar, offs[case["counts"][at] - 1] + (600 if kind == "short" else 0))
        elif kind == "index long":
            if idx.exists():
                idx.write_bytes(idx.read_bytes() + struct.pack("Q", 10240))
        elif kind == "index short":
            if idx.exists() and case["counts"][at]:
                idx.write_bytes(idx.read_bytes()[:-8])
        elif kind == "info":
            p = root / ".nv-meta/.info.yaml"
            info = yaml.safe_load(p.read_text())
            info["shard_counts"][names[at]] += 1
            p.write_text(yaml.safe_dump(info, sort_keys=False))
    return keys


def option(case):
    return ["--split-config", "other.yaml", "--dataset-config", "own.yaml"] if case["alt"] else []


def delivered(case, keys, split):
    """The sample numbers of a split."""
    res, k = [], 0
    for i, ks in enumerate(keys):
        for _ in ks:
            if case["split"][i] == split and k not in case["exclude"] and case["exshard"] != i:
                res.append(k)
            k += 1
    return res


def lint(args):
    res = CliRunner().invoke(main, args)
    return res.exit_code, repr(res.exception), res.output


def lint_body(case, rec):
    with wds.scratch() as root:
        keys = write(case, root / "ds")
        splits = case["lint"] or SPLITS
        args = ["lint", str(root / "ds")]
        if case["meta"]:
            # metadatasets have only splits with samples
            splits = [s for s in splits if any(
                x == s and i != case["exshard"] for i, x in enumerate(case["split"]))]
            if not splits:
                return
            ref = {"path": "ds"}
            if case["alt"]:
                ref.update(split_config="other.yaml", dataset_config="own.yaml")
            (root / "meta.yaml").write_text(yaml.safe_dump({
                "__module__": "megatron.energon", "__class__": "MetadatasetV2",
                "splits": {s: {"blend": [{"weight": 1, **ref}]} for s in splits}}, sort_keys=False))
            args = ["lint", str(root / "meta.yaml"), "--split-parts", ",".join(splits)]
        else:
            args += option(case)
            if case["lint"]:
                args += ["--split-parts", ",".join(splits)]
        if case["parallel"] is not None:
            args += ["--parallel", str(case["parallel"])]
        bad = [k for s in splits for k in delivered(case, keys, s)]
        bad = [k for k in bad if [d for d in case["defects"] if d[0] in SAMPLE_DEFECTS and d[1] == k]]
        shard = []
        for kind, at in case["defects"]:
            if kind in SAMPLE_DEFECTS or kind in ("short", "cut", "index short") and not case["counts"][at]:
                continue
            shard.append((kind, at))
        if case["meta"] and shard:
            # the index is not checked for metadatasets; what is missing may be noticed or not
            rec.label("metadataset with broken shard")
            return
        if len(shard) > 1:
            # they may make up for each other
            return
        code, exc, output = forked(lambda: lint(args))
        want = bool(bad or shard)
        check((code != 0) == want, f"defects {case['defects']}: samples {bad}, shards {shard}, but lint ends with "
              f"{code} ({exc}): {output[-500:]}")
        if bad and not shard:
            flat = [x for ks in keys for x in ks]
            for k in range(len(flat)):
                if k in bad:
                    check(f"- {flat[k]}" in output, f"failing sample {flat[k]} is not listed: {output[-500:]}")
                else:
                    check(f"- {flat[k]}\n" not in output, f"intact sample {flat[k]} is listed")
        rec.label("broken", want)
        rec.label("intact", not want)
        rec.label("metadataset", case["meta"])
        rec.label("worker processes", case["parallel"] != 0)
        for kind, _ in case["defects"]:
            rec.label(kind)
        rec.nt(any(delivered(case, keys, s) for s in splits))


def info_body(case, rec):
    with wds.scratch() as root:
        keys = write(case, root / "ds")
        res = CliRunner().invoke(main, ["info", str(root / "ds"), *option(case)])
        check(res.exit_code == 0, f"info fails: {res.exception!r} {res.output[-300:]}")
        out = res.output
        total = sum(case["counts"])
        m = re.search(r"\(([\d,]+) samples, ([\d.]+) (\w+) in (\d+) shards\)", out)
        check(m, f"no summary: {out}")
        eq(int(m.group(1).replace(",", "")), total, "samples")
        eq(int(m.group(4)), len(keys), "shards")
        size = sum((root / "ds" / n).stat().st_size for n in names_of(case))
        unit = {"B": 1, "KiB": 2**10, "MiB": 2**20}[m.group(3)]
        check(abs(float(m.group(2)) * unit - size) <= 0.005 * unit + 1e-6, f"size {m.group(2)} {m.group(3)} of {size} bytes")
        check(unit == 1 or size >= unit, "unit")
        lines = re.findall(r"`(\w+)`: ([\d.]+)%, ([\d,]+) samples in (\d+) shards", out)
        eq([l[0] for l in lines], SPLITS, "splits")
        for name, ratio, n, shards in lines:
            mine = [c for c, s in zip(case["counts"], case["split"]) if s == name]
            eq(int(n.replace(",", "")), sum(mine), f"samples of {name}")
            eq(int(shards), len(mine), f"shards of {name}")
            check(abs(float(ratio) - 100 * sum(mine) / max(total, 1)) <= 0.51, f"ratio of {name}: {ratio}")
        check("TextSample" in out if case["kind"] == "text" else "CaptioningSample" in out, "sample type")
        rec.nt(total > 1)
        rec.label("braces", case["braces"])


def preview_body(case, rec):
    # there is no option for the split file
    case = dict(case, alt=False)
    with wds.scratch() as root:
        keys = write(case, root / "ds")
        flat = [x for ks in keys for x in ks]
        res = CliRunner().invoke(main, ["preview", str(root / "ds")], input="y\n" * (len(flat) + 1))
        check(res.exit_code == 0, f"preview fails: {res.exception!r} {res.output[-800:]}")
        want = [k for s in SPLITS for k in delivered(case, keys, s)]
        eq(re.findall(r"__key__ \(.*\): '(.*)'", res.output), [flat[k] for k in want], "shown samples")
        eq(re.findall(r"'text (\d+)'", res.output), [str(k) for k in want], "shown texts")
        if case["kind"] == "image":
            w, h = case["size"]
            eq(len(re.findall(rf"shape=torch.Size\(\[3, {h}, {w}\]\)", res.output)), len(want), "shown images")
        rec.nt(len(want) > 1)
        rec.label("images", case["kind"] == "image" and want)
        rec.label("excluded", case["exclude"] or case["exshard"] is not None)


# ------------------------------------------------------------------------------ values

WORDS = st.text("ab '\"{[,.", max_size=5)
PLAIN = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-9, 99), st.sampled_from([0.5, -2.25]), WORDS),
                     lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from("xyz"), x, max_size=2)),
                     max_leaves=8)
DTYPES = ["float32", "int64", "uint8"]


@st.composite
def value_cases(draw):
    parts = [["json", draw(PLAIN.filter(lambda v: v is not None))]]  # the decoder leaves null as it is
    if draw(st.booleans()):
        parts.append(["txt", draw(WORDS)])
    if draw(st.booleans()):
        parts.append(["bin", draw(st.integers(0, 300))])
    for i in range(draw(st.integers(0, 2))):
        shape = draw(st.one_of(st.lists(st.integers(1, 200), min_size=1, max_size=1), st.just([]),
                               st.lists(st.integers(1, 60), min_size=2, max_size=2),
                               st.tuples(st.sampled_from([1, 3, 4]), st.integers(1, 40), st.integers(1, 300)).map(list),
                               st.lists(st.integers(1, 5), min_size=3, max_size=4)))
        parts.append([f"t{i}.pth", [shape, draw(st.sampled_from(DTYPES)), draw(st.sampled_from(["ramp", "const", "noise"]))]])
    if draw(st.integers(0, 3)) == 0:
        parts.append(["png", [draw(st.integers(1, 90)), draw(st.integers(1, 90))]])
    return {"samples": [parts], "wide": draw(st.sampled_from([None, None, [20, 5], [200, 60]]))}


def tensor(spec):
    import torch

    shape, dtype, fill = spec
    n = 1
    for x in shape:
        n *= x
    t = torch.arange(n) % 251 if fill == "ramp" else torch.full((n,), 7) if fill == "const" else (torch.arange(n) * 7919) % 199
    return t.to(getattr(torch, dtype)).reshape(shape)


def squeeze(s):
    return re.sub(r"\s+", "", s)


def shown(v):
    """A value, without the white space in between."""
    if isinstance(v, list):
        return "[" + "".join(shown(x) for x in v) + "]"
    return squeeze(repr(v))


def values_body(case, rec):
    """preview shows the values of the parts."""
    import torch

    with wds.scratch() as root:
        members = []
        for i, parts in enumerate(case["samples"]):
            for ext, v in parts:
                if ext == "json":
                    data = json.dumps(v).encode()
                elif ext == "txt":
                    data = v.encode()
                elif ext == "bin":
                    data = wds.blob("v", size=v)
                elif ext == "png":
                    data = png(v, 200)
                else:
                    b = io.BytesIO()
                    torch.save(tensor(v), b)
                    data = b.getvalue()
                members.append((f"s{i}.{ext}", data))
        wds.write_dataset(root / "ds", {"a.tar": members}, splits={"train": ["a.tar"], "val": [], "test": []},
                          dataset={"__module__": "megatron.energon", "__class__": "CrudeWebdataset"})
        env = {} if case["wide"] is None else {"COLUMNS": str(case["wide"][0]), "LINES": str(case["wide"][1])}
        res = CliRunner().invoke(main, ["preview", str(root / "ds")], input="y\n" * 3, env=env)
        check(res.exit_code == 0, f"preview fails: {res.exception!r} {res.output[-800:]}")
        at = 0
        for ext, v in case["samples"][0]:
            m = re.compile(rf"^ - {re.escape(ext)} \(<class '[\w.]+'>\): ", re.M).search(res.output)
            check(m is not None, f"{ext} is not shown: {res.output[:500]}")
            text = res.output[m.end():]
            if ext == "json" or ext == "txt":
                want = shown(v)
                eq(squeeze(text)[:len(want)], want, f"shown {ext}")
                rec.label("nested", isinstance(v, list) and any(isinstance(x, list) for x in v))
            elif ext == "bin":
                data = wds.blob("v", size=v)
                check(text.startswith(f"bytes(length={v}, value={data[:128]!r}"), f"bytes shown as {text[:200]}")
            else:
                t = tensor(v) if ext != "png" else None
                shape, dtype = (list(t.shape), str(t.dtype)) if t is not None else ([3, v[1], v[0]], "torch.float32")
                check(text.startswith(f"Tensor(shape=torch.Size({shape}), dtype={dtype})"), f"tensor {shape} shown as {text[:200]}")
                rest = text[len(f"Tensor(shape=torch.Size({shape}), dtype={dtype})"):]
                image = len(shape) == 2 or len(shape) == 3 and shape[0] in (1, 3, 4)
                if len(shape) == 1:
                    eq(rest.split("]")[0], f": {t[:128].tolist()}"[:-1], "shown numbers")
                elif image:
                    check(rest.startswith(":\n"), f"no picture: {rest[:50]!r}")
                    picture = re.match(r":\n((?:[ .:\-=+*#%@]*\n)+)", rest)
                    check(picture, f"no picture: {rest[:300]!r}")
                    lines = picture.group(1).split("\n")[:-1]
                    lines = [x for x in lines if not x.startswith(" - ")]
                    if t is not None and v[2] == "noise" and t.numel() > 40 and len(set(t.flatten().tolist())) > 1:
                        check("@" in picture.group(1), f"nothing bright in {picture.group(1)!r}")
                    rec.label("pictures")
        rec.nt(len(case["samples"][0]) > 1)


CHECK = Check("P30", subs=[
    Sub("lint", cases, lint_body, quick=28, shards=6, thorough=900, budget=35.0, hang_cpu=90.0,
        rule="a checked split has samples"),
    Sub("info", lambda: cases(defects=False, max_count=9), info_body, quick=60, shards=1, thorough=1000, tshards=2,
        rule="several samples"),
    Sub("preview", lambda: cases(defects=False), preview_body, quick=30, shards=1, thorough=800, tshards=4, budget=35.0,
        rule="several samples are shown"),
    Sub("values", value_cases, values_body, quick=100, shards=1, thorough=2000, tshards=2, budget=35.0,
        rule="a sample with several parts is shown"),
])
