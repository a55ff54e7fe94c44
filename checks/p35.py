"""P35: parts of a sample are decoded by their file extension."""
import contextlib
import dataclasses
import gzip
import io
import json
import pickle
import warnings
from unittest import mock

import numpy as np
import PIL.Image
import torch
import yaml
from hypothesis import strategies as st

import megatron.energon as en
from megatron.energon import StandardWebdatasetFactory
from megatron.energon.epathlib import EPath
from megatron.energon.flavors import VideoData
from megatron.energon.metadataset import load_dataset
from megatron.energon.module_loader import ModuleLoader
from megatron.energon.task_encoder.base import TaskEncoder

from vp import wds
from vp.harness import Check, Sub, Violation, check, eq
from vp.lib import restore_one, wcfg

warnings.simplefilter("ignore")

MODES = ["l8", "rgb8", "rgba8", "l", "rgb", "rgba", "torchl8", "torchrgb8", "torchrgba8", "torchl", "torchrgb", "torch",
         "torchrgba", "pill", "pil", "pilrgb", "pilrgba"]


# ------------------------------------------------------------------ parts: content and decoded value

def pixels(k, mode, w, h):
    n = len(mode.replace("1", "L").replace("P", "L"))
    a = np.frombuffer(wds.blob("px", k, size=w * h * n), np.uint8).reshape(h, w, n)
    if mode == "1":
        return PIL.Image.fromarray(a[:, :, 0]).convert("1", dither=0)
    if mode == "P":
        return PIL.Image.fromarray(a[:, :, 0]).convert("RGB").quantize(8)
    return PIL.Image.fromarray(a[:, :, 0] if n == 1 else a, mode)


IMAGES = {"png": ["L", "RGB", "RGBA", "LA", "1", "P"], "bmp": ["L", "RGB"], "tif": ["L", "RGB", "RGBA"], "ppm": ["RGB"],
          "pgm": ["L"], "jpg": ["L", "RGB"], "jpeg": ["RGB"], "gif": ["P"], "webp": ["RGB", "RGBA"]}
FORMAT = {"png": "PNG", "bmp": "BMP", "tif": "TIFF", "ppm": "PPM", "pgm": "PPM", "jpg": "JPEG", "jpeg": "JPEG", "gif": "GIF",
          "webp": "WEBP"}
VIDEO = ["mp4", "avi", "mov", "webm", "ogv", "mjpeg", "h264", "wmv"]
TEXTS = ["", "plain", "ünïcode ☃", "two\nlines\r\n", " x ", "\ufeffbom", "0"]
JSONS = [{"a": [1, None, {"b": "ü"}]}, [], {}, 0, False, "text", 1.5, [[1, 2], [3]]]
EXTS = ["txt", "txt", "text", "transcript", "cls", "index", "id", "json", "json", "jsn", "pkl", "pickle", "pyd", "npy", "npz", "pth",
        "bin", "dat", "x"] + sorted(IMAGES) + VIDEO
PREFIX = ["", "", "", "left.", "a.b.", "json.", "png."]


def stub(path, pts_unit="pts"):
    """Stand-in of the video library: frames in the layout (T, H, W, C)."""
    data = open(path, "rb").read()
    if not data.startswith(b"VID"):
        raise RuntimeError("not a video")
    frames, audio, info = pickle.loads(data[3:])
    return frames, audio, dict(info, unit=pts_unit)


def content(ext, k, size):
    """(bytes, decoded value) of a part, where images are decoded separately."""
    w, h = size
    if ext in ("txt", "text", "transcript"):
        t = TEXTS[k % len(TEXTS)] + (str(k) if k % 2 else "")
        return t.encode(), t
    if ext in ("cls", "index", "id"):
        return [str(k).encode(), f" {-k}\n".encode()][k % 2], [k, -k][k % 2]
    if ext in ("json", "jsn"):
        v = JSONS[k % len(JSONS)]
        return json.dumps(v, ensure_ascii=k % 2 == 0, indent=k % 3 or None).encode(), v
    if ext in ("pkl", "pickle", "pyd"):
        v = {"k": (k, "x", b"\0"), 1: [np.float32(k)]}
        return pickle.dumps(v, protocol=k % 5), v
    if ext in ("npy", "npz"):
        v = np.arange(k % 7 * 2).reshape(2, -1).astype(["int64", "float32", "uint8", "bool"][k % 4])
        b = io.BytesIO()
        if ext == "npy":
            np.save(b, v)
            return b.getvalue(), v
        np.savez(b, first=v, second=v * 2)
        return b.getvalue(), {"first": v, "second": v * 2}
    if ext == "pth":
        v = {"t": torch.arange(k % 5), "n": k}
        b = io.BytesIO()
        torch.save(v, b)
        return b.getvalue(), v
    if ext in IMAGES:
        mode = IMAGES[ext][k % len(IMAGES[ext])]
        img = pixels(k, mode, w, h)
        b = io.BytesIO()
        img.save(b, FORMAT[ext], **({"lossless": True} if ext == "webp" else {}))
        return b.getvalue(), ("image", b.getvalue())
    if ext in VIDEO:
        frames = torch.from_numpy(np.frombuffer(wds.blob("v", k, size=3 * 2 * w * h), np.uint8).copy().reshape(2, h, w, 3))
        v = (frames, torch.arange(k % 4).float()[None], {"video_fps": 10.0 + k})
        return b"VID" + pickle.dumps(v), ("video", v)
    data = wds.blob("raw", k, size=k % 600)
    return data, data


def fails(ext):
    """Whether the content \\xff\\xfe{ cannot be decoded."""
    return ext not in ("bin", "dat", "x")


def image_value(data, mode):
    img = PIL.Image.open(io.BytesIO(data))
    img.load()
    kind = "rgba" if "rgba" in mode else "l" if mode.rstrip("8").endswith("l") and not mode.endswith("pil") else "rgb"
    img = img.convert(kind.upper())
    if mode.startswith("pil"):
        return img
    a = np.array(img)
    if not mode.endswith("8"):
        a = a.astype(np.float32) / 255.0
    if not mode.startswith("torch"):
        return a
    t = torch.from_numpy(a)
    return t if t.ndim == 2 else t.permute(2, 0, 1)


def expected(val, mode):
    if isinstance(val, tuple) and val and val[0] == "image":
        return image_value(val[1], mode)
    if isinstance(val, tuple) and val and val[0] == "video":
        frames, audio, info = val[1]
        t, h, w, c = frames.shape
        moved = torch.empty(t, c, h, w, dtype=frames.dtype)
        for i in range(c):
            moved[:, i] = frames[:, :, :, i]
        return VideoData(frames=moved, aframes=audio, info=dict(info, unit="sec"))
    return val


def same(a, b):
    if type(a) is not type(b) and not (isinstance(a, PIL.Image.Image) and isinstance(b, PIL.Image.Image)):
        return False
    if isinstance(a, torch.Tensor):
        return a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, PIL.Image.Image):
        return a.mode == b.mode and a.size == b.size and a.tobytes() == b.tobytes()
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if dataclasses.is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    return a == b


class Plain(TaskEncoder):
    pass


# ------------------------------------------------------------------ cases

TYPES = ["CaptioningSample", "ImageClassificationSample", "ImageSample", "InterleavedSample", "MultiChoiceVQASample", "OCRSample",
         "SimilarityInterleavedSample", "TextSample", "VQASample", "VidQASample", "VQAOCRSample"]


def type_of(name):
    if name == "VQAOCRSample":
        from megatron.energon.flavors.vqa_and_ocr import VQAOCRSample
        return VQAOCRSample
    return getattr(en, name)


def fields_of(name):
    """(required, optional) fields with content."""
    fs = [f for f in dataclasses.fields(type_of(name)) if not f.name.startswith("__")]
    req = [f.name for f in fs if f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING]
    return req, [f.name for f in fs if f.name not in req]


@st.composite
def cases(draw):
    parts = draw(st.lists(st.tuples(st.sampled_from(PREFIX), st.sampled_from(EXTS), st.sampled_from(["", "", "", "", ".gz"])),
                          min_size=1, max_size=5, unique_by=lambda p: "".join(p)))
    parts = ["".join(p) for p in parts]
    n = draw(st.integers(1, 4))
    name = draw(st.sampled_from(TYPES))
    req, opt = fields_of(name)
    use = req + (draw(st.lists(st.sampled_from(opt), unique=True)) if opt else [])
    case = {
        "parts": parts, "n": n, "base": draw(st.integers(0, 400)), "size": draw(st.sampled_from([[1, 1], [3, 2], [5, 7]])),
        "how": draw(st.sampled_from(["type", "type", "deprecated", "crude", "functions", "yaml", "encoder"])),
        "type": name, "map": {f: draw(st.integers(0, len(parts) - 1)) for f in use},
        "mode": draw(st.one_of(st.none(), st.sampled_from(MODES))), "auto": draw(st.sampled_from([None, None, True, False])),
        "filter": draw(st.lists(st.integers(0, len(parts) - 1), unique=True)),
        "bad": [[draw(st.integers(0, n - 1)), draw(st.integers(0, len(parts) - 1))]] if draw(st.integers(0, 2)) == 0 else [],
        "ignore": draw(st.sampled_from([None, None, True, False])),
        "subflavors": draw(st.sampled_from([None, {"a": 1}])), "pick": draw(st.integers(0, 3)),
    }
    return case


FUNCTIONS = '''
def load(raw):
    return {"text": dict(raw)}

def other(raw):
    return {"text": "wrong"}

def accept(part):
    return part in %r

def none(part):
    return False
'''


def ext_of(part):
    gz = part.endswith(".gz")
    return (part[:-3] if gz else part).split(".")[-1], gz


def body(case, rec):
    with wds.scratch() as root, mock.patch("torchvision.io.read_video", stub, create=True):
        ModuleLoader._modules.clear()
        auto = case["auto"] is not False
        mode = case["mode"] or "torchrgb"
        how = case["how"]
        parts = case["parts"]
        if how in ("crude", "functions"):
            loaded = [p for i, p in enumerate(parts) if i in case["filter"]]
        else:
            loaded = [parts[i] for i in case["map"].values()]
        members, values, broken = [], [], []
        for s in range(case["n"]):
            vals, is_bad = {}, False
            for i, part in enumerate(parts):
                ext, gz = ext_of(part)
                data, val = content(ext, case["base"] + s * 7 + i, case["size"])
                if [s, i] in case["bad"]:
                    data, val = b"\xff\xfe{", b"\xff\xfe{"
                    is_bad = is_bad or (auto and part in loaded and (fails(ext) or gz))
                elif gz:
                    data = gzip.compress(data, mtime=0)
                members.append((f"k{s}.{part}", data))
                vals[part] = expected(val, mode) if auto else data
            values.append(vals)
            broken.append(is_bad)
        fmap = {f: parts[i] for f, i in case["map"].items()}
        yaml_cfg = {"sample_type": {"__module__": type_of(case["type"]).__module__, "__class__": case["type"]}, "field_map": fmap}
        if how == "functions":
            yaml_cfg = {"sample_type": {"__module__": "megatron.energon", "__class__": "TextSample"},
                        "sample_loader": "my.py:load", "part_filter": "my.py:accept"}
        elif how == "crude":
            yaml_cfg = {"__module__": "megatron.energon", "__class__": "CrudeWebdataset"}
        in_yaml = how in ("yaml", "encoder") or (how in ("functions", "crude") and case["pick"] % 2)
        opts = {k: v for k, v in [("image_decode", case["mode"]), ("auto_decode", case["auto"]),
                                  ("ignore_decoder_errors", case["ignore"])] if v is not None}
        outer = dict(opts)
        if in_yaml and case["pick"] // 2 and how != "encoder":
            # settings of the file
            yaml_cfg.update(opts)
            outer = {}
        wds.write_dataset(root / "ds", {"sh.tar": members}, dataset=yaml_cfg)
        (root / "ds/.nv-meta/my.py").write_text(FUNCTIONS % (loaded,))
        errors = []
        wc = wcfg(0)
        kw = dict(split_part="train", training=False, worker_config=wc, handler=lambda e, k: errors.append((e, k)),
                  subflavors=case["subflavors"], **outer)
        path = EPath(str(root / "ds"))

        def make():
            if how == "encoder":
                te = Plain()
                return en.get_val_dataset(str(path), split_part="train", worker_config=wc, batch_size=None, task_encoder=te,
                                          **{k: v for k, v in kw.items() if k not in ("split_part", "training", "worker_config")})
            if in_yaml:
                k2 = {k: v for k, v in kw.items() if k != "split_part"}
                k2["part_filter"] = None
                if how == "crude":
                    k2["part_filter"] = loaded
                else:
                    del k2["part_filter"]
                return load_dataset(path).get_datasets(split_part="train", **k2)[0][0].build()
            if how == "type":
                return StandardWebdatasetFactory(path, sample_type=type_of(case["type"]), field_map=fmap, **kw).build()
            if how == "deprecated":
                name = case["type"].replace("Sample", "Webdataset")
                return getattr(en, name)(path, field_map=fmap, **kw).build()
            if how == "functions":
                return StandardWebdatasetFactory(path, sample_type=en.TextSample, sample_loader=lambda raw: {"text": dict(raw)},
                                                 part_filter=[loaded, lambda p: p in loaded][case["pick"] // 2], **kw).build()
            return en.CrudeWebdataset(path, part_filter=[loaded, lambda p: p in loaded][case["pick"] // 2], **kw).build()

        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            got = wds.read(make(), wc)
        want = [s for s in range(case["n"]) if not broken[s]]
        eq([wds.key_of(g) for g in got], [f"sh.tar/k{s}" for s in want], "keys of the delivered samples")
        fresh = make()
        for s, g in zip(want, got):
            verify(case, g, values[s], loaded, fmap, f"sample {s}")
            with contextlib.redirect_stderr(err):
                r = restore_one(fresh, wc, g["__restore_key__"] if isinstance(g, dict) else g.__restore_key__, 0, keep=lambda x: x)
            verify(case, r, values[s], loaded, fmap, f"restored sample {s}")
        reported = [k for _, k in errors]
        want_err = [] if case["ignore"] else [f"sh.tar/k{s}" for s in range(case["n"]) if broken[s]]
        eq(reported, want_err, f"samples reported to the handler ({[repr(e)[:100] for e, _ in errors]})")
        for p in loaded:
            rec.label(ext_of(p)[0] if ext_of(p)[0] not in IMAGES else "image")
        rec.label("compressed", any(p.endswith(".gz") for p in loaded))
        rec.label("undecodable", any(broken))
        rec.label("undecodable ignored", any(broken) and case["ignore"])
        rec.label("not decoded", not auto)
        rec.label("settings in the file", in_yaml and not outer)
        rec.label(how)
        rec.nt(len(got) > 0 and len(loaded) > 0)


def verify(case, g, vals, loaded, fmap, what):
    if case["how"] == "crude":
        raw = dict(g)
    elif case["how"] == "functions":
        eq(type(g).__name__, "TextSample", f"type of {what}")
        raw = dict(g.text)
    else:
        eq(type(g), type_of(case["type"]), f"type of {what}")
        eq(freeze_sub(g.__subflavors__), case["subflavors"] or {}, f"subflavors of {what}")
        for f in dataclasses.fields(g):
            if f.name in fmap:
                check(same(getattr(g, f.name), vals[fmap[f.name]]),
                      f"{what}: field {f.name} of part {fmap[f.name]}: got {short(getattr(g, f.name))}, expected {short(vals[fmap[f.name]])}")
            elif not f.name.startswith("__"):
                eq(getattr(g, f.name), f.default, f"{what}: field {f.name} without a part")
        return
    raw = {k: v for k, v in raw.items() if not k.startswith("__")}
    eq(sorted(raw), sorted(loaded), f"parts of {what}")
    for p in loaded:
        check(same(raw[p], vals[p]), f"{what}: part {p}: got {short(raw[p])}, expected {short(vals[p])}")


def freeze_sub(s):
    return dict(s or {})


def short(v):
    if isinstance(v, (torch.Tensor, np.ndarray)):
        return f"{type(v).__name__} {v.dtype} {tuple(v.shape)} {v.flatten()[:4].tolist()}"
    return repr(v)[:200]


CHECK = Check("P35", subs=[
    Sub("parts", cases, body, quick=350, shards=4, thorough=8000, rule="a sample with loaded parts is delivered"),
])
