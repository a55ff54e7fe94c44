"""P25: merged transforms equal applying them one after the other."""
import contextlib
import io
import math
import random
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
from PIL import Image
from torchvision import transforms as T
from torchvision.transforms import InterpolationMode as IM
from torchvision.transforms import functional as F

from megatron.energon.transforms import CustomTransform, MergeTransform

from vp.harness import Check, Sub, Violation, check, eq

warnings.simplefilter("ignore")
torch.set_num_threads(1)

INTERP = {"nearest": IM.NEAREST, "bilinear": IM.BILINEAR, "bicubic": IM.BICUBIC}


class Turn(CustomTransform):
    """Rotates by 90 degrees counter-clockwise."""

    def __init__(self):
        pass

    def apply_transform(self, matrix, dst_size):
        h, w = dst_size
        m = np.array([[0.0, 1, 0], [-1, 0, w], [0, 0, 1]])
        return m @ matrix, np.array([w, h], dtype=dst_size.dtype), ("Turn",)

    def __call__(self, img):
        if isinstance(img, torch.Tensor):
            return torch.rot90(img, 1, (-2, -1))
        return img.transpose(Image.Transpose.ROTATE_90)


class SubCrop(T.CenterCrop):
    """Classes derived from the transforms are supported, too."""


SIZE = st.integers(6, 60)


@st.composite
def steps(draw, count):
    """Sizes are given relative to the current size (in percent) where the size matters."""
    res = []
    for _ in range(count):
        kind = draw(st.sampled_from(["resize", "resize1", "rrc", "hflip", "vflip", "rot", "rot", "crop", "croppad",
                                     "persp", "center", "center", "turn"]))
        s = {"kind": kind}
        if kind in ("resize", "rrc", "center"):
            s["size"] = draw(st.one_of(st.tuples(SIZE, SIZE).map(list), SIZE))
            if kind == "resize" and isinstance(s["size"], int):
                s["size"] = [s["size"], s["size"]]
        elif kind == "resize1":
            s["size"] = draw(SIZE)
            s["list"] = draw(st.booleans())
            s["max"] = draw(st.one_of(st.none(), st.integers(1, 30)))
        elif kind in ("crop", "croppad"):
            s["size"] = [draw(SIZE), draw(SIZE)]
            s["padding"] = draw(st.sampled_from([None, None, 3, [2, 5], [1, 2, 3, 4]]))
        elif kind == "rot":
            a = draw(st.one_of(st.sampled_from([0, 90, 180, 270, 45]), st.integers(-180, 180)))
            s["deg"] = [a, a + draw(st.sampled_from([0, 0, 10, 90]))]
            s["expand"] = draw(st.booleans())
        elif kind == "persp":
            s["scale"] = draw(st.sampled_from([0.1, 0.3, 0.5]))
            s["p"] = draw(st.sampled_from([1.0, 1.0, 0.5]))
        elif kind in ("hflip", "vflip"):
            s["p"] = draw(st.sampled_from([0.5, 0.5, 1.0, 0.0]))
        res.append(s)
    return res


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    return {"h": draw(st.integers(8, 70)), "w": draw(st.integers(8, 70)), "steps": draw(steps(n)),
            "interp": draw(st.sampled_from(["bilinear", "nearest"])) if n == 1 else "bilinear",
            "fill": draw(st.sampled_from([0, 0, 0, 7])) if n == 1 else 0, "tensor": draw(st.booleans()),
            "seed": draw(st.integers(0, 1000))}


def make(s, interp, fill):
    k = s["kind"]
    size = tuple(s["size"]) if isinstance(s.get("size"), list) else s.get("size")
    if k == "resize":
        return T.Resize(size, interpolation=interp)
    if k == "resize1":
        return T.Resize([size] if s["list"] else size, interpolation=interp,
                        max_size=size + s["max"] if s["max"] is not None else None)
    if k == "rrc":
        return T.RandomResizedCrop(size, interpolation=interp)
    if k == "hflip":
        return T.RandomHorizontalFlip(s["p"])
    if k == "vflip":
        return T.RandomVerticalFlip(s["p"])
    if k == "rot":
        return T.RandomRotation(tuple(s["deg"]), interpolation=interp, expand=s["expand"], fill=fill)
    if k in ("crop", "croppad"):
        p = s["padding"]
        return T.RandomCrop(size, pad_if_needed=k == "croppad", fill=fill,
                            padding=tuple(p) if isinstance(p, list) else p)
    if k == "persp":
        return T.RandomPerspective(distortion_scale=s["scale"], p=s["p"], interpolation=interp)
    if k == "center":
        return SubCrop(size) if s["size"] == 13 else T.CenterCrop(size)
    return Turn()


def image(arr, tensor):
    """A float image."""
    arr = np.asarray(arr, dtype=np.float32)
    return torch.from_numpy(arr.copy())[None] if tensor else Image.fromarray(arr)


def array(img):
    return img[0].numpy() if isinstance(img, torch.Tensor) else np.asarray(img, dtype=np.float32)


def reseed(seed):
    torch.manual_seed(seed)
    random.seed(seed)
    np.random.seed(seed)


def ring(arr, n=1):
    """Removes the border from a mask."""
    arr = (arr > 0.999).astype(np.float32)
    arr[:n, :] = arr[-n:, :] = 0
    arr[:, :n] = arr[:, -n:] = 0
    return arr


def body(case, rec):
    interp, fill, tensor = INTERP[case["interp"]], case["fill"], case["tensor"]
    if tensor:
        fill = 0
    h, w = case["h"], case["w"]
    xs, ys = np.meshgrid(np.arange(w) + 0.5, np.arange(h) + 0.5)
    ts = [make(s, interp, fill) for s in case["steps"]]
    if any(s["kind"] == "persp" for s in case["steps"]):
        fill = 0
        ts = [make(s, interp, fill) for s in case["steps"]]

    # rounding to the nearest pixel may include another pixel
    border = 2 if case["interp"] == "nearest" else 1

    def sequential(arr, masked=False):
        img = image(arr, tensor)
        reseed(case["seed"])
        sizes = []
        for t in [make(s, interp, 0) for s in case["steps"]] if masked else ts:
            if masked:
                img = image(ring(array(img), border), tensor)
                if isinstance(t, T.RandomResizedCrop):
                    # the part is cropped before it is resized
                    i, j, ch, cw = t.get_params(img, t.scale, t.ratio)
                    img = image(ring(array(img)[i:i + ch, j:j + cw], border), tensor)
                    img = F.resize(img, t.size, t.interpolation)
                    sizes.append(array(img).shape)
                    continue
            ih, iw = array(img).shape
            img = t(img)
            if (tensor and isinstance(t, T.RandomRotation) and t.expand and (ih + iw) % 2 and "known" not in case
                    and t.degrees[0] == t.degrees[1] and t.degrees[0] % 180 == 90):
                raise Degenerate()  # known finding
            sizes.append(array(img).shape)
            if min(sizes[-1]) < 3:
                raise Degenerate()
        return array(img), sizes

    with contextlib.redirect_stdout(io.StringIO()):
        try:
            sx, sizes = sequential(xs)
            sy, _ = sequential(ys)
            mask, _ = sequential(np.ones((h, w)), True)
            once, _ = sequential(np.ones((h, w)))
        except Degenerate:
            return
        except (ValueError, RuntimeError) as e:
            if "crop size" not in str(e):
                return  # an empty image
            # the crop is larger than the image
            merged = None
            error = e
        try:
            reseed(case["seed"])
            merge = MergeTransform(ts)
            reseed(case["seed"])
            mx = merge(image(xs, tensor))
            merged = True
        except Exception as e:
            if isinstance(e, ValueError) and len({t for t in (getattr(t, "interpolation", None) for t in ts) if t is not None}) > 1:
                rec.label("different interpolation")
                return
            if "merged" in locals() and merged is None:
                rec.label("rejected")
                return
            raise
        if "error" in locals():
            raise Violation(f"applied one after the other fails ({error}), merged does not")
        reseed(case["seed"])
        my = merge(image(ys, tensor))
        reseed(case["seed"])
        mm = merge(image(np.ones((h, w)), tensor))
    mx, my, mm = array(mx), array(my), array(mm)
    eq(mx.shape, sx.shape, "size of the output")
    trusted = mask > 0.999
    n = int(trusted.sum())
    # tolerances, in pixels of the source
    kinds = [s["kind"] for s in case["steps"]]
    tol = 0.05
    # bounds the size of a pixel in pixels of the source
    scale = 1.0
    hh, ww = h, w
    for (a, b), k in zip(sizes, kinds):
        if case["interp"] == "nearest":
            # every step rounds to a pixel
            tol += scale * (max(1, hh / a, ww / b) if k in ("resize", "resize1", "rrc") else 3 if k == "persp" else 1)
        elif k in ("resize", "resize1", "rrc"):
            # the weights of a downscaling are not exactly symmetric
            tol += 0.15 * scale
        elif k == "persp":
            tol += 0.1 * scale
        elif k == "rot":
            tol += 0.05 * scale
        if k in ("resize", "resize1", "rrc"):
            scale *= max(1, hh / a, ww / b)
        elif k == "persp":
            scale *= 3 if case["interp"] == "nearest" else 2
        hh, ww = a, b
    if case["interp"] == "nearest":
        tol += 0.75 * scale
    tol *= 1.4
    if n:
        ex = np.abs(mx - sx)[trusted].max()
        ey = np.abs(my - sy)[trusted].max()
        err = float(max(ex, ey))
        rec.label(f"error up to {math.ceil(err / tol * 10) * 10}% of the tolerance")
        check(err <= tol, f"pixels are {err:.3f} pixels of the source off (tolerance {tol:.2f})")
        check(mm[trusted].min() > 0.99, "content is missing")
    if len(ts) == 1:
        out = once == fill
        if case["interp"] == "bilinear":
            out[1:-1, 1:-1] &= (out[:-2, 1:-1] & out[2:, 1:-1] & out[1:-1, :-2] & out[1:-1, 2:])
            for a in (out[0], out[-1], out[:, 0], out[:, -1]):
                a[:] = False
            if fill and kinds != ["center"]:
                bad = mm[out]
                check(bad.size == 0 or np.abs(bad - fill).max() < 1e-3, "the area outside of the image is not filled")
            elif not fill:
                bad = mm[out]
                check(bad.size == 0 or np.abs(bad).max() < 0.3, "there is content outside of the image")
    rec.nt(n >= 10 and kinds != ["hflip"] and kinds != ["vflip"])
    for k in kinds:
        rec.label(k)
    rec.label("tensor", tensor)


class Degenerate(Exception):
    pass


CHECK = Check("P25", subs=[
    Sub("merge", cases, body, quick=600, shards=8, thorough=12000, rule="at least ten pixels of the output can be "
        "traced to the source through all steps"),
])
