"""P31: analyze-debug shows what the logs say."""
import json
import os
import re
import warnings

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from megatron.energon import get_loader, get_savable_loader
from megatron.energon.cli.main import main

from checks import p02, p28, p29
from vp import pipes, wds
from vp.harness import Check, Sub, check, eq
from vp.loaders import forked

warnings.simplefilter("ignore")


def image(path):
    from PIL import Image

    return (np.asarray(Image.open(path)).max(2) > 0).tolist()


def want_image(points, samples, steps):
    """The heatmap of (key id, step) points, merged by powers of two until it fits."""
    samples += samples % 2
    steps += steps % 2
    fk = ft = 1
    while max(k for k, _ in points) >= samples * fk:
        fk *= 2
    while max(t for _, t in points) >= steps * ft:
        ft *= 2
    res = np.zeros((max(k for k, _ in points) // fk + 1, max(t for _, t in points) // ft + 1), dtype=bool)
    for k, t in points:
        res[k // fk, t // ft] = True
    return res.tolist()


def points_of(sources, skip=0):
    """(points, number of keys, number of steps) of {step: keys} for each source, in the order the tool reads them."""
    ids, points = {}, []
    last = max((t for s in sources for t in s), default=-1)
    for t in range(skip, last + 1):
        for s in sources:
            for k in s.get(t, []):
                points.append((ids.setdefault(k, len(ids)), t - skip))
    return points, len(ids), last + 1 - skip


def analyze(args, answer=""):
    res = CliRunner().invoke(main, ["analyze-debug", *args], input=answer)
    return res.exit_code, repr(res.exception), res.output


def verify(case, root, logs, points, keys, steps, extra, answer=""):
    if not points:
        return False
    hm = root / "heat.png"
    args = [*map(str, logs), "--heatmap-path", str(hm), "--heatmap-gain", "100000", "--no-colors",
            "--heatmap-steps", str(case["size"][1]), "--heatmap-samples", str(case["size"][0]), *extra]
    code, exc, out = analyze(args, answer)
    check(code == 0, f"analyze-debug fails: {exc} {out[-600:]}")
    m = re.search(r"Found (\d+) unique sample keys, (\d+) steps", out)
    check(m, f"no result: {out[-600:]}")
    eq((int(m.group(1)), int(m.group(2))), (keys, steps), "number of keys and steps")
    eq(image(hm), want_image(points, *case["size"]), "heatmap")
    return True


SIZES = st.one_of(st.just([1000, 1000]), st.tuples(st.integers(1, 20), st.integers(1, 20)))


# --------------------------------------------------------------------- generated log files


@st.composite
def logs(draw):
    """Log files of several ranks, with records of several loaders."""
    loaders = [{"train": draw(st.booleans()), "kind": draw(st.sampled_from(["Savable", "Basic"]))}
               for _ in range(draw(st.integers(1, 2)))]
    ranks = draw(st.integers(1, 3))
    runs = []
    for _ in range(ranks):
        steps = []
        for l in range(len(loaders)):
            n = draw(st.integers(0, 12))
            steps.append([draw(st.one_of(st.none(), st.lists(st.integers(0, 30), max_size=3))) for _ in range(n)])
        runs.append({"steps": steps, "order": draw(st.integers(0, 2)), "dir": draw(st.booleans())})
    return {"loaders": loaders, "runs": runs, "size": draw(SIZES), "skip": draw(st.sampled_from([0, 0, 0, 2, 5])),
            "include": draw(st.sampled_from(["train", "val", "train,val"])), "noise": draw(st.integers(0, 3)),
            "cfg": draw(st.sampled_from(["path", "paths", "dataset", "blend", "concat", "joined"]))}


def config(kind, train, path):
    leaf = {"type": "MapDataset", "dataset": {"type": "X"}, "map_fn_config": {"training": train, "path": path}}
    if kind == "paths":
        leaf["map_fn_config"] = {"training": train, "paths": [path, "other"]}
    elif kind == "joined":
        leaf["map_fn_config"] = {"training": train, "joined_datasets": [{"path": path}, {"path": "other"}]}
    elif kind == "dataset":
        leaf = {"type": "B", "dataset": leaf, "map_fn_config": {"type": "user"}}
    elif kind == "blend":
        leaf = {"type": "B", "dataset_weights": [[leaf, 1.0]]}
    elif kind == "concat":
        leaf = {"type": "C", "datasets": [leaf]}
    return leaf


def log_body(case, rec):
    with wds.scratch() as root:
        (root / "dir").mkdir()
        files = []
        sel = [i for i, l in enumerate(case["loaders"]) if ("train" if l["train"] else "val") in case["include"].split(",")]
        for r, run in enumerate(case["runs"]):
            lines = []
            for i, l in enumerate(case["loaders"]):
                lines.append({"t": "SavableLoader.__init__" if l["kind"] == "Savable" else "BasicDataLoader.__init__",
                              "r": r, "w": None, "id": i * 2, "config": config(case["cfg"], l["train"], f"/ds{i}")})
            seqs = []
            for i, l in enumerate(case["loaders"]):
                seq = []
                for t, keys in enumerate(run["steps"][i]):
                    rec_ = {"t": f"{l['kind']}DataLoader.yield", "r": r, "w": None, "id": i * 2, "iter_id": 9, "worker_id": 0,
                            "worker_idx": t, "idx": t, "iter_idx": t, "global_idx": t}
                    if keys is not None:
                        rec_["keys"] = [f"shard.tar/k{k}" for k in keys]
                    seq.append(rec_)
                seqs.append(seq)
            if run["order"] == 0:
                lines += [x for s in seqs for x in s]
            elif run["order"] == 1:
                lines += [x for s in reversed(seqs) for x in s]
            else:
                while any(seqs):
                    for s in seqs:
                        if s:
                            lines.append(s.pop(0))
            text = [json.dumps(x) for x in lines]
            if case["noise"]:
                text.insert(len(text) * case["noise"] // 4, json.dumps({"t": "yield_batch", "r": r, "w": 0, "idx": 0}))
            p = root / ("dir" if run["dir"] else ".") / f"log_{r}.jsonl"
            p.write_text("\n".join(text) + "\n")
            files.append((p, r, run["dir"]))
        # files of the folder first
        args = ([root / "dir"] if any(d for _, _, d in files) else []) + [p for p, _, d in files if not d]
        order = [r for _, r, d in files if d] + [r for _, r, d in files if not d]
        if not sel:
            code, _, out = analyze([*map(str, args), "--heatmap-path", str(root / "h.png"), "--include-modality", case["include"]])
            check(code != 0 and "No data found" in out, f"no loader matches, but the result is {code}: {out[-400:]}")
            return
        # the last one is asked for, if there are several
        pick = sel[-1]
        sources = [{t: [f"k{k}" for k in keys or []] for t, keys in enumerate(case["runs"][r]["steps"][pick])} for r in order]
        points, keys, steps = points_of([{t: v for t, v in s.items() if t >= case["skip"]} for s in sources], case["skip"])
        if forked(lambda: verify(case, root, args, points, keys, steps, [
                "--include-modality", case["include"], "--skip", str(case["skip"])], f"x\n77\n{pick * 2}\n")):
            rec.nt(keys > 1)
            rec.label("several loaders", len(sel) > 1)
            rec.label("skipped", case["skip"])
            rec.label("several logs", len(files) > 1)
            rec.label("resized", keys > case["size"][0] or steps > case["size"][1])


# --------------------------------------------------------------------------- real loaders


@st.composite
def runs(draw):
    case = draw(p28.common(max_nw=2))
    case.update(n=draw(st.integers(1, 14)), size=draw(SIZES), force=draw(st.booleans()),
                savable=draw(st.booleans()), join=draw(st.integers(0, 4)) == 0, level=draw(st.sampled_from([1, 1, 2, 3])))
    return case


def run_body(case, rec):
    with wds.scratch() as root:
        path = p28.write(root / "ds", case)
        logdir = root / "logs"
        logdir.mkdir()
        if case["train"]:
            total = sum(map(len, pipes.truth(case["sets"], case["split"])))
            if total < case["world"] * p29.n_workers(case):
                return
            with pipes.quiet():
                for r in range(case["world"]):
                    for w in range(p29.n_workers(case)):
                        wc = p28.config(case, r, 0, None)
                        have = p28.avail(path, case, wc, w) if case["crude"] else p02.available(
                            path, dict(case, n=30), wc, w, 90)
                        if have < case["n"]:
                            rec.label("too few batches")
                            return

        def run(r):
            wc = p28.config(case, r, case["level"], str(logdir / (f"r{r}" + "_{worker_id}_{pid}.jsonl")))
            ds = p28.make(path, case, wc)
            loader = get_savable_loader(ds) if case["savable"] else get_loader(ds)
            got, it = {}, iter(loader)
            for t in range(case["n"]):
                try:
                    b = next(it)
                except StopIteration:
                    break
                got[t] = p28.keys_of(pipes.obs(b)) or []
            del it, loader
            return got

        got = [forked(lambda: run(r)) for r in range(case["world"])]
        files = sorted(logdir.glob("*.jsonl"))
        recs = [[json.loads(l) for l in p.read_text().splitlines()] for p in files]
        sl = "WebdatasetSampleLoaderDataset._shards_iter.yield"
        if case["force"] or not any(k for g in got for k in g.values()):
            # the loading order of the files, blended datasets count on their own
            sources = []
            for rs in recs:
                s, t = {}, 0
                for x in rs:
                    if x["t"] == sl:
                        t = max(t, x["count"])
                        s.setdefault(t, []).append(x["key"])
                sources.append(s)
        else:
            # one main process per rank
            order = [x["r"] for rs in recs for x in rs[:1] if any(y["t"].endswith("DataLoader.yield") for y in rs)]
            sources = [got[r] for r in order]
        points, keys, steps = points_of(sources)
        extra = ["--force-loading-order"] if case["force"] else []
        if forked(lambda: verify(case, root, [logdir], points, keys, steps,
                                 ["--include-modality", "train" if case["train"] else "val", *extra], "")):
            rec.nt(keys > 1)
            rec.label("loading order", case["force"])
            rec.label("worker processes", case["nw"])
            rec.label("several ranks", case["world"] > 1)


CHECK = Check("P31", subs=[
    Sub("logs", logs, log_body, quick=40, shards=4, thorough=800, budget=30.0, hang_cpu=60.0, rule="several keys are found"),
    Sub("runs", runs, run_body, quick=15, shards=4, thorough=300, budget=30.0, hang_cpu=60.0, rule="several keys are found"),
])
