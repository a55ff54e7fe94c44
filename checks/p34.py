"""P34: data in remote storage behaves like a local copy of it."""
import contextlib
import io
import os
import pickle
import re
import warnings

import yaml
from click.testing import CliRunner
from hypothesis import strategies as st

from megatron.energon import (
    CrudeWebdataset, get_loader, get_savable_loader, get_train_dataset, get_val_dataset,
)
from megatron.energon.cli.main import main
from megatron.energon.epathlib import EPath
from megatron.energon.flavors.webdataset import BaseWebdatasetFactory
from megatron.energon.metadataset import load_dataset
from megatron.energon.module_loader import ModuleLoader

from vp import pipes, s3, wds
from vp.harness import Check, Sub, Violation, check, eq
from vp.lib import Stream, wcfg
from vp.loaders import forked

warnings.simplefilter("ignore")


@st.composite
def fault_plans(draw, n=8):
    """Fates of the first requests for content; the file system gives up after 5 attempts."""
    # at most two in a row, but all can hit the same request if there are several processes (see calm)
    res = []
    for _ in range(draw(st.integers(0, n))):
        run = draw(st.lists(st.sampled_from([s3.RESET, s3.CUT, s3.CUT, s3.BUSY]), max_size=2))
        res += [[k, draw(st.integers(0, 3000))] for k in run] + [[s3.OK, 0]] * draw(st.integers(1, 3))
    return res


def calm(plan):
    """At most 4 faults."""
    res, n = [], 0
    for f in plan:
        n += f[0] != s3.OK
        if n <= 4:
            res.append(list(f))
    return res


# ------------------------------------------------------------------ paths

DIRS = ["", "a/", "a/b.d/", "c d/"]
FILES = ["x.txt", "y", "z.tar", "z.tar.idx", "n+1%.txt", "é.txt"]
PATTERNS = ["*", "*.txt", "**/*", "**/*.tar", "a/*", "?", "a/**/*.txt", "*/*.t*", "z*"]


@st.composite
def names(draw):
    return draw(st.sampled_from(DIRS)) + draw(st.sampled_from(FILES))


@st.composite
def path_cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from(["write", "write", "other", "other", "gone", "read", "text", "size", "file", "dir",
                                   "glob", "glob", "move", "unlink", "mkdir", "chunks"]))
        x = {"op": op, "a": draw(names()), "how": draw(st.integers(0, 3))}
        if op in ("write", "other"):
            x["n"] = draw(st.sampled_from([0, 1, 5, 700]))
        elif op == "move":
            x["b"] = draw(names())
        elif op == "dir":
            x["a"] = draw(st.sampled_from(["", "a", "a/b.d", "c d", "y", "nope", "a/"]))
        elif op == "glob":
            x["a"] = draw(st.sampled_from(["", "", "", "a", "a/b.d", "c d"]))
            x["pat"] = draw(st.sampled_from(PATTERNS))
        elif op == "chunks":
            x["at"] = draw(st.lists(st.tuples(st.integers(0, 800), st.one_of(st.none(), st.integers(0, 800))), max_size=4))
        ops.append(x)
    return {"init": draw(st.lists(st.tuples(names(), st.sampled_from([0, 3, 700])), max_size=5)),
            "top": draw(st.sampled_from(["", "data", "data/set.v1"])), "remote": draw(st.sampled_from(["store", "other"])),
            "ops": ops, "page": draw(st.sampled_from([1, 2, 1000])), "plan": draw(fault_plans(3))}


def text_of(name, n, i):
    return "".join(chr(97 + (i + k) % 26) for k in range(n))


def attempt(fn):
    try:
        return ("ok", fn())
    except FileNotFoundError:
        return ("missing",)


def prune(d):
    """Object stores have no empty folders."""
    for p, _, _ in sorted(os.walk(d), reverse=True):
        if p != str(d) and not os.listdir(p):
            os.rmdir(p)


def descend(root, rel, how):
    """The same path composed in different ways."""
    if rel in ("", "."):
        return root if how % 2 else root / "."
    if how == 0:
        return root / rel
    if how == 1:
        return EPath(str(root) + "/" + rel)
    p = root
    for c in rel.rstrip("/").split("/"):
        p = p / c
    return p if how == 2 else (p / "x" / "..")


def chunks(p, at):
    res = []
    with p.open("rb") as f:
        for pos, n in at:
            f.seek(pos)
            res.append(f.read() if n is None else f.read(n))
    return res


def path_body(case, rec):
    with s3.remote(("store", "other")) as store, wds.scratch() as tmp:
        store.page = case["page"]
        base = tmp / "bucket" / case["top"]
        base.mkdir(parents=True)
        store.buckets["bucket"] = objs = {}
        top = case["top"] + "/" if case["top"] else ""
        local, remote = EPath(str(base)), EPath(f"rclone://{case['remote']}/bucket/{case['top']}")

        def put(name, data):
            p = base / name
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(data)
            objs[top + name] = data

        # something must be there, as there are no empty folders
        put("keep", b"k")
        for i, (name, n) in enumerate(case["init"]):
            put(name, text_of(name, n, i).encode())
        store.plan = [list(p) for p in case["plan"]]
        listed = False
        for i, x in enumerate(case["ops"]):
            op, what = x["op"], f"{x['op']} {x['a']!r} (step {i})"
            l, r = (descend(root, x["a"], x["how"]) for root in (local, remote))
            there = (base / x["a"]).is_file()
            if op == "write":
                data = text_of(x["a"], x["n"], i)
                (base / x["a"]).parent.mkdir(parents=True, exist_ok=True)
                for p in (l, r):
                    with (p.open("w") if x["how"] % 2 else p.open("wb")) as f:
                        f.write(data if x["how"] % 2 else data.encode())
            elif op == "other":
                put(x["a"], text_of(x["a"], x["n"], i + 7).encode())
                rec.label("written by others after listing", listed)
            elif op == "gone":
                if there:
                    (base / x["a"]).unlink()
                    del objs[top + x["a"]]
                    prune(base)
            elif op == "read":
                eq(attempt(lambda: chunks(r, [(0, None)])), attempt(lambda: chunks(l, [(0, None)])), what)
            elif op == "chunks":
                eq(attempt(lambda: chunks(r, x["at"])), attempt(lambda: chunks(l, x["at"])), what)
            elif op == "text":
                eq(attempt(r.read_text), attempt(l.read_text), what)
            elif op == "size":
                eq(attempt(r.size), attempt(l.size), what)
            elif op == "file":
                eq(bool(r.is_file()), bool(l.is_file()), what)
            elif op == "dir":
                eq(bool(r.is_dir()), bool(l.is_dir()), what)
            elif op == "glob":
                got = sorted(p.relative_to(remote) for p in r.glob(x["pat"]))
                eq(got, sorted(p.relative_to(local) for p in l.glob(x["pat"])), f"{what}: {x['pat']}")
                for p in r.glob(x["pat"]):
                    eq(str(p), str(remote).rstrip("/") + "/" + p.relative_to(remote), "listed path")
                listed = True
                rec.label("glob with results", bool(got))
            elif op == "move":
                if not there or x["a"] == x["b"]:
                    continue
                (base / x["b"]).parent.mkdir(parents=True, exist_ok=True)
                l.move(descend(local, x["b"], x["how"]))
                r.move(descend(remote, x["b"], x["how"]))
                prune(base)
            elif op == "unlink":
                if not there:
                    continue  # removing is idempotent in object stores
                r.unlink()
                l.unlink()
                prune(base)
            elif op == "mkdir":
                r.parent.mkdir(exist_ok=True, parents=x["how"] % 2 == 0)
            want = {top + str(p.relative_to(base)): p.read_bytes() for p in base.rglob("*") if p.is_file()}
            eq(objs, want, f"stored objects after {what}")
        for name in sorted({x["a"] for x in case["ops"] if x["op"] in ("write", "other", "move")} | {"keep"}):
            eq(bool((remote / name).is_file()), (base / name).is_file(), f"{name} is a file at the end")
            if (base / name).is_file():
                eq((remote / name).size(), (base / name).stat().st_size, f"size of {name} at the end")
        eq(store.keys, {(f"key-{case['remote']}", f"region-{case['remote']}")}, "credentials used")
        rec.label("faults", store.faults > 0)
        rec.nt(len(case["ops"]) > 2)


# ------------------------------------------------------------------ pipelines

LOADER = {"__module__": "megatron.energon", "__class__": "StandardWebdatasetFactory",
          "sample_type": {"__module__": "megatron.energon", "__class__": "TextSample"},
          "sample_loader": "sample_loader.py:load", "part_filter": "sub/parts.py:part_filter"}


@st.composite
def pipe_cases(draw):
    nw = draw(st.integers(0, 2))
    return {"sets": draw(pipes.data_specs(max_n=4)), "nw": nw, "world": draw(st.sampled_from([1, 1, 2])),
            "seed": draw(st.integers(0, 10**6)), "split": draw(st.sampled_from(["train", "train", "val"])),
            "train": draw(st.booleans()), "shuffle": draw(st.sampled_from([None, 3])),
            "max_samples": draw(st.sampled_from([None, 1, 3])), "batch": draw(st.sampled_from([1, 2])),
            "kind": draw(st.sampled_from(["text", "text", "functions", "joined"])),
            "ref": draw(st.sampled_from(["rel", "url", "other"])), "n": draw(st.integers(1, 14)),
            "cut": draw(st.integers(0, 8)), "plan": draw(fault_plans()), "pick": draw(st.integers(0, 5))}


def write_pipe(case, root):
    """Returns the path (below root) to load."""
    kind = case["kind"]
    path = pipes.write(root, case["sets"], dataset=LOADER if kind == "functions" else None)
    if kind == "functions":
        for d in range(len(case["sets"])):
            nv = root / f"d{d}" / ".nv-meta"
            (nv / "sub").mkdir()
            (nv / "sample_loader.py").write_text(
                f"def load(s):\n    return dict(text='<{d}:' + s['txt'] + '>')\n")
            (nv / "sub" / "parts.py").write_text("def part_filter(p):\n    return p == 'txt'\n")
    elif kind == "joined":
        # the first dataset with itself
        (root / "meta.yaml").write_text(yaml.safe_dump({
            "__module__": "megatron.energon", "__class__": "MetadatasetV2",
            "splits": {p: {"join": [{"path": "./d0"}, {"path": "d0"}],
                           "joiner": {"__module__": "checks.p34", "__function__": "join_texts"}}
                       for p in case["sets"][0]["split"]}}))
        path = str(root / "meta.yaml")
    return path[len(str(root)) + 1:]


def join_texts(a, b):
    from megatron.energon import TextSample

    return TextSample.derive_from(a, text=a.text + "&" + b.text)


def remote_refs(case, root, store, path):
    """Copies root to the bucket, with references as they can be in remote storage."""
    store.load("bk", root)
    if case["ref"] != "rel" and path.endswith("meta.yaml"):
        name = "store" if case["ref"] == "url" else "other"
        objs = store.buckets["bk"]
        objs["meta.yaml"] = re.sub(rb"path: (\./)?(d\d)", rb"path: rclone://%s/bk/\2" % name.encode(), objs["meta.yaml"])


def view(s):
    return (s.__key__ if isinstance(s.__key__, str) else tuple(s.__key__),
            s.text if isinstance(s.text, str) else tuple(s.text), s.__restore_key__)


def make(case, path, wc):
    if case["train"]:
        return get_train_dataset(path, worker_config=wc, split_part=case["split"], batch_size=case["batch"],
                                 shuffle_buffer_size=case["shuffle"], max_samples_per_sequence=case["max_samples"])
    return get_val_dataset(path, worker_config=wc, split_part=case["split"], batch_size=case["batch"])


def run_pipe(case, path, wc, w, state=None):
    """What a worker yields, and its state after some of it."""
    s = Stream(make(case, path, wc), wc, w, keep=view)
    if not case["train"]:
        return s.epoch(), None
    first = s.take(case["cut"])
    state = s.save()
    return first + s.take(case["n"]), state


def pipe_body(case, rec):
    total = sum(n for s in case["sets"] for n, p in zip(s["counts"], s["split"]) if p == case["split"])
    workers = case["world"] * max(case["nw"], 1)
    if case["train"] and total < workers:
        return
    with s3.remote(("store", "other")) as store, wds.scratch() as root, pipes.quiet():
        path = write_pipe(case, root)
        remote_refs(case, root, store, path)
        url = f"rclone://store/bk/{path}"
        ModuleLoader._modules.clear()
        rank, w = case["pick"] % case["world"], case["pick"] % max(case["nw"], 1)
        wc = wcfg(case["nw"], rank, case["world"], case["seed"])
        want, state = run_pipe(case, str(root / path), wc, w)
        store.plan = [list(p) for p in case["plan"]]
        got, rstate = run_pipe(case, url, wc, w)
        eq(got, want, f"samples of worker {rank}/{w}")
        rec.label("faults", store.faults > 0)
        if case["train"]:
            # continued with the state, handed over like in a checkpoint
            s = make(case, url, wc)
            rstate = pickle.loads(pickle.dumps(rstate))
            s.restore_state(s.merge_states([rstate if i == w else None for i in range(max(case["nw"], 1))]))
            eq(Stream(s, wc, w, keep=view, index=case["cut"]).take(case["n"]), want[case["cut"]:], "resumed")
        rec.nt(len(want) > 1)
        rec.label("kind " + case["kind"], len(want) > 1)
        rec.label("reference " + case["ref"], path.endswith("meta.yaml"))


# ------------------------------------------------------------------ tools


@st.composite
def tool_cases(draw):
    return {"counts": draw(st.lists(st.integers(1, 3), min_size=1, max_size=4)),
            "dir": draw(st.sampled_from(["", "p/", "p/q/"])), "bad": draw(st.sampled_from([None, None, None, 0, 1])),
            "ratio": draw(st.sampled_from(["1,0,0", "8,1,1", "1,1,0"])), "shuffle": draw(st.booleans()),
            "top": draw(st.sampled_from(["ds", "x/ds"])), "listed": draw(st.booleans()), "cli": draw(st.booleans()),
            "workers": draw(st.sampled_from([1, 2])), "page": draw(st.sampled_from([1, 2, 1000])),
            "plan": draw(fault_plans(3))}


def tools_of(case, root_path, data):
    """Everything the tools print about a dataset."""
    res = []

    def run(args, inp=None):
        r = CliRunner().invoke(main, args, input=inp)
        text = re.sub(r"\r[^\n\r]*it/s\]|\d+%\|.*", "", r.output.replace(str(root_path), "ROOT"))
        res.append((args[0], r.exit_code, text))

    p = str(root_path)
    root = EPath(p)
    if case["listed"]:
        names = [q.relative_to(root) for q in root.glob("**/*.tar")]
    else:
        names = [n for n in data]
    res.append(("names", sorted(names)))
    if case["cli"]:
        run(["prepare", p, "--no-progress", "--num-workers", str(case["workers"]),
             *(["--shuffle-tars"] if case["shuffle"] else [])], f"{case['ratio']}\nn\n")
    else:
        ratio = list(zip(["train", "val", "test"], map(float, case["ratio"].split(","))))
        with contextlib.redirect_stderr(io.StringIO()):
            res.append(("parts", BaseWebdatasetFactory.prepare_dataset(
                root, sorted(names), workers=case["workers"], split_parts_ratio=ratio,
                shuffle_seed=5 if case["shuffle"] else None)))
    if (root / ".nv-meta" / ".info.yaml").is_file():
        with (root / ".nv-meta" / "dataset.yaml").open("w") as f:
            f.write(yaml.safe_dump(wds.TEXT))
        run(["info", p])
        run(["lint", p, "--parallel", "0"])
        run(["preview", p], "y\n" * 9)
        wc = wcfg(0)
        for part in ("train", "val", "test"):
            try:
                [(f, _)] = load_dataset(p).get_datasets(training=False, split_part=part, worker_config=wc)
                res.append((part, wds.read(f.build(), wc, key=lambda s: (s.__key__, s.text))))
            except Exception as e:
                res.append((part, type(e).__name__))
    return res


def tool_body(case, rec):
    with s3.remote() as store, wds.scratch() as tmp:
        root = tmp / case["top"]
        shards = wds.simple_shards(case["counts"], dir=case["dir"])
        for name, ms in shards.items():
            wds.write_tar(root / name, ms)
        if case["bad"] is not None and case["bad"] < len(shards) and case["bad"] > 0:
            (root / list(shards)[case["bad"]]).write_bytes(b"this is no tar file" * 100)
        store.page = case["page"]
        store.load("bk", tmp)
        want = tools_of(case, root, shards)
        store.plan = calm(case["plan"])
        url = f"rclone://store/bk/{case['top']}"
        got = tools_of(case, url, shards)
        for g, w in zip(got, want):
            eq(g, w, f"{w[0]} on remote data")
        eq(len(got), len(want), "results")
        files = {str(p.relative_to(tmp)): p.read_bytes() for p in tmp.rglob("*") if p.is_file()}
        eq(store.buckets["bk"], files, "files after preparing")
        rec.label("faults", store.faults > 0)
        rec.label("unreadable shard", case["bad"])
        rec.label("listed before preparing", case["listed"])
        rec.label("command line", case["cli"])
        rec.nt(any(w[0] == "lint" for w in want))


# ------------------------------------------------------------------ worker processes


def loader_run(case, path):
    wc = wcfg(case["nw"], 0, 1, case["seed"])
    res = []
    ds = make(case, path, wc)
    if not case["train"]:
        loader = get_loader(ds)
        return [view(s) for _ in range(2) for s in loader]
    loader = get_savable_loader(ds, checkpoint_every_sec=0)
    it = iter(loader)
    for _ in range(case["cut"]):
        res.append(view(next(it)))
    state = loader.save_state_rank()
    for _ in range(case["n"]):
        res.append(view(next(it)))
    # the restored loader reads in new worker processes
    again = get_savable_loader(make(case, path, wc), checkpoint_every_sec=0)
    again.restore_state_rank(state)
    it2 = iter(again)
    more = [view(next(it2)) for _ in range(case["n"])]
    KEEP.extend([it, it2, loader, again])
    eq(more, res[case["cut"]:], "batches after restoring")
    return res


KEEP: list = []


def worker_body(case, rec):
    total = sum(n for s in case["sets"] for n, p in zip(s["counts"], s["split"]) if p == case["split"])
    case = dict(case, nw=max(case["nw"], 1))
    if case["train"] and total < case["nw"]:
        return
    with s3.remote(("store", "other")) as store, wds.scratch() as root:
        path = write_pipe(case, root)
        remote_refs(case, root, store, path)
        ModuleLoader._modules.clear()
        want = forked(lambda: loader_run(case, str(root / path)))
        store.plan = calm(case["plan"])
        url = f"rclone://store/bk/{path}"

        def run():
            if case["pick"] % 2:
                # connections of the main process are of no use in the workers
                EPath(url).is_file()
            return loader_run(case, url)

        eq(forked(run), want, "batches")
        rec.label("faults", store.faults > 0)
        rec.nt(len(want) > 1)


# ------------------------------------------------------------------ the configuration of the remotes

WHERE = ["exe", "xdg", "home", "legacy"]
NAMES = ["store", "my remote", "s3", "a.b", "A", "a"]
VALUE = {
    "access_key_id": ["AKIA1", "", None, "k%s", "a=b", "x;y#z"],
    "secret_access_key": ["wJalr/XUtn+FEMI", "", None, "p%q", "100%", "%(type)s", "a:b=c", "x #y"],
    "region": ["us-east-2", "eu-1", "", None],
    "endpoint": ["http://127.0.0.1:9000", "https://store.example.com", "store.example.com", "store.example.com:9000",
                 "10.0.0.1", "", None],
    "provider": ["AWS", "Other", "", None],
    "acl": ["private", "", None],
}


@st.composite
def config_cases(draw):
    files = {}
    for w in WHERE:
        if draw(st.booleans() if w != "legacy" else st.integers(0, 3)):
            files[w] = [
                dict({k: draw(st.sampled_from(v)) for k, v in VALUE.items()}, name=n,
                     type=draw(st.sampled_from(["s3", "s3", "s3", "S3", "drive"])))
                for n in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=3))]
    return {"files": files, "pick": draw(st.sampled_from(NAMES)), "first": draw(st.integers(0, 3)) > 0,
            "exe": draw(st.sampled_from(["yes", "yes", "no", "folder"])),
            # there may be folders without a configuration, the home folder as XDG folder, or no XDG folder
            "empty": draw(st.sampled_from([None, [], ["xdg"], ["xdg/rclone"], ["xdg/rclone/rclone.conf", "home/.config/rclone"]])), "spaces": draw(st.booleans())}


def config_body(case, rec):
    import s3fs

    env = {k: os.environ.get(k) for k in ("XDG_CONFIG_HOME", "HOME", "PATH", "AWS_ACCESS_KEY_ID", "AWS_SECRET_ACCESS_KEY")}
    with wds.scratch() as root:
        paths = {"exe": root / "bin/rclone.conf", "xdg": root / "xdg/rclone/rclone.conf",
                 "home": root / "home/.config/rclone/rclone.conf", "legacy": root / "home/.rclone.conf"}
        for d in ("bin", "home", "other"):
            (root / d).mkdir()
        for d in case.get("empty") or []:
            if not d.startswith("xdg") or "xdg" not in case["files"]:
                (root / d).mkdir(parents=True)
        for w, sections in case["files"].items():
            paths[w].parent.mkdir(parents=True, exist_ok=True)
            sep = " = " if case["spaces"] else "="
            paths[w].write_text("# comment\n" + "".join(
                f"[{e['name']}]\n" + "".join(f"{k}{sep}{v}".rstrip() + "\n" for k, v in e.items() if k != "name" and v is not None)
                + "\n" for e in sections))
        if case["exe"] == "yes":
            (root / "bin/rclone").write_text("#!/bin/sh\n")
            (root / "bin/rclone").chmod(0o755)
        elif case["exe"] == "folder":
            (root / "bin/rclone").mkdir()
        # the first existing file decides
        use = next((w for w in WHERE if w in case["files"] and (w != "exe" or case["exe"] == "yes")), None)
        entry = None
        if use:
            entry = next((e for e in case["files"][use] if e["name"] == case["pick"]), None)
            if entry is None and case["first"] and case["files"][use]:
                entry = case["files"][use][0]
        name = entry["name"] if entry else case["pick"]
        try:
            os.environ.update(XDG_CONFIG_HOME=str(root / "xdg"), HOME=str(root / "home"), PATH=f"{root}/other:{root}/bin",
                              AWS_ACCESS_KEY_ID="environment", AWS_SECRET_ACCESS_KEY="secret environment")
            if case.get("empty") is None and "xdg" not in case["files"]:
                del os.environ["XDG_CONFIG_HOME"]
            s3fs.S3FileSystem.clear_instance_cache()
            what = f"remote {name!r} in {case['files']}"
            try:
                p = EPath(f"rclone://{name}/bucket/x.txt")
            except FileNotFoundError:
                check(use is None, f"{what}: configuration not found")
                return rec.label("no file")
            except NotImplementedError:
                check(entry is not None and entry["type"].lower() != "s3", f"{what}: not supported")
                return rec.label("other type")
            except ValueError as e:
                check(use is not None and entry is None, f"{what}: {e!r}")
                return rec.label("unknown remote")
            check(entry is not None and entry["type"].lower() == "s3", f"{what}: was accepted")
            if bool(entry["access_key_id"]) != bool(entry["secret_access_key"]):
                return rec.label("partial credentials")
            try:
                s3 = p.fs.connect() or p.fs._s3
            except Exception as e:
                raise Violation(f"{what}: cannot be used: {e!r}")
            end = entry["endpoint"]
            if end:
                eq(s3.meta.endpoint_url, end if end.startswith("http") else "https://" + end, f"endpoint of {what}")
            else:
                check(s3.meta.endpoint_url.endswith("amazonaws.com"), f"{what}: endpoint {s3.meta.endpoint_url}")
            if entry["region"]:
                eq(s3.meta.region_name, entry["region"], f"region of {what}")
            cred = s3._request_signer._credentials
            if entry["access_key_id"] and entry["secret_access_key"]:
                eq([cred.access_key, cred.secret_key], [entry["access_key_id"], entry["secret_access_key"]], f"credentials of {what}")
            elif not entry["access_key_id"] and not entry["secret_access_key"]:
                eq(cred.access_key, "environment", f"credentials of {what}")
            eq(p.url, f"rclone://{name}/bucket/x.txt", "url")
            rec.label(use)
            rec.nt(len(case["files"]) > 1)
        finally:
            s3fs.S3FileSystem.clear_instance_cache()
            for k, v in env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v


CHECK = Check("P34", subs=[
    Sub("config", config_cases, config_body, quick=200, shards=2, thorough=4000, rule="several configuration files"),
    Sub("paths", path_cases, path_body, quick=60, shards=3, thorough=3000, rule="more than two operations"),
    Sub("pipelines", pipe_cases, pipe_body, quick=30, shards=2, thorough=1200, rule="several batches"),
    Sub("tools", tool_cases, tool_body, quick=10, shards=2, thorough=250, rule="the dataset was prepared"),
    Sub("workers", pipe_cases, worker_body, quick=6, shards=1, thorough=100, rule="several batches"),
])
