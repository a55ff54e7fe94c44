"""P28: debug logs record exactly the delivered samples."""
import contextlib
import io
import json
import pickle
import warnings

from hypothesis import strategies as st

import megatron.energon as en
from megatron.energon import Cooker, basic_sample_keys, get_loader, get_savable_loader
from megatron.energon.flavors.text import TextSample
from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers import LogSampleDataset, MapDataset

from checks import p02, p29
from vp import pipes, wds
from vp.harness import Check, Sub, check, eq
from vp.lib import Src, Stream, derive, wcfg
from vp.loaders import forked, interleave

warnings.simplefilter("ignore")

SPLITS = ["train", "val"]


def config(case, rank, level, path):
    return WorkerConfig(rank=rank, world_size=case["world"], num_workers=case["nw"], seed_offset=case["seed"],
                        worker_log_level=level, worker_debug_path=path)


def cook(s):
    return TextSample(**basic_sample_keys(s), text=s["txt"])


def cookers(kind):
    """Cookers with and without conditions, which do the same."""
    if kind == "cond":
        return [Cooker(cook, condition=lambda s: len(s["txt"]) % 2 == 0), Cooker(cook)]
    if kind == "sub":
        return [Cooker(cook, is_subflavor="nope"), Cooker(cook, has_subflavors={})]
    return [Cooker(cook)]


@st.composite
def common(draw, max_nw=3):
    case = draw(p02.common(gs=(2,)))
    case.update(draw(p29.layout(max_nw)))
    case.update(level=draw(st.sampled_from([1, 1, 2, 2, 3])), crude=draw(st.sampled_from([None, None, "plain", "cond", "sub"])),
                epoch=draw(st.sampled_from([0, 0, 3, 7])), limit=draw(st.sampled_from([None, None, 3])))
    return case


def spec(case):
    te = dict(case["te"])
    if case["crude"]:
        te["_ns"] = {"cookers": cookers(case["crude"])}
    return te


def write(root, case):
    return pipes.write(root, case["sets"], wds.CRUDE if case["crude"] else None)


def make(path, case, wc):
    from megatron.energon import get_train_dataset, get_val_dataset

    te = spec(case)
    kw = dict(split_part=case["split"], worker_config=wc, batch_size=pipes.batch_size(te),
              batch_drop_last=case["drop"], packing_buffer_size=te["pack"]["size"] if te["pack"] else None,
              task_encoder=pipes.make_te(te))
    if case["train"]:
        return get_train_dataset(path, shuffle_buffer_size=case["shuffle"], max_samples_per_sequence=case["max_samples"],
                                 virtual_epoch_length=case["epoch"], shuffle_over_epochs_multiplier=case["mult"], **kw)
    return get_val_dataset(path, limit=case["limit"], **kw)


def keys_of(o):
    """The keys of a delivered batch; single samples have no list of keys."""
    return None if o[0] == "one" else list(o[1])


def lines(text, where):
    res = []
    check(text == "" or text.endswith("\n"), "%s: the last line is not complete", where)
    for line in text.splitlines():
        try:
            rec = json.loads(line)
        except ValueError:
            check(False, "%s: not a JSON line: %r", where, line[:300])
        check(isinstance(rec, dict) and isinstance(rec.get("t"), str), "%s: not a record: %r", where, line[:300])
        res.append(rec)
    return res


def logged(case, level):
    return level >= (1 if case["train"] else 2)


def records(case, rank, w, got, first):
    res = []
    for i, o in enumerate(got):
        r = {"t": "yield_batch", "r": rank, "w": rank * case["nw"] + w, "m": "train" if case["train"] else "val",
             "idx": first + i}
        if keys_of(o) is not None:
            r["keys"] = keys_of(o)
        res.append(r)
    return res


def file_id(case, rank, w):
    return rank * (case["nw"] + 1) + (w + 1 if case["nw"] else 0)


# ------------------------------------------------------------------ workers


@st.composite
def worker_cases(draw):
    case = draw(common())
    case.update(to=draw(st.sampled_from(["file", "file", "file", "stdout"])),
                first=draw(st.integers(0, 12)), pickled=draw(st.booleans()))
    return case


class Log:
    def __init__(self, root, case, rank, w, name):
        self.out = io.StringIO()
        self.dir = root / name
        self.file = case["to"] == "file"
        self.case, self.rank, self.w = case, rank, w
        self.path = str(self.dir / "sub" / "log_{worker_id}.jsonl") if self.file else None

    def run(self, fn):
        with contextlib.redirect_stdout(self.out):
            return fn()

    def read(self, what):
        if not self.file:
            out = self.out.getvalue()
            # between other output
            return lines("".join(x for x in out.splitlines(True) if x.startswith("{")), what + " (printed)")
        files = sorted(self.dir.rglob("*.jsonl"))
        own = self.dir / "sub" / f"log_{file_id(self.case, self.rank, self.w)}.jsonl"
        # a pipeline may also log while it is built, in the main process
        main = self.dir / "sub" / f"log_{self.rank * (self.case['nw'] + 1)}.jsonl"
        check(set(files) <= {own, main}, "%s: unexpected log files %s", what, [f.name for f in files])
        check("yield_batch" not in (main.read_text() if main.exists() and main != own else ""),
              "%s: batches are logged to the file of the main process", what)
        return lines(own.read_text(), what) if own.exists() else []


def worker_body(case, rec):
    total = sum(map(len, pipes.truth(case["sets"], case["split"])))
    if case["train"] and total < case["world"] * p29.n_workers(case):
        rec.label("fewer samples than workers")
        return
    with wds.scratch() as root, contextlib.redirect_stderr(io.StringIO()):
        path = write(root, case)
        for rank in range(case["world"]):
            for w in range(p29.n_workers(case)):
                if case["world"] * p29.n_workers(case) > 2 and (rank * p29.n_workers(case) + w) % 3 != case["pick"]:
                    continue
                what = f"log of worker {rank}/{w}"
                wc = config(case, rank, 0, None)
                with pipes.quiet():
                    if case["train"]:
                        n = p02.available(path, dict(case, n=20), wc, w, 60) if not case["crude"] else avail(path, case, wc, w)
                        if case["epoch"] and p29.share(case["epoch"], case["nw"], w) == 0:
                            n = 0
                        exp = Stream(make(path, case, wc), wc, w, keep=pipes.obs, patience=10**9).take(n)
                    else:
                        s = Stream(make(path, case, wc), wc, w, keep=pipes.obs)
                        exp = s.epoch(1000)
                        exp = (exp + s.epoch(1000))[:25]
                k = min(case["first"], len(exp))

                # the first k batches
                log = Log(root, case, rank, w, f"a{rank}_{w}")
                wc = config(case, rank, case["level"], log.path)
                stream = log.run(lambda: Stream(make(path, case, wc), wc, w, keep=pipes.obs, patience=10**9))
                for i in range(k):
                    eq(log.run(lambda: stream.take(1)), exp[i:i + 1], f"batch {i} of worker {rank}/{w} while logging")
                    if i in (0, k - 1):
                        mine = [r for r in log.read(what) if r["t"] == "yield_batch"]
                        want = records(case, rank, w, exp[:i + 1], 0) if logged(case, case["level"]) else []
                        eq(mine, want, what + f" after batch {i}")
                state = log.run(stream.save)
                if case["pickled"]:
                    state = pickle.loads(pickle.dumps(state))

                # resumed, into another log
                log = Log(root, case, rank, w, f"b{rank}_{w}")
                wc = config(case, rank, case["level"], log.path)
                stream = log.run(lambda: Stream(make(path, case, wc), wc, w, keep=pipes.obs, patience=10**9, index=k))
                states = [None] * p29.n_workers(case)
                states[w] = state
                log.run(lambda: stream.ds.restore_state(stream.ds.merge_states(states)))
                eq(log.run(lambda: stream.take(len(exp) - k)), exp[k:], f"batches of worker {rank}/{w} after resuming")
                mine = [r for r in log.read(what) if r["t"] == "yield_batch"]
                want = records(case, rank, w, exp[k:], k) if logged(case, case["level"]) else []
                eq(mine, want, what + " after resuming")
                rec.nt(logged(case, case["level"]) and 0 < k < len(exp))
                rec.label("keys", any("keys" in r for r in want))
    rec.label("train" if case["train"] else "val")
    rec.label(f"cookers {case['crude']}", bool(case["crude"]))
    rec.label("printed", case["to"] == "stdout")
    rec.label(f"level {case['level']}")


def avail(path, case, wc, w):
    """How many batches the worker makes of a fixed number of crude samples."""
    ds = p02.raw(path, case, wc)
    samples = Stream(ds, wc, w, keep=lambda s: (s["__key__"], s["txt"].decode() if isinstance(s["txt"], bytes) else s["txt"])).take(60)
    return min(len(pipes.prefix(pipes.TEModel(case["te"], w, wc.num_workers, case["drop"]), samples)), 20)


# ------------------------------------------------------------------ all kinds of batches


SHAPES = ["obj_key", "obj_keys", "dict_key", "dict_keys", "dict_plain", "list_obj", "list_dict", "none", "own"]


class Box:
    pass


def shape(kind, keys):
    if kind in ("obj_key", "list_obj"):
        b = Box()
        b.__dict__["__key__"] = keys
    elif kind == "obj_keys":
        b = Box()
        b.__dict__["__keys__"] = keys
    elif kind in ("dict_key", "list_dict"):
        b = {"__key__": keys, "x": 1}
    elif kind == "dict_keys":
        b = {"__keys__": keys}
    elif kind == "dict_plain":
        b = {"keys": keys}
    else:
        b = ("other", keys)
    return [b] if kind.startswith("list") else b


@st.composite
def shape_cases(draw):
    nw = draw(st.integers(0, 3))
    n = max(nw, 1)
    return {"nw": nw, "world": 2, "rank": draw(st.integers(0, 1)), "seed": 0, "to": "file",
            "counts": draw(st.lists(st.integers(0, 6), min_size=n, max_size=n)),
            "kind": draw(st.sampled_from(SHAPES)), "mode": draw(st.sampled_from(["train", "val"])),
            "level": draw(st.integers(0, 3)), "text": draw(st.text(max_size=4)), "order": draw(st.permutations(range(n))),
            "save": draw(st.booleans())}


def shape_body(case, rec):
    kind = case["kind"]

    def mine(v):
        return [f"{case['text']}{v}{i}" for i in range(1 + v % 3)]

    with wds.scratch() as root:
        for w in case["order"]:
            log = Log(root, case, case["rank"], w, f"s{w}")
            src = Src(case["counts"], 0, worker_config=config(case, case["rank"], case["level"], log.path))
            wc = src.worker_config

            def make():
                kw = {"get_keys_fn": lambda b: ["own", str(len(b[1]))]} if kind == "own" else {}
                return LogSampleDataset(MapDataset(src, lambda s: shape(kind, mine(s.val[1])), worker_config=wc),
                                        mode=case["mode"], worker_config=wc, **kw)

            ds = make()
            eq(len(ds), sum(case["counts"][:max(case["nw"], 1)]), "length")
            stream = Stream(ds, wc, w, keep=lambda b: True)
            vals = src.items[w]
            got = stream.epoch()
            if case["save"]:
                states = [None] * max(case["nw"], 1)
                states[w] = stream.save()
                merged = ds.merge_states(states)
                ds = make()
                ds.restore_state(merged)
                stream = Stream(ds, wc, w, keep=lambda b: True, index=len(vals))
            got += stream.epoch()
            eq(len(got), 2 * len(vals), "number of batches")
            exp = []
            for i, v in enumerate(vals + vals):
                r = {"t": "yield_batch", "r": case["rank"], "w": case["rank"] * case["nw"] + w, "m": case["mode"], "idx": i}
                if kind == "own":
                    r["keys"] = ["own", str(len(mine(v)))]
                elif kind != "none":
                    r["keys"] = mine(v)
                exp.append(r)
            eq(log.read(f"log of worker {w}"), exp if case["level"] >= 1 else [], f"log of worker {w}")
            rec.nt(len(exp) > 1 and case["level"] > 0)
    rec.label(kind)


# ------------------------------------------------------------------ loaders


@st.composite
def loader_cases(draw):
    case = draw(common(2))
    case.update(savable=draw(st.booleans()), world=draw(st.integers(1, 2)), rank=draw(st.integers(0, 1)),
                epoch=draw(st.sampled_from([2, 3, 6])), first=draw(st.integers(0, 9)), rest=draw(st.integers(1, 6)),
                resume=draw(st.booleans()))
    return case


def take(loader, k):
    """The next k batches, with None at the end of each epoch."""
    res, empty = [], 0
    while len([r for r in res if r]) < k and empty < 3:
        empty += 1
        for b in loader:
            res.append(pipes.obs(b))
            empty = 0
            if len([r for r in res if r]) == k:
                return res
        res.append(None)
    return res


def loader_body(case, rec):
    nw, rank = case["nw"], case["rank"] % case["world"]
    total = sum(map(len, pipes.truth(case["sets"], case["split"])))
    if case["train"] and total < case["world"] * p29.n_workers(case):
        return
    kind = "SavableDataLoader" if case["savable"] else "BasicDataLoader"
    with wds.scratch() as root, pipes.quiet():
        path = write(root, case)
        wc = config(case, rank, 0, None)
        flat, epochs = [], 4
        for w in range(p29.n_workers(case)):
            ds = make(path, case, wc)
            s = Stream(ds, wc, w, keep=pipes.obs, patience=10**9)
            if case["train"]:
                n = p29.share(case["epoch"], nw, w)
                have = min(avail(path, case, wc, w) if case["crude"] else p02.available(path, dict(case, n=30), wc, w, 90),
                           epochs * n)
                if have < epochs * n:
                    rec.label("too few batches")
                    return
                one = s.take(have)
                flat.append([one[i * n:i * n + n] for i in range(epochs)])
            else:
                flat.append([s.epoch(1000) for _ in range(epochs)])
        order = interleave(flat)
        real = [x for x in order if x is not None]
        k = min(case["first"], len(real))
        rest = min(case["rest"], len(real) - k) if case["resume"] and case["savable"] else 0

        def run():
            def loader(name):
                wc = config(case, rank, case["level"], str(root / name / "{worker_id}_{pid}.jsonl"))
                return (get_savable_loader if case["savable"] else get_loader)(make(path, case, wc))

            one = loader("a")
            got = take(one, k)
            again = None
            if rest:
                state = one.save_state_rank()
                two = loader("b")
                two.restore_state_rank(state)
                again = take(two, rest)
            return got, again

        got, again = forked(run)
        got = [g for g in got if g]
        eq(got, [x[2] for x in real[:k]], "batches delivered while logging")
        if rest:
            eq([g for g in again if g], [x[2] for x in real[k:k + rest]], "batches delivered after resuming")
        for name, lo, hi in [("a", 0, k)] + [("b", k, k + rest)] * bool(rest):
            files = sorted((root / name).glob("*.jsonl"))
            logs = []
            for f in files:
                i = int(f.name.split("_")[0])
                check(rank * (nw + 1) <= i <= rank * (nw + 1) + nw, "log file of worker %s in rank %s", i, rank)
                text = f.read_text()
                if i != rank * (nw + 1):
                    # a worker reading ahead may have been ended in the middle of a line (what was delivered was
                    # logged before, so it is in the complete lines)
                    text = text[:text.rfind("\n") + 1]
                logs.append((i, lines(text, f.name)))
            # what the main process delivered
            mine = [r for i, rows in logs for r in rows if i == rank * (nw + 1) and r["t"] == f"{kind}.yield"]
            eq(len(mine), hi - lo, f"number of delivered batches in the log ({name})")
            for i, r in enumerate(mine):
                w, idx, o = real[lo + i]
                exp = {"r": rank, "worker_id": w, "worker_idx": idx, "global_idx": i}
                eq({n: r.get(n) for n in exp}, exp, f"log entry of delivered batch {lo + i}")
                eq(r.get("keys"), keys_of(o), f"keys of delivered batch {lo + i}")
                rec.label("keys", keys_of(o) is not None)
            # what the workers made, which may be more (prefetching)
            seen = {}
            for i, rows in logs:
                rows = [r for r in rows if r["t"] == "yield_batch"]
                if not rows:
                    continue
                gid = rows[0]["w"]
                w = gid - rank * nw
                # a worker restarted in another process has another file
                check(i == file_id(case, rank, w), "worker %s logs to file %s", gid, i)
                mine = [b for e in flat[w] for b in e]
                first = rows[0]["idx"]
                eq(rows, records(case, rank, w, mine[first:first + len(rows)], first)
                   + rows[max(len(mine) - first, 0):], f"log of worker {w} ({name})")
                eq([r["idx"] for r in rows], list(range(first, first + len(rows))), f"steps of worker {w}")
                check(first == 0 or name == "b" or len(seen.get(w, ())) > 0, "the log of worker %s starts with step %s", w, first)
                seen.setdefault(w, set()).update(range(first, first + len(rows)))
            if logged(case, case["level"]):
                for w, idx, _ in real[lo:hi]:
                    check(w in seen and idx in seen[w], "batch %s of worker %s is missing in its log (%s)", idx, w, name)
            else:
                eq(seen, {}, "logs of the workers")
        rec.nt(k > 1)
        rec.label("resumed", bool(rest))
    rec.label(f"{kind} nw={nw}")
    rec.label(f"cookers {case['crude']}", bool(case["crude"]))


CHECK = Check("P28", subs=[
    Sub("worker", worker_cases, worker_body, quick=170, shards=4, thorough=2500, budget=30,
        rule="batches are logged, and the pipeline is resumed in the middle"),
    Sub("shapes", shape_cases, shape_body, quick=250, shards=1, thorough=3000, rule="more than one batch is logged"),
    Sub("loader", loader_cases, loader_body, quick=45, shards=3, thorough=400, budget=30,
        rule="the loader delivers more than one batch")])
