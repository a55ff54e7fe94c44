"""P17: transient read errors never corrupt or lose data."""
import dataclasses
import io
import random
import struct
import sys
import types
import warnings
from typing import Any
from unittest import mock

from hypothesis import strategies as st

import megatron.energon as en
from megatron.energon.epathlib import EPath
from megatron.energon.errors import FatalSampleError
from megatron.energon.retry_stream import RetryReadStream

from vp import wds
from vp.harness import Check, Sub, Violation, check, eq
from vp.lib import Stream, as_worker, restore_one, wcfg

ALLOWED = 10  # the tenth consecutive failure is reported

OK, SHORT, ZERO, ERR, ERR_MOVED = "ok", "short", "zero", "err", "moved"


class Faults:
    """Decides the fate of each operation on the underlying files."""

    def __init__(self, plan, forever=False):
        self.plan, self.i, self.forever = list(plan), 0, forever
        #: consecutive failed attempts
        self.run = self.max_run = self.n = 0

    def next(self):
        f = self.plan[self.i] if self.i < len(self.plan) else [ERR if self.forever else OK, 0]
        self.i += 1
        return f

    def fail(self):
        self.run += 1
        self.n += 1
        self.max_run = max(self.run, self.max_run)

    def progress(self):
        self.run = 0


class FlakyFile:
    probe = False

    def __init__(self, data, faults, opened):
        self.data, self.faults, self.pos = data, faults, 0
        self.closed = False
        self.opened = opened
        opened.append(self)

    def _alive(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def seek(self, offset, whence=0):
        self._alive()
        kind, k = self.faults.next()
        if kind in (ERR, ERR_MOVED):
            self.faults.fail()
            if kind == ERR_MOVED:
                self.pos = k % (len(self.data) + 1)
            raise OSError("seek failed")
        self.pos = offset if whence == 0 else self.pos + offset if whence == 1 else len(self.data) + offset
        return self.pos

    def read(self, n=-1):
        self._alive()
        kind, k = self.faults.next()
        if self.probe and n == 3 and self.pos == 0:  # probing for compressed files
            kind = OK
        want = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        if kind in (ERR, ERR_MOVED):
            self.faults.fail()
            if kind == ERR_MOVED:
                self.pos = min(len(self.data), self.pos + 1 + k)
            raise OSError("read failed")
        if kind == SHORT and len(want) > 1:
            want = want[:1 + k % (len(want) - 1)]
            self.faults.n += 1
        elif kind == ZERO and want:
            self.faults.fail()
            return b""
        self.faults.progress()
        self.pos += len(want)
        return want

    def tell(self):
        return self.pos

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.faults.run and self.faults.next()[0] in (ERR, ERR_MOVED):
            raise OSError("close failed")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class FlakyPath:
    def __init__(self, data, faults):
        self.data, self.faults, self.opened = data, faults, []

    def size(self):
        return len(self.data)

    def open(self, *a, **kw):
        if self.faults.next()[0] in (ERR, ERR_MOVED):
            self.faults.fail()
            raise OSError("open failed")
        return FlakyFile(self.data, self.faults, self.opened)


fault = st.one_of(
    st.just([OK, 0]), st.just([OK, 0]),
    st.builds(lambda k: [SHORT, k], st.integers(0, 40)),
    st.just([ZERO, 0]), st.just([ERR, 0]),
    st.builds(lambda k: [ERR_MOVED, k], st.integers(0, 40)))


@st.composite
def plans(draw):
    res = []
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.integers(0, 3))
        if k == 0:  # a run of failures
            res += [[draw(st.sampled_from([ERR, ERR, ERR_MOVED, ZERO])), 3]] * draw(st.integers(1, 12))
        elif k == 1:  # many short reads
            res += [[SHORT, draw(st.integers(0, 3))]] * draw(st.integers(1, 25))
        else:
            res += draw(st.lists(fault, max_size=6))
    return res


@st.composite
def cases(draw):
    size = draw(st.sampled_from([0, 1, 2, 7, 40, 200]))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("read"), st.integers(0, 60)), st.tuples(st.just("read"), st.integers(0, 60)),
        st.tuples(st.just("read"), st.just(-1)), st.tuples(st.just("all"), st.just(0)),
        st.tuples(st.just("set"), st.integers(0, 60)), st.tuples(st.just("cur"), st.integers(-30, 30)),
        st.tuples(st.just("end"), st.integers(-60, 0)), st.tuples(st.just("tell"), st.just(0)),
        st.tuples(st.just("past"), st.integers(1, 60)),
    ), min_size=1, max_size=10))
    return {"size": size, "ops": [list(o) for o in ops], "plan": draw(plans()),
            "forever": draw(st.integers(0, 4)) == 0}


def body(case, rec):
    data = wds.blob("p17", size=case["size"])
    size = len(data)
    faults = Faults(case["plan"], case["forever"])
    path = FlakyPath(data, faults)
    s = RetryReadStream(path)
    pos = 0
    reads = errors = 0
    for op, n in case["ops"]:
        faults.run = faults.max_run = 0
        if op in ("read", "all"):
            want = data[pos:] if n < 0 or op == "all" else data[pos:pos + n]
            try:
                got = s.read() if op == "all" else s.read(n)
            except OSError as e:
                errors += 1
                check(faults.max_run >= ALLOWED,
                      f"read({n}) at {pos} of {size} failed with {e!r} after only {faults.max_run} consecutive failures")
                eq(s.tell(), pos, "position after a failed read")
                continue
            eq(got, want, f"read({n}) at {pos} of {size}")
            check(not (want and case["forever"] and faults.i > len(faults.plan) + 60),
                  "read goes on forever")
            pos += len(want)
            reads += len(want) > 0
        elif op == "tell":
            eq(s.tell(), pos, "tell")
        elif op == "past":
            s.seek(size + n)
            try:
                eq(s.read(5), b"", "read behind the end")
            except OSError:
                check(faults.max_run >= ALLOWED, "read behind the end failed")
            s.seek(pos)
        else:
            if op == "set":
                new, args = min(n, size), None
                args = (new,) if n % 2 else (new, 0)
            elif op == "cur":
                new = min(max(pos + n, 0), size)
                args = (new - pos, 1)
            else:
                new = max(size + n, 0)
                args = (new - size, 2)
            eq(s.seek(*args), new, f"seek{args}")
            eq(s.tell(), new, f"tell after seek{args}")
            pos = new
    faults.plan = []
    faults.forever = False
    s.close()
    check(all(f.closed for f in path.opened), "a file is left open")
    rec.nt(reads > 0 and faults.n > 0)
    rec.label("reported errors", errors)
    rec.label("faults", faults.n)
    rec.label("many short reads", sum(f[0] == SHORT for f in case["plan"][:faults.i]) > 10)


@st.composite
def tar_cases(draw):
    counts = draw(st.lists(st.integers(1, 6), min_size=1, max_size=3))
    return {"counts": counts, "sizes": draw(st.lists(st.sampled_from([0, 1, 511, 512, 3000, 20000]), min_size=1, max_size=4)),
            "rate": draw(st.sampled_from([0.0, 0.2, 0.5])), "short": draw(st.sampled_from([0.0, 0.3, 0.9])),
            "seed": draw(st.integers(0, 10**6)), "par": draw(st.sampled_from([1, 2, 8]))}


class RandomFaults(Faults):
    def __init__(self, seed, rate, short):
        super().__init__([])
        self.rng, self.rate, self.short = random.Random(seed), rate, short
        self.bad = 0

    def next(self):
        self.i += 1
        x = self.rng.random()
        if x < self.rate and self.bad < ALLOWED - 1:
            self.bad += 1
            return [self.rng.choice([ERR, ERR_MOVED]), self.rng.randrange(50)]
        if x > 1 - self.short:
            return [SHORT, self.rng.choice([0, 1, 100, 511, 512, 3000])]
        return [OK, 0]

    def progress(self):
        super().progress()
        self.bad = 0


def tar_body(case, rec):
    members, k = {}, 0
    for i, n in enumerate(case["counts"]):
        ms = []
        for _ in range(n):
            for ext in ("bin", "txt"):
                ms.append((f"s{k}.{ext}", wds.blob(k, ext, size=case["sizes"][k % len(case["sizes"])])))
            k += 1
        members[f"shard{i}.tar"] = ms
    want = [[f"{n}/{key}", parts] for n, ms in members.items() for key, parts, _ in wds.samples_of(ms)]
    view = lambda s: [s["__key__"], {k: v for k, v in s.items() if not k.startswith("__")}]
    faults = RandomFaults(case["seed"], case["rate"], case["short"])
    orig = EPath.open
    opened = []

    def flaky_open(self, mode="r", *a, **kw):
        if mode != "rb" or not str(self).endswith(".tar"):
            return orig(self, mode, *a, **kw)
        with orig(self, "rb") as f:
            res = FlakyFile(f.read(), faults, opened)
            res.probe = True
            return res

    with wds.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("error")
        wds.write_dataset(d, members)
        wc = wcfg(0)
        with mock.patch.object(EPath, "open", flaky_open):
            kw = {} if case["par"] == 1 else dict(training=True, shuffle_over_epochs=1, parallel_shard_iters=case["par"])
            got = wds.read(wds.crude(d, wc, **kw).build(), wc, n=len(want), key=view)
    if case["par"] == 1:
        eq(got, want, "samples read")
    else:
        eq(sorted(got, key=repr), sorted(want, key=repr), "samples read")
    rec.nt(faults.n > 0 and len(want) > 1)
    rec.label("faults", faults.n)


# ---------------------------------------------------------------------------- permanent errors


@dataclasses.dataclass
class Col(en.Sample):
    a: Any
    b: Any


@dataclasses.dataclass
class Cols(en.Sample):
    keys: list
    parts: list


def join_cols(*cols):
    return Cols.derive_from(cols[0], keys=[c.__key__ for c in cols], parts=[{"a": c.a, "b": c.b} for c in cols])


MOD = types.ModuleType("vp_p17_types")
MOD.Col = Col
sys.modules["vp_p17_types"] = MOD


class BadDisk:
    """Which attempts to read fail: those touching bad bytes, or made during an outage."""

    def __init__(self, bad, outages):
        self.bad, self.outages = bad, outages
        #: attempts so far, failures in a row, errors raised by the stream
        self.n = self.run = self.errors = self.failed = 0
        self.on = True

    def attempt(self, name, pos, n):
        self.n += 1
        if self.on and (any(pos < hi and pos + n > lo for f, lo, hi in self.bad if f == name) or
                        any(at <= self.n < at + k for at, k in self.outages)):
            self.failed += 1
            self.run += 1
            if self.run == ALLOWED:
                self.run = 0
                self.errors += 1
                self.where = (name, pos)
            raise OSError("cannot read")
        self.run = 0


class BadFile(io.BytesIO):
    def __init__(self, disk, name, data):
        super().__init__(data)
        self.disk, self.name = disk, name

    def read(self, n=-1):
        pos = self.tell()
        if not (n == 3 and pos == 0):  # probing for compressed files
            self.disk.attempt(self.name, pos, len(self.getbuffer()) - pos if n is None or n < 0 else n)
        return super().read(n)


@st.composite
def outage_cases(draw):
    counts = draw(st.lists(st.integers(1, 6), min_size=1, max_size=3))
    total = sum(counts)
    cols = draw(st.sampled_from([1, 1, 1, 2]))
    few = st.integers(0, 2) if cols == 1 else st.just(2)
    return {"counts": counts, "cols": cols,
            "sizes": draw(st.lists(st.sampled_from([0, 5, 511, 512, 4000, 9000, 12000, 30000]), min_size=1, max_size=5)),
            "parts": draw(st.lists(few.map(lambda k: k + 1), min_size=1, max_size=4)),
            "meta": draw(st.booleans()),
            "exclude": draw(st.lists(st.integers(0, total - 1), max_size=min(2, total - 1), unique=True)),
            "max": draw(st.sampled_from([None, None, 1, 2, 3])),
            # (column, shard, permille, bytes)
            "bad": [list(x) for x in draw(st.lists(st.tuples(
                st.integers(0, cols - 1), st.integers(0, len(counts) - 1), st.integers(0, 1000),
                st.sampled_from([1, 1, 600, 15000])), max_size=2))],
            # (first attempt, number of attempts)
            "outages": [list(x) for x in draw(st.lists(st.tuples(
                st.integers(1, 4 + total * 3), st.sampled_from([3, 9, 10, 12, 19, 20, 25])), max_size=2))],
            # the call which raises
            "filter": draw(st.one_of(st.none(), st.none(), st.integers(0, 2 * total))) if cols == 1 else None,
            "handler": draw(st.sampled_from(["collect", "collect", "collect", "raise", "default"])),
            "cut": draw(st.integers(0, total))}


def outage_body(case, rec):
    total, cols = sum(case["counts"]), case["cols"]
    pos = [(i, j) for i, n in enumerate(case["counts"]) for j in range(n)]
    disk = BadDisk([], case["outages"])
    errors = []
    calls = [0]

    class Stop(Exception):
        pass

    def handler(e, key):
        errors.append((e, key))
        if case["handler"] == "raise":
            raise Stop()

    def part_filter(ext):
        calls[0] += 1
        if disk.on and case["filter"] is not None and calls[0] == case["filter"] + 1:
            raise ValueError("filter")
        return ext != "no"

    orig = EPath.open

    def bad_open(self, mode="r", *a, **kw):
        if mode != "rb" or not str(self).endswith(".tar"):
            return orig(self, mode, *a, **kw)
        with orig(self, "rb") as f:
            return BadFile(disk, str(self), f.read())

    with wds.scratch() as root:
        starts = set()
        sizes = {}
        excl = [f"{'ab'[c]}{pos[k][0]}.tar/k{k}" for k in case["exclude"] for c in range(cols)]
        for c in range(cols):
            shards = {}
            for k, (i, _) in enumerate(pos):
                ms = shards.setdefault(f"{'ab'[c]}{i}.tar", [])
                n = case["parts"][k % len(case["parts"])]
                for p in range(n):
                    ms.append((f"k{k}.{('a', 'b', 'no')[p]}",
                               wds.blob(c, k, p, size=case["sizes"][(k + p + c) % len(case["sizes"])])))
                if case["meta"] and k % 2:
                    ms.append(("__meta__/x.txt", b"meta"))
            wds.write_dataset(root / f"c{c}", shards, exclude=excl, dataset=wds.CRUDE if cols == 1 else {
                "__module__": "megatron.energon", "__class__": "StandardWebdatasetFactory",
                "sample_type": {"__module__": "vp_p17_types", "__class__": "Col"}, "field_map": {"a": "a", "b": "b"}})
            for name in shards:
                f = root / f"c{c}" / name
                idx = f.with_suffix(".tar.idx").read_bytes()
                starts |= {(str(EPath(str(f))), o) for (o,) in struct.iter_unpack("Q", idx)} | {(str(EPath(str(f))), 0)}
                sizes[(c, name)] = f.stat().st_size
        for c, i, permille, n in case["bad"]:
            name = f"{'ab'[c]}{i}.tar"
            lo = sizes[(c, name)] * permille // 1000
            disk.bad.append((str(EPath(str(root / f"c{c}" / name))), lo, lo + n))

        def content(c, k):
            n = case["parts"][k % len(case["parts"])]
            return {("a", "b")[p]: wds.blob(c, k, p, size=case["sizes"][(k + p + c) % len(case["sizes"])])
                    for p in range(min(n, 2))}

        wc = wcfg(0)

        def build():
            kw = {} if case["handler"] == "default" else {"handler": handler}
            if case["max"]:
                kw["max_samples_per_sequence"] = case["max"]
            if cols == 1:
                return wds.crude(root / "c0", wc, part_filter=part_filter, **kw).build()
            inner = [en.StandardWebdatasetFactory(
                EPath(str(root / f"c{c}")), sample_type=Col, field_map={"a": "a", "b": "b"}, split_part="train",
                training=False, worker_config=wc, auto_decode=False) for c in range(cols)]
            return en.JoinedWebdatasetFactory(inner, joiner=join_cols, training=False, worker_config=wc, **kw).build()

        restore_keys = {}

        def number(s):
            """The number of the sample, after checking that it is complete."""
            key = s["__key__"] if cols == 1 else s.__key__
            k = int(key.split("/k")[1])
            if cols == 1:
                eq({x: v for x, v in s.items() if not x.startswith("__")}, content(0, k), f"parts of {key}")
                eq(key, f"a{pos[k][0]}.tar/k{k}", "key")
            else:
                eq(s.keys, [f"{'ab'[c]}{pos[k][0]}.tar/k{k}" for c in range(cols)], "joined keys")
                eq(s.parts, [content(c, k) for c in range(cols)], f"joined parts of {key}")
            want = ["Webdataset"] + [x for c in range(cols) for x in (f"{'ab'[c]}{pos[k][0]}.tar", pos[k][1])]
            got = s["__restore_key__"] if cols == 1 else s.__restore_key__
            eq(list(got)[-len(want):], want, f"restore key of {key}")
            restore_keys[k] = got
            return k

        whole = [k for k in range(total) if k not in case["exclude"]]
        raised = None
        state = None
        with mock.patch.object(EPath, "open", bad_open):
            stream = Stream(build(), wc, keep=number)
            got = []
            with as_worker(0, 0):
                while True:
                    if len(got) == case["cut"] and state is None:
                        state = stream.save()
                    try:
                        k = stream._next()
                    except Violation:
                        raise
                    except Exception as e:
                        raised = e
                        break
                    if k is None:
                        break
                    got.append(k)
            calls_made, n_errors, reports = calls[0], disk.errors, list(errors)
            filtered = case["filter"] is not None and calls_made > case["filter"]
            n_errors += filtered
            check(all(a < b for a, b in zip(got, got[1:])) and set(got) <= set(whole),
                  f"samples {got} are delivered of {whole}")
            keys = [k for _, k in reports]
            missing = [k for k in whole if k not in got]
            if case["handler"] != "collect":
                eq(raised is not None, n_errors > 0, f"an error stops the iteration ({raised!r})")
                if n_errors:
                    check(not isinstance(raised, (AssertionError, TypeError, AttributeError)), f"raised {raised!r}")
                    check(got == whole[:len(got)], f"samples {got} are delivered of {whole} before {raised!r}")
                else:
                    eq(got, whole, "samples without errors")
            else:
                for e, _ in reports:
                    check(isinstance(e, OSError) or (filtered and str(e) == "filter"), f"reported {e!r}")
                ended = [k for k in keys if k.endswith(".tar")]
                check(set(k for k in keys) <= set(
                    x for c in range(cols) for k in range(total) for x in (
                        f"{'ab'[c]}{pos[k][0]}.tar", f"{'ab'[c]}{pos[k][0]}.tar/k{k}")), f"reported keys {keys}")
                own = [k for k in keys if not k.endswith(".tar")]
                eq(len(own), len(set(own)), f"keys reported once ({keys})")
                if isinstance(raised, OSError):
                    # the shard cannot be opened
                    eq(len(reports), n_errors - 1, f"reported errors ({keys}), one raised")
                    check(disk.where in starts or cols > 1, f"raised {raised!r} when reading at {disk.where} in a shard")
                elif raised is not None:
                    # the columns have different lengths now
                    check(cols > 1 and ended and isinstance(raised, FatalSampleError),
                          f"raised {raised!r} after the reports {keys}")
                else:
                    eq(len(reports), n_errors, f"reported errors ({keys})")
                    lost = {int(k.split("/k")[1]) for k in own}
                    check(lost <= set(missing), f"samples {sorted(lost)} are reported, but {got} are delivered")
                    # the rest of a shard, or of a slice of it
                    runs = {}
                    for a, k in enumerate(missing):
                        if k not in lost:
                            prev = [m for m in whole if m < k]
                            if not prev or prev[-1] in got or prev[-1] in lost or pos[prev[-1]][0] != pos[k][0]:
                                runs[pos[k][0]] = runs.get(pos[k][0], 0) + 1
                    for i, n in runs.items():
                        have = sum(k[1:] == f"{i}.tar" for k in ended)
                        check(n <= have, f"samples {missing} are missing of {whole}, reported are only {keys}")
                rec.label("reported", len(reports) > 0)
                rec.label("rest of a shard", len(ended) > 0)
                rec.label("stopped", type(raised).__name__ if raised else "no")
                rec.label("went on after an error", any(k > min(missing) for k in got) if missing else False)
            # Restoring reads the sample or raises
            disk.outages = []
            for k in got[:3]:
                ds = build()
                before = disk.errors
                try:
                    r = restore_one(ds, wc, restore_keys[k], 0, keep=lambda s: s)
                except Exception as e:
                    check(disk.errors > before or calls[0] > (case["filter"] or 0), f"restoring raises {e!r}")
                    continue
                eq(number(r), k, "restored sample")
            # A checkpoint taken in between continues with the next sample
            if state is not None:
                disk.on = False
                ds = build()
                ds.restore_state(ds.merge_states([state]))
                rest = Stream(ds, wc, keep=number).epoch()
                want = [k for k in whole if not got[:case["cut"]] or k > got[case["cut"] - 1]]
                eq(rest, want, f"samples after the checkpoint ({keys})")
        rec.nt(n_errors > 0 and len(whole) > 1)
        rec.label("errors", n_errors)
        rec.label("recovered", disk.failed > 0 and n_errors == 0)
        rec.label("columns", cols > 1)
        rec.label("filter", filtered)


CHECK = Check("P17", subs=[
    Sub("outage", outage_cases, outage_body, quick=300, shards=4, thorough=6000,
        rule="a read fails for good (or the part filter raises) in a dataset with several samples"),
    Sub("stream", cases, body, quick=1500, shards=6, thorough=20000,
        rule="at least one read returned data and at least one fault was injected"),
    Sub("tar", tar_cases, tar_body, quick=80, shards=2, thorough=600,
        rule="at least one fault was injected while reading at least two samples"),
])
