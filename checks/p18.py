"""P18: a bad sample affects only itself, and fatal errors are never swallowed."""
from hypothesis import strategies as st

from megatron.energon import errors
from megatron.energon.errors import FatalSampleError
from megatron.energon.wrappers import (
    BatchDataset, FilterDataset, GroupBatchDataset, IterMapDataset, MapDataset, PackingDataset,
    ShuffleBufferDataset, SkipSample,
)

from vp import gen
from vp.harness import Check, Sub, check, eq
from vp.lib import Stream, build, derive, freeze, hv, vs, wcfg

TARGETS = ["map", "mapgen", "batch", "batchgen", "group_key", "group_batch", "pack_pre", "pack_final",
           "pack_finalgen", "itermap"]


class MyFatal(FatalSampleError):
    pass


class Stopped(Exception):
    """Raised by an error handler."""


class OtherError(Exception):
    pass


class KeyLike(KeyError):
    pass


FATAL = {"SystemError": SystemError, "SyntaxError": SyntaxError, "ImportError": ImportError,
         "ModuleNotFoundError": ModuleNotFoundError, "StopIteration": StopIteration,
         "StopAsyncIteration": StopAsyncIteration, "MemoryError": MemoryError,
         "RecursionError": RecursionError, "ReferenceError": ReferenceError, "NameError": NameError,
         "UnboundLocalError": UnboundLocalError, "FatalSampleError": FatalSampleError,
         "MyFatal": MyFatal}
HARMLESS = {"ValueError": ValueError, "RuntimeError": RuntimeError, "KeyError": KeyError, "OSError": OSError,
            "IndexError": IndexError, "AssertionError": AssertionError, "TypeError": TypeError,
            "NotImplementedError": NotImplementedError, "OtherError": OtherError, "KeyLike": KeyLike,
            "ZeroDivisionError": ZeroDivisionError, "UnicodeDecodeError": None,
            "SampleException": errors.SampleException}


def make_exc(name):
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf8", b"x", 0, 1, "bad")
    return {**FATAL, **HARMLESS}[name]("injected")


@st.composite
def cases(draw):
    nw = draw(st.sampled_from([0, 1, 2]))
    spec = gen.src(draw, nw, 0, 14)
    spec = gen.wrap(draw, spec, ["filter", "map:pure", "map:idx", "map:gen", "batch:pure"], 2)
    return {"nw": nw, "spec": spec, "target": draw(st.sampled_from(TARGETS)), "size": draw(st.integers(1, 4)),
            "p": draw(st.integers(2, 4)), "salt": draw(st.integers(0, 9)),
            "fatal": draw(st.sampled_from(sorted(FATAL))), "harmless": draw(st.sampled_from(sorted(HARMLESS))),
            "post": draw(st.lists(st.sampled_from(["map", "itermap", "batch", "filter", "pack", "mapgen"]), max_size=2)),
            "epochs": draw(st.integers(1, 2))}


def vals(x):
    if isinstance(x, list):
        return [s.val for s in x]
    return x.val if x is not None else None


class Run:
    def __init__(self, case, mode, w):
        self.case, self.mode, self.w = case, mode, w
        self.failures = []  # (input, number of delivered samples so far, exception)
        self.handled = []
        self.outer_handled = []
        self.out = []

    def bad(self, v):
        return hv((self.case["salt"], v)) % self.case["p"] == 0

    def fail(self, v):
        if self.mode == "skip":
            e = SkipSample()
        elif self.mode == "err" or self.mode == "raise":
            e = make_exc(self.case["harmless"])
        else:
            name = self.case["fatal"]
            if name == "StopIteration" and self.case["target"] in ("mapgen", "batchgen", "pack_finalgen", "itermap"):
                name = "SystemError"  # python itself turns it into a RuntimeError (PEP 479)
            e = make_exc(name)
        self.failures.append((v, len(self.out), e))
        raise e

    def handler(self, e, sample):
        self.handled.append((e, vals(sample)))
        if self.mode == "raise":
            raise Stopped("from the handler")

    def outer_handler(self, e, sample):
        self.outer_handled.append((e, vals(sample)))

    def build(self, wc):
        case = self.case
        ds = build(case["spec"], wc)
        t, size = case["target"], case["size"]

        def one(s):
            if self.bad(s.val):
                self.fail(s.val)
            return derive(s, ("t", s.val))

        def onegen(s):
            for i in range(hv(("n", s.val)) % 4):
                if i == 1 and self.bad(s.val):
                    self.fail(s.val)
                yield derive(s, ("t", i, s.val))

        def many(b):
            v = [s.val for s in b]
            if self.bad(v):
                self.fail(v)
            return vs(("t", *v), key="+".join(s.__key__ for s in b))

        def manygen(b):
            v = [s.val for s in b]
            for i in range(hv(("n", v)) % 4):
                if i == 1 and self.bad(v):
                    self.fail(v)
                yield vs(("t", i, *v), key="+".join(s.__key__ for s in b))

        def ok(b):
            return vs(("b", *[s.val for s in b]), key="+".join(s.__key__ for s in b))

        def pre(b):
            return [b[i:i + 2] for i in range(0, len(b), 2)]

        def badpre(b):
            v = [s.val for s in b]
            if self.bad(v):
                self.fail(v)
            return pre(b)

        kw = dict(error_handler=self.handler, worker_config=wc)
        if t == "map":
            ds = MapDataset(ds, one, **kw)
        elif t == "mapgen":
            ds = MapDataset(ds, onegen, **kw)
        elif t == "batch":
            ds = BatchDataset(ds, size, many, **kw)
        elif t == "batchgen":
            ds = BatchDataset(ds, size, manygen, **kw)
        elif t == "group_key":
            def key(s):
                if self.bad(s.val):
                    self.fail([s.val])
                return hv(s.val) % 3, None
            ds = GroupBatchDataset(ds, size, key, ok, **kw)
        elif t == "group_batch":
            ds = GroupBatchDataset(ds, size, lambda s: (hv(s.val) % 3, None), many, **kw)
        elif t == "pack_pre":
            ds = PackingDataset(ds, size, badpre, ok, **kw)
        elif t == "pack_final":
            ds = PackingDataset(ds, size, pre, many, **kw)
        elif t == "pack_finalgen":
            ds = PackingDataset(ds, size, pre, manygen, **kw)
        else:
            def itf(it):
                for s in it:
                    if self.bad(s.val):
                        if self.mode == "skip":
                            # iterator functions skip by not yielding
                            self.failures.append((s.val, len(self.out), None))
                            continue
                        self.fail(s.val)
                    yield derive(s, ("t", s.val))
            ds = IterMapDataset(ds, itf, **kw)
        okw = dict(error_handler=self.outer_handler, worker_config=wc)
        for post in case["post"]:
            if post == "map":
                ds = MapDataset(ds, lambda s: derive(s, ("o", s.val)), **okw)
            elif post == "mapgen":
                def g(s):
                    for i in range(hv(s.val) % 3):
                        yield derive(s, ("g", i, s.val))
                ds = MapDataset(ds, g, **okw)
            elif post == "itermap":
                def it(samples):
                    for s in samples:
                        yield derive(s, ("oi", s.val))
                ds = IterMapDataset(ds, it, **okw)
            elif post == "batch":
                ds = BatchDataset(ds, 2, ok, **okw)
            elif post == "filter":
                ds = FilterDataset(ds, filter_fn=lambda s: hv(s.val) % 3 > 0, worker_config=wc)
            elif post == "pack":
                ds = PackingDataset(ds, 3, pre, ok, **okw)
        return ds

    def run(self, wc):
        def keep(s):
            # indices advance differently for iterator functions: compare the values only
            self.out.append((s.__key__, freeze(s.val)))
        self.exc = None
        stream = Stream(self.build(wc), wc, self.w, keep=keep)
        for _ in range(self.case["epochs"]):
            try:
                stream.epoch()
            except Exception as e:
                self.exc = e
                return self
        return self


def body(case, rec):
    nw = case["nw"]
    wc = wcfg(nw)
    for w in range(max(nw, 1)):
        ref = Run(case, "skip", w).run(wc)
        if ref.exc is not None and "Pre packer did not yield" in str(ref.exc):
            rec.label("pre packer without packs")
            return
        check(ref.exc is None, "skipping samples raised %r", ref.exc)
        eq(ref.handled + ref.outer_handled, [], "handler calls for skipped samples")
        err = Run(case, "err", w).run(wc)
        check(err.exc is None, "a handled %s stopped the iteration: %r", case["harmless"], err.exc)
        eq(err.out, ref.out, "delivered samples if the others fail instead of being skipped")
        eq([v for v, _, _ in err.failures], [v for v, _, _ in ref.failures], "failing inputs")
        eq([v for _, v in err.handled], [v for v, _, _ in err.failures], "samples reported to the error handler")
        check(all(h[0] is f[2] for h, f in zip(err.handled, err.failures)), "other exceptions reported: %r", err.handled)
        eq(err.outer_handled, [], "calls of the error handlers of other steps")
        if ref.failures:
            at = ref.failures[0][1]
            for mode in ("fatal", "raise"):
                r = Run(case, mode, w).run(wc)
                name = case["fatal"] if mode == "fatal" else "error of the handler"
                check(r.exc is not None, "%s was swallowed after %s of %s samples", name, len(r.out), len(ref.out))
                if mode == "fatal":
                    check(isinstance(r.exc, FatalSampleError), "%s ends the iteration with %r", name, r.exc)
                    eq(r.handled, [], "error handler calls for the fatal " + name)
                else:
                    check(type(r.exc) is Stopped, "%s ends the iteration with %r", name, r.exc)
                    eq(len(r.handled), 1, "number of handler calls")
                eq(r.outer_handled, [], "calls of the error handlers of other steps")
                eq(r.out, ref.out[:at], f"samples delivered before the {name}")
                eq(len(r.failures), 1, "number of failures")
            rec.nt(len(ref.out) > 0)
            rec.label("failed at " + case["target"])
            rec.label("fatal " + case["fatal"])


CHECK = Check("P18", subs=[
    Sub("wrappers", cases, body, quick=900, shards=8, thorough=8000,
        rule="at least one failing input and one delivered sample"),
])
