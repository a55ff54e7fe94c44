"""Reference model of the deterministic dataset wrappers (see build() in lib.py for the specs).

One ``Model`` is one worker's view; ``epoch()`` returns the list of (key, val) of the next epoch.
"""
from __future__ import annotations

from vp.lib import BatchFns, Boom, PackFns, SkipSample, UserFns, hv, vs


class MBatch(BatchFns):
    current_sample_index = 0


class MUser(UserFns):
    current_sample_index = 0
    current_batch_index = 0


class MPack(PackFns):
    current_sample_index = None


class Model:
    def __init__(self, spec, w: int, nw: int, root=None):
        self.op = spec["op"]
        self.root = root or self
        #: number of samples yielded so far by the whole pipeline (only used of the root)
        self.count = 0
        self.passes = 0
        self.spec, self.w, self.nw = spec, w, max(nw, 1)
        self.inner = Model(spec["in"], w, nw, self.root) if "in" in spec else None
        self.inners = [Model(s, w, nw, self.root) for s in spec.get("ins", ())]
        self.idx = 0
        self.it = None
        self.errors = []

    # -- helpers
    def reset(self):
        """Back to the initial state."""
        self.idx = 0
        self.it = None
        for m in [self.inner] if self.inner else self.inners:
            m.reset()

    def all_errors(self):
        r = list(self.errors)
        for m in [self.inner] if self.inner else self.inners:
            r += m.all_errors()
        return r

    def next_index(self):
        self.idx += 1
        return (self.idx - 1) * self.nw + self.w

    def share(self, n):
        return n // self.nw + (1 if self.w < n % self.nw else 0)

    def call(self, fn, arg, err):
        """Results of calling a user function, which may return, skip, raise or generate."""
        try:
            r = fn(arg)
            if hasattr(r, "__next__"):
                yield from r
            else:
                yield r
        except SkipSample:
            pass
        except Boom:
            self.errors.append(err)

    def epoch(self):
        """All (key, val) of the next epoch of the whole pipeline."""
        res = []
        for s in self:
            res.append(plain(s))
            self.count += 1
        return res

    # -- one epoch
    def __iter__(self):
        sp, op = self.spec, self.op
        if op == "src":
            start = sum(sp["n"][: self.w])
            self.root.passes += 1
            if self.root.passes > 100000:
                raise RuntimeError("the model does not terminate: bad generator")
            for i in range(start, start + sp["n"][self.w]):
                yield vs((sp["id"], i), key=f"{sp['id']}/{i}")
        elif op == "map":
            f = MUser(sp["kind"], sp["p"])
            for s in self.inner:
                f.current_sample_index = self.next_index()
                f.current_batch_index = self.root.count * self.nw + self.w
                yield from self.call(f.map_fn(), s, ("map", s.val))
        elif op == "filter":
            for s in self.inner:
                if hv(s.val) % sp["p"] != 0:
                    yield s
        elif op == "itermap":
            for s in self.inner:
                if hv(s.val) % sp["p"] == 0:
                    if sp["kind"] == "drop":
                        continue
                    if sp["kind"] == "err":
                        self.errors.append(("itermap", s.val))
                        continue
                if sp["kind"] == "multi":
                    for j in range(hv(s.val) % 3):
                        yield vs(("im", s.val, j), key=s.__key__)
                    continue
                s.val = ("im", s.val)
                yield s
        elif op == "batch":
            f = MBatch(sp["kind"], sp["p"])
            batch = []

            def flush(batch):
                f.current_sample_index = self.next_index()
                return self.call(f.fn(), batch, ("batch", tuple(s.val for s in batch)))

            for s in self.inner:
                batch.append(s)
                if len(batch) == sp["size"]:
                    yield from flush(batch)
                    batch = []
            if batch and not sp.get("drop", False):
                yield from flush(batch)
        elif op == "pack":
            f = MPack(sp["kind"], sp["p"])

            def pack_all(buf):
                f.current_sample_index = self.next_index()
                try:
                    packs = f.select(buf)
                except SkipSample:
                    return
                except Boom:
                    self.errors.append(("prepack", tuple(s.val for s in buf)))
                    return
                for p in packs:
                    fn = f.packgen if sp["kind"] == "gen" else f.pack
                    yield from self.call(fn, p, ("pack", tuple(s.val for s in p)))

            buf = []
            for s in self.inner:
                buf.append(s)
                if len(buf) == sp["size"]:
                    yield from pack_all(buf)
                    buf = []
            if buf:
                yield from pack_all(buf)
        elif op == "limit":
            n = self.share(sp["n"])
            if n > 0:
                for i, s in enumerate(self.inner):
                    yield s
                    if i + 1 == n:
                        break
            self.inner.reset()
        elif op == "repeat":
            for _ in range(sp["n"]):
                yield from self.inner
        elif op == "epochize":
            def inf():
                while True:
                    yield from self.inner
            n = self.share(sp["n"])
            if n and self.it is None:
                self.it = inf()
            for _ in range(n):
                yield next(self.it)
        elif op == "concat":
            for m in self.inners:
                yield from m
        elif op in ("gc", "log"):
            yield from self.inner
        else:
            raise AssertionError(op)


def plain(s):
    return (s.__key__, s.val)
