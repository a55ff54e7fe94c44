"""P27: stateless functions see reproducible randomness and leave none behind."""
import pickle
import random

import numpy as np
import torch
from hypothesis import strategies as st

from megatron.energon.rng import SystemRng
from megatron.energon.task_encoder.base import get_stateless, stateless
from megatron.energon.worker import WorkerConfig
from megatron.energon.wrappers import MapDataset

from vp.harness import Check, Sub, check, eq
from vp.other import elsewhere
from vp.lib import Src, Stream, as_worker, derive, force_inactive, restore_one, wcfg

DRAWS = {
    "py": lambda: random.random(), "pyint": lambda: random.randrange(10**9), "gauss": lambda: random.gauss(0, 1),
    "np": lambda: float(np.random.rand()), "npint": lambda: int(np.random.randint(10**9)),
    "npn": lambda: float(np.random.randn()),
    "t": lambda: torch.rand(()).item(), "tint": lambda: torch.randint(0, 10**9, ()).item(),
    "tn": lambda: tuple(torch.randn(3).tolist()), "perm": lambda: tuple(torch.randperm(6).tolist()),
    "shuf": lambda: tuple(random.sample(range(9), 5)), "npperm": lambda: tuple(np.random.permutation(6).tolist()),
}
draws = st.lists(st.sampled_from(sorted(DRAWS)), max_size=6)


def run(names):
    return [DRAWS[n]() for n in names]


def state():
    return (torch.get_rng_state().tolist(), [x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state()],
            random.getstate())


def perturb(seed, names=()):
    torch.manual_seed(seed)
    np.random.seed(seed % 2**32)
    random.seed(seed)
    run(names)


class Boom(Exception):
    pass


class Enc:
    """User code as in a task encoder; the decorated functions are shared by all instances."""

    @property
    def current_sample_index(self):
        return WorkerConfig.active_worker_config.active_worker_sample_index

    @stateless(restore_seeds=True)
    def plain(self, names, fail):
        res = run(names)
        if fail:
            raise Boom(res)
        return res

    @stateless(restore_seeds=True)
    def gen(self, steps, fail):
        for i, names in enumerate(steps):
            if i == fail:
                raise Boom()
            yield run(names)
        run(["py", "np", "t"])

    @stateless(restore_seeds=True)
    def nested(self, names, inner):
        a = run(names)
        b = self.plain(inner, False)
        return a, b, run(names)

    @stateless(restore_seeds=True)
    def reseeds(self, seed):
        perturb(seed)
        return run(["py", "np", "t"])


class activated:
    def __init__(self, wc, w, index, main=False):
        self.wc, self.w, self.index, self.main = wc, w, index, main

    def __enter__(self):
        nw = self.wc.num_workers
        self.cm = as_worker(None if self.main else self.w, 0 if self.main else nw)
        self.cm.__enter__()
        self.wc.worker_activate(self.index, override_global_rank=self.wc.rank * nw + self.w if self.main else None)

    def __exit__(self, *a):
        if a[0] is None:
            self.wc.worker_deactivate()
        else:
            force_inactive()
        self.cm.__exit__(None, None, None)


def fresh(wc, w, index, fn):
    """What a function sees in a process that never ran anything else: computed with new decorators."""
    raise NotImplementedError


place = st.tuples(st.sampled_from([(0, 1, 0), (1, 1, 0), (2, 1, 0), (2, 2, 1), (3, 2, 0)]), st.integers(0, 2),
                  st.integers(0, 3), st.integers(0, 4))


@st.composite
def cases(draw):
    calls = draw(st.lists(st.fixed_dictionaries({
        "place": place, "main": st.booleans(),
        "kind": st.sampled_from(["plain", "plain", "fail", "nested", "reseeds"]),
        "names": draws, "inner": draws, "outer": draws, "outseed": st.integers(0, 50)}), min_size=1, max_size=5))
    return {"calls": calls}


PROBE = ["pyint", "npint", "tint", "pyint", "npint", "tint"]


def place_of(c):
    (nw, world, rank), w, seed, index = c["place"]
    return wcfg(nw, rank=rank, world=world, seed_offset=seed), w % max(nw, 1), index


def call(enc, c):
    if c["kind"] == "plain":
        return enc.plain(PROBE + c["names"], False)
    if c["kind"] == "fail":
        try:
            enc.plain(PROBE + c["names"], True)
        except Boom as e:
            return e.args[0]
        check(False, "the exception of the user code got lost")
    if c["kind"] == "nested":
        a, b, r = enc.nested(PROBE + c["names"], PROBE + c["inner"])
        eq(b, enc.plain(PROBE + c["inner"], False), "draws of a nested stateless function")
        eq(b[:6], a[:6], "first draws of the nested function")
        return a
    enc.reseeds(c["outseed"])
    return enc.plain(PROBE + c["names"], False)


def body(case, rec):
    enc = Enc()
    seen = {}
    for i, c in enumerate(case["calls"]):
        wc, w, index = place_of(c)
        gid = wc.rank if wc.num_workers == 0 else wc.rank * wc.num_workers + w
        main = c["main"] and wc.num_workers > 0
        results = []
        for rep in range(2):
            perturb(c["outseed"] + rep, c["outer"])
            before = state()
            with activated(wc, w, index, main=main and rep == 1):
                r = call(enc if rep else Enc(), c)
                during = state()
            eq(during == before, True, f"global random state unchanged after call {i} ({c['kind']})")
            eq(state() == before, True, f"global random state unchanged after call {i} ({c['kind']})")
            after = run(c["outer"] + PROBE)
            perturb(c["outseed"] + rep, c["outer"])
            eq(run(c["outer"] + PROBE), after, "draws of the surrounding code")
            results.append(r)
        eq(results[1], results[0], f"draws of call {i} ({c['kind']}) under another global random state")
        # rank, worker and index of the sample within the rank determine the draws
        key = (gid, wc.seed_offset, index * max(wc.num_workers, 1) + w)
        probe = tuple(results[0][:6])
        if key in seen:
            eq(probe, seen[key], f"draws for worker, seed and sample {key}")
        for k2, p2 in seen.items():
            check(k2 == key or p2 != probe, f"the same draws for {key} and {k2}")
        seen[key] = probe
    rec.nt(len(seen) > 0)
    rec.label("several places", len(seen) > 1)
    for c in case["calls"]:
        rec.label(c["kind"])


@st.composite
def gen_cases(draw):
    gens = draw(st.lists(st.fixed_dictionaries({
        "place": place, "steps": st.lists(draws, max_size=4), "fail": st.one_of(st.none(), st.integers(0, 4))}),
        min_size=1, max_size=3))
    n = len(gens)
    # which generator makes a step, draws of the outer code in between; steps may end early
    return {"gens": gens, "sched": draw(st.lists(st.tuples(st.integers(0, n - 1), draws, st.integers(0, 9)), max_size=14)),
            "seed": draw(st.integers(0, 50))}


def gen_body(case, rec):
    enc = Enc()

    def alone(g):
        """Uninterrupted run."""
        wc, w, index = place_of(g)
        perturb(999)
        res = []
        with activated(wc, w, index):
            try:
                for x in enc.gen(g["steps"], g["fail"]):
                    res.append(x)
                res.append("END")
            except Boom:
                res.append("BOOM")
        return res

    want = [alone(g) for g in case["gens"]]
    for i, g in enumerate(case["gens"]):
        # the items together draw what one call draws
        wc, w, index = place_of(g)
        steps = g["steps"] if g["fail"] is None else g["steps"][:g["fail"]]
        with activated(wc, w, index):
            whole = enc.plain([n for names in steps for n in names], False)
        eq([x for item in want[i][:-1] for x in item], whole, f"draws of all items of generator {i}")
    perturb(case["seed"])
    outer_want = [run(d + ["pyint", "npint", "tint"]) for _, d, _ in case["sched"]]
    perturb(case["seed"])
    # the functions are called when the sample is processed
    its = {}
    got = [[] for _ in case["gens"]]
    outer = []
    interleaved = 0
    for j, (g, names, end) in enumerate(case["sched"]):
        wc, w, index = place_of(case["gens"][g])
        if got[g][-1:] not in (["END"], ["BOOM"], ["CLOSED"]):
            before = state()
            with activated(wc, w, index):
                if g not in its:
                    its[g] = enc.gen(case["gens"][g]["steps"], case["gens"][g]["fail"])
                if end == 0:
                    its[g].close()
                    got[g].append("CLOSED")
                else:
                    try:
                        got[g].append(next(its[g]))
                        interleaved += 1
                    except StopIteration:
                        got[g].append("END")
                    except Boom:
                        got[g].append("BOOM")
            eq(state() == before, True, f"global random state unchanged after step {j} of generator {g}")
        outer.append(run(names + ["pyint", "npint", "tint"]))
    eq(outer, outer_want, "draws of the surrounding code")
    for g, res in enumerate(got):
        n = len(res) - (res[-1:] == ["CLOSED"])
        eq(res[:n], want[g][:n], f"items of generator {g} when interleaved")
    rec.nt(interleaved > 1)
    rec.label("several generators", len(its) > 1)
    rec.label("failed", any(r[-1:] == ["BOOM"] for r in got))
    rec.label("closed", any(r[-1:] == ["CLOSED"] for r in got))


@st.composite
def pipe_cases(draw):
    nw = draw(st.sampled_from([0, 1, 2, 3]))
    return {"nw": nw, "rank": draw(st.integers(0, 1)), "seed": draw(st.integers(0, 5)),
            "n": draw(st.lists(st.integers(1, 4), min_size=max(nw, 1), max_size=max(nw, 1))),
            "gen": draw(st.booleans()), "out": draw(st.booleans()), "order": draw(st.integers(0, 100))}


class PipeEnc(Enc):
    @stateless(restore_seeds=True)
    def one(self, s):
        return derive(s, (s.val, tuple(run(PROBE))))

    @stateless(restore_seeds=True)
    def many(self, s):
        for i in range(1 + int(s.__key__.split("/")[1]) % 3):
            yield derive(s, (s.val, i, tuple(run(PROBE))))


def outer_fn(s):
    return derive(s, (s.val, run(["pyint", "npint", "tint"])))


def pipe_body(case, rec):
    nw = case["nw"]
    wc = wcfg(nw, rank=case["rank"], world=2, seed_offset=case["seed"])
    enc = PipeEnc()
    fn = enc.many if case["gen"] else enc.one
    check(get_stateless(fn), "the function is marked stateless")

    def pipe(rand=True):
        ds = Src(case["n"], 0, worker_config=wc)
        if case["out"]:
            ds = MapDataset(ds, outer_fn, worker_config=wc)
        if rand:
            ds = MapDataset(ds, fn, stateless_map_fn=True, worker_config=wc)
        return ds

    samples = []
    for w in range(max(nw, 1)):
        perturb(5)
        plain = Stream(pipe(False), wc, w, keep=lambda s: s.val).epoch()
        end = state()
        perturb(5)
        stream = Stream(pipe(), wc, w, keep=lambda s: (s.val, s.__restore_key__))
        res = stream.epoch()
        eq(state() == end, True, f"global random state of worker {w} after the epoch")
        inner = []
        for v, _ in res:
            if v[0] not in inner:
                inner.append(v[0])
        eq(inner, plain, f"samples of worker {w}, with draws of the surrounding code")
        samples += [(w, i, v, k) for i, (v, k) in enumerate(res)]
    if not case["out"]:
        ds = pipe()
        order = list(range(len(samples)))
        random.Random(case["order"]).shuffle(order)
        for j in order:
            w, i, v, k = samples[j]
            perturb(j)
            before = state()
            got = restore_one(ds, wc, pickle.loads(pickle.dumps(k)), wc.rank * nw + w, i, keep=lambda s: s.val)
            eq(got, v, f"sample {i} of worker {w} restored in the main process")
            eq(state() == before, True, "global random state after restoring a sample")
    probes = [v[-1] for _, _, v, _ in samples if not case["gen"] or v[1] == 0]
    eq(len(set(probes)), len(probes), "number of different random draws over the samples of all workers")
    rec.nt(len(samples) > 2)
    rec.label("several workers", nw > 1)


@st.composite
def save_cases(draw):
    return {"seed": draw(st.integers(0, 10**6)), "a": draw(draws), "b": draw(draws), "c": draw(draws),
            "args": draw(st.lists(st.one_of(st.integers(0, 3), st.sampled_from(["a", "1", "x|y"])), max_size=3)),
            "args2": draw(st.lists(st.one_of(st.integers(0, 3), st.sampled_from(["a", "1"])), max_size=3)),
            "how": draw(st.sampled_from(["seed", "args"])), "pickle": draw(st.booleans())}


def save_body(case, rec):
    def seed():
        SystemRng.seed(case["seed"]) if case["how"] == "seed" else SystemRng.seed_args(*case["args"])

    seed()
    first = run(case["a"] + PROBE)
    before = state()
    s = SystemRng.save_state()
    eq(state() == before, True, "global random state after saving")
    want = run(case["b"] + PROBE)
    perturb(case["seed"] + 1, case["c"])
    run(case["c"])
    if case["pickle"]:
        s = pickle.loads(pickle.dumps(s))
    for _ in range(2):
        SystemRng.restore_state(s)
        eq(state() == before, True, "restored global random state")
        eq(run(case["b"] + PROBE), want, "draws after restoring")
    perturb(case["seed"] + 2)
    seed()
    eq(run(case["a"] + PROBE), first, "draws after seeding again")
    a, b = case["args"], case["args2"]
    sa, sb = SystemRng.get_seed_from_args(*a), SystemRng.get_seed_from_args(*b)
    check(isinstance(sa, int) and 0 <= sa < 2**32, f"seed {sa}")
    if "|".join(map(str, a)) != "|".join(map(str, b)):
        check(sa != sb, f"same seed for {a} and {b}")
    rec.nt(case["b"])


def draws_of(case):
    """What the stateless functions draw in this process."""
    res = []
    for c in case["calls"]:
        wc, w, index = place_of(c)
        perturb(c["outseed"], c["outer"])
        with activated(wc, w, index):
            res.append(call(Enc(), c))
    seed = SystemRng.get_seed_from_args("a", 1, *[c["kind"] for c in case["calls"]])
    return res, seed


def process_body(case, rec):
    """The same draws in another process, as when a run is resumed."""
    eq(elsewhere(draws_of, case), draws_of(case), "draws in another process")
    rec.nt()


CHECK = Check("P27", subs=[
    Sub("calls", cases, body, quick=300, shards=3, thorough=4000, rule="at least one stateless call is compared"),
    Sub("generators", gen_cases, gen_body, quick=400, shards=2, thorough=4000,
        rule="at least two generator steps between draws of the surrounding code"),
    Sub("pipeline", pipe_cases, pipe_body, quick=250, shards=2, thorough=3000, rule="at least three samples"),
    Sub("process", cases, process_body, quick=100, shards=1, thorough=2000, rule="a stateless call is compared"),
    Sub("system", save_cases, save_body, quick=400, shards=1, thorough=4000, rule="draws follow the saved state"),
])
