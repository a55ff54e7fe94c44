"""P05: a checkpoint of the savable data loader resumes with exactly the next batch."""
from __future__ import annotations

import pickle
import time

from hypothesis import strategies as st

from megatron.energon.savable_loader import SavableDataLoader
from megatron.energon.worker import WorkerConfig

from vp import gen, wds
from vp.harness import Check, Sub, Violation, check, eq
from vp.lib import STARVE, Starved, build, freeze, kinds_of, wcfg
from vp.loaders import Gate, Gated, add_random, forked, interleave, seed_all, worker_streams
from vp.other import elsewhere


@st.composite
def cases(draw):
    nw = draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4]))
    top = draw(st.sampled_from(["I", "E", "F", "E", "I", "E", "F", "E", "few", "skew", "skew"]))
    if top == "few":
        # some workers have nothing
        spec = {"op": "src", "id": 0, "n": draw(st.lists(st.integers(0, 2), min_size=max(nw, 1), max_size=max(nw, 1)).filter(any))}
    elif top == "skew":
        # the workers run out at different times: the others are asked for more
        nw = draw(st.sampled_from([3, 3, 4, 2]))
        ns = draw(st.lists(st.sampled_from([0, 1, 3, 5, 9, 10, 11, 12, 14]), min_size=nw, max_size=nw).filter(any))
        spec = {"op": "src", "id": 0, "n": ns}
    elif top == "E":
        spec, _ = gen.pipe(draw, nw, draw(st.integers(0, 2)), [0], None)
        n = max(nw, 1)
        spec = {"op": "epochize", "n": draw(st.integers(n, 5 * n)), "in": spec}
    else:
        spec, _ = gen.pipe(draw, nw, draw(st.integers(0, 3)), [0], top)
    if draw(st.booleans()):
        spec = {"op": "map", "kind": draw(st.sampled_from(["bidx", "idx", "rand"])), "p": 1, "in": spec}
    world = draw(st.integers(1, 3))
    return dict(
        nw=nw, spec=spec, world=world, rank=draw(st.integers(0, world - 1)),
        seed_offset=draw(st.sampled_from([0, 0, 7])),
        random=nw > 0 and draw(st.booleans()),
        every_sec=draw(st.sampled_from([0, 0, 0, 60])),
        every_n=draw(st.sampled_from([None, None, 2 * nw, 2 * nw + 1, 7])),
        n_cp=draw(st.sampled_from([2, 2, 3])),
        tight=draw(st.booleans()),
        takes=draw(st.lists(st.one_of(st.integers(1, 14), st.integers(1, 14), st.just(0)),
                            min_size=1, max_size=3)),
        rest=draw(st.integers(1, 12)),
        twice=draw(st.booleans()),
        # save when the workers have prefetched all they may
        settle=draw(st.booleans()),
    )


class Reader:
    """Takes batches of a loader like a training loop, over several epochs."""

    def __init__(self, loader, gate=None, ref=None):
        self.loader, self.it = loader, None
        self.gate, self.ref, self.pos = gate, ref, 0
        self.empty = 0

    def permit(self):
        if self.gate is None:
            return
        done = self.ref[: self.pos + 1]
        later = self.ref[self.pos + 1:]
        later = later[: later.index(None)] if None in later else later
        for w in range(len(self.gate.allowed)):
            n = sum(1 for x in done if x is not None and x[0] == w)
            if self.ref[self.pos] is None or not any(x[0] == w for x in later):
                n += 1
            self.gate.allowed[w] = n

    def release(self):
        if self.gate is not None:
            for w in range(len(self.gate.allowed)):
                self.gate.allowed[w] = 10**9

    def take(self, k):
        """k batches, with None for each end of an epoch in between."""
        res, n = [], 0
        while n < k and self.empty < 4:
            if self.it is None:
                self.it = iter(self.loader)
            self.permit()
            try:
                s = next(self.it)
            except StopIteration:
                self.it = None
                self.empty += 1
                res.append(None)
            else:
                self.empty = 0
                n += 1
                res.append(freeze(s))
            self.pos += 1
        return res


def strip(x):
    while x and x[0] is None:
        x = x[1:]
    while x and x[-1] is None:
        x = x[:-1]
    return x


def key_of(s):
    """(sample without the outer restore key entry, that entry) of a frozen loader sample."""
    d = dict(s[1:])
    k = d["__restore_key__"]
    d["__restore_key__"] = k[3:]
    return (s[0],) + tuple(d.items()), k[:3]


def expected(case, wc, total):
    def factory(wc):
        ds = build(case["spec"], wc)
        return add_random(ds) if case["random"] else ds

    n = max(case["nw"], 1)
    STARVE[:] = [0, 10**9]
    limit = total + 4 * n + 4
    try:
        epochs, streams = 1, []
        while True:
            streams = worker_streams(factory, wc, epochs, limit, seed=case["random"])
            ref = interleave(streams)
            if sum(x is not None for x in ref) > total + 2 * n or epochs > 2 * total + 4:
                return streams, ref
            if epochs > 2 and all(not e for s in streams for e in s[-2:]):
                return streams, ref
            epochs *= 2
    except (Starved, RuntimeError):  # endlessly filtered, or "did not yield any packs after 10 rounds"
        return None, None


def verify_from(ref, gid, got, pos, what):
    want = strip(ref[pos:])
    got = strip(got)
    n = min(len(got), len(want))
    for i in range(n):
        if got[i] is None or want[i] is None:
            check(got[i] is want[i], f"{what}: item {i}: got {got[i]}, expected {want[i]} (None: end of the epoch)")
            continue
        w, idx, s = want[i]
        s2, k = key_of(got[i])
        eq((s2, k[1:]), (s, (gid[w], idx)), f"{what}: batch {i} (worker {w}, batch {idx} of it)")


def advance(ref, pos, k):
    """The position in ref after k more batches (at the first possible end)."""
    while k and pos < len(ref):
        if ref[pos] is not None:
            k -= 1
        pos += 1
    return pos


def run(case):
    nw = case["nw"]
    wc = wcfg(nw, case["rank"], case["world"], seed_offset=case["seed_offset"])
    total = sum(case["takes"]) + case["rest"]
    streams, ref = expected(case, wc, total)
    if ref is None:
        return None
    labels = set()
    gid = [wc.rank * nw + w for w in range(max(nw, 1))]

    def mk(gate):
        w = wcfg(nw, case["rank"], case["world"], seed_offset=case["seed_offset"])
        ds = Gated(build(case["spec"], w), gate)
        if case["random"]:
            ds = add_random(ds)
        return SavableDataLoader(ds, checkpoint_every_sec=case["every_sec"],
                                 checkpoint_every_min_n_samples=case["every_n"], n_checkpoints=case["n_cp"])

    def verify(got, pos, what):
        verify_from(ref, gid, got, pos, what)

    gate = Gate(nw)
    loader = mk(gate)
    tight = case["tight"] and nw > 0
    if tight:
        gate.allowed[:] = [0] * len(gate.allowed)
    rd = Reader(loader, gate if tight else None, ref)
    pos = 0
    keep = [loader]
    for i, k in enumerate(case["takes"]):
        got = rd.take(k)
        what = f"loader {i} ({'resumed' if i else 'initial'})"
        verify(got, pos, what)
        n = sum(g is not None for g in got)
        pos = advance(ref, pos, n)
        if n < k:
            labels.add("exhausted")
            return labels
        rd.release()
        rd.gate = None
        if case["settle"] and nw:
            time.sleep(0.05)
        state = loader.save_state_rank()
        if case["twice"]:
            other = loader.save_state_rank()
            rest = rd.take(3)
            verify(rest, pos, what + " after saving")
            state = pickle.loads(pickle.dumps(other))
        loader = mk(Gate(nw))
        loader.restore_state_rank(state)
        if case["twice"]:
            # restoring is repeatable as well
            loader.restore_state_rank(pickle.loads(pickle.dumps(state)))
        keep.append(loader)
        rd = Reader(loader)
        if nw and pos and (pos < len(ref)) and ref[pos] is not None and ref[pos][0] != 0:
            labels.add("next worker is not the first")
    got = rd.take(case["rest"])
    verify(got, pos, "last loader")
    if None in strip(got):
        labels.add("epoch boundary after the resume")
    if len(strip(got)) > 1:
        labels.add("nt")
    return labels


def body(case, rec):
    labels = forked(lambda: run(case), wall=90)
    if labels is None:
        return
    rec.nt("nt" in labels and any(case["takes"]))
    for l in labels - {"nt"}:
        rec.label(l)
    rec.label("workers=%d" % case["nw"])
    rec.label("uneven workers", case["spec"]["op"] == "src")
    rec.label("tight prefetch", case["tight"] and case["nw"] > 0)
    rec.label("chained", len(case["takes"]) > 1)
    rec.label("global random state", case["random"])
    rec.label("saved before the first batch", case["takes"][0] == 0)
    rec.label("saved right after restoring", 0 in case["takes"][1:])
    for k in kinds_of(case["spec"]):
        rec.label(k.split(":")[0])


@st.composite
def rank_cases(draw):
    nw = draw(st.sampled_from([0, 0, 1, 2]))
    world = draw(st.sampled_from([2, 2, 3]))
    spec, _ = gen.pipe(draw, nw, draw(st.integers(0, 2)), [0], "I")
    gather = draw(st.one_of(st.none(), st.integers(0, world - 1)))
    # gathered to one rank: only that rank can provide the state, otherwise any
    src = gather if gather is not None else draw(st.one_of(st.none(), st.integers(0, world - 1)))
    groups = draw(st.sampled_from([None, None, "stride", "block"]))
    if groups:
        # ranks within a group and of all processes are only the same for the first one of the first group
        gather, src = draw(st.sampled_from([(None, None), (None, None), (None, 0), (0, 0)]))
    return dict(nw=nw, world=world, groups=groups, spec=spec, takes=draw(st.lists(st.sampled_from([0, 0] + list(range(9))), min_size=world, max_size=world)),
                rest=draw(st.integers(1, 6)), started=draw(st.booleans()), gather=gather, src=src, pickled=draw(st.booleans()))


def run_ranks(case, path):
    from datetime import timedelta

    import torch.distributed as dist

    nw, world = case["nw"], case["world"]
    refs = []
    for r in range(world):
        c = dict(case, rank=r, seed_offset=0, random=False)
        _, ref = expected(c, wcfg(nw, r, world), case["takes"][r] + case["rest"])
        if ref is None:
            return False
        refs.append([x[2] for x in ref if x is not None])
    n_groups = 2 if case["groups"] else 1

    def rank(g):
        """Process g: its rank within its data parallel group is r."""
        r, grp = (g // n_groups, g % n_groups) if case["groups"] == "stride" else (g % world, g // world)

        def go():
            dist.init_process_group("gloo", init_method="file://" + path, rank=g, world_size=world * n_groups,
                                    timeout=timedelta(seconds=60))
            try:
                wc = wcfg(nw, r, world)
                if case["groups"]:
                    members = [[i * n_groups + j if case["groups"] == "stride" else j * world + i for i in range(world)]
                               for j in range(n_groups)]
                    wc = WorkerConfig.default_worker_config(nw, [dist.new_group(m) for m in members][grp])
                    eq((wc.rank, wc.world_size), (r, world), "rank within the group")
                gather, src = (case["gather"], case["src"]) if grp == 0 else (None, None)

                def mk():
                    return SavableDataLoader(build(case["spec"], wc))

                loader = mk()
                rd = Reader(loader)
                k = case["takes"][r]
                got = rd.take(k) if k else []
                if k == 0 and nw > 0 and case["started"]:
                    iter(loader)
                state = loader.save_state(dst_rank=gather)
                if gather is not None and r != gather:
                    check(state is None, f"rank {r} got a state, but it is gathered to rank {case['gather']}")
                else:
                    eq(len(state), world, "number of gathered states")
                if case["pickled"]:
                    state = pickle.loads(pickle.dumps(state))
                if src is not None and src != r:
                    state = None
                other = mk()
                if src is None:
                    other.restore_state(state)
                else:
                    # the other ranks pass None
                    other.restore_state(state, src_rank=src)
                got2 = Reader(other).take(case["rest"])
                got = [key_of(s)[0] for s in got + got2]
                eq(got, refs[r][:len(got)], f"batches of rank {r} with a save after {k}")
                eq(len(got), k + case["rest"], "number of batches")
                dist.barrier()
            finally:
                dist.destroy_process_group()

        return go

    import threading

    errors = []

    def one(r):
        try:
            forked(rank(r), wall=80)
        except BaseException as e:
            errors.append(e)

    ts = [threading.Thread(target=one, args=(r,)) for r in range(world * n_groups)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for kind in (Violation, BaseException):
        for e in errors:
            if isinstance(e, kind) and not str(e).startswith("HANG"):
                raise e
    if errors:
        raise errors[0]
    return True


def ranks_body(case, rec):
    with wds.scratch() as root:
        ok = forked(lambda: run_ranks(case, str(root / "store")), wall=110)
    if ok:
        rec.nt(any(case["takes"]))
        rec.label("not started on a rank", case["nw"] > 0 and not case["started"] and 0 in case["takes"])
        rec.label("several groups", bool(case["groups"]))
        rec.label("gathered to one rank", case["gather"] is not None)
        rec.label("scattered from one rank", case["src"] is not None)
        rec.label("worker processes", case["nw"] > 0)


# ------------------------------------------------------------------ in another process


ALIVE = []


def part(case, blob, k):
    """Reads k batches from a new loader; returns them and its state."""
    def go():
        w = wcfg(case["nw"], case["rank"], case["world"], seed_offset=case["seed_offset"])
        ds = build(case["spec"], w)
        loader = SavableDataLoader(add_random(ds) if case["random"] else ds, checkpoint_every_sec=case["every_sec"],
                                   checkpoint_every_min_n_samples=case["every_n"], n_checkpoints=case["n_cp"])
        ALIVE.append(loader)
        if blob is not None:
            loader.restore_state_rank(pickle.loads(blob))
        got = Reader(loader).take(k)
        return got, pickle.dumps(loader.save_state_rank())

    return forked(go, wall=60)


def process_body(case, rec):
    """Training goes on in another process, with only the pickled state of the first one."""
    wc = wcfg(case["nw"], case["rank"], case["world"], seed_offset=case["seed_offset"])
    ref = forked(lambda: expected(case, wc, sum(case["takes"]) + case["rest"])[1])
    if ref is None:
        return
    gid = [wc.rank * case["nw"] + w for w in range(max(case["nw"], 1))]
    pos, blob, some = 0, None, 0
    for i, k in enumerate([max(case["takes"][0], 1)] + case["takes"][1:] + [case["rest"]]):
        got, blob = part(case, blob, k) if i % 2 == 0 else elsewhere(part, case, blob, k)
        verify_from(ref, gid, got, pos, f"loader {i}")
        n = sum(g is not None for g in got)
        some += i > 0 and n > 0
        pos = advance(ref, pos, n)
        if n < k:
            rec.label("exhausted")
            break
    rec.nt(some)
    rec.label("worker processes", case["nw"] > 0)
    rec.label("global random state", case["random"])


# ------------------------------------------------------------------ saving after prefetching to the end


@st.composite
def ahead_cases(draw):
    """One worker has prefetched all the rest of the epoch, as the others have (almost) nothing."""
    nw = draw(st.sampled_from([3, 3, 4, 5]))
    ns = draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=nw, max_size=nw))
    lone = 2 * nw + draw(st.integers(2, nw + 2))
    ns[draw(st.integers(0, nw - 1))] = lone
    behind = draw(st.integers(0, nw))
    return dict(nw=nw, spec={"op": "src", "id": 0, "n": ns}, world=1, rank=0, seed_offset=0, random=False,
                every_sec=0, every_n=draw(st.sampled_from([None, None, 2 * nw + 1])), n_cp=2, tight=False,
                takes=[sum(ns) - behind], rest=draw(st.integers(1, 6)), twice=draw(st.booleans()), settle=True)


CHECK = Check("P05", subs=[
    Sub("resume", cases, body, quick=60, shards=8, thorough=600, budget=40, tbudget=500, hang_cpu=300,
        rule="a state saved after at least one batch was resumed and at least two further batches compared"),
    Sub("ahead", ahead_cases, body, quick=30, shards=4, thorough=200, budget=15, tbudget=100, hang_cpu=300,
        rule="a state saved after at least one batch was resumed and at least two further batches compared"),
    Sub("ranks", rank_cases, ranks_body, quick=10, shards=8, thorough=60, budget=40, tbudget=300, hang_cpu=300,
        rule="at least one rank saved after at least one batch"),
    Sub("process", cases, process_body, quick=12, shards=2, thorough=200, budget=20, tbudget=300, hang_cpu=300,
        rule="batches were delivered from a state handed to another process"),
])
