"""P10: packing conserves the samples chosen by the packer."""
from hypothesis import strategies as st

from megatron.energon.task_encoder.base import stateless
from megatron.energon.wrappers import PackingDataset, SkipSample

from vp import gen
from vp.harness import Check, Sub, check, eq
from vp.lib import Boom, Stream, build, freeze, hv, restore_one, vs, wcfg
from vp.model import Model, plain


@st.composite
def cases(draw):
    nw = draw(gen.NW)
    return {
        "nw": nw, "epochs": draw(st.integers(1, 3)),
        "inner": gen.wrap(draw, gen.src(draw, nw, 0, 25), ["map:pure", "filter", "map:gen"], 1),
        "size": draw(st.integers(1, 9)),
        "maxpack": draw(st.integers(1, 4)),
        "order": draw(st.sampled_from(["keep", "reverse", "hash"])),
        "drop": draw(st.integers(0, 3)),
        "dup": draw(st.booleans()),
        "pre": draw(st.sampled_from(["", "", "skip", "err"])),
        "final": draw(st.sampled_from(["", "", "skip", "err", "gen", "generr"])),
        "salt": draw(st.integers(0, 30)),
    }


class Packer:
    """The user code, and (with log) a record of all of its calls."""

    def __init__(self, case):
        self.c = case
        self.log = []

    def choose(self, vals):
        """Indices of the samples of each pack."""
        c = self.c
        order = list(range(len(vals)))
        if c["order"] == "reverse":
            order.reverse()
        elif c["order"] == "hash":
            order.sort(key=lambda i: hv((c["salt"], vals[i])))
        res, i = [], 0
        while i < len(order):
            k = 1 + hv((c["salt"], vals[order[i]])) % c["maxpack"]
            res.append(order[i:i + k])
            i += k
        if c["drop"]:
            res = [p for p in res if hv((c["salt"], 9, vals[p[0]])) % 4 >= c["drop"]] or res[:1]
        if c["dup"] and hv((c["salt"], 5, vals)) % 3 == 0:
            res.append(list(res[0]))
        return res

    def fails(self, tag, vals):
        return hv((self.c["salt"], tag, vals)) % 3 == 0

    def pre(self, samples):
        vals = tuple(s.val for s in samples)
        self.log.append(("pre", vals))
        if self.c["pre"] and self.fails("pre", vals):
            raise SkipSample() if self.c["pre"] == "skip" else Boom("pre")
        return [[samples[i] for i in p] for p in self.choose(vals)]

    def result(self, samples, i=None):
        return vs((i,) + tuple(s.val for s in samples), key="+".join(s.__key__ for s in samples))

    @stateless
    def final(self, samples):
        vals = tuple(s.val for s in samples)
        self.log.append(("final", vals))
        if self.c["final"] in ("skip", "err") and self.fails("fin", vals):
            raise SkipSample() if self.c["final"] == "skip" else Boom("final")
        return self.result(samples)

    @stateless
    def final_gen(self, samples):
        vals = tuple(s.val for s in samples)
        self.log.append(("final", vals))
        for i in range(self.n_gen(vals)):
            if self.c["final"] == "generr" and i == 1:
                raise Boom("final gen")
            yield self.result(samples, i)

    def n_gen(self, vals):
        return hv((self.c["salt"], "n", vals)) % 4


def body(case, rec):
    nw = case["nw"]
    wc = wcfg(nw)
    errors = []

    def handler(e, samples):
        if not isinstance(e, Boom):
            e.vp_from_repo = True
            raise e
        errors.append(tuple(s.val for s in samples))

    def mk():
        pk = Packer(case)
        return pk, PackingDataset(
            build(case["inner"], wc), case["size"], pk.pre,
            pk.final_gen if case["final"].startswith("gen") else pk.final,
            final_packer_stateless=True, error_handler=handler, worker_config=wc)

    for w in range(max(nw, 1)):
        pk, ds = mk()
        inner = Model(case["inner"], w, nw)
        stream = Stream(ds, wc, w, keep=lambda s: s)
        restorable = []
        for e in range(case["epochs"]):
            samples = list(inner)
            log, want, exp_err = [], [], []
            ref = Packer(case)
            fail_run = 0
            for i in range(0, len(samples), case["size"]):
                buf = samples[i:i + case["size"]]
                vals = tuple(s.val for s in buf)
                log.append(("pre", vals))
                if case["pre"] and ref.fails("pre", vals):
                    fail_run += 1
                    if fail_run >= 8:
                        return  # many rounds without any pack are a documented error
                    if case["pre"] == "err":
                        exp_err.append(vals)
                    continue
                fail_run = 0
                for p in ref.choose(vals):
                    pack = [buf[j] for j in p]
                    pv = tuple(s.val for s in pack)
                    log.append(("final", pv))
                    if case["final"] in ("skip", "err") and ref.fails("fin", pv):
                        if case["final"] == "err":
                            exp_err.append(pv)
                        continue
                    if case["final"].startswith("gen"):
                        for k in range(ref.n_gen(pv)):
                            if case["final"] == "generr" and k == 1:
                                exp_err.append(pv)
                                break
                            want.append(plain(ref.result(pack, k)))
                    else:
                        want.append(plain(ref.result(pack)))
            pk.log.clear()
            errors.clear()
            got = stream.epoch()
            eq([plain(s) for s in got], want, f"packs of worker {w}, epoch {e}")
            eq(pk.log, log, "calls of the packing functions")
            eq(errors, exp_err, "reported errors")
            rec.nt(len(log) >= 3 and len(samples) > case["size"])
            rec.label("partial buffer", len(samples) % case["size"])
            rec.label("errors", exp_err)
            restorable += got
        _, fresh = mk()
        for s in restorable[:8]:
            eq(restore_one(fresh, wc, s.__restore_key__, w), freeze(s), "restored pack")


CHECK = Check("P10", subs=[
    Sub("packs", cases, body, quick=1500, shards=6, thorough=12000,
        rule="an epoch with more than one buffer and at least three packer calls")])
