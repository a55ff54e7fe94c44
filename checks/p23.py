"""P23: path algebra normalises consistently and round-trips."""
import copy
import os
import pickle
import posixpath
from pathlib import Path, PurePosixPath
from unittest import mock

from hypothesis import strategies as st

from megatron.energon.epathlib import EPath
from megatron.energon.epathlib import epath as epath_mod
from megatron.energon.epathlib.rclone_config import ConfigEntry

from vp import wds
from vp.harness import Check, Sub, Violation, check, eq

REMOTES = {n: ConfigEntry(name=n, type="s3", provider="s3", access_key_id="a" + n, secret_access_key="s",
                          region="r", endpoint=f"https://{n}.invalid") for n in ("s3", "other", "a.b")}
COMPS = ["a", "b", "dir.d", "x.tar", "x.tar.idx", ".hidden", "..", "..", ".", "", "a b", "s3", "ä", "...", "*[?", "n.",
         "C:", "~", "%20"]
comps = st.lists(st.sampled_from(COMPS), max_size=5)


@st.composite
def base(draw):
    kind = draw(st.sampled_from(["abs", "abs", "rclone", "rclone", "rel"]))
    return [kind, draw(st.sampled_from(sorted(REMOTES))), draw(comps), draw(st.sampled_from(["", "/"]))]


op = st.one_of(
    st.builds(lambda c, t, k: ["join", c, t, k], comps, st.sampled_from(["", "/"]), st.booleans()),
    st.builds(lambda c, t, k: ["join", c, t, k], comps, st.sampled_from(["", "/"]), st.booleans()),
    st.builds(lambda b: ["joinabs", b], base()),
    st.just(["parent"]), st.just(["parent"]),
    st.builds(lambda s: ["suffix", s], st.sampled_from([".x", "", ".tar.idx", ".yaml"])),
)


@st.composite
def cases(draw):
    return {"base": draw(base()), "ops": draw(st.lists(op, max_size=6)), "other": draw(base()),
            # a path relative to one which shares its first parts, the last of which may be changed a bit
            "near": [draw(st.integers(0, 6)), draw(st.sampled_from(["", "", "cut", "x", "..x"])), draw(comps)]}


def text_of(b):
    kind, remote, cs, tail = b
    s = "/".join(cs)
    if kind == "rel":
        return s.lstrip("/") + (tail if s.strip("/") else "")
    if kind == "abs":
        return "/" + s.lstrip("/") + (tail if s.strip("/") else "")
    return f"rclone://{remote}/" + s + tail


class Above(Exception):
    pass


def resolve(cs):
    res = []
    for c in cs:
        if c in ("", "."):
            continue
        if c == "..":
            if not res:
                raise Above()
            res.pop()
        else:
            res.append(c)
    return res


class M:
    """Reference: a root (None for relative, "" for local, "rclone://x" for remotes) and components."""

    def __init__(self, root, comps):
        self.root, self.comps = root, comps

    @staticmethod
    def of(b):
        kind, remote, cs, _ = b
        cs = [c for c in cs if c not in ("", ".")]
        if kind == "rclone":
            return M("rclone://" + remote, resolve(cs))
        return M("" if kind == "abs" else None, cs)

    def text(self):
        if self.root is None:
            return "/".join(self.comps) or "."
        return (self.root + "/" + "/".join(self.comps)) if self.comps or not self.root else self.root

    def join(self, cs):
        return M(self.root, resolve(self.comps + cs))

    def parent(self):
        return M(self.root, self.comps[:-1])


def attempt(fn):
    try:
        return fn()
    except ValueError as e:
        return e


def body(case, rec):
    with mock.patch.object(epath_mod, "read_rclone_config", lambda: REMOTES):
        b = case["base"]
        try:
            m = M.of(b)
        except Above:
            # A remote path above its remote: an error, or the root, never another remote
            p = attempt(lambda: EPath(text_of(b)))
            rec.label("above the root")
            return
        p = EPath(text_of(b))
        verify(p, m, f"EPath({text_of(b)!r})")
        for o in case["ops"]:
            what = f"{p!r} {o}"
            if o[0] == "join":
                if m.root is None:
                    continue
                cs = [c for c in o[1]]
                while cs and cs[0] == "":
                    cs.pop(0)
                t = "/".join(cs) + (o[2] if cs else "")
                if t.startswith("/"):
                    continue
                try:
                    new = m.join([c for c in o[1]])
                except Above:
                    q = attempt(lambda: p / t)
                    rec.label("above the root")
                    if not isinstance(q, Exception):
                        check(str(q).startswith(m.root + "/") or str(q) == m.root,
                              f"{p!r} / {t!r} escapes to {q!r}")
                        eq(EPath(str(q)).fs == q.fs and q.fs == p.fs, True, f"file system of {q!r}")
                    continue
                q = p / (EPath(t) if o[3] else t)
                rec.nt()
                rec.label("dots", "." in cs or ".." in cs)
            elif o[0] == "joinabs":
                if o[1][0] == "rel" or m.root is None:
                    continue
                try:
                    new = M.of(o[1])
                except Above:
                    continue
                q = p / text_of(o[1])
            elif o[0] == "parent":
                if not m.comps or m.comps[-1] == ".." or (m.root == "" and ".." in m.comps):
                    if m.root is None or ".." in m.comps:
                        continue
                new = m.parent()
                q = p.parent
                rec.nt()
            else:
                if not m.comps or m.comps[-1] in ("..", "...", "n.") or m.comps[-1].startswith("."):
                    continue
                name = m.comps[-1]
                new = M(m.root, m.comps[:-1] + [name[:name.rindex(".")] + o[1] if "." in name else name + o[1]])
                q = p.with_suffix(o[1])
                rec.nt()
            verify(p, m, f"{what} changed its operand")
            verify(q, new, what)
            if new.root == m.root and new.root is not None and o[0] == "join" and not ({"..", "."} & set(o[1])):
                if resolve_or_none(m.comps) == m.comps:
                    rel = q.relative_to(p)
                    eq(p / rel, q, f"{what}: relative_to {rel!r}")
            p, m = q, new
        relative(case, p, m, rec)
        # comparison with another path
        try:
            om = M.of(case["other"])
        except Above:
            return
        other = EPath(text_of(case["other"]))
        same = (om.root, om.comps) == (m.root, m.comps)
        eq(p == other, same, f"{p!r} == {other!r}")
        eq(p != other, not same, f"{p!r} != {other!r}")
        check(not same or hash(p) == hash(other), "equal paths with different hashes")
        if om.root == m.root:
            eq((p < other) + (other < p) + same, 1, f"{p!r} < {other!r}, >, or ==")
        for x in (None, "a", 1):
            check((p == x) is False and (p != x) is True, f"{p!r} compared to {x!r}")
        rec.label("remote", m.root and m.root.startswith("rclone"))


def relative(case, p, m, rec):
    if m.root is None or resolve_or_none(m.comps) != m.comps or "near" not in case:
        return
    keep, how, more = case["near"]
    cs = m.comps[:keep]
    if how and cs:
        cs[-1] = cs[-1][:-1] if how == "cut" else cs[-1] + how
    cs = [c for c in cs + (more if how else []) if c not in ("", ".", "..")]
    o = EPath(M(m.root, cs).text())
    if m.comps[: len(cs)] == cs:
        rel = p.relative_to(o)
        eq(o / rel, p, f"{p!r} relative to {o!r} is {rel!r}")
        eq([c for c in rel.split("/") if c not in ("", ".")], m.comps[len(cs):], f"{p!r} relative to {o!r}")
        rec.label("below")
    else:
        try:
            rel = p.relative_to(o)
        except (ValueError, AssertionError):
            rec.label("not below")
        else:
            raise Violation(f"{p!r} is not below {o!r}, but relative to it {rel!r}")
    try:
        om = M.of(case["other"])
    except Above:
        return
    if om.root != m.root:
        try:
            rel = p.relative_to(EPath(text_of(case["other"])))
        except (ValueError, AssertionError):
            rec.label("other file system")
        else:
            raise Violation(f"{p!r} is on another file system than {case['other']}, but relative to it {rel!r}")


def resolve_or_none(cs):
    try:
        return resolve(cs)
    except Above:
        return None


def verify(p, m, what):
    eq(str(p), m.text(), what)
    eq(p.is_absolute(), m.root is not None, f"{what}: is_absolute")
    if m.root is not None:
        eq(p.url, m.text(), f"{what}: url")
        eq(p.absolute(), p, f"{what}: absolute")
    else:
        eq(p.relpath, m.text(), f"{what}: relpath")
        eq(str(p.absolute()), str(Path(os.getcwd(), *m.comps)), f"{what}: absolute")
    if m.comps:
        eq(p.name, m.comps[-1], f"{what}: name")
    for q in (EPath(str(p)), EPath(p), pickle.loads(pickle.dumps(p)), copy.copy(p), copy.deepcopy(p)):
        eq(q == p and hash(q) == hash(p) and str(q) == str(p), True, f"{what}: copied as {q!r}")
        eq(q.is_absolute(), p.is_absolute(), f"{what}: copied as {q!r}")
        eq(q.fs == p.fs, True, f"{what}: file system of {q!r}")
    check(p in {p} and len({p, EPath(str(p))}) == 1, f"{what}: set membership")


# ---------------------------------------------------------------- on a real (scratch) file system


NAMES = ["a.tar", "b.tar", "a.tar.idx", "c", "d.txt", "x y.tar"]


@st.composite
def fs_cases(draw):
    files = draw(st.lists(st.tuples(st.sampled_from(["", "p", "p/q", "r.d"]), st.sampled_from(NAMES)),
                          min_size=1, max_size=8, unique=True))
    return {"files": [list(f) for f in files],
            "glob": draw(st.sampled_from(["*", "*.tar", "a*", "p/*", "*/*.tar", "**/*.tar", "?.tar", "[ab].tar", "./*.tar",
                                          "p/../*.tar", "nothing*"])),
            "dots": draw(st.lists(st.sampled_from([".", "p/..", "r.d/..", ""]), max_size=3)),
            "move": draw(st.booleans())}


def fs_body(case, rec):
    with wds.scratch() as d:
        root = EPath(str(d))
        for sub in ("p/q", "r.d"):
            (root / sub).mkdir(parents=True)
        for sub, name in case["files"]:
            data = wds.blob(sub, name, size=100)
            path = root
            for x in case["dots"] + [sub]:
                path = path / x
            path = path / name
            with path.open("wb") as f:
                f.write(data)
            eq((d / sub / name).read_bytes(), data, f"file written to {path!r}")
            eq((path.is_file(), path.is_dir(), path.size()), (True, False, 100), f"{path!r}")
            eq((path.parent.is_dir(), path.parent.is_file()), (True, False), f"parent of {path!r}")
            eq(EPath(d / sub / name), path, "path from pathlib")
        want = sorted(str(x) for x in d.glob(posixpath.normpath(case["glob"])))
        got = sorted(map(str, root.glob(case["glob"])))
        eq(got, want, f"glob {case['glob']}")
        rec.nt(want)
        if case["move"]:
            sub, name = case["files"][0]
            src = root / sub / name
            dst = src.with_suffix(".moved")
            src.move(dst)
            eq((src.is_file(), dst.is_file()), (False, True), "moved")
            eq((d / sub / (Path(name).stem + ".moved")).read_bytes(), wds.blob(sub, name, size=100), "moved file")
            dst.unlink()
            eq(dst.is_file(), False, "removed")
            left = sorted(str(x) for x in d.rglob("*") if x.is_file())
            eq(left, sorted(str(d / a / b) for a, b in case["files"][1:]), "remaining files")


CHECK = Check("P23", subs=[
    Sub("algebra", cases, body, quick=1500, shards=6, thorough=15000,
        rule="at least one join, parent or suffix operation was compared"),
    Sub("files", fs_cases, fs_body, quick=150, shards=2, thorough=1500, rule="the glob matches something"),
])
