"""P24: typed configuration conversion round-trips and rejects wrong input."""
import copy
import dataclasses
import inspect
import json
import typing
from typing import Any, Callable, Dict, List, Literal, NamedTuple, Optional, Set, Tuple, Type, Union

from hypothesis import strategies as st

from megatron.energon.dataset_config import load_config
from megatron.energon.epathlib import EPath
from megatron.energon.typed_converter import raw_to_instance, raw_to_typed, safe_call_function, to_json_object

from vp.harness import Check, Sub, Violation, check, eq

PRIMS = {"int": int, "str": str, "float": float, "bool": bool}
LITS = ["a", "b", 3]
NAMES = ["x", "y", "a_b", "items", "zeta"]


# ------------------------------------------------------------------------------ types
#
# A type is ["int"], ["list", t], ["tuple", [t, ...]], ["vtuple", t], ["dict", t], ["opt", t],
# ["union", [t, ...]], ["lit", [v, ...]], ["any"], ["none"], ["set", prim], ["epath"], ["rawlist"], ["rawdict"],
# ["dc" or "nt", n, [[name, t, default raw or None], ...]] with default as ["d", raw]


def union(ts):
    """Typing does not keep nested unions, duplicates and the order (equal types are cached)."""
    flat = [x for t in ts for x in members(t) if x != ["none"]]
    flat = [json.loads(x) for x in sorted({json.dumps(x) for x in flat})]
    t = ["union", flat] if len(flat) > 1 else flat[0]
    return ["opt", t] if any(t[0] == "opt" for t in ts) else t


def types(depth):
    prim = st.sampled_from([["int"], ["str"], ["float"], ["bool"], ["any"], ["epath"], ["rawlist"], ["rawdict"],
                            ["lit", ["a", "b"]], ["lit", ["a", 3]]])
    if depth == 0:
        return prim
    sub = types(depth - 1)

    @st.composite
    def cls(draw):
        names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
        fields, defaults = [], False
        for n in names:
            t = draw(sub)
            defaults = defaults or draw(st.integers(0, 3)) == 0
            fields.append([n, t, ["d", draw(raws(t))] if defaults else None])
        return [draw(st.sampled_from(["dc", "nt"])), draw(st.integers(0, 99)), fields]

    return st.one_of(
        prim, st.builds(lambda t: ["list", t], sub), st.builds(lambda t: ["vtuple", t], sub),
        st.builds(lambda t: ["tuple", t], st.lists(sub, min_size=1, max_size=3)),
        st.builds(lambda t: ["dict", t], sub), st.builds(lambda t: t if t[0] == "opt" else ["opt", t], sub),
        st.builds(union, st.lists(sub, min_size=2, max_size=3)),
        st.builds(lambda t: ["set", t], st.sampled_from([["int"], ["str"]])),
        cls(), cls(), cls())


STRS = st.sampled_from(["", "a", "b", "text", "3", "None", "a.b", "/p/q"])


@st.composite
def raws(draw, t):
    """A valid raw value of the type."""
    k = t[0]
    if k == "int":
        return draw(st.integers(-5, 5))
    if k == "str":
        return draw(STRS)
    if k == "float":
        return draw(st.sampled_from([0.5, -1.25, 2, 1e10]))
    if k == "bool":
        return draw(st.booleans())
    if k == "any":
        return draw(st.sampled_from([None, 1, "s", [1, "x"], {"k": [1]}, 2.5]))
    if k == "epath":
        return draw(st.sampled_from(["/p/q", "/", "rel/x.tar"]))
    if k == "rawlist":
        return draw(st.sampled_from([[], [1, "a"], [[2]]]))
    if k == "rawdict":
        return draw(st.sampled_from([{}, {"a": 1}, {"b": {"c": []}}]))
    if k == "lit":
        return draw(st.sampled_from(t[1]))
    if k == "list" or k == "vtuple":
        return draw(st.lists(raws(t[1]), max_size=3))
    if k == "set":
        return draw(st.lists(raws(t[1]), max_size=3, unique=True))
    if k == "tuple":
        return [draw(raws(x)) for x in t[1]]
    if k == "dict":
        return draw(st.dictionaries(st.sampled_from(["k", "x-y", "x_y", "a.b", ""]), raws(t[1]), max_size=3))
    if k == "opt":
        return draw(st.one_of(st.none(), raws(t[1])))
    if k == "union":
        return draw(st.one_of(*[raws(x) for x in t[1]]))
    if k in ("dc", "nt"):
        return {n: draw(raws(ft)) for n, ft, d in t[2] if d is None or draw(st.booleans())}
    raise AssertionError(k)


_cache: Dict[str, Any] = {}


def build(t):
    key = json.dumps(t)
    if key in _cache:
        return _cache[key]
    k = t[0]
    if k in PRIMS:
        r = PRIMS[k]
    elif k == "any":
        r = Any
    elif k == "epath":
        r = EPath
    elif k == "rawlist":
        r = list
    elif k == "rawdict":
        r = dict
    elif k == "lit":
        r = Literal[tuple(t[1])]
    elif k == "list":
        r = List[build(t[1])]
    elif k == "vtuple":
        r = Tuple[build(t[1]), ...]
    elif k == "set":
        r = Set[build(t[1])]
    elif k == "tuple":
        r = Tuple[tuple(build(x) for x in t[1])]
    elif k == "dict":
        r = Dict[str, build(t[1])]
    elif k == "opt":
        r = Optional[build(t[1])]
    elif k == "union":
        r = Union[tuple(build(x) for x in t[1])]
    elif k == "dc":
        fields = []
        for n, ft, d in t[2]:
            if d is None:
                fields.append((n, build(ft)))
            else:
                fields.append((n, build(ft), dataclasses.field(
                    default_factory=lambda ft=ft, d=d: convert(copy.deepcopy(d[1]), ft, False))))
        r = dataclasses.make_dataclass(f"Dc{t[1]}", fields)
    else:
        r = typing.NamedTuple(f"Nt{t[1]}", [(n, build(ft)) for n, ft, _ in t[2]])
        defaults = {n: convert(copy.deepcopy(d[1]), ft, False) for n, ft, d in t[2] if d is not None}
        r._field_defaults = defaults
        r.__new__.__defaults__ = tuple(defaults.values())
    _cache[key] = r
    return r


class Reject(Exception):
    pass


def members(t):
    """(spec, type) of the alternatives, in order."""
    if t[0] == "opt":
        return members(t[1]) + [["none"]]
    if t[0] == "union":
        return t[1]
    return [t]


def convert(raw, t, strict, path=()):
    """Reference conversion."""
    k = t[0]
    if k in PRIMS:
        ok = type(raw) is PRIMS[k] or (k == "float" and type(raw) is int) or (k in ("int", "float") and type(raw) is bool)
    elif k == "none":
        ok = raw is None
    elif k == "any":
        ok = True
    elif k == "lit":
        ok = any(type(raw) is type(v) and raw == v for v in t[1])
    elif k == "epath":
        if type(raw) is str:
            return EPath(raw)
        ok = False
    elif k == "rawlist":
        ok = type(raw) is list
    elif k == "rawdict":
        ok = type(raw) is dict
    elif k in ("list", "vtuple", "set", "tuple"):
        if type(raw) is not list or (k == "tuple" and len(raw) != len(t[1])):
            raise Reject(path)
        vals = [convert(v, t[1][i] if k == "tuple" else t[1], strict, path + (i,)) for i, v in enumerate(raw)]
        if k == "set" and len(set(vals)) != len(vals):
            raise Reject(path)
        return vals if k == "list" else set(vals) if k == "set" else tuple(vals)
    elif k == "dict":
        if type(raw) is not dict:
            raise Reject(path)
        return {n: convert(v, t[1], strict, path + (n,)) for n, v in raw.items()}
    elif k in ("opt", "union"):
        for m in members(t):
            try:
                return convert(raw, m, strict, path)
            except Reject as e:
                err = e
        raise Reject(path)
    else:
        if type(raw) is not dict:
            raise Reject(path)
        kw = {}
        for n, ft, d in t[2]:
            if n in raw:
                kw[n] = convert(raw[n], ft, strict, path + (n,))
            elif d is None:
                raise Reject(path + (n,))
        if strict and set(raw) - {n for n, _, _ in t[2]}:
            raise Reject(path + (sorted(set(raw) - {n for n, _, _ in t[2]})[0],))
        return build(t)(**kw)
    if not ok:
        raise Reject(path)
    return raw


def same(a, b):
    """Equal and of the same types, recursively."""
    if type(a) is not type(b):
        return False
    if dataclasses.is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def full(raw, t, strict):
    """The plain data including the defaults, in the order of the fields."""
    k = t[0]
    if k in ("list", "vtuple", "tuple"):
        return [full(v, t[1][i] if k == "tuple" else t[1], strict) for i, v in enumerate(raw)]
    if k == "epath":
        return str(EPath(raw))
    if k == "dict":
        return {n: full(v, t[1], strict) for n, v in raw.items()}
    if k in ("opt", "union"):
        for m in members(t):
            try:
                convert(raw, m, strict)
            except Reject:
                continue
            return full(raw, m, strict)
    if k in ("dc", "nt"):
        return {n: full(raw[n], ft, strict) if n in raw else full(d[1], ft, False) for n, ft, d in t[2]}
    return raw


def has(t, kind):
    return t[0] == kind or any(has(x, kind) for x in t[1:] if isinstance(x, list) and x and isinstance(x[0], str)) \
        or any(has(x, kind) for x in (t[1] if t[0] in ("tuple", "union") else ())) \
        or any(has(f[1], kind) for f in (t[2] if t[0] in ("dc", "nt") else ()))


JUNK = st.sampled_from([None, "junk", 7, 2.5, [], {}, {"zz": 1}, [1], ["s"], [None], {"x": 1}, {"x": "s"}])


def paths(raw, p=()):
    res = [p]
    if isinstance(raw, dict):
        for k in raw:
            res += paths(raw[k], p + (k,))
    elif isinstance(raw, list):
        for i, v in enumerate(raw):
            res += paths(v, p + (i,))
    return res


def corrupt(draw, raw):
    p = draw(st.sampled_from(paths(raw)))
    kind = draw(st.sampled_from(["replace", "remove", "add"]))
    if not p and kind != "add":
        return draw(JUNK) if kind == "replace" else raw
    raw = copy.deepcopy(raw)
    node = raw
    if kind == "add":
        for x in p:
            node = node[x]
        if isinstance(node, dict):
            node[draw(st.sampled_from(["extra", "x", "a-b"]))] = draw(JUNK)
        elif isinstance(node, list):
            node.append(draw(JUNK))
        return raw
    for x in p[:-1]:
        node = node[x]
    if kind == "replace":
        node[p[-1]] = draw(JUNK)
    else:
        del node[p[-1]]
    return raw


@st.composite
def cases(draw):
    t = draw(types(draw(st.integers(1, 3))))
    raw = draw(raws(t))
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        raw = corrupt(draw, raw)
    return {"type": t, "raw": raw, "strict": draw(st.booleans())}


def body(case, rec):
    t, raw, strict = case["type"], case["raw"], case["strict"]
    tp = build(t)
    try:
        want, bad = convert(copy.deepcopy(raw), t, strict), None
    except Reject as e:
        want, bad = None, e.args[0]
    given = copy.deepcopy(raw)
    try:
        got = raw_to_typed(given, tp, strict=strict)
    except ValueError as e:
        check(bad is not None, f"{raw!r} as {t} (strict={strict}) was rejected: {e!r}")
        if bad:
            check(str(bad[0]) in str(e), f"the error {e!s} does not name the position {bad}")
        rec.nt()
        rec.label("rejected")
        return
    eq(given, raw, "input after the conversion")
    check(bad is None, f"{raw!r} as {t} (strict={strict}) was accepted as {got!r}, wrong at {bad}")
    check(same(got, want), f"{raw!r} as {t}: got {got!r}, expected {want!r}")
    rec.nt(isinstance(raw, (dict, list)) and raw)
    back = to_json_object(got)
    if not has(t, "set"):
        check(same(back, full(raw, t, strict)), f"{got!r} converted back: {back!r}, expected {full(raw, t, strict)!r}")
    json.dumps(back)
    again = raw_to_typed(back, tp, strict=strict)
    # the alternatives of a union may be ambiguous
    check(has(t, "union") or same(again, got), f"{got!r} converted back and forth: {again!r}")
    rec.label("converted")
    rec.label("defaults", any(f[2] is not None and f[0] not in raw for f in t[2]) if t[0] in ("dc", "nt") else False)


# ------------------------------------------------------------------------------ calls


class Base:
    pass


class Derived(Base):
    pass


class Other:
    pass


class Point(NamedTuple):
    x: int
    y: float = 1.5


def helper(s: str) -> str:
    return "helped " + s


class Widget(Base):
    """Has every kind of parameter."""

    def __init__(self, a: int, b: List[str], c: Optional[float] = None, *, nested: Any = None, inner: "Widget" = None,
                 tp: Type[Base] = Base, fn: Callable = helper, point: Point = Point(1), pair: Tuple[int, int] = (1, 2),
                 untyped="u"):
        self.args = dict(a=a, b=b, c=c, nested=nested, inner=inner, tp=tp, fn=fn, point=point, pair=pair,
                         untyped=untyped)

    def __eq__(self, other):
        return type(other) is type(self) and same(self.args, other.args)


class Loose(Base):
    def __init__(self, a: str, *args: int, **kw: int):
        self.args = dict(a=a, args=args, kw=kw)

    def __eq__(self, other):
        return type(other) is type(self) and same(self.args, other.args)


def make(a: int, b: str = "B") -> tuple:
    return ("made", a, b)


ME = __name__


@st.composite
def widget(draw, depth):
    """(raw arguments, valid)"""
    kw, ok = {}, True

    def put(name, good, wrong, required=False):
        nonlocal ok
        c = draw(st.integers(0, 11))
        if c < (1 if required else 5):
            if required:
                ok = False
            return
        if c == 11:
            kw[name] = draw(st.sampled_from(wrong))
            ok = False
        else:
            kw[name] = draw(good)

    put("a", st.integers(0, 9), ["x", None, [1]], True)
    put("b", st.lists(STRS, max_size=2), ["x", [1], {}], True)
    put("c", st.sampled_from([None, 1, 2.5]), ["x", []])
    put("untyped", st.sampled_from([1, "x", None, [2]]), ["never"] if False else [1]) if draw(st.booleans()) else None
    ok = ok if "untyped" not in kw else ok
    put("tp", st.sampled_from([{"__module__": ME, "__class__": "Derived"}, {"__module__": ME, "__class__": "Base"}]),
        [{"__module__": ME, "__class__": "Other"}])
    put("fn", st.just({"__module__": ME, "__function__": "helper"}), [{"__module__": ME, "__function__": "ME"}])
    put("point", st.sampled_from([{"x": 3}, {"x": 3, "y": 2.5}]), [{"y": 1.0}, 5, {"x": "s"}, {"x": 1, "q": 2}])
    put("pair", st.sampled_from([[3, 4]]), [[3], [3, "x"], [1, 2, 3], 7])
    if depth:
        if draw(st.booleans()):
            inner, iok = draw(widget(depth - 1))
            kw["nested"] = {"__module__": ME, "__class__": "Widget", **inner}
            ok = ok and iok
        elif draw(st.booleans()):
            kw["nested"] = draw(st.sampled_from([{"__module__": ME, "__function__": "make", "a": 4}, {"plain": 1}, [1]]))
    if draw(st.integers(0, 11)) == 0:
        kw["unknown"] = 1
        ok = False
    return [kw, ok]


@st.composite
def call_cases(draw):
    kw, ok = draw(widget(2))
    return {"kw": kw, "how": draw(st.sampled_from(["instance", "default", "call", "list", "config"])),
            "list": draw(st.lists(st.integers(0, 9), max_size=4)), "extra": draw(st.dictionaries(
                st.sampled_from(["p", "q"]), st.integers(0, 9), max_size=2))}


WIDGET = ["nt", 0, [["x", ["int"], None], ["y", ["float"], ["d", 1.5]]]]


def expect(kw):
    """What Widget(**kw) gets, raises Reject."""
    spec = {"a": ["int"], "b": ["list", ["str"]], "c": ["opt", ["float"]], "pair": ["tuple", [["int"], ["int"]]]}
    res = dict(c=None, nested=None, inner=None, tp=Base, fn=helper, point=Point(1), pair=(1, 2), untyped="u")
    if set(kw) - set(res) - {"a", "b"} or not {"a", "b"} <= set(kw):
        raise Reject()
    for k, v in kw.items():
        if k in spec:
            res[k] = convert(v, spec[k], True)
        elif k == "tp":
            res[k] = {"Derived": Derived, "Base": Base, "Other": None}[v["__class__"]]
            if res[k] is None:
                raise Reject()
        elif k == "fn":
            if v["__function__"] != "helper":
                raise Reject()
        elif k == "point":
            p = convert(v, WIDGET, True)
            res[k] = Point(*p)
        elif k == "nested" and isinstance(v, dict) and "__class__" in v:
            res[k] = expect({n: x for n, x in v.items() if not n.startswith("__")})
        elif k == "nested" and isinstance(v, dict) and "__function__" in v:
            res[k] = ("made", v["a"], "B")
        else:
            res[k] = v
    w = Widget(1, [])
    w.args = {n: res[n] for n in w.args}
    return w


def call_body(case, rec):
    kw, how = case["kw"], case["how"]
    try:
        want = expect(kw)
    except Reject:
        want = None
    given = copy.deepcopy(kw)
    if how == "list":
        # positional arguments
        args = case["list"]
        try:
            got = safe_call_function([str(args[0])] + args[1:] if args else [], Loose, strict=True)
        except ValueError:
            check(not args, f"call with {args} was rejected")
            return
        check(args, "call without the required argument")
        eq(got.args, {"a": str(args[0]), "args": tuple(args[1:]), "kw": {}}, "positional arguments")
        two = safe_call_function([7, "z"], make, strict=True)
        eq(two, ("made", 7, "z"), "positional arguments")
        got = raw_to_instance({"__module__": ME, "__class__": "Loose", "a": "s", **case["extra"]}, Loose)
        eq(got.args, {"a": "s", "args": (), "kw": case["extra"]}, "keyword arguments")
        rec.nt(len(args) > 1)
        return
    try:
        if how == "instance":
            got = raw_to_instance({"__module__": ME, "__class__": "Widget", **given}, Widget)
        elif how == "default":
            got = raw_to_instance(given, Widget)
        elif how == "call":
            got = safe_call_function(given, Widget, strict=True, allow_imports=True)
        else:
            # values in the file override the default arguments
            dflt = {"a": 5, "b": ["dflt"]}
            got = load_config({"__module__": ME, "__class__": "Widget", **given}, default_type=Widget, default_kwargs=dflt)
            try:
                want = expect({**dflt, **kw})
            except Reject:
                want = None
    except (ValueError, AssertionError) as e:
        check(want is None, f"{kw} was rejected: {e!r}")
        rec.label("rejected")
        rec.nt()
        return
    eq(given, kw, "input after the conversion")
    check(want is not None, f"{kw} was accepted as {got.args}")
    check(got == want, f"{kw}: got {got.args}, expected {want.args}")
    rec.nt(len(kw) > 2)
    rec.label("nested", "nested" in kw)


@st.composite
def signatures(draw):
    """A function with any kinds of parameters, and arguments as a list or a dictionary."""
    tp = st.sampled_from([["int"], ["str"], ["float"], ["list", ["int"]], ["opt", ["str"]], ["any"], None])
    pos, defaults = [], False
    n_po, n_pk = draw(st.sampled_from([0, 0, 1, 2])), draw(st.integers(0, 3))
    for i in range(n_po + n_pk):
        t = draw(tp)
        defaults = defaults or draw(st.integers(0, 3)) == 0
        pos.append(["po" if i < n_po else "pk", NAMES[i], t, ["d", draw(raws(t or ["any"]))] if defaults else None])
    va = [draw(tp)] if draw(st.integers(0, 2)) == 0 else None
    ko = []
    for i in range(draw(st.sampled_from([0, 0, 1, 2]))):
        t = draw(tp)
        ko.append(["ko", "k%d" % i, t, ["d", draw(raws(t or ["any"]))] if draw(st.booleans()) else None])
    vk = [draw(tp)] if draw(st.integers(0, 2)) == 0 else None
    params = pos + ko
    if draw(st.booleans()):
        args = []
        for _, _, t, d in pos:
            if d is not None and draw(st.integers(0, 3)) == 0:
                break
            args.append(draw(raws(t or ["any"])))
        if va is not None or draw(st.integers(0, 5)) == 0:
            args += draw(st.lists(raws((va or [None])[0] or ["any"]), max_size=3))
        if args and draw(st.integers(0, 5)) == 0:
            args.pop()
    else:
        args = {n: draw(raws(t or ["any"])) for k, n, t, d in params
                if k != "po" and (d is None or draw(st.booleans()))}
        if vk is not None or draw(st.integers(0, 5)) == 0:
            for n in draw(st.lists(st.sampled_from(["x1", "x2"]), max_size=2, unique=True)):
                args[n] = draw(raws((vk or [None])[0] or ["any"]))
        if args and draw(st.integers(0, 5)) == 0:
            args.pop(draw(st.sampled_from(sorted(args))))
    if args and draw(st.integers(0, 4)) == 0:
        args = corrupt(draw, args)
    return {"params": params, "va": va, "vk": vk, "args": args, "cls": draw(st.booleans()), "strict": draw(st.booleans())}


def signatures_body(case, rec):
    """Calls as python itself binds the arguments."""
    params, va, vk, args, strict = (case[k] for k in ("params", "va", "vk", "args", "strict"))
    env, code, seen_po, star = {}, [], False, False

    def par(name, t, d=None):
        text = name
        if t is not None:
            env["T" + name] = build(t)
            text += ": T" + name
        if d is not None:
            env["D" + name] = convert(d[1], t or ["any"], True)
            text += " = D" + name
        return text

    for i, (k, n, t, d) in enumerate(params):
        if k == "ko" and not star:
            code.append("*" + par("va", va[0]) if va is not None else "*")
            star = True
        code.append(par(n, t, d))
        if k == "po" and (i + 1 == len(params) or params[i + 1][0] != "po"):
            code.append("/")
    if va is not None and not star:
        code.append("*" + par("va", va[0]))
    if vk is not None:
        code.append("**" + par("vk", vk[0]))
    names = [n for _, n, _, _ in params] + (["va"] if va is not None else []) + (["vk"] if vk is not None else [])
    body = "dict(%s)" % ", ".join(f"{n}={n}" for n in names)
    if case["cls"]:
        exec("class F:\n def __init__(%s):\n  self.args = %s" % (", ".join(["self"] + code), body), env)
    else:
        exec("def F(%s):\n return %s" % (", ".join(code), body), env)
    fn = env["F"]

    def expect():
        po = [p for p in params if p[0] != "ko"]
        if type(args) is list:
            if any(p[0] == "ko" for p in params):
                return "unsupported"
            given = args
            if len(given) > len(po) and va is None:
                if strict:
                    raise Reject()
                given = given[:len(po)]
            ts = [p[2] for p in po] + [va[0] if va else None] * len(given)
            pargs, kw = [convert(v, t or ["any"], strict) for v, t in zip(given, ts)], {}
        elif type(args) is dict:
            if any(p[0] == "po" for p in params):
                return "unsupported"
            ts = {p[1]: p[2] for p in params}
            if vk is None and set(args) - set(ts) and strict:
                raise Reject()
            pargs, kw = [], {n: convert(v, (ts[n] if n in ts else vk[0]) or ["any"], strict) for n, v in args.items()
                             if n in ts or vk is not None}
        else:
            raise Reject()
        try:
            inspect.signature(fn).bind(*pargs, **kw)
        except TypeError:
            raise Reject() from None
        got = fn(*pargs, **kw)
        return got.args if case["cls"] else got

    try:
        want = expect()
    except Reject:
        want = None
    given = copy.deepcopy(args)
    try:
        got = safe_call_function(given, fn, strict=strict)
    except ValueError as e:
        check(want is None or want == "unsupported", f"{args!r} for ({', '.join(code)}) was rejected: {e!r}")
        rec.label("rejected")
        rec.nt(len(params) > 1)
        return
    except RuntimeError as e:
        check(want == "unsupported" and "nsupported" in str(e), f"{args!r} for ({', '.join(code)}): {e!r}")
        return
    eq(given, args, "input after the call")
    got = got.args if case["cls"] else got
    if want == "unsupported":
        check(False, f"{args!r} for ({', '.join(code)}) was accepted as {got!r}")
    check(want is not None, f"{args!r} for ({', '.join(code)}) was accepted as {got!r}")
    check(same(got, want), f"{args!r} for ({', '.join(code)}): got {got!r}, expected {want!r}")
    rec.nt(len(params) > 1)
    rec.label("positional" if type(args) is list else "keywords")
    rec.label("more", va is not None and len(got["va"]) > 0 or vk is not None and len(got["vk"]) > 0)


CHECK = Check("P24", subs=[
    Sub("typed", cases, body, quick=900, shards=4, thorough=15000,
        rule="a non-empty container is converted, or a value is rejected"),
    Sub("calls", call_cases, call_body, quick=800, shards=2, thorough=8000,
        rule="at least three arguments are given, or the call is rejected"),
    Sub("signatures", signatures, signatures_body, quick=800, shards=2, thorough=12000,
        rule="a function with several parameters is called, or the call is rejected"),
])
