"""C11: computed fields always reflect the current contents."""

import copy
import io

from mc.items import on
from mc.items import U8
from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.model import ABSENT
from mc.model import Arr
from mc.model import Bad
from mc.model import FS
from mc.model import Int
from mc.model import Nest
from mc.model import NOPE
from mc.model import plain
from mc.model import Raw
from mc.model import Spec
from mc.model import Str
from mc.model import StrZ
from mc.model import VarInt

BOUNDS = {
    "quick": "16 declarations with computed fields (lengths, counts, checksums, chains, flags"
    " that presence depends on, in parents, in nested structures and arrays, nullable,"
    " discarded, with defaults, with annotations), starting constructed, constructed with an"
    " explicit value, or loaded; all sequences of 3 operations of up to 14 (assignments,"
    " in-place changes, deletions, reads, exports, measuring, dumping, refused assignments); 16 exceptions"
    " raised by compute functions in 8 places, seen by 13 operations",
    "thorough": "all sequences of 5 operations",
}
ASSUMPTIONS = [
    "a loaded value of a computed field is a value set at construction: it takes"
    " precedence until it is deleted (documented for the compute functions)",
    "compute functions rely only on computed fields before them, as documented",
]


class Decl:
    def __init__(self, make, starts, sets, computed, edits=()):
        self.make = make  # () -> Spec
        self.starts = starts  # assigned values to start with
        self.sets = sets  # [(field, value)]
        self.computed = computed  # names of computed fields
        self.edits = edits  # [(name, edit of the value in place, same on the model)]


def total(env, name):
    return sum(env[name]) % 256


def d_length():
    return Spec([FS("n", U8(), computed=lambda e: len(e["x"])), FS("x", Raw("n", values=[b""]))])


def d_count():
    return Spec(
        [
            FS("n", Int(2, False, "big"), computed=lambda e: len(e["x"])),
            FS("x", Arr(U8(), "n", values=[], by_field=True)),
            FS("t", U8(), computed=lambda e: total(e, "x")),
        ]
    )


def d_chain():
    return Spec(
        [
            FS("a", U8(), computed=lambda e: len(e["x"])),
            FS("b", U8(), computed=lambda e: e["a"] * 2),
            FS("c", U8(), computed=lambda e: e["a"] + e["b"]),
            FS("x", StrZ("utf-8")),
        ]
    )


def d_default():
    return Spec(
        [
            FS("n", VarInt("uleb"), computed=lambda e: len(e["x"].encode("utf-8"))),
            FS("x", Str("n", "utf-8", values=[]), default="d\u0416"),
        ]
    )


def d_default_wins():
    return Spec(
        [
            FS("n", U8(), default=7, computed=lambda e: len(e["x"])),
            FS("x", StrZ("utf-8")),
        ]
    )


def d_zero_default():
    return Spec(
        [
            FS("n", U8(), default=0, computed=lambda e: len(e["x"]) + 1),
            FS("x", StrZ("utf-8")),
        ]
    )


def d_null_default():
    return Spec(
        [
            FS("n", U8(), default=None, null=b"\xff", computed=lambda e: len(e["x"]) + 1),
            FS("x", StrZ("utf-8")),
        ]
    )


def d_flag():
    return Spec(
        [
            FS("f", U8(), computed=lambda e: int(e["x"] > 100)),
            FS("o", Int(2, False, "big"), present=on("f"), default=515),
            FS("x", U8()),
        ]
    )


def d_conditional():
    return Spec(
        [
            FS("f", U8()),
            FS("n", U8(), present=on("f"), computed=lambda e: len(e["x"])),
            FS("x", StrZ("utf-8")),
        ]
    )


def d_parent():
    parent = Spec([FS("n", U8(), computed=lambda e: len(e["x"])), FS("y", U8())], name="P")
    return Spec([FS("x", Raw("n", values=[b""]))], parent=parent)


def d_child():
    parent = Spec([FS("x", StrZ("utf-8"))], name="P")
    return Spec(
        [FS("y", U8()), FS("n", U8(), computed=lambda e: len(e["x"]) + e["y"])], parent=parent
    )


def d_null():
    return Spec(
        [
            FS("n", U8(), null=b"\xff", computed=lambda e: len(e["x"]) or None),
            FS("x", StrZ("utf-8")),
        ]
    )


def d_discard():
    return Spec(
        [
            FS("n", U8(), discard=True, computed=lambda e: len(e["x"])),
            FS("x", Raw("n", values=[b""])),
        ]
    )


def inner_spec():
    return Spec(
        [FS("m", U8(), computed=lambda e: len(e["d"])), FS("d", Raw("m", values=[b""]))],
        name="In",
    )


def d_nested():
    return Spec(
        [
            FS("n", U8(), computed=lambda e: len(e["x"]["d"]) + 1),
            FS("x", Nest(inner_spec(), [])),
        ]
    )


def d_nested_array():
    return Spec(
        [
            FS("n", U8(), computed=lambda e: len(e["x"])),
            FS("x", Arr(Nest(inner_spec(), []), "n", values=[])),
            FS("t", U8(), computed=lambda e: sum(len(i["d"]) for i in e["x"])),
        ]
    )


def d_annotated():
    return Spec(
        [
            FS("n", U8(), computed=lambda e: len(e["x"])),
            FS("x", Raw("n", values=[b""])),
            FS("k", U8(), computed=lambda e: e["n"] + 1),
        ],
        style="instance",
    )


def append(v):
    v.append(9)


def clear(v):
    v.clear()


def set_d(value):
    def edit(v):
        v["d"] = value

    edit.__name__ = f"d={value!r}"
    return edit


def first(edit):
    def edit_first(v):
        edit(v[0])

    edit_first.__name__ = "[0]." + edit.__name__
    return edit_first


RAWS = [("x", b"abc"), ("x", b""), ("x", bytes(range(200)))]
TEXTS = [("x", "\u00e9z"), ("x", ""), ("x", "abcde")]

DECLS = [
    Decl(d_length, [{}, {"x": b"q"}], RAWS, ["n"]),
    Decl(
        d_count,
        [{"x": [5]}],
        [("x", [1, 2]), ("x", [])],
        ["n", "t"],
        [("x", append), ("x", clear)],
    ),
    Decl(d_chain, [{}, {"x": "pq"}], TEXTS, ["a", "b", "c"]),
    Decl(d_default, [{}, {"x": "q"}], TEXTS, ["n"]),
    Decl(d_default_wins, [{}, {"x": "q"}], TEXTS, ["n"]),
    Decl(d_zero_default, [{}, {"x": "q"}], TEXTS, ["n"]),
    Decl(d_null_default, [{}, {"x": "q"}], TEXTS, ["n"]),
    Decl(d_flag, [{"x": 5}, {"x": 101, "o": 3}], [("x", 200), ("x", 0), ("o", 9)], ["f"]),
    Decl(
        d_conditional,
        [{"f": 1, "x": "ab"}, {"f": 0, "x": "ab"}],
        [("f", 0), ("f", 1), ("x", "abc"), ("x", "")],
        ["n"],
    ),
    Decl(d_parent, [{"y": 1}, {"x": b"q", "y": 1}], RAWS + [("y", 2)], ["n"]),
    Decl(d_child, [{"y": 1}, {"x": "q", "y": 1}], TEXTS + [("y", 2)], ["n"]),
    Decl(d_null, [{"x": ""}, {"x": "q"}], TEXTS, ["n"]),
    Decl(d_discard, [{}, {"x": b"q"}], RAWS, ["n"]),
    Decl(
        d_nested,
        [{"x": {"d": b"q"}}],
        [("x", {"d": b""}), ("x", {"d": b"abc"})],
        ["n"],
        [("x", set_d(b"zz")), ("x", set_d(b""))],
    ),
    Decl(
        d_nested_array,
        [{"x": [{"d": b"q"}, {"d": b""}]}],
        [("x", [{"d": b"abc"}]), ("x", [])],
        ["n", "t"],
        [("x", clear), ("x", first(set_d(b"zz")))],
    ),
    Decl(d_annotated, [{}, {"x": b"q"}], RAWS, ["n", "k"]),
]


def expected_bytes(spec, assigned):
    try:
        return spec.dump(assigned)
    except (Bad, KeyError):
        return None


def observe(inst, spec, assigned, which, rec):
    """One observing operation, judged against the model."""
    rec.step()
    if which == "bytes":
        expected = expected_bytes(spec, assigned)
        how, got = attempt(inst.to_bytes)
        if expected is None:
            if how == "ok":
                fail(f"dumps {short(got)} though a value is missing or impossible")
        elif how != "ok" or got != expected:
            fail(f"dumps {got!r}, expected {short(expected)}")
    elif which == "len":
        expected = expected_bytes(spec, assigned)
        if expected is None:
            attempt(len, inst)
            return
        if len(inst) != len(expected):
            fail(f"len() is {len(inst)}, expected {len(expected)}")
    elif which == "dict":
        how, got = attempt(inst.to_dict, True)
        try:
            resolved, _env = spec.resolve(assigned)
        except (Bad, KeyError):
            if how == "ok":
                fail(f"to_dict() gives {got!r} though a value is missing")
            return
        if how != "ok":
            fail(f"to_dict() raises {got!r}")
        got = plain(got)
        for f, v in resolved:
            same(got.get(f.name, NOPE), full(f.kind, v), f"to_dict()[{f.name!r}]")
    elif which == "partial":
        expected = expected_bytes(spec, assigned)
        out = io.BytesIO()
        how, got = attempt(inst.partial_dump, out)
        if expected is not None and (how != "ok" or out.getvalue() != expected):
            fail(f"partial_dump() {how} {got!r} {short(out.getvalue())}")
    else:
        available, _env = spec.available(assigned)
        expected = next(v for f, v in available if f.name == which)
        if which in assigned:
            expected = assigned[which]
        for reading in (lambda: getattr(inst, which), lambda: inst[which]):
            how, got = attempt(reading)
            if expected is NOPE:
                if how == "ok":
                    fail(f"{which} is {got!r} though what it's computed from is missing")
            elif how != "ok":
                fail(f"reading {which} raises {got!r}")
            else:
                same(full_got(got), expected, f"{which} as an attribute")


def full(kind, v):
    """What to_dict() shows for a value: nested structures complete."""
    if isinstance(kind, Nest) and isinstance(v, dict):
        _r, env = kind.spec.resolve(v)
        return env
    if isinstance(kind, Arr):
        return [full(kind.elem, i) for i in v]
    return v


def full_got(v):
    return plain(v)


def body_of(decl, depth):
    def body(ch, rec):
        spec = decl.make()
        start = copy.deepcopy(ch.choose(decl.starts))
        origin = ch.choose(("made", "explicit", "loaded"))
        cls = spec.build()
        assigned = start
        if origin == "explicit":
            assigned[decl.computed[0]] = 3
        if origin == "loaded":
            raw = expected_bytes(spec, assigned)
            if raw is None:
                return
            inst = cls.from_bytes(raw)
            assigned = spec.loaded(assigned)
        else:
            inst = cls(**spec.real_values(copy.deepcopy(assigned), 1))
        log = []
        rec.case = lambda: f"declaration: {spec!r}\nstart: {origin} {start!r}\nops: {log}"
        ops = [("see", w) for w in ("bytes", "len", "dict")]
        ops += [("see", n) for n in decl.computed[:2]]
        ops += [("set", n, v) for n, v in decl.sets]
        ops += [("edit", n, e) for n, e in decl.edits]
        ops += [("del", n) for n in dict.fromkeys([decl.computed[0], "x"])]
        ops += [("refused", n) for n in decl.computed[-1:]]
        for _ in range(depth):
            op = ch.choose(ops)
            log.append(tuple(getattr(o, "__name__", o) for o in op))
            if op[0] == "see":
                observe(inst, spec, assigned, op[1], rec)
            elif op[0] == "set":
                value = copy.deepcopy(op[2])
                real = spec.real_values({op[1]: copy.deepcopy(value)}, 1)[op[1]]
                inst[op[1]] = real
                assigned[op[1]] = value
            elif op[0] == "edit":
                if op[1] not in assigned or not edit_both(inst, assigned, op):
                    return
            elif op[0] == "del":
                del inst[op[1]]
                assigned.pop(op[1], None)
            else:
                refused(inst, op[1])
            rec.step()
        for which in ("bytes", "len", "dict", "partial", *decl.computed):
            observe(inst, spec, assigned, which, rec)
        same(
            {n: plain(inst[n]) for n in inst},
            {n: v for n, v in assigned.items()},
            "the assigned values",
        )
        rec.traced()
        rec.state(decl.make.__name__, repr(sorted(assigned.items(), key=str)), tuple(map(str, log)))
        rec.sample(f"{spec!r} {log}")

    return body


def edit_both(inst, assigned, op):
    how, got = attempt(op[2], inst[op[1]])
    how2, _ = attempt(op[2], assigned[op[1]])
    if how2 == "err":
        return False  # nothing to edit, like the first element of an empty list
    if how == "err":
        fail(f"editing {op[1]} in place raises {got!r}")
    return True


def refused(inst, name):
    from binobj import errors

    before = {n: plain(inst[n]) for n in inst}
    for way in (setattr, type(inst).__setitem__):
        how, got = attempt(way, inst, name, 5)
        if how == "ok" or not isinstance(got, errors.ImmutableFieldError):
            fail(f"assigning {name} with {way.__name__}: {how} {got!r}")
    same({n: plain(inst[n]) for n in inst}, before, "after a refused assignment")


class Custom(Exception):
    pass


def exceptions():
    """The library's own exceptions can mean that there's no value."""
    return [
        KeyError("a"),
        KeyError("n"),
        LookupError("l"),
        IndexError("i"),
        AttributeError("n"),
        AttributeError("a"),
        TypeError("t"),
        ValueError("v"),
        ZeroDivisionError("z"),
        OverflowError("o"),
        NotImplementedError("not"),
        RuntimeError("r"),
        OSError("os"),
        EOFError("eof"),
        Custom("c"),
        KeyboardInterrupt("k"),
    ]


def raising(ch, rec):
    """What a compute function raises is what the caller gets."""
    import binobj
    from binobj import fields as F

    exc = ch.choose(exceptions())
    where = ch.choose(("plain", "null", "inherited", "nested", "array", "size", "count", "present"))
    trigger = ch.choose((2, 0))
    rec.case = lambda: f"{exc!r} if a is {trigger}, {where}"
    armed = [False]

    def compute(_self, values):
        if values["a"] == trigger and armed[0]:
            raise exc
        return 1

    class S(binobj.Struct):
        a = F.UInt8()
        options = {"null": {"null_value": 0}}.get(where, {})
        if where == "present":
            options = {"present": lambda v, *_: v["a"] != 9}
        n = F.UInt8(**options)
        del options
        if where == "size":
            t = F.Bytes(size=n, default=b"t")
        elif where == "count":
            t = F.Array(F.UInt8(), count=n, default=[116])
        else:
            t = F.UInt8(default=116)
        n.computes(compute)

    class Child(S):
        u = F.UInt8(default=5)

    class Outer(binobj.Struct):
        o = F.UInt8(default=6)
        s = F.Nested(S)
        e = F.UInt8(default=7)

    class Rows(binobj.Struct):
        s = F.Array(F.Nested(S), count=2)

    cls = Child if where == "inherited" else S
    t = b"t"
    body = lambda a: bytes([a, 1]) + t + (b"\5" if cls is Child else b"")

    def make(a):
        inst = cls(a=a)
        if where == "nested":
            return Outer(s=inst)
        if where == "array":
            return Rows(s=[cls(a=7), inst])
        return inst

    def raw(a):
        if where == "nested":
            return b"\6" + body(a) + b"\7"
        if where == "array":
            return body(7) + body(a)
        return body(a)

    top = make(trigger)
    inner = {"nested": lambda: top.s, "array": lambda: top.s[1]}.get(where, lambda: top)()
    ops = {
        "to_bytes": top.to_bytes,
        "bytes": lambda: bytes(top),
        "to_stream": lambda: top.to_stream(io.BytesIO()),
        "len": lambda: len(top),
        "inner len": lambda: len(inner),
        "to_dict": top.to_dict,
        "to_dict, all": lambda: top.to_dict(keep_discardable=True),
        "inner to_dict": inner.to_dict,
        "partial_dump": lambda: top.partial_dump(io.BytesIO()),
        "partial_dump to it": lambda: inner.partial_dump(io.BytesIO(), "n"),
        "partial_dump after it": lambda: inner.partial_dump(io.BytesIO(), "t"),
        "attribute": lambda: inner.n,
        "key": lambda: inner["n"],
    }
    if where not in ("size", "count"):
        # The size of every field is known.
        del ops["len"], ops["inner len"]
    name = ch.choose(list(ops))
    twice = ch.flag()
    rec.case = lambda: f"{exc!r} if a is {trigger}, {where}, {name}, {twice}"
    armed[0] = True
    for _ in range(2 if twice else 1):
        try:
            got = ops[name]()
        except BaseException as e:
            if e is not exc:
                fail(f"raises {e!r}, not what the compute function raised")
        else:
            fail(f"{name} gives {got!r} though the compute function raises {exc!r}")
        rec.step()
    # It concerns nobody else, and only for as long as it's raised.
    if make(5).to_bytes() != raw(5):
        fail("another one can't be dumped")
    armed[0] = False
    if top.to_bytes() != raw(trigger) or inner.n != 1 or len(top) != len(raw(trigger)):
        fail(f"afterwards: {top.to_bytes()!r}")
    # An assigned value isn't computed.
    armed[0] = True
    back = type(top).from_bytes(raw(trigger))
    if back.to_bytes() != raw(trigger):
        fail(f"what's loaded dumps {back.to_bytes()!r}")
    rec.step(3)
    rec.traced()
    rec.state(repr(exc), where, name, trigger, twice)


def bodies(tier, seed):
    depth = 5 if tier == "thorough" else 3
    return {"raising": raising, **{d.make.__name__: body_of(d, depth) for d in DECLS}}
