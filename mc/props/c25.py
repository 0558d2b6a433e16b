"""C25: a union loads and dumps with exactly the chosen alternative."""

import collections
import collections.abc
import io
import types

from mc.history import has
from mc.history import history_body
from mc.history import see_bytes
from mc.history import see_loaded
from mc.history import see_single
from mc.history import see_size
from mc.items import KINDS
from mc.items import U8
from mc.lib import attempt
from mc.lib import byte_strings
from mc.lib import fail
from mc.lib import has_structs
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.model import Arr
from mc.model import Float
from mc.model import Int
from mc.model import plain
from mc.model import Raw
from mc.model import Stamp
from mc.model import Str
from mc.model import StrZ
from mc.model import Uni
from mc.model import Uuid
from mc.model import VarInt

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; every kind of field next to each of 4 others as alternatives, in 8 places (alone,"
    " in structures, arrays, nested and inherited, conditional, in another union), with the"
    " values of all alternatives; 22 alternatives with constants, nulls, checks, references to"
    " other fields, and structures with constants, checks, computed, conditional, discarded and"
    " variable fields, in all ordered pairs, given as dictionaries, proxies, instances and"
    " instances of child classes, complete and not; all byte strings of up to 4 bytes over 7"
    " values; 16 wrong results of deciders; all sequences of 4 changes, dumps and loads",
    "thorough": "histories of 4 moves; each kind next to every other, byte strings of up to 6 bytes, all triples of"
    " alternatives, sequences of 6 steps",
}
ASSUMPTIONS = [
    "the presence condition of an alternative and a null loaded by an alternative that can't be"
    " dumped by the union aren't covered",
]


def load_by_tag(stream, choices, context, loaded):
    return choices[loaded["t"]]


def dump_by_tag(data, choices, context, fields):
    return choices[fields["t"]]


PLACES = ("struct", "array", "nested", "parent", "conditional", "in union", "discarded", "alone")


def place(where, union):
    """A structure with the union in some place: (class, wrap the value, unwrap it)."""
    import binobj
    from binobj import fields as F

    if where in ("struct", "discarded"):
        if where == "discarded":
            union.discard = True

        class S(binobj.Struct):
            t = F.UInt8()
            x = union
            b = F.UInt8()

        return S, lambda v: v, lambda v: v
    if where == "array":

        class S(binobj.Struct):
            t = F.UInt8()
            x = F.Array(union, count=1)
            b = F.UInt8()

        return S, lambda v: [v], lambda v: v[0]
    if where == "nested":

        class I(binobj.Struct):  # noqa: E742
            t = F.UInt8()
            x = union

        class S(binobj.Struct):
            x = F.Nested(I)
            b = F.UInt8()

        return S, None, None
    if where == "parent":

        class P(binobj.Struct):
            t = F.UInt8()

        class Q(P):
            x = union

        class S(Q):
            b = F.UInt8()

        return S, lambda v: v, lambda v: v
    if where == "conditional":
        union.present = lambda f, c, s: f["t"] < 5

        class S(binobj.Struct):
            t = F.UInt8()
            x = union
            b = F.UInt8()

        return S, lambda v: v, lambda v: v

    class S(binobj.Struct):
        t = F.UInt8()
        x = F.Union(
            F.StringZ(),
            union,
            load_decider=lambda s, c, x, f: c[1],
            dump_decider=lambda d, c, x, f: c[1],
        )
        b = F.UInt8()

    return S, lambda v: v, lambda v: v


class Placed:
    """Dump and load values of a union somewhere."""

    def __init__(self, where, choices, extra=None):
        from binobj import fields as F

        self.where = where
        self.union = F.Union(*choices, load_decider=load_by_tag, dump_decider=dump_by_tag)
        if where == "alone":
            self.union.name = "x"
        else:
            self.cls, self.wrap, self.unwrap = place(where, self.union)

    def dump(self, t, value, context=None):
        if self.where == "alone":
            return bytes([t]) + self.union.to_bytes(value, context, {"t": t}) + b"\x63"
        if self.where == "nested":
            return self.cls(x={"t": t, "x": value}, b=0x63).to_bytes(context)
        return self.cls(t=t, x=self.wrap(value), b=0x63).to_bytes(context)

    def size(self, t, value):
        if self.where == "alone":
            return None
        if self.where == "nested":
            return len(self.cls(x={"t": t, "x": value}, b=0x63))
        return len(self.cls(t=t, x=self.wrap(value), b=0x63))

    def load(self, data, context=None):
        """(value, bytes consumed without the trailer)."""
        s = stream_at(data, b"..")
        if self.where == "alone":
            t = s.read(1)[0]
            value = self.union.from_stream(s, context, {"t": t})
            return value, s.tell() - 2
        if self.where == "discarded":
            got = self.cls.partial_load(s, "x", context)
            value = self.cls.get_field(stream_at(data), "x", context)
            return value, s.tell() - 2
        got = self.cls.from_stream(s, context)
        end = s.tell() - 3
        if self.where == "nested":
            return got.x.x, end
        return self.unwrap(got.x), end


def kinds(others):
    def body(ch, rec):
        kind = ch.choose(KINDS)()
        other = ch.choose(others)()
        where = ch.choose(PLACES)
        if not kind.values or not other.values or getattr(kind, "greedy", False):
            return
        if where == "array" and has_structs(kind):
            pass
        from binobj import fields as F

        both = [kind, other]
        placed = Placed(where, [k.make(F) for k in both])
        for t, chosen in enumerate(both):
            for v in [*kind.values, *other.values]:
                mine = any(v is w for w in chosen.values)
                for mode in (0, 1) if has_structs(chosen) and mine else (0,):
                    rec.case = lambda: f"union of {both!r}, {where}, {t}: {v!r}, mode {mode}"
                    owner = chosen if mine else kind if any(v is w for w in kind.values) else other
                    real = owner.real(v, mode)
                    how, got = attempt(placed.dump, t, real)
                    rec.step()
                    if not mine:
                        if where == "alone" or not has_structs(owner):
                            alone = attempt(chosen.make(F, name="x").to_bytes, real, None, {"t": t})
                            compare_dump((how, got), alone, t)
                        continue
                    expected = bytes([t]) + chosen.enc(v, {}) + b"\x63"
                    if how != "ok" or got != expected:
                        fail(f"{how} {got!r}, expected {short(expected)}")
                    how, size = attempt(placed.size, t, real)
                    if how != "ok" or size not in (None, len(expected)):
                        fail(f"len() is {size!r}, not {len(expected)}")
                    how, got = attempt(placed.load, expected)
                    if how != "ok":
                        fail(f"loading fails with {got!r}")
                    same(plain(got[0]), chosen.loaded(v, {}), "loaded")
                    if got[1] != len(expected) - 1:
                        fail(f"loading ends at {got[1]}, not {len(expected) - 1}")
                    rec.step(2)
                    rec.state(kind.name, other.name, where, t, repr(v), mode)
        rec.traced()

    return body


def compare_dump(got, alone, t):
    """What the union did against what the alternative does on its own."""
    if alone[0] == "ok":
        expected = bytes([t]) + alone[1] + b"\x63"
        if got[0] != "ok" or got[1] != expected:
            fail(f"{got!r}, the alternative writes {short(alone[1])}")
    elif got[0] == "ok":
        fail(f"{short(got[1])} is written, but the alternative fails with {alone[1]!r}")
    elif type(got[1]) is not type(alone[1]):
        fail(f"fails with {got[1]!r}, the alternative with {alone[1]!r}")


OTHERS = [
    lambda: StrZ("utf-8"),
    lambda: Int(2, False, "big"),
    lambda: VarInt("leb"),
    lambda: Arr(Int(1, False, "big"), 2),
]
ALL_OTHERS = [
    *OTHERS,
    lambda: Raw(3),
    lambda: Str(4, "utf-8", b" "),
    lambda: Float(4, "little"),
    lambda: Uuid("bin2"),
    lambda: Stamp(4),
    lambda: Int(16, True, "little"),
    lambda: Arr(StrZ(), 1),
]


# --- alternatives with options, and structures


def alternatives():
    """{name: (make() -> alternative, values)}; a structure's values are dictionaries."""
    import binobj
    from binobj import decorators
    from binobj import errors
    from binobj import fields as F

    def small(field, value):
        if value > 100:
            raise errors.ValidationError(field=field, value=value)

    class Plain(binobj.Struct):
        p = F.UInt8()
        q = F.UInt16(endian="big")

    class Child(Plain):
        r = F.UInt8(default=9)

    class Magic(binobj.Struct):
        m = F.Bytes(const=b"M1")
        v = F.UInt8()

    class Checked(binobj.Struct):
        v = F.UInt8(validate=small)
        w = F.UInt8(default=2)

        @decorators.validates("w")
        def _w(self, field, value):
            if value == 66:
                raise errors.ValidationError(field=field, value=value)

        @decorators.validates_struct
        def _all(self, struct):
            if struct["v"] == struct["w"]:
                raise errors.ValidationError("alike", field=None, value=None)

    class Computed(binobj.Struct):
        n = F.UInt8()
        d = F.Bytes(size=n)

        @n.computes
        def _n(self, f):
            return len(f["d"])

    class Conditional(binobj.Struct):
        f = F.UInt8()
        o = F.UInt16(endian="little", present=lambda f, c, s: f["f"] == 1)
        z = F.UInt8(discard=True, default=0x5A)

    class Variable(binobj.Struct):
        s = F.StringZ(encoding="utf-16-be")
        k = F.Array(F.Nested(Plain), count=1)

    class Nullable(binobj.Struct):
        a = F.UInt8(null_value=b"\xff")
        b = F.StringZ(null_value="nil")

    class Inner(binobj.Struct):
        t = F.UInt8()
        x = F.Union(
            Plain,
            F.StringZ(),
            load_decider=load_by_tag,
            dump_decider=dump_by_tag,
        )

    class InContext(binobj.Struct):
        v = F.UInt8(present=lambda f, c, s: bool(c))
        w = F.UInt8()

    class Empty(binobj.Struct):
        e = F.Bytes(size=0, default=b"")

    ok = {
        "const": (lambda: F.UInt16(const=0x4142, endian="big"), [0x4142]),
        "const text": (lambda: F.StringZ(const="ok"), ["ok"]),
        "null bytes": (lambda: F.UInt16(null_value=b"\xff\xff", endian="big"), [1, 0xFFFE]),
        "null value": (lambda: F.StringZ(null_value="nil"), ["a", ""]),
        "check": (lambda: F.UInt8(validate=small), [0, 100, 101, 255]),
        "checks": (lambda: F.UInt16(validate=[small, small], endian="big"), [100, 101]),
        "default": (lambda: F.UInt8(default=5), [6]),
        "sized by tag": (lambda: F.Bytes(size="t"), [b"", b"a", b"ab"]),
        "counted by tag": (lambda: F.Array(F.UInt8(), count="t"), [[], [1], [1, 2]]),
        "text by tag": (lambda: F.String(size="t", pad_byte=b" "), ["", "a", "ab"]),
        "stop": (
            lambda: F.Array(F.UInt8(), halt_check=lambda a, s, v, c, f: len(v) > f["t"]),
            [[1], [1, 2], [0, 0, 0]],
        ),
        "nested": (lambda: F.Nested(Plain), [{"p": 1, "q": 2}]),
        "nested list": (lambda: F.Array(F.Nested(Magic), count=2), [[{"v": 1}, {"v": 2}]]),
        "Plain": (lambda: Plain, [{"p": 1, "q": 2}, {"p": 256, "q": 0}, {"p": 1}]),
        "Child": (lambda: Child, [{"p": 1, "q": 2, "r": 3}, {"p": 1, "q": 2}]),
        "Magic": (lambda: Magic, [{"v": 1}, {"m": b"M1", "v": 2}, {"m": b"M2", "v": 2}]),
        "Checked": (
            lambda: Checked,
            [{"v": 1}, {"v": 101}, {"v": 2}, {"v": 1, "w": 66}, {"v": 7, "w": 7}],
        ),
        "Computed": (lambda: Computed, [{"d": b"abc"}, {"n": 1, "d": b"a"}, {"n": 1, "d": b""}]),
        "Conditional": (
            lambda: Conditional,
            [{"f": 0}, {"f": 1, "o": 258}, {"f": 1}, {"f": 0, "o": 1, "z": 1}],
        ),
        "Variable": (
            lambda: Variable,
            [{"s": "\u0416", "k": [{"p": 1, "q": 1}]}, {"s": "", "k": []}],
        ),
        "Nullable": (lambda: Nullable, [{"a": None, "b": "x"}, {"a": 255, "b": None}]),
        "Inner": (lambda: Inner, [{"t": 0, "x": {"p": 1, "q": 2}}, {"t": 1, "x": "s"}]),
        "InContext": (lambda: InContext, [{"v": 1, "w": 2}, {"w": 2}]),
        "Empty": (lambda: Empty, [{}, {"e": b""}, {"nothing": 1}]),
    }
    return ok


NAMES = (
    "const,const text,null bytes,null value,check,checks,default,sized by tag,counted by tag,"
    "text by tag,stop,nested,nested list,Plain,Child,Magic,Checked,Computed,Conditional,Variable,"
    "Nullable,Inner,InContext,Empty"
).split(",")


def is_class(alternative):
    return isinstance(alternative, type)


def dump_alone(alternative, value, t, context):
    """What the alternative does on its own."""
    import binobj

    if is_class(alternative):
        if isinstance(value, binobj.Struct):
            if isinstance(value, alternative) and type(value) is alternative:
                return value.to_bytes(context)
            value = value.to_dict(keep_discardable=True, context=context)
        return alternative(**value).to_bytes(context)
    alternative.name = "x"
    return alternative.to_bytes(value, context, {"t": t, "b": 0x63})


def load_alone(alternative, data, t, context):
    s = stream_at(data[1:], b"...")
    if is_class(alternative):
        value = alternative.from_stream(s, context)
    else:
        alternative.name = "x"
        value = alternative.from_stream(s, context, {"t": t})
    return value, s.tell() - 2


def forms(alternative, value):
    """The ways a value can be given: (name, value made anew)."""
    import copy

    out = [("as it is", lambda: copy.deepcopy(value))]
    if is_class(alternative) and isinstance(value, dict):
        out.append(("instance", lambda: alternative(**copy.deepcopy(value))))

        def assigned():
            inst = alternative()
            for k, v in copy.deepcopy(value).items():
                inst[k] = v
            return inst

        out.append(("instance, assigned", assigned))
        out.append(("ordered", lambda: dict(reversed(list(copy.deepcopy(value).items())))))
        out.append(("read-only", lambda: types.MappingProxyType(copy.deepcopy(value))))
        out.append(("own mapping", lambda: collections.UserDict(copy.deepcopy(value))))
    return out


def pairs(how_many, places):
    def body(ch, rec):
        names = [ch.choose(NAMES) for _ in range(how_many)]
        where = ch.choose(places)
        context = ch.choose((None, {"a": "context"}))
        made = alternatives()
        twins = alternatives_twins(made, names)
        choices = [made[n][0]() for n in names]
        placed = Placed(where, choices)
        values = [v for n in dict.fromkeys(names) for v in made[n][1]]
        for t, name in enumerate(names):
            # Those of the chosen alternative, and some which aren't meant for it.
            own = made[name][1]
            for v in [*own, *[v for v in values if v not in own]]:
                for form, make in forms(choices[t], v):
                    rec.case = lambda: (
                        f"union of {names}, {where}, context {context}, {t}: {v!r} as {form}"
                    )
                    how_made, value = attempt(make)
                    if how_made == "err":
                        continue
                    if form != "as it is" and where == "alone" and is_class(choices[t]):
                        mapping = isinstance(value, collections.abc.Mapping)
                        value = value if mapping else None
                    if value is None:
                        continue
                    alone = attempt(dump_alone, twins[t], make(), t, context)
                    got = attempt(placed.dump, t, value, context)
                    rec.step()
                    if v in own:
                        compare_dump(got, alone, t)
                    elif alone[0] == "ok":
                        compare_dump(got, alone, t)
                    elif got[0] == "ok":
                        fail(f"{short(got[1])} is written, but the alternative fails: {alone[1]!r}")
                    rec.outcome(got[0])
                    rec.state(*names, where, t, repr(v), form)
                    if got[0] == "ok":
                        compare_load(placed, twins[t], got[1], t, context, rec)
        rec.traced()

    return body


def alternatives_twins(made, names):
    return [made[n][0]() for n in names]


def compare_load(placed, twin, data, t, context, rec):
    alone = attempt(load_alone, twin, data, t, context)
    got = attempt(placed.load, data, context)
    rec.step()
    if alone[0] == "err":
        if got[0] == "ok":
            fail(f"{data!r} is loaded as {got[1]!r}, the alternative fails: {alone[1]!r}")
        if type(got[1]) is not type(alone[1]):
            fail(f"loading {data!r} fails with {got[1]!r}, the alternative with {alone[1]!r}")
        return
    if placed.where != "alone" and len(data) <= alone[1][1]:
        if got[0] == "ok" and placed.where != "discarded":
            fail(f"{data!r} is loaded as {got[1]!r}, without what's after the union")
        return
    if got[0] == "err":
        fail(f"loading {data!r} fails with {got[1]!r}, the alternative gives {alone[1][0]!r}")
    a, b = got[1][0], alone[1][0]
    if type(a) is not type(b):
        fail(f"{data!r} is loaded as {a!r}, by the alternative as {b!r}")
    same(plain(a), plain(b), f"{data!r} loaded")
    if got[1][1] != alone[1][1]:
        fail(f"loading {data!r} ends at {got[1][1]}, the alternative at {alone[1][1]}")


BYTES = b"\0\1A\x4d\x31\xff\x64"


def data(rest, places):
    def body(ch, rec):
        name = ch.choose(NAMES)
        t = ch.pick(2)
        where = ch.choose(places)
        context = ch.choose((None, 1)) if name == "InContext" else None
        made = alternatives()
        names = [name, "const"] if t == 0 else ["Plain", name]
        placed = Placed(where, [made[n][0]() for n in names])
        twin = made[name][0]()
        for raw in byte_strings(ch, BYTES, 1, rest - 1):
            rec.case = lambda: f"union of {names}, {where}, {t}: {raw!r}"
            compare_load(placed, twin, bytes([t]) + raw, t, context, rec)
            rec.state(name, t, where, raw)
        rec.traced()

    return body


def wrong_results():
    import binobj
    from binobj import fields as F

    class Other(binobj.Struct):
        p = F.UInt8()

    class Alike:
        """Not a structure, but it has the methods of one."""

        def __init__(self, **values):
            self.values = values

        def to_stream(self, stream, context=None):
            stream.write(b"?")

        @classmethod
        def from_stream(cls, stream, context=None, loaded_fields=None):
            return cls(p=stream.read(1))

    def raising():
        raise ZeroDivisionError

    return {
        "a class that's like a structure": lambda: Alike,
        "an object that's like a structure": lambda: Alike(p=1),
        "None": lambda: None,
        "a number": lambda: 0,
        "a text": lambda: "UInt8",
        "a class of fields": lambda: F.UInt8,
        "the field class": lambda: F.Field,
        "an instance of a structure": lambda: Other(p=1),
        "another class": lambda: int,
        "an object": lambda: object(),
        "a list": lambda: [F.UInt8()],
        "a tuple of classes": lambda: (Other,),
        "a dictionary": lambda: {"p": 1},
        "not implemented": lambda: NotImplemented,
        "a function": lambda: raising,
        "an error": raising,
    }


def bad_deciders(ch, rec):
    """Whatever isn't an alternative is reported, and nothing is written."""
    import binobj
    from binobj import fields as F

    results = wrong_results()
    what = ch.choose(list(results))
    where = ch.choose(("struct", "array", "nested", "after a good one", "in union"))
    lazy = ch.flag()  # the decider is right for the first element

    class Alt(binobj.Struct):
        p = F.UInt8()

    calls = []

    def wrong(first, classes, context, fields):
        calls.append(1)
        if lazy and len(calls) == 1:
            return classes[0]
        return results[what]()

    for value in (5, {"p": 5}, {}, "text", b"b", [1], 1.5):
        rec.case = lambda: f"decider gives {what}, {where}, value {value!r}, right first {lazy}"
        union = F.Union(F.UInt8(), Alt, load_decider=wrong, dump_decider=wrong)
        if where == "array":

            class S(binobj.Struct):
                a = F.UInt8()
                x = F.Array(union, count=3)
                b = F.UInt8()

            given, first = [5, value, value], [5]
        elif where == "nested":

            class I(binobj.Struct):  # noqa: E742
                y = F.UInt8(default=1)
                x = union

            class S(binobj.Struct):
                a = F.UInt8()
                x = F.Nested(I)
                b = F.UInt8()

            given, first = {"x": value}, None
        elif where == "in union":

            class S(binobj.Struct):
                a = F.UInt8()
                x = F.Union(
                    F.UInt8(),
                    union,
                    load_decider=lambda s, c, x, f: c[1],
                    dump_decider=lambda d, c, x, f: c[1],
                )
                b = F.UInt8()

            given, first = value, None
        else:

            class S(binobj.Struct):
                a = F.UInt8()
                x = union
                b = F.UInt8()

            given, first = value, None
        if lazy and not first:
            return
        inst = S(a=1, x=given, b=2)
        for op in ("to_bytes", "to_stream", "partial_dump", "partial_dump to x"):
            calls.clear()
            s = io.BytesIO()
            if op == "to_bytes":
                how, got = attempt(inst.to_bytes, 5)
            elif op == "to_stream":
                how, got = attempt(inst.to_stream, s, 5)
            elif op == "partial_dump":
                how, got = attempt(inst.partial_dump, s, None, 5)
            else:
                how, got = attempt(inst.partial_dump, s, "x", 5)
            rec.step()
            if how == "ok":
                fail(f"{op} gives {got!r}, written {short(s.getvalue())}")
            if what == "an error":
                if not isinstance(got, ZeroDivisionError):
                    fail(f"{op} fails with {got!r}")
            elif not isinstance(got, (TypeError, *library_errors())):
                fail(f"{op} fails with {got!r}")
            if s.getvalue() not in (b"", b"\x01"):
                fail(f"{op} writes {short(s.getvalue())}")
        for load in (
            lambda: S.from_bytes(b"\x01\x05\x05\x05\x05\x05"),
            lambda: S.partial_load(io.BytesIO(b"\x01\x05\x05\x05\x05\x05"), "x"),
            lambda: S.get_field(io.BytesIO(b"\x01\x05\x05\x05\x05\x05"), "x"),
        ):
            calls.clear()
            how, got = attempt(load)
            rec.step()
            if how == "ok":
                fail(f"loaded as {got!r}")
            if what == "an error":
                if not isinstance(got, ZeroDivisionError):
                    fail(f"loading fails with {got!r}")
            elif not isinstance(got, (TypeError, *library_errors())):
                fail(f"loading fails with {got!r}")
    rec.traced()
    rec.state(what, where, lazy)


def library_errors():
    from binobj import errors

    return (errors.Error,)


def elements(ch, rec):
    """Arrays of unions: the alternative may be different for each element."""
    import binobj
    from binobj import fields as F

    n = ch.pick(4)
    how_counted = ch.choose(("fixed", "name", "end"))

    class A(binobj.Struct):
        kind = F.UInt8(const=1)
        v = F.UInt16(endian="big")

    class B(binobj.Struct):
        kind = F.UInt8(const=2)
        s = F.StringZ()

    class C(binobj.Struct):
        kind = F.UInt8(const=3)

    class D(A):
        w = F.UInt8(default=4)

    options = [
        ({"kind": 1, "v": 258}, b"\x01\x01\x02", A),
        ({"kind": 2, "s": "xy"}, b"\x02xy\0", B),
        ({"kind": 3}, b"\x03", C),
        ("text", b"\x04text\0", None),
        (b"\x07\x08\x09", b"\x05\x07\x08\x09", None),
    ]

    class Tagged(F.Field):
        """A byte before the value of another field."""

        def __init__(self, tag, field):
            super().__init__()
            self.tag, self.field = tag, field

        def _do_load(self, stream, context, loaded_fields):
            stream.read(1)
            return self.field.from_stream(stream, context, loaded_fields)

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(bytes([self.tag]))
            self.field.to_stream(stream, data, context, all_fields)

    def load(stream, choices, context, fields):
        here = stream.tell()
        tag = stream.read(1)
        stream.seek(here)
        return choices[tag[0] - 1]

    def dump(data, choices, context, fields):
        if isinstance(data, str):
            return choices[3]
        if isinstance(data, bytes):
            return choices[4]
        return choices[data["kind"] - 1]

    union = F.Union(
        A,
        B,
        C,
        Tagged(4, F.StringZ()),
        Tagged(5, F.Bytes(size=3)),
        load_decider=load,
        dump_decider=dump,
    )
    count = {"fixed": n, "name": "n", "end": None}[how_counted]

    class S(binobj.Struct):
        n = F.UInt8()
        x = F.Array(union, count=count)

    picked = [ch.choose(options) for _ in range(n)]
    raw = bytes([n]) + b"".join(p[1] for p in picked)
    for mode in (0, 1, 2):
        values = []
        for v, _raw, cls in picked:
            if cls is None or mode == 0:
                values.append(v)
            elif mode == 1:
                values.append(cls(**v))
            else:
                values.append(cls(**{k: e for k, e in v.items() if k != "kind"}))
        rec.case = lambda: f"array of unions {values!r}, mode {mode}, {how_counted}"
        inst = S(n=n, x=values)
        if inst.to_bytes() != raw:
            fail(f"dumped {short(inst.to_bytes())}, expected {short(raw)}")
        if len(inst) != len(raw):
            fail(f"len() is {len(inst)}, not {len(raw)}")
        rec.step(2)
    got = S.from_bytes(raw)
    same(plain(got.x), [v for v, _r, _c in picked], "loaded")
    for e, (_v, _r, cls) in zip(got.x, picked):
        if cls is not None and type(e) is not cls:
            fail(f"an element is loaded as {type(e)}, not {cls}")
    if got.to_bytes() != raw:
        fail(f"loaded and dumped as {short(got.to_bytes())}")
    for cut in range(1, len(raw)):
        how, part = attempt(S.from_bytes, raw[:cut])
        if how == "ok" and how_counted != "end":
            fail(f"{raw[:cut]!r} is loaded as {part!r}")
    rec.step(2)
    rec.traced()
    rec.state(how_counted, repr(picked))


def histories(depth):
    """One structure, whose tag and value change."""
    ops = ["tag 0", "tag 1", "tag 2", "value 0", "value 1", "value 2", "dump", "load"]

    def body(ch, rec):
        import binobj
        from binobj import fields as F

        trace = [ch.choose(ops) for _ in range(depth)]

        class A(binobj.Struct):
            m = F.UInt8(const=7)
            v = F.UInt8(default=1)

        class S(binobj.Struct):
            t = F.UInt8()
            x = F.Union(
                A,
                F.StringZ(),
                F.Bytes(size="t"),
                load_decider=load_by_tag,
                dump_decider=dump_by_tag,
            )

        values = [{"v": 3}, "txt", b"by"]
        raws = [b"\x07\x03", b"txt\0", b"by"]
        inst, t, held = S(t=0, x={"v": 3}), 0, 0
        for i, op in enumerate(trace):
            rec.case = lambda: f"{trace[: i + 1]}"
            k = int(op[-1]) if op[-1].isdigit() else None
            if op.startswith("tag"):
                inst.t = t = k
            elif op.startswith("value"):
                inst.x = values[k]
                held = k
            elif op == "dump":
                how, got = attempt(inst.to_bytes)
                if t == held:
                    if how != "ok" or got != bytes([t]) + raws[t]:
                        fail(f"{how} {got!r}, expected {raws[t]!r} after {t}")
                    if len(inst) != len(got):
                        fail(f"len() is {len(inst)}, not {len(got)}")
                elif how == "ok":
                    fail(f"{values[held]!r} is dumped by {t} as {got!r}")
            else:
                inst = S.from_bytes(bytes([t]) + raws[t])
                held = t
                same(plain(inst.x), {"m": 7, "v": 3} if t == 0 else values[t], "loaded")
            rec.step()
        rec.traced()
        rec.state(*trace)

    return body


def bodies(tier, seed):
    thorough = tier == "thorough"
    out = {
        "kinds": kinds(ALL_OTHERS if thorough else OTHERS),
        "pairs": pairs(2, PLACES),
        "data": data(6 if thorough else 4, PLACES if not thorough else PLACES[:3]),
        "bad-deciders": bad_deciders,
        "elements": elements,
        "histories": histories(6 if thorough else 4),
    }
    if thorough:
        out["triples"] = pairs(3, ("struct", "array", "nested"))
    watchers = [see_bytes, see_size, see_loaded, see_single]
    depth = 4 if tier == "thorough" else 3
    out["item-histories"] = history_body(watchers, depth, has(Uni))
    return out
