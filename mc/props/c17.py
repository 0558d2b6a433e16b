"""C17: all declaration styles and inheritance splits build the same structure."""

import io
import itertools
import sys
import types
import typing
import uuid

from mc.lib import attempt
from mc.lib import fail
from mc.model import NOPE
from mc.model import plain
from mc.model import Spec
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "every field kind in every position and all ordered pairs of items: each of the"
    " styles (assignment, annotation with classes, with instances, with typing.Annotated), and"
    " every split into a parent and a child with two pairs of styles, comparing ~15 kinds of"
    " observations per assignment with those of the plain declaration; all pairs of 16 fields"
    " in all of 8 annotation syntaxes, as generated source code, with and without postponed"
    " evaluation, other annotations in between, and inheritance; all combinations of"
    " structure-wide option defaults (generic, typed, typed for a base class), explicit"
    " options, and placement",
    "thorough": "all pairs of styles for every split, splits into three classes, and all"
    " triples of small items",
}
ASSUMPTIONS = [
    "a structure's option defaults aren't handed on to array elements and union alternatives",
    "keys of option defaults match the exact class name of a field",
]

STYLES = ("assign", "class", "instance", "annotated")


def chain(fields, cuts, styles):
    """The fields, split over a chain of classes."""
    spec, start = None, 0
    for end, style in zip([*cuts, len(fields)], styles):
        spec = Spec(fields[start:end], parent=spec, style=style, name=f"S{start}")
        start = end
    return spec


def outcome(fn, *args, **kw):
    how, got = attempt(fn, *args, **kw)
    if how == "err":
        return type(got).__name__
    return got if isinstance(got, (bytes, int, str)) else plain(got)


def observe(cls, names, assigns, raws, real):
    """What can be told about a class from outside."""
    out = {"size": cls.get_size()}
    for name in names:
        f = getattr(cls, name)
        out[name] = (
            f.name,
            f.index,
            f.offset,
            f.size if isinstance(f.size, int) else None,
            repr(f.const),
            f.required,
            f.discard,
            f.allow_null,
            f.is_computed_field,
            type(f).__name__,
        )
    empty = cls()
    for name in names:
        out["default", name] = outcome(getattr, empty, name)
        out["none", name] = outcome(cls(**{name: None}).partial_dump, io.BytesIO(), name)
    out["empty"] = outcome(empty.to_bytes)
    for i, assign in enumerate(assigns):
        inst = cls(**real(assign))
        out["bytes", i] = outcome(inst.to_bytes)
        out["len", i] = outcome(inst.__len__)
        out["dict", i] = outcome(inst.to_dict)
        for name in names:
            out["value", i, name] = outcome(getattr, inst, name)
        for name in assign:
            less = cls(**real({n: v for n, v in assign.items() if n != name}))
            out["without", i, name] = outcome(less.to_bytes)
    for i, raw in enumerate(raws):
        out["load", i] = outcome(cls.from_bytes, raw)
        out["cut", i] = outcome(cls.from_bytes, raw[:-1])
        out["more", i] = outcome(cls.from_bytes, raw + b"\0")
        for name in names:
            s = io.BytesIO(b"\xee" + raw)
            s.seek(1)
            out["field", i, name] = outcome(cls.get_field, s, name)
            out["part", i, name] = outcome(cls.partial_load, s, name)
            out["at", i, name] = s.tell()
    return out


def compare(got, expected, what):
    if got == expected or repr(got) == repr(expected):
        return
    for key in expected:
        if repr(got.get(key)) != repr(expected[key]):
            fail(f"{what}: {key} is {got.get(key)!r}, not {expected[key]!r}")
    fail(f"{what}: {set(got) - set(expected)}")


def judge_styles(thorough):
    def judge(case, rec):
        fields = case.spec.fields()
        plain_spec = Spec(fields)
        assigns = case.assigns[:3]
        raws = [plain_spec.dump(a) for a in assigns]
        names = [f.name for f in fields]

        def seen(spec):
            cls = spec.build()
            return observe(cls, names, assigns, raws, lambda a: spec.real_values(a, 0))

        rec.case = lambda: repr(plain_spec)
        expected = seen(plain_spec)
        layouts = [((), (s,)) for s in STYLES[1:]]
        pairs = list(itertools.product(STYLES, STYLES))
        for cut in range(1, len(fields)):
            if thorough:
                layouts += [((cut,), p) for p in pairs]
            else:
                turn = len(repr(plain_spec)) + cut * 5
                layouts += [((cut,), pairs[(turn + k) % 16]) for k in (0, 7)]
        if thorough and len(fields) > 2:
            for n, cuts in enumerate(itertools.combinations(range(1, len(fields)), 2)):
                layouts.append((cuts, [STYLES[(n + k) % 4] for k in range(3)]))
        for cuts, styles in layouts:
            spec = chain(fields, cuts, styles)
            rec.case = lambda s=spec: repr(s)
            compare(seen(spec), expected, f"{'/'.join(styles)} cut at {cuts}")
            rec.step(len(expected))
            rec.traced()
            rec.state(repr(spec))
        rec.sample(repr(plain_spec))

    return judge


################################################################################
# Source code

# (class, arguments, default as source or None, values to try)
MENU = [
    ("UInt8", "", None, [0, 255]),
    ("UInt8", "", "0", [7]),
    ("Int16", "", "-2", [258]),
    ("StringZ", "", None, ["", "abc"]),
    ("StringZ", "", "''", ["x"]),
    ("Float32", "", "1.5", [-0.25]),
    ("UUID4", "", None, [uuid.UUID(int=5)]),
    ("In", "", None, [{"p": 1, "q": 2}]),
    ("In", "", "In(p=1, q=9)", [{"p": 1, "q": 2}]),
    ("All", "", "dict()", [{"p": 1, "q": 2}]),
    ("All", "", None, [{"q": 2}]),
    ("UInt16?", "", None, [None, 5, 0]),
    ("UInt16?", "", "None", [None, 5]),
    ("Int8?", "", "3", [None, 5]),
    ("Int32", "endian='big'", None, [1, -1]),
    ("Int32", "endian='big'", "6", [1]),
    ("String", "size=4, pad_byte=b' '", "'ab'", ["abcd"]),
    ("Array", "F.UInt8(), count=2", None, [[1, 2]]),
]


OPTIONAL = (
    "Optional[{}]", "{} | None", "None | {}", "Union[None, {}]", "Union[{}, None]",
    "Optional[Optional[{}]]",
)  # fmt: skip


def forms(entry):
    """All ways of declaring a field: {form: source}"""
    cls, args, default, _values = entry
    nullable = cls.endswith("?")
    cls = cls.rstrip("?")
    bare = cls if cls in ("In", "All") else f"F.{cls}"
    if bare == cls:
        call = lambda *more: f"F.Nested({', '.join([cls, *more])})"  # noqa: E731
    else:
        parts = [p for p in (args, "null_value=F.DEFAULT" if nullable else "") if p]
        call = lambda *more: f"{bare}({', '.join([*parts, *more])})"  # noqa: E731
    body = f" = {default}" if default is not None else ""
    inside = call(f"default={default}") if default is not None else call()
    out = {
        "plain": f"{{}} = {inside}",
        "instance": f"{{}}: {inside}",
        "instance-body": f"{{}}: {call()}{body}",
        "annotated-instance": f"{{}}: Annotated[object, {inside}]",
        "annotated-instance-body": f"{{}}: Annotated[object, {call()}]{body}",
        "annotated-extra": f"{{}}: Annotated[object, 'text', {call()}, 5]{body}",
    }
    if not args:
        kinds = OPTIONAL if nullable else ("{}",)
        kinds = [kind.format(bare) for kind in kinds]
        for i, kind in enumerate(kinds):
            out[f"class{i}"] = f"{{}}: {kind}{body}"
            out[f"annotated-class{i}"] = f"{{}}: Annotated[object, {kind}]{body}"
    return out


ASSIGNED = "plain"
NOT_POSTPONED = ("instance", "instance-body")
COUNT = itertools.count()


def make_classes(lines_of, postponed, style, inherit):
    """Run generated source code; returns the class."""
    decorate = "@binobj.dataclass\n" if style != ASSIGNED else ""
    head = "from __future__ import annotations\n" if postponed else ""
    head += (
        "import binobj\nfrom binobj import fields as F\n"
        "from typing import Annotated, ClassVar, Optional, Union\n"
        "class In(binobj.Struct):\n    p = F.UInt8()\n    q = F.UInt8(default=5)\n"
        "class All(binobj.Struct):\n    p = F.UInt8(default=3)\n    q = F.UInt8(default=5)\n"
    )
    if inherit:
        text = f"{head}{decorate}class P(binobj.Struct):\n    {lines_of[0]}\n"
        text += f"{decorate}class S(P):\n    " + "\n    ".join(lines_of[1:])
    else:
        text = f"{head}{decorate}class S(binobj.Struct):\n    " + "\n    ".join(lines_of)
    name = f"mc_generated_{next(COUNT)}"
    module = types.ModuleType(name)
    sys.modules[name] = module
    try:
        exec(compile(text, name, "exec"), module.__dict__)
    finally:
        del sys.modules[name]
    return module.__dict__["S"], text


def source(ch, rec):
    first, second = ch.choose(MENU), ch.choose(MENU)
    if first[0] == "Array" and second[0] == "Array":
        return
    between = ch.flag()
    values = [
        {"a": first[3][i % len(first[3])], "b": second[3][i % len(second[3])]} for i in range(3)
    ]
    cls, text = make_classes(
        [forms(first)["plain"].format("a"), forms(second)["plain"].format("b")], 0, ASSIGNED, 0
    )
    rec.case = lambda: text
    raws = [cls(**v).to_bytes() for v in values]
    expected = observe(cls, ["a", "b"], values, raws, dict)
    shared = [f for f in forms(first) if f in forms(second)] + ["mixture"]
    for form in shared:
        if form == ASSIGNED:
            continue
        for postponed in (0, 1):
            if form in NOT_POSTPONED and postponed:
                continue
            for inherit in (0, 1):
                if form == "mixture":
                    names = [n for n in forms(second) if n not in NOT_POSTPONED][1:]
                    lines = [
                        list(forms(first).values())[-1].format("a"),
                        forms(second)[names[inherit % len(names)]].format("b"),
                    ]
                else:
                    lines = [forms(first)[form].format("a"), forms(second)[form].format("b")]
                if between:
                    lines[1:1] = ["other: int = 5", "every: ClassVar[int] = 6", "more: str"]
                cls, text = make_classes(lines, postponed, form, inherit)
                rec.case = lambda text=text: text
                compare(observe(cls, ["a", "b"], values, raws, dict), expected, form)
                if between and (cls.every != 6 or [n for n in cls()] or not_fields(cls)):
                    fail("annotations that aren't fields are taken for some")
                rec.step(len(expected))
                rec.traced()
                rec.state(lines, postponed, inherit)


def not_fields(cls):
    how, _got = attempt(cls, other=5)
    return how == "ok"


################################################################################
# Structure-wide defaults


def option_cases():
    from binobj import fields as F

    class Mine(F.UInt16):
        pass

    import datetime

    when = datetime.datetime(2001, 2, 3, tzinfo=datetime.timezone.utc)
    stamp = int(when.timestamp())
    ends = ("big", "little")
    text = ("utf-16-be", "cp037")

    def number(value, size):
        return lambda how: value.to_bytes(size, how, signed=True)

    def real(value, size):
        import struct

        code = {2: "e", 4: "f", 8: "d"}[size]
        return lambda how: struct.pack((">" if how == "big" else "<") + code, value)

    def words(value, end=""):
        return lambda how: (value + end).encode(how)

    native = sys.byteorder
    return [
        ("endian", ends, native, F.UInt16, {}, "UInt16", "Int16", 0x0102, number(0x0102, 2)),
        ("endian", ends, native, F.Int64, {}, "Int64", "Integer", -5, number(-5, 8)),
        ("endian", ends, native, F.Integer, {"size": 3}, "Integer", "Int24", 9, number(9, 3)),
        ("endian", ends, native, F.UnsignedInteger, {"size": 3}, "UnsignedInteger", "Integer", 9, number(9, 3)),
        ("endian", ends, native, Mine, {}, "Mine", "UInt16", 0x0102, number(0x0102, 2)),
        ("endian", ends, native, F.UInt16, {"const": 0x0102}, "UInt16", "Mine", 0x0102, number(0x0102, 2)),
        ("endian", ends, native, F.Float16, {}, "Float16", "Float", 1.5, real(1.5, 2)),
        ("endian", ends, native, F.Float32, {}, "Float32", "Float", 1.5, real(1.5, 4)),
        ("endian", ends, native, F.Float64, {"default": 1.5}, "Float64", "Float32", 1.5, real(1.5, 8)),
        ("endian", ends, native, F.Timestamp32, {"tz_aware": True}, "Timestamp32", "Timestamp", when, number(stamp, 4)),
        ("endian", ends, native, F.Timestamp64, {"tz_aware": True}, "Timestamp64", "Int64", when, number(stamp, 8)),
        ("encoding", text, "iso-8859-1", F.StringZ, {}, "StringZ", "String", "ab", words("ab", "\0")),
        ("encoding", text, "iso-8859-1", F.String, {"const": "ab"}, "String", "StringZ", "ab", words("ab")),
        ("encoding", text, "iso-8859-1", F.StringZ, {"const": "ab"}, "StringZ", "String", "ab", words("ab", "\0")),
    ]


def options(ch, rec):
    import typing

    import binobj
    from binobj import fields as F

    case = ch.choose(option_cases())
    option, choices, usual, cls, kw, typed_name, other_name, value, encode = case
    maybe = (None, *choices)
    generic, typed, other, explicit = (ch.choose(maybe) for _ in range(4))
    place = ch.choose(
        ("own", "inherited", "parent's stay", "replaced", "extended", "none", "mixin")
    )
    annotated = ch.flag()
    entries = [
        (option, generic),
        (f"{typed_name}__{option}", typed),
        (f"{other_name}__{option}", other),
    ]
    if ch.flag():
        entries.reverse()
    table = {n: v for n, v in entries if v}
    opposite = {option: choices[1], f"{typed_name}__{option}": choices[1]}
    rec.case = lambda: (cls, kw, table, explicit, place, annotated)

    kw = dict(kw)
    if explicit:
        kw[option] = explicit
    field = cls(**kw)

    def meta(options, *bases):
        return type("Meta", bases, {"argument_defaults": options})

    def struct(name, bases, fields, options=None, meta_bases=()):
        ns = {"__module__": __name__}
        if options is not None:
            ns["Meta"] = meta(options, *meta_bases)
        if annotated:
            ns["__annotations__"] = {
                n: typing.Annotated[typing.Any, f] for n, f in fields.items()
            }
            return binobj.dataclass(type(binobj.Struct)(name, bases, ns))
        return type(binobj.Struct)(name, bases, {**ns, **fields})

    base = (binobj.Struct,)
    before = dict(table)
    if place == "own":
        made = struct("S", base, {"x": field}, table)
    elif place == "inherited":
        parent = struct("P", base, {"b": F.UInt8(default=0)}, table)
        made = struct("S", (parent,), {"x": field})
    elif place == "parent's stay":
        parent = struct("P", base, {"x": field}, table)
        made = struct("S", (parent,), {"y": F.UInt8(default=0)}, opposite)
    elif place == "replaced":
        parent = struct("P", base, {"b": F.UInt8(default=0)}, opposite)
        made = struct("S", (parent,), {"x": field}, table)
    elif place == "extended":
        parent = struct("P", base, {"b": F.UInt8(default=0)}, opposite)
        made = struct("S", (parent,), {"x": field}, table, (parent.Meta,))
    elif place == "mixin":
        mixin = type("Mixin", (), {"Meta": meta(table)})
        made = struct("S", (binobj.Struct, mixin), {"x": field})
    else:
        made = struct("S", base, {"x": field})
        table = {}
    expected = explicit or table.get(f"{typed_name}__{option}") or table.get(option) or usual
    if place != "none" and table != before:
        fail(f"the table of defaults is changed to {table!r}")
    raw = encode(expected)
    head = b"" if place not in ("inherited", "replaced", "extended") else b"\0"
    tail = b"\0" if place == "parent's stay" else b""
    got = made(x=value).to_bytes()
    if got != head + raw + tail:
        fail(f"dumps {got.hex()}, not {(head + raw + tail).hex()}")
    loaded = made.from_bytes(got)
    if loaded.x != value:
        fail(f"loads {loaded.x!r}")
    if made.get_field(io.BytesIO(got), "x") != value:
        fail(f"get_field() gives {made.get_field(io.BytesIO(got), 'x')!r}")
    if len(loaded) != len(got):
        fail(f"the length is {len(loaded)}, not {len(got)}")
    if made.get_size() not in (None, len(got)):
        fail(f"the size is {made.get_size()}, not {len(got)}")
    if getattr(made.x, option) != expected:
        fail(f"the option is {getattr(made.x, option)!r}, not {expected!r}")
    rec.step(5)
    rec.traced()
    rec.state(typed_name, kw.get("const"), tuple(sorted(before.items())), explicit, place, annotated)


def documented(ch, rec):
    """What the documentation says and doesn't work."""
    (documented_default, optional_structure)[ch.choose((0, 1))](rec)
    rec.traced()


def documented_default(rec):
    import binobj
    from binobj import fields as F

    rec.case = lambda: "the documented example with StringZ__default"

    class Person(binobj.Struct):
        class Meta:
            argument_defaults = {"encoding": "ibm500", "StringZ__default": ""}

        id = F.StringZ(encoding="ascii")
        name = F.StringZ()

    rec.state("documented default")
    how, got = attempt(Person(id="x").to_bytes)
    if how != "ok" or got != b"x\0\0":
        fail(f"the documented structure-wide default isn't used: {got!r}")


def optional_structure(rec):
    import binobj
    from binobj import fields as F

    rec.case = lambda: "a structure class annotated as Optional[Structure]"

    class Inner(binobj.Struct):
        p = F.UInt16()

    class Outer(binobj.Struct):
        __annotations__ = {"a": typing.Optional[Inner]}

    rec.state("optional structure")
    Outer = binobj.dataclass(Outer)
    how, got = attempt(Outer(a=None).to_bytes)
    if how != "ok" or got != b"\0\0":
        fail(f"the field isn't nullable: {got!r}")


def bodies(tier, seed):
    thorough = tier == "thorough"
    cases = families("quick")
    if not thorough:
        cases.pop("triples")
    return {
        **each_case(judge_styles(thorough), cases),
        "source": source,
        "options": options,
        "documented": documented,
    }
