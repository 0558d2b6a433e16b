"""C28: what fields and classes say about themselves is true."""

import datetime
import io
import uuid

from mc.custom import Own
from mc.items import combine
from mc.items import ITEMS
from mc.items import KINDS
from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.model import ABSENT
from mc.model import Arr
from mc.model import Bad
from mc.model import Missing
from mc.model import DEFAULT
from mc.model import Nest
from mc.model import NOPE
from mc.model import plain
from mc.model import Raw
from mc.model import same_model
from mc.model import Spec
from mc.model import Str
from mc.model import StrZ
from mc.model import Uni
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "every kind of field in every position, all ordered pairs of items and all triples"
    " of small items, with and without inheritance, and pairs in 4 styles and 6 ways of"
    " inheriting: the name, class, index, offset, size, default, constant, null, requiredness and"
    " purpose of every field against what dumps, loads and omissions show; arrays (and arrays"
    " of arrays) of 13 sorts of elements with 9 options each",
    "thorough": "also all quadruples of small items and all triples of items",
}
ASSUMPTIONS = ["only documented public attributes are looked at"]


def judge(case, rec):
    check(case.spec, case.spec.build(), case.assigns, rec)


def check(spec, cls, assigns, rec):
    import binobj
    from binobj import fields as F

    fields = spec.fields()
    note(rec, spec)
    components = list(cls.__binobj_struct__.components)
    if components != [f.name for f in fields]:
        fail(f"the fields are {components}")
    if cls.__binobj_struct__.name != cls.__name__:
        fail(f"the structure says it's {cls.__binobj_struct__.name!r}")
    if not binobj.is_struct(cls) or not binobj.is_struct(cls(**{})):
        fail("is_struct() denies it")
    if cls.get_size() != spec.fixed_size() and not any(isinstance(f.kind, Own) for f in fields):
        fail(f"get_size() is {cls.get_size()}, expected {spec.fixed_size()}")
    level, at = cls, spec
    while at is not None:
        own = level.__binobj_struct__.num_own_fields
        if own != len(at.own):
            fail(f"{level.__name__} says it has {own} fields of its own, it has {len(at.own)}")
        for f in at.own:
            belongs = getattr(cls, f.name).__objclass__
            if belongs is not level:
                fail(f"{f.name} says it belongs to {belongs!r}, it's declared by {level!r}")
        level, at = level.__mro__[1], at.parent
    at = 0
    for i, f in enumerate(fields):
        field = getattr(cls, f.name)
        if field is not cls.__binobj_struct__.components[f.name]:
            fail(f"{f.name}: the class and its description have different fields")
        said = (field.name, field.index)
        if said != (f.name, i):
            fail(f"the field {f.name}, the {i}., says it's {said}")
        if field.offset != at:
            fail(f"{f.name}: says its offset is {field.offset}, it is {at}")
        options(f, field, F)
        size = f.fixed
        conditional = f.present is not None
        at = None if at is None or size is None else at + size
        if field.has_fixed_size != isinstance(field.size, int):
            fail(f"{f.name}: has_fixed_size is {field.has_fixed_size}, size {field.size!r}")
        if not conditional and isinstance(field.size, int) and size is None:
            fail(f"{f.name}: says its size is {field.size}, but it varies")
        if size is not None and field.size != size:
            fail(f"{f.name}: says its size is {field.size!r}, it is {size}")
        rec.step()
    for assign in assigns:
        note(rec, spec, values=assign)
        data = cls(**spec.real_values(assign)).to_bytes()
        pos = 0
        for f, p in spec.pieces(assign):
            field = getattr(cls, f.name)
            if field.offset is not None and field.offset != pos:
                fail(f"{f.name} is at {pos}, but says {field.offset}")
            n = len(p or b"")
            if p is not None and isinstance(field.size, int) and n != field.size:
                fail(f"{f.name} takes {n} bytes, but says {field.size}")
            pos += n
        if pos != len(data):
            fail(f"{len(data)} bytes are dumped, expected {pos}")
        omissions(spec, cls, assign, rec)
        rec.state(repr(spec), repr(assign))
        rec.traced()
    rec.sample(f"{spec!r}")


def options(f, field, F):
    """What was given to the constructor."""
    kind = f.kind

    def same(what, got, expected):
        if got is not expected and not same_model(plain(got), plain(expected)):
            fail(f"{f.name}: {what} is {got!r}, expected {expected!r}")

    same("const", field.const, F.UNDEFINED if f.const is NOPE else kind.real(f.const))
    default = F.UNDEFINED
    if f.default is not NOPE:
        default = f.default
    elif f.factory is not None:
        default = f.factory()
    elif f.const is not NOPE:
        default = kind.real(f.const)
    same("default", field.default, default)
    same("allow_null", field.allow_null, f.null is not NOPE)
    null = F.UNDEFINED if f.null is NOPE else F.DEFAULT if f.null is DEFAULT else f.null
    same("null_value", field.null_value, null)
    same("discard", field.discard, f.discard)
    same("is_computed_field", field.is_computed_field, f.computed is not None)
    same("required", field.required, default is F.UNDEFINED and f.const is NOPE)
    same("not_present_value", plain(field.not_present_value), f.npv)
    if isinstance(kind, (Raw, Str, StrZ)) and isinstance(kind.size, str):
        size = field.size
        same("size", size.name if isinstance(size, F.Field) else size, kind.size)
    if isinstance(kind, Arr) and not isinstance(kind.count, tuple):
        count = field.count
        same("count", count.name if isinstance(count, F.Field) else count, kind.count)
    if isinstance(kind, (Str, StrZ)):
        same("encoding", field.encoding, kind.encoding)
        same("pad_byte", field.pad_byte, kind.pad)
    for attribute in ("endian", "signed", "tz_aware", "resolution", "max_bytes"):
        expected = getattr(kind, {"tz_aware": "aware", "resolution": "res"}.get(attribute, attribute), None)
        if hasattr(field, attribute) and expected is not None and not isinstance(kind, Own):
            same(attribute, field.__getattribute__(attribute), expected)
    if isinstance(kind, Nest) and field.struct_class is not kind.cls:
        fail(f"{f.name}: struct_class is {field.struct_class!r}")
    if isinstance(kind, Uni) and len(field.choices) != len(kind.alts):
        fail(f"{f.name}: choices are {field.choices!r}")


def omissions(spec, cls, assign, rec):
    """A field that isn't required can be left out, one that is can't."""
    from binobj import errors

    for f in spec.fields():
        field = getattr(cls, f.name)
        if f.name not in assign:
            if field.required and not field.is_computed_field and f.present is None:
                fail(f"{f.name} was left out, but says it's required")
            continue
        without = {n: v for n, v in assign.items() if n != f.name}
        inst = cls(**spec.real_values(without))
        how, got = attempt(inst.to_bytes)
        rec.step()
        try:
            expected = spec.dump(without)
        except Missing:
            if not field.required:
                fail(f"{f.name} says it isn't required; without: {how} {got!r}")
            if how == "ok" or not isinstance(got, errors.MissingRequiredValueError):
                fail(f"{f.name} is missing: {how} {got!r}")
        except (Bad, KeyError):
            continue
        else:
            if how == "err":
                fail(f"without {f.name}: {got!r}")
            if got != expected:
                fail(f"without {f.name}: {got!r}, expected {expected!r}")


STYLES = ("assign", "instance", "annotated", "class")


def styles(ch, rec):
    """Pairs of items in other styles and inherited in other ways."""
    first, second = ch.choose(ITEMS), ch.choose(ITEMS)
    style = ch.choose(STYLES)
    case = combine([first, second], style=style)
    if case is None:
        return
    fields = case.spec.own
    shape = ch.choose((
        "whole", "one and one", "empty between", "empty child", "empty parent", "three",
    ))
    cut = len(fields) // 2 or 1

    def part(fs, parent=None, name="S"):
        return Spec(fs, parent=parent, name=name, style=style if fs else "assign")

    if shape == "whole":
        spec = part(fields)
    elif shape == "one and one":
        spec = part(fields[cut:], part(fields[:cut], name="P"))
    elif shape == "empty between":
        spec = part(fields[cut:], part([], part(fields[:cut], name="P"), name="Q"))
    elif shape == "empty child":
        spec = part([], part(fields, name="P"))
    elif shape == "empty parent":
        spec = part(fields, part([], part([], name="Q"), name="P"))
    else:
        if len(fields) < 3:
            return
        grand = part(fields[:1], name="G")
        spec = part(fields[2:], part(fields[1:2], grand, name="P"))
    if not spec.fields() or (shape != "whole" and not spec.own and style != "assign"):
        if shape != "empty child":
            return
    cls = spec.build()
    check(spec, cls, case.assigns, rec)
    # The parent's own account hasn't changed, and its fields are at the same places.
    parent = spec.parent
    if parent is not None and parent.fields():
        base = cls.__mro__[1]
        check(parent, base, [], rec)
        for f in parent.fields():
            mine, its = getattr(cls, f.name), getattr(base, f.name)
            if (mine.offset, mine.index, mine.size) != (its.offset, its.index, its.size):
                fail(f"the inherited {f.name} is elsewhere than the parent's")


def declared(ch, rec):
    """Constants and nulls of all sorts, also those that are false."""
    import binobj
    from binobj import fields as F

    kind = ch.choose(KINDS)()
    if isinstance(kind, (Arr, Nest, Uni)):
        return
    what = ch.choose(("const", "null"))
    before = ch.flag()
    values = list(kind.values) if what == "const" else [None]
    if what == "const":
        for false in (0, "", b"", 0.0):
            if any(type(v) is type(false) for v in values):
                try:
                    kind.enc(false, {})
                except (Bad, KeyError):
                    continue
                values.append(false)
    elif not kind.fixed:
        return
    for v in values:
        rec.case = lambda: f"{what} {v!r} of {kind!r}"
        if what == "const":
            if v != v or (isinstance(v, bytes) and isinstance(kind, Str)):
                continue
            raw = kind.enc(v, {})
            how, field = attempt(lambda: kind.make(F, const=kind.real(v)))
            if how == "err":
                continue  # which constants can be declared is what C18 is about
        else:
            raw = b"\0" * kind.fixed
            field = kind.make(F, null_value=None)
        ns = {"x": field, "b": F.UInt8(default=1)}
        if before:
            ns = {"a": F.UInt8(default=1), **ns}
        cls = type("S", (binobj.Struct,), ns)
        at = 1 if before else 0
        given = {} if what == "const" else {"x": None}
        how, got = attempt(lambda: cls(**given).to_bytes())
        rec.step()
        if how == "err":
            if what == "const":
                continue
            fail(f"to_bytes: {got!r}")
        if got[at:-1] != raw:
            fail(f"dumped as {got[at:-1]!r}, expected {raw!r}")
        if what == "const":
            if (cls.x.const, cls.x.default) != (kind.real(v), kind.real(v)):
                fail(f"const {cls.x.const!r}, default {cls.x.default!r}")
            if cls.x.required or cls.x.allow_null:
                fail(f"required: {cls.x.required}, allow_null: {cls.x.allow_null}")
        else:
            if not cls.x.allow_null or cls.x.null_value not in (None, F.DEFAULT):
                fail(f"allow_null: {cls.x.allow_null}, null_value {cls.x.null_value!r}")
            if cls.from_bytes(got).x is not None:
                fail(f"null bytes are loaded as {cls.from_bytes(got).x!r}")
        if isinstance(kind, Own):
            continue
        if not cls.x.has_fixed_size or cls.x.size != len(raw):
            fail(f"size {cls.x.size!r}, it takes {len(raw)} bytes")
        if cls.x.offset != at or cls.b.offset != at + len(raw):
            fail(f"offsets {cls.x.offset} and {cls.b.offset}, it takes {len(raw)} bytes")
        if cls.get_size() != len(got):
            fail(f"the structure's size is {cls.get_size()}, it takes {len(got)} bytes")
        rec.state(what, repr(kind), repr(v), before)
    rec.traced()


def elements(ch, rec):
    """The size of an array follows from that of its elements, whatever else they say."""
    import binobj
    from binobj import fields as F

    class In(binobj.Struct):
        p = F.UInt8()
        q = F.UInt16()

    class Nul(binobj.Struct):
        p = F.UInt8(null_value=3, default=4)

    makers = {
        "byte": (lambda **kw: F.UInt8(**kw), 1, 3, 5),
        "number": (lambda **kw: F.Int32(endian="big", **kw), 4, 3, -5),
        "float": (lambda **kw: F.Float64(**kw), 8, 3.0, 0.5),
        "time": (
            lambda **kw: F.Timestamp32(tz_aware=True, **kw),
            4,
            *(datetime.datetime.fromtimestamp(n, datetime.timezone.utc) for n in (3, 5)),
        ),
        "bytes": (lambda **kw: F.Bytes(size=3, **kw), 3, b"abc", b"xyz"),
        "text": (lambda **kw: F.String(size=2, **kw), 2, "ab", "xy"),
        "padded": (lambda **kw: F.String(size=3, pad_byte=b" ", **kw), 3, "ab ", "xyz"),
        "ended": (lambda **kw: F.StringZ(size=3, pad_byte=b" ", **kw), 3, "ab", "x"),
        "uuid": (lambda **kw: F.UUID4(**kw), 16, *(uuid.UUID(int=n) for n in (3, 5))),
        "array": (lambda **kw: F.Array(F.UInt8(), count=2, **kw), 2, [1, 2], [3, 4]),
        "nullables": (
            lambda **kw: F.Array(F.UInt8(null_value=9), count=2, **kw), 2, [1, 2], [9, None]
        ),
        "nested": (lambda **kw: F.Nested(In, **kw), 3, {"p": 1, "q": 2}, {"p": 3, "q": 4}),
        "nullable in it": (lambda **kw: F.Nested(Nul, **kw), 1, {"p": 1}, {"p": None}),
    }
    name = ch.choose(sorted(makers))
    make, size, first, second = makers[name]
    option = ch.choose((
        "none", "null value", "null bytes", "null", "default", "factory", "validate", "discard",
        "const",
    ))  # fmt: skip
    structured = name in ("array", "nullables", "nested", "nullable in it")
    kw = {
        "none": lambda: {},
        "null value": lambda: {"null_value": first},
        "null bytes": lambda: {"null_value": b"\xfe" * size},
        "null": lambda: {"null_value": F.DEFAULT},
        "default": lambda: {"default": first},
        "factory": lambda: {"factory": lambda: first},
        "validate": lambda: {"validate": lambda field, value: None},
        "discard": lambda: {"discard": True},
        "const": lambda: {"const": second},
    }[option]()
    if option == "const" and structured:
        return
    count = ch.choose((0, 1, 2, 3))
    outer = ch.choose((None, 1, 2))
    before, after = ch.flag(), ch.flag()
    field = F.Array(make(**kw), count=count)
    value = [second] * count
    if option.startswith("null") and count > 1:
        value[1] = None
    total = size * count
    if outer is not None:
        field = F.Array(field, count=outer)
        value, total = [value] * outer, total * outer
    rec.case = lambda: f"{outer} x {count} x {name} with {option}"
    ns = {"x": field}
    if before:
        ns = {"a": F.UInt16(endian="big", default=7), **ns}
    if after:
        ns["b"] = F.UInt8(default=1)
    S = type("S", (binobj.Struct,), ns)
    at = 2 if before else 0
    whole = at + total + after
    if not S.x.has_fixed_size or S.x.size != total:
        fail(f"the size is {S.x.size!r}, expected {total}")
    if S.get_size() != whole or F.Nested(S).size != whole:
        fail(f"the structure's size is {S.get_size()!r}, expected {whole}")
    if S.x.offset != at or (after and S.b.offset != at + total):
        fail(f"the offsets are {S.x.offset!r} and {S.b.offset if after else 0!r}")
    inst = S(x=value)
    raw = inst.to_bytes()
    if len(raw) != whole or len(inst) != whole:
        fail(f"dumped as {len(raw)} bytes, len() is {len(inst)}, expected {whole}")
    if raw[:at] != b"\0\7"[:at] or raw[at + total :] != b"\1"[:after]:
        fail(f"dumped as {raw!r}")
    if after and S.get_field(io.BytesIO(raw), "b") != 1:
        fail("the field after it isn't found")
    rec.step(6)
    rec.traced()
    rec.state(name, option, count, outer, before, after)


def bodies(tier, seed):
    out = each_case(judge, families(tier))
    out["declared"] = declared
    out["elements"] = elements
    out["styles"] = styles
    return out
