"""C33: supported forms never warn, deprecated ones warn and still work."""

import datetime
import io
import typing
import warnings

from mc.lib import attempt
from mc.lib import fail
from mc.lib import modes
from mc.lib import note
from mc.model import plain
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "every kind of field in every position, all ordered pairs of items and all triples"
    " of small items: declared, made, dumped, measured, compared, exported, loaded completely and"
    " partially, with no warning, also when values are missing or unfit and data is cut; each of"
    " the deprecated forms in all places and with all results it can have, next to the form that"
    " replaces it; callable values of annotated attributes that aren't fields",
    "thorough": "also all quadruples of small items and all triples of items",
}
ASSUMPTIONS = [
    "which category of warning is given and where it points isn't looked at, except that"
    " deprecations are DeprecationWarnings",
]


class Watch:
    """Records warnings."""

    def __enter__(self):
        self.catcher = warnings.catch_warnings(record=True)
        self.log = self.catcher.__enter__()
        warnings.simplefilter("always")
        return self.log

    def __exit__(self, *exc):
        return self.catcher.__exit__(*exc)


def quiet(what, op):
    """Do it, with no warning."""
    with Watch() as log:
        got = attempt(op)
    if log:
        fail(f"{what} warns: {log[0].category.__name__}: {log[0].message}")
    return got


def loud(what, op):
    """Do it, with a deprecation warning."""
    with Watch() as log:
        got = attempt(op)
    if not any(issubclass(w.category, DeprecationWarning) for w in log):
        fail(f"{what} doesn't warn; result: {got!r}")
    return got


def judge(case, rec):
    spec = case.spec
    note(rec, spec)
    how, cls = quiet("declaring", spec.build)
    if how == "err":
        raise cls
    names = [f.name for f in spec.fields()]
    for assign in case.assigns:
        raw = b"".join(p or b"" for _f, p in spec.pieces(assign))
        for mode in modes(spec):
            real = spec.real_values(assign, mode)
            note(rec, spec, values=real, data=raw)
            how, inst = quiet("making", lambda: cls(**real))
            if how == "err":
                raise inst
            how, got = quiet("to_bytes", inst.to_bytes)
            if how == "err" or got != raw:
                fail(f"to_bytes: {got!r}, expected {raw!r}")
            quiet("to_stream", lambda: inst.to_stream(io.BytesIO()))
            quiet("partial_dump", lambda: inst.partial_dump(io.BytesIO()))
            quiet("len", lambda: len(inst))
            quiet("to_dict", inst.to_dict)
            quiet("to_dict", lambda: inst.to_dict(keep_discardable=True))
            quiet("repr", lambda: repr(inst))
            quiet("validation", inst.validate_contents)
            quiet("comparison", lambda: inst == cls(**real))
            quiet("comparison", lambda: inst != None)  # noqa: E711
            quiet("comparison", lambda: inst == inst.to_dict())
            for n in names:
                quiet(f"attribute {n}", lambda: getattr(inst, n))
                if n in real:
                    quiet(f"assigning {n}", lambda: setattr(inst, n, real[n]))
            rec.step()
        how, got = quiet("from_bytes", lambda: cls.from_bytes(raw))
        if how == "err":
            raise got
        quiet("to_bytes of what's loaded", got.to_bytes)
        quiet("from_stream", lambda: cls.from_stream(io.BytesIO(raw)))
        quiet("partial_load", lambda: cls.partial_load(io.BytesIO(raw)))
        quiet("get_size", cls.get_size)
        for n in names:
            quiet("get_field", lambda: cls.get_field(io.BytesIO(raw), n))
            quiet("partial_load", lambda: cls.partial_load(io.BytesIO(raw), n))
            quiet("partial_dump", lambda: inst.partial_dump(io.BytesIO(), n))
        for cut in sorted({0, 1, len(raw) // 2, len(raw) - 1} & set(range(len(raw)))):
            quiet("from_bytes of cut data", lambda: cls.from_bytes(raw[:cut]))
            quiet("partial_load of cut data", lambda: cls.partial_load(io.BytesIO(raw[:cut])))
        if not spec.greedy():
            quiet("surplus data", lambda: cls.from_bytes(raw + b"~"))
        for n in real:
            for other in ({k: v for k, v in real.items() if k != n}, {**real, n: None}):
                note(rec, spec, values=other)
                how, part = attempt(lambda: cls(**other))
                if how == "err":
                    continue
                quiet("to_bytes", part.to_bytes)
                quiet("len", lambda: len(part))
                quiet("to_dict", part.to_dict)
                quiet("partial_dump", lambda: part.partial_dump(io.BytesIO()))
                rec.step()
        rec.traced()
        rec.state(repr(spec), repr(assign))
    rec.sample(f"{spec!r}")


################################################################################
# Deprecated forms, next to those that replace them


class Maker:
    """A factory: an object that can be called."""

    def __init__(self, value):
        self.value = value

    def __call__(self):
        return self.value

    def method(self):
        return self.value


def makers(value):
    m = Maker(value)
    return {
        "function": lambda: value,
        "object": m,
        "method": m.method,
        "class": type("C", (), {"__new__": lambda cls: value}),
    }


def leaves():
    """What can have a default: constructor arguments, values."""
    import binobj
    from binobj import fields as F

    class Part(binobj.Struct):
        p = F.UInt8()

    return {
        "UInt8": (F.UInt8, {}, (5, 0)),
        "Int16": (F.Int16, {"endian": "big"}, (-2,)),
        "Float32": (F.Float32, {"endian": "big"}, (1.5, 0.0)),
        "Bytes": (F.Bytes, {"size": 2}, (b"xy", b"\0\0")),
        "String": (F.String, {"size": 3}, ("abc", "")) ,
        "StringZ": (F.StringZ, {"encoding": "utf-8"}, ("hé", "")),
        "nullable": (F.UInt8, {"null_value": 255}, (None, 4)),
        "Array": (lambda **kw: F.Array(F.UInt8(), **kw), {"count": 2}, ([1, 2],)),
        "Nested": (lambda **kw: F.Nested(Part, **kw), {}, ({"p": 4},)),
    }, Part


def show(cls, rec):
    """All that depends on a default."""
    out = []
    inst = cls()
    for op in (
        inst.to_bytes,
        lambda: len(inst),
        inst.to_dict,
        lambda: inst.x,
        lambda: plain(cls.x.default),
        lambda: cls.x.required,
        lambda: cls(x=cls().x).to_bytes(),
        lambda: cls.from_bytes(inst.to_bytes()).to_dict(),
    ):
        how, got = attempt(op)
        rec.step()
        out.append(type(got).__name__ if how == "err" else plain(got))
    return out


def callables(ch, rec):
    """Callables given as defaults."""
    import binobj
    from binobj import fields as F

    kinds, Part = leaves()
    name = ch.choose(tuple(kinds))
    make, options, values = kinds[name]
    form = ch.choose((
        "argument", "component", "annotated class", "annotated instance", "Annotated class",
        "Annotated instance", "Optional", "struct",
    ))
    i = ch.pick(2)
    if i >= len(values):
        return
    value = values[i]
    sort = ch.choose(("function", "object", "method", "class"))
    around = ch.flag()
    maker = makers(value)[sort]
    rec.case = lambda: f"{form} of {name}, default {sort} giving {value!r}, others: {around}"

    def declare(annotation=None, default=None, field=None, decorate=True):
        ns = {}
        if annotation is None:
            if around:
                ns["before"] = F.UInt8(default=1)
            ns["x"] = field
            if around:
                ns["after"] = F.StringZ(default="a")
            return type(binobj.Struct)("S", (binobj.Struct,), ns)
        notes = {}
        if around:
            notes["before"], ns["before"] = F.UInt8, 1
        notes["x"] = annotation
        if default is not None:
            ns["x"] = default
        if around:
            notes["after"], ns["after"] = F.StringZ, "a"
        ns["__annotations__"] = notes
        return binobj.dataclass(type(binobj.Struct)("S", (binobj.Struct,), ns))

    new = lambda: declare(field=make(factory=maker, **options))  # noqa: E731
    if form == "argument":
        old = lambda: declare(field=make(default=maker, **options))  # noqa: E731
    elif form == "component":
        # As the element of an array, a default isn't used; it's only accepted.
        old = lambda: declare(  # noqa: E731
            field=F.Array(make(default=maker, **options), count=1, factory=lambda: [value])
        )
        new = lambda: declare(  # noqa: E731
            field=F.Array(make(factory=maker, **options), count=1, factory=lambda: [value])
        )
    elif form in ("annotated class", "Annotated class", "Optional"):
        if name not in ("UInt8", "Int16", "Float32") or options and form == "Optional":
            return
        note_ = {
            "annotated class": make,
            "Annotated class": typing.Annotated[int, make],
            "Optional": typing.Optional[make],
        }[form]
        old = lambda: declare(note_, maker)  # noqa: E731
        extra = {"null_value": F.DEFAULT} if form == "Optional" else {}
        new = lambda: declare(field=make(factory=maker, **extra))  # noqa: E731
    elif form in ("annotated instance", "Annotated instance"):
        def old():
            field = make(**options)
            note_ = field if form == "annotated instance" else typing.Annotated[int, field]
            return declare(note_, maker)
    else:
        if name != "Nested":
            return
        old = lambda: declare(Part, maker)  # noqa: E731
    how, replaced = quiet("a factory", new)
    if how == "err":
        raise replaced
    how, kept = loud("a callable default", old)
    if how == "err":
        raise kept
    got, wanted = show(kept, rec), show(replaced, rec)
    if got != wanted:
        fail(f"it gives {got!r}, a factory {wanted!r}")
    rec.traced()
    rec.state(form, name, i, sort, around)


def undefined(ch, rec):
    """Comparing with UNDEFINED; the old name of get_expected_size."""
    import binobj
    from binobj import fields as F

    class S(binobj.Struct):
        a = F.UInt8(default=1)
        b = F.StringZ(default="b")
        c = F.Array(F.UInt8(), count=a)

    class Sub(S):
        d = F.UInt16(endian="big")

    cls = ch.choose((S, Sub))
    given = {n: v for n, v in (("a", 2), ("b", "x"), ("c", [1, 2])) if ch.flag()}
    removed = [n for n in given if ch.flag()]
    rec.case = lambda: f"{cls.__name__}({given}), then without {removed}"
    inst = cls(**given)
    for n in removed:
        del inst[n]
    left = set(given) - set(removed)
    for what, op, wanted in (
        ("== UNDEFINED", lambda: inst == F.UNDEFINED, not left),
        ("!= UNDEFINED", lambda: inst != F.UNDEFINED, bool(left)),
    ):
        how, got = loud(what, op)
        if how == "err" or got is not wanted:
            fail(f"{what}: {got!r}")
        rec.step()
    for n, field in cls.__binobj_struct__.components.items():
        values = {"a": 2, "b": "xy", "c": [1, 2], "d": 3}
        new = quiet("get_expected_size", lambda: field.get_expected_size(values))
        old = loud("_get_expected_size", lambda: field._get_expected_size(values))
        if new[0] != old[0] or (new[1] != old[1] if new[0] == "ok" else type(new[1]) is not type(old[1])):
            fail(f"{n}: _get_expected_size gives {old!r}, get_expected_size {new!r}")
        rec.step()
    rec.traced()
    rec.state(cls.__name__, tuple(given), tuple(removed))


def others(ch, rec):
    """Annotated attributes that aren't fields can have any value."""
    import binobj
    from binobj import fields as F

    value = ch.choose((len, lambda: 1, Maker(2), int, F.UInt16, 5, None))
    note_ = ch.choose((
        typing.Callable, typing.Callable[[], int], typing.ClassVar[typing.Any], typing.Any, int,
        typing.Annotated[typing.Any, "nothing"], typing.Optional[typing.Callable],
    ))
    first = ch.flag()
    parent = ch.flag()
    rec.case = lambda: f"attribute of type {note_!r}: {value!r}, first={first}, parent={parent}"

    def declare():
        notes = {"x": note_, "a": F.UInt8} if first else {"a": F.UInt8, "x": note_}
        bases = (binobj.Struct,)
        ns = {"x": value, "__annotations__": notes}
        if parent:
            plain_class = type("Plain", (), {"x": value, "__annotations__": {"x": note_}})
            bases = (plain_class, binobj.Struct) if first else (binobj.Struct, plain_class)
            ns = {"__annotations__": {"a": F.UInt8}}
        return binobj.dataclass(type(binobj.Struct)("S", bases, ns))

    how, cls = quiet("declaring", declare)
    if how == "err":
        raise cls
    if tuple(cls.__binobj_struct__.components) != ("a",) or cls.x is not value:
        fail(f"fields {tuple(cls.__binobj_struct__.components)}, x is {cls.x!r}")
    for op in (lambda: cls(a=1).to_bytes(), lambda: cls.from_bytes(b"\1").to_bytes()):
        if quiet("dumping", op) != ("ok", b"\1"):
            fail("it isn't dumped as one byte")
        rec.step()
    rec.traced()
    rec.state(repr(note_), repr(value)[:12], first, parent)


ZONES = (
    None,
    datetime.timezone.utc,
    datetime.timezone(datetime.timedelta(hours=2)),
    datetime.timezone(-datetime.timedelta(hours=3, minutes=30)),
)


def zones(ch, rec):
    """Timestamps with a zone where there should be none, and without where there should."""
    import binobj
    from binobj import fields as F

    aware = ch.flag()
    make = ch.choose((F.Timestamp32, F.Timestamp64, F.Timestamp))
    zone = ch.choose(ZONES)
    place = ch.choose(("field", "structure", "array", "nested", "null", "const", "default"))
    rec.case = lambda: f"{make.__name__}, tz_aware={aware}, {zone} in a {place}"
    value = datetime.datetime(2001, 2, 3, 4, 5, 6, tzinfo=zone)
    options = {"tz_aware": aware, "endian": "big"}
    if make is F.Timestamp:
        options["size"] = 8
    if place == "null":
        options["null_value"] = datetime.datetime(
            1999, 1, 1, tzinfo=datetime.timezone.utc if aware else None
        )
    field = make(**options, **({"name": "x"} if place == "field" else {}))
    if place == "field":
        op = lambda: field.to_bytes(value)  # noqa: E731
    elif place == "nested":
        class N(binobj.Struct):
            x = field

        class S(binobj.Struct):
            n = F.Nested(N)

        op = S(n=N(x=value)).to_bytes
    elif place == "array":
        class S(binobj.Struct):
            l = F.Array(field, count=2)

        op = S(l=[value, value]).to_bytes
    elif place in ("const", "default"):
        class S(binobj.Struct):
            y = make(**options, **{place: value})

        op = S().to_bytes
    else:
        class S(binobj.Struct):
            x = field

        op = S(x=value).to_bytes
    fits = aware == (zone is not None)
    how, got = (quiet if fits else loud)("dumping", op)
    if how == "err":
        fail(f"dumping: {got!r}")
    seconds = int(value.replace(tzinfo=zone or datetime.timezone.utc).timestamp())
    size = 4 if make is F.Timestamp32 else 8
    if not got.endswith(seconds.to_bytes(size, "big", signed=True)):
        fail(f"{value} is dumped as {got!r}")
    rec.step()
    rec.traced()
    rec.state(make.__name__, aware, repr(zone), place)


def bodies(tier, seed):
    out = each_case(judge, families(tier))
    out["callables"] = callables
    out["undefined"] = undefined
    out["others"] = others
    out["zones"] = zones
    return out
