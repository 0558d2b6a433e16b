"""C03: what can't be represented is refused."""

import datetime
import decimal
import fractions
import io
import itertools
import uuid

from mc.items import combine
from mc.items import ENCODINGS
from mc.items import ITEMS
from mc.items import KINDS
from mc.items import U8
from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.lib import short
from mc.model import ABSENT
from mc.model import Arr
from mc.model import Bad
from mc.model import FS
from mc.model import Int
from mc.model import Missing
from mc.model import Nest
from mc.model import NOPE
from mc.model import plain
from mc.model import Raw
from mc.model import Spec
from mc.model import Str
from mc.model import StrZ
from mc.model import Uni
from mc.model import VarInt

BOUNDS = {
    "quick": "integers of 1-9 and 16 bytes at all values +-2**k+d (|d|<=2) up to 9 bits over"
    " their width; all strings of up to 3 characters over a 7-letter alphabet (1 to 4 bytes"
    " each) in 9 encodings, sizes 0 to 6, padded or not; byte strings of all lengths up to"
    " size+3; in 9 positions (alone, in structures, arrays, nested, unions, defaults,"
    " constants, after a size field); every required field missing in all pairs of items; 44 values of other"
    " types for every kind in every position",
    "thorough": "the same with strings of up to 4 characters and sizes up to 9",
}
ASSUMPTIONS = [
    "floats are rounded to their precision, as documented",
    "which exception a value of a wrong type raises is unspecified",
    "values of a wrong type that are equal to a representable one (1.0, True) may be taken for it",
]


def int_values(kind):
    out = set()
    for k in range(0, 8 * kind.size + 10):
        for d in (-2, -1, 0, 1, 2):
            out.add(2**k + d)
            out.add(-(2**k) + d)
    if kind.size == 1:
        out.update(range(-300, 600))
    return sorted(out)


def text_kinds(top):
    for enc in ENCODINGS:
        space = " ".encode("cp037") if enc == "cp037" else b" "
        for size in range(top + 1):
            for pad in (None, space):
                yield lambda a=(size, enc, pad): Str(*a)
                yield lambda a=(enc, size, pad): StrZ(*a)


LETTERS = ["A", "\u00e9", "\u0416", "\u3042", "\U0001f600", "\0", "\ud800", "\udc80"]


def texts(top):
    out = []
    for n in range(top + 1):
        out += ["".join(t) for t in itertools.product(LETTERS, repeat=n)]
    return out


TEXTS = {}


def judge_field(field, kind, v, env, rec, real=None):
    """One value through Field.to_stream: the encoding, or an error and no output."""
    from binobj import errors

    out = io.BytesIO(b"##")
    out.seek(2)
    how, got = attempt(field.to_stream, out, v if real is None else real, None, env)
    written = out.getvalue()[2:]
    try:
        expected = kind.enc(v, env)
    except Bad:
        if how == "ok":
            fail(f"{v!r} is accepted and written as {short(written)}")
        if not isinstance(got, errors.SerializationError):
            fail(f"{v!r} raises {got!r}, which isn't a SerializationError")
        if written:
            fail(f"{v!r} is refused but {short(written)} is written")
    else:
        if how != "ok":
            fail(f"{v!r} is refused: {got!r}")
        if written != expected:
            fail(f"{v!r} is written as {short(written)}, expected {short(expected)}")
    rec.step()
    rec.outcome(kind.name, how, type(got).__name__)


def ints(ch, rec):
    from binobj import fields as F

    size = ch.choose((1, 2, 3, 4, 5, 6, 7, 8, 9, 16))
    kind = Int(size, ch.flag(), ch.choose(("big", "little")), generic=ch.flag())
    field = kind.make(F, name="x")
    for v in int_values(kind):
        rec.case = lambda: f"field {kind!r}, value {v}"
        judge_field(field, kind, v, {}, rec)
        rec.state(kind.name, v)
    rec.traced()


def strings_body(top_text, top_size):
    kinds = list(text_kinds(top_size))
    all_texts = texts(top_text)

    def body(ch, rec):
        from binobj import fields as F

        kind = ch.choose(kinds)()
        field = kind.make(F, name="x")
        by_ref = type(kind)(
            **{"size": "n", "encoding": kind.encoding, "pad": kind.pad, "values": []}
        )
        ref_field = by_ref.make(F, name="x")
        for v in all_texts:
            rec.case = lambda: f"field {kind!r}, value {v!r}"
            judge_field(field, kind, v, {}, rec)
            judge_field(ref_field, by_ref, v, {"n": kind.size}, rec)
            rec.state(kind.name, v)
        rec.traced()

    return body


def raws(ch, rec):
    from binobj import fields as F

    size = ch.choose((0, 1, 2, 3, 7, 255, 256, 257))
    kind = Raw(size)
    field = kind.make(F, name="x")
    ref = Raw("n", values=[])
    ref_field = ref.make(F, name="x")
    for n in sorted({*range(0, size + 4), *range(250, 260), 512}):
        for fill in (b"\0", b" ", b"\xff"):
            v = fill * n
            rec.case = lambda: f"field {kind!r}, value {v!r}"
            judge_field(field, kind, v, {}, rec)
            judge_field(field, kind, v, {}, rec, bytearray(v))
            judge_field(ref_field, ref, v, {"n": size}, rec)
            rec.state(kind.name, v)
    rec.traced()


# The same, in the positions a field can be in.


def bad_values(kind):
    if isinstance(kind, (Str, StrZ)):
        out = []
        for v in texts(2) + ["AAAAAAAAAAAAA", "A" * 13, "\u00e9" * 9]:
            try:
                kind.enc(v, {})
            except Bad:
                out.append(v)
        return out
    return list(kind.bad)


def p_plain(k, v):
    return Spec([FS("a", U8()), FS("x", k), FS("b", U8())]), {"a": 1, "x": v, "b": 2}


def p_array(k, v):
    s = Spec([FS("z", StrZ()), FS("x", Arr(k, 3, values=[])), FS("b", U8())])
    ok = k.values[0]
    return s, {"z": "q", "x": [ok, v, ok], "b": 2}


def p_array_free(k, v):
    s = Spec([FS("a", U8()), FS("x", Arr(k, None, values=[]))])
    return s, {"a": 3, "x": [k.values[0], v]}


def p_nested(k, v):
    inner = Spec([FS("i", U8()), FS("j", k)], name="In")
    s = Spec([FS("a", U8()), FS("x", Nest(inner, [])), FS("b", U8())])
    return s, {"a": 3, "x": {"i": 4, "j": v}, "b": 1}


def p_union(k, v):
    s = Spec([FS("t", U8()), FS("x", Uni([U8(), k], "t")), FS("b", U8())])
    return s, {"t": 1, "x": v, "b": 1}


def p_default(k, v):
    s = Spec([FS("a", U8()), FS("x", k, default=v), FS("b", U8())])
    return s, {"a": 1, "b": 1}


def p_factory(k, v):
    s = Spec([FS("a", U8()), FS("x", k, factory=lambda: v), FS("b", U8())])
    return s, {"a": 1, "b": 1}


def p_computed(k, v):
    s = Spec([FS("a", U8()), FS("x", k, computed=lambda env: v), FS("b", U8())])
    return s, {"a": 1, "b": 1}


def p_child(k, v):
    s = Spec([FS("b", U8())], parent=Spec([FS("a", U8()), FS("x", k)], name="P"), name="C")
    return s, {"a": 1, "x": v, "b": 2}


def p_nullable(k, v):
    return (
        Spec([FS("a", U8()), FS("x", k, null=b"\xee" * (k.fixed or 3)), FS("b", U8())]),
        {"a": 1, "x": v, "b": 2},
    )


POSITIONS = [
    p_plain,
    p_array,
    p_array_free,
    p_nested,
    p_union,
    p_default,
    p_factory,
    p_computed,
    p_child,
    p_nullable,
]


def judge_struct(spec, assign, target, rec, real=None):
    """A structure whose field ``target`` can't be dumped."""
    from binobj import errors

    cls = spec.build()
    if real is None:
        real = spec.real_values(assign)
    inst = cls(**real)
    try:
        spec.dump(assign)
    except Bad:
        pass
    else:
        return False
    before = b""
    try:
        resolved, env = spec.resolve(assign)
        for f, v in resolved:
            if f.name == target:
                break
            before += b"" if v is ABSENT else f.enc(v, env)
    except (Bad, KeyError):
        before = None  # what's before depends on what's missing
    for op in (inst.to_stream, lambda s: inst.partial_dump(s, target)):
        out = io.BytesIO()
        how, got = attempt(op, out)
        if how == "ok":
            fail(f"accepted and written as {short(out.getvalue())}")
        if not isinstance(got, errors.SerializationError):
            fail(f"raises {got!r}, which isn't a SerializationError")
        if before is not None and not before.startswith(out.getvalue()):
            fail(f"refused, but {short(out.getvalue())} is written; before it is {short(before)}")
        rec.step()
    how, got = attempt(inst.to_bytes)
    if how == "ok":
        fail(f"to_bytes gives {short(got)}")
    rec.step()
    rec.outcome(type(got).__name__)
    return True


def placed(ch, rec):
    kind = ch.choose(KINDS)()
    position = ch.choose(POSITIONS)
    if position is p_array and not kind.values:
        return
    if position is p_array_free and (not kind.values or kind.fixed == 0):
        return
    for v in bad_values(kind):
        spec, assign = position(kind, v)
        note(rec, spec, values=assign)
        if judge_struct(spec, assign, "x", rec):
            rec.state(repr(spec), repr(assign))
            rec.traced()
    rec.sample(f"{position.__name__} {kind!r} {bad_values(kind)[:3]!r}")


def missing(ch, rec):
    """Each required value missing, and None where it isn't allowed."""
    makers = [ch.choose(ITEMS), ch.choose(ITEMS)]
    case = combine(makers)
    if case is None:
        return
    spec = case.spec
    for assign in case.assigns[:3]:
        for name in assign:
            f = spec.field(name)
            without = {k: v for k, v in assign.items() if k != name}
            note(rec, spec, values=without, missing=name)
            try:
                spec.dump(without)
            except (Missing, KeyError):
                judge_struct_missing(spec, without, rec)
            except Bad:
                pass
            if f.null is NOPE and f.present is None:
                real = spec.real_values(assign)
                real[name] = None
                note(rec, spec, values=real)
                judge_none(spec, real, name, rec)
            rec.state(repr(spec), repr(assign), name)
        rec.traced()


def judge_struct_missing(spec, assign, rec):
    from binobj import errors

    cls = spec.build()
    inst = cls(**spec.real_values(assign))
    out = io.BytesIO()
    how, got = attempt(inst.to_stream, out)
    if how == "ok":
        fail(f"a structure with a missing value is written as {short(out.getvalue())}")
    if not isinstance(got, errors.SerializationError):
        fail(f"a missing value raises {got!r}, which isn't a SerializationError")
    rec.step()


def judge_none(spec, real, name, rec):
    from binobj import errors

    used = {f.kind.size for f in spec.fields() if hasattr(f.kind, "size")}
    used |= {f.kind.count for f in spec.fields() if isinstance(f.kind, Arr)}
    used |= {f.kind.tag for f in spec.fields() if isinstance(f.kind, Uni)}
    if name in used or any(f.computed or f.present for f in spec.fields()):
        return  # callbacks and sizes would be given None first
    out = io.BytesIO()
    how, got = attempt(spec.build()(**real).to_stream, out)
    if how == "ok":
        fail(f"None in {name} is written as {short(out.getvalue())}")
    if not isinstance(got, errors.SerializationError):
        fail(f"None in {name} raises {got!r}, which isn't a SerializationError")
    rec.step()


def counts(ch, rec):
    """Arrays of the wrong length, given in every way."""
    from binobj import errors
    from binobj import fields as F
    import binobj

    n = ch.choose((0, 1, 2, 3))
    given = ch.choose((0, 1, 2, 3, 4, 6))
    source = ch.choose(("int", "name", "field"))
    shape = ch.choose((list, tuple, iter, lambda xs: (x for x in xs), dict.fromkeys))
    alone = ch.flag()
    values = list(range(10, 10 + given))
    rec.case = lambda: f"count {n} ({source}), {given} elements as {shape}, alone={alone}"

    size = F.UInt8()
    count = {"int": n, "name": "n", "field": size}[source]

    class S(binobj.Struct):
        n = size
        x = F.Array(F.UInt16(endian="big"), count=count)
        b = F.UInt8()

    out = io.BytesIO()
    if alone:
        how, got = attempt(S.x.to_stream, out, shape(values), None, {"n": n})
        before, after = b"", b""
    else:
        how, got = attempt(S(n=n, x=shape(values), b=7).to_stream, out)
        before, after = bytes([n]), b"\7"
    if given == n:
        body = b"".join(bytes([0, v]) for v in values)
        if how != "ok" or out.getvalue() != before + body + after:
            fail(f"{how} {got!r} {short(out.getvalue())}")
    else:
        if how == "ok":
            fail(f"accepted and written as {short(out.getvalue())}")
        if not isinstance(got, errors.SerializationError):
            fail(f"raises {got!r}, which isn't a SerializationError")
        if out.getvalue() not in (before, b""):
            fail(f"refused, but {short(out.getvalue())} is written")
    rec.step()
    rec.traced()
    rec.state(n, given, source, repr(shape), alone)


def sizes(ch, rec):
    """Values that do and don't have the size another field says, negative ones included."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    signed = ch.flag()
    number = F.Int8() if signed else F.UInt8()
    by_name = ch.flag()
    size = "n" if by_name else number
    how_made = ch.choose(("bytes", "text", "padded", "array", "union", "nested"))
    decide = {
        "load_decider": lambda s, c, *_: c[0],
        "dump_decider": lambda d, c, *_: c[0],
    }
    field = {
        "bytes": lambda: F.Bytes(size=size),
        "text": lambda: F.String(size=size, encoding="ascii"),
        "padded": lambda: F.String(size=size, encoding="ascii", pad_byte=b"."),
        "array": lambda: F.Array(F.Bytes(size=size), count=1),
        "union": lambda: F.Union(F.Bytes(size=size), **decide),
        "nested": lambda: F.Bytes(size=size),
    }[how_made]()
    inner = type("S", (binobj.Struct,), {"n": number, "x": field, "b": F.UInt8()})
    cls = type("T", (binobj.Struct,), {"s": F.Nested(inner)}) if how_made == "nested" else inner
    for n in (*((-128, -4, -3, -2, -1) if signed else (253, 255)), 0, 1, 2, 3, 4, 127):
        for length in range(5):
            raw = b"abcd"[:length]
            text = how_made in ("text", "padded")
            value = raw.decode() if text else [raw] if how_made == "array" else raw
            values = {"n": n, "x": value, "b": 7}
            if how_made == "nested":
                values = {"s": values}
            fits = length == n or (how_made == "padded" and 0 <= length <= n)
            head = bytes([n % 256])
            want = head + raw.ljust(max(n, 0), b".") + b"\7" if fits else None
            ways = {
                "to_bytes": lambda out: out.write(cls(**values).to_bytes()),
                "to_stream": lambda out: cls(**values).to_stream(out),
                "partial_dump": lambda out: cls(**values).partial_dump(out),
            }
            if how_made != "nested":
                ways["field"] = lambda out: (
                    out.write(head),
                    field.to_stream(out, value, None, {"n": n}),
                    out.write(b"\7"),
                )
            for way, run in ways.items():
                rec.case = lambda: (
                    f"{way}: {how_made} {value!r}, the {'signed' if signed else 'unsigned'} n says"
                    f" {n}, {'by name' if by_name else 'by field'}"
                )
                out = io.BytesIO()
                how, got = attempt(run, out)
                if fits and (how != "ok" or out.getvalue() != want):
                    fail(f"{how} {got!r} {short(out.getvalue())}, expected {short(want)}")
                if not fits:
                    if how == "ok":
                        fail(f"accepted and written as {short(out.getvalue())}")
                    if not isinstance(got, errors.SerializationError):
                        fail(f"raises {got!r}, which isn't a SerializationError")
                    if out.getvalue() not in (b"", head):
                        fail(f"refused, but {short(out.getvalue())} is written")
                rec.step()
            rec.state(signed, by_name, how_made, n, length)
    rec.traced()


# Values of a type the field isn't made for.


class Odd:
    def __repr__(self):
        return "Odd()"


ODD = [
    1.5,
    -0.5,
    1.0,
    1e300,
    float("nan"),
    float("inf"),
    1j,
    decimal.Decimal("1"),
    decimal.Decimal("1.5"),
    fractions.Fraction(3, 2),
    True,
    0,
    -1,
    3,
    300,
    2**70,
    "1",
    "",
    "ab",
    "abc",
    b"1",
    b"",
    b"ab",
    b"abc",
    [],
    [1],
    [1.5, 2.5, 3.5],
    ["a", "b", "c"],
    [b"a", b"b", b"c"],
    [None, None],
    (),
    (1, 2, 3),
    {},
    {"zz": 1},
    {1: 2, 3: 4, 5: 6},
    {"a", "b"},
    datetime.datetime(2020, 1, 1, 12, tzinfo=datetime.timezone.utc),
    datetime.date(2020, 1, 1),
    datetime.timedelta(1),
    uuid.UUID(int=5),
    range(3),
    int,
    len,
    Odd(),
]


def the_same_value(got, given):
    """Is ``got`` what was given, as a value of the type the field is for?"""
    if got == given or (got != got and given != given):
        return True
    if isinstance(got, (list, tuple)):
        how, items = attempt(list, given)
        return (
            how == "ok"
            and len(items) == len(got)
            and all(the_same_value(g, w) for g, w in zip(got, items))
        )
    if isinstance(got, datetime.datetime) and isinstance(given, datetime.datetime):
        return got.replace(tzinfo=None) == given.replace(tzinfo=None)
    if isinstance(got, str) and isinstance(given, str):
        return got.rstrip(" \0") == given.rstrip(" \0")
    return False


def odd(ch, rec):
    """Either it's refused and nothing is written, or it loads back as it was."""
    from binobj import fields as F

    kind = ch.choose(KINDS)()
    if type(kind).__module__ != Int.__module__:
        return  # user-defined fields convert as they like
    if isinstance(kind, Arr) and not isinstance(kind.count, (int, type(None))):
        return  # the terminating element is part of the value
    hows = [p for p in POSITIONS if p is not p_nullable]
    host = ch.choose([None, *hows])
    if host is p_array and not kind.values:
        return
    if host is p_array_free and (not kind.values or kind.fixed == 0):
        return
    for v in ODD:
        if callable(v) and host is p_default:
            continue  # a factory
        note(rec, Spec([FS("x", kind)]), value=v, position=host and host.__name__)
        out = io.BytesIO()
        if host is None:
            field = kind.make(F, name="x")
            how, got = attempt(field.to_stream, out, v)
            if how == "ok":
                how, got = attempt(field.from_bytes, out.getvalue())
                if how != "ok" or not the_same_value(got, v):
                    fail(f"{v!r} is written as {short(out.getvalue())}, that's {got!r}")
            elif out.getvalue():
                fail(f"{v!r} is refused ({got!r}), but {short(out.getvalue())} is written")
        else:
            spec, assign = host(kind, v)
            how, cls = attempt(spec.build)
            if how != "ok":
                continue  # refused as a default
            how, inst = attempt(lambda: cls(**spec.real_values(assign)))
            if how != "ok":
                continue
            how, got = attempt(inst.to_bytes)
            if how == "ok":
                raw = got
                how, back = attempt(cls.from_bytes, raw)
                want = assign.get("x", v)
                got = getattr(back, "x", back)
                if host is p_nested:
                    want, got = v, getattr(got, "j", got)
                if how != "ok" or not the_same_value(plain(got), want):
                    fail(f"{want!r} is written as {short(raw)}, that's {got!r}")
        rec.step(2)
        rec.state(repr(kind), repr(v), host and host.__name__)
        rec.outcome(kind.name, how)
    rec.traced()


def bodies(tier, seed):
    big = tier == "thorough"
    return {
        "ints": ints,
        "strings": strings_body(4 if big else 3, 9 if big else 6),
        "raws": raws,
        "placed": placed,
        "missing": missing,
        "counts": counts,
        "sizes": sizes,
        "odd": odd,
    }
