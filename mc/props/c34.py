"""C34: nothing depends on how long, how deep or how many."""

import io
import types

from mc.lib import attempt
from mc.lib import fail
from mc.model import ABSENT
from mc.model import enc_compact
from mc.model import enc_leb
from mc.model import enc_uleb
from mc.model import enc_vlq
from mc.model import plain

BOUNDS = {
    "quick": "29 sorts of fields with contents of all lengths up to 9 and around all powers of two"
    " up to 2**16 (up to 2**12 elements in arrays of composite values, 2**11 bytes in numbers),"
    " in 4 places, from 4 sorts of streams, with cuts around all powers of two; structures of up"
    " to 520 fields; chains of up to 40 classes; 40 levels of nesting of 5 sorts; up to 5000"
    " different values through one class, in 11 sorts of fields, all kept until the end",
    "thorough": "lengths up to 2**20 (2**14 elements), 1100 fields, 70 levels, 70000 values",
}
ASSUMPTIONS = [
    "the contents at each length are periodic patterns with a period that's not a power of two",
    "what a length, a depth or a number could matter for depends on powers of two",
]


def around(limit):
    """Lengths at which something could change."""
    out = set(range(10))
    k = 8
    while k <= limit:
        out |= {k - 1, k, k + 1}
        k *= 2
    return sorted(n for n in out if n <= limit + 1)


def pattern(n):
    return bytes((i * 7 + i // 251) % 256 for i in range(n))


def letters(n, chars):
    return "".join(chars[(i + i // 61) % len(chars)] for i in range(n))


def shape(F, binobj, sort, n):
    """(fields that come before, the field's maker, value, bytes, later fields), or None."""
    u32 = n.to_bytes(4, "big")
    text = letters(n, "abcdefghijklm")
    if sort == "Bytes":
        return {}, lambda ns: F.Bytes(size=n), pattern(n), pattern(n)
    if sort == "Bytes by field":
        return (
            {"n": (lambda: F.UInt32(endian="big"), n, u32)},
            lambda ns: F.Bytes(size=ns["n"]),
            pattern(n),
            pattern(n),
        )
    if sort == "String":
        return {}, lambda ns: F.String(size=n), text, text.encode()
    if sort == "String of 2 bytes":
        t = letters(n // 2, "éüñø") + "x" * (n % 2)
        return {}, lambda ns: F.String(size=n, encoding="utf-8"), t, t.encode()
    if sort == "String padded":
        t = letters(n // 2, "éx€")
        t = t.encode()[:n].decode(errors="ignore")
        raw = t.encode()
        return (
            {},
            lambda ns: F.String(size=n, encoding="utf-8", pad_byte=b" "),
            t,
            raw + b" " * (n - len(raw)),
            t + " " * (n - len(raw)),
        )
    for name, encoding, chars in (
        ("StringZ ascii", "ascii", "abcdefg"),
        ("StringZ utf-8", "utf-8", "aé€😀b"),
        ("StringZ utf-16", "utf-16-le", "aé€😀b"),
        ("StringZ latin", "iso-8859-1", "aéb"),
    ):
        if sort == name:
            t = letters(n, chars)
            return {}, lambda ns: F.StringZ(encoding=encoding), t, (t + "\0").encode(encoding)
    if sort == "StringZ of a size":
        t = letters(max(n - 1, 0), "abc")
        if not n:
            return None
        return {}, lambda ns: F.StringZ(size=n, encoding="ascii"), t, t.encode() + b"\0"
    if sort == "StringZ padded":
        t = letters(n // 3, "abc")
        if not n:
            return None
        raw = t.encode() + b"\0"
        return (
            {},
            lambda ns: F.StringZ(size=n + 3, encoding="ascii", pad_byte=b"#"),
            t,
            raw + b"#" * (n + 3 - len(raw)),
        )
    if sort == "null representation":
        if not n:
            return None
        raw = bytes(1 + b % 255 for b in pattern(n))
        return {}, lambda ns: F.StringZ(encoding="latin-1", null_value=raw), None, raw
    if sort == "null of a size":
        return {}, lambda ns: F.Bytes(size=n, null_value=F.DEFAULT), None, b"\0" * n
    if sort == "constant":
        return {}, lambda ns: F.Bytes(const=pattern(n)), pattern(n), pattern(n)
    if sort == "Integer":
        if not 0 < n <= 2050:
            return None
        v = int.from_bytes(b"\x01" + pattern(n - 1), "big")
        return {}, lambda ns: F.Integer(size=n, endian="big"), v, v.to_bytes(n, "big")
    if sort == "Integer negative":
        if not 0 < n <= 2050:
            return None
        v = -int.from_bytes(b"\x01" + pattern(n - 1), "big")
        return (
            {},
            lambda ns: F.Integer(size=n, endian="little"),
            v,
            v.to_bytes(n, "little", signed=True),
        )
    from binobj import varints

    for name, encoding, enc in (
        ("VLQ", varints.VarIntEncoding.VLQ, enc_vlq),
        ("ULEB128", varints.VarIntEncoding.ULEB128, enc_uleb),
        ("LEB128", varints.VarIntEncoding.LEB128, enc_leb),
        ("compact", varints.VarIntEncoding.COMPACT_INDICES, enc_compact),
    ):
        if sort == name:
            if not 0 < n <= 2050:
                return None
            v = int.from_bytes(b"\x5a" + pattern(n - 1), "big")
            if encoding in (varints.VarIntEncoding.LEB128, varints.VarIntEncoding.COMPACT_INDICES):
                v = -v if n % 3 else v
            return {}, lambda ns: F.VariableLengthInteger(vli_format=encoding), v, enc(v)
    if sort == "Array of bytes":
        return {}, lambda ns: F.Array(F.UInt8(), count=n), list(pattern(n)), pattern(n)
    if sort == "Array by field":
        return (
            {"n": (lambda: F.UInt32(endian="big"), n, u32)},
            lambda ns: F.Array(F.UInt8(), count=ns["n"]),
            list(pattern(n)),
            pattern(n),
        )
    if sort == "Array by rule":
        v = [1 + b % 255 for b in pattern(n)]
        return (
            {},
            lambda ns: F.Array(
                F.UInt8(), halt_check=lambda a, s, got, c, f: bool(got) and got[-1] == 0
            ),
            [*v, 0],
            bytes(v) + b"\0",
        )
    if sort == "Array to the end":
        return {}, lambda ns: F.Array(F.UInt16(endian="big")), [i % 65536 for i in range(n)], b"".join(
            (i % 65536).to_bytes(2, "big") for i in range(n)
        )
    if sort == "Array of text":
        if n > 5000:
            return None
        v = [letters(i % 5, "xyz") for i in range(n)]
        return (
            {},
            lambda ns: F.Array(F.StringZ(encoding="ascii"), count=n),
            v,
            b"".join(t.encode() + b"\0" for t in v),
        )
    if sort in ("Array of structures", "Array of unions", "Array of nulls"):
        if n > 5000:
            return None

        class Part(binobj.Struct):
            a = F.UInt8()
            t = F.StringZ(encoding="ascii")

        if sort == "Array of nulls":
            v = [None if i % 3 else i % 200 for i in range(n)]
            return (
                {},
                lambda ns: F.Array(F.UInt8(null_value=255), count=n),
                v,
                bytes(255 if i is None else i for i in v),
            )
        v = [{"a": i % 256, "t": letters(i % 3, "pq")} for i in range(n)]
        raw = b"".join(bytes([e["a"]]) + e["t"].encode() + b"\0" for e in v)
        if sort == "Array of structures":
            return {}, lambda ns: F.Array(F.Nested(Part), count=n), v, raw
        pick = lambda *a: a[1][0]  # noqa: E731
        return (
            {},
            lambda ns: F.Array(F.Union(Part, load_decider=pick, dump_decider=pick), count=n),
            v,
            raw,
        )
    raise AssertionError(sort)


SORTS = (
    "Bytes", "Bytes by field", "String", "String of 2 bytes", "String padded", "StringZ ascii",
    "StringZ utf-8", "StringZ utf-16", "StringZ latin", "StringZ of a size", "StringZ padded",
    "null representation", "null of a size", "constant", "Integer", "Integer negative", "VLQ",
    "ULEB128", "LEB128", "compact", "Array of bytes", "Array by field", "Array by rule",
    "Array to the end", "Array of text", "Array of structures", "Array of unions",
    "Array of nulls",
)


class Raw(io.RawIOBase):
    """Data in memory, as an unbuffered file."""

    def __init__(self, data):
        super().__init__()
        self.inner = io.BytesIO(data)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        return self.inner.seek(offset, whence)

    def tell(self):
        return self.inner.tell()

    def readinto(self, b):
        return self.inner.readinto(b)


def streams(data):
    yield "memory", io.BytesIO(data)
    for size in (1, 13, 4096):
        yield f"buffer of {size}", io.BufferedReader(Raw(data), size)


def lengths(limit):
    sizes = around(limit)

    def body(ch, rec):
        import binobj
        from binobj import errors
        from binobj import fields as F

        sort = ch.choose(SORTS)
        n = ch.choose(sizes)
        place = ch.choose(("alone", "between", "nested", "elements"))
        rec.case = lambda: f"{sort} of length {n}, {place}"
        if place != "alone" and n > 5000:
            return
        made = shape(F, binobj, sort, n)
        if made is None:
            return
        before, make, value, raw, *back = made
        back = back[0] if back else value
        greedy = sort == "Array to the end"
        if greedy and place != "alone":
            return
        ns, values, head = {}, {}, b""
        if place != "alone":
            ns["first"] = F.UInt8()
            values["first"] = 200
            head += b"\xc8"
        for name, (field, v, r) in before.items():
            ns[name] = field()
            values[name] = v
            head += r
        ns["x"] = make(ns)
        if sort != "constant":
            values["x"] = value
        tail = b""
        if place != "alone":
            ns["last"] = F.UInt16(endian="big")
            values["last"] = 0x1234
            tail = b"\x12\x34"
        S = type(binobj.Struct)("S", (binobj.Struct,), ns)
        one = head + raw + tail
        full = {**values, "x": back}
        whole, contents, cls, x_of = one, values, S, lambda i: i.x
        loaded = full
        if place == "nested":
            class Outer(binobj.Struct):
                part = F.Nested(S)
                end = F.UInt8()

            whole, contents, cls = one + b"\x07", {"part": values, "end": 7}, Outer
            loaded = {"part": full, "end": 7}
            x_of = lambda i: i.part.x  # noqa: E731
        elif place == "elements":
            class Outer(binobj.Struct):
                parts = F.Array(F.Nested(S), count=2)
                end = F.UInt8()

            whole, contents, cls = one + one + b"\x07", {"parts": [values] * 2, "end": 7}, Outer
            loaded = {"parts": [full] * 2, "end": 7}
            x_of = lambda i: i.parts[1].x  # noqa: E731

        inst = cls(**contents)
        got = inst.to_bytes()
        if got != whole:
            fail(f"dumped as {len(got)} bytes, expected {len(whole)}; {differ(got, whole)}")
        if len(inst) != len(whole):
            fail(f"len() is {len(inst)}, there are {len(whole)} bytes")
        size = cls.get_size()
        if size is not None and size != len(whole):
            fail(f"get_size() is {size}, there are {len(whole)} bytes")
        out = io.BytesIO()
        inst.to_stream(out)
        inst.partial_dump(out)
        if out.getvalue() != whole + whole:
            fail("to_stream or partial_dump write something else")
        rec.step(4)
        again = cls.from_bytes(whole)
        got = plain(again)
        if got != loaded:
            fail("something else is loaded")
        if type(x_of(again)) is not type(back):
            fail(f"{type(x_of(again))} is loaded")
        if again.to_bytes() != whole:
            fail("what was loaded is dumped differently")
        rec.step(2)
        extra = b"" if greedy else b"~~"
        for what, stream in streams(b"abc" + whole + extra):
            stream.seek(3)
            if plain(cls.from_stream(stream)) != loaded:
                fail(f"something else is loaded from a stream ({what})")
            if stream.tell() != 3 + len(whole):
                fail(f"the stream ({what}) is left at {stream.tell() - 3}, not {len(whole)}")
            stream.seek(3)
            for name in ("last", "x") if place in ("alone", "between") else ("end",):
                if name in cls.__binobj_struct__.components:
                    got = cls.get_field(stream, name)
                    if plain(got) != loaded[name]:
                        fail(f"get_field({name}) gives something else ({what})")
                    if stream.tell() != 3:
                        fail(f"get_field leaves the stream at {stream.tell() - 3}")
            rec.step(2)
        if not greedy:
            how, got = attempt(cls.from_bytes, whole + b"~")
            if how == "ok" or not isinstance(got, errors.ExtraneousDataError):
                fail(f"surplus data: {how}")
        cuts = sorted({
            c
            for k in around(len(whole))
            for c in (k, len(whole) - k)
            if 0 <= c < len(whole)
        })
        if len(whole) > 5000:
            cuts = cuts[::4] + cuts[-1:]
        null = value is None
        for cut in cuts:
            if greedy and cut % 2 == 0:
                continue
            if null and sort == "null of a size":
                pass
            how, got = attempt(cls.from_bytes, whole[:cut])
            if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
                fail(f"cut at {cut} of {len(whole)}: {how} {type(got).__name__}")
            rec.step()
        if isinstance(value, list) and place == "alone" and sort != "Array by rule":
            give = lambda v: cls(**{**contents, "x": (e for e in v)}).to_bytes()  # noqa: E731
            if give(value) != whole:
                fail("a generator is dumped differently")
            if not greedy:
                for v in (value + [1], value[:-1]):
                    if len(v) == n:
                        continue
                    how, got = attempt(give, v)
                    if how == "ok" or not isinstance(got, errors.ArraySizeError):
                        fail(f"a generator of {len(v)} elements: {how} {type(got).__name__}")
        rec.traced()
        rec.state(sort, n, place)

    return body


def differ(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"they differ at {i}"
    return "one is the beginning of the other"


def many_fields(limit):
    """Structures of many fields, in one class and in chains of classes."""
    sizes = [n for n in (1, 2, 9, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300,
                         511, 512, 513, 520, 1023, 1024, 1025, 1100) if n <= limit]

    def body(ch, rec):
        import binobj
        from binobj import errors
        from binobj import fields as F

        n = ch.choose(sizes)
        mix = ch.choose(("fixed", "text", "conditional", "defaults"))
        style = ch.choose(("assigned", "annotated", "chain"))
        per = {"chain": max(1, -(-n // 40))}.get(style, n)
        rec.case = lambda: f"{n} fields, {mix}, {style}"

        def make(i):
            k = i % 5
            if mix == "text" and k == 2:
                return F.StringZ(encoding="utf-8"), letters(i % 7, "aé"), None
            if mix == "conditional" and k == 3:
                if i % 2:
                    return F.UInt8(present=lambda f, c, s: f["f0"] == 99), None, b""
                return F.UInt8(present=lambda f, c, s: f["f0"] != 99), i % 256, bytes([i % 256])
            if mix == "defaults" and k == 1:
                return F.UInt8(default=i % 256), NotImplemented, bytes([i % 256])
            if k == 4:
                return F.UInt16(endian="big"), i, i.to_bytes(2, "big")
            return F.UInt8(), i % 99, bytes([i % 99])

        cls = binobj.Struct
        values, raws, expect = {}, [], {}
        for start in range(0, n, per):
            ns = {}
            for i in range(start, min(n, start + per)):
                field, v, raw = make(i)
                ns[f"f{i}"] = field
                if raw is None:
                    raw = v.encode("utf-8") + b"\0"
                raws.append(raw)
                if v is NotImplemented:
                    expect[f"f{i}"] = raw[0]
                elif v is not None:
                    values[f"f{i}"] = expect[f"f{i}"] = v
                else:
                    expect[f"f{i}"] = F.NOT_PRESENT
            if style == "annotated":
                cls = binobj.dataclass(
                    type(binobj.Struct)("S", (cls,), {"__annotations__": ns})
                )
            else:
                cls = type(binobj.Struct)("S", (cls,), ns)
        whole = b"".join(raws)
        if list(cls.__binobj_struct__.components) != [f"f{i}" for i in range(n)]:
            fail("the fields are in another order")
        inst = cls(**values)
        if inst.to_bytes() != whole:
            fail(f"something else is dumped: {differ(inst.to_bytes(), whole)}")
        if len(inst) != len(whole):
            fail(f"len() is {len(inst)}, not {len(whole)}")
        fixed = all(c.has_fixed_size and not c.is_conditional
                    for c in cls.__binobj_struct__.components.values())
        if fixed and cls.get_size() != len(whole):
            fail(f"get_size() is {cls.get_size()}, not {len(whole)}")
        got = cls.from_bytes(whole)
        if got.to_bytes() != whole:
            fail("what was loaded is dumped differently")
        if plain(got.to_dict()) != plain(inst.to_dict()):
            fail("what was loaded is exported differently")
        for k, v in expect.items():
            if getattr(got, k) != v:
                fail(f"{k} is loaded as {getattr(got, k)!r}, expected {v!r}")
        if any(n_ not in values for n_ in iter(inst)):
            fail("there are surplus keys")
        rec.step(6)
        interesting = sorted({0, n - 1, n // 2, *(k for k in around(n) if 0 <= k < n)})
        stream = io.BytesIO(b"ab" + whole + b"~")
        for i in interesting:
            name = f"f{i}"
            if isinstance(values.get(name), int) and mix != "conditional":
                other = cls(**{**values, name: values[name] ^ 1})
                if other == inst or not other != inst:
                    fail(f"{name} differs, they are equal")
                if inst != cls(**values):
                    fail("the same values are different")
            stream.seek(2)
            if expect[name] is not F.NOT_PRESENT and mix != "conditional" or fixed:
                if cls.get_field(stream, name) != expect[name]:
                    fail(f"get_field({name}) gives {cls.get_field(stream, name)!r}")
            end = 2 + sum(len(r) for r in raws[: i + 1])
            stream.seek(2)
            part = cls.partial_load(stream, name)
            if getattr(part, name) != expect[name] or stream.tell() != end:
                fail(f"partial_load to {name} gives {getattr(part, name)!r}, to {stream.tell()}")
            out = io.BytesIO()
            inst.partial_dump(out, name)
            if out.getvalue() != whole[: end - 2]:
                fail(f"partial_dump to {name} writes {len(out.getvalue())} bytes")
            how, err = attempt(cls.from_bytes, whole[: end - 2])
            if end - 2 < len(whole):
                if how == "ok" or not isinstance(err, errors.UnexpectedEOFError):
                    fail(f"cut after {name}: {how}")
                part = cls.partial_load(io.BytesIO(whole[: end - 2]))
                if f"f{i}" not in set(iter(part)):
                    fail(f"cut after {name}, it isn't loaded partially")
            rec.step(4)
        del inst[f"f{n - 1}"]
        if expect[f"f{n - 1}"] is not F.NOT_PRESENT and f"f{n - 1}" in values:
            how, err = attempt(inst.to_bytes)
            if how == "ok" or not isinstance(err, errors.MissingRequiredValueError):
                fail(f"without the last value: {how}")
        rec.traced()
        rec.state(n, mix, style)

    return body


def deep(limit):
    """Many levels of nesting."""

    def body(ch, rec):
        import binobj
        from binobj import errors
        from binobj import fields as F

        sort = ch.choose(("nested", "arrays", "unions", "elements", "mixed"))
        depth = 1 + ch.pick(limit)
        rec.case = lambda: f"{depth} levels, {sort}"
        pick = lambda *a: a[1][0]  # noqa: E731

        if sort == "arrays":
            field, value = F.UInt8(), 7
            for i in range(depth):
                field = F.Array(field, count=1 if i % 9 else 2)
                value = [value] if i % 9 else [value, value]
            n = 2 ** len([i for i in range(depth) if i % 9 == 0])
            cls = type(binobj.Struct)("S", (binobj.Struct,), {"x": field, "end": F.UInt8()})
            values, raw = {"x": value, "end": 1}, b"\7" * n + b"\1"
        else:
            cls = type(binobj.Struct)("L0", (binobj.Struct,), {"v": F.UInt8()})
            values, raw = {"v": 5}, b"\5"
            for i in range(depth):
                kind = {"mixed": ("nested", "unions", "elements")[i % 3]}.get(sort, sort)
                inner, v = cls, values
                if kind == "nested":
                    part = F.Nested(inner)
                elif kind == "unions":
                    part = F.Union(inner, load_decider=pick, dump_decider=pick)
                else:
                    part = F.Array(F.Nested(inner), count=1)
                    v = [values]
                cls = type(binobj.Struct)(
                    f"L{i + 1}",
                    (binobj.Struct,),
                    {
                        "n": F.UInt8(),
                        "p": part,
                        "z": F.StringZ(encoding="ascii"),
                        "t": F.UInt8(present=lambda f, c, s: f["n"] % 2),
                    },
                )
                values = {"n": i, "p": v, "z": "x" * (i % 3)}
                raw = bytes([i]) + raw + b"x" * (i % 3) + b"\0"
                if i % 2:
                    values["t"] = i
                    raw += bytes([i])
        inst = cls(**values)
        if inst.to_bytes() != raw:
            fail("something else is dumped")
        if len(inst) != len(raw):
            fail(f"len() is {len(inst)}, not {len(raw)}")
        got = cls.from_bytes(raw)
        if strip(plain(got.to_dict())) != strip(plain(values)):
            fail("something else is loaded")
        if sort != "arrays":
            for source in (inst, got, cls(**views(values))):
                shown = source.to_dict(keep_discardable=True)
                if strip(plain(shown)) != strip(plain(values)):
                    fail("something else is exported")
                if impure(shown):
                    fail(f"there's a {impure(shown)} in what is exported")
        if got.to_bytes() != raw:
            fail("what was loaded is dumped differently")
        if not (got == cls.from_bytes(raw)):
            fail("what's loaded twice is different")
        out = io.BytesIO()
        inst.partial_dump(out)
        if out.getvalue() != raw:
            fail("partial_dump writes something else")
        rec.step(6)
        for cut in {0, 1, len(raw) // 2, len(raw) - 1}:
            how, err = attempt(cls.from_bytes, raw[:cut])
            if how == "ok" or not isinstance(err, errors.UnexpectedEOFError):
                fail(f"cut at {cut}: {how}")
        if sort != "arrays":
            bad = cls.from_bytes(raw)
            at = bad
            for _ in range(depth):
                at = at.p[0] if isinstance(at.p, list) else at.p
            at.v = 300
            how, err = attempt(bad.to_bytes)
            if how == "ok" or not isinstance(err, errors.SerializationError):
                fail(f"an unfit value in the innermost one: {how}")
            at.v = 6
            if len(bad.to_bytes()) != len(raw):
                fail("after a change in the innermost one another length is dumped")
        rec.traced()
        rec.state(sort, depth)

    return body


def views(v):
    """The same values, in mappings of another type."""
    if isinstance(v, dict):
        return types.MappingProxyType({k: views(e) for k, e in v.items()})
    if isinstance(v, list):
        return [views(e) for e in v]
    return v


def impure(v):
    """The type of something in exported values that isn't a list or a dict, or None."""
    if isinstance(v, list):
        return next(filter(None, map(impure, v)), None)
    if type(v) is dict:
        return next(filter(None, map(impure, v.values())), None)
    from binobj import fields as F

    if isinstance(v, (int, str, bytes)) or v is F.NOT_PRESENT:
        return None
    return type(v).__name__


def strip(v):
    """Without values that stand for absent ones."""
    if isinstance(v, dict):
        return {k: strip(e) for k, e in v.items() if e is not ABSENT}
    if isinstance(v, list):
        return [strip(e) for e in v]
    return v


def many(limit):
    """Many values through the same fields, all kept until the end."""

    def body(ch, rec):
        import binobj
        from binobj import fields as F
        from binobj import varints

        pick = lambda d, c, *a: c[0] if isinstance(d, int) else c[1]  # noqa: E731
        load = lambda s, c, x, f: c[f["k"] % 2]  # noqa: E731

        class Part(binobj.Struct):
            p = F.UInt32(endian="little")

        kinds = {
            "UInt32": (F.UInt32(endian="big"), lambda i: i * 65537 % 2**32,
                       lambda v: v.to_bytes(4, "big")),
            "Float64": (F.Float64(endian="big"), lambda i: i / 8, None),
            "LEB128": (
                F.VariableLengthInteger(vli_format=varints.VarIntEncoding.LEB128),
                lambda i: (-1) ** i * i * i, enc_leb,
            ),
            "StringZ": (F.StringZ(encoding="utf-8"), lambda i: f"é{i}",
                        lambda v: v.encode() + b"\0"),
            "String": (F.String(size=6, pad_byte=b" "), lambda i: f"{i:6d}", str.encode),
            "Bytes": (F.Bytes(size=3), lambda i: i.to_bytes(3, "big"), bytes),
            "nullable": (F.UInt32(endian="big", null_value=7), lambda i: None if i % 5 == 4 else i + 8,
                         lambda v: (7 if v is None else v).to_bytes(4, "big")),
            "Array": (F.Array(F.UInt8(), count=3), lambda i: [i % 256, i // 256 % 256, 3], bytes),
            "Nested": (F.Nested(Part), lambda i: {"p": i},
                       lambda v: v["p"].to_bytes(4, "little")),
            "Union": (
                F.Union(F.UInt16(endian="big"), F.Nested(Part), load_decider=load,
                        dump_decider=pick),
                lambda i: {"p": i} if i % 256 % 2 else i % 65536,
                lambda v: v.to_bytes(2, "big") if isinstance(v, int) else v["p"].to_bytes(4, "little"),
            ),
            "conditional": (
                F.UInt32(endian="big", present=lambda f, c, s: f["k"] % 3 != 0, default=0),
                lambda i: i, None,
            ),
        }
        name = ch.choose(tuple(kinds))
        how = ch.choose(("records", "operations"))
        field, value, enc = kinds[name]
        rec.case = lambda: f"{limit} values in {name}, {how}"

        class S(binobj.Struct):
            k = F.UInt8()
            x = field

        n = limit if name in ("UInt32", "StringZ", "nullable") else limit // 4
        raws, insts, values = [], [], []
        for i in range(n):
            v = value(i)
            absent = name == "conditional" and i % 256 % 3 == 0
            if name == "Float64":
                import struct

                raw = struct.pack(">d", v)
            elif name == "conditional":
                raw = b"" if absent else v.to_bytes(4, "big")
            else:
                raw = enc(v)
            inst = S(k=i % 256) if absent else S(k=i % 256, x=v)
            raw = bytes([i % 256]) + raw
            insts.append(inst)
            raws.append(raw)
            values.append(v)
            if how == "operations":
                for op, wanted in (
                    (inst.to_bytes, raw),
                    (lambda: len(inst), len(raw)),
                    (lambda: S.from_bytes(raw).to_bytes(), raw),
                ):
                    got = op()
                    if got != wanted:
                        fail(f"number {i}: {got!r}, expected {wanted!r}")
                if not absent and plain(S.get_field(io.BytesIO(raw), "x")) != v:
                    fail(f"number {i}: get_field gives {S.get_field(io.BytesIO(raw), 'x')!r}")
                rec.step(4)
        if how == "records":
            out = io.BytesIO()
            for inst in insts:
                inst.to_stream(out)
            if out.getvalue() != b"".join(raws):
                fail("all records together aren't what they are alone")
            out.seek(0)
            got = [S.from_stream(out) for _ in range(n)]
            if out.read():
                fail("something is left")
            for i, (g, v, raw) in enumerate(zip(got, values, raws)):
                if g.to_bytes() != raw or len(raw) > 1 and plain(g.x) != v:
                    fail(f"number {i} is loaded as {g!r}, expected {v!r}")
                if insts[i].to_bytes() != raw:
                    fail(f"number {i} has changed: {insts[i]!r}")
            rec.step(4 * n)
        rec.traced()
        rec.state(name, how)

    return body


def bodies(tier, seed):
    big = tier == "thorough"
    return {
        "lengths": lengths(2**20 if big else 2**16),
        "fields": many_fields(1100 if big else 520),
        "deep": deep(70 if big else 40),
        "many": many(70000 if big else 5000),
    }
