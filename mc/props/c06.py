"""C06: a load consumes exactly one structure."""

import array
import ctypes
import io

from mc.history import history_body
from mc.history import see_position
from mc.items import KINDS
from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.lib import same
from mc.lib import stream_at
from mc.lib import values_of
from mc.model import plain
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; every field kind in every position, all ordered pairs of items, all triples of"
    " small items; all pairs of consecutive records, three records back to back from start"
    " offsets 0 to 2; trailing data of 0, 1, 2, 3 and 20 bytes of four patterns; every"
    " value of a byte in 6 shapes, followed by 9 trailers; every field kind loaded from 17 sorts"
    " of bytes-like objects with 0 to 8 bytes after it",
    "thorough": "histories of 4 moves; quick, plus all quadruples of small items and all triples of items",
}
ASSUMPTIONS = ["structures that extend to the end of the data are exempt"]

TRAILERS = [b"\0", b"\xff", b"A", b"\0\0", b"\x80\x80", b"zzz", b"\0" * 20, b"\xff" * 20]


def judge(case, rec):
    from binobj import errors

    spec = case.spec
    if spec.greedy():
        return
    cls = spec.build()
    n = len(case.assigns)
    raws = [spec.dump(a) for a in case.assigns]
    loads = [spec.loaded(a) for a in case.assigns]
    for i in range(n):
        order = [i, (i + 1) % n, (i + 2) % n]
        start = i % 3
        data = b"".join(raws[j] for j in order)
        note(rec, spec, records=[case.assigns[j] for j in order], start=start)
        stream = stream_at(data, b"\xaa" * start, b"\x01\x02")
        pos = start
        for j in order:
            same(values_of(cls.from_stream(stream), spec), loads[j], f"record at {pos}")
            pos += len(raws[j])
            if stream.tell() != pos:
                fail(f"the load ends at {stream.tell()}, the record at {pos}")
            rec.step()
        rec.traced()
        rec.state(repr(spec), "sequence", i)
        for k, trailer in enumerate(TRAILERS):
            if i > 1 and k not in (i % len(TRAILERS), 0):
                continue
            note(rec, spec, values=case.assigns[i], trailer=trailer)
            how, got = attempt(cls.from_bytes, raws[i] + trailer)
            if how == "ok":
                fail(f"an exact load accepts {len(trailer)} bytes too many")
            if not isinstance(got, errors.ExtraneousDataError):
                fail(f"an exact load raises {got!r}, not ExtraneousDataError")
            inst = cls.from_bytes(raws[i] + trailer, exact=False)
            same(values_of(inst, spec), loads[i], "non-exact load")
            rec.step(2)
            rec.state(repr(spec), i, k)
            rec.outcome(len(trailer), type(got).__name__)
        same(values_of(cls.from_bytes(raws[i], exact=True), spec), loads[i], "exact load")
        same(
            values_of(cls.from_bytes(bytearray(raws[i])), spec), loads[i], "from a bytearray"
        )
    rec.sample(repr(spec))


def alone(ch, rec):
    from binobj import errors
    from binobj import fields as F

    kind = ch.choose(KINDS)()
    if kind.greedy:
        return
    field = kind.make(F, name="x")
    for v in kind.values:
        raw = kind.enc(v, {})
        for trailer in TRAILERS:
            rec.case = lambda: f"field {kind!r}, value {v!r}, trailer {trailer!r}"
            how, got = attempt(field.from_bytes, raw + trailer)
            if how == "ok" or not isinstance(got, errors.ExtraneousDataError):
                fail(f"an exact Field.from_bytes gives {how} {got!r}")
            got = plain(field.from_bytes(raw + trailer, exact=False))
            same(got, kind.loaded(v, {}), "non-exact Field.from_bytes")
            rec.step(2)
            rec.state("alone", kind.name, repr(v), trailer)
        rec.traced()


def bytes_like(data):
    """The data as objects of other types that can be read like bytes."""
    yield "bytearray", bytearray(data)
    yield "memoryview", memoryview(data)
    yield "part", memoryview(b"#" + data + b"#")[1:-1]
    yield "signed", memoryview(data).cast("b")
    yield "characters", memoryview(data).cast("c")
    yield "array", array.array("B", data)
    yield "ctypes", (ctypes.c_char * len(data)).from_buffer_copy(data)
    for code, size in (("H", 2), ("I", 4), ("d", 8)):
        if data and not len(data) % size:
            yield f"array of {code}", array.array(code, data)
            yield f"{code}", memoryview(data).cast(code)
            yield "rows", memoryview(data).cast("B", [len(data) // size, size])


def other_types(ch, rec):
    """Exact and other loads from everything that's like bytes."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    kind = ch.choose(KINDS)()
    if kind.greedy:
        return
    after = ch.flag()

    class S(binobj.Struct):
        a = F.UInt8()
        x = kind.make(F)
        if after:
            b = F.UInt16(endian="big")

    nested, alone = F.Nested(S), kind.make(F, name="x")
    for v in kind.values:
        piece = kind.enc(v, {})
        whole = b"\1" + piece + (b"\2\3" if after else b"")
        for trailer in TAILS:
            for field, body in ((S, whole), (nested, whole), (alone, piece)):
                data = body + trailer
                plainly = plain(field.from_bytes(data, exact=False))
                for what, like in bytes_like(data):
                    rec.case = lambda: f"{kind!r}: {body!r} + {trailer!r} as {what}, {field!r}"
                    same(plain(field.from_bytes(like, exact=False)), plainly, "from_bytes")
                    how, got = attempt(field.from_bytes, like)
                    if trailer:
                        if how == "ok" or not isinstance(got, errors.ExtraneousDataError):
                            fail(f"an exact load: {how} {got!r}")
                    elif how != "ok":
                        fail(f"an exact load raises {got!r}")
                    else:
                        same(plain(got), plainly, "an exact load")
                    rec.step(2)
                    rec.state(kind.name, repr(v), after, what, trailer, len(body))
        rec.traced()


TAILS = (b"", b"\0", b"ab", b"abc", b"abcd", b"abcde", b"abcdef", b"abcdefg", b"abcdefgh")


def every_byte(ch, rec):
    """Whatever the bytes are: what's read, and what's left after it."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    shape = ch.choose(("byte", "bytes", "nested", "array", "text", "counted"))

    class In(binobj.Struct):
        p = F.UInt8()

    make, size, wrap = {
        "byte": (lambda: F.UInt8(), 1, lambda b: (b, bytes([b]))),
        "bytes": (lambda: F.Bytes(size=2), 2, lambda b: (bytes([b, b]), bytes([b, b]))),
        "nested": (lambda: F.Nested(In), 1, lambda b: ({"p": b}, bytes([b]))),
        "array": (lambda: F.Array(F.UInt8(), count=2), 2, lambda b: ([7, b], bytes([7, b]))),
        "text": (lambda: F.String(size=1), 1, lambda b: (chr(b), bytes([b]))),
        "counted": (
            lambda: F.Array(F.UInt8(), count="n"),
            2,
            lambda b: ([b, b], bytes([b, b])),
        ),
    }[shape]

    class S(binobj.Struct):
        n = F.UInt8()
        x = make()

    trailers = (b"", b"\0", b"\n", b" ", b"\r\n", b"\x1a", b"\xff")
    for b in range(256):
        value, part = wrap(b)
        raw = bytes([size]) + part
        for trailer in trailers + (bytes([b]), bytes([b, b])):
            rec.case = lambda: f"{shape}: {raw!r} followed by {trailer!r}"
            stream = io.BytesIO(raw + trailer)
            got = plain(S.from_stream(stream).x)
            if stream.tell() != len(raw):
                fail(f"{stream.tell()} bytes are read, not {len(raw)}")
            same(got, value, "from_stream")
            same(plain(S.from_bytes(raw + trailer, exact=False).x), value, "from_bytes")
            how, got = attempt(S.from_bytes, raw + trailer)
            if trailer:
                if how == "ok" or not isinstance(got, errors.ExtraneousDataError):
                    fail(f"an exact load: {how} {got!r}")
            else:
                if how != "ok":
                    fail(f"an exact load raises {got!r}")
                same(plain(got.x), value, "exact load")
            rec.step(3)
            rec.state(shape, b, trailer)
    rec.traced()


def bodies(tier, seed):
    out = each_case(judge, families(tier))
    out["alone"] = alone
    out["every-byte"] = every_byte
    out["other-types"] = other_types
    watchers = [see_position]
    depth = 4 if tier == "thorough" else 3
    out["histories"] = history_body(watchers, depth)
    return out
