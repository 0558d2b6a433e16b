"""C04: variable-length integers follow their published encodings."""

import io

from mc.lib import attempt
from mc.lib import byte_strings
from mc.lib import fail
from mc.lib import short
from mc.lib import stream_at
from mc.model import Eof
from mc.model import VARINTS

BOUNDS = {
    "quick": "all integers in -70000..70000 and +-2**k+d for k up to 400, |d|<=2; all byte"
    " strings of up to 2 bytes, and of up to 4 bytes over 14 byte values; byte limits 1 to"
    " 11 and those around what is needed; the functions and the fields",
    "thorough": "all integers in -2200000..2200000, k up to 5000; all byte strings of up to"
    " 3 bytes, and of up to 6 bytes over 14 byte values",
}
ASSUMPTIONS = ["the reference encoders in mc/model.py, written with base-128 arithmetic"]

ALPHABET = bytes([0, 1, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xC1, 0xFE, 0xFF, 0x55])


def functions(fmt):
    from binobj import varints

    name = {"vlq": "vlq", "uleb": "uleb128", "leb": "leb128", "compact": "compact"}[fmt]
    return (
        getattr(varints, "encode_integer_" + name),
        getattr(varints, "decode_integer_" + name),
    )


def field(fmt, limit=None, **kw):
    from binobj import fields as F
    from binobj import varints

    if limit is not None:
        kw["max_bytes"] = limit
    return F.VariableLengthInteger(
        vli_format=getattr(varints.VarIntEncoding, VARINTS[fmt][0]), name="x", **kw
    )


def check_int(fmt, v, fns, fld, limited, rec):
    from binobj import errors

    _enum, enc, dec, signed = VARINTS[fmt]
    encode, decode = fns
    if v < 0 and not signed:
        how, got = attempt(encode, v)
        if how == "ok":
            fail(f"{v} is outside the domain but is encoded as {got!r}")
        for f in (fld, *limited.values()):
            out = io.BytesIO()
            how, got = attempt(f.to_stream, out, v)
            if how == "ok" or not isinstance(got, errors.SerializationError):
                fail(f"dumping {v}, outside the domain: {how} {got!r}")
            if out.getvalue():
                fail(f"{v} is refused but {short(out.getvalue())} is written")
        rec.step(2)
        return
    expected = enc(v)
    raw = encode(v)
    if raw != expected:
        fail(f"{v} is encoded as {short(bytes(raw))}, expected {short(expected)}")
    if fld.to_bytes(v) != expected:
        fail(f"the field encodes {v} as {short(fld.to_bytes(v))}")
    stream = stream_at(expected, b"\x80\xff", b"\x81\x01")
    got = decode(stream)
    if got != v or type(got) is not int:
        fail(f"{short(expected)} decodes to {got!r}, not {v}")
    if stream.tell() != 2 + len(expected):
        fail(f"decoding {v} ends at {stream.tell() - 2}, it has {len(expected)} bytes")
    if fld.from_bytes(expected) != v:
        fail(f"the field decodes {short(expected)} to {fld.from_bytes(expected)}")
    rec.step(4)
    for limit, f in limited.items():
        out = io.BytesIO()
        how, got = attempt(f.to_stream, out, v)
        if len(expected) <= limit:
            if how != "ok" or out.getvalue() != expected:
                fail(f"max_bytes={limit}: {v} gives {how} {got!r} {short(out.getvalue())}")
            if f.from_bytes(expected) != v:
                fail(f"max_bytes={limit}: {v} loads as {f.from_bytes(expected)}")
        else:
            if how == "ok" or not isinstance(got, errors.SerializationError):
                fail(f"max_bytes={limit}: {v} needs {len(expected)} bytes: {how} {got!r}")
            if out.getvalue():
                fail(f"max_bytes={limit}: {v} is refused but {short(out.getvalue())} written")
        rec.step()
    rec.state(fmt, v)
    rec.maximum("bytes per integer", len(expected))


def ints_body(top, step):
    starts = list(range(-top, top, step))

    def body(ch, rec):
        fmt = ch.choose(tuple(VARINTS))
        start = ch.choose(starts)
        fns, fld = functions(fmt), field(fmt)
        limited = {n: field(fmt, n) for n in (1, 2, 3)}
        for v in range(start, start + step):
            rec.case = lambda: f"{fmt}, integer {v}"
            check_int(fmt, v, fns, fld, limited, rec)
        rec.traced(step)

    return body


def huge_body(top):
    def body(ch, rec):
        fmt = ch.choose(tuple(VARINTS))
        k = ch.pick(top)
        fns, fld = functions(fmt), field(fmt)
        about = (k + 6) // 7
        limits = {*range(1, 12), *range(max(about - 1, 1), about + 3)}
        limited = {n: field(fmt, n) for n in sorted(limits)}
        for d in (-2, -1, 0, 1, 2):
            for v in (2**k + d, -(2**k) + d, 3 * 2**k + d, -3 * 2**k - d):
                rec.case = lambda: f"{fmt}, integer {v}"
                check_int(fmt, v, fns, fld, limited, rec)
        rec.traced(20)

    return body


def check_bytes(fmt, data, fns, fld, rec):
    from binobj import errors

    _enum, _enc, dec, _signed = VARINTS[fmt]
    stream = stream_at(data)
    how, got = attempt(fns[1], stream)
    how2, got2 = attempt(fld.from_bytes, data, exact=False)
    try:
        v, pos = dec(data, 0)
    except Eof:
        for h, g in ((how, got), (how2, got2)):
            if h == "ok" or not isinstance(g, errors.UnexpectedEOFError):
                fail(f"an unfinished integer gives {h} {g!r}")
    else:
        for h, g in ((how, got), (how2, got2)):
            if h != "ok" or g != v:
                fail(f"decodes to {h} {g!r}, expected {v}")
        if stream.tell() != pos:
            fail(f"decoding ends at {stream.tell()}, the integer at {pos}")
    rec.step(2)
    rec.state(fmt, data)


def bytes_body(first, rest, alphabet):
    def body(ch, rec):
        fmt = ch.choose(tuple(VARINTS))
        fns, fld = functions(fmt), field(fmt)
        n = 0
        for data in byte_strings(ch, alphabet, first, rest):
            rec.case = lambda: f"{fmt}, bytes {data.hex()}"
            check_bytes(fmt, data, fns, fld, rec)
            n += 1
        rec.traced(n)

    return body


def padded(ch, rec):
    """Redundant continuation groups of any number decode to the same value."""
    fmt = ch.choose(tuple(VARINTS))
    _enum, enc, dec, signed = VARINTS[fmt]
    fns, fld = functions(fmt), field(fmt)
    pads = ch.pick(14)
    for v in (0, 1, 5, 63, 64, 127, 128, 8191, 8192, 2**40 + 3, -1, -63, -64, -65, -8192, -(2**40)):
        if v < 0 and not signed:
            continue
        raw = enc(v)
        if fmt == "vlq":
            data = b"\x80" * pads + raw
        elif fmt == "uleb":
            data = raw[:-1] + (bytes([raw[-1] | 128]) + b"\x80" * (pads - 1) + b"\0" if pads else raw[-1:])
        elif fmt == "leb":
            more = 0x7F if v < 0 else 0
            data = raw[:-1] + (
                bytes([raw[-1] | 128]) + bytes([more | 128]) * (pads - 1) + bytes([more])
                if pads
                else raw[-1:]
            )
        else:
            # The sign is in the first byte; groups follow, most significant first.
            mag, groups = abs(v), []
            while mag:
                groups.append(mag % 128)
                mag //= 128
            groups = groups[::-1] or [0]
            head = 0x80 | (0x40 if v < 0 else 0)
            data = bytes([head]) + b"\x80" * pads + bytes(
                [g | 128 for g in groups[:-1]] + [groups[-1]]
            )
        assert dec(data, 0)[0] == v
        rec.case = lambda: f"{fmt}, {v} with {pads} redundant groups: {data.hex()}"
        check_bytes(fmt, data, fns, fld, rec)
    rec.traced()


def placed(ch, rec):
    """In structures, one after another, as constants, lengths and counts."""
    from binobj import fields as F
    import binobj

    fmt = ch.choose(tuple(VARINTS))
    _enum, enc, _dec, signed = VARINTS[fmt]
    v = ch.choose([0, 1, 63, 64, 127, 128, 300, 8191, 8192, 2**21, 2**70, -1, -64, -65, -8192])
    w = ch.choose([0, 1, 64, 128, 200])
    if v < 0 and not signed:
        return

    class S(binobj.Struct):
        c = field2(fmt, const=v)
        x = field2(fmt)
        n = field2(fmt)
        r = F.Bytes(size=n)
        m = field2(fmt)
        a = F.Array(field2(fmt), count=m)
        e = F.UInt8()

    rec.case = lambda: f"{fmt}: const {v}, length {w}"
    r, a = b"\x85" * w, [v] * 3
    raw = S(x=v, n=w, r=r, m=3, a=a, e=9).to_bytes()
    expected = enc(v) * 2 + enc(w) + r + enc(3) + enc(v) * 3 + b"\x09"
    if raw != expected:
        fail(f"dumped {short(raw)}, expected {short(expected)}")
    back = S.from_bytes(raw)
    if (back.c, back.x, back.n, back.r, back.a, back.e) != (v, v, w, r, a, 9):
        fail(f"loaded {back!r}")
    if len(back) != len(raw):
        fail(f"len() is {len(back)}, not {len(raw)}")
    if S.get_field(io.BytesIO(raw), "e") != 9 or S.get_field(io.BytesIO(raw), "x") != v:
        fail("get_field gives something else")
    rec.step(5)
    rec.traced()
    rec.state("placed", fmt, v, w)


def field2(fmt, **kw):
    from binobj import fields as F
    from binobj import varints

    return F.VariableLengthInteger(
        vli_format=getattr(varints.VarIntEncoding, VARINTS[fmt][0]), **kw
    )


def bodies(tier, seed):
    if tier == "quick":
        return {
            "ints": ints_body(70000, 2000),
            "huge": huge_body(401),
            "bytes": bytes_body(1, 1, bytes(range(256))),
            "long bytes": bytes_body(1, 3, ALPHABET),
            "padded": padded,
            "placed": placed,
        }
    return {
        "ints": ints_body(2200000, 10000),
        "huge": huge_body(5001),
        "bytes": bytes_body(2, 1, bytes(range(256))),
        "long bytes": bytes_body(2, 4, ALPHABET),
        "padded": padded,
        "placed": placed,
    }
