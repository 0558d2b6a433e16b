"""C23: text fields keep every character within their declared bytes."""

import io
import itertools

from mc.history import has
from mc.history import history_body
from mc.history import see_bytes
from mc.history import see_loaded
from mc.history import see_size
from mc.lib import attempt
from mc.lib import byte_strings
from mc.lib import fail
from mc.lib import short
from mc.lib import stream_at
from mc.model import Str
from mc.model import StrZ

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; 17 encodings, all strings of up to 3 characters over an alphabet of 9 (one to"
    " four bytes each, nulls and pad characters included) in sizes of 0 to 10 bytes with 6"
    " paddings, sized and terminated; all byte strings of up to 4 bytes over 8 byte values (5"
    " over 5 and 7 over 4 for wide encodings) for every encoding; all pairs of 16 adjacent text fields;"
    " sizes given as number, name, field and computed, encodings given by the field and by the"
    " structure, constants, defaults and stand-ins; lengths up to 66000",
    "thorough": "histories of 4 moves; strings of up to 4 characters, byte strings of up to 6 (7, 9) bytes, all triples of"
    " adjacent fields",
}
ASSUMPTIONS = [
    "Python's own codecs say what characters and bytes belong together",
    "data in utf-16 and utf-32 without a byte order mark isn't covered",
    "utf-7 and hz are left out: their encoding of a character depends on the ones before it",
]

NARROW = ("iso-8859-1", "ascii", "cp037", "cp1252", "utf-8", "utf-8-sig")
MULTI = ("shift_jis", "euc-jp", "gb18030", "big5")
WIDE = ("utf-16-le", "utf-16-be", "utf-16", "utf-32-le", "utf-32-be", "utf-32")
ENCODINGS = (*NARROW, *MULTI, *WIDE, "iso2022_jp")
CHARS = ["A", "\u00e9", "\u0416", "\u20ac", "\u3042", "\U0001f600", "\0", " ", "\u0100"]
PADS = (None, b"\0", b" ", b"x", b"\xff", bytearray(b"\x40"))


def raw_of(text, encoding):
    try:
        return text.encode(encoding)
    except UnicodeError:
        return None


def text_of(raw, encoding):
    try:
        return raw.decode(encoding)
    except UnicodeError:
        return None


def unit(encoding):
    return 4 if "32" in encoding else 2 if "16" in encoding else 1


def terminated_at(data, encoding):
    """Where the first terminated string of the data ends, or None."""
    w = unit(encoding)
    for i in range(0, len(data) - w + 1, w):
        if not any(data[i : i + w]):
            return i + w
    return None


def written(text, encoding, size, pad, zero):
    """The bytes of a field, or None if it must be refused."""
    if zero and "\0" in text:
        return None
    raw = raw_of(text + "\0" if zero else text, encoding)
    if raw is None or size is None:
        return raw
    if len(raw) > size or (len(raw) < size and pad is None):
        return None
    return raw + bytes(pad or b"") * (size - len(raw))


def read(data, encoding, size, zero):
    """(text, bytes consumed), or None if loading must fail."""
    if size is not None:
        if len(data) < size:
            return None
        raw = data[:size]
    else:
        raw = data
    end = len(raw)
    if zero:
        end = terminated_at(raw, encoding)
        if end is None:
            return None
        raw = raw[:end]
    text = text_of(raw, encoding)
    if text is None:
        return None
    if zero:
        text = text[:-1]
    return text, end if size is None else size


def field_of(zero, encoding, size, pad, **kw):
    from binobj import fields as F

    if encoding is not None:
        kw["encoding"] = encoding
    if size is not None:
        kw["size"] = size
    if pad is not None:
        kw["pad_byte"] = pad
    return (F.StringZ if zero else F.String)(**kw)


def alphabet(encoding):
    out = [c for c in CHARS if raw_of(c, encoding) is not None]
    bad = [c for c in CHARS if raw_of(c, encoding) is None]
    return out + bad[:1]


def check_text(field, cls, text, encoding, size, pad, zero, rec):
    """Write a text on its own and between two other fields, and load it again."""
    from binobj import errors

    expected = written(text, encoding, size, pad, zero)
    s = io.BytesIO()
    s.write(b"ab")
    how, got = attempt(field.to_stream, s, text)
    out = s.getvalue()[2:]
    rec.step()
    if expected is None:
        if how == "ok":
            fail(f"accepted, {short(out)} was written")
        if not isinstance(got, (errors.UnserializableValueError, errors.ValueSizeError)):
            fail(f"refused with {got!r}")
        if out:
            fail(f"refused, but {short(out)} was written")
        s = io.BytesIO()
        how, got = attempt(cls(a=1, x=text, b=2).to_stream, s)
        if how == "ok" or len(s.getvalue()) > 1:
            fail(f"in a structure: {how} {got!r}, written {short(s.getvalue())}")
        return
    if how != "ok" or out != expected:
        fail(f"{how} {got!r}: wrote {short(out)}, expected {short(expected)}")
    whole = b"\x01" + expected + b"\x02"
    got = cls(a=1, x=text, b=2).to_bytes()
    if got != whole:
        fail(f"in a structure {short(got)}, expected {short(whole)}")
    want = read(expected, encoding, size, zero)
    if zero and want != (text, len(expected)):
        return  # a byte order mark in the text, say
    check_data(field, expected, encoding, size, zero, rec)
    how, got = attempt(cls.from_bytes, whole)
    if want is None:
        if how == "ok":
            fail(f"{short(whole)} loaded as {got.x!r}")
    elif how != "ok" or got.x != want[0] or (got.a, got.b) != (1, 2):
        fail(f"{how} {got!r} loaded from {short(whole)}, expected {want[0]!r}")
    else:
        again = written(want[0], encoding, size, pad, zero)
        if again is not None and got.to_bytes() != b"\x01" + again + b"\x02":
            fail(f"loaded and dumped: {got.to_bytes()!r}, was {whole!r}")
    rec.outcome(len(expected), want is None)


def check_data(field, data, encoding, size, zero, rec):
    want = read(data, encoding, size, zero)
    s = stream_at(data, b"zz")
    how, got = attempt(field.from_stream, s)
    rec.step()
    if want is None:
        if how == "ok":
            fail(f"{data!r} is loaded as {got!r}")
    elif how != "ok" or got != want[0]:
        fail(f"{data!r} is loaded as {how} {got!r}, expected {want[0]!r}")
    elif s.tell() != 2 + want[1]:
        fail(f"loading {data!r} ends at {s.tell() - 2}, not {want[1]}")
    return want


def between(field):
    import binobj
    from binobj import fields as F

    return type("T", (binobj.Struct,), {"a": F.UInt8(), "x": field, "b": F.UInt8()})


def texts(most):
    def body(ch, rec):
        zero = ch.flag()
        encoding = ch.choose(ENCODINGS)
        sizes = (*range(11), 16) if not zero else (None, *range(11), 16)
        size = sizes[ch.pick(len(sizes))]
        chars = alphabet(encoding)
        first = ch.choose((None, *chars))  # of the longest texts
        for pad in PADS if size is not None else PADS[:2]:
            cls = between(field_of(zero, encoding, size, pad))
            alone = field_of(zero, encoding, size, pad, name="x")
            if first is None:
                some = (t for n in range(most) for t in itertools.product(chars, repeat=n))
            elif pad in (None, b" "):
                some = ((first, *t) for t in itertools.product(chars, repeat=most - 1))
            else:
                some = ()
            for t in some:
                text = "".join(t)
                rec.case = lambda: (
                    f"{'StringZ' if zero else 'String'}, {encoding}, size {size}, pad"
                    f" {pad!r}: {text!r}"
                )
                check_text(alone, cls, text, encoding, size, pad, zero, rec)
                rec.state(zero, encoding, size, pad and bytes(pad), text)
        rec.traced()

    return body


BYTES = {1: b"\0A \x82\xa0\xc3\xa9\xff", 2: b"\0A\xd8\x3d\xff", 4: b"\0A\x01\x30"}


def data(rest):
    def body(ch, rec):
        zero = ch.flag()
        encoding = ch.choose(ENCODINGS)
        size = ch.choose((None, 0, 1, 2, 3, 4, 8) if zero else (0, 1, 2, 3, 4))
        wide = unit(encoding)
        field = field_of(zero, encoding, size, b" ", name="x")
        cls = between(field_of(zero, encoding, size, b" "))
        extra = {1: 0, 2: 1, 4: 3}[wide]
        order = ch.choose(("little", "big")) if encoding in ("utf-16", "utf-32") else None
        mark = (0xFEFF).to_bytes(wide, order) if order else b""
        for raw in byte_strings(ch, BYTES[wide], 1, rest + extra - 1):
            raw = mark + raw
            rec.case = lambda: (
                f"{'StringZ' if zero else 'String'}, {encoding}, size {size}: {raw!r}"
            )
            want = check_data(field, raw, encoding, size, zero, rec)
            how, got = attempt(cls.from_bytes, b"\x05" + raw, exact=False)
            if want is None or len(raw) <= want[1]:
                if how == "ok":
                    fail(f"in a structure loaded as {got!r}")
            elif how != "ok" or got.x != want[0] or got.b != raw[want[1]] or got.a != 5:
                fail(f"in a structure {how} {got!r}, expected {want!r}")
            rec.state(zero, encoding, size, raw)
        rec.traced()

    return body


SOURCES = ("number", "name", "field", "computed", "later")


def sources(ch, rec):
    """Where the size and the encoding come from."""
    import binobj
    from binobj import fields as F

    zero = ch.flag()
    encoding = ch.choose(("iso-8859-1", "utf-8", "utf-16-be", "shift_jis", "cp037"))
    given = ch.choose(("field", "structure", "class of the structure", "parent"))
    source = ch.choose(("number", "name", "field", "computed", "parent"))
    pad = ch.choose((None, b" ", b"\0"))
    chars = alphabet(encoding)[:-1]
    own = encoding if given == "field" else None

    class Meta:
        argument_defaults = {"encoding": "ascii"} if given == "field" else {"encoding": encoding}
        if given == "class of the structure":
            argument_defaults = {
                "encoding": "ascii",
                ("StringZ" if zero else "String") + "__encoding": encoding,
            }

    for size in range(0, 9):
        number = F.UInt8()
        which = {"number": size, "name": "n", "parent": "n"}.get(source, number)
        field = field_of(zero, own, which, pad)
        if source == "computed":
            number.computes(lambda self, f: len((f["x"] + ("\0" if zero else "")).encode(encoding)))
        if source == "parent" or given == "parent":

            class P(binobj.Struct):
                n = number

            if given != "field":
                P = type("P", (binobj.Struct,), {"n": number, "Meta": Meta})
            cls = type("S", (P,), {"x": field, "b": F.UInt8()})
            if given != "parent" and given != "field":
                cls = type("S", (P,), {"x": field, "b": F.UInt8(), "Meta": Meta})
        else:
            cls = type("S", (binobj.Struct,), {"n": number, "x": field, "b": F.UInt8(), "Meta": Meta})
        for n in range(3):
            for t in itertools.product(chars, repeat=n):
                text = "".join(t)
                rec.case = lambda: (
                    f"StringZ {zero}, {encoding} given by the {given}, size {size} given as"
                    f" {source}, pad {pad!r}: {text!r}"
                )
                real = size
                if source == "computed":
                    raw = raw_of(text + ("\0" if zero else ""), encoding)
                    if raw is None:
                        continue
                    real = len(raw)
                expected = written(text, encoding, real, pad, zero)
                values = {"x": text, "b": 7}
                if source != "computed":
                    values["n"] = size
                how, got = attempt(cls(**values).to_bytes)
                rec.step()
                if expected is None:
                    if how == "ok":
                        fail(f"accepted as {short(got)}")
                    continue
                whole = bytes([real]) + expected + b"\x07"
                if how != "ok" or got != whole:
                    fail(f"{how} {got!r}, expected {whole!r}")
                want = read(expected, encoding, real, zero)
                how, got = attempt(cls.from_bytes, whole)
                if want is None:
                    if how == "ok":
                        fail(f"loaded as {got!r}")
                elif how != "ok" or got.x != want[0] or got.b != 7 or got.n != real:
                    fail(f"loaded as {how} {got!r}, expected {want[0]!r}")
                if want is not None:
                    s = io.BytesIO(whole)
                    if cls.get_field(s, "x") != want[0] or cls.get_field(s, "b") != 7:
                        fail("single fields are read differently")
                    if len(cls(**values)) != len(whole):
                        fail(f"len() is {len(cls(**values))}, not {len(whole)}")
                rec.step(3)
                rec.state(zero, encoding, given, source, pad, size, text)
    rec.traced()


def fixed_values(ch, rec):
    """Constants, defaults and stand-ins, whose size may be derived from the encoding."""
    import binobj
    from binobj import fields as F

    zero = ch.flag()
    encoding = ch.choose(("iso-8859-1", "utf-8", "utf-16-le", "utf-32", "shift_jis", "cp037"))
    given = ch.choose(("field", "structure", "parent"))
    what = ch.choose(("const", "const and size", "default", "null", "null and size"))
    chars = alphabet(encoding)[:-1]
    size = ch.choose((None, 4, 8, 12)) if "size" in what or what == "default" else None
    pad = ch.choose((None, b" "))
    for n in range(3):
        for t in itertools.product(chars, repeat=n):
            text = "".join(t)
            expected = written(text, encoding, size, pad, zero)
            if expected is None or (size is None and not zero and what != "const"):
                continue
            if what == "const" and not text and raw_of("", encoding):
                continue
            kw = {}
            if what.startswith("const"):
                kw["const"] = text
            elif what == "default":
                kw["default"] = text
            else:
                kw["null_value"] = text
            if what == "null" and not zero:
                continue
            rec.case = lambda: (
                f"StringZ {zero}, {encoding} given by the {given}, {what} {text!r}, size"
                f" {size}, pad {pad!r}"
            )
            try:
                field = field_of(zero, encoding if given == "field" else None, size, pad, **kw)
            except Exception as exc:  # noqa: BLE001
                if raw_of(text, "iso-8859-1") is None and given != "field":
                    continue  # its size can't be known before the encoding is
                raise exc
            body = {"a": F.UInt8(), "x": field, "b": F.UInt8()}
            meta = type("Meta", (), {"argument_defaults": {"encoding": encoding}})
            if given == "field":
                cls = type("S", (binobj.Struct,), body)
            elif given == "structure":
                cls = type("S", (binobj.Struct,), {**body, "Meta": meta})
            else:
                base = type("P", (binobj.Struct,), {"z": F.UInt8(default=0), "Meta": meta})
                cls = type("S", (base,), body)
            lead = b"\0" if given == "parent" else b""
            whole = lead + b"\x01" + expected + b"\x02"
            inst = cls(a=1, b=2)
            if what.startswith("null"):
                inst.x = None
            if inst.to_bytes() != whole or len(inst) != len(whole):
                fail(f"dumped {inst.to_bytes()!r}, len() {len(inst)}, expected {whole!r}")
            want = read(expected, encoding, len(expected) if not zero else size, zero)
            if want is None or (what.startswith("const") and want[0] != text):
                continue
            loaded = cls.from_bytes(whole)
            value = None if what.startswith("null") else want[0]
            if loaded.x != value or loaded.b != 2:
                fail(f"loaded as {loaded!r}")
            if cls.get_field(io.BytesIO(whole), "b") != 2:
                fail("the next field isn't found")
            rec.step(4)
            rec.state(zero, encoding, given, what, size, pad, text)
    rec.traced()


TEXTS = [
    (False, "iso-8859-1", 3, b" "),
    (False, "utf-8", 4, b"\0"),
    (False, "utf-8", 2, None),
    (False, "utf-16-le", 4, b"\0"),
    (False, "utf-16-be", 6, b" "),
    (False, "utf-32-be", 8, b"\0"),
    (False, "shift_jis", 3, b" "),
    (False, "cp037", 2, b"\x40"),
    (True, "iso-8859-1", None, None),
    (True, "utf-8", None, None),
    (True, "utf-16-le", None, None),
    (True, "utf-16", None, None),
    (True, "utf-32-le", None, None),
    (True, "shift_jis", None, None),
    (True, "utf-8", 5, b"\0"),
    (True, "utf-16-be", 8, b"x"),
]


def some_texts(zero, encoding, size, pad):
    out = []
    chars = alphabet(encoding)
    for n in range(3):
        for t in itertools.product(chars, repeat=n):
            text = "".join(t)
            raw = written(text, encoding, size, pad, zero)
            if raw is None:
                continue
            back = read(raw, encoding, size, zero)
            if back is not None:
                out.append((text, raw, back[0]))
    step = max(1, len(out) // 11)
    return out[::step]


def neighbours(count):
    """Text fields next to each other."""

    def body(ch, rec):
        import binobj
        from binobj import fields as F

        which = [ch.choose(TEXTS) for _ in range(count)]
        where = ch.choose(("plain", "array", "nested")) if count == 2 else "plain"
        names = "xyz"[:count]
        fields = {n: field_of(*t) for n, t in zip(names, which)}
        if where == "plain":
            cls = type("S", (binobj.Struct,), fields)
        elif where == "array":
            cls = type(
                "S",
                (binobj.Struct,),
                {n: F.Array(f, count=2) for n, f in fields.items()},
            )
        else:
            inner = type("I", (binobj.Struct,), {"x": fields["x"]})
            cls = type("S", (binobj.Struct,), {"x": F.Nested(inner), "y": fields["y"]})
        for combo in itertools.product(*[some_texts(*t) for t in which]):
            given = {n: c[0] for n, c in zip(names, combo)}
            want = {n: c[2] for n, c in zip(names, combo)}
            raw = b"".join(c[1] for c in combo)
            if where == "array":
                given = {n: [v, v] for n, v in given.items()}
                want = {n: [v, v] for n, v in want.items()}
                raw = b"".join(c[1] * 2 for c in combo)
            elif where == "nested":
                given["x"] = {"x": given["x"]}
            rec.case = lambda: f"{which}, {where}: {given!r}"
            got = cls(**given).to_bytes()
            if got != raw:
                fail(f"dumped {short(got)}, expected {short(raw)}")
            s = stream_at(raw, b"q", b"\0\0A")
            loaded = cls.from_stream(s)
            if s.tell() != 1 + len(raw):
                fail(f"the load ends at {s.tell() - 1}, not {len(raw)}")
            have = {n: getattr(loaded, n) for n in names}
            if where == "nested":
                have["x"] = have["x"]["x"]
            if have != want:
                fail(f"loaded {have!r}, expected {want!r}")
            last = names[-1]
            if cls.get_field(io.BytesIO(raw), last) != want[last]:
                fail("the last field alone is read differently")
            rec.step(3)
            rec.state(where, *which, repr(given))
        rec.traced()

    return body


LENGTHS = (63, 64, 127, 128, 255, 256, 1023, 4095, 4096, 8191, 8192, 66000)


def long(thorough_lengths):
    return lambda ch, rec: long_text(ch, rec, thorough_lengths)


def long_text(ch, rec, thorough_lengths):
    """Longer texts than any buffer."""
    zero = ch.flag()
    encoding = ch.choose(("iso-8859-1", "utf-8", "utf-16-le", "utf-32-be", "shift_jis", "gb18030"))
    n = ch.choose(LENGTHS)
    char = ch.choose([c for c in CHARS if c != "\0" and raw_of(c, encoding) is not None][:: 3 - 2 * thorough_lengths])
    lead = ch.pick(2)
    text = "z" * lead + char * n
    raw = raw_of(text + ("\0" if zero else ""), encoding)
    for size, pad in ((None, None), (len(raw), None), (len(raw) + 5, b"\0"), (len(raw) - 1, b" ")):
        if size is None and not zero:
            continue
        cls = between(field_of(zero, encoding, size, pad))
        alone = field_of(zero, encoding, size, pad, name="x")
        rec.case = lambda: f"StringZ {zero}, {encoding}, size {size}: {n} times {char!r} after {lead}"
        check_text(alone, cls, text, encoding, size, pad, zero, rec)
        if zero and size is None:
            check_data(alone, raw[: -unit(encoding)], encoding, size, zero, rec)
    rec.traced()
    rec.state(zero, encoding, n, char, lead)


def bodies(tier, seed):
    thorough = tier == "thorough"
    out = {
        "texts": texts(4 if thorough else 3),
        "data": data(6 if thorough else 4),
        "sources": sources,
        "fixed-values": fixed_values,
        "neighbours": neighbours(2),
        "long": long(thorough),
    }
    if thorough:
        out["three-neighbours"] = neighbours(3)
    watchers = [see_bytes, see_size, see_loaded]
    depth = 4 if tier == "thorough" else 3
    out["histories"] = history_body(watchers, depth, has(Str, StrZ))
    return out
