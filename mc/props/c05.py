"""C05: truncation is detected at every cut point."""

from mc.history import history_body
from mc.history import see_cuts
from mc.items import KINDS
from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.lib import same
from mc.lib import stream_at
from mc.model import plain
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; every cut of every serialization of: every field kind in every position, all"
    " ordered pairs of items, all triples of small items (first three assignments), with"
    " and without inheritance; complete loads, partial loads with and without a last field; every byte of every"
    " field kind in every position changed in five ways; 15 numbers"
    " (negative, too large) as sizes of 7 sorts of fields, from 6 sorts of numbers, before 0 to 5 bytes",
    "thorough": "histories of 4 moves; quick with all assignments, plus all quadruples of small items and all"
    " triples of items",
}
ASSUMPTIONS = ["structures that extend to the end of the data are exempt, as stated"]


def judge_with(limit, named):
    def judge(case, rec):
        from binobj import errors

        spec = case.spec
        if spec.greedy():
            return
        cls = spec.build()
        names = spec.names()
        for assign in case.assigns[:limit]:
            pieces = spec.pieces(assign)
            raw = b"".join(p or b"" for _f, p in pieces)
            ends, pos = [], 0
            for _f, p in pieces:
                pos += len(p or b"")
                ends.append(pos)
            loaded = spec.loaded(assign)
            for cut in range(len(raw)):
                data = raw[:cut]
                note(rec, spec, values=assign, data=raw, cut=cut)
                how, got = attempt(cls.from_bytes, data, exact=bool(cut % 2))
                if how == "ok":
                    fail(f"the cut data loads, as {got!r}")
                if not isinstance(got, errors.UnexpectedEOFError):
                    fail(f"a complete load raises {got!r}, not UnexpectedEOFError")
                complete = [n for n, e in zip(names, ends) if e <= cut]
                # A field that takes no space counts only if what precedes it is there.
                end = ends[len(complete) - 1] if complete else 0
                before = bytes([0x55]) * (cut % 3)
                stream = stream_at(data, before)
                part = cls.partial_load(stream)
                expected = {n: loaded[n] for n in complete if n in loaded}
                same({n: plain(part[n]) for n in part}, expected, "partial load")
                if stream.tell() != len(before) + end:
                    fail(
                        f"the partial load leaves the stream at {stream.tell()}, the last"
                        f" complete field ends at {len(before) + end}"
                    )
                rec.step(2)
                rec.outcome(len(complete), len(names))
                if named and len(complete) < len(names):
                    # The first incomplete field, and the last one.
                    for name in {names[len(complete)], names[-1]}:
                        stream = stream_at(data, before)
                        how, got = attempt(cls.partial_load, stream, name)
                        if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
                            fail(f"partial_load up to {name}: {how} {got!r}")
                        rec.step()
                rec.state(repr(spec), repr(assign), cut)
            rec.traced()
            rec.maximum("longest serialization", len(raw))
        rec.sample(f"{spec!r}")

    return judge


def corruptions(raw):
    """The data with one byte changed, in several ways, and possibly cut after it."""
    for i, b in enumerate(raw):
        for new in {b ^ 0xFF, b ^ 0x80, b ^ 0x01, 0x00, 0xC3} - {b}:
            yield i, raw[:i] + bytes([new]) + raw[i + 1 :]
            yield i, raw[:i] + bytes([new])


def judge_malformed(case, rec):
    """Partial loads stop at the end of the data, and at nothing else."""
    from binobj import errors

    spec = case.spec
    cls = spec.build()
    names = spec.names()
    for assign in case.assigns:
        raw = b"".join(p or b"" for _f, p in spec.pieces(assign))
        for at, data in corruptions(raw):
            note(rec, spec, values=assign, data=data, corrupted=at)
            stream = stream_at(data, b"..")
            how, got = attempt(cls.from_stream, stream)
            where = stream.tell()
            stream = stream_at(data, b"..")
            part_how, part = attempt(cls.partial_load, stream)
            rec.step(2)
            if how == "ok":
                if part_how != "ok":
                    fail(f"it can be loaded, but not partially: {part!r}")
                want = {n: plain(got[n]) for n in got}
                same({n: plain(part[n]) for n in part}, want, "partial load")
                if stream.tell() != where:
                    fail(f"the partial load ends at {stream.tell()}, not {where}")
                rec.outcome("ok")
            elif isinstance(got, errors.UnexpectedEOFError):
                if part_how != "ok":
                    fail(f"a partial load of what ends early raises {part!r}")
                rec.outcome("end")
                # Up to a field that's there it's the same, up to the next it isn't.
                have = [n for n in names if n in part]
                for name in have[-1:]:
                    again = stream_at(data, b"..")
                    if attempt(cls.partial_load, again, name)[0] != "ok":
                        fail(f"{name} can be loaded only if it isn't named")
                    if again.tell() > stream.tell():
                        fail(f"{name} ends at {again.tell()}, or at {stream.tell()}")
                    rec.step()
            else:
                if part_how == "ok" or type(part) is not type(got):
                    fail(f"a complete load raises {got!r}, a partial one: {part!r}")
                rec.outcome(type(got).__name__)
                # Named, the fields before the one that's wrong can still be loaded.
                bad = getattr(part, "field", None)
                failed = False
                for name in names:
                    how, got = attempt(cls.partial_load, stream_at(data, b".."), name)
                    rec.step()
                    if failed and how == "ok":
                        fail(f"the load up to {name} ignores an error before it")
                    if how != "ok":
                        failed = True
                        if type(got) is not type(part):
                            fail(f"{part!r} up to everything, but {got!r} to {name}")
                if not failed:
                    fail(f"{bad}: every field can be loaded, but not everything: {part!r}")
        rec.state(repr(spec), repr(assign), "malformed")
        rec.traced()


def alone(ch, rec):
    from binobj import errors
    from binobj import fields as F

    kind = ch.choose(KINDS)()
    field = kind.make(F, name="x")
    for v in kind.values:
        raw = kind.enc(v, {})
        for cut in range(len(raw)):
            rec.case = lambda: f"field {kind!r}, value {v!r}, cut at {cut} of {len(raw)}"
            how, got = attempt(field.from_bytes, raw[:cut])
            if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
                fail(f"Field.from_bytes of the cut data: {how} {got!r}")
            how, got = attempt(field.from_stream, stream_at(raw[:cut], b"123"))
            if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
                fail(f"Field.from_stream of the cut data: {how} {got!r}")
            rec.step(2)
            rec.state("alone", kind.name, repr(v), cut)
        rec.traced()


def sizes(ch, rec):
    """The size of a field is taken from another one: too large, just right, negative."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    make_n, least = ch.choose((
        (lambda: F.Int8(), -(1 << 7)),
        (lambda: F.Int16(endian="little"), -(1 << 15)),
        (lambda: F.Int64(endian="big"), -(1 << 63)),
        (lambda: F.VariableLengthInteger(
            vli_format=binobj.varints.VarIntEncoding.LEB128), None),
        (lambda: F.VariableLengthInteger(
            vli_format=binobj.varints.VarIntEncoding.COMPACT_INDICES), None),
        (lambda: F.UInt8(), 0),
    ))
    make_v = ch.choose((
        lambda n: F.Bytes(size=n),
        lambda n: F.String(size=n, encoding="ascii"),
        lambda n: F.String(size=n, encoding="latin-1", pad_byte=b" "),
        lambda n: F.Bytes(size=n, null_value=b"zz"),
        lambda n: F.Bytes(size=n, present=lambda *_: True),
        lambda n: F.Array(F.Bytes(size=n), count=1),
        lambda n: F.Union(
            F.Bytes(size=n),
            load_decider=lambda s, c, *_: c[0],
            dump_decider=lambda d, c, *_: c[0],
        ),
    ))
    by_name, nested = ch.flag(), ch.flag()
    number = make_n()
    inner = type("S", (binobj.Struct,), {
        "n": number, "v": make_v("n" if by_name else number), "w": F.UInt8(),
    })
    cls = type("Outer", (binobj.Struct,), {"s": F.Nested(inner)}) if nested else inner
    high = {-(1 << 7): 127, 0: 255}.get(least, 1 << 14)
    low = [] if least == 0 else [-1, -2, -3, -64, -65, -127]
    if least and least < -128:
        low += [-(1 << 14), least]
    for n in [*low, 0, 1, 2, 3, 4, high]:
        head = number.to_bytes(n)
        for follows in (0, 1, 2, 3, 4, 5):
            tail = b"abcde"[:follows]
            before = bytes(follows % 3)
            rec.case = lambda: (
                f"{type(number).__name__} {n} as the size of {cls.__name__}.v, {tail!r} follows"
            )
            ok = 0 <= n < follows
            value = tail[:n] if ok else None
            ways = {
                "from_stream": lambda s: cls.from_stream(s),
                "partial_load": lambda s: cls.partial_load(s),
            }
            if not nested:
                ways["partial_load to w"] = lambda s: cls.partial_load(s, "w")
                ways["partial_load to v"] = lambda s: cls.partial_load(s, "v")
                ways["get_field"] = lambda s: cls.get_field(s, "v")
                ways["get_field w"] = lambda s: cls.get_field(s, "w")
            for way, run in ways.items():
                stream = stream_at(head + tail, before)
                start = stream.tell()
                how, got = attempt(run, stream)
                reach = n < follows or (
                    n == follows and way in ("partial_load to v", "get_field")
                )
                if n < 0:
                    if how == "ok":
                        fail(f"{way} with a negative size gives {got!r}")
                    if not isinstance(got, errors.DeserializationError):
                        fail(f"{way} with a negative size raises {got!r}")
                elif reach:
                    if how != "ok":
                        fail(f"{way} raises {got!r}")
                elif way == "partial_load":
                    if how != "ok":
                        fail(f"{way} raises {got!r}")
                    have = set(got)
                    want = set() if nested else {"n", "v"} if n == follows else {"n"}
                    if have != want:
                        fail(f"{way} gives {have}, not {want}")
                    at = 0 if nested else len(head) + (n if n == follows else 0)
                    if stream.tell() != start + at:
                        fail(f"{way} leaves the stream at {stream.tell() - start}, not {at}")
                elif how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
                    fail(f"{way}: {how} {got!r}")
                if way.startswith("get_field") and stream.tell() != start:
                    fail(f"{way} leaves the stream at {stream.tell() - start}")
                if ok and way == "from_stream":
                    inner_got = got["s"] if nested else got
                    v = inner_got["v"]
                    v = v[0] if isinstance(v, list) else v
                    v = v.encode() if isinstance(v, str) else v
                    same((inner_got["n"], v), (n, value), "loaded")
                    if stream.tell() != start + len(head) + n + 1:
                        fail(f"{way} leaves the stream at {stream.tell() - start}")
                rec.step()
            rec.state("sizes", n, follows)
    rec.traced()


def bodies(tier, seed):
    full = tier == "thorough"
    fams = families(tier)
    out = {}
    for name, make in fams.items():
        limit = None if full or name in ("wide",) else 3
        out.update(each_case(judge_with(limit, True), {name: make}))
    out["alone"] = alone
    out["sizes"] = sizes
    out.update(each_case(judge_malformed, {"malformed": fams["wide"]}))
    out["histories"] = history_body([see_cuts], 4 if tier == "thorough" else 3)
    return out
